"""Replays a file of behaviours in a fresh interpreter.  Called by check.py: worker.py SPEC.json"""
import faulthandler, json, os, random, sys, time, zlib

spec = json.load(open(sys.argv[1]))
sys.path[:0] = [spec['lib'], spec['repo'], os.path.dirname(os.path.dirname(os.path.abspath(__file__)))]
faulthandler.enable(open(spec['result'] + '.fault', 'w'))
sys.setrecursionlimit(20000)

from vf import registry
from vf.engine import Violation


def main():
    t0 = time.time()
    beh_file, start, stride = spec['behaviours'], spec['shard'][0], spec['shard'][1]
    progress = open(spec['progress'], 'r+b', 0)
    res = dict(behaviours=0, steps=0, judged=0, probed=0, events=0, violation=None, samples=[], ops={}, timeout=False, extra={})
    eng = registry.engine(spec)
    seen = set()
    with open(beh_file) as f:
        for n, line in enumerate(f):
            if n % stride != start:
                continue
            if time.time() - t0 > spec['deadline']:
                res['timeout'] = True
                break
            progress.seek(0)
            progress.write(b'%12d' % n)
            beh = json.loads(line)
            eng.rng.seed(spec['seed'] * 1000003 + zlib.crc32(line.encode()))
            if hasattr(eng.ad, 'rng'):
                eng.ad.rng.seed(spec['seed'] * 7919 + zlib.crc32(line.encode()))
            v = eng.run(beh)
            res['behaviours'] += 1
            for e in beh:
                k = e['op'] + ':' + e['o']
                res['ops'][k] = res['ops'].get(k, 0) + 1
            seen.add(zlib.crc32(line.encode()))
            if n == start and len(line) < 6000:
                res['samples'].append(beh[:12])
            if v is not None:
                res['violation'] = dict(index=n, cat=v.cat, msg=v.msg, pos=v.pos, behaviour=beh)
                break
    try:
        eng.close()
    except Violation as v:
        res['violation'] = dict(index=-1, cat=v.cat, msg=v.msg, pos=-1, behaviour=[])
    res['steps'], res['judged'], res['probed'] = eng.steps, eng.judged, eng.probed
    res['distinct'] = len(seen)
    res['extra'] = getattr(eng, 'extra', {})
    res['wall'] = time.time() - t0
    with open(spec['result'] + '.tmp', 'w') as g:
        json.dump(res, g, default=repr)
    os.rename(spec['result'] + '.tmp', spec['result'])
    sys.stdout.flush()
    os._exit(0)


main()
