#!/usr/bin/env python3
"""check.py PROPERTY            decide one property on /repo's working tree (VERIF_SEED, VERIF_TIER)
   check.py --replay FILE      replay a reported violation
   check.py --list             properties with a check"""
import concurrent.futures, hashlib, json, os, shutil, signal, subprocess, sys, tempfile, threading, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from vf import build, tlc, props

HANG = 150
LOCK = threading.Lock()


def say(*a):
    print(*a)
    sys.stdout.flush()


class Ctx(object):
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        base = os.environ.get('TMPDIR', '/tmp')
        self.scratch = tempfile.mkdtemp(prefix='verif-%s-' % pid, dir=base)
        self.lib = None
        self.violations = []
        self.stop = False
        self.t0 = time.time()
        self.jobs = []
        self.totals = dict(states=0, transitions=0)
        self.results = []
        self.design = []
        self.errors = []


def run_worker(ctx, job, beh, variant, shard, tag):
    """One replay process; returns its result dict (with 'violation' set for crashes and hangs)."""
    d = os.path.join(ctx.scratch, 'w-%s-%s' % (job['name'], tag))
    os.makedirs(d)
    spec = dict(lib=ctx.lib, repo=build.REPO, behaviours=beh, shard=shard, seed=ctx.seed,
                progress=os.path.join(d, 'progress'), result=os.path.join(d, 'result.json'),
                deadline=job.get('deadline', 30 if ctx.tier == 'quick' else 600))
    spec.update(variant)
    with open(spec['progress'], 'w') as f:
        f.write('%12d' % -1)
    sf = os.path.join(d, 'spec.json')
    with open(sf, 'w') as f:
        json.dump(spec, f)
    env = build.clean_env(ctx.scratch)
    env['PYTHONHASHSEED'] = str(ctx.seed % 4294967295)
    if variant['impl'] == 'py':
        env['PYRSISTENT_NO_C_EXTENSION'] = '1'
    env.update(variant.get('env', {}))
    log = open(os.path.join(d, 'log'), 'w+')
    p = subprocess.Popen([build.PY, '-u', os.path.join(HERE, 'vf', 'worker.py'), sf], stdout=log, stderr=subprocess.STDOUT,
                         env=env, cwd=d, start_new_session=True)
    last, since = None, time.time()
    hang = False
    while True:
        try:
            p.wait(timeout=0.5)
            break
        except subprocess.TimeoutExpired:
            pass
        cur = open(spec['progress']).read()
        if cur != last:
            last, since = cur, time.time()
        elif time.time() - since > HANG:
            hang = True
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            break
        if ctx.stop:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            return None
    if os.path.exists(spec['result']):
        res = json.load(open(spec['result']))
    else:
        n = int(open(spec['progress']).read())
        log.seek(0)
        tail = log.read()[-3000:]
        if not hang and p.returncode >= 0:
            raise RuntimeError('worker %s failed (%s):\n%s' % (d, p.returncode, tail))
        ft = ''
        if os.path.exists(spec['result'] + '.fault'):
            ft = open(spec['result'] + '.fault').read()[:1500]
        b = []
        if n >= 0:
            with open(beh) as f:
                for i, line in enumerate(f):
                    if i == n:
                        b = json.loads(line)
        if n < 0 and not hang:
            raise RuntimeError('worker %s died before the first behaviour:\n%s' % (d, tail))
        res = dict(behaviours=0, steps=0, judged=0, probed=0, samples=[], ops={}, distinct=0, extra={}, timeout=False,
                   violation=dict(index=n, cat='crash', pos=len(b), behaviour=b,
                                  msg='%s while replaying behaviour %d\n%s%s' % (
                                      'no progress for %d s' % HANG if hang else 'killed by signal %d' % -p.returncode, n, ft, tail)))
    res['variant'] = variant
    res['job'] = job['name']
    if not os.environ.get('VERIF_KEEP'):
        shutil.rmtree(d, ignore_errors=True)
    return res


def report(ctx, job, res):
    v = res['violation']
    with LOCK:
        if ctx.violations and not os.environ.get('VERIF_ALL'):
            return
        rdir = os.path.join(HERE, 'replays')
        os.makedirs(rdir, exist_ok=True)
        body = dict(property=ctx.pid, job=job['name'], variant=res['variant'], seed=ctx.seed, **v)
        name = '%s-%s-%s.json' % (ctx.pid, job['name'], hashlib.sha1(json.dumps(body, sort_keys=True).encode()).hexdigest()[:10])
        path = os.path.join(rdir, name)
        with open(path, 'w') as f:
            json.dump(body, f)
        ctx.violations.append(path)
        say('  job %s, implementation %s, behaviour %s, step %s, category %s:' % (
            job['name'], res['variant']['impl'], v['index'], v['pos'], v['cat']))
        say('  ' + v['msg'].replace('\n', '\n  '))
        say('VIOLATION property=%s replay=%s' % (ctx.pid, path))
        if not os.environ.get('VERIF_ALL'):
            ctx.stop = True


def run_job(ctx, job, pool):
    """TLC, then the replays it feeds."""
    if ctx.stop:
        return
    t = time.time()
    beh, st = tlc.run(job['module'], job['cfg'], ctx.scratch, job['name'], simulate=job.get('simulate'),
                      depth=job.get('depth'), seed=ctx.seed * 7 + job.get('seed', 0), workers=job.get('workers', 1),
                      timeout=job.get('tlc_timeout', 480 if ctx.tier == 'quick' else 3600), heap=job.get('heap', '2g'),
                      behaviours=not job.get('design'), constants=job.get('extra_files'))
    with LOCK:
        ctx.totals['states'] += st['states']
        ctx.totals['transitions'] += st['transitions']
        ctx.design.append(dict(job=job['name'], module=job['module'], exhaustive=not job.get('simulate'), states=st['states'],
                               transitions=st['transitions'], behaviours=st['behaviours'], wall_s=round(time.time() - t, 1)))
    if job.get('design'):
        return
    if st['behaviours'] == 0:
        raise RuntimeError('no behaviours from ' + job['name'])
    futs = []
    for vi, variant in enumerate(job['variants']):
        n = variant.pop('shards', job.get('shards', 1)) if isinstance(variant, dict) else 1
        for s in range(n):
            futs.append(pool.submit(run_worker, ctx, job, beh, variant, [s, n], '%d-%d' % (vi, s)))
    for f in concurrent.futures.as_completed(futs):
        res = f.result()
        if res is None:
            continue
        with LOCK:
            ctx.results.append(res)
        if res['violation']:
            report(ctx, job, res)
    if not os.environ.get('VERIF_KEEP'):
        shutil.rmtree(os.path.dirname(beh), ignore_errors=True)


def evidence(ctx):
    ops = {}
    for r in ctx.results:
        for k, n in r['ops'].items():
            ops[k] = ops.get(k, 0) + n
    samples = []
    for r in ctx.results:
        if r['samples'] and len(samples) < 3:
            samples.append(dict(job=r['job'], implementation=r['variant']['impl'], behaviour_prefix=r['samples'][0]))
    extra = {}
    for r in ctx.results:
        for k, n in r['extra'].items():
            extra[k] = extra.get(k, 0) + n if isinstance(n, (int, float)) else n
    cov = dict(states=ctx.totals['states'], transitions=ctx.totals['transitions'],
               traces_validated_against_impl=sum(r['behaviours'] for r in ctx.results),
               distinct_behaviours_per_replay=sum(r['distinct'] for r in ctx.results),
               operations_replayed=sum(r['steps'] for r in ctx.results),
               results_judged=sum(r['judged'] for r in ctx.results),
               whole_value_probes=sum(r['probed'] for r in ctx.results),
               operation_outcomes=dict(sorted(ops.items())),
               tlc_runs=sorted(ctx.design, key=lambda d: d['job']),
               replays=[dict(job=r['job'], implementation=r['variant']['impl'], mode=r['variant'].get('mode', 'plain'),
                             behaviours=r['behaviours'], operations=r['steps'], cut_by_time=r['timeout'])
                        for r in sorted(ctx.results, key=lambda r: (r['job'], str(r['variant'])))],
               samples=samples)
    cov.update(extra)
    return dict(property=ctx.pid, tier=ctx.tier, seed=ctx.seed, level=props.LEVEL.get(ctx.pid, 'model_checking'), coverage=cov,
                assumptions=props.ASSUMPTIONS.get(ctx.pid, []) + props.COMMON_ASSUMPTIONS,
                wall_s=round(time.time() - ctx.t0, 2), violations=len(ctx.violations))


def check(pid, tier, seed):
    ctx = Ctx(pid, tier, seed)
    rc = 2
    try:
        ctx.jobs = props.jobs(pid, tier)
        only = os.environ.get('VERIF_ONLY')
        if only:
            ctx.jobs = [j for j in ctx.jobs if only in j['name']]
        ctx.lib = build.build(ctx.scratch)
        ncpu = int(os.environ.get('VERIF_CPUS', '8'))
        jp = concurrent.futures.ThreadPoolExecutor(ncpu if tier == 'quick' else 4)
        wp = concurrent.futures.ThreadPoolExecutor(ncpu)
        futs = [jp.submit(run_job, ctx, j, wp) for j in ctx.jobs]
        for f in concurrent.futures.as_completed(futs):
            try:
                f.result()
            except Exception as e:
                if not ctx.stop:
                    ctx.errors.append(traceback.format_exc())
                    ctx.stop = True
        for line in props.known(pid, ctx):
            say(line)
        if ctx.violations:
            rc = 1
        elif ctx.errors:
            for e in ctx.errors:
                sys.stderr.write(e)
            rc = 2
        else:
            rc = 0
        ev = evidence(ctx)
        evdir = os.environ.get('VERIF_EVIDENCE', os.path.join(HERE, 'evidence'))
        os.makedirs(evdir, exist_ok=True)
        with open(os.path.join(evdir, pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        c = ev['coverage']
        say('%s %s: %d states, %d transitions, %d behaviours replayed, %d operations, %.1f s%s' % (
            pid, tier, c['states'], c['transitions'], c['traces_validated_against_impl'], c['operations_replayed'], ev['wall_s'],
            '' if rc == 0 else ' -- ' + {1: 'VIOLATED', 2: 'ERROR'}[rc]))
        return rc
    finally:
        if os.environ.get('VERIF_KEEP'):
            say('kept ' + ctx.scratch)
        else:
            shutil.rmtree(ctx.scratch, ignore_errors=True)


def replay(path):
    body = json.load(open(path))
    ctx = Ctx(body['property'], 'quick', body['seed'])
    try:
        ctx.lib = build.build(ctx.scratch)
        beh = os.path.join(ctx.scratch, 'b.ndjson')
        with open(beh, 'w') as f:
            f.write(json.dumps(body['behaviour']) + '\n')
        res = run_worker(ctx, dict(name='replay', deadline=600), beh, body['variant'], [0, 1], 'r')
        v = res['violation']
        if v:
            say('step %s, category %s: %s' % (v['pos'], v['cat'], v['msg']))
            say('VIOLATION property=%s replay=%s' % (body['property'], path))
            return 1
        say('no violation')
        return 0
    finally:
        shutil.rmtree(ctx.scratch, ignore_errors=True)


if __name__ == '__main__':
    a = sys.argv[1:]
    if a == ['--list']:
        print('\n'.join(sorted(props.JOBS)))
        sys.exit(0)
    if a[0] == '--replay':
        sys.exit(replay(a[1]))
    sys.exit(check(a[0], os.environ.get('VERIF_TIER', 'quick'), int(os.environ.get('VERIF_SEED', '1'))))
