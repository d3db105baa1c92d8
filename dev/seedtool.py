#!/usr/bin/env python3
"""Development tool (no check uses it): builds seeded/<id> from a definition and tries it out in a scratch copy.

  seedtool.py make DEFS.py [ID...]   write seeded/<id>/ from definitions (patch from string replacements)
  seedtool.py try ID...              in scratch copies: builds, stable tests pass, demo discriminates
  seedtool.py check ID... [--all]    run the property's check (or all checks) on a patched scratch copy
"""
import importlib.util, json, os, shutil, subprocess, sys, tempfile, concurrent.futures
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, 'seeded')


def copy(tag):
    d = tempfile.mkdtemp(prefix='seed-%s-' % tag, dir='/tmp')
    w = os.path.join(d, 'repo')
    subprocess.check_call(['git', 'clone', '-q', '/repo', w])
    for f in os.listdir('/repo'):
        if f.startswith('pvectorc') and f.endswith('.so'):
            shutil.copy2(os.path.join('/repo', f), w)
    os.makedirs(w + '/build', exist_ok=True)
    if os.path.exists('/repo/build/pvectorc.stamp'):
        shutil.copy2('/repo/build/pvectorc.stamp', w + '/build/pvectorc.stamp')
    return d, w


def script(d, w, name):
    s = open('/opt/vp/' + name).read().replace('/opt/vp/build.sh', d + '/build.sh').replace('/repo', w)
    p = os.path.join(d, name)
    open(p, 'w').write(s)
    return p


def make(defs, ids):
    spec = importlib.util.spec_from_file_location('defs', defs)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    for sid, sd in m.SEEDS.items():
        if ids and sid not in ids:
            continue
        d, w = copy(sid)
        try:
            for f, old, new in sd['edits']:
                p = os.path.join(w, f)
                s = open(p).read()
                if s.count(old) != 1:
                    print(sid, 'edit does not apply uniquely:', s.count(old), repr(old[:80]))
                    break
                open(p, 'w').write(s.replace(old, new))
            else:
                out = os.path.join(S, sid)
                os.makedirs(out, exist_ok=True)
                diff = subprocess.check_output(['git', '-C', w, 'diff'], text=True)
                open(out + '/patch.diff', 'w').write(diff)
                open(out + '/demo.py', 'w').write(sd['demo'].lstrip('\n'))
                env = sd.get('env', '')
                open(out + '/demo.sh', 'w').write('#!/bin/bash\n# run in the repository after building it\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1%s\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n' % (' ' + env if env else ''))
                os.chmod(out + '/demo.sh', 0o755)
                json.dump(dict(property=sd['property'], needs=sd['needs'], what_it_breaks=sd['breaks']), open(out + '/meta.json', 'w'), indent=1)
                print(sid, 'written')
        finally:
            shutil.rmtree(d)


def try_(sid):
    d, w = copy(sid)
    try:
        b, t = script(d, w, 'build.sh'), script(d, w, 'test.sh')
        demo = os.path.join(S, sid, 'demo.sh')
        subprocess.run(['bash', b], capture_output=True, check=True)
        r = subprocess.run(['bash', demo], cwd=w, capture_output=True, text=True, timeout=300)
        if r.returncode:
            return sid, 'BAD: demo fails on the unchanged tree: ' + r.stdout + r.stderr[-500:]
        subprocess.check_call(['git', '-C', w, 'apply', os.path.join(S, sid, 'patch.diff')])
        r = subprocess.run(['bash', b], capture_output=True, text=True)
        if r.returncode:
            return sid, 'BAD: does not build: ' + r.stderr[-500:]
        r = subprocess.run(['bash', demo], cwd=w, capture_output=True, text=True, timeout=300)
        if r.returncode == 0:
            return sid, 'BAD: demo does not fail with the patch'
        why = (r.stdout + r.stderr).strip().split('\n')[-1]
        subprocess.run(['bash', t, d + '/out.json'], capture_output=True, text=True)
        out = json.load(open(d + '/out.json'))
        stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        passed = set(out.get('passed') or out['pass'])
        bad = sorted(stable - passed)
        if bad:
            return sid, 'BAD: %d stable tests fail: %s' % (len(bad), bad[:5])
        return sid, 'ok (%s)' % why[:150]
    finally:
        shutil.rmtree(d)


def check(sid, pids, cpus='8'):
    d, w = copy(sid)
    try:
        subprocess.check_call(['git', '-C', w, 'apply', os.path.join(S, sid, 'patch.diff')])
        res = []
        for p in pids:
            r = subprocess.run([sys.executable, V + '/check.py', p], capture_output=True, text=True,
                               env=dict(os.environ, VERIF_REPO=w, VERIF_CPUS=cpus, VERIF_EVIDENCE=d, VERIF_SEED=os.environ.get('VERIF_SEED', '1')))
            lines = [l for l in r.stdout.split('\n') if l.startswith('  ')][:2]
            res.append((p, r.returncode, ' | '.join(lines)[:260] if r.returncode == 1 else r.stderr[-300:] if r.returncode else ''))
        return sid, res
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    a = sys.argv[1:]
    if a[0] == 'make':
        make(a[1], a[2:])
    elif a[0] == 'try':
        ids = a[1:] or sorted(os.listdir(S))
        with concurrent.futures.ThreadPoolExecutor(6) as ex:
            for sid, r in ex.map(try_, ids):
                print(sid, r, flush=True)
    elif a[0] == 'check':
        ids = [x for x in a[1:] if not x.startswith('--')] or sorted(os.listdir(S))
        def one(sid):
            p = json.load(open(os.path.join(S, sid, 'meta.json')))['property']
            pids = [p]
            if '--all' in a:
                pids = subprocess.check_output([sys.executable, V + '/check.py', '--list'], text=True).split()
            return check(sid, pids, '4' if '--par' in a else '8')
        with concurrent.futures.ThreadPoolExecutor(3 if '--par' in a else 1) as ex:
            for sid, res in ex.map(one, ids):
                for p, rc, msg in res:
                    print(sid, p, {0: 'MISSED', 1: 'caught', 2: 'ERROR'}.get(rc, rc), msg, flush=True)
