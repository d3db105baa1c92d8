"""Running TLC and collecting the behaviours it prints."""
import hashlib, json, os, re, shutil, subprocess

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class TlcError(Exception):
    pass


def cfg_text(consts, spec='Spec', invariants=(), properties=(), constraint=None, view=None, postcondition=None):
    out = ['CONSTANTS'] if consts else []
    for k, v in consts.items():
        if isinstance(v, str) and v.startswith('<-'):
            out.append('  %s <- %s' % (k, v[2:].strip()))
        else:
            out.append('  %s = %s' % (k, tla(v)))
    out.append('SPECIFICATION ' + spec)
    for i in invariants:
        out.append('INVARIANT ' + i)
    for i in properties:
        out.append('PROPERTY ' + i)
    if constraint:
        out.append('CONSTRAINT ' + constraint)
    if view:
        out.append('VIEW ' + view)
    if postcondition:
        out.append('POSTCONDITION ' + postcondition)
    out.append('CHECK_DEADLOCK FALSE')
    return '\n'.join(out) + '\n'


def tla(v):
    if v is True:
        return 'TRUE'
    if v is False:
        return 'FALSE'
    if isinstance(v, str):
        return v[1:] if v.startswith('=') else '"%s"' % v
    if isinstance(v, (set, frozenset, list, tuple)):
        return '{' + ', '.join(tla(x) for x in (sorted(v) if isinstance(v, (set, frozenset)) else v)) + '}'
    return str(v)


def run(module, cfg, scratch, name, simulate=None, depth=None, seed=1, workers=1, timeout=600, heap='2g', behaviours=True,
        env=None, constants=None):
    """Runs TLC; returns (path of the behaviour file, stats).  The behaviours are one JSON document per line."""
    d = os.path.join(scratch, 'tlc-' + name)
    os.makedirs(d, exist_ok=True)
    cfgf = os.path.join(d, name + '.cfg')
    with open(cfgf, 'w') as f:
        f.write(cfg)
    cmd = ['java', '-XX:+UseSerialGC', '-Xss512m' if workers == 1 else '-Xss64m', '-Xmx' + heap, '-XX:TieredStopAtLevel=%d' % (1 if simulate else 4),
           '-Djava.io.tmpdir=' + d, '-cp', CP, 'tlc2.TLC',
           '-workers', str(workers), '-metadir', os.path.join(d, 'states'), '-config', cfgf, '-noGenerateSpecTE']
    if simulate:
        cmd += ['-simulate', 'num=%d' % simulate, '-depth', str(depth), '-seed', str(seed)]
    cmd.append(os.path.join(SPEC, module + '.tla'))
    out = os.path.join(d, 'out.txt')
    beh = os.path.join(d, 'behaviours.ndjson')
    cache = os.environ.get('VERIF_TLC_CACHE')      # development only: what TLC gives does not depend on the code under test
    if cache:
        key = hashlib.sha1(repr((module, cfg, simulate, depth, seed, [open(os.path.join(SPEC, f)).read() for f in sorted(os.listdir(SPEC))
                                 if f in (module + '.tla', 'Runs.tla')])).encode()).hexdigest()
        cached = os.path.join(cache, key)
        if os.path.exists(cached + '.json'):
            os.symlink(cached + '.ndjson', beh)
            return beh, json.load(open(cached + '.json'))
    e = dict(os.environ)
    e.update(env or {})
    with open(out, 'w') as f:
        try:
            rc = subprocess.call(cmd, stdout=f, stderr=subprocess.STDOUT, timeout=timeout, cwd=d, env=e)
        except subprocess.TimeoutExpired:
            raise TlcError('TLC timed out after %ss: %s' % (timeout, name))
    n = 0
    states = trans = distinct = 0
    tail = []
    with open(out) as f, open(beh, 'w') as g:
        for line in f:
            if line.startswith('"'):
                if behaviours:
                    g.write(json.loads(line))
                    g.write('\n')
                n += 1
                continue
            tail.append(line)
            m = re.match(r'(\d+) states generated, (\d+) distinct', line)
            if m:
                states, distinct = int(m.group(1)), int(m.group(2))
            m = re.match(r'The number of states generated: (\d+)', line)
            if m:
                states = distinct = int(m.group(1))
    if rc != 0:
        raise TlcError('TLC exit %s for %s:\n%s' % (rc, name, ''.join(tail[-60:])))
    os.unlink(out)
    st = dict(states=distinct, transitions=states, behaviours=n, rc=rc, log=''.join(tail[-12:]))
    if cache:
        shutil.copy(beh, cached + '.ndjson.%d' % os.getpid())
        os.rename(cached + '.ndjson.%d' % os.getpid(), cached + '.ndjson')
        with open(cached + '.json', 'w') as f:
            json.dump(st, f)
    return beh, st
