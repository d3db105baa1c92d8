"""Which TLC runs and which replays decide each property."""
import subprocess
from . import build, findings
from .tlc import cfg_text

LEVEL = {}
TECH = 'TLA+ specification checked with TLC; all its generated behaviours replayed on the real code (spec-to-code conformance)'
NOTE0 = ('Bounded: the specification is model checked within its constants and every behaviour TLC produces is replayed on the C and the pure '
         'Python configuration of the working tree, comparing each result and all older values. Exhaustive for the small configurations, '
         'seeded simulation for the large ones. Trusts TLC, CPython and the replay driver.')
TECHNIQUE, NOTE, NOT_YET = {}, {}, {}
COMMON_ASSUMPTIONS = [
    'CPython 3.12 with the GIL; the replay driver (vf/) and TLC 1.8.0 are trusted',
    'simulation runs sample the histories of the specification with VERIF_SEED; exhaustive runs cover all histories within their constants',
]
ASSUMPTIONS = {}
JOBS = {}


def prop(pid):
    def d(f):
        JOBS[pid] = f
        return f
    return d


def jobs(pid, tier):
    return JOBS[pid](tier == 'thorough')


def known(pid, ctx):
    """A line for each listed finding of the property that still shows."""
    out = []
    for name, text in findings.listed(pid):
        r = subprocess.run([build.PY, findings.__file__, name, ctx.lib, build.REPO], env=build.clean_env(ctx.scratch),
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
        if r.returncode == 3:
            out.append('KNOWN-FINDING: property=%s %s: %s' % (pid, name, text))
    return out


# ----------------------------------------------------------------- vectors
SMALL = {0, 1, 31, 32, 33, 64, 65}
MID = {0, 1, 32, 33, 1023, 1024, 1025, 1055, 1056, 1057, 1088}
BIG = {0, 32767, 32768, 32769, 32799, 32800, 32801, 33824}
HUGE = {1048575, 1048576, 1048607, 1048608, 1048609}


def vec(name, ops, num, depth, sizes, grow, maxlen, variants, seed=0, maxheap=30, mode='sim', **kw):
    j = dict(name=name, module='Vec', seed=seed,
             cfg=cfg_text(dict(Mode=mode, Depth=depth, InitSizes=sizes, Grow=grow, MaxLen=maxlen, OpSeq='<-' + ops, MaxHeap=maxheap),
                          invariants=['TypeOK', 'CleanIsBase', 'Emit'], properties=['Persistence', 'Isolation']),
             variants=variants)
    if mode == 'sim':
        j.update(simulate=num, depth=depth + 1)
    j.update(kw)
    return j


def var(adapter, impl, cats, mode='plain', **kw):
    eng = dict(cats=cats)
    for k in ('lenient', 'probes', 'all_evs', 'budget'):
        if k in kw:
            eng[k] = kw.pop(k)
    eng.update(kw.pop('eng', {}))
    return dict(adapter=adapter, impl=impl, mode=mode, engine=eng, **kw)


def both(adapter, cats, **kw):
    return [var(adapter, i, cats, **kw) for i in ('c', 'py')]


G_SMALL = {0, 1, 2, 31, 32, 33}
G_MID = {0, 1, 2, 31, 32, 33, 100, 960, 1024, 1057}
G_BIG = {0, 1, 32, 33, 1024, 31744, 32768}


def vec_family(p, ops, cats, t, scale=1.0, bfs=None, **kw):
    """The standard spread of vector sizes for one set of operations."""
    f = lambda n: max(20, int(n * scale * (10 if t else 1)))
    out = [
        vec(p + 'small', ops, f(1500), 24, SMALL, G_SMALL, 140, both('vec', cats, **kw), seed=1),
        vec(p + 'mid', ops, f(500), 24, MID, G_MID, 3300, both('vec', cats, **kw), seed=2),
        vec(p + 'big', ops, f(60), 16, BIG, G_BIG, 70000, both('vec', cats, **kw), seed=3, maxheap=16),
        vec(p + 'misc', ops, f(300), 24, SMALL, G_SMALL, 140, both('vec', cats, adargs=dict(elems='misc'), **kw), seed=6),
        vec(p + 'obj', ops, f(400), 24, SMALL | {1024, 1056}, G_SMALL, 1200, both('vec', cats, adargs=dict(elems='obj'), **kw), seed=4),
    ]
    if t:
        out.append(vec(p + 'huge', ops, 40, 8, HUGE, {0, 1, 32, 1000}, 1100000, both('vec', cats, **kw), seed=5, maxheap=8))
    if bfs:
        for i, (o, d, s, g) in enumerate(bfs):
            out.append(vec(p + 'all%d' % i, o, None, d, s, g, 2300, both('vec', cats, shards=2, **kw), mode='bfs', workers=1))
    return out


# ----------------------------------------------------------------- maps
ALLPAT = {'ident', 'const', 'zero', 'mod2', 'mod5', 'seq', 'neg', 'negc', 'big', 'bigneg', 'badne', 'native', 'str', 'int'}
BIGPAT = {'ident', 'mod5', 'seq', 'neg', 'big', 'bigneg', 'native', 'str', 'int'}


def mp(name, ops, num, depth, k, pats, variants, seed=0, maxheap=30, mode='sim', pre={0, 1, 2, 8, 16}, batch={0, 1, 2, 5, 12}, **kw):
    j = dict(name=name, module='Map', seed=seed,
             cfg=cfg_text(dict(Mode=mode, Depth=depth, K=k, Patterns=pats, OpSeq='<-' + ops, MaxHeap=maxheap, PreSizes=pre, Batch=batch),
                          invariants=['TypeOK', 'CleanIsBase', 'Emit'], properties=['Persistence', 'Isolation']),
             variants=variants)
    if mode == 'sim':
        j.update(simulate=num, depth=depth + 1)
    j.update(kw)
    return j


def map_family(p, ops, cats, t, scale=1.0, bfs=None, **kw):
    f = lambda n: max(20, int(n * scale * (10 if t else 1)))
    out = [
        mp(p + 'few', ops, f(2500), 24, 6, ALLPAT, both('map', cats, **kw), seed=21, pre={0, 1, 2, 3}, batch={0, 1, 2, 4}),
        mp(p + 'many', ops, f(1200), 30, 40, ALLPAT, both('map', cats, **kw), seed=22, batch={0, 1, 3, 12, 30}),
    ]
    if 'mode' not in kw:
        out.append(mp(p + 'big', ops, f(80), 12, 400, BIGPAT, both('map', cats, **kw), seed=23,
                      pre={0, 1, 64, 500}, batch={1, 90, 200, 350}, maxheap=10))
    if bfs:
        for i, (o, d, k, pats, pre) in enumerate(bfs):
            out.append(mp(p + 'all%d' % i, o, None, d, k, pats, both('map', cats, shards=2, **kw), mode='bfs', pre=pre))
    return out


# ----------------------------------------------------------------- sets and bags
def coll(name, kind, ops, num, depth, k, pats, variants, seed=0, maxheap=30, mode='sim', pre={0, 1, 2, 8, 16}, batch={0, 1, 2, 5, 12}, **kw):
    j = dict(name=name, module='Coll', seed=seed,
             cfg=cfg_text(dict(Mode=mode, Depth=depth, K=k, Patterns=pats, OpSeq='<-' + ops, MaxHeap=maxheap, PreSizes=pre, Batch=batch,
                               Kind=kind, MaxCount=50),
                          invariants=['TypeOK', 'CleanIsBase', 'Emit'] + (['Laws'] if mode == 'bfs' else []),
                          properties=['Persistence', 'Isolation']),
             variants=variants)
    if mode == 'sim':
        j.update(simulate=num, depth=depth + 1)
    j.update(kw)
    return j


def coll_family(p, kind, ops, cats, t, scale=1.0, bfs=None, **kw):
    f = lambda n: max(20, int(n * scale * (10 if t else 1)))
    kw['adargs'] = dict(kind=kind)
    out = [
        coll(p + 'few', kind, ops, f(2500), 24, 6, ALLPAT, both('coll', cats, **kw), seed=31, pre={0, 1, 2, 3}, batch={0, 1, 2, 4}),
        coll(p + 'many', kind, ops, f(1000), 28, 36, ALLPAT, both('coll', cats, **kw), seed=32, batch={0, 1, 3, 12, 30}),
    ]
    if 'mode' not in kw:
        out.append(coll(p + 'big', kind, ops, f(80), 12, 400, BIGPAT, both('coll', cats, **kw), seed=33,
                        pre={0, 1, 64, 500}, batch={1, 90, 200, 350}, maxheap=10))
    if bfs:
        for i, (o, d, k, pats, pre) in enumerate(bfs):
            out.append(coll(p + 'all%d' % i, kind, o, None, d, k, pats, both('coll', cats, shards=2, **kw), mode='bfs', pre=pre))
    return out


# ----------------------------------------------------------------- deques and lists
NONE = 999999999


def lin(name, kind, ops, num, depth, variants, seed=0, maxheap=30, maxlen=24, mode='sim', bounds={NONE, 0, 1, 2, 3, 5, 8}, batch={0, 1, 2, 3, 6},
        sizes={0, 1, 2, 3, 5, 8}, **kw):
    j = dict(name=name, module='Lin', seed=seed,
             cfg=cfg_text(dict(Mode=mode, Depth=depth, OpSeq='<-' + ops, MaxHeap=maxheap, MaxLen=maxlen, Kind=kind, Bounds=bounds, Batch=batch,
                               InitSizes=sizes),
                          invariants=['TypeOK', 'Bounded', 'Laws', 'Emit'], properties=['Persistence']),
             variants=variants)
    if mode == 'sim':
        j.update(simulate=num, depth=depth + 1)
    j.update(kw)
    return j


def lin_family(p, kind, ops, cats, t, scale=1.0, bfs=None, **kw):
    f = lambda n: max(20, int(n * scale * (10 if t else 1)))
    one = lambda elems='int', **k: [var('lin', 'py', cats, adargs=dict(kind=kind, elems=elems), **dict(kw, **k))]
    out = [
        lin(p + 'sim', kind, ops, f(3000), 24, one(shards=2), seed=41),
        lin(p + 'obj', kind, ops, f(1000), 24, one('obj'), seed=42),
        lin(p + 'misc', kind, ops, f(600), 24, one('misc'), seed=48),
        lin(p + 'long', kind, ops, f(300), 60, one(), seed=43, maxheap=60, maxlen=160, sizes={0, 40}, batch={0, 1, 17, 60},
            bounds={NONE, 7, 40}),
    ]
    if 'mode' not in kw:
        out.append(lin(p + 'huge', kind, ops, f(60), 10, one(), seed=44, maxheap=12, maxlen=4000, sizes={0, 1, 1500}, batch={1, 700, 1200},
                       bounds={NONE, 900, 1600}))
    if bfs:
        for i, (o, d, sizes, bounds, batch) in enumerate(bfs):
            out.append(lin(p + 'all%d' % i, kind, o, None, d, one(shards=3), mode='bfs', sizes=sizes, bounds=bounds, batch=batch, maxlen=12))
    return out


# ----------------------------------------------------------------- checked collections
def checked(name, kind, ops, num, depth, variants, seed=0, maxheap=30, mode='sim', levels=3, batch={0, 1, 2, 4}, sizes={0, 3}, **kw):
    j = dict(name=name, module='Checked', seed=seed,
             cfg=cfg_text(dict(Mode=mode, Depth=depth, OpSeq='<-' + ops, MaxHeap=maxheap, Kind=kind, Batch=batch, MaxLevels=levels,
                               InitSizes=sizes),
                          invariants=['Conform', 'CleanIsBase', 'Emit'], properties=['Persistence', 'Isolation']),
             variants=variants)
    if mode == 'sim':
        j.update(simulate=num, depth=depth + 1)
    j.update(kw)
    return j


def checked_family(p, ops, cats, t, scale=1.0, bfs=None, kinds=('vec', 'set', 'map'), **kw):
    f = lambda n: max(20, int(n * scale * (10 if t else 1)))
    out = []
    for i, kind in enumerate(kinds):
        one = both('checked', cats, adargs=dict(kind=kind), **kw) if kind != 'vec' else [var('checked', 'c', cats, adargs=dict(kind=kind), **kw)]
        out.append(checked(p + kind, kind, ops, f(1000), 24, one, seed=51 + i))
        if kind == 'vec':
            out.append(checked(p + kind + 'long', kind, ops, f(150), 20, one, seed=55, batch={0, 1, 2, 31, 33}, sizes={31, 32, 64, 1055} if t else {31, 32, 64}))
        if bfs:
            out.append(checked(p + kind + 'all', kind, bfs, None, 2, one, mode='bfs', levels=2, sizes={2}))
    return out


# ----------------------------------------------------------------- records and classes
def record(name, kind, ops, num, depth, variants, seed=0, maxheap=30, mode='sim', nf=3, opts=set(range(1, 11)), globs=None, **kw):
    j = dict(name=name, module='Record', seed=seed,
             cfg=cfg_text(dict(Mode=mode, Depth=depth, OpSeq='<-' + ops, MaxHeap=maxheap, Kind=kind, NF=nf, Opts=opts,
                               Globs='={{}, {"ord"}, {"dis"}, {"ord", "dis"}}' if globs is None else globs),
                          invariants=['Conform', 'Emit'], properties=['Persistence', 'Isolation']),
             variants=variants)
    if mode == 'sim':
        j.update(simulate=num, depth=depth + 1)
    j.update(kw)
    return j


def record_family(p, kind, ops, cats, t, scale=1.0, bfs=None, **kw):
    f = lambda n: max(20, int(n * scale * (10 if t else 1)))
    one = (both if kind == 'rec' else lambda *a, **k: [var(a[0], 'c', *a[1:], **k)])('record', cats, adargs=dict(kind=kind), **kw)
    out = [record(p + kind, kind, ops, f(2500), 24, one, seed=61),
           record(p + kind + 'opt', kind, ops, f(800), 20, one, seed=62, nf=2, opts={1, 3, 7},
                  globs='={{}, {"some"}, {"some", "ord"}, {"ord", "dis", "some"}}')]
    if bfs:
        out.append(record(p + kind + 'all', kind, bfs, None, 2, one, mode='bfs', nf=2, **(
            dict(opts={2, 3, 4, 6, 10}, globs='={{}, {"ord", "dis"}}') if t else dict(opts={10}, globs='={{"ord", "dis"}}'))))
        out.append(record(p + kind + 'evall', kind, 'OpsBfsEv', None, 4 if t else 3, one, mode='bfs', nf=1, **(
            dict(opts={2, 3, 4, 6, 10}, globs='={{}}') if t else dict(opts={6}, globs='={{}}'))))
    return out


# ----------------------------------------------------------------- nested values
def tree(name, ops, num, depth, variants, seed=0, maxheap=30, mode='sim', tdepth=3, **kw):
    j = dict(name=name, module='Tree', seed=seed,
             cfg=cfg_text(dict(Mode=mode, Depth=depth, OpSeq='<-' + ops, MaxHeap=maxheap, TDepth=tdepth),
                          invariants=['AllSound', 'Inverse', 'Emit'], properties=['Persistence']),
             variants=variants)
    if mode == 'sim':
        j.update(simulate=num, depth=depth + 1)
    j.update(kw)
    return j


def tree_family(p, ops, cats, t, scale=1.0, bfs=False, **kw):
    f = lambda n: max(20, int(n * scale * (10 if t else 1)))
    one = both('tree', cats, **kw)
    out = [tree(p + 'tree', ops, f(2000), 16, one, seed=71), tree(p + 'shallow', ops, f(4000), 16, one, seed=72, tdepth=2)]
    if bfs:
        out.append(tree(p + 'treeall', 'OpsBfs', None, 3, one, mode='bfs'))
    return out


def records(p, ops, cats, t, **kw):
    return record_family(p, 'rec', ops, cats, t, **kw) + record_family(p, 'cls', ops, cats, t, **kw)


@prop('C01')
def c01(t):
    kw = dict(lenient=True, probes=['persist'])
    return (vec_family('v', 'OpsAll', ['persist'], t, scale=0.7, **kw) + map_family('m', 'OpsAll', ['persist'], t, scale=0.4, **kw)
            + coll_family('s', 'set', 'SetAll', ['persist'], t, scale=0.3, **kw) + coll_family('b', 'bag', 'BagAll', ['persist'], t, scale=0.2, **kw)
            + lin_family('d', 'dq', 'DqAll', ['persist'], t, scale=0.3, **kw) + lin_family('l', 'pl', 'PlAll', ['persist'], t, scale=0.2, **kw)
            + checked_family('k', 'OpsAll', ['persist'], t, scale=0.4, **kw) + records('r', 'OpsAll', ['persist'], t, scale=0.4, **kw)
            + tree_family('t', 'OpsTr', ['persist'], t, scale=0.3, **kw) + nest('n', ROOTS, ['persist'], t, 200 if not t else 4000, 151, **kw))


@prop('C02')
def c02(t):
    return vec_family('v', 'OpsFun', ['val'], t, bfs=[('OpsBfsUpd', 2, {31, 32, 1056}, {1, 33}),
                                                      ('OpsBfsRead', 1, {0, 1, 2, 3, 5, 31, 32, 33, 65, 1057}, {1})])


@prop('C03')
def c03(t):
    return vec_family('v', 'OpsTx', ['ev'], t, all_evs=True) + [
        vec('vset', 'OpsEvSet', 250 if not t else 2500, 20, {65, 1056, 1057, 2100, 32801, 33825, 40000, 66000}, {1}, 70000,
            both('vec', ['ev'], all_evs=True), seed=6, maxheap=16)]


@prop('C04')
def c04(t):
    f = lambda n: n * (10 if t else 1)
    pair = lambda elems='int', **kw: [var('vec', 'c', ['pair'], mode='pair', eng=dict(elems=elems), **kw)]
    out = [
        vec('psmall', 'OpsAll', f(2500), 24, SMALL, G_SMALL, 140, pair(shards=2), seed=11),
        vec('pmid', 'OpsAll', f(600), 24, MID, G_MID, 3300, pair(shards=2), seed=12),
        vec('pbig', 'OpsAll', f(60), 16, BIG, G_BIG, 70000, pair(), seed=13, maxheap=16),
        vec('pmisc', 'OpsAll', f(500), 24, SMALL, G_SMALL, 140, pair('misc'), seed=18),
        vec('pobj', 'OpsAll', f(800), 24, SMALL | {1024, 1056}, G_SMALL, 1200, pair('obj'), seed=14),
        vec('pev', 'OpsTx', f(1200), 24, SMALL | {1024, 1056}, G_SMALL, 1200, pair(), seed=15),
        vec('pset', 'OpsEvSet', f(250), 20, {65, 1056, 1057, 2100, 32801, 33825, 40000, 66000}, {1}, 70000, pair(), seed=17, maxheap=16),
        vec('pread', 'OpsBfsRead', None, 1, {0, 1, 2, 3, 5, 31, 32, 33, 65}, {1}, 2300, pair(shards=2), mode='bfs'),
        vec('pall', 'OpsBfsEv', None, 2, {0, 32, 1056}, {1, 33}, 2300, pair(shards=2), mode='bfs'),
    ]
    if t:
        out.append(vec('phuge', 'OpsAll', 60, 8, HUGE, {0, 1, 32, 1000}, 1100000, pair(), seed=16, maxheap=8))
    return out


@prop('C05')
def c05(t):
    return map_family('m', 'OpsFun', ['val'], t, bfs=[('OpsBfsUpd', 4, 3, {'const', 'seq'}, {1})])


@prop('C06')
def c06(t):
    kw = dict(all_evs=True)
    return (map_family('m', 'OpsTx', ['ev'], t, bfs=[('OpsBfsEv', 4, 3, {'const', 'seq'}, {1})], **kw)
            + coll_family('s', 'set', 'SetTx', ['ev'], t, bfs=[('SetBfsEv', 5, 3, {'const', 'seq'}, {1})], **kw)
            + checked_family('k', 'OpsTx', ['ev'], t, **kw))


@prop('C07')
def c07(t):
    return coll_family('s', 'set', 'SetFun', ['val'], t, bfs=[('SetBfs', 3, 3, {'const', 'seq'}, {1})])


@prop('C08')
def c08(t):
    return coll_family('b', 'bag', 'BagAll', ['val'], t, bfs=[('BagBfs', 4, 3, {'const', 'seq'}, {0})])


@prop('C09')
def c09(t):
    return lin_family('d', 'dq', 'DqAll', ['val'], t, bfs=[('DqBfs', 2, {0, 1, 3, 4}, {NONE, 0, 1, 3}, {0, 1, 2}),
                                                            ('DqBfs2', 4 if t else 3, {0, 2}, {NONE, 2}, {1})])


@prop('C10')
def c10(t):
    return lin_family('l', 'pl', 'PlAll', ['val'], t, bfs=[('PlBfs', 2, {0, 1, 3, 4}, {NONE}, {0, 1, 2})])


@prop('C11')
def c11(t):
    kw = dict(probes=['eqhash'])
    c = ['eq', 'hash']
    return (vec_family('v', 'OpsEq', c, t, scale=0.4, **kw) + map_family('m', 'OpsEq', c, t, scale=0.4, **kw)
            + coll_family('s', 'set', 'SetEq', c, t, scale=0.3, **kw) + coll_family('b', 'bag', 'BagEq', c, t, scale=0.2, **kw)
            + lin_family('d', 'dq', 'DqEq', c, t, scale=0.3, **kw) + lin_family('l', 'pl', 'PlEq', c, t, scale=0.2, **kw)
            + checked_family('k', 'OpsEq', c, t, scale=0.3, **kw) + records('r', 'OpsEq', c, t, scale=0.3, **kw)
            + nest('n', ROOTS, c, t, 200 if not t else 4000, 161, **kw))


@prop('C12')
def c12(t):
    return checked_family('k', 'OpsAll', ['val', 'ev'], t, bfs='OpsBfs') + nest('n', {'vec', 'map', 'kmap'}, NEST, t, 600 if not t else 8000, 121)


@prop('C13')
def c13(t):
    return record_family('r', 'rec', 'OpsAll', ['val', 'ev'], t, bfs='OpsBfs') + nest('n', {'rec'}, NEST, t, 600 if not t else 8000, 131)


@prop('C14')
def c14(t):
    return record_family('r', 'cls', 'OpsAll', ['val', 'ev'], t, bfs='OpsBfs') + nest('n', {'cls'}, NEST, t, 600 if not t else 8000, 141)


@prop('C15')
def c15(t):
    return tree_family('t', 'OpsTr', ['val'], t, bfs=True)


@prop('C16')
def c16(t):
    return tree_family('f', 'OpsFr', ['val'], t)


@prop('C17')
def c17(t):
    kw = dict(probes=['roundtrip'])
    c = ['rt']
    return (vec_family('v', 'OpsRT', c, t, scale=0.4, **kw) + map_family('m', 'OpsRT', c, t, scale=0.4, **kw)
            + coll_family('s', 'set', 'SetRT', c, t, scale=0.3, **kw) + coll_family('b', 'bag', 'BagRT', c, t, scale=0.2, **kw)
            + lin_family('d', 'dq', 'DqRT', c, t, scale=0.3, **kw) + lin_family('l', 'pl', 'PlRT', c, t, scale=0.2, **kw)
            + checked_family('k', 'OpsRT', c, t, scale=0.3, **kw) + records('r', 'OpsRT', c, t, scale=0.3, **kw)
            + nest('n', ROOTS, c + ['ser', 'ign'], t, 1200 if not t else 12000, 111, probes=['roundtrip']))


ROOTS = {'rec', 'cls', 'vec', 'map', 'kmap'}
NEST = ['make', 'set', 'ign']


def nest(name, roots, cats, t, num, seed, probes=(), impls=('c',), **kw):
    """Nested declarations: random ones, and all small ones."""
    def job(n, mode, depth, tdepth, num, sh):
        j = dict(name=n, module='Nest', seed=seed + tdepth, cfg=cfg_text(
            dict(Mode=mode, Depth=depth, OpSeq='<-OpsAll', TDepth=tdepth, Roots=roots), invariants=['RoundTrips', 'AllConform', 'Emit']),
            variants=[var('nest', i, cats, probes=list(probes), shards=sh, **kw) for i in impls])
        if num:
            j.update(simulate=num, depth=depth + 1)
        return j
    return [job(name + 'n2', 'sim', 14, 2, num, 1), job(name + 'n3', 'sim', 14, 3, num, 1 if not t else 2),
            job(name + 'nall', 'bfs', 2, 2 if not t else 3, None, 2)]


@prop('C18')
def c18(t):
    f = lambda n: n * (10 if t else 1)

    def life(name, ops, num, depth, sizes, grow, maxlen, mode='sim', mem='debug', **kw):
        j = dict(name=name, module='Life', cfg=cfg_text(
            dict(Mode=mode, Depth=depth, OpSeq='<-' + ops, InitSizes=sizes, Grow=grow, MaxLen=maxlen),
            invariants=['Safe', 'Nothing', 'Emit']),
            variants=[var('life', 'c', ['alive'], mode='life', env={'PYTHONMALLOC': mem}, shards=kw.pop('shards', 1))])
        if num:
            j.update(simulate=num, depth=depth + 1)
        j.update(kw)
        return j
    return [life('lsmall', 'OpsAll', f(1500), 26, {0, 3, 32}, {0, 1, 2, 5}, 60, seed=101),
            life('lmid', 'OpsAll', f(600), 26, {31, 33, 64, 65}, {1, 31, 33}, 140, seed=102),
            life('lbig', 'OpsAll', f(40), 16, {1024, 1056, 1057}, {1, 32, 33}, 1300, seed=103),
            life('lbigev', 'OpsEvo', f(40), 14, {1056, 1057, 1090}, {1, 32, 33}, 1300, seed=105),
            life('lcyc', 'OpsCyc', f(1500), 24, {2, 33}, {1, 2, 33, 40}, 80, seed=104),
            life('lall', 'OpsBfs', None, 3 if not t else 4, {0, 32}, {1}, 60, mode='bfs', shards=3)]


@prop('C19')
def c19(t):
    c = ['fault']
    kw = dict(mode='fault')
    f = lambda n: n * (10 if t else 1)
    elv = lambda: both('vec', c, adargs=dict(elems='obj'), **kw)
    return ([vec('vobj', 'OpsAll', f(500), 20, SMALL, G_SMALL, 140, elv(), seed=91),
             vec('vmid', 'OpsAll', f(80), 16, {1024, 1056}, G_SMALL, 1200, elv(), seed=92)]
            + map_family('m', 'OpsAll', c, t, scale=0.3, **kw) + coll_family('s', 'set', 'SetAll', c, t, scale=0.25, **kw)
            + coll_family('b', 'bag', 'BagAll', c, t, scale=0.2, **kw)
            + lin_family('d', 'dq', 'DqAll', c, t, scale=0.3, **kw) + lin_family('l', 'pl', 'PlAll', c, t, scale=0.2, **kw)
            + checked_family('k', 'OpsAll', c, t, scale=0.3, **kw) + records('r', 'OpsAll', c, t, scale=0.3, **kw)
            + tree_family('t', 'OpsTr', c, t, scale=0.2, **kw))


@prop('C20')
def c20(t):
    c = ['preempt']
    kw = dict(mode='preempt')
    f = lambda n: n * (10 if t else 1)
    elv = lambda: both('vec', c, adargs=dict(elems='obj'), **kw)
    return ([vec('vobj', 'OpsAll', f(500), 20, SMALL, G_SMALL, 140, elv(), seed=93),
             vec('vmid', 'OpsAll', f(80), 16, {1024, 1056}, G_SMALL, 1200, elv(), seed=94)]
            + map_family('m', 'OpsAll', c, t, scale=0.3, **kw) + coll_family('s', 'set', 'SetAll', c, t, scale=0.25, **kw)
            + coll_family('b', 'bag', 'BagAll', c, t, scale=0.2, **kw)
            + lin_family('d', 'dq', 'DqAll', c, t, scale=0.3, **kw) + lin_family('l', 'pl', 'PlAll', c, t, scale=0.2, **kw)
            + checked_family('k', 'OpsAll', c, t, scale=0.3, **kw) + records('r', 'OpsAll', c, t, scale=0.3, **kw)
            + tree_family('t', 'OpsTr', c, t, scale=0.2, **kw))


@prop('C21')
def c21(t):
    c = ['same']
    return (vec_family('v', 'OpsSame', c, t, scale=0.5) + map_family('m', 'OpsSame', c, t, scale=0.6)
            + coll_family('s', 'set', 'SetSame', c, t, scale=0.6)
            + checked_family('k', 'OpsSame', c, t, scale=0.5) + record_family('r', 'rec', 'OpsSame', c, t, scale=0.5)
            + record_family('q', 'cls', 'OpsSame', c, t, scale=0.3) + tree_family('t', 'OpsTr', c, t, scale=0.5))


@prop('C22')
def c22(t):
    f = lambda n: n * (10 if t else 1)

    def imm(name, ops, num, depth, mode, members, **kw):
        j = dict(name=name, module='Imm', cfg=cfg_text(
            dict(Mode=mode, Depth=depth, OpSeq='<-' + ops, MaxHeap=20, MaxMembers=members),
            invariants=['RuleHolds', 'Emit'], properties=['Persistence', 'FrozenKept']),
            variants=[var('imm', 'c', ['val', 'ev', 'persist', 'same'], probes=['persist'], shards=2)])
        if num:
            j.update(simulate=num, depth=depth + 1)
        j.update(kw)
        return j
    return [imm('isim', 'OpsAll', f(6000), 20, 'sim', 5, seed=81), imm('iall', 'OpsBfs', None, 3 if not t else 4, 'bfs', 2)]


@prop('C23')
def c23(t):
    return tree_family('g', 'OpsGet', ['val'], t)


@prop('C24')
def c24(t):
    kw = dict(probes=['repr'])
    c = ['repr']
    return (vec_family('v', 'OpsAll', c, t, scale=0.25, **kw) + map_family('m', 'OpsAll', c, t, scale=0.25, **kw)
            + coll_family('s', 'set', 'SetAll', c, t, scale=0.2, **kw) + coll_family('b', 'bag', 'BagAll', c, t, scale=0.2, **kw)
            + lin_family('d', 'dq', 'DqAll', c, t, scale=0.2, **kw) + lin_family('l', 'pl', 'PlAll', c, t, scale=0.2, **kw)
            + checked_family('k', 'OpsAll', c, t, scale=0.2, **kw) + records('r', 'OpsAll', c, t, scale=0.25, **kw)
            + tree_family('t', 'OpsTr', c, t, scale=0.2, **kw))
