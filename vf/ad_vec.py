"""Persistent vectors, C and Python."""
import itertools, random
from .engine import Adapter, HOOK, NONE, parse, roundtrip, show
from . import inputs
from .inputs import hooked


def expand(runs):
    out = []
    for a, n, d in runs:
        if d == 0:
            out.extend([a] * n)
        else:
            out.extend(range(a, a + n * d, d))
    return out


class El(object):
    """An element with observable comparisons."""
    __slots__ = ('i', '__weakref__')

    def __init__(self, i):
        self.i = i

    def __eq__(self, o):
        HOOK.fire('eq')
        return isinstance(o, El) and self.i == o.i

    def __lt__(self, o):
        HOOK.fire('lt')
        return self.i < o.i

    def __hash__(self):
        HOOK.fire('hash')
        return hash(('El', self.i))

    def __repr__(self):
        return 'El(%d)' % self.i

    def __reduce__(self):
        return El, (self.i,)


class Index(int):
    """A kind of integer."""


def nn(x):
    return None if x == NONE else x


class VecAdapter(Adapter):
    absent = 'index'
    evolver_ops = frozenset(['enew', 'eset', 'edel', 'eappend', 'eextend', 'eget', 'epersist', 'edrop'])

    def __init__(self, impl, elems='int', seed=1):
        import pyrsistent
        from pyrsistent import _pvector
        self.py = _pvector.python_pvector
        if impl == 'c':
            import pvectorc
            self.new, self.other = pvectorc.pvector, self.py
        else:
            self.new = self.py
            try:
                import pvectorc
                self.other = pvectorc.pvector
            except ImportError:
                self.other = self.py
        class Loose(pyrsistent.CheckedPVector):
            __type__ = object
        self.Loose = Loose
        self.impl = impl
        self.vtype = type(self.new([1]))
        self.elems = elems
        self.rng = random.Random(seed)
        self.plain = elems == 'int'
        self.misc = elems == 'misc'

    # -------- elements
    def E(self, i):
        return i if self.plain else inputs.misc(i) if self.misc else El(i)

    def Es(self, ids):
        return list(ids) if self.plain else [self.E(i) for i in ids]

    def I(self, x):
        if self.plain:
            return x
        if self.misc:
            return inputs.misc_ident(x)
        return x.i if isinstance(x, El) else ('?', x)

    def Is(self, xs):
        return xs if self.plain else [self.I(x) for x in xs]

    def at(self, i):
        """The index i, sometimes as another kind of integer."""
        r = self.rng.random()
        if r > 0.06:
            return i
        return bool(i) if r < 0.03 and i in (0, 1) else Index(i)

    def expand(self, r):
        return expand(r)

    def is_value(self, obj):
        return type(obj) is self.vtype

    def read_text(self, v, exp):
        a, k = parse(v, 'pvector', dict(El=El, Falsy=inputs.Falsy, frozenset=frozenset))
        if k or len(a) != 1 or type(a[0]) is not list or [self.I(x) for x in a[0]] != exp:
            return 'the representation is %s, the content %s' % (show(repr(v)), show(exp))

    # -------- observation
    def positions(self, n):
        if n <= 70:
            return range(n)
        p = {0, 1, 30, 31, 32, 33, 63, 64, n // 2, n - 1, n - 2, n - 32, n - 33, n - 34, ((n - 1) >> 5 << 5), ((n - 1) >> 5 << 5) - 1}
        for b in (1023, 1024, 1055, 1056, 1057, 32767, 32768, 32799, 32800, 32801, 1048575, 1048576, 1048607, 1048608):
            if b < n:
                p.add(b)
        for _ in range(20):
            p.add(self.rng.randrange(n))
        return sorted(p)

    def check(self, v, exp):
        n = len(exp)
        if type(v) is not self.vtype:
            return 'gave %s of type %s' % (show(v), type(v))
        if len(v) != n:
            return 'length is %d instead of %d (%s)' % (len(v), n, show(exp))
        l = v.tolist()
        if type(l) is not list or self.Is(l) != exp:
            return 'content is %s instead of %s' % (show(l), show(exp))
        if n < 20000 or self.rng.random() < 0.2:
            l = list(iter(v))
            if self.Is(l) != exp:
                return 'iteration gives %s instead of %s' % (show(l), show(exp))
        for i in self.positions(n):
            if self.I(v[i]) != exp[i]:
                return '[%d] is %s instead of %s' % (i, show(v[i]), exp[i])
            if self.I(v[i - n]) != exp[i]:
                return '[%d] is %s instead of %s' % (i - n, show(v[i - n]), exp[i])
        for i in (n, -n - 1):
            try:
                x = v[i]
            except IndexError:
                continue
            return '[%d] is %s instead of raising IndexError' % (i, show(x))
        if bool(v) != bool(exp):
            return 'truth value is wrong'
        if n <= 40 and self.plain and repr(v) != 'pvector(%r)' % (exp,):
            return 'repr is %r' % (v,)
        return None

    def observe(self, v):
        n = len(v)
        l = v.tolist()
        extra = [self.I(v[i]) for i in self.positions(n)[:0 if n > 70 else 70]]
        if n > 70:
            for i in (0, 31, 32, 64, n // 2, n - 1, n - 33, n - 32):
                extra.append(self.I(v[i]))
        it = self.Is(list(v)) if n < 5000 else None
        ids = self.Is(l)
        h = None
        if n < 3000:
            h = hash(v)
        del l[:]
        return (n, ids, it, extra, h)

    def check_ev(self, ev, exp, dirty):
        n = len(exp)
        if len(ev) != n:
            return 'evolver length is %d instead of %d' % (len(ev), n)
        for i in (range(n) if n <= 200 else self.positions(n)):
            try:
                x = ev[i]
            except Exception as ex:
                return 'evolver[%d] raised %r' % (i, ex)
            if self.I(x) != exp[i]:
                return 'evolver[%d] is %s instead of %s' % (i, show(x), exp[i])
        for i in (-1, -n, -n // 2):
            if n and self.I(ev[i]) != exp[i]:
                return 'evolver[%d] is %s instead of %s' % (i, show(ev[i]), exp[i])
        d = ev.is_dirty()
        if dirty in (0, 1) and (d is not True and d is not False or d != bool(dirty)):
            return 'is_dirty() is %r instead of %r' % (d, bool(dirty))
        return None

    def observe_ev(self, ev):
        return [self.I(ev[i]) for i in range(len(ev))]

    def operands(self, e):
        return e['a'][:1] if e['op'] in ('extendv', 'cmp') else []

    def twins(self, eng, ent):
        if len(ent.exp) > 3000:
            return
        es = self.Es(ent.exp)
        yield 'a fresh vector', self.new(es)
        x = self.new()
        for y in es[:200]:
            x = x.append(y)
        yield 'a vector built by appending', x.extend(es[200:])
        yield 'a vector of the other implementation', self.other(es)

    # -------- operations
    def seq(self, ids, k):
        es = self.Es(ids)
        if k == 'vec':
            return self.new(es), None
        if k == 'other':
            return self.other(es), None
        return inputs.sequence(es, k)

    def spoil(self, l):
        """The caller's list is its own: scribble over it after the call."""
        if l is not None:
            for i in range(len(l)):
                l[i] = -7
            l.append(-8)

    def op_new(self, eng, e):
        a, n = e['a']
        if e['k'] == 'append':
            x = self.new()
            for i in self.Es(range(a, a + n)):
                x = x.append(i)
            return x
        it, l = self.seq(range(a, a + n), e['k'])
        r = self.new(it)
        self.spoil(l)
        return r

    def src(self, eng, e):
        return eng.heap[e['s']].obj

    def op_append(self, eng, e):
        return self.src(eng, e).append(self.E(e['a'][0]))

    def op_extend(self, eng, e):
        a, n = e['a']
        it, l = self.seq(range(a, a + n), e['k'])
        v = self.src(eng, e)
        r = v + it if e['k'] == 'plus' else v.extend(it)
        self.spoil(l)
        return r

    def op_extendv(self, eng, e):
        o = eng.heap[e['a'][0]].obj
        v = self.src(eng, e)
        if e['k'] == 'other':
            return v.extend(self.other(o.tolist()))
        if e['k'] == 'checked':
            return v.extend(self.Loose(o.tolist()))
        return v + o if e['k'] == 'vplus' else v.extend(o)

    def op_set(self, eng, e):
        return self.src(eng, e).set(self.at(e['a'][0]), self.E(e['a'][1]))

    op_near = op_set

    def op_mset(self, eng, e):
        a = [self.at(x) if i % 2 == 0 else self.E(x) for i, x in enumerate(e['a'])]
        return self.src(eng, e).mset(*a)

    def op_delete(self, eng, e):
        if len(e['a']) == 1 and self.rng.random() < 0.2:
            return self.src(eng, e).delete(e['a'][0], None)
        return self.src(eng, e).delete(*e['a'])

    def op_remove(self, eng, e):
        return self.src(eng, e).remove(self.E(e['a'][0]))

    def op_slice(self, eng, e):
        a, b, s = e['a']
        return self.src(eng, e)[nn(a):nn(b):nn(s)]

    def op_mul(self, eng, e):
        v = self.src(eng, e)
        return v * e['a'][0] if e['k'] == 'l' else e['a'][0] * v

    def op_transform(self, eng, e):
        i, x = e['a']
        x = self.E(x)

        def f(old):
            HOOK.fire('command')
            return x
        return self.src(eng, e).transform([i], f if e['k'] == 'fun' else x)

    def op_transformny(self, eng, e):
        from pyrsistent import ny
        d = e['a'][0]

        def f(old):
            HOOK.fire('command')
            return self.E(self.I(old) + d)
        return self.src(eng, e).transform([ny], f)

    def op_noop(self, eng, e):
        from pyrsistent import ny
        v, k = self.src(eng, e), e['k']

        def same(x):
            HOOK.fire('command')
            return x
        if k == 'tnone':
            return v.transform()
        if k == 'mset0':
            return v.mset()
        if k == 'tny':
            return v.transform([ny], same)
        i = e['a'][0]
        return v.transform([i], same if k == 'tid' else v[i])

    def op_rt(self, eng, e):
        return roundtrip(self.src(eng, e), e['k'])

    def op_get(self, eng, e):
        return self.src(eng, e)[self.at(e['a'][0])]

    def op_bad(self, eng, e):
        v = self.src(eng, e)
        k = e['k']
        if k == 'get':
            return v['a']
        if k == 'getf':
            return v[1.5]
        if k == 'set':
            return v.set('a', 1)
        if k == 'extend':
            return v.extend(5)
        if k == 'plus':
            return v + 5
        if k == 'mul':
            return v * 'a'
        if k == 'delete':
            return v.delete('a')
        if k == 'new':
            return self.new(5)
        if k == 'eset':
            return v.evolver().set('a', 1)
        if k == 'eget':
            return v.evolver()['a']
        if k == 'edel':
            return v.evolver().delete('a')
        if k == 'eextend':
            return v.evolver().extend(5)
        if k == 'msetk':
            return v.mset('a', 1)
        if k == 'lt':
            return v < 5
        if k == 'setattr':
            v.foo = 1
        raise RuntimeError(k)

    def op_index(self, eng, e):
        x, a, b = e['a']
        args = [self.E(x)] + [t for t in (a, b) if t != NONE]
        return self.src(eng, e).index(*args)

    def op_count(self, eng, e):
        return self.src(eng, e).count(self.E(e['a'][0]))

    def op_contains(self, eng, e):
        return self.E(e['a'][0]) in self.src(eng, e)

    def op_cmp(self, eng, e):
        v, w = self.src(eng, e), eng.heap[e['a'][0]].obj
        if e['k'] == 'list':
            w = w.tolist()
        if self.plain:
            return [v == w, v != w, v < w, v <= w, v > w, v >= w]
        if self.misc:
            return [v == w, v != w, None, None, None, None]
        return [v == w, v != w, v < w, None, None, None]

    def decode(self, e, raw):
        op = e['op']
        if op in ('get', 'eget'):
            return self.I(raw)
        if op == 'contains':
            return {True: 1, False: 0}.get(raw, raw) if isinstance(raw, bool) else raw
        if op == 'cmp':
            r = e['r']
            want = [r == 0, r != 0, r < 0, r <= 0, r > 0, r >= 0]
            want = [None if x is None else y for x, y in zip(raw, want)]
            return r if raw == want and all(type(x) in (bool, type(None)) for x in raw) else raw
        return raw

    def op_iter(self, eng, e):
        v = self.src(eng, e)
        return reversed(v) if e['k'] == 'rev' else iter(v)

    def op_next(self, eng, e):
        return list(itertools.islice(eng.its[e['s']].obj, e['a'][0]))

    def check_seq(self, raw, exp):
        return None if self.Is(raw) == exp else 'iterator gave %s instead of %s' % (show(raw), show(exp))

    def op_drop(self, eng, e):
        ent = eng.heap[e['s']]
        ent.live, ent.obj = False, None

    def op_enew(self, eng, e):
        return self.src(eng, e).evolver()

    def ev(self, eng, e):
        return eng.evs[e['s']].obj

    def chain(self, ev, r):
        if r is not ev:
            raise AssertionError('evolver method returned %s instead of the evolver' % show(r))

    def op_eset(self, eng, e):
        ev = self.ev(eng, e)
        if e['k'] == 'm':
            self.chain(ev, ev.set(self.at(e['a'][0]), self.E(e['a'][1])))
        else:
            ev[self.at(e['a'][0])] = self.E(e['a'][1])

    def op_edel(self, eng, e):
        ev = self.ev(eng, e)
        if e['k'] == 'm':
            self.chain(ev, ev.delete(e['a'][0]))
        else:
            del ev[self.at(e['a'][0])]

    def op_eappend(self, eng, e):
        ev = self.ev(eng, e)
        self.chain(ev, ev.append(self.E(e['a'][0])))

    def op_eextend(self, eng, e):
        ev = self.ev(eng, e)
        a, n = e['a']
        it, l = self.seq(range(a, a + n), e['k'])
        self.chain(ev, ev.extend(it))
        self.spoil(l)

    def op_eget(self, eng, e):
        return self.ev(eng, e)[self.at(e['a'][0])]

    def op_epersist(self, eng, e):
        return self.ev(eng, e).persistent()

    def op_edrop(self, eng, e):
        ent = eng.evs[e['s']]
        ent.live, ent.obj = False, None

    def after_err(self, eng, e, exc):
        if e['op'] in ('eset', 'edel'):
            ent = eng.evs[e['s']]
            return self.check_ev(ent.obj, ent.exp, ent.obs)
        return None
