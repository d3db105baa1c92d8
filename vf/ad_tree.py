"""Nested values: transform, freeze, thaw."""
import collections, random
from .engine import Adapter, HOOK, show

STR = {1: 'ab', 2: 'ac', 3: 'ba'}
FLOATS = dict((n, float(n)) for n in range(-50, 200))
OTHERS = [None, '', 'xy', frozenset([1, 2]), Ellipsis]
MAPKEYS = [1, 2, 3, 100, 107]
RECKEYS = [1, 2, 3]


def key(k):
    return STR[k] if k < 10 else k - 100


DEFAULT = object()


class T(object):
    ready = None


def classes():
    if T.ready:
        return T.ready
    from pyrsistent import PRecord, PClass, field

    class R(PRecord):
        ab = field()
        ac = field()
        ba = field(type=int, mandatory=True)

    class C(PClass):
        ab = field()
        ac = field()
        ba = field(type=int, mandatory=True)
    T.ready = (R, C)
    return T.ready


class TreeAdapter(Adapter):
    def __init__(self, impl, seed=1):
        import pyrsistent
        self.p = pyrsistent
        from pyrsistent import _transformations
        self.dec = getattr(_transformations, 'dec', lambda x: x - 1)
        self.R, self.C = classes()
        self.rng = random.Random(seed)

    # -------- trees
    def build(self, t):
        k = t[0]
        if k == 'a':
            return t[1]
        if k == 'b':
            return FLOATS[t[1]]
        if k == 'o':
            return OTHERS[t[1]]
        if k in 'mdDrc':
            d = dict((key(n), self.build(x)) for n, x in zip(MAPKEYS if k in 'mdD' else RECKEYS, t[1]) if x[0] != 'x')
            if k == 'd':
                return d
            if k == 'D':
                return collections.defaultdict(list, d)
            return self.p.pmap(d) if k == 'm' else self.R(**d) if k == 'r' else self.C(**d)
        if k in 'vlt':
            l = [self.build(x) for x in t[1]]
            return l if k == 'l' else tuple(l) if k == 't' else self.p.pvector(l)
        return set(t[1]) if k == 'S' else self.p.pset(t[1])

    def read(self, o):
        p, ty = self.p, type(o)
        if ty is int:
            return ['a', o]
        if ty is float:
            return ['b', int(o)]
        for n, x in enumerate(OTHERS):
            if ty is type(x) and o == x:
                return ['o', n]
        slots = lambda ks, d: [self.read(d[key(n)]) if key(n) in d else ['x'] for n in ks]
        if ty is dict or ty is collections.defaultdict or ty is p.PMap:
            if any(x not in [key(n) for n in MAPKEYS] for x in o) or len(list(o)) != len(o):
                return ['?', repr(o)]
            return ['d' if ty is dict else 'm' if ty is p.PMap else 'D', slots(MAPKEYS, o)]
        if ty is self.R:
            return ['r', slots(RECKEYS, o)] if len(list(o)) == len(o) else ['?', repr(o)]
        if ty is self.C:
            return ['c', [self.read(getattr(o, key(n))) if hasattr(o, key(n)) else ['x'] for n in RECKEYS]]
        if ty is list or ty is tuple:
            return ['l' if ty is list else 't', [self.read(x) for x in o]]
        if isinstance(o, p.PVector):
            l = [self.read(x) for x in o]
            if len(o) != len(l) or [self.read(o[i]) for i in range(len(l))] != l:
                return ['?', repr(o)]
            return ['v', l]
        if ty is set:
            return ['S', sorted(o)]
        if ty is p.PSet:
            return ['s', sorted(o)]
        return ['?', repr(o)]

    def norm(self, t):
        """The tree the specification printed, with sets sorted."""
        if t[0] in ('s', 'S'):
            return [t[0], sorted(t[1])]
        if t[0] in ('a', 'b', 'o', 'x', 'dflt'):
            return t
        return [t[0], [self.norm(x) for x in t[1]]]

    def expand(self, r):
        return self.norm(r)

    def is_value(self, obj):
        return isinstance(obj, (self.p.PMap, self.p.PVector, self.C))

    def check(self, v, exp):
        got = self.read(v)
        if got != exp:
            return 'gave %s (%s) instead of %s' % (show(v), show(got), show(exp))

    def read_text(self, v, exp):
        p = self.p
        got = self.read(eval(repr(v), {'__builtins__': {}}, dict(Ellipsis=Ellipsis, frozenset=frozenset, pmap=p.pmap, pvector=p.pvector, pset=p.pset, R=self.R, C=self.C)))
        if got != exp:
            return 'the representation is %s, the content %s' % (show(repr(v)), show(exp))

    def observe(self, v):
        return self.read(v)

    def exc_ok(self, exc, want):
        if want != 'any':
            return Adapter.exc_ok(self, exc, want)
        return isinstance(exc, Exception) and type(exc) is not AssertionError

    def decode(self, e, raw):
        if e['op'] == 'mutant':
            return [self.read(x) for x in raw]
        return self.read(raw)

    def expand_val(self, e):
        if e['op'] == 'mutant':
            return [self.norm(x) for x in e['r']]
        return self.norm(e['r'])

    # -------- transform
    def op_mk(self, eng, e):
        return self.build(e['a'][0])

    def matcher(self, m):
        k = m[0]
        fire = lambda: HOOK.fire('predicate')
        if k == 'key':
            return key(m[1])
        if k == 'ny':
            return self.p.ny
        if k == 'rex':
            return self.p.rex(self.rng.choice(['a.*', '^a', 'a', 'a[bc]']))
        if k == 'p3':
            return lambda a, b, c: True

        def none(a):
            fire()
            return False

        def int_(a):
            fire()
            return isinstance(a, int)

        def low(a, unused=7):
            fire()
            return isinstance(a, int) and a < 1

        def leaf(a, v):
            fire()
            return isinstance(v, int)

        def even(a, v):
            fire()
            return isinstance(v, int) and v % 2 == 0

        def vec(a, v):
            fire()
            return isinstance(v, self.p.PVector)

        def anykw(a, b=1, **kw):
            fire()
            return b == 1
        return dict(none=none, int=int_, low=low, leaf=leaf, even=even, vec=vec, anykw=anykw)[k]

    def command(self, c):
        k = c[0]
        if k == 'discard':
            return self.p.discard
        if k == 'inc':
            return self.p.inc
        if k == 'dec':
            return self.dec
        if k == 'const':
            return self.build(c[1])
        x = self.build(c[1]) if k == 'fn' else None

        def f(old):
            HOOK.fire('command')
            if k == 'fn':
                return x
            if k == 'id':
                return old
            if k == 'flip':
                return FLOATS[old] if type(old) is int else int(old) if type(old) is float else old
            if k == 'box':
                return self.p.pvector([old])
            raise ValueError('boom')
        return f

    def op_transform(self, eng, e):
        args = []
        for path, cmd in e['a']:
            path = [self.matcher(m) for m in path]
            args.append(tuple(path) if self.rng.random() < 0.3 else path)
            args.append(self.command(cmd))
        return eng.heap[e['s']].obj.transform(*args)

    # -------- freeze and thaw
    def mutables(self, o, out):
        if isinstance(o, (dict, list, set)):
            out[id(o)] = o
        if isinstance(o, (dict, self.p.PMap)):
            for x in o.values():
                self.mutables(x, out)
        elif isinstance(o, (list, tuple, self.p.PVector)):
            for x in o:
                self.mutables(x, out)
        return out

    def scramble(self, o):
        for x in self.mutables(o, {}).values():
            if isinstance(x, dict):
                x['spoiled'] = 1
                for k in list(x)[:1]:
                    x[k] = 'spoiled'
            elif isinstance(x, list):
                x.append('spoiled')
                x[0] = 'spoiled'
            else:
                x.add('spoiled')

    def convert(self, f, t, k):
        x = self.build(t)
        r = f(x) if k == 'default' else f(x, strict=(k != 'lax'))
        if self.read(x) != self.norm(t):
            raise AssertionError('the argument was modified: %s' % show(x))
        return x, r

    def op_freeze(self, eng, e):
        x, r = self.convert(self.p.freeze, e['a'][0], e['k'])
        if e['k'] != 'lax':
            before = self.read(r)
            self.scramble(x)
            if self.read(r) != before:
                raise AssertionError('the frozen value changed with the original: %s' % show(r))
        return r

    def op_thaw(self, eng, e):
        t = e['a'][0]
        x, r = self.convert(self.p.thaw, t, e['k'])
        shared = set(self.mutables(x, {})) & set(self.mutables(r, {}))
        got = self.read(r)
        if e['k'] != 'lax' and all(isinstance(self.mutables(x, {})[i], (set, collections.defaultdict)) for i in shared) and not shared:
            self.scramble(r)
            if self.read(x) != self.norm(t):
                raise AssertionError('the original changed with the thawed value')
        elif e['k'] != 'lax' and not ('S' in repr(t) or 'D' in repr(t)):
            raise AssertionError('the thawed value shares a mutable part with the original: %s' % show(r))
        return Read(got)

    def op_thawfreeze(self, eng, e):
        t, f = e['a']
        x = self.build(t)
        fr = self.p.freeze(x)
        r = self.p.thaw(fr)
        a, b = self.mutables(x, {}), self.mutables(r, {})
        if set(a) & set(b):
            raise AssertionError('thaw(freeze(x)) shares a mutable part with x: %s' % show(r))
        got = self.read(r)
        self.scramble(r)
        if self.read(fr) != self.norm(f) or self.read(x) != self.norm(t):
            raise AssertionError('changing thaw(freeze(x)) changed x or freeze(x)')
        if self.read(self.p.thaw(fr)) != got:
            raise AssertionError('thawing twice gave different results')
        return Read(got)

    def op_getin(self, eng, e):
        (t, ks), k = e['a'], e['k']
        x, ks = self.build(t), [key(n) for n in ks]
        r = self.rng.randrange(4)
        path = tuple(ks) if r == 0 else iter(ks) if r == 1 else self.p.pvector(ks) if r == 2 else ks
        try:
            if k == 'plain':
                v = self.p.get_in(path, x)
            elif k == 'default':
                v = self.p.get_in(path, x, DEFAULT) if r < 2 else self.p.get_in(path, x, default=DEFAULT)
            elif k == 'strict':
                v = self.p.get_in(path, x, no_default=True)
            else:
                v = self.p.get_in(path, x, DEFAULT, True)
        finally:
            if self.read(x) != self.norm(t):
                raise AssertionError('the argument was modified: %s' % show(x))
        if v is DEFAULT:
            return Read(['dflt'])
        y = x
        try:
            for s in ks:
                y = y[s]
        except (KeyError, IndexError, TypeError):
            y = None
        if v is not y:
            raise AssertionError('not the element itself but %s' % show(v))
        return v

    def op_mutant(self, eng, e):
        t, u, w = e['a']
        a, b, c = self.build(t), self.build(u), self.build(w)
        seen = []

        def f(x, y=None):
            "doc"
            seen.append(x)
            seen.append(y)
            return c
        g = self.p.mutant(f)
        if g.__name__ != 'f' or g.__doc__ != 'doc':
            raise AssertionError('mutant lost the function name')
        r = g(a, y=b)
        if [self.read(a), self.read(b), self.read(c)] != [self.norm(t), self.norm(u), self.norm(w)]:
            raise AssertionError('an argument or result was modified')
        before = self.read(r)
        self.scramble(c)
        if self.read(r) != before:
            raise AssertionError('the result changed with what the function returned')
        return seen + [r]


class Read(object):
    """Something already read."""
    def __init__(self, t):
        self.t = t


_read = TreeAdapter.read
TreeAdapter.read = lambda self, o: o.t if type(o) is Read else _read(self, o)
