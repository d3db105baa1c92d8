"""Classes made by immutable()."""
import copy, random
from .engine import Adapter, show

BASE = {1: 'x', 2: 'y', 3: 'long_name', 4: 'w', 5: 'Zed', 8: 'nope', 9: 'nope_'}
PLAIN = {1: 'x', 2: 'y', 3: 'long_name', 4: 'w', 5: 'Zed'}


class ImmAdapter(Adapter):
    def __init__(self, impl, seed=1):
        import pyrsistent
        self.p = pyrsistent
        self.rng = random.Random(seed)

    def op_decl(self, eng, e):
        n, frozen, rule = e['a']
        self.n = n
        self.names = dict((i, BASE[i] + ('_' if i in frozen else '')) for i in range(1, n + 1))
        self.names.update({8: BASE[8], 9: BASE[9]})
        ms = [self.names[i] for i in range(1, n + 1)]
        r = self.rng.randrange(4)
        members = ms if r == 0 else ', '.join(ms) if r == 1 else ' '.join(ms) if r == 2 else tuple(ms)
        named = self.rng.random() < 0.5
        base = self.p.immutable(members, name='Thing') if named else self.p.immutable(members)
        self.cname = 'Thing' if named else 'Immutable'
        if rule:
            class Sub(base):
                __slots__ = ()

                def __new__(cls, *a, **k):
                    x = base.__new__(cls, *a, **k)
                    if len(x) and x[0] < 1:
                        raise ValueError('rule')
                    return x
            self.cls, self.cname = Sub, 'Sub'
        elif self.rng.random() < 0.3:
            class Sub2(base):
                __slots__ = ()
            self.cls, self.cname = Sub2, 'Sub2'
        else:
            self.cls = base

    def expand(self, r):
        return tuple(r)

    def is_value(self, obj):
        return isinstance(obj, self.cls)

    def check(self, v, exp):
        if type(v) is not self.cls:
            return 'gave %s of type %s' % (show(v), type(v))
        if tuple(v) != exp or len(v) != len(exp) or list(v) != list(exp):
            return 'members are %s instead of %s' % (show(v), exp)
        for i in range(self.n):
            if getattr(v, self.names[i + 1]) != exp[i]:
                return 'member %s is %r instead of %r' % (self.names[i + 1], getattr(v, self.names[i + 1]), exp[i])
        if v != exp or hash(v) != hash(exp):
            return 'not equal to the tuple of its members'

    def observe(self, v):
        return (tuple(v), [getattr(v, self.names[i + 1]) for i in range(self.n)], repr(v), hash(v))

    def src(self, eng, e):
        return eng.heap[e['s']].obj

    def kw(self, t):
        return dict((self.names[i + 1], x) for i, x in enumerate(t))

    def op_new(self, eng, e):
        t, k = e['a'], e['k']
        if k == 'pos':
            return self.cls(*t)
        if k == 'make':
            return self.cls._make(t)
        if k == 'kw':
            return self.cls(**self.kw(t))
        h = len(t) // 2
        d = self.kw(t)
        for i in range(h):
            del d[self.names[i + 1]]
        return self.cls(*t[:h], **d)

    def op_newbad(self, eng, e):
        k, n = e['k'], self.n
        if k == 'more':
            return self.cls(*range(1, n + 2))
        if k == 'fewer':
            return self.cls(*range(1, n))
        if k == 'unknown':
            return self.cls(*range(1, n + 1), nope=1)
        return self.cls(*range(1, n + 1), **{self.names[1]: 1})

    def op_set(self, eng, e):
        return self.src(eng, e).set(**dict((self.names[m], x) for m, x in e['a']))

    def unchanged(self, eng, e):
        ent = eng.heap[e['s']]
        return self.check(ent.obj, ent.exp)

    def after_err(self, eng, e, exc):
        return self.unchanged(eng, e) if e['s'] else None

    def op_assign(self, eng, e):
        v, m = self.src(eng, e), self.names[e['a'][0]]
        if e['k'] == 'set':
            setattr(v, m, 77)
        else:
            delattr(v, m)

    def op_item(self, eng, e):
        v = self.src(eng, e)
        if e['k'] == 'set':
            v[0] = 77
        else:
            del v[0]

    def op_get(self, eng, e):
        v, m, k = self.src(eng, e), e['a'][0], e['k']
        return getattr(v, self.names[m]) if k == 'attr' else v[m - 1] if k == 'item' else v[m - 1 - self.n]

    def op_cmp(self, eng, e):
        a, b = self.src(eng, e), eng.heap[e['a'][0]].obj
        if e['k'] == 'tuple':
            b = tuple(b)
        r = (a == b, b == a, a != b, b != a, a < b, b > a, a > b, b < a, a <= b, b >= a, a >= b, b <= a)
        for want, bits in ((0, '110000001111'), (-1, '001111001100'), (1, '001100110011')):
            if r == tuple(c == '1' for c in bits):
                if want == 0 and (hash(a) != hash(b) or {a: 1}.get(b) != 1):
                    return 'hash'
                return want
        return r

    def op_repr(self, eng, e):
        return repr(self.src(eng, e))

    def op_copy(self, eng, e):
        return getattr(copy, e['k'])(self.src(eng, e))

    def expand_val(self, e):
        if e['op'] == 'repr':
            return '%s(%s)' % (self.cname, ', '.join('%s=%r' % (self.names[i + 1], x) for i, x in enumerate(e['r'])))
        return e['r']
