"""Nested declarations, built as the behaviour's first event says."""
import random, sys, types
from .engine import Adapter, HOOK, show
from .atoms import flatten

NAMES = 'abc'
KEY = ['rec', [['field', ['int'], True, 0], ['none', ['int'], False, 0], ['none', ['int'], False, 0]]]
EXTRA = 'zz'
MOD = types.ModuleType('vfnest')
sys.modules['vfnest'] = MOD


class NestAdapter(Adapter):
    def __init__(self, impl, seed=1):
        import pyrsistent
        self.p = pyrsistent
        self.rng = random.Random(seed)
        self.n = 0

    def begin(self, eng, beh):
        self.cls = {}

    def cat(self, op):
        return {'ser': 'rt', 'rt': 'rt', 'setf': 'set', 'deep': 'set', 'inst': 'set', 'createx': 'ign'}.get(op, 'make')

    # -------- declarations
    def named(self, name, bases, body):
        body['__module__'] = 'vfnest'
        c = type(bases[0])(name, bases, body)
        setattr(MOD, name, c)
        return c

    def typ(self, t):
        """What to write where the declaration asks for type t: the class, or its name."""
        c = self.klass(t)
        if t[0] not in ('int', 'str', 'zint') and self.rng.random() < 0.3:
            return 'vfnest.' + c.__name__
        return c

    def klass(self, t):
        if t[0] in ('int', 'zint'):
            return int
        if t[0] == 'str':
            return str
        key = repr(t)
        if key in self.cls:
            return self.cls[key]
        self.n += 1
        name, p = 'N%d' % self.n, self.p
        if t[0] in ('rec', 'cls'):
            base = p.PRecord if t[0] == 'rec' else p.PClass
            fs = [(NAMES[i], self.field(f)) for i, f in enumerate(t[1]) if f[0] != 'none']
            cut = self.rng.choice([0, 0, 1, 2])
            if cut and len(fs) > 1:       # the first fields are inherited
                base = self.named(name + 'Base', (base,), dict(fs[:cut]))
                fs = fs[cut:]
            c = self.named(name, (base,), dict(fs))
        elif t[0] == 'kmap':
            c = self.named(name, (p.CheckedPMap,), dict(__key_type__=self.typ(KEY), __value_type__=self.typ(t[1])))
        elif t[0] == 'map':
            c = self.named(name, (p.CheckedPMap,), dict(__key_type__=int, __value_type__=self.typ(t[1]),
                                                        **(dict(__serializer__=unpair) if t[1][0] == 'zint' else {})))
        else:
            c = self.named(name, (p.CheckedPVector if t[0] == 'vec' else p.CheckedPSet,),
                           dict(__type__=self.typ(t[1]), **(dict(__serializer__=unelem) if t[1][0] == 'zint' else {})))
        if self.rng.random() < 0.25:      # everything is inherited
            c = self.named(name + 'Sub', (c,), {})
        self.cls[key] = c
        return c

    def field(self, f):
        p, (decl, t, mand, init) = self.p, f
        if decl == 'any':
            return p.field(mandatory=mand, **(dict(initial=init) if init else {}))
        if decl == 'conv':
            return p.field(type=int, mandatory=mand, factory=conv if self.rng.random() < 0.7 else int, serializer=unconv, **(dict(initial=init) if init else {}))
        if decl == 'pack':
            V = self.klass(['vec', ['int']])

            def unpack(x):
                HOOK.fire('factory')
                return V.create([int(y) for y in x]) if x is not None else x
            return p.field(type=V, mandatory=mand, factory=unpack, serializer=pack)
        if decl == 'field':
            return p.field(type=self.typ(t), mandatory=mand, **(dict(initial=init if t[0] == 'int' else str(init)) if init else {}))
        opt = {'optional': True} if decl[0] == 'o' else {}
        if decl in ('imap', 'oimap'):
            def mapinv(v):
                HOOK.fire('invariant')
                return v is None or all(x < 100 for x in v.values()), 'many'
            return p.pmap_field(int, int, invariant=mapinv, **opt)
        if decl in ('iseq', 'oiseq', 'iset'):
            def item(x):
                HOOK.fire('invariant')
                return x < 100, 'item'

            def fieldinv(v):
                HOOK.fire('invariant')
                return v is None or len(v) < 5, 'many'
            # (a type of its own, for the sake of a known finding)
            return (p.pset_field if decl == 'iset' else p.pvector_field)(
                (int, self.own()), item_invariant=item, invariant=fieldinv, initial=(init,) if init else (), **opt)
        decl = decl.lstrip('o') if decl != 'omap' else 'map'
        if decl == 'seq':
            return p.pvector_field(self.typ(t), **opt)
        if decl == 'set':
            return p.pset_field(self.typ(t), **opt)
        return p.pmap_field(int, self.typ(t), **opt)

    def own(self):
        self.n += 1
        return self.named('Own%d' % self.n, (object,), {})

    def ft(self, f):
        d = f[0]
        return ['vec', f[1]] if d in ('seq', 'oseq') else ['set', f[1]] if d in ('set', 'oset') \
            else ['map', f[1]] if d in ('map', 'omap') else ['ivec'] if d in ('iseq', 'oiseq') else ['imap'] if d in ('imap', 'oimap') \
            else f[1] if d == 'field' else [d]

    # -------- data
    def plain(self, d, t=None, inst=False, gen=None):
        """Plain data as a Python object; with a type, some parts given as instances."""
        k = d[0]
        if k == 'i':
            return d[1]
        if k == 's':
            return str(d[1])
        if k == 'n':
            return None
        if inst and t and t[0] in ('rec', 'cls', 'vec', 'map', 'kmap', 'set') and self.rng.random() < 0.4:
            return self.klass(t).create(self.plain(d))
        sub = lambda x, u: self.plain(x, u, inst)
        if t and t[0] == 'imap':
            t = None
        if t and t[0] in ('pack', 'ivec'):
            return [self.plain(x) for x in d[1]]
        if k == 'l':
            r = [sub(x, t and t[1]) for x in d[1]]
            return self.wrap(r) if t else r
        if k == 't':
            r = [self.plain(x) for x in d[1]]
            return set(r) if not t or self.rng.random() < 0.5 else r
        if k == 'm':
            return dict((i + 1, sub(x, t and t[1])) for i, x in enumerate(d[1]) if x[0] != 'x')
        if k == 'k':
            extra = d[1][3][0] != 'x'
            return dict((self.key(i + 1, extra), sub(x, t and t[1])) for i, x in enumerate(d[1][:3]) if x[0] != 'x')
        return dict(((NAMES + 'z')[i] if i < 3 else EXTRA, sub(x, t and i < 3 and self.ft(t[1][i]) or None))
                    for i, x in enumerate(d[1]) if x[0] != 'x')

    def key(self, i, extra):
        """What describes the key i of a map with records for keys."""
        if extra:
            return self.p.pmap({'a': i, EXTRA: 9})
        return self.p.pmap({'a': i}) if self.rng.random() < 0.7 else self.klass(KEY)(a=i)

    def wrap(self, l):
        c = self.rng.randrange(5)
        return tuple(l) if c == 0 else iter(l) if c == 1 else self.p.pvector(l) if c == 2 else l

    def read(self, o, t):
        """The value as data, or a description of what is wrong with it."""
        p = self.p
        if o is None:
            return ['n']
        if t[0] in ('pack', 'ivec', 'iset'):
            t = ['set' if t[0] == 'iset' else 'vec', ['int']]
        elif t[0] == 'imap':
            t = ['map', ['int']]
        if t[0] in ('int', 'str', 'any', 'conv', 'zint'):
            return ['i', o] if type(o) is int else ['s', int(o)] if type(o) is str else ['?', repr(o)]
        if t[0] in ('rec', 'cls'):
            if type(o) is not self.klass(t):
                return ['?', 'a %s instead of a %s' % (type(o).__name__, self.klass(t).__name__)]
            if t[0] == 'rec':
                ks = list(o)
                if len(ks) != len(o) or any(k not in NAMES for k in ks):
                    return ['?', repr(o)]
                get = lambda n: (n in o, o.get(n))
            else:
                if any(n in dir(o) for n in (EXTRA,)):
                    return ['?', repr(o)]
                get = lambda n: (hasattr(o, n), getattr(o, n, None))
            r = []
            for i, f in enumerate(t[1]):
                has, v = get(NAMES[i])
                r.append(self.read(v, self.ft(f)) if has else ['x'])
            return ['d', r + [['x']]]
        base = dict(vec=p.CheckedPVector, set=p.CheckedPSet, map=p.CheckedPMap, kmap=p.CheckedPMap)[t[0]]
        if not isinstance(o, base) or type(o) is base:
            return ['?', repr(o)]
        if t[0] == 'vec':
            return ['l', [self.read(x, t[1]) for x in o]]
        if t[0] == 'set':
            return ['t', sorted(self.read(x, t[1]) for x in o)]
        if t[0] == 'kmap':
            K = self.klass(KEY)
            if len(list(o)) != len(o) or any(type(k) is not K or k not in (K(a=1), K(a=2), K(a=3)) for k in o):
                return ['?', repr(o)]
            return ['k', [self.read(o[K(a=k)], t[1]) if K(a=k) in o else ['x'] for k in (1, 2, 3)] + [['x']]]
        if len(list(o)) != len(o) or any(k not in (1, 2, 3) for k in o):
            return ['?', repr(o)]
        return ['m', [self.read(o[k], t[1]) if k in o else ['x'] for k in (1, 2, 3)]]

    def read_plain(self, o):
        ty = type(o)
        if o is None:
            return ['n']
        if ty is int:
            return ['i', o]
        if ty is str:
            return ['s', int(o)]
        if ty is list:
            return ['l', [self.read_plain(x) for x in o]]
        if ty is set:
            return ['t', sorted(self.read_plain(x) for x in o)]
        if ty is dict:
            ks = set(o)
            if ks <= {1, 2, 3} and ks:
                return ['m', [self.read_plain(o[k]) if k in o else ['x'] for k in (1, 2, 3)]]
            if ks <= set(NAMES) and ks:
                return ['d', [self.read_plain(o[k]) if k in o else ['x'] for k in NAMES] + [['x']]]
            if not ks:
                return ['e']
        return ['?', repr(o)]

    def canon(self, d):
        if d[0] == 't':
            return ['t', sorted(self.canon(x) for x in d[1])]
        if d[0] in ('i', 's', 'n', 'x'):
            return d
        return [d[0], [self.canon(x) for x in d[1]]]

    def empty(self, d):
        """In serialized data an empty record and an empty map look the same."""
        if d[0] in ('i', 's', 'n', 'x', 'e', '?'):
            return d
        if d[0] in ('m', 'd') and all(x[0] == 'x' for x in d[1]):
            return ['e']
        return [d[0], [self.empty(x) for x in d[1]]]

    def expand(self, r):
        return self.canon(r)

    def expand_val(self, e):
        return self.empty(self.canon(e['r']))

    def decode(self, e, raw):
        return self.read_plain(raw)

    def check(self, obj, exp):
        got = self.read(obj, self.T)
        if got != exp:
            return 'gave %s, described by %s, instead of %s' % (show(obj), show(got), show(exp))
        return self.extra_check

    extra_check = None

    def observe(self, obj):
        return (self.read(obj, self.T), repr(obj))

    def size(self, exp):
        return 10

    def exc_ok(self, exc, r):
        kind, miss = r
        if kind == 'AttributeError':
            return isinstance(exc, AttributeError)
        if kind == 'TypeError':
            return isinstance(exc, TypeError)
        if kind == 'NoneError':
            return isinstance(exc, (TypeError, AttributeError))
        if not isinstance(exc, self.p.InvariantException):
            return False
        if kind == 'InvariantError':
            return set(flatten(exc.invariant_errors)) == {miss}
        m = tuple(exc.missing_fields)
        # (a record also reports the mandatory field whose value could not be created)
        return any(x.endswith('.' + NAMES[miss - 1]) for x in m) and tuple(exc.invariant_errors) == ()

    def exc_show(self, exc):
        return ' %s %s' % (getattr(exc, 'missing_fields', ''), getattr(exc, 'invariant_errors', ''))

    def after_err(self, eng, e, exc):
        return None

    def same_content(self, a, b):
        return a == b

    def twins(self, eng, ent):
        return []

    # -------- operations
    def op_schema(self, eng, e):
        self.T = e['a']
        self.klass(self.T)

    def op_create(self, eng, e):
        C = self.klass(self.T)
        d, k = e['a'][0], e['k']
        data = self.plain(d, self.T if e['o'] == 'new' else None, e['o'] == 'new' and k != 'ignore' and self.T[0] != 'set')
        if k == 'ctor':
            if self.T[0] in ('rec', 'cls'):
                return C(**dict(data)) if not isinstance(data, C) else data
            return C(data)
        if k == 'ignore':
            return C.create(data, ignore_extra=True)
        return C.create(data)

    op_createx = op_create

    def op_inst(self, eng, e):
        v = eng.heap[e['s']].obj
        return type(v).create(v, ignore_extra=True) if e['k'] == 'ignore' else self.klass(self.T).create(v)

    def op_ser(self, eng, e):
        v = eng.heap[e['s']].obj
        fmt = self.rng.choice(['fmt', 0, None, {'x': 1}, ('y',)])
        del SEEN[:]
        r = v.serialize(fmt) if fmt is not None else v.serialize()
        for f in SEEN:
            if f is not fmt:
                raise AssertionError('a serializer was given the format %r instead of %r' % (f, fmt))
        return r

    def op_rt(self, eng, e):
        v = eng.heap[e['s']].obj
        s = v.serialize()
        w = self.klass(self.T).create(s, ignore_extra=True) if e['k'] == 'ignore' else self.klass(self.T).create(s)
        if not (w == v and v == w and not w != v and hash(w) == hash(v)):
            raise RuntimeError('create(serialize(x)) gave %r, which is not equal to x, %r' % (w, v))
        return w

    def op_setf(self, eng, e):
        v, (i, d), k = eng.heap[e['s']].obj, e['a'], e['k']
        n = NAMES[i - 1]
        x = self.plain(d, self.ft(self.T[1][i - 1]) if e['o'] == 'new' else None, e['o'] == 'new')
        if k == 'pos':
            return v.set(n, x)
        if k == 'kw':
            return v.set(**{n: x})
        if k == 'tr':
            return v.transform([n], lambda _: x) if self.T[0] == 'rec' or hasattr(v, n) else v.set(n, x)
        ev = v.evolver()
        if self.rng.random() < 0.5:
            ev[n] = x
        else:
            ev.set(n, x)
        return ev.persistent()

    def op_deep(self, eng, e):
        v, (path, d) = eng.heap[e['s']].obj, e['a']
        p = [NAMES[x - 1] if x < 10 else x - 10 if x < 100 else x - 100 if x < 200 else self.klass(KEY)(a=x - 200) for x in path]
        return v.transform(p, self.plain(d))


def conv(x):
    HOOK.fire('factory')
    return int(x)


SEEN = []


def unconv(fmt, x):
    SEEN.append(fmt)
    return str(x)


def pack(fmt, x):
    SEEN.append(fmt)
    return [str(y) for y in x]


def unelem(self, fmt, x):
    SEEN.append(fmt)
    return str(x)


def unpair(self, fmt, k, v):
    SEEN.append(fmt)
    return k, str(v)
