"""Records and class instances with declared fields."""
import collections, random, types
from .engine import Adapter, HOOK, NONE, parse, roundtrip, show
from .ad_map import LoudDict
from .atoms import E as A, equals, ident, num, spell, invariant, flatten

CACHE = {}
NAMES = {1: 'a', 2: 'b', 3: 'c', 4: 'd', 9: 'zz'}
NUMS = dict((v, k) for k, v in NAMES.items())


def factory(name):
    def f(x):
        HOOK.fire('factory')
        a = ident(x)
        if name == 'int' and type(x) is str:
            return A(100 + a - 200)
        if name == 'inc' and type(x) is int:
            return A(100 + (a - 100 + 1) % 10)
        return x
    return f


def initial(a, call):
    if not call:
        return A(a)

    def f():
        HOOK.fire('initial')
        return A(a)
    return f


def glob(names, style, last):
    names = sorted(names)

    def get(s, n):
        x = getattr(s, n, NAMES)
        return None if x is NAMES else num(x)

    def f(s):
        HOOK.fire('invariant')
        a, b, c = get(s, 'a'), get(s, 'b'), get(s, last)
        rs = []
        for n in names:
            ok = (a is None or b is None or a <= b) if n == 'ord' else (last == 'a' or a is None or c is None or a != c) if n == 'dis' else \
                any(get(s, x) is not None for x in 'abcd')
            rs.append((ok, (lambda n=n: n) if style == 2 else n))
        return rs[0] if len(rs) == 1 else tuple(rs)
    return f


def make_field(d, style):
    from pyrsistent import field
    kw = {}
    if d['t']:
        kw['type'] = spell(d['t'], style)
    if d['i']:
        kw['invariant'] = invariant(d['i'], style)
    if d['m']:
        kw['mandatory'] = True
    if d['ini'] != NONE:
        kw['initial'] = initial(d['ini'], d['call'])
    if d['fac'] != 'none':
        kw['factory'] = factory(d['fac'])
    return field(**kw)


def build(kind, fields, globs, style):
    key = (kind, repr(fields), repr(globs), style)
    if key in CACHE:
        return CACHE[key]
    import pyrsistent
    base = pyrsistent.PRecord if kind == 'rec' else pyrsistent.PClass
    meta = type(base)
    n = len(fields)
    fs = [(NAMES[i + 1], make_field(fields[i], style)) for i in range(n)]
    gs = sorted(globs)
    name = 'R%d' % len(CACHE)
    last = NAMES[n]

    def mk(suffix, bases, fs, gs):
        d = {'__module__': __name__}
        d.update(fs)
        if gs:
            d['__invariant__'] = glob(gs, style, last)
        c = meta(name + suffix, bases, d)
        globals()[name + suffix] = c
        return c
    if style == 1:      # a chain
        p = mk('B', (base,), fs[:1], gs[:1])
        c = mk('', (p,), fs[1:], gs[1:])
    elif style == 3:    # a chain of three
        p = mk('B', (base,), fs[:1], [])
        p = mk('M', (p,), fs[1:2], gs[1:])
        c = mk('', (p,), fs[2:], gs[:1])
    elif style == 4 and kind == 'rec':    # two bases
        p = mk('B', (base,), fs[:1], gs[:1])
        q = mk('M', (base,), fs[1:], gs[1:])
        c = mk('', (p, q), [], [])
    elif style == 5:    # redeclared
        from pyrsistent import field
        p = mk('B', (base,), [(fs[0][0], field(type=bytes, mandatory=True, initial=b''))] + fs[1:], gs)
        c = mk('', (p,), fs[:1], [])
    else:
        c = mk('', (base,), fs, gs)
    CACHE[key] = c
    return c


def alien(names):
    """A class of its own with the same field names."""
    if names not in CACHE:
        import pyrsistent
        CACHE[names] = type(pyrsistent.PClass)('Alien', (pyrsistent.PClass,), dict((n, pyrsistent.field()) for n in names))
    return CACHE[names]


class RecordAdapter(Adapter):
    absent = 'field'
    evolver_ops = frozenset(['enew', 'eset', 'eremove', 'epersist'])

    def __init__(self, impl, kind, seed=1):
        import pyrsistent
        self.p = pyrsistent
        self.kind = kind
        self.rng = random.Random(seed)

    def op_decl(self, eng, e):
        fields, globs = e['a']
        self.cls = build(self.kind, fields, globs, self.rng.randrange(6))
        self.has_ini = set(i + 1 for i in range(len(fields)) if fields[i]['ini'] != NONE)
        self.fields = [NAMES[i + 1] for i in range(len(fields))]

    def expand(self, r):
        return dict((k, v) for k, v in r)

    def is_value(self, obj):
        return isinstance(obj, self.cls)

    def D(self, ps):
        return dict((NAMES[k], A(v)) for k, v in ps)

    def content_of(self, v):
        if self.kind == 'rec':
            l = [(NUMS.get(k, k), ident(x)) for k, x in v.items()]
            return dict(l) if len(dict(l)) == len(l) else l
        return dict((NUMS[n], ident(getattr(v, n))) for n in self.fields if hasattr(v, n))

    def check(self, v, exp):
        if type(v) is not self.cls:
            return 'gave %s of type %s' % (show(v), type(v))
        got = self.content_of(v)
        if got != exp:
            return 'fields are %s instead of %s' % (show(got), show(exp))
        for k, x in exp.items():
            if ident(getattr(v, NAMES[k])) != x:
                return 'attribute %s is wrong' % NAMES[k]
        if self.kind == 'rec':
            if len(v) != len(exp) or set(v) != set(NAMES[k] for k in exp):
                return 'keys are %s instead of %s' % (show(list(v)), show(exp))

    def read_text(self, v, exp):
        a, k = parse(v, self.cls.__name__)
        if a or dict((n, repr(x)) for n, x in k.items()) != dict((NAMES[i], repr(A(x))) for i, x in exp.items()):
            return 'the representation is %s, the content %s' % (show(repr(v)), show(exp))

    def observe(self, v):
        return (self.content_of(v), hash(v), repr(v))

    def twins(self, eng, ent):
        if self.rt_ok(ent.exp):
            yield 'an unpickled copy', roundtrip(ent.obj, 'p2')

    def same_content(self, a, b):
        return dict((k, equals(v)) for k, v in a.items()) == dict((k, equals(v)) for k, v in b.items())

    def strangers(self, eng, ent):
        if self.kind == 'rec':
            return Adapter.strangers(self, eng, ent)
        d = self.D(ent.exp.items())
        return [types.SimpleNamespace(**d), alien(tuple(self.fields))(**d), d, 5, None, tuple(d.items())]

    def rt_ok(self, exp):
        # known finding: unpickling gives a removed field its initial value again
        return self.kind == 'cls' or not (self.has_ini - set(exp))

    def check_ev(self, ev, exp, dirty):
        for n in self.fields + ['zz']:
            k = NUMS[n]
            try:
                x = ident(ev[n])
            except KeyError:
                x = None
            if x != exp.get(k):
                return 'evolver[%r] is %s instead of %s' % (n, x, exp.get(k))
        if self.kind == 'rec':
            if len(ev) != len(exp):
                return 'evolver length is %d instead of %d' % (len(ev), len(exp))
            if ev.is_dirty() is not bool(dirty):
                return 'is_dirty() is %r instead of %r' % (ev.is_dirty(), bool(dirty))

    def observe_ev(self, ev):
        return [ident(ev[n]) for n in self.fields if n in ev] if self.kind == 'rec' else None

    def exc_ok(self, exc, want):
        if want[0] != 'bad':
            return Adapter.exc_ok(self, exc, want[0])
        _, kinds, codes, missing, types = want
        one = len(kinds) == 1
        if isinstance(exc, self.p.PTypeError):
            return 'type' in kinds and NUMS.get(exc.field) in types and exc.source_class is self.cls
        if isinstance(exc, self.p.InvariantException):
            if 'inv' not in kinds:
                return False
            if not one:
                return True
            return collections.Counter(flatten(exc.invariant_errors)) == collections.Counter(dict(codes)) and \
                sorted(exc.missing_fields) == sorted('%s.%s' % (self.cls.__name__, NAMES[m]) for m in missing)
        if isinstance(exc, AttributeError):
            return 'attr' in kinds
        return False

    def exc_show(self, exc):
        if isinstance(exc, self.p.InvariantException):
            return ' with %r, %r' % (flatten(exc.invariant_errors), exc.missing_fields)
        return ' with %s' % show(exc.__dict__) if isinstance(exc, TypeError) else ''

    # -------- operations
    def src(self, eng, e):
        return eng.heap[e['s']].obj

    def op_new(self, eng, e):
        d, k = self.D(e['a']), e['k']
        if k == 'ctor':
            return self.cls(**d)
        if k == 'createmap':
            return self.cls.create(self.p.pmap(d))
        before = dict(d)
        r = self.cls.create(d, ignore_extra=True) if k == 'ignore' else self.cls.create(d)
        if d != before:
            raise AssertionError('create() modified its argument')
        d['a'] = 'spoiled'
        return r

    def op_setkw(self, eng, e):
        d, k, v = self.D(e['a']), e['k'], self.src(eng, e)
        if k == 'kw':
            return v.set(**d)
        if k == 'mixed':
            n = self.rng.choice(sorted(d))
            return v.set(n, d.pop(n), **d)
        if k == 'plus':
            return v + LoudDict(d)
        if k == 'two':
            ks = sorted(d)
            return v.update(LoudDict((x, d[x]) for x in ks[:1]), LoudDict((x, d[x]) for x in ks[1:]))
        return v.update(LoudDict(d))

    def op_setone(self, eng, e):
        f, x = e['a']
        return self.src(eng, e).set(NAMES[f], A(x))

    def op_transform(self, eng, e):
        f, x = e['a']
        x = A(x)

        def fn(old):
            HOOK.fire('command')
            return x
        v, n = self.src(eng, e), NAMES[f]
        if e['k'] == 'two':
            return v.transform([n], fn, [n], lambda y: y)
        return v.transform([n], x if e['k'] == 'const' else fn)

    def op_remove(self, eng, e):
        v, n = self.src(eng, e), NAMES[e['a'][0]]
        if e['k'] == 'transform':
            return v.transform([n], self.p.discard)
        return getattr(v, e['k'])(n)

    def op_get(self, eng, e):
        v, n, k = self.src(eng, e), NAMES[e['a'][0]], e['k']
        if k == 'attr':
            return getattr(v, n)
        if k == 'in':
            return n in v
        return v[n] if k == 'item' else v.get(n)

    def op_assign(self, eng, e):
        v, n = self.src(eng, e), NAMES[e['a'][0]]
        if e['k'] == 'set':
            setattr(v, n, A(101))
        else:
            delattr(v, n)

    def op_setnone(self, eng, e):
        return getattr(self.src(eng, e), e['k'])(*([{}] if e['k'] == 'update' else []))

    def op_serialize(self, eng, e):
        return self.src(eng, e).serialize()

    def decode(self, e, raw):
        if e['op'] == 'serialize':
            return sorted([NUMS.get(k, k), ident(v)] for k, v in raw.items()) if type(raw) is dict else raw
        if e['op'] == 'get':
            if e['k'] == 'in':
                return int(raw) if isinstance(raw, bool) else raw
            if raw is None and e['r'] == -1:
                return -1
            return ident(raw)
        return raw

    def op_rt(self, eng, e):
        v = self.src(eng, e)
        if e['k'] == 'serialize':
            return self.cls.create(v.serialize())
        if e['k'] == 'same':
            return self.cls.create(v)
        return roundtrip(v, e['k'], A.memo)

    def op_rebuild(self, eng, e):
        d = self.D(eng.heap[e['s']].exp.items())
        if e['k'] == 'ctor':
            return self.cls(**d)
        v = self.src(eng, e)
        if e['k'] == 'sets':
            return v.set(**d)
        ev = v.evolver()
        for k in sorted(d, reverse=True):
            ev[k] = d[k]
        return ev.persistent()

    def op_drop(self, eng, e):
        ent = eng.heap[e['s']]
        ent.live, ent.obj = False, None

    def op_enew(self, eng, e):
        return self.src(eng, e).evolver()

    def ev(self, eng, e):
        return eng.evs[e['s']].obj

    def op_eset(self, eng, e):
        ev, (f, x), k = self.ev(eng, e), e['a'], e['k']
        if k == 'attr' and self.kind == 'cls':
            setattr(ev, NAMES[f], A(x))
        elif k == 'm':
            if ev.set(NAMES[f], A(x)) is not ev:
                raise AssertionError('the evolver is not returned')
        else:
            ev[NAMES[f]] = A(x)

    def op_eremove(self, eng, e):
        ev, n = self.ev(eng, e), NAMES[e['a'][0]]
        if e['k'] == 'm':
            ev.remove(n)
        else:
            del ev[n]

    def op_epersist(self, eng, e):
        return self.ev(eng, e).persistent()

    def after_err(self, eng, e, exc):
        if e['op'] in ('eset', 'eremove'):
            ent = eng.evs[e['s']]
            if ent.exp is not None:
                return self.check_ev(ent.obj, ent.exp, ent.obs)
