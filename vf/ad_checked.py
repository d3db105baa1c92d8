"""Checked vectors, sets and maps."""
import collections, random
from .engine import Adapter, HOOK, parse, roundtrip, show
from .ad_map import LoudDict
from .inputs import hooked
from .atoms import A, E, equals, ident, spell, invariant, flatten

CACHE = {}


def build(kind, chain, style):
    """The classes of the chain; picklable because they are names of this module."""
    key = (kind, repr(chain), style)
    if key in CACHE:
        return CACHE[key]
    import pyrsistent
    base = {'vec': pyrsistent.CheckedPVector, 'set': pyrsistent.CheckedPSet, 'map': pyrsistent.CheckedPMap}[kind]
    out, parent = [], base
    for i, lev in enumerate(chain):
        d = {'__module__': __name__}
        if kind == 'map':
            if lev['k']:
                d['__key_type__'] = spell(lev['k'], style)
            if lev['t']:
                d['__value_type__'] = spell(lev['t'], style)
        elif lev['t']:
            d['__type__'] = spell(lev['t'], style)
        if lev['i']:
            d['__invariant__'] = invariant(lev['i'], style, kind == 'map')
        name = 'D%d_%d' % (len(CACHE), i)
        if style == 5 and i > 0:
            mix = type(base)(name + 'M', (base,), d)
            globals()[name + 'M'] = mix
            parent = type(base)(name, (parent, mix), {'__module__': __name__})
        else:
            parent = type(base)(name, (parent,), d)
        globals()[name] = parent
        out.append(parent)
    CACHE[key] = out
    return out


class CheckedAdapter(Adapter):
    evolver_ops = frozenset(['enew', 'eadd', 'emany', 'eput', 'edel', 'epersist'])

    def __init__(self, impl, kind, seed=1):
        import pyrsistent
        self.p = pyrsistent
        from pyrsistent._pvector import python_pvector
        self.py = python_pvector
        self.kind = kind
        self.rng = random.Random(seed)
        self.V = A if kind == 'set' else E

    def partial(self, e, kind):
        return e['op'] == 'emany' or kind == 'invariant'     # the verdicts of the other invariants are kept for persistent()

    def op_decl(self, eng, e):
        self.cls = [None] + build(self.kind, e['a'], self.rng.randrange(6))

    def expand(self, r):
        c, l = r
        if self.kind == 'vec':
            c = list(c)
        elif self.kind == 'set':
            c = frozenset(x[0] for x in c)
        else:
            c = dict((k, v) for k, v in c)
        return (c, l)

    def size(self, exp):
        return len(exp[0])

    def is_value(self, obj):
        return isinstance(obj, tuple(self.cls[1:]))

    def expand_ev(self, r):
        return self.expand([r, 0])[0]

    def content_of(self, v):
        if self.kind == 'vec':
            return [ident(x) for x in v]
        if self.kind == 'set':
            l = [ident(x) for x in v]
            return frozenset(l) if len(set(l)) == len(l) else l
        l = [(ident(k), ident(x)) for k, x in v.items()]
        return dict(l) if len(dict(l)) == len(l) else l

    def check(self, v, exp):
        c, l = exp
        if type(v) is not self.cls[l]:
            return 'gave %s of type %s instead of %s' % (show(v), type(v), self.cls[l])
        got = self.content_of(v)
        if got != c or len(v) != len(c):
            return 'content is %s instead of %s' % (show(got), show(c))
        if self.kind == 'vec':
            n = len(c)
            for i in list(range(min(n, 40))) + [n - 1] * (n > 0):
                if ident(v[i]) != c[i]:
                    return '[%d] is %s instead of %s' % (i, show(v[i]), c[i])
        elif self.kind == 'map':
            for k, x in c.items():
                if ident(v[A(k)]) != x:
                    return '[%s] is wrong' % A(k)
        else:
            for k in c:
                if A(k) not in v:
                    return '%s is not found' % A(k)

    def read_text(self, v, exp):
        c, l = exp
        a, k = parse(v, self.cls[l].__name__)
        x = a[0] if a else ()
        if self.kind == 'map':
            ok = type(x) is dict and sorted(map(repr, x.items())) == sorted(repr((A(i), self.V(j))) for i, j in c.items())
        else:
            got, want = [repr(i) for i in x], [repr(self.V(i)) for i in c]
            ok = got == want if self.kind == 'vec' else sorted(got) == sorted(want)
        if k or not ok or len(a) > 1:
            return 'the representation is %s, the content %s' % (show(repr(v)), show(c))

    def observe(self, v):
        return (self.content_of(v), len(v), hash(v), repr(type(v)))

    def same_content(self, a, b):
        if a[1] != b[1]:
            return None
        if self.kind == 'vec':
            return list(map(equals, a[0])) == list(map(equals, b[0]))
        if self.kind == 'map':
            return dict((k, equals(v)) for k, v in a[0].items()) == dict((k, equals(v)) for k, v in b[0].items())
        return a[0] == b[0]

    def twins(self, eng, ent):
        c, l = ent.exp
        cls = self.cls[l]
        if self.kind == 'map':
            yield 'one built by the constructor', cls(dict((A(k), self.V(v)) for k, v in reversed(list(c.items()))))
            yield 'a plain map', self.p.pmap(dict((A(k), self.V(v)) for k, v in c.items()))
        elif self.kind == 'set':
            yield 'one built by the constructor', cls([A(k) for k in sorted(c, reverse=True)])
            yield 'a plain set', self.p.pset([A(k) for k in c])
        else:
            yield 'one built by the constructor', cls([self.V(k) for k in c])
            yield 'a plain vector', self.py([self.V(k) for k in c])

    def check_ev(self, ev, exp, dirty):
        c = exp
        if self.kind != 'set':
            got = [ident(ev[i]) for i in range(len(ev))] if self.kind == 'vec' else dict((k, ident(ev[A(k)])) for k in c if A(k) in ev)
            if got != c:
                return 'evolver shows %s instead of %s' % (show(got), show(c))
        if len(ev) != len(c):
            return 'evolver length is %d instead of %d' % (len(ev), len(c))
        d = ev.is_dirty()
        if dirty in (0, 1) and d is not bool(dirty):
            return 'is_dirty() is %r instead of %r' % (d, bool(dirty))

    def observe_ev(self, ev):
        return len(ev)

    def exc_ok(self, exc, want):
        k = want[0]
        if k == 'type':
            if not isinstance(exc, self.p.CheckedTypeError if hasattr(self.p, 'CheckedTypeError') else TypeError):
                return False
            cls = self.cls[want[3]]
            bad = want[1] if isinstance(exc, self.p.CheckedKeyTypeError) else want[2]
            return ident(exc.actual_value) in bad and exc.actual_type is type(exc.actual_value) and exc.source_class is cls
        if k == 'inv':
            if not isinstance(exc, self.p.InvariantException):
                return False
            return collections.Counter(flatten(exc.invariant_errors)) == collections.Counter(dict(want[1]))
        return Adapter.exc_ok(self, exc, k)

    def exc_show(self, exc):
        if isinstance(exc, self.p.InvariantException):
            return ' with %r' % (flatten(exc.invariant_errors),)
        return ' with %s' % show(exc.__dict__) if isinstance(exc, TypeError) else ''

    # -------- operations
    def src(self, eng, e):
        return eng.heap[e['s']].obj

    def many(self, ps, k):
        if self.kind == 'map':
            d = LoudDict((A(x), self.V(y)) for x, y in ps)
            return self.p.pmap(d) if k in ('plain', 'own', 'pyplain') else d
        l = [self.V(y) for x, y in ps]
        if k == 'gen':
            return hooked(l)
        if self.kind == 'vec':
            return self.p.pvector(l) if k in ('plain', 'own') else self.py(l) if k == 'pyplain' else l
        return self.p.pset(l) if k in ('plain', 'own') else self.p.pmap(dict((x, 1) for x in l)).keys() if k == 'pyplain' else l

    def spoil(self, d):
        if isinstance(d, dict):
            d['spoiled'] = 'spoiled'
        elif isinstance(d, list):
            d[:] = ['spoiled']

    def op_new(self, eng, e):
        ps, l = e['a']
        cls = self.cls[l]
        d = self.many(ps, e['k'])
        r = cls.create(d) if e['k'] in ('create', 'list') else cls(d)
        self.spoil(d)
        return r

    def op_from(self, eng, e):
        cls, v = self.cls[e['a'][0]], self.src(eng, e)
        return cls.create(v) if e['k'] == 'create' else cls(v)

    def op_add(self, eng, e):
        k, v = e['a']
        s = self.src(eng, e)
        return s.append(self.V(v)) if self.kind == 'vec' else s.add(A(v)) if self.kind == 'set' else s.set(A(k), self.V(v))

    def op_many(self, eng, e):
        s, k = self.src(eng, e), e['k']
        d = self.many(e['a'][0], k)
        if self.kind == 'vec':
            r = s + d if k == 'plus' else s.extend(d)
        elif self.kind == 'set':
            r = s.update(d)
        else:
            r = s + d if k == 'plus' else s.update_with(lambda a, b: b, d) if k == 'with' else s.update(d)
        self.spoil(d)
        return r

    def op_put(self, eng, e):
        s, (i, x), k = self.src(eng, e), e['a'], e['k']
        x = self.V(x)
        if self.kind == 'map':
            i = A(i)

        def fn(old):
            HOOK.fire('command')
            return x
        if k == 'set':
            return s.set(i, x)
        if k == 'mset':
            return s.mset(i, x)
        return s.transform([i], fn if k == 'fun' else x)

    def op_del(self, eng, e):
        return getattr(self.src(eng, e), e['k'])(A(e['a'][0]))

    def op_rt(self, eng, e):
        v = self.src(eng, e)
        if e['k'] == 'serialize':
            return type(v).create(v.serialize())
        return roundtrip(v, e['k'], dict(list(A.memo.items()) + [(1000 + n, x) for n, x in E.memo.items()]))

    def op_rebuild(self, eng, e):
        c, l = eng.heap[e['s']].exp
        cls = self.cls[l]
        if self.kind == 'map':
            ps = [(A(k), self.V(v)) for k, v in c.items()]
        else:
            ps = [(self.V(k), self.V(k)) for k in c]
        if e['k'] == 'ctor':
            return cls(dict(ps)) if self.kind == 'map' else cls([x for _, x in ps])
        x = cls()
        if self.kind == 'set':
            ps = ps[::-1]
        if e['k'] == 'evolver':
            ev = x.evolver()
            for k, v in ps:
                ev.append(v) if self.kind == 'vec' else ev.add(v) if self.kind == 'set' else ev.set(k, v)
            return ev.persistent()
        for k, v in ps:
            x = x.append(v) if self.kind == 'vec' else x.add(v) if self.kind == 'set' else x.set(k, v)
        return x

    def op_drop(self, eng, e):
        ent = eng.heap[e['s']]
        ent.live, ent.obj = False, None

    def op_enew(self, eng, e):
        return self.src(eng, e).evolver()

    def ev(self, eng, e):
        return eng.evs[e['s']].obj

    def op_eadd(self, eng, e):
        ev, (k, v) = self.ev(eng, e), e['a']
        if self.kind == 'vec':
            r = ev.append(self.V(v))
        elif self.kind == 'set':
            r = ev.add(A(v))
        elif e['k'] == 'i':
            ev[A(k)] = self.V(v)
            return
        else:
            r = ev.set(A(k), self.V(v))
        if r is not ev:
            raise AssertionError('the evolver is not returned')

    def op_emany(self, eng, e):
        ev = self.ev(eng, e)
        if ev.extend(self.many(e['a'][0], e['k'])) is not ev:
            raise AssertionError('the evolver is not returned')

    def op_eput(self, eng, e):
        ev, (i, x) = self.ev(eng, e), e['a']
        if e['k'] == 'i':
            ev[i] = self.V(x)
        elif ev.set(i, self.V(x)) is not ev:
            raise AssertionError('the evolver is not returned')

    def op_edel(self, eng, e):
        ev, x = self.ev(eng, e), e['a'][0]
        if self.kind == 'vec':
            if e['k'] == 'i':
                del ev[x]
            else:
                ev.delete(x)
        elif self.kind == 'map' and e['k'] == 'i':
            del ev[A(x)]
        else:
            ev.remove(A(x))

    def op_epersist(self, eng, e):
        return self.ev(eng, e).persistent()

    def after_err(self, eng, e, exc):
        if e['op'] in ('eadd', 'eput', 'edel', 'emany'):
            ent = eng.evs[e['s']]
            if ent.exp is None:
                return None
            return self.check_ev(ent.obj, ent.exp, ent.obs)
