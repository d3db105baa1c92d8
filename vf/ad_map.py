"""Persistent maps."""
import collections, itertools, random
from fractions import Fraction
from .engine import Adapter, HOOK, parse, roundtrip, show
from . import inputs
from .inputs import hooked
from .keys import Keys, Vals, PATTERNS, HASHES


BUILTINS = dict(Fraction=Fraction, frozenset=frozenset)


class LoudDict(dict):
    """A mapping whose items() is an observable iteration."""
    def items(self):
        return hooked(dict.items(self))


SENT = object()


class Content(dict):
    """Key number -> value number, and in q: key number -> the event whose key object the map holds."""
    q = None


class MapAdapter(Adapter):
    absent = 'key'
    once_ops = frozenset(['hashm'])
    evolver_ops = frozenset(['enew', 'eset', 'eremove', 'eget', 'epersist', 'edrop'])

    def __init__(self, impl, seed=1):
        from pyrsistent import pmap, PMap, m
        self.pmap, self.PMap, self.m = pmap, PMap, m
        self.rng = random.Random(seed)

        from pyrsistent import CheckedPMap, PRecord, field

        class Loose(CheckedPMap):
            __key_type__ = object
            __value_type__ = object
        self.Loose, self.PRecord, self.field = Loose, PRecord, field

    def rec(self, d):
        return type('Rec', (self.PRecord,), dict((k, self.field()) for k in d))(**d)

    def begin(self, eng, beh):
        self.K = Keys('int', self.rng)
        self.V = Vals()
        self.n = 0

    def op_hash(self, eng, e):
        self.K = Keys(e['k'], self.rng)
        self.n = e['a'][0]

    def call(self, eng, e):
        old = self.K.tag
        self.K.tag = e.get('t', 0)
        try:
            return Adapter.call(self, eng, e)
        finally:
            self.K.tag = old

    def expand(self, r):
        d = Content((x[0], x[1]) for x in r)
        d.q = dict((x[0], x[2]) for x in r)
        return d

    def is_value(self, obj):
        return isinstance(obj, self.PMap)

    def D(self, ps):
        return dict((self.K(k), self.V(v)) for k, v in ps)

    def pairs(self, it):
        return [(self.K.ident(k), self.V.ident(v)) for k, v in it]

    def named(self, n):
        if n[:1] not in 'KV' or not n[1:].isdigit():
            raise KeyError(n)
        return self.K(int(n[1:])) if n[0] == 'K' else self.V(int(n[1:]))

    def read_text(self, m, exp):
        a, k = parse(m, 'pmap', BUILTINS, self.named)
        if k or len(a) != 1 or type(a[0]) is not dict or dict(self.pairs(a[0].items())) != exp:
            return 'the representation is %s, the content %s' % (show(repr(m)), show(exp))
        for name, view, want in (('pmap_values', m.values(), sorted(exp.values())), ('pmap_items', m.items(), sorted(exp.items())),
                                 ('pset', m.keys(), sorted(exp))):
            a, k = parse(view, name, BUILTINS, self.named)
            l = list(a[0]) if a else []
            got = [self.V.ident(x) for x in l] if name == 'pmap_values' else self.pairs(l) if name == 'pmap_items' else [self.K.ident(x) for x in l]
            if sorted(got, key=repr) != sorted(want, key=repr):
                return 'the representation is %s, the content %s' % (show(repr(view)), show(exp))

    # -------- observation
    def check(self, m, exp, all_keys=True):
        HOOK.muted += 1
        try:
            return self.check_(m, exp)
        finally:
            HOOK.muted -= 1

    def check_(self, m, exp):
        if type(m) is not self.PMap:
            return 'gave %s of type %s' % (show(m), type(m))
        if len(m) != len(exp):
            return 'length is %d instead of %d (%s instead of %s)' % (len(m), len(exp), show(m), show(exp))
        l = self.pairs(m.items())
        if len(l) != len(exp) or dict(l) != exp:
            return 'items are %s instead of %s' % (show(sorted(l, key=repr)), show(exp))
        if self.K.p in HASHES and getattr(exp, 'q', None) is not None:
            q = dict((k.i, k.t) for k in m)
            if q != exp.q:
                return 'holds the key objects of events %s instead of those of events %s' % (show(q), show(exp.q))
        ks = [self.K.ident(k) for k in m]
        if len(ks) != len(exp) or set(ks) != set(exp):
            return 'iteration gives keys %s instead of %s' % (show(ks), show(sorted(exp)))
        ks = [self.K.ident(k) for k in m.keys()]
        if len(ks) != len(exp) or set(ks) != set(exp):
            return 'keys() gives %s instead of %s' % (show(ks), show(sorted(exp)))
        vs = collections.Counter(self.V.ident(v) for v in m.values())
        if vs != collections.Counter(exp.values()):
            return 'values() gives %s instead of %s' % (show(vs), show(exp))
        if len(m.keys()) != len(exp) or len(m.values()) != len(exp) or len(m.items()) != len(exp):
            return 'a view has the wrong length'
        for i in range(1, self.n + 1):
            k = self.K(i)
            if i in exp:
                v = self.V(exp[i])
                try:
                    got = m[k]
                except Exception as ex:
                    return 'lookup of present key %s raised %r' % (show(k), ex)
                if self.V.ident(got) != exp[i]:
                    return 'lookup of %s gives %s instead of %s' % (show(k), show(got), exp[i])
                if not (k in m) or self.V.ident(m.get(k, SENT)) != exp[i] or not (k in m.keys()):
                    return 'key %s is not found' % show(k)
                if not ((k, v) in m.items()) or not (v in m.values()):
                    return 'binding %s is not in items()/values()' % show((k, v))
            else:
                try:
                    got = m[k]
                except KeyError:
                    pass
                else:
                    return 'lookup of absent key %s gives %s' % (show(k), show(got))
                if k in m or m.get(k, SENT) is not SENT or m.get(k) is not None or k in m.keys():
                    return 'absent key %s is found' % show(k)
                if (k, None) in m.items() or (k, SENT) in m.items():
                    return 'absent key %s is found in items()' % show(k)
        if bool(m) != bool(exp):
            return 'truth value is wrong'
        return None

    def observe(self, m):
        ks = tuple(self.K.ident(k) for k in m)
        it = frozenset(self.pairs(m.items()))
        look = tuple(self.V.ident(m.get(self.K(i), SENT)) if m.get(self.K(i), SENT) is not SENT else None for i in range(1, self.n + 1))
        return (len(m), ks, it, look, hash(m))

    def check_ev(self, ev, exp, dirty):
        HOOK.muted += 1
        try:
            if len(ev) != len(exp):
                return 'evolver length is %d instead of %d' % (len(ev), len(exp))
            for i in range(1, self.n + 1):
                k = self.K(i)
                if (k in ev) != (i in exp):
                    return 'evolver: %s in it is %r' % (show(k), k in ev)
                try:
                    v = self.V.ident(ev[k])
                except KeyError:
                    v = None
                if v != exp.get(i):
                    return 'evolver[%s] is %s instead of %s' % (show(k), v, exp.get(i))
            d = ev.is_dirty()
            if d is not bool(dirty):
                return 'is_dirty() is %r instead of %r' % (d, bool(dirty))
        finally:
            HOOK.muted -= 1

    def observe_ev(self, ev):
        return frozenset((i, self.V.ident(ev[self.K(i)])) for i in range(1, self.n + 1) if self.K(i) in ev)

    def operands(self, e):
        return list(e['a']) if e['op'] in ('updatem', 'updatewith', 'cmp') else []

    def same_content(self, a, b):
        return set(a) == set(b) and all(a[k] // 2 == b[k] // 2 for k in a)

    def twins(self, eng, ent):
        ps = list(ent.exp.items())
        self.rng.shuffle(ps)
        x = self.pmap({}, self.rng.choice([1, 2, 3, 8, 100]))
        for k, v in ps:
            x = x.set(self.K(k), self.V(v))
        yield 'a map built by set', x
        e = self.pmap(self.D([(k, self.V.ident(None)) for k, v in ps]), self.rng.choice([0, 1, 7])).evolver()
        for k, v in ps:
            e[self.K(k)] = self.V(v)
        yield 'a map built by an evolver', e.persistent()

    # -------- operations
    def src(self, eng, e):
        return eng.heap[e['s']].obj

    def spoil(self, d):
        if isinstance(d, dict):
            for k in list(d):
                d[k] = 'spoiled'
            d['spoil'] = 1
        elif isinstance(d, list):
            d[:] = [('spoiled', 1)]

    def op_new(self, eng, e):
        (ps, pre), k = e['a'], e['k']
        if k == 'kw' and self.K.text():
            return self.m(**self.D(ps))
        if k == 'gen':
            return self.pmap(hooked([(self.K(a), self.V(b)) for a, b in ps]), pre)
        if k == 'pairs':
            d = [(self.K(a), self.V(b)) for a, b in ps]
        elif k == 'pmap':
            return self.pmap(self.pmap(self.D(ps)), pre)
        elif k in ('proxy', 'defdict', 'bindings'):
            return self.pmap(inputs.mapping(self.D(ps), k), pre)
        else:
            d = self.D(ps)
        r = self.pmap(d, pre) if pre else self.pmap(d)
        self.spoil(d)
        return r

    def op_bad(self, eng, e):
        m, k = self.src(eng, e), e['k']
        if k == 'new':
            return self.pmap([([], 1)])
        if k == 'set':
            return m.set([], 1)
        if k == 'get':
            return m[[]]
        if k == 'getm':
            return m.get([])
        if k == 'contains':
            return [] in m
        if k in ('remove', 'discard'):
            return getattr(m, k)([])
        if k == 'eset':
            m.evolver()[[]] = 1
        if k == 'eget':
            return m.evolver()[[]]
        if k == 'eremove':
            return m.evolver().remove([])
        if k == 'lt':
            return m < m
        if k == 'setitem':
            m[self.K(1)] = 2
        if k == 'setattr':
            m.foo = 1
        if k == 'foreign':
            return self.rng.choice([m == 5, m == None, not (m != 'a')])
        return self.rng.choice([m == list(m.items()), m == set(m), not (m != list(m))])

    def op_set(self, eng, e):
        return self.src(eng, e).set(self.K(e['a'][0]), self.V(e['a'][1]))

    def op_remove(self, eng, e):
        return self.src(eng, e).remove(self.K(e['a'][0]))

    def op_discard(self, eng, e):
        return self.src(eng, e).discard(self.K(e['a'][0]))

    def op_update(self, eng, e):
        ps, k, m = e['a'][0], e['k'], self.src(eng, e)
        if k == 'two':
            n = len(ps) // 2
            return m.update(LoudDict(self.D(ps[:n])), LoudDict(self.D(ps[n:])))
        if k == 'three':
            n = len(ps) // 3
            return m.update(self.pmap(self.D(ps[:n])), LoudDict(self.D(ps[n:2 * n])), self.pmap(self.D(ps[2 * n:])))
        d = LoudDict(self.D(ps))
        if k in ('proxy', 'bindings'):
            return m.update(inputs.mapping(dict(d), k))
        if k == 'pmap':
            return m.update(self.pmap(d))
        if k == 'checked':
            return m.update(self.Loose(d))
        if k == 'record' and self.K.text():
            return m + self.rec(d)
        r = m + d if k == 'plus' else m | d if k == 'or' else m.update(d)
        self.spoil(d)
        return r

    def op_update0(self, eng, e):
        return self.src(eng, e).update() if e['k'] == 'none' else self.src(eng, e).update({})

    def op_updatem(self, eng, e):
        m, o = self.src(eng, e), eng.heap[e['a'][0]].obj
        return m + o if e['k'] == 'plus' else m | o if e['k'] == 'or' else m.update(o)

    def op_updatewith(self, eng, e):
        f = e['k']

        def fn(l, r):
            HOOK.fire('merge')
            if f == 'left':
                return l
            if f == 'right':
                return r
            return self.V(500 + 2 * (self.V.ident(l) + 3 * self.V.ident(r)))
        def form(m):
            r = self.rng.randrange(4)
            return LoudDict(m) if r == 0 else inputs.Bindings(dict(m)) if r == 1 else m
        return self.src(eng, e).update_with(fn, *[form(eng.heap[i].obj) for i in e['a']])

    def op_transform(self, eng, e):
        from pyrsistent import discard
        k, v = e['a']
        m, w = self.src(eng, e), e['k']
        if w == 'discard':
            return m.transform([self.K(k)], discard)
        v = self.V(v)
        if w == 'fun':
            def f(old):
                HOOK.fire('command')
                return v
            return m.transform([self.K(k)], f)
        return m.transform([self.K(k)], v)

    def op_copy(self, eng, e):
        return self.src(eng, e).copy()

    def op_rt(self, eng, e):
        return roundtrip(self.src(eng, e), e['k'])

    def op_rebuild(self, eng, e):
        ps = [(self.K(k), self.V(v)) for k, v in sorted(eng.heap[e['s']].exp.items())]
        k, pre = e['k'], e['a'][0]
        if k == 'dict':
            return self.pmap(dict(ps), pre)
        if k == 'rev':
            return self.pmap(dict(ps[::-1]), pre)
        x = self.pmap({}, pre)
        if k == 'sets':
            for a, b in ps[::-1]:
                x = x.set(a, b)
            return x
        if k == 'addrem':
            x = x.set(self.K(1), 1).set(self.K(self.n), 2)
            for a, b in ps:
                x = x.set(a, b)
            for i in (1, self.n):
                if i not in eng.heap[e['s']].exp:
                    x = x.remove(self.K(i))
            return x
        ev = x.evolver()
        for a, b in ps:
            ev[a] = b
        return ev.persistent()

    def op_near(self, eng, e):
        k, l, v = e['a']
        return self.src(eng, e).remove(self.K(k)).set(self.K(l), self.V(v))

    def op_get(self, eng, e):
        m, k, w = self.src(eng, e), self.K(e['a'][0]), e['k']
        if w == 'in':
            return k in m
        if w == 'get':
            return m.get(k)
        if w == 'getd':
            return m.get(k, SENT)
        if w == 'attr' and self.K.text() and k[:1] != '_':
            return getattr(m, k)
        if w == 'attr':
            try:
                return m[k]
            except KeyError:
                raise AttributeError()
        return m[k]

    def op_cmp(self, eng, e):
        a, b = self.src(eng, e), eng.heap[e['a'][0]].obj
        if e['k'] == 'dict':
            b = dict(b)
            return [a == b, not (a != b), b == a, not (b != a)]
        if e['k'] == 'items':
            a, b = a.items(), b.items()
            return [a == b, not (a != b)]
        return [a == b, not (a != b), b == a, not (b != a)]

    def op_member(self, eng, e):
        m, k, v, w = self.src(eng, e), self.K(e['a'][0]), self.V(e['a'][1]), e['k']
        if w == 'keys':
            return k in m.keys()
        if w == 'values':
            return v in m.values()
        if w == 'pair':
            return (k, v, k) in m.items()
        return (k, v) in m.items()

    def op_hashm(self, eng, e):
        m = self.src(eng, e)
        h = hash(m)
        HOOK.muted += 1
        try:
            return h == hash(m) == hash(self.pmap(dict(m.items())))
        finally:
            HOOK.muted -= 1

    def decode(self, e, raw):
        if e['op'] in ('member', 'hashm', 'bad'):
            return int(raw) if isinstance(raw, bool) else raw
        if e['op'] == 'cmp':
            return e['r'] if all(x is bool(e['r']) for x in raw) else raw
        if e['op'] in ('get', 'eget'):
            if e['k'] == 'in':
                return int(raw) if isinstance(raw, bool) else raw
            if raw is SENT:
                return -2
            if raw is None and e['r'] == -1:
                return -1
            return self.V.ident(raw)
        return raw

    def op_iter(self, eng, e):
        m, k = self.src(eng, e), e['k']
        if k == 'iter':
            return [iter(m), []]
        if k[0] == 'v':
            return [getattr(m, k[1:])(), None]
        return [getattr(m, k)(), []]

    def op_next(self, eng, e):
        it, seen = eng.its[e['s']].obj
        new = list(itertools.islice(it, e['a'][0])) if seen is not None else list(it)
        if seen is not None:
            seen.extend(new)
        return new, (new if seen is None else seen), e['k']

    def check_seq(self, raw, r):
        # r: expanded below to (dict, count)
        new, seen, k = raw
        exp, cnt = r
        if len(new) != cnt:
            return 'yielded %d elements instead of %d (%s of %s)' % (len(new), cnt, show(new), show(exp))
        if 'values' in k:
            a, b = collections.Counter(self.V.ident(v) for v in seen), collections.Counter(exp.values())
        elif 'items' in k:
            a, b = collections.Counter(self.pairs(seen)), collections.Counter(exp.items())
        else:
            a, b = collections.Counter(self.K.ident(x) for x in seen), collections.Counter(exp)
            b = collections.Counter(list(exp))
        if a - b or len(seen) == len(exp) and a != b:
            return 'yielded %s of content %s' % (show(seen), show(exp))
        return None

    def expand_seq(self, r):
        return self.expand(r[0]), r[1]

    def op_drop(self, eng, e):
        ent = eng.heap[e['s']]
        ent.live, ent.obj = False, None

    def op_enew(self, eng, e):
        return self.src(eng, e).evolver()

    def ev(self, eng, e):
        return eng.evs[e['s']].obj

    def op_eset(self, eng, e):
        ev, k, v = self.ev(eng, e), self.K(e['a'][0]), self.V(e['a'][1])
        if e['k'] == 'm':
            if ev.set(k, v) is not ev:
                raise AssertionError('set() of the evolver does not return the evolver')
        else:
            ev[k] = v

    def op_eremove(self, eng, e):
        ev, k = self.ev(eng, e), self.K(e['a'][0])
        if e['k'] == 'm':
            if ev.remove(k) is not ev:
                raise AssertionError('remove() of the evolver does not return the evolver')
        else:
            del ev[k]

    def op_eget(self, eng, e):
        k = self.K(e['a'][0])
        return k in self.ev(eng, e) if e['k'] == 'in' else self.ev(eng, e)[k]

    def op_epersist(self, eng, e):
        return self.ev(eng, e).persistent()

    def op_edrop(self, eng, e):
        ent = eng.evs[e['s']]
        ent.live, ent.obj = False, None

    def after_err(self, eng, e, exc):
        if e['op'] == 'eremove':
            ent = eng.evs[e['s']]
            return self.check_ev(ent.obj, ent.exp, ent.obs)
        return None
