"""Persistent sets and bags."""
import collections, itertools, operator, random
from .engine import Adapter, HOOK, parse, roundtrip, show
from .keys import Keys
from . import inputs
from .ad_map import BUILTINS


class CollAdapter(Adapter):
    absent = 'key'
    evolver_ops = frozenset(['enew', 'eadd', 'eremove', 'epersist', 'edrop'])

    def __init__(self, impl, kind, seed=1):
        import pyrsistent
        self.kind = kind
        if kind == 'set':
            self.make, self.cls, self.args = pyrsistent.pset, pyrsistent.PSet, pyrsistent.s
        else:
            self.make, self.cls, self.args = pyrsistent.pbag, pyrsistent.PBag, pyrsistent.b
        self.pmap = pyrsistent.pmap

        class Loose(pyrsistent.CheckedPSet):
            __type__ = object
        self.loose = Loose
        self.rng = random.Random(seed)

    def begin(self, eng, beh):
        self.K = Keys('int', self.rng)
        self.n = 0

    def op_hash(self, eng, e):
        self.K = Keys(e['k'], self.rng)
        self.n = e['a'][0]

    def expand(self, r):
        return dict((k, v) for k, v in r)

    def expand_seq(self, r):
        return self.expand(r[0]), r[1]

    def is_value(self, obj):
        return isinstance(obj, self.cls)

    def L(self, xs):
        return [self.K(x) for x in xs]

    def flat(self, exp):
        return [x for x, n in sorted(exp.items()) for _ in range(n)]

    def size(self, exp):
        return sum(exp.values())

    def read_text(self, s, exp):
        def named(n):
            if n[:1] != 'K' or not n[1:].isdigit():
                raise KeyError(n)
            return self.K(int(n[1:]))
        a, k = parse(s, 'pset' if self.kind == 'set' else 'pbag', BUILTINS, named)
        l = sorted((self.K.ident(x) for x in (a[0] if a else ())), key=repr)
        if k or len(a) > 1 or l != sorted(self.flat(exp), key=repr):
            return 'the representation is %s, the content %s' % (show(repr(s)), show(exp))

    # -------- observation
    def check(self, s, exp):
        HOOK.muted += 1
        try:
            if type(s) is not self.cls:
                return 'gave %s of type %s' % (show(s), type(s))
            n = sum(exp.values())
            if len(s) != n:
                return 'length is %d instead of %d (%s instead of %s)' % (len(s), n, show(s), show(exp))
            l = collections.Counter(self.K.ident(x) for x in s)
            if l != collections.Counter(exp):
                return 'iteration gives %s instead of %s' % (show(l), show(exp))
            for i in range(1, self.n + 1):
                if (self.K(i) in s) is not (i in exp):
                    return '%s in it is %r' % (show(self.K(i)), self.K(i) in s)
                if self.kind == 'bag' and s.count(self.K(i)) != exp.get(i, 0):
                    return 'count(%s) is %r instead of %d' % (show(self.K(i)), s.count(self.K(i)), exp.get(i, 0))
            if bool(s) != bool(exp):
                return 'truth value is wrong'
        finally:
            HOOK.muted -= 1

    def observe(self, s):
        return (len(s), tuple(self.K.ident(x) for x in s), tuple(self.K(i) in s for i in range(1, self.n + 1)), hash(s),
                tuple(s.count(self.K(i)) for i in range(1, self.n + 1)) if self.kind == 'bag' else None)

    def check_ev(self, ev, exp, dirty):
        if len(ev) != len(exp):
            return 'evolver length is %d instead of %d' % (len(ev), len(exp))
        if ev.is_dirty() is not bool(dirty):
            return 'is_dirty() is %r instead of %r' % (ev.is_dirty(), bool(dirty))

    def observe_ev(self, ev):
        return len(ev)

    def operands(self, e):
        return e['a'][:1] if e['op'] in ('bin', 'rel') else []

    def same_content(self, a, b):
        return a == b

    def strangers(self, eng, ent):
        # (a bag refuses to be compared)
        return Adapter.strangers(self, eng, ent) if self.kind == 'set' else []

    def twins(self, eng, ent):
        xs = self.flat(ent.exp)
        self.rng.shuffle(xs)
        yield 'one built from a list', self.make(self.L(xs))
        x = self.make([])
        for i in xs[::-1]:
            x = x.add(self.K(i))
        yield 'one built by add', x

    # -------- operations
    def src(self, eng, e):
        return eng.heap[e['s']].obj

    def op_new(self, eng, e):
        (xs, pre), k = e['a'], e['k']
        l = self.L(xs)
        if k in ('gen', 'tuple', 'old', 'hint'):
            return self.make(inputs.sequence(l, k)[0])
        if k == 'own':
            return self.make(self.make(l))
        if k == 'checked':
            return self.make(self.loose(l))
        if k == 'args':
            return self.args(*l)
        if self.kind == 'set' and k == 'keys':
            return self.pmap(dict((x, i) for i, x in enumerate(l)), pre).keys()
        if self.kind == 'set' and k == 'set':
            return self.make(set(l))
        r = self.make(l, pre) if self.kind == 'set' and pre else self.make(l)
        l[:] = ['spoiled']
        return r

    def op_add(self, eng, e):
        return self.src(eng, e).add(self.K(e['a'][0]))

    def op_update(self, eng, e):
        l = self.L(e['a'][0])
        if e['k'] in ('gen', 'tuple', 'old', 'hint'):
            return self.src(eng, e).update(inputs.sequence(l, e['k'])[0])
        r = self.src(eng, e).update(self.make(l) if e['k'] == 'own' else self.loose(l) if e['k'] == 'checked' else l)
        l[:] = ['spoiled']
        return r

    def op_bad(self, eng, e):
        s, k = self.src(eng, e), e['k']
        if k == 'new':
            return self.make([[]])
        if k in ('add', 'remove', 'discard'):
            return getattr(s, k)([])
        if k == 'update':
            return s.update([[]])
        if k == 'contains':
            return [] in s
        if k == 'setattr':
            s.foo = 1
        if k == 'setitem':
            s[1] = 2
        if k == 'foreign':
            return self.rng.choice([s == 5, s == list(s), s == 'a', not (s != tuple(s)), s == None])
        if k == 'plusset':
            return s + {1}
        if k == 'sublist':
            return s - [1]
        o = dict(plus=operator.add, sub=operator.sub, eq=operator.eq, le=operator.le, lt=operator.lt)
        o.update({'or': operator.or_, 'and': operator.and_})
        return o[k](s, 5)

    def op_remove(self, eng, e):
        return self.src(eng, e).remove(self.K(e['a'][0]))

    def op_discard(self, eng, e):
        return self.src(eng, e).discard(self.K(e['a'][0]))

    OPS = {'or': operator.or_, 'and': operator.and_, 'sub': operator.sub, 'xor': operator.xor, 'add': operator.add}
    METHODS = {'or': 'union', 'and': 'intersection', 'sub': 'difference', 'xor': 'symmetric_difference'}

    def operand(self, eng, e):
        t, k = eng.heap[e['a'][0]].obj, e['k']
        if k in ('own', 'm-own'):
            return t
        l = self.L(self.flat(eng.heap[e['a'][0]].exp))
        return {'set': set, 'm-set': set, 'frozenset': frozenset, 'l-set': set, 'l-frozenset': frozenset, 'm-list': list,
                'checked': self.loose, 'm-checked': self.loose}[k](l)

    def op_bin(self, eng, e):
        a, t, op = self.src(eng, e), self.operand(eng, e), e['a'][1]
        if e['k'].startswith('m-'):
            return getattr(a, self.METHODS[op])(t)
        if e['k'].startswith('l-'):
            return self.OPS[op](t, a)
        return self.OPS[op](a, t)

    def op_rel(self, eng, e):
        a, op = self.src(eng, e), e['a'][1]
        if e['k'] == 'm-list':
            e = dict(e, k='m-set')
        t = self.operand(eng, e)
        if op == 'isdisjoint':
            return a.isdisjoint(t)
        if op == 'eq':
            r = a == t
            if (a != t) is not (not r):
                return '!= is not the negation of =='
            return r
        if e['k'].startswith('m-') and op in ('le', 'ge'):
            return a.issubset(t) if op == 'le' else a.issuperset(t)
        return getattr(operator, op)(a, t)

    def op_contains(self, eng, e):
        return self.K(e['a'][0]) in self.src(eng, e)

    def op_count(self, eng, e):
        return self.src(eng, e).count(self.K(e['a'][0]))

    def decode(self, e, raw):
        if e['op'] in ('rel', 'contains', 'bad'):
            return int(raw) if isinstance(raw, bool) else raw
        return raw

    def op_copy(self, eng, e):
        return self.src(eng, e).copy()

    def op_rt(self, eng, e):
        return roundtrip(self.src(eng, e), e['k'])

    def op_rebuild(self, eng, e):
        xs, k, pre = self.L(self.flat(eng.heap[e['s']].exp)), e['k'], e['a'][0]
        mk = (lambda l: self.make(l, pre or 8)) if self.kind == 'set' else self.make
        if k == 'list':
            return mk(xs)
        if k == 'rev':
            return mk(xs[::-1])
        x = mk([])
        if k == 'evolver' and self.kind == 'set':
            ev = x.evolver()
            for y in xs:
                ev.add(y)
            return ev.persistent()
        if k == 'addrem':
            x = x.add(self.K(self.n))
            for y in xs:
                x = x.add(y)
            if self.kind == 'bag' or self.n not in eng.heap[e['s']].exp:
                x = x.remove(self.K(self.n))
            return x
        for y in xs[::-1]:
            x = x.add(y)
        return x

    def op_near(self, eng, e):
        x, y = e['a']
        if e['k'] == 'more':
            return self.src(eng, e).add(self.K(x))
        return self.src(eng, e).remove(self.K(x)).add(self.K(y))

    def op_iter(self, eng, e):
        return [iter(self.src(eng, e)), []]

    def op_next(self, eng, e):
        it, seen = eng.its[e['s']].obj
        new = list(itertools.islice(it, e['a'][0]))
        seen.extend(new)
        return new, seen

    def check_seq(self, raw, r):
        new, seen = raw
        exp, cnt = r
        if len(new) != cnt:
            return 'yielded %d elements instead of %d (%s of %s)' % (len(new), cnt, show(new), show(exp))
        a, b = collections.Counter(self.K.ident(x) for x in seen), collections.Counter(exp)
        if a - b or len(seen) == sum(exp.values()) and a != b:
            return 'yielded %s of content %s' % (show(seen), show(exp))

    def op_drop(self, eng, e):
        ent = eng.heap[e['s']]
        ent.live, ent.obj = False, None

    def op_enew(self, eng, e):
        return self.src(eng, e).evolver()

    def ev(self, eng, e):
        return eng.evs[e['s']].obj

    def op_eadd(self, eng, e):
        ev = self.ev(eng, e)
        if ev.add(self.K(e['a'][0])) is not ev:
            raise AssertionError('add() of the evolver does not return the evolver')

    def op_eremove(self, eng, e):
        ev = self.ev(eng, e)
        if ev.remove(self.K(e['a'][0])) is not ev:
            raise AssertionError('remove() of the evolver does not return the evolver')

    def op_epersist(self, eng, e):
        return self.ev(eng, e).persistent()

    def op_edrop(self, eng, e):
        ent = eng.evs[e['s']]
        ent.live, ent.obj = False, None

    def after_err(self, eng, e, exc):
        if e['op'] == 'eremove':
            ent = eng.evs[e['s']]
            return self.check_ev(ent.obj, ent.exp, ent.obs)
