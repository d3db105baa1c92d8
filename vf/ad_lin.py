"""Persistent deques and lists."""
import itertools, random
from .engine import Adapter, HOOK, NONE, parse, roundtrip, show
from . import inputs
from .ad_vec import El, nn


def some(n):
    """All indices of a short value; of a long one those near the ends and the middle, and some between (indexing takes linear time)."""
    if n <= 160:
        return range(n)
    return sorted(set(range(4)) | set(range(n - 4, n)) | set(range(n // 2 - 3, n // 2 + 4)) | set(range(0, n, n // 16)))


class LinAdapter(Adapter):
    absent = 'index'
    def __init__(self, impl, kind, elems='int', seed=1):
        import pyrsistent
        self.kind, self.plain, self.misc = kind, elems == 'int', elems == 'misc'
        if kind == 'dq':
            self.make, self.args, self.cls = pyrsistent.pdeque, pyrsistent.dq, pyrsistent.PDeque
        else:
            from pyrsistent._plist import _PListBase
            self.make, self.args, self.cls = pyrsistent.plist, pyrsistent.l, _PListBase
        self.rng = random.Random(seed)

    def E(self, i):
        return i if self.plain else inputs.misc(i) if self.misc else El(i)

    def Es(self, xs):
        return [self.E(x) for x in xs]

    def I(self, x):
        if self.misc:
            return inputs.misc_ident(x)
        return x if self.plain else x.i if isinstance(x, El) else ('?', x)

    def expand(self, r):
        return (list(r[0]), r[1])

    def expand_seq(self, r):
        return list(r)

    def size(self, exp):
        return len(exp[0])

    def is_value(self, obj):
        return isinstance(obj, self.cls)

    def read_text(self, v, exp):
        c, m = exp[0], nn(exp[1])
        a, k = parse(v, 'pdeque' if self.kind == 'dq' else 'plist', dict(El=El, Falsy=inputs.Falsy, frozenset=frozenset))
        if len(a) != 1 or type(a[0]) is not list or [self.I(x) for x in a[0]] != c or k != ({} if m is None else {'maxlen': m}):
            return 'the representation is %s, the content %s, the bound %s' % (show(repr(v)), show(c), m)

    # -------- observation
    def check(self, v, exp):
        HOOK.muted += 1
        try:
            return self.check_(v, exp[0], nn(exp[1]))
        finally:
            HOOK.muted -= 1

    def check_(self, v, c, m):
        if not isinstance(v, self.cls):
            return 'gave %s of type %s' % (show(v), type(v))
        n = len(c)
        if len(v) != n:
            return 'length is %d instead of %d (%s instead of %s)' % (len(v), n, show(v), show(c))
        l = [self.I(x) for x in v]
        if l != c:
            return 'content is %s instead of %s' % (show(l), show(c))
        l = [self.I(x) for x in reversed(v)]
        if l != c[::-1]:
            return 'reversed content is %s instead of %s' % (show(l), show(c[::-1]))
        for i in some(n):
            if self.I(v[i]) != c[i] or self.I(v[i - n]) != c[i]:
                return '[%d] is %s instead of %s' % (i, show(v[i]), c[i])
        for i in (n, n + 1, -n - 1):
            try:
                x = v[i]
            except IndexError:
                continue
            return '[%d] is %s instead of raising IndexError' % (i, show(x))
        if bool(v) != bool(c):
            return 'truth value is wrong'
        if self.kind == 'dq':
            if v.maxlen != m:
                return 'maxlen is %r instead of %r' % (v.maxlen, m)
            if c and (self.I(v.left) != c[0] or self.I(v.right) != c[-1]):
                return 'ends are %s, %s instead of %s, %s' % (show(v.left), show(v.right), c[0], c[-1])
        else:
            if c and self.I(v.first) != c[0]:
                return 'first is %s' % show(v.first)
        return None

    def observe(self, v):
        return (len(v), tuple(self.I(x) for x in v), tuple(self.I(x) for x in reversed(v)), hash(v), v.maxlen if self.kind == 'dq' else None,
                tuple(self.I(v[i]) for i in some(len(v))))

    def operands(self, e):
        return e['a'][:1] if e['op'] in ('cmp', 'extendt') else []

    def same_content(self, a, b):
        return a[0] == b[0]

    def twins(self, eng, ent):
        c = self.Es(ent.exp[0])
        if self.kind == 'dq':
            yield 'one built from a list', self.make(c)
            x = self.make()
            for y in c:
                x = x.append(y)
            yield 'one built by append', x
            x = self.make()
            for y in c[::-1]:
                x = x.appendleft(y)
            yield 'one built by appendleft', x
        else:
            yield 'one built from a list', self.make(c)
            yield 'one built in reverse', self.make(c[::-1], reverse=True)

    # -------- operations
    def src(self, eng, e):
        return eng.heap[e['s']].obj

    def seq(self, ids, k):
        es = self.Es(ids)
        if k == 'own':
            return self.make(es), None
        return inputs.sequence(es, k)

    def spoil(self, l):
        if l is not None:
            l[:] = ['spoiled']

    def op_new(self, eng, e):
        ids, m = e['a']
        k = e['k']
        if k == 'args':
            return self.args(*self.Es(ids))
        it, l = self.seq(ids, k)
        if self.kind == 'dq':
            r = self.make(it, maxlen=nn(m)) if m != NONE else self.make(it)
        else:
            r = self.make(it, reverse=(k == 'reverse'))
        self.spoil(l)
        return r

    def op_reverse(self, eng, e):
        return self.src(eng, e).reverse() if e['k'] == 'm' else reversed(self.src(eng, e))

    def op_remove(self, eng, e):
        return self.src(eng, e).remove(self.E(e['a'][0]))

    def op_slice(self, eng, e):
        a, b, t = e['a']
        return self.src(eng, e)[nn(a):nn(b):nn(t)]

    def op_rt(self, eng, e):
        return roundtrip(self.src(eng, e), e['k'])

    def op_near(self, eng, e):
        c, m = eng.expect(e)
        return self.make(self.Es(c), maxlen=nn(m)) if self.kind == 'dq' else self.make(self.Es(c))

    def op_rebuild(self, eng, e):
        c, m = eng.expect(e)
        c = self.Es(c)
        if self.kind == 'pl':
            if e['k'] == 'grow':
                x = self.make()
                for y in c[::-1]:
                    x = x.cons(y)
                return x
            return self.make(c) if e['k'] == 'left' else self.make(c[::-1], reverse=True)
        x = self.make((), maxlen=nn(m))
        if e['k'] == 'right':
            for y in c:
                x = x.append(y)
        elif e['k'] == 'left':
            for y in c[::-1]:
                x = x.appendleft(y)
        else:
            i = self.rng.randrange(len(c) + 1)
            x = x.extend(c[i:]).extendleft(c[:i][::-1])
        return x

    def op_get(self, eng, e):
        return self.src(eng, e)[e['a'][0]]

    def op_index(self, eng, e):
        x, a, b = e['a']
        return self.src(eng, e).index(self.E(x), *[t for t in (a, b) if t != NONE])

    def op_count(self, eng, e):
        return self.src(eng, e).count(self.E(e['a'][0]))

    def op_contains(self, eng, e):
        return self.E(e['a'][0]) in self.src(eng, e)

    def op_cmp(self, eng, e):
        a, b = self.src(eng, e), eng.heap[e['a'][0]].obj
        if self.misc:
            return [a == b, a != b, None, None]
        return [a == b, a != b, a < b, a > b]

    def op_iter(self, eng, e):
        v = self.src(eng, e)
        return iter(v) if e['k'] == 'fwd' else iter(reversed(v))

    def op_next(self, eng, e):
        return list(itertools.islice(eng.its[e['s']].obj, e['a'][0]))

    def check_seq(self, raw, exp):
        l = [self.I(x) for x in raw]
        return None if l == exp else 'iterator gave %s instead of %s' % (show(l), show(exp))

    def op_drop(self, eng, e):
        ent = eng.heap[e['s']]
        ent.live, ent.obj = False, None

    def op_append(self, eng, e):
        return self.src(eng, e).append(self.E(e['a'][0]))

    def op_appendleft(self, eng, e):
        return self.src(eng, e).appendleft(self.E(e['a'][0]))

    def op_extend(self, eng, e):
        it, l = self.seq(e['a'], e['k'])
        r = self.src(eng, e).extend(it)
        self.spoil(l)
        return r

    def op_extendleft(self, eng, e):
        it, l = self.seq(e['a'], e['k'])
        r = self.src(eng, e).extendleft(it)
        self.spoil(l)
        return r

    def op_extendt(self, eng, e):
        return self.src(eng, e).extend(eng.heap[e['a'][0]].obj)

    def op_pop(self, eng, e):
        return self.src(eng, e).pop() if e['k'] == '1' else self.src(eng, e).pop(e['a'][0])

    def op_popleft(self, eng, e):
        return self.src(eng, e).popleft() if e['k'] == '1' else self.src(eng, e).popleft(e['a'][0])

    def op_rotate(self, eng, e):
        return self.src(eng, e).rotate(e['a'][0])

    def op_ends(self, eng, e):
        return getattr(self.src(eng, e), e['k'])

    def op_bad(self, eng, e):
        v, k = self.src(eng, e), e['k']
        if k == 'lt':
            return self.rng.choice([lambda: v < 5, lambda: v > [1], lambda: v < None])()
        if k == 'get':
            return v['a']
        if k == 'setitem':
            v[0] = 1
        if k == 'setattr':
            v.foo = 1
        if k == 'new':
            return self.make(5)
        if k == 'extend':
            return self.rng.choice([v.extend, v.extendleft])(5)
        if k == 'mcons':
            return v.mcons(5)
        if k == 'foreign':
            return self.rng.choice([v == 5, v == None, not (v != 'a')])
        return self.rng.choice([v == list(v), v == tuple(v), not (v != list(v))])

    def op_badbound(self, eng, e):
        return self.make([1, 2], maxlen={'neg': -1, 'type': 'a', 'float': 2.5}[e['k']])

    def op_cons(self, eng, e):
        return self.src(eng, e).cons(self.E(e['a'][0]))

    def op_mcons(self, eng, e):
        it, l = self.seq(e['a'], e['k'])
        r = self.src(eng, e).mcons(it)
        self.spoil(l)
        return r

    def op_first(self, eng, e):
        return self.src(eng, e).first

    def op_rest(self, eng, e):
        return self.src(eng, e).rest

    def op_split(self, eng, e):
        return self.src(eng, e).split(e['a'][0])[0 if e['k'] == 'l' else 1]

    def decode(self, e, raw):
        op = e['op']
        if op in ('get', 'first') or op == 'ends' and e['k'] != 'maxlen':
            return self.I(raw)
        if op == 'ends':
            return NONE if raw is None else raw
        if op in ('contains', 'bad'):
            return int(raw) if isinstance(raw, bool) else raw
        if op == 'cmp':
            r = e['r']
            want = [None if x is None else y for x, y in zip(raw, [r == 0, r != 0, r < 0, r > 0])]
            return r if raw == want and all(type(x) in (bool, type(None)) for x in raw) else raw
        return raw
