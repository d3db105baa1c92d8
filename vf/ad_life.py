"""Lifetimes of the elements of C vectors."""
import array, gc, itertools, pickle, random, sys, weakref
from .ad_vec import VecAdapter
from .inputs import hooked
from .engine import BoomE, Diverged, Engine, HOOK, Violation, show


class Tok(object):
    __slots__ = ('n', 'link', '__weakref__')

    def __init__(self, n):
        self.n = n
        self.link = None

    def __repr__(self):
        return 'Tok(%d)' % self.n

    def __eq__(self, o):
        return isinstance(o, Tok) and o.n == self.n

    def __hash__(self):
        return self.n

    def __lt__(self, o):
        return self.n < o.n

    def __reduce__(self):
        return Tok, (self.n,)


def failing(it):
    for x in it:
        yield x
    raise BoomE('iterable')


class LifeAdapter(VecAdapter):
    evolver_ops = VecAdapter.evolver_ops | frozenset(['efail', 'esetbad'])

    def __init__(self, impl, seed=1):
        VecAdapter.__init__(self, impl, 'tok', seed)
        self.plain = False

    def begin(self, eng, beh):
        self.reg = {}

    def E(self, n):
        t = Tok(n)
        self.reg[n] = weakref.ref(t)
        return t

    def Es(self, ns):
        return [self.E(n) for n in ns]

    def I(self, x):
        return x.n if isinstance(x, Tok) else ('?', x)

    def Is(self, xs):
        return [self.I(x) for x in xs]

    def expand(self, r):
        return r

    def alive(self):
        out = set()
        for n, r in list(self.reg.items()):
            if r() is None:
                del self.reg[n]
            else:
                out.add(n)
        return out

    # -------- operations
    def op_fail(self, eng, e):
        a, m = e['a']
        it = failing(self.Es(range(a, a + m)))
        if e['k'] == 'new':
            return self.new(it)
        return self.src(eng, e) + it if e['k'] == 'plus' else self.src(eng, e).extend(it)

    op_setbad = VecAdapter.op_set

    def op_delbad(self, eng, e):
        return self.src(eng, e).delete(len(self.src(eng, e)) + 1)

    def op_removet(self, eng, e):
        return self.src(eng, e).remove(Tok(e['a'][0]))

    def op_removebad(self, eng, e):
        return self.src(eng, e).remove(Tok(e['a'][0]))

    def op_slice(self, eng, e):
        a, b = e['a']
        return self.src(eng, e)[a:b]

    def op_read(self, eng, e):
        v, k = self.src(eng, e), e['k']
        if k == 'hash':
            hash(v)
        elif k == 'repr':
            repr(v)
        elif k == 'tolist':
            v.tolist()
        elif k == 'index':
            if len(v):
                v.index(v[-1])
            try:
                v.index(Tok(-5))
            except ValueError:
                pass
        elif k == 'count':
            v.count(Tok(-5)), Tok(-5) in v
        elif k == 'cmp':
            w = self.new(v.tolist())
            v == w, v != w, v < w, v == v.tolist(), v != 5
        elif k == 'list':
            list(v)
        elif k == 'reversed':
            list(reversed(v))
        elif k == 'pickle':
            for x in pickle.loads(pickle.dumps(v, 2)):
                pass
        elif k == 'badget':
            for f in (lambda: v[len(v)], lambda: v['a'], lambda: v.set('a', Tok(-1)), lambda: v.extend(5), lambda: v.mset(0), lambda: v.append()):
                try:
                    f()
                except (IndexError, TypeError):
                    pass
        else:
            ev = v.evolver()
            for f in (lambda: ev[len(v)], lambda: ev['a'], lambda: ev.set('a', Tok(-1)), lambda: ev.extend(5), lambda: ev.delete(len(v)), lambda: ev.append()):
                try:
                    f()
                except (IndexError, TypeError):
                    pass

    def op_link(self, eng, e):
        i, u = e['a']
        self.src(eng, e)[i].link = eng.heap[u].obj

    def op_gc(self, eng, e):
        gc.collect()

    def op_esetbad(self, eng, e):
        self.ev(eng, e).set(e['a'][0], self.E(e['a'][1]))

    def op_efail(self, eng, e):
        a, m = e['a']
        try:
            self.ev(eng, e).extend(failing(self.Es(range(a, a + m))))
        except BoomE:
            pass
        else:
            raise AssertionError('the exception of the iterable was lost')
        ent = eng.evs[e['s']]
        ent.live, ent.obj = False, None

    def op_advance(self, eng, e):
        for _ in itertools.islice(eng.its[e['s']].obj, 0):
            pass
        it = eng.its[e['s']]
        if it.obj is None:
            return
        # an exhausted iterator may let go of its vector: stop before the end
        src = eng.heap[it.src]
        for _ in range(e['a'][0]):
            if it.left > 1:
                next(it.obj)
                it.left -= 1

    def op_idrop(self, eng, e):
        ent = eng.its[e['s']]
        ent.live, ent.obj = False, None


class It(object):
    def __init__(self, obj, src, left):
        self.obj, self.src, self.left, self.live, self.exp = obj, src, left, True, None


class LifeEngine(Engine):
    def __init__(self, ad, cats, repeat=0.05, **kw):
        Engine.__init__(self, ad, cats, **kw)
        self.repeat = repeat
        self.extra = {}
        gc.collect()
        gc.freeze()

    def execute(self, e):
        r = Engine.execute(self, e)
        if e['o'] == 'newit' and r[1] is None:
            self.pending = It(r[0], e['s'], len(self.heap[e['s']].exp))
            return None, None
        return r

    def judge(self, e, raw, exc):
        Engine.judge(self, e, raw, exc)
        if e['o'] == 'newit':
            self.its[-1] = self.pending
            self.pending = None

    def step(self, e):
        Engine.step(self, e)
        if e['op'] == 'skip':
            return
        must = set(e['must'])
        alive = self.ad.alive()
        self.probed += len(alive)
        if not must <= alive:
            self.report('alive', 'after %s, the elements %s are gone though still needed' % (self.where(e), show(sorted(must - alive))))
        if e['exact'] and not alive <= must.union(e['may']):
            self.report('alive', 'after %s, the elements %s are still alive though nothing needs them' % (self.where(e), show(sorted(alive - must - set(e['may'])))))

    def run(self, beh):
        gc.disable()
        st = self.ad.rng.getstate()
        v = Engine.run(self, beh)
        leaky = any(not e['exact'] or e['op'] == 'link' for e in beh)   # what is left at the end may be a cycle
        gc.collect()
        if v is not None or leaky or self.rng.random() > self.repeat:
            return v
        # the same history again and again must not use up memory
        sizes = array.array('q', [0] * 24)
        k = [0]

        def once(n):
            for _ in range(n):
                self.ad.rng.setstate(st)
                Engine.run(self, beh)
                self.ad.reg = {}
                gc.collect()
                sys._clear_type_cache()
                sizes[k[0]] = sys.getallocatedblocks()
                k[0] += 1
        once(6)
        self.extra['repetitions'] = self.extra.get('repetitions', 0) + 6
        growing = lambda: all(b > a for a, b in zip(sizes[1:k[0]], sizes[2:k[0]]))
        if growing():
            once(14)
            if growing() and 'alive' in self.cats:
                return Violation('alive', 'repeating the history uses more and more memory: blocks %s' % list(sizes[:k[0]]), len(beh) - 1)
        return None
