"""Lockstep replay of one history on the C and the Python vector."""
import copy, pickle
from .engine import Engine, Violation, Diverged, Entry, HOOK, show
from .ad_vec import VecAdapter


def kind(exc):
    return type(exc).__name__


class PairEngine(Engine):
    """The two implementations against each other, whatever the specification says about the result."""

    def __init__(self, ad, cats, rng=None, elems='int', **kw):
        Engine.__init__(self, ad, cats, rng=rng, **kw)
        self.a, self.b = VecAdapter('c', elems), VecAdapter('py', elems)
        self.ad = self.a

    def run(self, beh):
        self.e1, self.e2 = Side(self.a), Side(self.b)
        self.pos = -1
        r = self.rng.random()
        try:
            for i, e in enumerate(beh):
                self.pos = i
                if e['op'] == 'skip':
                    continue
                self.steps += 1
                self.a.rng.seed(r + i)
                self.b.rng.seed(r + i)
                self.one(e)
            return None
        except Violation as v:
            v.pos = self.pos
            return v
        except Stop:
            return None       # both fail alike where the specification expects a value: not this property's business
        finally:
            self.e1 = self.e2 = None

    def bad(self, e, what, x, y):
        raise Violation('pair', '%s: %s: C gives %s, Python gives %s' % (self.where(e), what, show(x), show(y)))

    def one(self, e):
        try:
            self.one_(e)
        except (Violation, Stop):
            raise
        except Exception as ex:
            # looking at a result raised: the two have to agree on that as well
            ex.__traceback__ = None
            for i in range(1, len(self.e1.heap)):
                x, y = self.look(self.e1.heap[i].obj), self.look(self.e2.heap[i].obj)
                if x != y:
                    self.bad(e, 'value #%d' % i, x, y)
            raise Stop()

    def look(self, v):
        out = []
        for f in (len, lambda v: v.tolist(), list, repr, hash, lambda v: v[0], lambda v: v[-1], lambda v: v[len(v) - 1],
                  lambda v: v == v, lambda v: pickle.loads(pickle.dumps(v)).tolist()):
            try:
                out.append(repr(f(v)))
            except Exception as ex:
                out.append(kind(ex))
        return out

    def one_(self, e):
        self.e = e
        x, ex = self.execute2(self.a, self.e1, e)
        y, ey = self.execute2(self.b, self.e2, e)
        self.judged += 1
        if (ex is None) != (ey is None) or ex is not None and kind(ex) != kind(ey):
            self.bad(e, 'outcome', ex if ex is not None else x, ey if ey is not None else y)
        if ex is None:
            self.same(e, x, y)
        o = e['o']
        if o == 'new':
            self.e1.heap.append(Entry(x, None, self.pos))
            self.e2.heap.append(Entry(y, None, self.pos))
            if ex is not None:
                raise Stop()
        elif o == 'newev':
            self.e1.evs.append(Entry(x, None, self.pos))
            self.e2.evs.append(Entry(y, None, self.pos))
        elif o == 'newit':
            self.e1.its.append(Entry(x, None, self.pos))
            self.e2.its.append(Entry(y, None, self.pos))
        if e['op'] in self.a.evolver_ops and e['op'] not in ('enew', 'edrop'):
            self.evolvers(e, self.e1.evs[e['s']].obj, self.e2.evs[e['s']].obj)

    def execute2(self, ad, side, e):
        try:
            return ad.call(side, e), None
        except Exception as x:
            x.__traceback__ = None
            return None, x

    def same(self, e, x, y):
        if e['o'] in ('newit', 'ok') or e['o'] == 'newev':
            if e['o'] == 'newev':
                self.evolvers(e, x, y)
            return
        vx, vy = self.a.is_value(x), self.b.is_value(y)
        if vx != vy:
            self.bad(e, 'result', x, y)
        if vx:
            self.vectors(e, x, y)
        elif e['o'] == 'seq' or e['op'] in ('get', 'eget'):
            gx, gy = (self.a.Is(x), self.b.Is(y)) if e['o'] == 'seq' else (self.a.I(x), self.b.I(y))
            if gx != gy:
                self.bad(e, 'result', x, y)
        elif e['o'] == 'ev':
            pass
        elif type(x) is not type(y) or x != y:
            self.bad(e, 'result', x, y)

    def vectors(self, e, x, y):
        self.probed += 1
        if len(x) != len(y):
            self.bad(e, 'length', len(x), len(y))
        n = len(x)
        if self.a.Is(x.tolist()) != self.b.Is(y.tolist()):
            self.bad(e, 'content', x, y)
        for i in list(self.a.positions(n)) + [n, -n, -n - 1]:
            gx, gy = self.get(x, i), self.get(y, i)
            if gx != gy:
                self.bad(e, '[%d]' % i, gx, gy)
        if bool(x) != bool(y):
            self.bad(e, 'truth value', bool(x), bool(y))
        if n <= 3000:
            if hash(x) != hash(y):
                self.bad(e, 'hash', hash(x), hash(y))
            if repr(x) != repr(y) or str(x) != str(y):
                self.bad(e, 'representation', x, y)
            r = [x == y, y == x, x != y, y != x, {x: 1}.get(y), {y: 1}.get(x)]
            if r != [True, True, False, False, 1, 1]:
                self.bad(e, 'comparison with each other', r, '')
            if self.a.plain:
                r = [x < y, x <= y, x > y, x >= y]
                if r != [False, True, False, True] or r != [y < x, y <= x, y > x, y >= x]:
                    self.bad(e, 'ordering against each other', r, [y < x, y <= x, y > x, y >= x])
            for p in (0, 2, 5):
                px, py = pickle.loads(pickle.dumps(x, p)), pickle.loads(pickle.dumps(y, p))
                if type(px) is not type(py) or px != py or px != x:
                    self.bad(e, 'pickle round trip', px, py)

    def get(self, v, i):
        try:
            return self.a.I(v[i])
        except Exception as ex:
            return kind(ex)

    def evolvers(self, e, x, y):
        self.probed += 1
        if len(x) != len(y):
            self.bad(e, 'evolver length', len(x), len(y))
        if x.is_dirty() is not y.is_dirty():
            self.bad(e, 'is_dirty()', x.is_dirty(), y.is_dirty())
        n = len(x)
        for i in list(self.a.positions(n)) + [n, -n, -n - 1, -1]:
            gx, gy = self.get(x, i), self.get(y, i)
            if gx != gy:
                self.bad(e, 'evolver[%d]' % i, gx, gy)


class Stop(Exception):
    pass


class Side(object):
    def __init__(self, ad):
        self.ad = ad
        self.heap, self.evs, self.its = [None], [None], [None]
