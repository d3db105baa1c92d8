"""Replays behaviours of the specifications on the real library.

A behaviour is a list of events {op, s, a, k, o, r}: operation, source object, arguments, variant, and what
the specification says must come out: outcome kind o and content r.

  new   a new value with content r is handed out            same  value number r is handed out again
  val   the plain result r                                  err   an exception of kind r
  newev a new evolver with content r[0], dirty flag r[1]    ev    evolver s now has content r[0], flag r[1]
  newit a new iterator                                      seq   the iterator yields exactly r
  ok    nothing to compare

The engine keeps the real objects beside the contents the specification gives them.  What is judged is
decided by `cats`, the categories of the property being checked:

  val      result of an operation on a value          ev       result/state of an evolver
  persist  an existing value changed                  same     identity of the result of a no-op
  eq/hash  equality, hash                             rt       pickle/copy round trip
  fault    effect of a failing callback               preempt  effect of an interleaved operation
  alive    lifetime of elements                       pair     the two implementations differ
"""
import gc, random, sys

NONE = 999999999


class Violation(Exception):
    def __init__(self, cat, msg, pos=None):
        Exception.__init__(self, cat, msg)
        self.cat, self.msg, self.pos = cat, msg, pos


class Diverged(Exception):
    """The code does not follow the specification, in a way that is not this property's business."""


class Boom(BaseException):
    """Raised by injected faults.  Not an Exception: nothing in the library may swallow it."""


class BoomE(Exception):
    """The same as an ordinary Exception subclass."""


class BoomType(TypeError):
    pass


class BoomRun(RuntimeError):
    pass


class BoomValue(ValueError):
    pass


class BoomIndex(IndexError):
    pass


class BoomKey(KeyError):
    pass


class BoomAttr(AttributeError):
    pass


class Hook(object):
    """Called by every user callback the harness hands to the library."""
    def __init__(self):
        self.count = 0
        self.at = None
        self.action = None
        self.muted = 0
        self.where = []

    def fire(self, kind):
        if self.muted or self.at is None:
            return
        self.count += 1
        if self.count == self.at:
            self.kind = kind
            self.action()

    def arm(self, n, action):
        self.count = 0
        self.at = n
        self.action = action
        self.kind = None

    def disarm(self):
        self.at = None
        self.action = None


HOOK = Hook()


def quiet(f):
    def g(*a, **k):
        HOOK.muted += 1
        try:
            return f(*a, **k)
        finally:
            HOOK.muted -= 1
    return g


class Entry(object):
    __slots__ = ('obj', 'exp', 'live', 'obs', 'hash', 'born')

    def __init__(self, obj, exp, born):
        self.obj, self.exp, self.live, self.born = obj, exp, True, born
        self.obs = self.hash = None


class Missing(object):
    """Stands for a value the code failed to produce (only in lenient runs)."""


MISSING = Missing()


def show(x, n=300):
    try:
        s = repr(x)
    except BaseException as e:
        s = '<repr failed: %r>' % (e,)
    return s if len(s) <= n else s[:n // 2] + ' ... ' + s[-n // 2:]


OPS = {}


class Adapter(object):
    """What the engine needs to know about one kind of value."""
    cyc = False
    absent = None               # how operations report absence: 'key', 'index', 'field'
    evolver_ops = frozenset()
    sticky_dirty = False
    once_ops = frozenset()      # operations whose first run leaves something behind (a cached hash)
    partial_ops = frozenset(['eextend', 'emany'])    # evolver edits that are several edits

    def begin(self, eng, beh):
        pass

    def cat(self, op):
        return 'ev' if op in self.evolver_ops else 'val'

    def expand(self, r):
        return r

    def expand_seq(self, r):
        return self.expand(r)

    def expand_val(self, e):
        return sorted(e['r']) if isinstance(e['r'], list) else e['r']

    def expand_ev(self, r):
        return self.expand(r)

    def is_value(self, obj):
        return obj is not None

    def call(self, eng, e):
        op = e['op']
        f = OPS.get((type(self), op))
        if f is None:   # (a name made on every call would stay behind in the type cache)
            f = OPS[type(self), op] = getattr(type(self), 'op_' + op)
        return f(self, eng, e)

    def check(self, obj, exp):
        raise NotImplementedError

    def observe(self, obj):
        raise NotImplementedError

    def check_ev(self, ev, exp, dirty):
        raise NotImplementedError

    def observe_ev(self, ev):
        raise NotImplementedError

    def size(self, exp):
        return len(exp)

    def sources(self, e):
        """(values, evolvers, iterators) the event uses."""
        if e['op'] in self.evolver_ops and e['o'] != 'newev':
            return [], [e['s']], []
        if e['op'] == 'next':
            return [], [], [e['s']]
        return ([e['s']] if e['s'] else []) + self.operands(e), [], []

    def operands(self, e):
        return []

    def decode(self, e, raw):
        return raw

    def partial(self, e, kind):
        """May the evolver keep something of edit e when a callback of that kind fails?"""
        return e['op'] in self.partial_ops

    def hashable(self):
        return True

    def rt_ok(self, exp):
        return True


def guarded(f, observing=False):
    """An exception out of the library while a result is looked at is a wrong result, not a broken check."""
    def g(*a, **k):
        try:
            return f(*a, **k)
        except (Violation, Diverged, KeyboardInterrupt, SystemExit, MemoryError):
            raise
        except BaseException as x:
            m = 'looking at it raised %s: %s' % (type(x).__name__, x)
            return ('unobservable', m) if observing else m
    g.guarded = True
    return g


def guard(ad):
    for name in ('check', 'check_ev', 'check_seq', 'check_rt', 'after_err', 'observe', 'observe_ev', 'decode'):
        f = getattr(ad, name)
        if not hasattr(f, 'guarded'):
            setattr(ad, name, guarded(f, name.startswith('observe') or name == 'decode'))


class Engine(object):
    def __init__(self, ad, cats, lenient=False, probes=(), rng=None, all_evs=False, budget=60000):
        guard(ad)
        self.ad, self.cats, self.lenient = ad, set(cats), lenient
        self.probes = [getattr(self, 'probe_' + p) for p in probes]
        self.probe_names = set(probes)
        self.rng = rng or random.Random(1)
        self.all_evs = all_evs
        self.budget = budget
        self.steps = self.judged = self.probed = 0

    def close(self):
        pass

    # ------------------------------------------------------------------ running
    def run(self, beh):
        self.heap, self.evs, self.its = [None], [None], [None]
        self.beh = beh
        self.pos = -1
        self.ad.begin(self, beh)
        try:
            for i, e in enumerate(beh):
                self.pos = i
                self.step(e)
            self.finish()
            return None
        except Violation as v:
            v.pos = self.pos
            return v
        except Diverged:
            return None
        finally:
            HOOK.disarm()
            self.heap = self.evs = self.its = None

    def report(self, cat, msg):
        if cat in self.cats:
            raise Violation(cat, msg)
        if not self.lenient:
            raise Diverged()

    def finish(self):
        if 'persist' in self.probe_names:
            self.persist_all(range(1, len(self.heap)))
        if hasattr(self.ad, 'finish'):
            self.ad.finish(self)

    def step(self, e):
        if e['op'] == 'skip':
            return
        self.steps += 1
        self.e = e
        if self.lenient and self.broken_sources(e):
            self.place(e, MISSING)
            return
        raw, exc = self.execute(e)
        self.judge(e, raw, exc)
        raw = exc = None
        for p in self.probes:
            p(e)

    def broken_sources(self, e):
        vs, es, its = self.ad.sources(e)
        return any(self.heap[i].obj is MISSING for i in vs) or any(self.evs[i].obj is MISSING for i in es) \
            or any(self.its[i].obj is MISSING for i in its)

    def place(self, e, obj):
        o = e['o']
        if o == 'new':
            self.heap.append(Entry(obj, None, self.pos))
        elif o == 'newev':
            self.evs.append(Entry(obj, None, self.pos))
        elif o == 'newit':
            self.its.append(Entry(obj, None, self.pos))

    def execute(self, e):
        try:
            return self.ad.call(self, e), None
        except (Violation, Diverged):
            raise
        except BaseException as x:
            if isinstance(x, (KeyboardInterrupt, SystemExit, MemoryError)):
                raise
            x.__traceback__ = None
            return None, x

    def expect(self, e):
        return self.ad.expand(e['r'])

    # ------------------------------------------------------------------ judging
    def where(self, e):
        return '%s(%s)%s on #%s' % (e['op'], ', '.join(show(x, 80) for x in e['a']) if isinstance(e['a'], list) else show(e['a'], 120),
                                   '/' + e['k'] if e['k'] else '', e['s'])

    def judge(self, e, raw, exc):
        ad, o = self.ad, e['o']
        cat = ad.cat(e['op'])
        self.judged += 1
        if o == 'err':
            if exc is None:
                self.report(cat, '%s returned %s instead of raising %s' % (self.where(e), show(raw), e['r']))
            elif not ad.exc_ok(exc, e['r']):
                self.report(cat, '%s raised %r%s instead of %s' % (self.where(e), exc, ad.exc_show(exc), e['r']))
            if e['op'] == 'epersist':
                self.evs[e['s']].exp = None
            m = ad.after_err(self, e, exc)
            if m:
                self.report(cat, '%s: %s' % (self.where(e), m))
            return
        if exc is not None:
            self.report(cat, '%s raised %s: %s' % (self.where(e), type(exc).__name__, exc))
            self.place(e, MISSING)
            return
        if o == 'new':
            exp = ad.expand(e['r'])
            if self.lenient:
                ok = ad.is_value(raw)
                self.heap.append(Entry(raw if ok else MISSING, exp, self.pos))
                m = None
                if cat in self.cats and ok:
                    m = ad.check(raw, exp)
            else:
                m = ad.check(raw, exp)
                self.heap.append(Entry(raw, exp, self.pos))
            if m:
                self.report(cat, '%s: %s' % (self.where(e), m))
            if 'same' in self.cats:
                self.new_same(e, raw)
        elif o == 'same':
            ent = self.heap[e['r']]
            if raw is not ent.obj and ent.obj is not MISSING:
                if 'same' in self.cats:
                    self.report('same', '%s did not return the original object but %s' % (self.where(e), show(raw)))
                if not self.lenient:
                    m = ad.check(raw, ent.exp)
                    if m:
                        self.report(cat, '%s: %s' % (self.where(e), m))
        elif o == 'val':
            got = ad.decode(e, raw)
            if got != ad.expand_val(e):
                self.report(cat, '%s gave %s instead of %s' % (self.where(e), show(got), show(e['r'])))
        elif o == 'newev':
            exp, dirty = ad.expand_ev(e['r'][0]), e['r'][1]
            self.evs.append(Entry(raw, exp, self.pos))
            self.evs[-1].obs = dirty
            if not self.lenient or cat in self.cats:
                m = ad.check_ev(raw, exp, dirty)
                if m:
                    self.report('ev', '%s: %s' % (self.where(e), m))
        elif o == 'ev':
            ent = self.evs[e['s']]
            ent.exp, ent.obs = ad.expand_ev(e['r'][0]), e['r'][1]
            if not self.lenient or cat in self.cats:
                m = ad.check_ev(ent.obj, ent.exp, ent.obs)
                if m:
                    self.report('ev', '%s: %s' % (self.where(e), m))
        elif o == 'newit':
            self.its.append(Entry(raw, None, self.pos))
        elif o == 'seq':
            m = ad.check_seq(raw, ad.expand_seq(e['r']))
            if m:
                self.report(cat if 'iter' not in self.cats else 'iter', '%s: %s' % (self.where(e), m))
        elif o == 'ok':
            if e['op'] in ad.evolver_ops and self.evs[e['s']].live:
                self.evs[e['s']].exp = None     # an evolver whose content is not specified any more
        else:
            raise RuntimeError('unknown outcome ' + o)
        if e['op'] == 'epersist':
            self.evs[e['s']].obs = 0 if not ad.sticky_dirty else self.evs[e['s']].obs
        if self.all_evs:
            for i in range(1, len(self.evs)):
                ent = self.evs[i]
                if ent.live and ent.obj is not MISSING and ent.obj is not None and ent.exp is not None:
                    m = ad.check_ev(ent.obj, ent.exp, ent.obs)
                    if m:
                        self.report('ev', 'after %s, evolver %d: %s' % (self.where(e), i, m))

    def new_same(self, e, raw):
        pass

    # ------------------------------------------------------------------ probes
    def live_entries(self):
        return [i for i in range(1, len(self.heap)) if self.heap[i].live and self.heap[i].obj is not MISSING]

    def probe_persist(self, e):
        """Every value handed out so far still looks exactly as when it was handed out."""
        live = self.live_entries()
        total = sum(self.ad.size(self.heap[i].exp) for i in live if self.heap[i].exp is not None)
        if total > self.budget:
            keep = set(i for i in self.ad.sources(e)[0] if i in live)
            keep.update(self.rng.sample(live, min(3, len(live))))
            keep.update(live[-2:])
            live = sorted(keep)
        self.persist_all(live)

    @quiet
    def persist_all(self, idx):
        ad = self.ad
        for i in idx:
            ent = self.heap[i]
            if not ent.live or ent.obj is MISSING:
                continue
            self.probed += 1
            obs = ad.observe(ent.obj)
            if ent.obs is None:
                ent.obs = obs
            elif obs != ent.obs:
                self.report('persist', 'after %s, value #%d (made at step %d) changed from %s to %s' % (
                    self.where(self.e), i, ent.born, show(ent.obs), show(obs)))

    @quiet
    def probe_eqhash(self, e):
        """The newest value against every other live one: equality and hash follow the content."""
        if e['o'] != 'new':
            return
        ad = self.ad
        n = len(self.heap) - 1
        a = self.heap[n]
        if a.obj is MISSING or not a.live:
            return
        others = self.live_entries()
        if len(others) > 8:
            others = sorted(set(self.rng.sample(others, 8)) | {n, n - 1} & set(others))
        for i in others:
            b = self.heap[i]
            want = ad.same_content(a.exp, b.exp)
            if want is None:
                continue
            self.pair_eq(a.obj, b.obj, want, '#%d and #%d' % (n, i))
        tw = iter(ad.twins(self, a))
        while True:
            try:
                lab, o2 = next(tw)
            except StopIteration:
                break
            except Exception as ex:
                self.report('eq', 'building a second value with the content of #%d raised %r' % (n, ex))
                break
            self.pair_eq(a.obj, o2, True, '#%d and %s' % (n, lab))
        if self.rng.random() < 0.25:
            for o2 in ad.strangers(self, a):
                self.pair_eq(a.obj, o2, False, '#%d and something of another kind' % n)

    def pair_eq(self, x, y, want, label):
        self.probed += 1
        r = []
        try:
            r = [x == y, y == x, x != y, y != x]
        except Exception as ex:
            self.report('eq', 'comparing %s: %s and %s raised %r' % (label, show(x), show(y), ex))
            return
        if not all(isinstance(t, bool) for t in r) or r != [want, want, not want, not want]:
            self.report('eq', '%s: %s and %s have %s contents, but ==, reversed ==, !=, reversed != gave %s' % (
                label, show(x), show(y), 'equal' if want else 'different', r))
        if want and self.ad.hashable():
            try:
                hx, hy = hash(x), hash(y)
                hx2 = hash(x)
            except Exception as ex:
                self.report('hash', 'hashing %s: %s and %s raised %r' % (label, show(x), show(y), ex))
                return
            if hx != hy or hx2 != hx:
                self.report('hash', '%s: %s and %s are equal but hash to %s and %s' % (label, show(x), show(y), hx, hy))
            elif {x: 1}.get(y) != 1 or len({x, y}) != 1:
                self.report('hash', '%s: %s and %s are equal but are different dict keys' % (label, show(x), show(y)))

    @quiet
    def probe_roundtrip(self, e):
        if e['o'] != 'new':
            return
        import copy, pickle
        ent = self.heap[-1]
        if ent.obj is MISSING or self.ad.size(ent.exp) > 5000 or not self.ad.rt_ok(ent.exp):
            return
        for k in self.rng.sample(['p0', 'p1', 'p2', 'p3', 'p4', 'p5', 'copy', 'deepcopy'], 3):
            self.probed += 1
            try:
                x = roundtrip(ent.obj, k)
            except Exception as ex:
                self.report('rt', '%s of %s raised %r' % (k, show(ent.obj), ex))
                continue
            m = self.ad.check_rt(ent.obj, x, ent.exp)
            if m:
                self.report('rt', '%s of %s: %s' % (k, show(ent.obj), m))


    @quiet
    def probe_repr(self, e):
        """The text of the newest value, and of some older one, shows exactly the content."""
        if e['o'] not in ('new', 'newev', 'ev', 'seq'):
            return
        live = self.live_entries()
        for i in set(live[-1:] + (self.rng.sample(live, 1) if live else [])):
            ent = self.heap[i]
            if self.ad.size(ent.exp) > 1500:
                continue
            self.probed += 1
            try:
                m = self.ad.read_text(ent.obj, ent.exp)
            except Exception as ex:
                m = 'the representation %s cannot be read: %r' % (show(ent.obj), ex)
            if m:
                self.report('repr', 'after %s, value #%d: %s' % (self.where(e), i, m))


class Names(dict):
    """The names in a representation: the constructor records its arguments, the rest is looked up in the adapter's table or made from its name."""
    def __init__(self, names, make):
        dict.__init__(self, names)
        self.make = make

    def __missing__(self, n):
        if self.make is None:
            raise KeyError(n)
        return self.make(n)


def parse(obj, name, names={}, make=None):
    """The arguments in repr(obj), which has to have the form name(arguments); str(obj) has to be the same."""
    calls = []

    def rec(*a, **k):
        calls.append((a, k))
        return calls
    text = repr(obj)
    if str(obj) != text:
        raise ValueError('str() is %s instead of %s' % (show(str(obj)), show(text)))
    r = eval(text, {'__builtins__': {}}, Names(dict(names, **{name: rec}), make))
    if r is not calls or len(calls) != 1:
        raise ValueError('not of the form %s(...): %s' % (name, show(text)))
    return calls[0]


def roundtrip(obj, k, keep=None):
    """A copy; the objects keep (by number) are not copied, so that what the copy holds is what the original holds."""
    import copy, io, pickle
    if k == 'copy':
        return copy.copy(obj)
    if k == 'deepcopy':
        return copy.deepcopy(obj, dict((id(x), x) for x in (keep or {}).values()))
    if keep is None:
        return pickle.loads(pickle.dumps(obj, int(k[1:])))
    ids = dict((id(x), n) for n, x in keep.items() if type(x) is not int and x is not None)

    class P(pickle.Pickler):
        def persistent_id(self, x):
            n = ids.get(id(x))
            return None if n is None else str(n)

    class U(pickle.Unpickler):
        def persistent_load(self, n):
            return keep[int(n)]
    f = io.BytesIO()
    P(f, int(k[1:])).dump(obj)
    return U(io.BytesIO(f.getvalue())).load()


def _exc_ok(self, exc, want):
    for c in type(exc).__mro__:
        if c.__name__ == want:
            return True
    return False


def _exc_show(self, exc):
    return ''


Adapter.exc_show = _exc_show


def _after_err(self, eng, e, exc):
    return None


def _same_content(self, a, b):
    return a == b


def _twins(self, eng, ent):
    return []


def _strangers(self, eng, ent):
    """What the value can never be equal to."""
    return [self.rng.choice([None, 5, object(), 1.5, int, len])]


def _check_rt(self, orig, x, exp):
    if type(x) is not type(orig):
        return 'type changed from %s to %s' % (type(orig), type(x))
    m = self.check(x, exp)
    if m:
        return m
    if not (x == orig) or (x != orig):
        return 'not equal to the original'
    if self.hashable() and hash(x) != hash(orig):
        return 'hash differs from the original'
    return None


def _check_seq(self, raw, exp):
    return None if raw == exp else 'iterator gave %s instead of %s' % (show(raw), show(exp))


Adapter.exc_ok = _exc_ok
Adapter.after_err = _after_err
Adapter.same_content = _same_content
Adapter.twins = _twins
Adapter.strangers = _strangers
Adapter.check_rt = _check_rt
Adapter.check_seq = _check_seq
