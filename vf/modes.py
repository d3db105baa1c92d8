"""Other ways to replay a behaviour: with failing callbacks, and with operations interleaved."""
import os, sys
from .engine import Boom, BoomE, BoomAttr, BoomIndex, BoomKey, BoomRun, BoomType, BoomValue, Diverged, Engine, HOOK, MISSING, Violation, show

NO_CALL = frozenset(['skip', 'decl', 'hash', 'drop', 'edrop', 'itdrop'])


class Perturbed(Engine):
    """A behaviour is replayed with disturbances that must not matter.  When the disturbed replay does not follow the
    specification but the undisturbed one does, the disturbance is to blame."""
    cat = None
    always = ()

    def __init__(self, ad, cats, **kw):
        Engine.__init__(self, ad, cats, **kw)
        self.extra = {}

    def count(self, k, n=1):
        self.extra[k] = self.extra.get(k, 0) + n

    def report(self, cat, msg):
        if cat in self.always:
            raise Violation(self.cat, msg)
        self.why = msg
        raise Diverged()

    def run(self, beh):
        st, ast = self.rng.getstate(), self.ad.rng.getstate()
        self.disturbed = None
        self.why = None
        v = Engine.run(self, beh)
        if v is not None or self.why is None or self.disturbed is None:
            return v
        pos, why = self.pos, self.why
        self.ad.rng.setstate(ast)
        plain = Engine(self.ad, ALL, rng=self.rng)
        if plain.run(beh) is not None:
            self.count('diverged_without_disturbance')
            return None
        self.rng.setstate(st)
        return Violation(self.cat, '%s; after %s, which works without it' % (why, self.disturbed), pos)

    def intact(self, label, skip_ev=None):
        """Every value and every other evolver is what the specification says."""
        HOOK.muted += 1
        try:
            live = self.live_entries()
            if sum(self.ad.size(self.heap[i].exp) for i in live) > 4000:
                live = live[-3:]
            for i in live:
                ent = self.heap[i]
                self.probed += 1
                m = self.ad.check(ent.obj, ent.exp)
                if m:
                    return '%s, value #%d: %s' % (label, i, m)
            for i in range(1, len(self.evs)):
                ent = self.evs[i]
                if i != skip_ev and ent.live and ent.obj is not MISSING and ent.exp is not None:
                    self.probed += 1
                    m = self.ad.check_ev(ent.obj, ent.exp, ent.obs)
                    if m:
                        return '%s, evolver %d: %s' % (label, i, m)
        finally:
            HOOK.muted -= 1


ALL = ['val', 'ev', 'persist', 'eq', 'hash', 'rt', 'iter']


class FaultEngine(Perturbed):
    """Before an operation it is tried with a callback that raises, at several of its callbacks."""
    cat = 'fault'

    def step(self, e):
        if e['op'] in NO_CALL or self.rng.random() < 0.25:
            HOOK.muted += 1
            try:
                return Engine.step(self, e)
            finally:
                HOOK.muted -= 1
        self.steps += 1
        self.e = e
        on_ev = e['op'] in self.ad.evolver_ops and e['o'] != 'newev'
        own = e['s'] if on_ev else None
        points = [1, 2, 3] + sorted(self.rng.randrange(4, 40) for _ in range(3))
        if self.rng.random() < 0.5:
            points = points[self.rng.randrange(len(points)):]
        for n in points:
            boom = self.rng.choice(self.booms(e))('injected')
            HOOK.arm(n, lambda: raise_(boom))
            raw, exc = self.execute(e)
            fired = HOOK.count >= n
            kind = HOOK.kind if fired else None
            HOOK.disarm()
            if not fired:
                break
            self.count('faults')
            self.count('faults_' + kind)
            self.disturbed = 'a failing %s callback (number %d) in %s' % (kind, n, self.where(e))
            if exc is not boom and not self.documented(kind, exc):
                self.report('fault!', '%s: the exception of the %s callback did not reach the caller: %s' % (
                    self.where(e), kind, 'got %r' % exc if exc is not None else 'returned %s' % show(raw)))
            raw = exc = None
            m = self.intact('after %s failed in a %s callback' % (self.where(e), kind), own)
            if m:
                self.report('fault!', m)
            if on_ev and self.ad.partial(e, kind):
                raise Diverged()
        else:
            HOOK.muted += 1
            try:
                raw, exc = self.execute(e)
            finally:
                HOOK.muted -= 1
        HOOK.muted += 1
        try:
            self.judge(e, raw, exc)
        finally:
            HOOK.muted -= 1

    always = ('fault!',)

    def documented(self, kind, exc):
        return False

    def booms(self, e):
        """The exceptions to try: not those by which the operation itself reports that something is absent, which may be
        taken for such a report."""
        out = [Boom, Boom, BoomE, BoomE, BoomRun, BoomType]
        if self.ad.absent == 'key':
            out.append(BoomValue)
            if e['op'] != 'transform':
                out.append(BoomIndex)
                if e['op'] not in ('get', 'eget'):
                    out.append(BoomAttr)
        elif self.ad.absent == 'index':
            out.append(BoomKey)
        elif self.ad.absent == 'field':
            out += [BoomValue, BoomIndex]
        return out


def raise_(x):
    raise x


class PreemptEngine(Perturbed):
    """While an operation runs, at some line of the library's Python code or inside some callback, other operations run."""
    cat = 'preempt'
    always = ('iter',)

    def __init__(self, ad, cats, **kw):
        Engine.__init__(self, ad, cats, **kw)
        import pyrsistent
        self.extra = {}
        self.dir = os.path.dirname(os.path.abspath(pyrsistent.__file__))
        self.cats.add('iter')

    def run(self, beh):
        self.stash = {}
        return Perturbed.run(self, beh)

    # -------- candidates
    def on_ev(self, e):
        return e['op'] in self.ad.evolver_ops and e['o'] != 'newev'

    def ready(self, e):
        vs, es, its = self.ad.sources(e)
        if e['o'] == 'same' and (e['r'] >= len(self.heap) or self.heap[e['r']].obj is None):
            return False
        return all(i < len(self.heap) and self.heap[i].obj is not None for i in vs) \
            and all(i < len(self.evs) and self.evs[i].obj is not None for i in es) and not its

    def inner(self):
        """Operations that can run now, with the index under which the specification has them."""
        out = []
        beh, pos = self.beh, self.pos
        a = beh[pos]
        used = set([a['s']] if self.on_ev(a) else [])
        for j in range(pos + 1, min(len(beh), pos + 8)):
            b = beh[j]
            if b['op'] in NO_CALL:
                continue
            if self.on_ev(b):
                if b['s'] not in used and j not in self.stash and self.ready(b) and self.rng.random() < 0.5:
                    out.append((j, b))
                used.add(b['s'])
            elif b['o'] != 'seq' and b['o'] != 'newit' and b['o'] != 'newev' and self.ready(b):
                out.append((None, b))
        for j in range(1, pos + 1):
            b = beh[j]
            if b['op'] not in NO_CALL and not self.on_ev(b) and b['o'] in ('new', 'same', 'val', 'err') and self.ready(b):
                out.append((None, b))
        self.rng.shuffle(out)
        out = out[:self.rng.choice([1, 1, 2, 3])]
        if self.rng.random() < 0.15 and not self.on_ev(a) and a['o'] in ('new', 'same', 'val', 'err'):
            out.append((None, a))
        return out

    def run_inner(self, todo):
        self.count('preemptions')
        for j, b in todo:
            raw, exc = self.execute(b)
            if j is not None:
                self.stash[j] = (raw, exc)
                self.count('preempted_evolver_operations')
            else:
                self.count('preempted_operations')
                m = self.verify(b, raw, exc)
                if m:
                    self.problems.append('%s run inside %s: %s' % (self.where(b), self.where(self.e), m))

    def verify(self, b, raw, exc):
        ad, o = self.ad, b['o']
        if o == 'err':
            if exc is None:
                return 'returned %s instead of raising %s' % (show(raw), b['r'])
            return None if ad.exc_ok(exc, b['r']) else 'raised %r instead of %s' % (exc, b['r'])
        if exc is not None:
            return 'raised %r' % (exc,)
        if o == 'new':
            return ad.check(raw, ad.expand(b['r']))
        if o == 'same':
            return ad.check(raw, self.heap[b['r']].exp)
        if o == 'val':
            got = ad.decode(b, raw)
            return None if got == ad.expand_val(b) else 'gave %s instead of %s' % (show(got), show(b['r']))

    # -------- running
    def traced(self, f, n, action, opcodes):
        """Runs f; at the n-th line (or opcode) of the library, action.  Returns the number of lines seen."""
        d = self.dir
        seen = [0]

        def local(frame, event, arg):
            if event == ('opcode' if opcodes else 'line'):
                seen[0] += 1
                if seen[0] == n:
                    sys.settrace(None)
                    action()
                    return None
            return local

        def start(frame, event, arg):
            if frame.f_code.co_filename.startswith(d):
                if opcodes:
                    frame.f_trace_opcodes = True
                return local
            return None
        sys.settrace(start)
        try:
            r = f()
        finally:
            sys.settrace(None)
        return r, seen[0]

    def step(self, e):
        if self.pos in self.stash:
            self.steps += 1
            self.e = e
            raw, exc = self.stash.pop(self.pos)
            self.judge(e, raw, exc)
            return
        todo = self.inner() if e['op'] not in NO_CALL and self.rng.random() < 0.8 else []
        once = e['op'] in self.ad.once_ops
        if once and todo and self.rng.random() < 0.7:
            todo = [(None, e)]
        if not todo:
            return Engine.step(self, e)
        self.steps += 1
        self.e = e
        self.problems = []
        at = []
        on_ev = self.on_ev(e)

        def action():
            HOOK.disarm()
            at.append(1)
            self.run_inner(todo)
        if self.rng.random() < 0.35:
            n = self.rng.choice([1, 1, 2, 2, 3, 4, 5, 8, 12])
            self.how = 'callback %d' % n
            HOOK.arm(n, action)
            raw, exc = self.execute(e)
            HOOK.disarm()
        else:
            opc = self.rng.random() < 0.3
            if on_ev or once or e['o'] == 'seq':
                n = self.rng.randrange(1, 200 if opc else 30)
            else:
                _, total = self.traced(lambda: self.execute(e), 0, None, opc)
                n = self.rng.randrange(1, total + 1) if total else 0
            self.how = '%s %d' % ('opcode' if opc else 'line', n)
            (raw, exc), _ = self.traced(lambda: self.execute(e), n, action, opc)
        if at:
            self.disturbed = 'running %s at %s of %s' % (', '.join(self.where(b) for _, b in todo), self.how, self.where(e))
            if self.problems:
                self.report('preempt', self.problems[0])
        self.judge(e, raw, exc)
        raw = exc = None
        if at:
            skip = set(self.beh[j]['s'] for j in self.stash)
            hidden = [(i, self.evs[i].exp) for i in skip]
            for i, _ in hidden:
                self.evs[i].exp = None
            m = self.intact('after %s' % self.disturbed)
            for i, x in hidden:
                self.evs[i].exp = x
            if m:
                self.report('preempt', m)
