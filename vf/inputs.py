"""The ways to hand over a sequence of elements or the bindings of a mapping."""
import collections, collections.abc, types
from .engine import HOOK


def hooked(it):
    for x in it:
        HOOK.fire('iter')
        yield x
    HOOK.fire('iter')


class Old(object):
    """Iterable only through __getitem__ (no callback: an IndexError ends the iteration)."""
    def __init__(self, xs):
        self.xs = xs

    def __getitem__(self, i):
        return self.xs[i]


class Hint(object):
    """An iterable with a length hint that is not its length."""
    def __init__(self, xs):
        self.xs = xs

    def __iter__(self):
        return hooked(self.xs)

    def __length_hint__(self):
        return len(self.xs) * 2 // 3 + 3


class Bindings(collections.abc.Mapping):
    """A mapping that is not a dict."""
    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        return self.d[k]

    def __iter__(self):
        return hooked(self.d)

    def __len__(self):
        return len(self.d)


class Falsy(object):
    """An element that is false and has length 0."""
    __slots__ = ('i', '__weakref__')

    def __init__(self, i):
        self.i = i

    def __eq__(self, o):
        return isinstance(o, Falsy) and self.i == o.i

    def __hash__(self):
        return hash(('F', self.i))

    def __bool__(self):
        return False

    def __len__(self):
        return 0

    def __repr__(self):
        return 'Falsy(%d)' % self.i

    def __reduce__(self):
        return Falsy, (self.i,)


SPECIAL = {1: None, 2: '', 3: (), 4: 0, 5: frozenset(), 7: 'ab', 9: (1, 2), 11: 0.5}


def misc(i):
    return SPECIAL[i] if i in SPECIAL else Falsy(i) if i % 2 == 0 else i


def misc_ident(x):
    t = type(x)
    if t is Falsy:
        return x.i
    for i, y in SPECIAL.items():
        if t is type(y) and x == y:
            return i
    return x if t is int else ('?', x)


def sequence(es, k):
    """The elements es, given as k; and the list itself when the callee gets to see it."""
    if k == 'tuple':
        return tuple(es), None
    if k == 'gen':
        return hooked(es), None
    if k == 'iter':
        return iter(es), None
    if k == 'deque':
        return collections.deque(es), None
    if k == 'old':
        return Old(es), es
    if k == 'hint':
        return Hint(es), es
    return es, es


def mapping(d, k):
    if k == 'proxy':
        return types.MappingProxyType(d)
    if k == 'defdict':
        return collections.defaultdict(None, d)
    if k == 'bindings':
        return Bindings(d)
    return d
