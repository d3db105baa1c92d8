"""Typed atoms: the number 100*t+n of the specifications stands for a Python object of type t with number n."""
from .engine import HOOK


class MyInt(int):
    """A subclass of a declared type."""


class Vals(object):
    """With eq, the numbers of all types are equal when their number n is."""
    def __init__(self, eq=False):
        self.memo = {}
        self.eq = eq

    def __call__(self, a):
        if a not in self.memo:
            t, n = divmod(a, 100)
            self.memo[a] = (n if t == 1 else 's%d' % n if t == 2 else n + 0.5 * (not self.eq) if t == 3 else MyInt(n + 1000 * (not self.eq)) if t == 4 else None)
        return self.memo[a]


A = Vals()
E = Vals(True)


def equals(a):
    """A number for each class of equal objects of E."""
    return 100 + a % 100 if 100 <= a < 200 or 300 <= a < 500 else a


TYPES = {1: int, 2: str, 3: float, 4: MyInt, 5: type(None)}
NAMES = {1: 'builtins.int', 2: 'builtins.str', 3: 'builtins.float', 4: 'vf.atoms.MyInt', 5: 'types.NoneType'}


def num(x):
    """The number of an object, whatever its type."""
    t = type(x)
    if t is MyInt:
        return int(x) % 1000
    if t is int:
        return x
    if t is str:
        return int(x[1:])
    if t is float:
        return int(x // 1)
    return 0


def ident(x):
    t = type(x)
    try:
        if t is MyInt:
            return 400 + int(x) % 1000
        if t is int:
            return 100 + x
        if t is str and x[:1] == 's':
            return 200 + int(x[1:])
        if t is float:
            return 300 + int(x // 1)
        if x is None:
            return 500
    except Exception:
        pass
    return ('?', repr(x))


def spell(types, style):
    """One of the ways to write down a set of types."""
    ts = sorted(types)
    if style == 1:
        return tuple(NAMES[t] for t in ts)
    if style == 2 and len(ts) == 1:
        return TYPES[ts[0]]
    if style == 3:
        return [TYPES[t] for t in ts]
    if style == 4 and len(ts) > 1:
        return (TYPES[ts[0]], tuple(TYPES[t] for t in ts[1:]))
    return tuple(TYPES[t] for t in ts)


HOLDS = {
    'even': lambda k, v: v % 2 == 0,
    'small': lambda k, v: v < 8,
    'three': lambda k, v: v != 3,
    'ksmall': lambda k, v: k < 7,
    'kv': lambda k, v: k != v,
}


def invariant(names, style, two=False):
    """An invariant function for the given names: one result or several, codes plain or callable."""
    names = sorted(names)

    def code(n):
        return (lambda: n) if style in (2, 3) else n

    def judge(k, v):
        HOOK.fire('invariant')
        k, v = num(k), num(v)
        rs = [(HOLDS[n](k, v), code(n)) for n in names]
        if len(rs) == 1 and style != 4:
            return rs[0]
        return tuple(rs)
    if two:
        return lambda k, v: judge(k, v)
    return lambda x: judge(x, x)


def flatten(codes):
    out = []
    for c in codes:
        if callable(c):
            c = c()
        if isinstance(c, tuple):
            out.extend(flatten(c))
        else:
            out.append(c)
    return out
