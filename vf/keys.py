"""Keys and values with chosen hashes, fresh but equal objects for every use, and observable callbacks."""
import random
from fractions import Fraction
from .engine import HOOK


class Key(object):
    __slots__ = ('i', 'h', 't', '__weakref__')

    def __init__(self, i, h, t=0):
        self.i, self.h, self.t = i, h, t

    def __eq__(self, o):
        HOOK.fire('eq')
        if not isinstance(o, Key):
            return NotImplemented
        return self.i == o.i

    def __hash__(self):
        HOOK.fire('hash')
        return self.h

    def __repr__(self):
        return 'K%d' % self.i

    def __reduce__(self):
        return type(self), (self.i, self.h, self.t)

    def __deepcopy__(self, memo):
        return type(self)(self.i, self.h, self.t)


class KeyBadNe(Key):
    """Equality is well defined, != is not; nothing in a hash table may rely on !=."""
    __slots__ = ()

    def __ne__(self, o):
        return True

    __eq__ = Key.__eq__
    __hash__ = Key.__hash__


class NativeEq(object):
    pass


NATIVE = {
    1: [1, 1.0, True, Fraction(1)], 2: [0, 0.0, False, -0.0], 3: ['a', 'a '.strip()], 4: [None], 5: [(1, 2), (1.0, 2)],
    6: [frozenset([1, 2]), frozenset([2, 1.0])], 7: [-1, -1.0], 8: [-2, -2.0], 9: [''], 10: [()], 11: [2 ** 61 - 1, float(2 ** 61)][:1],
    12: [2 ** 61 - 2], 13: ['b'], 14: [b'a'], 15: [1.5, Fraction(3, 2)], 16: [2 ** 70], 17: [1j], 18: [8, 8.0], 19: [16], 20: [24],
}

HASHES = {
    'ident': lambda i: (i * 2654435761 * 40503) % (2 ** 61 - 1),
    'const': lambda i: 7,
    'zero': lambda i: 0,
    'mod2': lambda i: i % 2,
    'mod5': lambda i: (i % 5) * 8,
    'seq': lambda i: i,
    'neg': lambda i: -2 - i * 13,
    'negc': lambda i: -1 - (i % 3),
    'big': lambda i: (i << 40) + (i % 2),
    'bigneg': lambda i: (-(i << 33)) if i % 2 else (i << 33),
    'badne': lambda i: i % 3,
}
PATTERNS = sorted(HASHES) + ['native', 'str', 'int']


NAMES = {2: '_cached_hash', 5: '_buckets', 13: 'x y'}      # names that could be taken for something else
NAMED = {n: i for i, n in NAMES.items()}


class Keys(object):
    def __init__(self, pattern, rng):
        self.p, self.rng = pattern, rng
        self.memo = {}
        self.tag = 0

    def __call__(self, i):
        """A key equal to every other key i, but a new object where that is possible."""
        p = self.p
        if p == 'int':
            return i
        if p == 'str':
            return NAMES.get(i) or ''.join(['k', str(i)])
        if p == 'native':
            if i in NATIVE:
                return self.rng.choice(NATIVE[i])
            return ('t', i)
        return (KeyBadNe if p == 'badne' else Key)(i, HASHES[p](i), self.tag)

    def ident(self, k):
        if isinstance(k, Key):
            return k.i
        p = self.p
        if p == 'int':
            return k if type(k) is int else ('?', k)
        if p == 'str':
            if k in NAMED:
                return NAMED[k]
            return int(k[1:]) if isinstance(k, str) and k[:1] == 'k' else ('?', k)
        if p == 'native':
            if not self.memo:
                for i, ks in NATIVE.items():
                    self.memo[ks[0]] = i
            if k in self.memo:
                return self.memo[k]
            return k[1] if isinstance(k, tuple) and len(k) == 2 and k[0] == 't' else ('?', k)
        return ('?', k)

    def text(self):
        return self.p == 'str'


class Val(object):
    """Values 2i and 2i+1 are equal but different objects."""
    __slots__ = ('i', '__weakref__')

    def __init__(self, i):
        self.i = i

    def __eq__(self, o):
        HOOK.fire('veq')
        if not isinstance(o, Val):
            return NotImplemented
        return self.i // 2 == o.i // 2

    def __hash__(self):
        HOOK.fire('vhash')
        return hash(('v', self.i // 2))

    def __repr__(self):
        return 'V%d' % self.i

    def __reduce__(self):
        return Val, (self.i,)

    def __deepcopy__(self, memo):
        return Val(self.i)


SPECIAL = {2: None, 4: 0, 6: '', 8: ()}


class Vals(object):
    def __init__(self):
        self.memo = dict(SPECIAL)

    def __call__(self, i):
        if i not in self.memo:
            self.memo[i] = Val(i)
        return self.memo[i]

    def ident(self, v):
        if isinstance(v, Val):
            return v.i
        for i, x in SPECIAL.items():
            if v is x or (type(v) is type(x) and v == x):
                return i
        return ('?', v)
