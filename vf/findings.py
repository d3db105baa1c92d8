"""The failing inputs of the known findings (known-findings.txt).  findings.py NAME exits 3 if the defect shows."""
import os, sys

HERE = os.path.dirname(os.path.abspath(__file__))


def listed(pid):
    """(name, text) of the known findings of one property."""
    out = []
    with open(os.path.join(os.path.dirname(HERE), 'known-findings.txt')) as f:
        for line in f:
            w = line.strip().split(' ', 3)
            if w[0] == 'known:' and w[1] == 'property=' + pid:
                out.append((w[2], w[3]))
    return out


def item_invariant_cache():
    from pyrsistent import PClass, pvector_field, InvariantException
    class A(PClass):
        xs = pvector_field(int)
    class B(PClass):
        xs = pvector_field(int, item_invariant=lambda x: (x > 0, 'positive'))
    try:
        B(xs=[-1])
    except InvariantException:
        return False
    return True


def removed_initial_field():
    import copy
    from pyrsistent import PRecord, field
    class Rec(PRecord):
        x = field(initial=1)
    r = Rec().remove('x')
    return 'x' not in r and 'x' in copy.copy(r)


def subclass_equality():
    from pyrsistent import PClass, field
    class A(PClass):
        x = field()
    class B(A):
        z = field()
    a, b = A(x=1), B(x=1, z=2)
    return a == b and hash(a) != hash(b)


if __name__ == '__main__':
    sys.path[:0] = sys.argv[2:]
    sys.exit(3 if globals()[sys.argv[1]]() else 0)
