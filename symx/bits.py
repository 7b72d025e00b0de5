"""Bitwise operators on integers that hold symbolic fields."""
import z3

from . import terms as T
from .terms import conc

WIDTH = 36


def _num(x):
    if z3.is_int_value(x):
        return x.as_long()
    if z3.is_rational_value(x) and x.denominator_as_long() == 1:
        return x.numerator_as_long()
    return None


def _build(x, s):
    """from the structure of sums of shifted fields, None if it has none"""
    k = x.decl().kind()
    if k in (z3.Z3_OP_TO_REAL, z3.Z3_OP_TO_INT):
        return _mask(x.arg(0), s)
    if k == z3.Z3_OP_ADD:
        m = 0
        for c in x.children():
            n = _mask(c, s)
            if n is None or m & n:
                return None
            m |= n
        return m
    if k == z3.Z3_OP_MUL and x.num_args() == 2:
        for i in (0, 1):
            f = _num(x.arg(i))
            if f is not None and f > 0 and not f & (f - 1):
                n = _mask(x.arg(1 - i), s)
                return None if n is None else n * f
    return None


def _mask(x, s):
    """bits that can be set, None when x may be negative or too wide"""
    if conc(x):
        return int(x) if x >= 0 else None
    f = _num(x)
    if f is not None:
        return f if f >= 0 else None
    memo = s.__dict__.setdefault('_bitmasks', {})
    hit = memo.get(x.get_id())
    if hit is not None:
        return hit[1]
    m = _build(x, s)
    if m is None:
        v = z3.ToInt(x) if x.is_real() else x
        for w in (1, 2, 4, 8, 16, 32, WIDTH):
            if s._check(z3.Or(v < 0, v >= 2**w), branch=True) == z3.unsat:
                m = 2**w - 1
                break
        else:
            return None
        low = 0
        while w > low and s._check(v % 2**(low + 1) != 0,
                                   branch=True) == z3.unsat:
            low += 1
        m &= ~(2**low - 1)
    memo[x.get_id()] = (x, m)
    return m


def or_(a, b, s):
    """a | b as a sum when no bit can be set in both, None otherwise"""
    m, n = _mask(a, s), _mask(b, s)
    if m is None or n is None or m & n:
        return None
    return T.add(a, b)


def and_(a, b):
    """a & (2**k - 1) is a remainder, None otherwise"""
    if conc(a):
        a, b = b, a
    if conc(a) or not conc(b) or b < 0 or (int(b) + 1) & int(b):
        return None
    return T.mod(a, int(b) + 1)
