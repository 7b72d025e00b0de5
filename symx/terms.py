"""Raw term algebra: Python numbers mixed with z3 expressions.

A *raw* value is one of: bool, int, Fraction, float (only +-inf / nan),
z3 BoolRef, z3 ArithRef (Int or Real).
"""
import math
import os
import sys
from fractions import Fraction

_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
try:
    import z3
except ImportError:  # only z3 is needed from there, keep it last
    if _VT not in sys.path:
        sys.path.append(_VT)
    import z3
    sys.path.remove(_VT)

z3.set_param('model.completion', True)
sys.set_int_max_str_digits(0)  # z3 hands numbers over as strings


class EngineError(BaseException):
    """The engine cannot carry on (never swallowed by ``except Exception``)."""


class Unsupported(EngineError):
    pass


class PathEnd(BaseException):
    """This path is finished (infeasible assumption or violation found)."""


def is_z3(x):
    return isinstance(x, z3.ExprRef)


def is_boolz(x):
    return isinstance(x, z3.BoolRef)


def lift(x):
    """python/np number -> raw."""
    if isinstance(x, z3.ExprRef):
        return x
    t = type(x)
    if t is bool or t is int or t is Fraction:
        return x
    if t is float:
        if math.isinf(x) or math.isnan(x):
            return x
        return Fraction(x)
    e = getattr(x, '_symx_raw', None)
    if e is not None or hasattr(x, '_symx_raw'):
        return e
    import numpy as np
    if isinstance(x, np.bool_):
        return bool(x)
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, np.floating):
        return lift(float(x))
    if isinstance(x, bool):
        return bool(x)
    if isinstance(x, int):
        return int(x)
    if isinstance(x, float):
        return lift(float(x))
    raise Unsupported(f'cannot lift {type(x)}')


def z(x):
    """raw -> z3 expression."""
    if isinstance(x, z3.ExprRef):
        return x
    if type(x) is bool:
        return z3.BoolVal(x)
    if type(x) is int:
        return z3.IntVal(x)
    if type(x) is Fraction:
        return z3.RealVal(f'{x.numerator}/{x.denominator}')
    raise Unsupported(f'no z3 term for {x!r}')


def num(x):
    """Bool -> int, everything else unchanged."""
    if type(x) is bool:
        return int(x)
    if isinstance(x, z3.BoolRef):
        return z3.If(x, z3.IntVal(1), z3.IntVal(0))
    return x


def zreal(x):
    x = num(x)
    if isinstance(x, z3.ArithRef):
        return z3.ToReal(x) if x.is_int() else x
    if type(x) is int:
        return z3.RealVal(x)
    return z(x)


def is_intlike(x):
    if isinstance(x, z3.ArithRef):
        return x.is_int()
    return type(x) in (int, bool) or isinstance(x, z3.BoolRef)


def conc(x):
    return not isinstance(x, z3.ExprRef)


def _special(x):
    return type(x) is float


def _f(x):
    """concrete raw -> python float for inf/nan arithmetic."""
    return float(x)


def norm(x):
    """Fold literals back into Python numbers."""
    if isinstance(x, z3.ExprRef):
        if z3.is_int_value(x):
            return x.as_long()
        if z3.is_rational_value(x):
            return Fraction(x.numerator_as_long(), x.denominator_as_long())
        if z3.is_true(x):
            return True
        if z3.is_false(x):
            return False
    return x


def simp(x, som=False):
    if isinstance(x, z3.ExprRef):
        return norm(z3.simplify(x, som=som, hoist_ite=False) if som
                    else z3.simplify(x))
    return x


def polynomial(x):
    """sums of monomials in one order, also inside of conditions"""
    return norm(z3.simplify(x, som=True, hoist_ite=False, arith_lhs=True,
                            sort_sums=True))


def _bin(a, b):
    a = num(a)
    b = num(b)
    za, zb = z(a), z(b)
    if za.is_int() != zb.is_int():
        if za.is_int():
            za = z3.ToReal(za) if not conc(a) else z3.RealVal(a)
        else:
            zb = z3.ToReal(zb) if not conc(b) else z3.RealVal(b)
    return za, zb


def add(a, b):
    a, b = num(a), num(b)
    if conc(a) and conc(b):
        if _special(a) or _special(b):
            return lift(_f(a) + _f(b))
        return a + b
    if _special(a):
        return a
    if _special(b):
        return b
    if conc(a) and a == 0 and (type(a) is int or not z(b).is_int()):
        return b
    if conc(b) and b == 0 and (type(b) is int or not z(a).is_int()):
        return a
    za, zb = _bin(a, b)
    return za + zb


def neg(a):
    a = num(a)
    return -a


def sub(a, b):
    a, b = num(a), num(b)
    if conc(a) and conc(b):
        if _special(a) or _special(b):
            return lift(_f(a) - _f(b))
        return a - b
    if _special(a):
        return a
    if _special(b):
        return -b
    if conc(b) and b == 0 and (type(b) is int or not z(a).is_int()):
        return a
    za, zb = _bin(a, b)
    if za.eq(zb):
        return 0 if za.is_int() else Fraction(0)
    return za - zb


def mul(a, b):
    a, b = num(a), num(b)
    if conc(a) and conc(b):
        if _special(a) or _special(b):
            return lift(_f(a) * _f(b))
        return a * b
    if _special(a) or _special(b):
        s, o = (a, b) if _special(a) else (b, a)
        if math.isnan(s):
            return s
        raise Unsupported('inf * symbolic')
    for s, o in ((a, b), (b, a)):
        if conc(s):
            if s == 0:
                return 0 if (type(s) is int and z(o).is_int()) else Fraction(0)
            if s == 1:
                if type(s) is Fraction and z(o).is_int():
                    return z3.ToReal(o)
                return o
    za, zb = _bin(a, b)
    return za * zb


def div(a, b):
    """true division -> Real."""
    a, b = num(a), num(b)
    if conc(a) and conc(b):
        if _special(a) or _special(b):
            fb = _f(b)
            if fb == 0:
                return float('nan') if math.isnan(_f(a)) else lift(
                    math.copysign(float('inf'), _f(a)))
            return lift(_f(a) / fb)
        if b == 0:
            if a == 0:
                return float('nan')
            return float('inf') if a > 0 else float('-inf')
        return Fraction(a) / Fraction(b)
    if _special(b):
        return float('nan') if math.isnan(b) else Fraction(0)
    if _special(a):
        return a
    if conc(b):
        if b == 0:
            raise Unsupported('symbolic / 0')
        return mul(a, Fraction(1) / Fraction(b))
    if conc(a) and a == 0:
        return Fraction(0)
    b = simp(b, som=True)
    if conc(b):
        return div(a, b)
    inv = z3.RealVal(1) / zreal(b)
    return mul(a, inv) if not (conc(a) and a == 1) else inv


def _cmp(a, b, op, zop):
    a, b = num(a), num(b)
    if conc(a) and conc(b):
        if _special(a) or _special(b):
            # compare exactly
            if (_special(a) and math.isnan(a)) or (_special(b)
                                                   and math.isnan(b)):
                return op(float('nan'), 0.0)
        return op(a, b)
    if _special(a) or _special(b):
        fa = a if _special(a) else 0.0
        fb = b if _special(b) else 0.0
        return op(fa, fb)
    if explog_on():
        # signs that are clear from the shape of a term
        if conc(b) and b == 0 and positive(a):
            return op(1, 0)
        if conc(a) and a == 0 and positive(b):
            return op(0, 1)
    za, zb = _bin(a, b)
    return norm(zop(za, zb))


def lt(a, b):
    return _cmp(a, b, lambda x, y: x < y, lambda x, y: x < y)


def le(a, b):
    return _cmp(a, b, lambda x, y: x <= y, lambda x, y: x <= y)


def gt(a, b):
    return lt(b, a)


def ge(a, b):
    return le(b, a)


def eq(a, b):
    if isinstance(a, z3.BoolRef) or isinstance(b, z3.BoolRef):
        if (type(a) is bool or isinstance(a, z3.BoolRef)) and (
                type(b) is bool or isinstance(b, z3.BoolRef)):
            if type(a) is bool:
                return b if a else not_(b)
            if type(b) is bool:
                return a if b else not_(a)
            if a.eq(b):
                return True
            return a == b
    if is_z3(a) and is_z3(b) and a.eq(b):
        return True
    return _cmp(a, b, lambda x, y: x == y, lambda x, y: x == y)


def ne(a, b):
    return not_(eq(a, b))


def truth(a):
    """raw number -> raw bool (a != 0)."""
    if type(a) is bool or isinstance(a, z3.BoolRef):
        return a
    if conc(a):
        return a != 0
    return norm(a != 0)


def not_(a):
    a = truth(a)
    if conc(a):
        return not a
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def and_(*xs):
    out = []
    for x in xs:
        x = truth(x)
        if conc(x):
            if not x:
                return False
        else:
            out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def or_(*xs):
    out = []
    for x in xs:
        x = truth(x)
        if conc(x):
            if x:
                return True
        else:
            out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def implies(a, b):
    return or_(not_(a), b)


def xor_(a, b):
    a, b = truth(a), truth(b)
    if conc(a):
        return not_(b) if a else b
    if conc(b):
        return not_(a) if b else a
    return z3.Xor(a, b)


def ite(c, a, b):
    c = truth(c)
    if conc(c):
        return a if c else b
    if is_z3(a) and is_z3(b) and a.eq(b):
        return a
    if conc(a) and conc(b) and type(a) is type(b) and a == b:
        return a
    if (type(a) is bool or is_boolz(a)) and (type(b) is bool or is_boolz(b)):
        return z3.If(c, z(a), z(b))
    if _special(a) or _special(b):
        # fork: infinities have no term
        from .core import cur
        return a if cur().branch(c) else b
    za, zb = _bin(a, b)
    return z3.If(c, za, zb)


def minimum(a, b):
    if conc(a) and conc(b):
        return a if le(a, b) else b
    return ite(le(a, b), a, b)


def maximum(a, b):
    if conc(a) and conc(b):
        return a if ge(a, b) else b
    return ite(ge(a, b), a, b)


def abs_(a):
    a = num(a)
    if conc(a):
        return abs(a)
    if explog_on():
        b = simp(a, som=True)
        for b in (b, simp(neg(b), som=True)):
            if conc(b):
                return abs(b)
            if positive(b):
                return b
    return z3.If(a >= 0, a, -a)


def _intof(a, top=True):
    """the integer term equal to a sum of whole multiples of integers"""
    k = a.decl().kind()
    if k == z3.Z3_OP_TO_REAL:
        return a.arg(0)
    if z3.is_rational_value(a):
        return z3.IntVal(a.numerator_as_long()) \
            if a.denominator_as_long() == 1 else None
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL):
        out = []
        for c in a.children():
            r = _intof(c, False)
            if r is None:
                break
            out.append(r)
        else:
            return z3.Sum(out) if k == z3.Z3_OP_ADD else z3.Product(out)
    if top and k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL,
                     z3.Z3_OP_DIV, z3.Z3_OP_UMINUS):
        b = simp(a, som=True)
        if is_z3(b):
            return _intof(b, False) if b.is_real() else b
        if conc(b) and b == int(b):
            return z3.IntVal(int(b))
    return None


def floor_(a):
    """-> integer raw."""
    if is_intlike(a):
        return num(a)
    if conc(a):
        return a if _special(a) else math.floor(a)
    i = _intof(a)
    if i is not None:
        return i
    return z3.ToInt(a)


def ceil_(a):
    if is_intlike(a):
        return num(a)
    if conc(a):
        return a if _special(a) else math.ceil(a)
    i = _intof(a)
    if i is not None:
        return i
    return -z3.ToInt(-a)


def trunc_(a):
    if is_intlike(a):
        return num(a)
    if conc(a):
        return a if _special(a) else math.trunc(a)
    i = _intof(a)
    if i is not None:
        return i
    return z3.If(a >= 0, z3.ToInt(a), -z3.ToInt(-a))


def round_(a):
    """half to even -> integer raw."""
    if is_intlike(a):
        return num(a)
    if conc(a):
        return a if _special(a) else round(a)
    i = _intof(a)
    if i is not None:
        return i
    f = z3.ToInt(a)
    fr = a - z3.ToReal(f)
    half = z3.RealVal('1/2')
    return z3.If(fr < half, f,
                 z3.If(fr > half, f + 1, z3.If(f % 2 == 0, f, f + 1)))


def floordiv(a, b):
    a, b = num(a), num(b)
    if conc(a) and conc(b):
        if _special(a) or _special(b):
            return lift(_f(a) // _f(b))
        if type(a) is int and type(b) is int:
            return a // b
        return Fraction(Fraction(a) // Fraction(b))
    if is_intlike(a) and is_intlike(b):
        za, zb = z(a), z(b)
        if conc(b):
            if b > 0:
                return za / zb
            return (-za) / (-zb)
        return z3.If(zb > 0, za / zb, (-za) / (-zb))
    return z3.ToReal(z3.ToInt(zreal(div(a, b))))


def mod(a, b):
    a, b = num(a), num(b)
    if conc(a) and conc(b) and not _special(a) and not _special(b):
        return a % b
    if conc(b) and type(b) is int and b > 0 and is_intlike(a):
        return z(a) % z(b)
    return sub(a, mul(b, floordiv(a, b)))


def pow_(a, b):
    a, b = num(a), num(b)
    if conc(b) and not _special(b):
        if b == int(b):
            n = int(b)
            if conc(a):
                if _special(a):
                    return lift(_f(a)**n)
                if n < 0:
                    return Fraction(a)**n if a != 0 else float('inf')
                return a**n
            if n == 0:
                return 1 if is_intlike(a) else Fraction(1)
            r = a
            for _ in range(abs(n) - 1):
                r = mul(r, a)
            return r if n > 0 else div(1, r)
        if b == Fraction(1, 2):
            return uf('sqrt', a)
        if b == Fraction(-1, 2):
            return div(1, uf('sqrt', a))
    if conc(a) and conc(b):
        return lift(float(a)**float(b))
    return uf('pow', a, b)


def addn(xs):
    """sum of many raw values."""
    c = 0
    zs = []
    special = None
    real = False
    for x in xs:
        x = num(x)
        if isinstance(x, z3.ExprRef):
            zs.append(x)
            real = real or not x.is_int()
        elif type(x) is float:
            special = x if special is None else special + x
        else:
            if type(x) is Fraction:
                real = True
            c = c + x
    if special is not None:
        return special
    if not zs:
        return Fraction(c) if real else c
    if real:
        zs = [z3.ToReal(t) if t.is_int() else t for t in zs]
    if c != 0:
        zs.append(zreal(c) if real else z(c))
    if len(zs) == 1:
        return zs[0]
    return z3.Sum(zs)


def dot(xs, ys):
    return addn([mul(a, b) for a, b in zip(xs, ys)])


# ---------------------------------------------------------------- UFs
_UF = {}
_CONC = dict(
    sqrt=lambda v: math.sqrt(v) if v >= 0 else float('nan'),
    exp=math.exp, log=lambda v: math.log(v) if v > 0 else
    (float('-inf') if v == 0 else float('nan')),
    tanh=math.tanh, erf=math.erf, sin=math.sin, cos=math.cos,
    log1p=lambda v: math.log1p(v) if v > -1 else float('-inf'))


def _uf(name, n):
    k = (name, n)
    if k not in _UF:
        _UF[k] = z3.Function('uf_' + name, *([z3.RealSort()] * (n + 1)))
    return _UF[k]


def _exact_sqrt(v):
    v = Fraction(v)
    if v >= 0:
        n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
        if n * n == v.numerator and d * d == v.denominator:
            return Fraction(n, d)
    return None


def uf(name, *args):
    """Uninterpreted function with axioms instantiated for each argument."""
    if all(conc(a) for a in args):
        if name == 'sqrt' and not _special(args[0]):
            r = _exact_sqrt(args[0])
            if r is not None:
                return r
        if name == 'pow':
            return lift(float(args[0])**float(args[1]))
        try:
            return lift(_CONC[name](float(num(args[0]))))
        except OverflowError:
            return float('inf')
    if len(args) == 1 and _special(args[0]):
        v = args[0]
        if name == 'exp':
            return Fraction(0) if v == float('-inf') else v
        return lift(_CONC[name](v))
    if name in ('exp', 'log') and explog_on():
        return _exp(args[0]) if name == 'exp' else _log(args[0])
    return _apply(name, *args)


def explog_on():
    from .core import cur
    s = cur(optional=True)
    return s is not None and s.opts.get('explog')


# exp and log in a normal form: exp(a + b) = exp(a) exp(b), log(a b) =
# log(a) + log(b) for positive a, b, log(exp(a)) = a, exp(log(a)) = a
def _addends(t):
    t = simp(zreal(simp(t, som=True)), som=True)
    if conc(t):
        return [(Fraction(t), None)]
    out = []
    for a in (t.children() if z3.is_add(t) else [t]):
        c = Fraction(1)
        if z3.is_mul(a) and z3.is_rational_value(a.arg(0)):
            c = norm(a.arg(0))
            rest = [x for x in a.children()[1:]]
            a = rest[0] if len(rest) == 1 else z3.simplify(
                z3.Product(rest))
        elif z3.is_rational_value(a):
            c, a = norm(a), None
        out.append((Fraction(c), a))
    return out


def _is_uf(t, name):
    return z3.is_app(t) and t.decl().name() == 'uf_' + name


def _exp(a):
    out = Fraction(1)
    for c, m in _addends(a):
        if m is None:
            out = mul(out, lift(math.exp(c))) if c != 0 else out
        elif _is_uf(m, 'log') and c == int(c):
            out = mul(out, pow_(m.arg(0), c))
        else:
            e = _apply('exp', mul(abs(c), m))
            out = mul(out, e) if c > 0 else div(out, e)
    return out


def positive(t):
    """positive by its shape"""
    if conc(t):
        return not _special(t) and t > 0
    if z3.is_rational_value(t) or z3.is_int_value(t):
        return norm(t) > 0
    if z3.is_const(t):
        from .core import cur
        if not cur().opts.get('signs'):
            return False
        lo, is_open = cur()._least.get(t.decl().name(), (None, False))
        return lo is not None and (lo > 0 or lo == 0 and is_open)
    if _is_uf(t, 'exp'):
        return True
    if _is_uf(t, 'sqrt'):
        return positive(t.arg(0))
    if z3.is_mul(t) or z3.is_add(t) or z3.is_div(t):
        return all(positive(c) for c in t.children())
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        c, a, b = t.children()
        return _given(c, a, True) and _given(c, b, False)
    return False


def _given(c, t, val):
    """t is positive where the comparison c has the value val"""
    if positive(t):
        return True
    if z3.is_not(c):
        return _given(c.arg(0), t, not val)
    for pred, low, high in ((z3.is_le, 0, 1), (z3.is_ge, 1, 0),
                            (z3.is_lt, 0, 1), (z3.is_gt, 1, 0)):
        if pred(c):
            if not val:
                low, high = high, low
            return c.arg(high).eq(t) and positive(c.arg(low))
    return False


def _factors(t):
    if not conc(t):
        if z3.is_mul(t):
            return [f for c in t.children() for f in _factors(c)]
        if z3.is_div(t):
            return _factors(t.arg(0)) + [(f, -k) for f, k in
                                         _factors(t.arg(1))]
    return [(norm(t), 1)]


def _log(a):
    if not positive(a):
        return _apply('log', a)
    out = Fraction(0)
    for f, k in _factors(a):
        if conc(f):
            v = lift(math.log(f)) if f != 1 else 0
        elif _is_uf(f, 'exp'):
            v = f.arg(0)
        else:
            v = _apply('log', f)
        out = add(out, mul(k, v))
    return out


def _apply(name, *args):
    if all(conc(a) for a in args):
        return uf(name, *args)
    zargs = [zreal(simp(a, som=True)) for a in args]
    t = _uf(name, len(args))(*zargs)
    from .core import cur
    s = cur(optional=True)
    if s is not None:
        s.uf_axioms(name, zargs, t)
    return t
