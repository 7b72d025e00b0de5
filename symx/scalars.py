"""Symbolic Python scalars."""
import builtins
import math
import sys
from fractions import Fraction

from . import terms as T
from .core import cur
from .terms import Unsupported, conc, is_z3, lift, norm, z, z3


def wrap(raw):
    """raw -> Python-facing value."""
    raw = norm(raw)
    if isinstance(raw, z3.BoolRef):
        return SymBool(raw)
    if isinstance(raw, z3.ArithRef):
        return SymInt(raw) if raw.is_int() else SymReal(raw)
    if type(raw) is Fraction:
        return RealConst(raw) if not _exact(raw) else float(raw)
    return raw


def _exact(fr):
    try:
        return Fraction(float(fr)) == fr
    except OverflowError:
        return False


def RealConst(fr):
    """a rational that no float represents: keep it exact."""
    return SymReal(T.z(fr))


def raw_of(x, any_ok=False):
    r = getattr(x, '_symx_raw', None)
    if r is not None:
        return r
    import torch
    if isinstance(x, torch.Tensor):
        from .tensor import payload_or_none
        p = payload_or_none(x)
        if p is not None and p.size == 1:
            return p.reshape(-1)[0]
    if any_ok:
        try:
            return lift(x)
        except T.EngineError:
            return x
    return lift(x)


class _Num:
    __slots__ = ('_symx_raw', '__weakref__')

    def __init__(self, e):
        object.__setattr__(self, '_symx_raw', e)

    # -- arithmetic
    def _b(self, o, f, swap=False):
        import torch
        if isinstance(o, torch.Tensor):
            return NotImplemented
        try:
            r = lift(o)
        except (Unsupported, T.EngineError):
            return NotImplemented
        a, b = (r, self._symx_raw) if swap else (self._symx_raw, r)
        return wrap(f(a, b))

    def __add__(self, o): return self._b(o, T.add)
    def __radd__(self, o): return self._b(o, T.add, True)
    def __sub__(self, o): return self._b(o, T.sub)
    def __rsub__(self, o): return self._b(o, T.sub, True)
    def __mul__(self, o):
        if isinstance(o, (list, tuple, str)) and not isinstance(o, _Num):
            return o * self.__index__()
        return self._b(o, T.mul)
    def __rmul__(self, o):
        if isinstance(o, (list, tuple, str)) and not isinstance(o, _Num):
            return o * self.__index__()
        return self._b(o, T.mul, True)
    def __truediv__(self, o): return self._b(o, _pydiv)
    def __rtruediv__(self, o): return self._b(o, _pydiv, True)
    def __floordiv__(self, o): return self._b(o, _pyfloordiv)
    def __rfloordiv__(self, o): return self._b(o, _pyfloordiv, True)
    def __mod__(self, o): return self._b(o, _pymod)
    def __rmod__(self, o): return self._b(o, _pymod, True)
    def __divmod__(self, o): return (self // o, self % o)
    def __rdivmod__(self, o): return (o // self, o % self)
    def __pow__(self, o): return self._b(o, T.pow_)
    def __rpow__(self, o): return self._b(o, T.pow_, True)
    def __neg__(self): return wrap(T.neg(self._symx_raw))
    def __pos__(self): return self
    def __abs__(self): return wrap(T.abs_(self._symx_raw))

    def __lt__(self, o): return self._b(o, T.lt)
    def __le__(self, o): return self._b(o, T.le)
    def __gt__(self, o): return self._b(o, T.gt)
    def __ge__(self, o): return self._b(o, T.ge)

    def __eq__(self, o):
        r = self._b(o, T.eq) if o is not None else NotImplemented
        return False if r is NotImplemented and not _is_tensor(o) else r

    def __ne__(self, o):
        r = self._b(o, T.ne) if o is not None else NotImplemented
        return True if r is NotImplemented and not _is_tensor(o) else r

    def __bool__(self):
        return cur().branch(T.truth(self._symx_raw))

    def __hash__(self):
        return hash(cur().concretise(self._symx_raw))

    def __round__(self, n=None):
        if n is None:
            return wrap(T.round_(self._symx_raw))
        if n >= 0 and isinstance(self, SymInt):
            return self
        s = 10**n if n >= 0 else Fraction(1, 10**-n)
        return wrap(T.div(T.round_(T.mul(self._symx_raw, s)), s))

    def __trunc__(self): return wrap(T.trunc_(self._symx_raw))
    def __floor__(self): return wrap(T.floor_(self._symx_raw))
    def __ceil__(self): return wrap(T.ceil_(self._symx_raw))

    def __int__(self):
        return int(cur().concretise(T.trunc_(self._symx_raw)))

    def __float__(self):
        return float(cur().concretise_any(self._symx_raw, 'float()'))

    def __repr__(self):
        r = self._symx_raw
        s = r.sexpr() if hasattr(r, 'sexpr') else str(r)
        return f'<sym {s if len(s) < 60 else s[:60]}>'

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def item(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def is_integer(self):
        return wrap(T.eq(T.floor_(self._symx_raw), self._symx_raw))

    @classmethod
    def __torch_function__(cls, func, types, args=(), kwargs=None):
        from .tensor import SymTensor, scalar_tensor
        import torch

        def conv(a):
            if isinstance(a, _Num):
                return scalar_tensor(a._symx_raw)
            if isinstance(a, (list, tuple)):
                return type(a)(conv(x) for x in a)
            return a

        def concv(a):
            if isinstance(a, _Num):
                return cur().concretise(a._symx_raw)
            if isinstance(a, (list, tuple)):
                return type(a)(concv(x) for x in a)
            return a

        from .tensor import handle_scalar_call
        return handle_scalar_call(func, args, kwargs or {}, conv, concv)


def _is_tensor(o):
    import torch
    return isinstance(o, torch.Tensor)


def _zero_guard(b):
    if conc(b):
        if b == 0:
            raise ZeroDivisionError('division by zero')
    elif cur().branch(T.eq(b, 0)):
        raise ZeroDivisionError('division by zero')


def _pydiv(a, b):
    _zero_guard(b)
    return T.div(a, b)


def _pyfloordiv(a, b):
    _zero_guard(b)
    return T.floordiv(a, b)


def _pymod(a, b):
    _zero_guard(b)
    return T.mod(a, b)


class SymInt(_Num):
    __slots__ = ()
    __hash__ = _Num.__hash__

    @property
    def __class__(self):
        return int

    def __index__(self):
        return int(cur().concretise(self._symx_raw))

    def bit_length(self):
        return self.__index__().bit_length()

    @property
    def real(self):
        return self

    def _bit(self, o, f, swap=False):
        a, b = self.__index__(), (o.__index__() if hasattr(o, '__index__')
                                  else o)
        return f(b, a) if swap else f(a, b)

    def __lshift__(self, o):
        if isinstance(o, int) and not isinstance(o, _Num):
            return self * (1 << o)
        return self._bit(o, lambda a, b: a << b)

    def __rlshift__(self, o): return self._bit(o, lambda a, b: a << b, True)
    def __rshift__(self, o):
        if isinstance(o, int) and not isinstance(o, _Num):
            return self // (1 << o)
        return self._bit(o, lambda a, b: a >> b)
    def __rrshift__(self, o): return self._bit(o, lambda a, b: a >> b, True)
    def __and__(self, o):
        from . import bits
        r = None
        if hasattr(o, '__index__'):
            r = bits.and_(self._symx_raw, lift(o))
        return wrap(r) if r is not None else self._bit(
            o, lambda a, b: a & b)

    __rand__ = __and__

    def __or__(self, o):
        from . import bits
        r = None
        if hasattr(o, '__index__'):
            r = bits.or_(self._symx_raw, lift(o), cur())
        return wrap(r) if r is not None else self._bit(
            o, lambda a, b: a | b)

    __ror__ = __or__

    def __xor__(self, o):
        from . import bits
        r = None
        if hasattr(o, '__index__'):
            r = bits.or_(self._symx_raw, lift(o), cur())
        return wrap(r) if r is not None else self._bit(
            o, lambda a, b: a ^ b)

    __rxor__ = __xor__
    def __invert__(self): return -self - 1


class SymReal(_Num):
    __slots__ = ()
    __hash__ = _Num.__hash__

    @property
    def __class__(self):
        return float


class SymBool(_Num):
    __slots__ = ()
    __hash__ = _Num.__hash__

    @property
    def __class__(self):
        return bool

    def __index__(self):
        return int(cur().branch(self._symx_raw))

    def _l(self, o, f):
        if isinstance(o, _Num) or type(o) is bool:
            return wrap(f(self._symx_raw, T.truth(lift(o))))
        return NotImplemented

    def __and__(self, o): return self._l(o, T.and_)
    __rand__ = __and__
    def __or__(self, o): return self._l(o, T.or_)
    __ror__ = __or__
    def __xor__(self, o): return self._l(o, T.xor_)
    __rxor__ = __xor__
    def __invert__(self): return wrap(T.not_(self._symx_raw))


# ------------------------------------------------------------------ builtins
def is_sym(x):
    return type(x) in (SymInt, SymReal, SymBool)


class _M(type):

    def __instancecheck__(cls, o):
        return isinstance(o, cls._real)

    def __subclasscheck__(cls, o):
        return issubclass(o, cls._real)

    def __eq__(cls, o):
        return o is cls or o is cls._real

    def __ne__(cls, o):
        return not cls == o

    def __hash__(cls):
        return hash(cls._real)


def _tensor_scalar(x):
    import torch
    if isinstance(x, torch.Tensor):
        x = x.item()
    return x


class _int(metaclass=_M):
    _real = int

    def __new__(cls, x=0, *a):
        x = _tensor_scalar(x)
        if is_sym(x):
            return wrap(T.trunc_(x._symx_raw))
        return builtins.int(x, *a)


class _float(metaclass=_M):
    _real = float

    def __new__(cls, x=0.0):
        x = _tensor_scalar(x)
        if is_sym(x):
            return wrap(T.zreal(x._symx_raw))
        return builtins.float(x)


def _minmax(name, f):
    real = getattr(builtins, name)

    def g(*a, **k):
        xs = a if len(a) > 1 else None
        if xs is None and len(a) == 1 and isinstance(a[0], (list, tuple)):
            xs = a[0]
        if (xs and not k and any(is_sym(x) for x in xs)
                and all(is_sym(x) or isinstance(x, (int, float))
                        for x in xs)):
            r = lift(xs[0])
            for x in xs[1:]:
                r = f(r, lift(x))
            return wrap(r)
        return real(*a, **k)

    g.__name__ = name
    return g


sym_max = _minmax('max', T.maximum)
sym_min = _minmax('min', T.minimum)

_MATH = {}


def _math_wrap(name, f):
    real = getattr(math, name)

    def g(*a):
        if any(is_sym(x) for x in a):
            return wrap(f(*[lift(x) for x in a]))
        return real(*a)

    g.__name__ = name
    return g


_MATHF = dict(
    floor=T.floor_, ceil=T.ceil_, trunc=T.trunc_,
    sqrt=lambda a: T.uf('sqrt', a), exp=lambda a: T.uf('exp', a),
    log=lambda a, *b: T.uf('log', a) if not b else T.div(
        T.uf('log', a), T.uf('log', b[0])),
    log2=lambda a: T.div(T.uf('log', a), T.uf('log', 2)),
    cos=lambda a: T.uf('cos', a), sin=lambda a: T.uf('sin', a),
    fabs=T.abs_, pow=T.pow_,
    isnan=lambda a: False, isinf=lambda a: False, isfinite=lambda a: True,
    isclose=lambda a, b: T.le(
        T.abs_(T.sub(a, b)),
        T.mul(Fraction(1, 10**9), T.maximum(T.abs_(a), T.abs_(b)))))


def install_builtins(session, prefixes=('mmrazor', ), minmax=False):
    """route int()/float()/math.* of the code under test through the proxies"""
    for n, f in _MATHF.items():
        session.patch(math, n, _math_wrap(n, f))
    for d in _module_dicts(prefixes):
        for n, v in (('int', _int), ('float', _float)):
            if n not in d:
                d[n] = v
                session.injected.append((d, n))
        if minmax:
            for n, v in (('max', sym_max), ('min', sym_min)):
                if n not in d:
                    d[n] = v
                    session.injected.append((d, n))


_DICTS = {}


def _module_dicts(prefixes):
    n = len(sys.modules)
    hit = _DICTS.get(prefixes)
    if hit is None or hit[0] != n:
        dots = tuple(p + '.' for p in prefixes)
        hit = n, [vars(m) for k, m in list(sys.modules.items())
                  if m is not None and (k in prefixes or k.startswith(dots))]
        _DICTS[prefixes] = hit
    return hit[1]
