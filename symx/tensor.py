"""Symbolic torch tensors: an aten-level interpreter over object arrays."""
import itertools
import math
import operator
from fractions import Fraction

import numpy as np
import torch
from torch.overrides import TorchFunctionMode
from torch.utils._python_dispatch import (TorchDispatchMode,
                                          _disable_current_modes)

from . import bits
from . import terms as T
from .core import cur
from .terms import Unsupported, conc, is_z3, lift, norm, simp, z, z3

F32 = torch.float32


def obj(shape):
    return np.empty(shape, dtype=object)


def arr(x):
    """anything array-like of raws -> object ndarray."""
    if isinstance(x, np.ndarray) and x.dtype == object:
        return x
    a = obj(())
    a[()] = x
    return a


def full(shape, v):
    a = obj(tuple(shape))
    a.fill(v)
    return a


def ew(f, *ps):
    r = np.frompyfunc(f, len(ps), 1)(*ps)
    return arr(r)


def cast_raw(x, dtype):
    if dtype is torch.bool:
        return T.truth(x)
    if dtype.is_floating_point:
        x = T.num(x)
        if type(x) is int:
            return Fraction(x)
        if isinstance(x, z3.ArithRef) and x.is_int():
            return z3.ToReal(x)
        return x
    if dtype.is_complex:
        raise Unsupported('complex')
    x = T.num(x)
    if type(x) is int or (isinstance(x, z3.ArithRef) and x.is_int()):
        return x
    return T.trunc_(x)


def cast(p, dtype):
    return ew(lambda x: cast_raw(x, dtype), p) if p.size else p


class SymTensor(torch.Tensor):

    @staticmethod
    def __new__(cls, p, dtype):
        return torch.Tensor._make_wrapper_subclass(
            cls, p.shape, dtype=dtype, device='cpu', requires_grad=False)

    def __init__(self, p, dtype):
        self._p = p

    @classmethod
    def make(cls, p, dtype):
        with torch._C.DisableTorchFunction():
            return cls(arr(p), dtype)

    def __repr__(self, *a, **k):
        return f'SymTensor({list(self.shape)}, {self.dtype}, {str(self._p)[:300]})'

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    @classmethod
    def __torch_function__(cls, func, types, args=(), kwargs=None):
        return torch_function(func, types, args, kwargs or {})

    @classmethod
    def __torch_dispatch__(cls, func, types, args=(), kwargs=None):
        return dispatch(func, args, kwargs or {})


class SymParameter:
    pass


def payload_plain(t):
    with torch._C.DisableTorchFunction(), _disable_current_modes():
        a = t.detach().cpu()
        flat = a.reshape(-1).tolist()
    out = obj(len(flat))
    for i, v in enumerate(flat):
        out[i] = lift(v)
    return out.reshape(tuple(t.shape))


_PLAIN_CACHE = {}


def P(x):
    """payload of a tensor or scalar."""
    if isinstance(x, SymTensor):
        return x._p
    if isinstance(x, torch.Tensor):
        return payload_plain(x)
    return arr(lift(x))


def payload_or_none(x):
    if isinstance(x, torch.Tensor):
        return P(x)
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return x
        o = obj(x.size)
        for i, v in enumerate(x.reshape(-1).tolist()):
            o[i] = lift(v)
        return o.reshape(x.shape)
    return None


def scalar_tensor(raw):
    dt = (torch.bool if T.is_boolz(raw) or type(raw) is bool else
          torch.int64 if T.is_intlike(raw) else torch.get_default_dtype())
    return SymTensor.make(arr(raw), dt)


def handle_scalar_call(func, args, kwargs, conv, concv):
    """a torch function got a symbolic Python scalar."""
    name = getattr(func, '__name__', str(func))
    if name in SHAPE_FUNCS:
        return func(*concv(args), **{k: concv(v) for k, v in kwargs.items()})
    if name in ('full', 'full_like', 'new_full'):
        a = list(args)
        if name == 'full':
            shape = concv(a[0] if a else kwargs['size'])
            val = a[1] if len(a) > 1 else kwargs['fill_value']
            dt = kwargs.get('dtype')
        else:
            shape = a[0].shape if name == 'full_like' else concv(a[1])
            val = a[-1] if 'fill_value' not in kwargs else kwargs['fill_value']
            dt = kwargs.get('dtype') or a[0].dtype
        raw = lift(val)
        dt = dt or scalar_tensor(raw).dtype
        return SymTensor.make(full(shape, cast_raw(raw, dt)), dt)
    if name in ('__getitem__', '__setitem__', 'narrow', 'select', 'chunk'):
        a = list(args)
        a[1] = concv(a[1]) if not isinstance(a[1], torch.Tensor) else a[1]
        if name == '__setitem__':
            a[2] = conv(a[2])
        if name in ('narrow', 'select'):
            a[2:] = [concv(x) for x in a[2:]]
        return func(*a, **kwargs)
    if name in ('add', 'sub', 'mul', 'div', 'add_', 'sub_', 'mul_', 'div_') \
            and 'alpha' in kwargs:
        kwargs = dict(kwargs)
        al = conv(kwargs.pop('alpha'))
        base = func.__name__.rstrip('_')
        res = getattr(torch, base)(conv(args[0]), conv(args[1]) * al)
        return args[0].copy_(res) if func.__name__.endswith('_') else res
    if name in ('lerp', 'lerp_', 'add_', 'clamp', 'clamp_', 'fill_', 'where',
                'masked_fill', 'masked_fill_', 'clip'):
        a = [conv(x) for x in args]
        kw = {k: conv(v) for k, v in kwargs.items()}
        return func(*a, **kw)
    if name in FLOATARG_FUNCS:
        # symbolic float argument that aten takes as a plain number
        return FLOATARG_FUNCS[name](*args, **kwargs)
    a = [conv(x) for x in args]
    kw = {k: conv(v) for k, v in kwargs.items()}
    try:
        return func(*a, **kw)
    except TypeError:
        a = [concv(x) if not isinstance(x, torch.Tensor) else x for x in args]
        kw = {k: concv(v) for k, v in kwargs.items()}
        return func(*a, **kw)


SHAPE_FUNCS = {
    'zeros', 'ones', 'empty', 'rand', 'randn', 'arange', 'randint', 'view',
    'reshape', 'expand', 'repeat', 'unsqueeze', 'squeeze', 'permute',
    'transpose', 'new_zeros', 'new_ones', 'new_empty', 'randperm', 'eye',
    'linspace', 'topk', 'cat', 'stack', 'adaptive_avg_pool2d', 'pad', 'unfold',
    'interpolate', 'split', 'flatten', 'sum', 'mean', 'cumsum', 'conv2d',
    'unflatten', 'softmax', 'log_softmax', 'roll', 'flip', 'tril', 'triu',
    'kthvalue', 'argmax', 'max_pool2d', 'avg_pool2d'
}
FLOATARG_FUNCS = {}


def symbolic_scalar(raw):
    from .scalars import wrap
    return wrap(raw)


# ------------------------------------------------------------ torch function
def _is_plain(a):
    return isinstance(a, torch.Tensor) and not isinstance(a, SymTensor)


def torch_function(func, types, args, kwargs):
    name = getattr(func, '__name__', '')
    if args and isinstance(args[0], SymTensor):
        x = args[0]
        if name == 'item':
            if x._p.size != 1:
                raise ValueError('only one element tensors can be converted')
            return symbolic_scalar(x._p.reshape(-1)[0])
        if name == '__bool__':
            if x._p.size != 1:
                raise RuntimeError(
                    'Boolean value of Tensor with more than one value is '
                    'ambiguous')
            return cur().branch(T.truth(x._p.reshape(-1)[0]))
        if name in ('__int__', '__index__'):
            return int(cur().concretise(T.trunc_(x._p.reshape(-1)[0])))
        if name == '__float__':
            v = x._p.reshape(-1)[0]
            return float(v if conc(v) else cur().concretise_any(
                v, 'float(tensor)'))
        if name == 'tolist':
            return _tolist(x._p)
        if name == 'numpy':
            return SymArray.of(x)
        if name == '__format__':
            return repr(x)
        if name == '__repr__':
            return SymTensor.__repr__(x)
        if name in ('__deepcopy__', ):
            memo = args[1] if len(args) > 1 else {}
            if id(x) in memo:
                return memo[id(x)]
            y = SymTensor.make(x._p.copy(), x.dtype)
            with torch._C.DisableTorchFunction():
                if isinstance(x, torch.nn.Parameter):
                    y = torch.nn.Parameter(y, x.requires_grad)
                elif x.requires_grad:
                    y.requires_grad_(True)
            for k, v in x.__dict__.items():
                if k != '_p':
                    y.__dict__[k] = v
            memo[id(x)] = y
            return y
        if name == '__set__' and func == torch.Tensor.data.__set__:
            y = args[1]
            _set_data(x, y)
            return None
        if name == '__hash__':
            return id(x)
        if name == 'data_ptr':
            return x._p.__array_interface__['data'][0]
        if name == 'is_contiguous':
            return True
        if name == '__contains__':
            return cur().branch(T.or_(*[
                T.eq(e, lift(args[1])) for e in x._p.reshape(-1)
            ]))
        if name == '__iter__':
            return iter(x.unbind(0))
        if name == '__array__':
            return SymArray.of(x)
        if name == 'unique' or name == '_unique2':
            return _unique(x, args[1:], kwargs)
        if name == 'is_nonzero':
            return bool(x.item())
    elif name == '__deepcopy__':
        with torch._C.DisableTorchFunction(), _disable_current_modes():
            return func(*args, **kwargs)
    elif name == '__set__' and func == torch.Tensor.data.__set__ and \
            isinstance(args[1], SymTensor):
        raise Unsupported('plain.data = symbolic')
    if name in ('tensor', 'as_tensor') and func in (torch.tensor,
                                                    torch.as_tensor):
        return _make_tensor(*args, **kwargs)
    if name == 'get_default_dtype':
        return func(*args, **kwargs)
    with torch._C.DisableTorchFunction():
        return func(*args, **kwargs)


def _set_data(x, y):
    p = P(y)
    if p.shape == x._p.shape and x.dtype == y.dtype:
        x._p = p if isinstance(y, SymTensor) else p
        return
    # different shape: rebuild the wrapper's metadata in place
    n = SymTensor.make(p, y.dtype)
    with torch._C.DisableTorchFunction(), torch._C._DisableTorchDispatch() \
            if hasattr(torch._C, '_DisableTorchDispatch') else _null():
        torch._C.TensorBase.data.__set__(x, n)
    x._p = p


class _null:

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def _tolist(p):
    from .scalars import wrap
    if p.ndim == 0:
        return wrap(p[()])
    return [_tolist(q) if p.ndim > 1 else wrap(q) for q in p]


def _unique(x, args, kwargs):
    if args or any(kwargs.get(k) for k in ('return_inverse', 'return_counts',
                                           'dim')):
        if x.dtype.is_floating_point or kwargs.get('dim') is not None:
            raise Unsupported('unique')
        r = H['_unique2'](None, x)
        return tuple([r[0]] + [r[i] for i, k in (
            (1, 'return_inverse'), (2, 'return_counts')) if kwargs.get(k)])
    if not x.dtype.is_floating_point:
        return H['_unique2'](None, x)[0]
    # the sorted values, those equal to the one before left out
    vals = list(P(H['sort'](None, x.reshape(-1))[0]))
    keep = [v for i, v in enumerate(vals)
            if not i or not cur().branch(T.eq(v, vals[i - 1]))]
    o = obj(len(keep))
    for i, v in enumerate(keep):
        o[i] = v
    return mk(o, x.dtype)


def _flatten_nested(d):
    """nested python data -> object array."""
    if isinstance(d, torch.Tensor):
        return P(d), d.dtype
    if isinstance(d, np.ndarray):
        if d.dtype == object:
            vals = [lift(v) for v in d.reshape(-1)]
            o = obj(len(vals))
            for i, v in enumerate(vals):
                o[i] = v
            return o.reshape(d.shape), _dtype_of(vals)
        t = torch.from_numpy(d)
        return payload_plain(t), t.dtype
    if isinstance(d, (list, tuple)) and not hasattr(d, '_symx_raw'):
        subs = [_flatten_nested(e) for e in d]
        if not subs:
            return obj((0, )), torch.get_default_dtype()
        shp = subs[0][0].shape
        for s, _ in subs:
            if s.shape != shp:
                raise ValueError('expected sequence of equal length')
        o = obj((len(subs), ) + shp)
        for i, (s, _) in enumerate(subs):
            o[i] = s if s.ndim else s[()]
        dt = subs[0][1]
        for _, d2 in subs[1:]:
            dt = torch.promote_types(dt, d2)
        return o, dt
    raw = lift(d)
    return arr(raw), _dtype_of([raw])


def _dtype_of(vals):
    dt = None
    for r in vals:
        d = (torch.bool if T.is_boolz(r) or type(r) is bool else
             torch.int64 if T.is_intlike(r) else torch.get_default_dtype())
        dt = d if dt is None else torch.promote_types(dt, d)
    return dt or torch.get_default_dtype()


def _make_tensor(data, dtype=None, device=None, requires_grad=False,
                 pin_memory=False):
    if isinstance(data, SymTensor) and dtype in (None, data.dtype):
        return SymTensor.make(data._p.copy(), data.dtype)
    p, dt = _flatten_nested(data)
    dtype = dtype or dt
    r = SymTensor.make(cast(p.copy(), dtype), dtype)
    if requires_grad:
        with torch._C.DisableTorchFunction():
            r.requires_grad_(True)
    return r


class SymArray(np.ndarray):
    """result of .numpy(): object array sharing the payload."""

    @staticmethod
    def of(x):
        vals = x._p
        if all(conc(v) for v in vals.reshape(-1)):
            dt = {torch.bool: bool}.get(
                x.dtype,
                np.float64 if x.dtype.is_floating_point else np.int64)
            a = np.array([float(v) if dt is np.float64 else v
                          for v in vals.reshape(-1)], dtype=dt)
            return a.reshape(vals.shape)
        from .scalars import wrap
        o = obj(vals.shape)
        for i in np.ndindex(*vals.shape):
            o[i] = wrap(vals[i])
        return o.view(SymArray)

    def astype(self, dtype, *a, **k):
        if self.dtype != object or dtype is object:
            return np.asarray(self).astype(dtype, *a, **k)
        d = np.dtype(dtype)
        if d.kind == 'f' and not all(conc(lift(v)) for v in self.reshape(-1)):
            return self.copy()
        if d.kind not in 'iu':
            return np.asarray(self).astype(dtype, *a, **k)
        from .scalars import wrap
        n = 8 * d.itemsize
        lo = -2**(n - 1) if d.kind == 'i' else 0
        o = obj(self.shape)
        for i in np.ndindex(*self.shape):
            v = T.trunc_(lift(self[i]))
            if conc(v):
                v = (int(v) - lo) % 2**n + lo
            elif cur()._check(z3.Or(v < lo, v >= lo + 2**n),
                              branch=True) != z3.unsat:
                v = T.add(T.mod(T.sub(v, lo), 2**n), lo)
            o[i] = wrap(v)
        return o.view(SymArray)


# ------------------------------------------------------------ dispatch
class SymMode(TorchDispatchMode):

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        return dispatch(func, args, kwargs or {})


class SymFnMode(TorchFunctionMode):

    def __torch_function__(self, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        from .scalars import _Num
        if any(isinstance(type(a), type) and issubclass(type(a), _Num)
               for a in args) or any(
                   issubclass(type(a), _Num) for a in kwargs.values()):
            if getattr(func, '__name__', '') not in ('tensor', 'as_tensor'):
                return _Num.__torch_function__(func, types, args, kwargs)
        elif any(isinstance(a, (list, tuple)) and any(
                issubclass(type(b), _Num) for b in a) for a in args):
            if getattr(func, '__name__', '') not in ('tensor', 'as_tensor'):
                return _Num.__torch_function__(func, types, args, kwargs)
        return torch_function(func, types, args, kwargs)


H = {}


def op(*names):

    def deco(f):
        for n in names:
            H[n] = f
        return f

    return deco


OPS_USED = set()
VIEWS = {
    'view', '_unsafe_view', '_reshape_alias', 'expand', 'select', 'slice',
    'narrow', 'alias', 'detach', 'transpose', 'permute', 't', 'squeeze',
    'unsqueeze', 'unbind', 'split', 'split_with_sizes', 'as_strided',
    'diagonal', 'unfold', 'set_'
}


def dispatch(func, args, kwargs):
    name = func._schema.name.split('::')[1]
    ns = func.namespace
    if ns not in ('aten', 'prim', 'profiler'):
        return fallback(func, args, kwargs)
    OPS_USED.add(name)
    if name in VIEWS and args and _is_plain(args[0]):
        # a view of a concrete tensor keeps sharing its memory
        with _disable_current_modes():
            return func(*args, **kwargs)
    h = H.get(name)
    if h is not None:
        return h(func, *args, **kwargs)
    base = name[:-1]
    if name.endswith('_') and not name.endswith('__') and base in H:
        r = H[base](func, *args, **kwargs)
        return write(args[0], r)
    if 'out' in kwargs:
        kw = dict(kwargs)
        out = kw.pop('out')
        r = H[name](func, *args, **kw) if name in H else None
        if r is not None:
            return write(out, r)
    with_dec = _decompose(func, args, kwargs)
    if with_dec is not NotImplemented:
        return with_dec
    return fallback(func, args, kwargs)


_DEC = None


def _decompose(func, args, kwargs):
    global _DEC
    if torch._C._dispatch_has_kernel_for_dispatch_key(
            func.name(), 'CompositeImplicitAutograd'):
        with MODE():
            return func.decompose(*args, **kwargs)
    if _DEC is None:
        from torch._decomp import decomposition_table
        _DEC = decomposition_table
    if func in _DEC:
        with MODE():
            return _DEC[func](*args, **kwargs)
    return NotImplemented


def MODE():
    return SymMode()


def fallback(func, args, kwargs):
    """no rule: run the real operator on concrete values, exactly when all
    inputs are concrete, otherwise on one model (narrowing, recorded)."""
    from torch.utils._pytree import tree_map
    sym = []

    def down(x):
        if isinstance(x, SymTensor):
            p = x._p
            vals = []
            for v in p.reshape(-1):
                if not conc(v):
                    sym.append(1)
                    v = cur().concretise_any(v, f'operator {func}')
                vals.append(float(v) if x.dtype.is_floating_point else v)
            return torch.tensor(vals, dtype=x.dtype).reshape(p.shape)
        return x

    with torch._C.DisableTorchFunction():
        a2, k2 = tree_map(down, args), tree_map(down, kwargs)
        r = func(*a2, **k2)
    mut = func._schema.is_mutable
    if mut:
        for o, n in zip(args, a2):
            if isinstance(o, SymTensor):
                o._p[...] = payload_plain(n)
    if sym:
        cur().stats.notes.add(f'operator without symbolic rule: {func}')

    def up(x):
        if isinstance(x, torch.Tensor) and not isinstance(x, SymTensor):
            return SymTensor.make(payload_plain(x), x.dtype)
        return x

    if mut and args and isinstance(args[0], SymTensor) and isinstance(
            r, torch.Tensor):
        return args[0]
    return tree_map(up, r)


def write(dst, src):
    if isinstance(dst, (tuple, list)):
        return type(dst)(write(d, s) for d, s in zip(dst, src))
    p = cast(P(src), dst.dtype)
    if not isinstance(dst, SymTensor):
        # a concrete tensor is mutated: only concrete values fit
        if all(conc(v) for v in p.reshape(-1)):
            vals = torch.tensor([float(v) if dst.dtype.is_floating_point else v
                                 for v in p.reshape(-1)],
                                dtype=dst.dtype).reshape(p.shape)
            dst.copy_(vals)
            return dst
        raise Unsupported('in-place symbolic write into a plain tensor')
    if p is dst._p:
        return dst
    if p.shape != dst._p.shape:
        if p.size == 0 or dst._p.size == 0 or 'resize' == '':
            dst._p = p
            return dst
        p = np.broadcast_to(p, dst._p.shape)
    dst._p[...] = p.copy() if np.shares_memory(p, dst._p) else p
    return dst


def mk(p, dtype):
    return SymTensor.make(p, dtype)


def rt(*xs):
    """result dtype."""
    dt = None
    ts = [x for x in xs if isinstance(x, torch.Tensor)]
    sc = [x for x in xs if not isinstance(x, torch.Tensor)]
    cat = lambda d: 0 if d is torch.bool else (2 if d.is_floating_point else 1)
    best = {0: None, 1: None}  # 0: dim>0, 1: 0-dim
    for t in ts:
        k = 0 if t.dim() > 0 else 1
        best[k] = t.dtype if best[k] is None else torch.promote_types(
            best[k], t.dtype)
    d = best[0]
    if best[1] is not None:
        if d is None:
            d = best[1]
        elif cat(best[1]) > cat(d):
            d = best[1]
    for s in sc:
        r = lift(s)
        c = 0 if (type(r) is bool or T.is_boolz(r)) else (
            1 if T.is_intlike(r) else 2)
        if d is None or c > cat(d):
            d = [torch.bool, torch.int64, torch.get_default_dtype()][c]
    return d


def fl(dt):
    return dt if dt.is_floating_point else torch.get_default_dtype()


def _binop(f, floatify=False):

    def h(func, a, b, *rest, **kw):
        alpha = kw.get('alpha', rest[0] if rest and not isinstance(
            rest[0], str) else 1)
        pb = P(b)
        if alpha != 1:
            pb = ew(lambda x: T.mul(x, lift(alpha)), pb)
        dt = rt(a, b)
        if floatify:
            dt = fl(dt)
        return mk(cast(ew(f, P(a), pb), dt), dt)

    return h


H['add'] = _binop(T.add)
H['sub'] = _binop(T.sub)
H['rsub'] = lambda func, a, b, alpha=1: H['sub'](
    func, b if isinstance(b, torch.Tensor) else mk(arr(lift(b)), rt(a, b)), a,
    alpha=alpha)
H['mul'] = _binop(T.mul)
H['multiply'] = H['mul']
H['maximum'] = _binop(T.maximum)
H['minimum'] = _binop(T.minimum)
H['fmod'] = _binop(lambda a, b: T.sub(a, T.mul(b, T.trunc_(T.div(a, b)))))
H['remainder'] = _binop(T.mod)
H['atan2'] = _binop(lambda a, b: T.uf('atan2', a, b), True)
H['floor_divide'] = _binop(T.floordiv)


@op('div', 'divide')
def _div(func, a, b, rounding_mode=None):
    if rounding_mode == 'floor':
        return H['floor_divide'](func, a, b)
    dt = rt(a, b)
    if rounding_mode == 'trunc':
        return mk(cast(ew(lambda x, y: T.trunc_(T.div(x, y)), P(a), P(b)), dt),
                  dt)
    dt = fl(dt)
    return mk(cast(ew(T.div, P(a), P(b)), dt), dt)


@op('reciprocal')
def _recip(func, a):
    return mk(ew(lambda x: T.div(1, x), P(a)), fl(a.dtype))


@op('pow')
def _pow(func, a, b):
    dt = rt(a, b)
    return mk(cast(ew(T.pow_, P(a), P(b)), dt), dt)


@op('addcmul')
def _addcmul(func, a, b, c, value=1):
    dt = rt(a, b, c)
    return mk(cast(ew(lambda x, y, w: T.add(x, T.mul(lift(value), T.mul(y, w))),
                      P(a), P(b), P(c)), dt), dt)


@op('addcdiv')
def _addcdiv(func, a, b, c, value=1):
    return mk(ew(lambda x, y, w: T.add(x, T.mul(lift(value), T.div(y, w))),
                 P(a), P(b), P(c)), fl(rt(a, b, c)))


@op('lerp')
def _lerp(func, a, b, w):
    return mk(ew(lambda x, y, t: T.add(x, T.mul(t, T.sub(y, x))), P(a), P(b),
                 P(w)), rt(a, b))


def _cmpop(f):

    def h(func, a, b):
        return mk(ew(f, P(a), P(b)), torch.bool)

    return h


for _n, _f in dict(eq=T.eq, ne=T.ne, lt=T.lt, le=T.le, gt=T.gt, ge=T.ge,
                   logical_and=T.and_, logical_or=T.or_,
                   logical_xor=T.xor_).items():
    H[_n] = _cmpop(_f)


def _bitop(fb, fi):

    def f(a, b):
        if (type(a) is bool or T.is_boolz(a)) and (type(b) is bool
                                                   or T.is_boolz(b)):
            return fb(a, b)
        a, b = T.num(a), T.num(b)
        if not (conc(a) and conc(b)):
            r = bits.and_(a, b) if fi is operator.and_ else \
                bits.or_(a, b, cur())
            if r is not None:
                return r
        a = cur().concretise(a)
        b = cur().concretise(b)
        return fi(a, b)

    def h(func, a, b):
        dt = rt(a, b)
        return mk(cast(ew(f, P(a), P(b)), dt), dt)

    return h


def _shl(a, b):
    if conc(b):
        return T.mul(a, 1 << b)
    return cur().concretise(a) << cur().concretise(b)


def _shr(a, b):
    if conc(b):
        return T.floordiv(a, 1 << b)
    return cur().concretise(a) >> cur().concretise(b)


for _n in ('bitwise_and', '__and__'):
    H[_n] = _bitop(T.and_, operator.and_)
for _n in ('bitwise_or', '__or__'):
    H[_n] = _bitop(T.or_, operator.or_)
for _n in ('bitwise_xor', '__xor__'):
    H[_n] = _bitop(T.xor_, operator.xor)
for _n in ('bitwise_left_shift', '__lshift__'):
    H[_n] = _binop(_shl)
for _n in ('bitwise_right_shift', '__rshift__'):
    H[_n] = _binop(_shr)
for _n in ('__ior__', '__iand__', '__ixor__', '__ilshift__', '__irshift__'):
    H[_n] = (lambda b: lambda func, a, o: write(a, H[b](func, a, o)))(
        '__' + _n[3:])


def _unop(f, dt=None, floatify=False):

    def h(func, a, **kw):
        d = dt or (fl(a.dtype) if floatify else a.dtype)
        return mk(cast(ew(f, P(a)), d), d)

    return h


def canon(x):
    return simp(x, som=True) if is_z3(x) else x


def relu_raw(x):
    x = canon(x)
    return T.maximum(x, 0) if conc(x) else z3.If(x > 0, x, z3.RealVal(0)
                                                 if not x.is_int() else
                                                 z3.IntVal(0))


def sign_raw(x):
    if conc(x):
        return (x > 0) - (x < 0)
    return z3.If(x > 0, 1, z3.If(x < 0, -1, 0))


def sigmoid_raw(x):
    return T.div(1, T.add(1, T.uf('exp', T.neg(x))))


H['neg'] = _unop(T.neg)
H['abs'] = _unop(T.abs_)
H['relu'] = _unop(relu_raw)
H['sign'] = H['sgn'] = _unop(sign_raw)
H['floor'] = _unop(T.floor_)
H['ceil'] = _unop(T.ceil_)
H['trunc'] = _unop(T.trunc_)
H['exp'] = _unop(lambda x: T.uf('exp', x), floatify=True)
H['log'] = _unop(lambda x: T.uf('log', x), floatify=True)
H['log2'] = _unop(lambda x: T.div(T.uf('log', x), T.uf('log', 2)),
                  floatify=True)
H['log1p'] = _unop(lambda x: T.uf('log', T.add(x, 1)), floatify=True)
H['expm1'] = _unop(lambda x: T.sub(T.uf('exp', x), 1), floatify=True)
H['sqrt'] = _unop(lambda x: T.uf('sqrt', x), floatify=True)
H['rsqrt'] = _unop(lambda x: T.div(1, T.uf('sqrt', x)), floatify=True)
H['tanh'] = _unop(lambda x: T.uf('tanh', x), floatify=True)
H['erf'] = _unop(lambda x: T.uf('erf', x), floatify=True)
H['sin'] = _unop(lambda x: T.uf('sin', x), floatify=True)
H['cos'] = _unop(lambda x: T.uf('cos', x), floatify=True)
H['sigmoid'] = _unop(sigmoid_raw, floatify=True)
H['silu'] = _unop(lambda x: T.mul(x, sigmoid_raw(x)))
H['log_sigmoid_forward'] = lambda func, a: (H['log'](
    func, H['sigmoid'](func, a)), a)
H['logical_not'] = _unop(T.not_, torch.bool)
H['isnan'] = _unop(lambda x: type(x) is float and math.isnan(x), torch.bool)
H['isinf'] = _unop(lambda x: type(x) is float and math.isinf(x), torch.bool)
H['isfinite'] = _unop(lambda x: type(x) is not float, torch.bool)
H['square'] = _unop(lambda x: T.mul(x, x))


@op('round')
def _round(func, a, decimals=0):
    s = 10**decimals
    return mk(cast(ew(lambda x: T.div(T.round_(T.mul(x, s)), s)
                      if decimals else T.round_(x), P(a)), a.dtype), a.dtype)


@op('bitwise_not')
def _bnot(func, a):
    if a.dtype is torch.bool:
        return H['logical_not'](func, a)
    return mk(ew(lambda x: T.sub(-1, x), P(a)), a.dtype)


@op('gelu')
def _gelu(func, a, approximate='none'):
    return mk(ew(lambda x: T.mul(T.mul(x, Fraction(1, 2)), T.add(
        1, T.uf('erf', T.mul(x, lift(math.sqrt(0.5)))))), P(a)), a.dtype)


@op('leaky_relu')
def _lrelu(func, a, slope=0.01):
    return mk(ew(lambda x: T.ite(T.gt(x, 0), x, T.mul(x, lift(slope))), P(a)),
              a.dtype)


@op('elu')
def _elu(func, a, alpha=1, scale=1, input_scale=1):
    return mk(ew(lambda x: T.ite(T.gt(x, 0), x, T.mul(lift(alpha), T.sub(
        T.uf('exp', x), 1))), P(a)), a.dtype)


@op('softplus')
def _softplus(func, a, beta=1, threshold=20):
    return mk(ew(lambda x: T.uf('log', T.add(1, T.uf('exp', x))), P(a)),
              a.dtype)


@op('clamp', 'clip', 'clamp_min', 'clamp_max', 'hardtanh')
def _clamp(func, a, *r, **k):
    name = func._schema.name.split('::')[1].rstrip('_')
    lo = hi = None
    if name == 'clamp_min':
        lo = r[0] if r else k.get('min')
    elif name == 'clamp_max':
        hi = r[0] if r else k.get('max')
    elif name == 'hardtanh':
        lo, hi = (list(r) + [-1, 1][len(r):])[:2]
    else:
        lo = r[0] if len(r) > 0 else k.get('min')
        hi = r[1] if len(r) > 1 else k.get('max')
    p = P(a)
    dt = a.dtype
    for v in (lo, hi):
        if v is not None:
            dt = rt(mk(p, dt), v)
    if lo is not None:
        p = ew(lambda x, y: T.maximum(canon(x), y), p, P(lo))
    if hi is not None:
        p = ew(lambda x, y: T.minimum(x, y), p, P(hi))
    return mk(cast(p, dt), dt)


@op('where')
def _where(func, c, a=None, b=None):
    if a is None:
        return H['nonzero_numpy'](func, c)
    dt = rt(a, b)
    return mk(cast(ew(T.ite, P(c), P(a), P(b)), dt), dt)


@op('masked_fill')
def _mfill(func, a, m, v):
    return mk(cast(ew(T.ite, P(m), P(v), P(a)), a.dtype), a.dtype)


@op('masked_scatter')
def _mscatter(func, a, m, src):
    mask = _concrete_mask(np.broadcast_to(P(m), P(a).shape))
    out = P(a).copy()
    out[mask] = P(src).reshape(-1)[:int(mask.sum())]
    return mk(out, a.dtype)


# ---- creation
@op('zeros', 'new_zeros', 'zeros_like')
def _zeros(func, *a, **k):
    return _fill(func, a, k, 0)


@op('ones', 'new_ones', 'ones_like')
def _ones(func, *a, **k):
    return _fill(func, a, k, 1)


@op('empty', 'new_empty', 'empty_like', 'empty_strided', 'new_empty_strided')
def _empty(func, *a, **k):
    return _fill(func, a, k, 0)


def _fill(func, a, k, v):
    if isinstance(a[0], torch.Tensor):
        name = func._schema.name
        shape = a[0].shape if name.endswith('_like') else a[1]
        dt = k.get('dtype') or a[0].dtype
    else:
        shape = a[0]
        dt = k.get('dtype') or torch.get_default_dtype()
    return mk(full(shape, cast_raw(v, dt)), dt)


@op('full', 'full_like', 'new_full')
def _full(func, a, *r, **k):
    if isinstance(a, torch.Tensor):
        dt = k.get('dtype') or a.dtype
        shape = a.shape if len(r) == 1 else r[0]
        v = r[-1]
    else:
        shape, v = a, r[0]
        dt = k.get('dtype') or rt(v)
    return mk(full(shape, cast_raw(lift(v), dt)), dt)


@op('scalar_tensor')
def _scalar_tensor(func, v, dtype=None, **k):
    dt = dtype or torch.get_default_dtype()
    return mk(arr(cast_raw(lift(v), dt)), dt)


@op('arange')
def _arange(func, *a, dtype=None, **k):
    a = [lift(x) for x in a]
    if len(a) == 1:
        s, e, st = 0, a[0], 1
    else:
        s, e = a[0], a[1]
        st = a[2] if len(a) > 2 else 1
    dt = dtype or (torch.int64 if all(T.is_intlike(x) for x in (s, e, st)) else
                   torch.get_default_dtype())
    n = max(0, math.ceil(Fraction(e - s) / Fraction(st)))
    o = obj(n)
    for i in range(n):
        o[i] = cast_raw(s + i * st, dt)
    return mk(o, dt)


@op('linspace')
def _linspace(func, s, e, steps, dtype=None, **k):
    o = obj(steps)
    for i in range(steps):
        o[i] = Fraction(lift(s)) + (Fraction(lift(e)) - Fraction(
            lift(s))) * Fraction(i, max(steps - 1, 1))
    dt = dtype or torch.get_default_dtype()
    return mk(o, dt)


@op('eye')
def _eye(func, n, m=None, dtype=None, **k):
    m = n if not isinstance(m, int) else m
    dt = dtype or torch.get_default_dtype()
    o = full((n, m), cast_raw(0, dt))
    for i in range(min(n, m)):
        o[i, i] = cast_raw(1, dt)
    return mk(o, dt)


def _rand_payload(shape, kind, lo=None, hi=None, lo_open=False, hi_open=False):
    s = cur()
    n = 1
    for d in shape:
        n *= d
    o = obj(n)
    base = s.fresh_name(kind)
    for i in range(n):
        nm = f'{base}[{i}]'
        if s.opts.get('rand_zero'):
            o[i] = Fraction(0)
        elif kind == 'randint':
            o[i] = s.raw_int(nm, lo, hi)
        else:
            o[i] = s.raw_real(nm, lo, hi, lo_open, hi_open)
    return o.reshape(tuple(shape))


@op('rand', 'rand_like')
def _rand(func, a, *r, dtype=None, **k):
    shape = a.shape if isinstance(a, torch.Tensor) else a
    dt = dtype or (a.dtype if isinstance(a, torch.Tensor) else
                   torch.get_default_dtype())
    return mk(_rand_payload(shape, 'rand', 0, 1, hi_open=True), dt)


@op('randn', 'randn_like', 'normal_functional')
def _randn(func, a, *r, dtype=None, **k):
    shape = a.shape if isinstance(a, torch.Tensor) else a
    dt = dtype or (a.dtype if isinstance(a, torch.Tensor) else
                   torch.get_default_dtype())
    return mk(_rand_payload(shape, 'randn'), dt)


@op('randint', 'randint_like')
def _randint(func, *a, dtype=None, **k):
    if isinstance(a[0], torch.Tensor):
        shape = a[0].shape
        rest = a[1:]
    else:
        rest, shape = a[:-1], a[-1]
    lo, hi = (0, rest[0]) if len(rest) == 1 else rest[:2]
    return mk(_rand_payload(shape, 'randint', lo, hi - 1), dtype or torch.int64)


@op('random_')
def _random_(func, a, *r, **k):
    if len(r) != 2 and len(r) != 1:
        raise Unsupported('random_ without bounds')
    lo, hi = (0, r[0]) if len(r) == 1 else r
    return write(a, mk(_rand_payload(a.shape, 'randint', lo, hi - 1),
                       a.dtype))


@op('uniform_')
def _uniform_(func, a, f=0, t=1, **k):
    if cur(optional=True) is None or cur().opts.get('init_zero', True):
        return a
    return write(a, mk(_rand_payload(a.shape, 'rand', f, t), a.dtype))


@op('exponential_')
def _exponential_(func, a, lambd=1, **k):
    return write(a, mk(_rand_payload(a.shape, 'expo', 0, None, lo_open=True),
                       a.dtype))


@op('normal_')
def _normal_(func, a, mean=0, std=1, **k):
    if cur(optional=True) is None or cur().opts.get('init_zero', True):
        return a
    return write(a, mk(_rand_payload(a.shape, 'randn'), a.dtype))


@op('bernoulli_', 'bernoulli')
def _bern(func, a, p=0.5, **k):
    q = _rand_payload(a.shape, 'rand', 0, 1, hi_open=True)
    name = func._schema.name
    pp = P(a) if name.endswith('bernoulli') else P(p)
    r = mk(cast(ew(T.lt, q, pp), a.dtype), a.dtype)
    return write(a, r) if name.endswith('_') else r


@op('randperm')
def _randperm(func, n, dtype=None, **k):
    s = cur()
    left = list(range(n))
    o = obj(n)
    base = s.fresh_name('perm')
    for i in range(n):
        j = s.concretise(s.raw_int(f'{base}[{i}]', 0, len(left) - 1))
        o[i] = left.pop(j)
    return mk(o, torch.int64)


@op('multinomial')
def _multinomial(func, a, n, replacement=False, **k):
    s = cur()
    p = P(a)
    rows = p.reshape(-1, p.shape[-1])
    out = obj((rows.shape[0], n))
    base = s.fresh_name('multinomial')
    for r in range(rows.shape[0]):
        for i in range(n):
            v = s.raw_int(f'{base}[{r},{i}]', 0, rows.shape[1] - 1)
            for q in range(rows.shape[1]):
                s.assume_raw(T.implies(v == q, T.gt(rows[r, q], 0)))
                if not replacement:
                    for j in range(i):
                        s.assume_raw(v != out[r, j])
            out[r, i] = v
    return mk(out.reshape(p.shape[:-1] + (n, )), torch.int64)


@op('native_dropout')
def _ndrop(func, a, p, train):
    m = full(P(a).shape, True)
    if not train or p == 0:
        return mk(P(a).copy(), a.dtype), mk(m, torch.bool)
    keep = _rand_payload(a.shape, 'drop', 0, 1)
    m = ew(lambda x: T.ge(x, lift(p)), keep)
    sc = Fraction(1) / (1 - Fraction(lift(p)))
    return mk(ew(lambda x, b: T.ite(b, T.mul(x, sc), 0), P(a), m),
              a.dtype), mk(m, torch.bool)


# ---- copies
@op('clone', 'contiguous')
def _clone(func, a, **k):
    return mk(P(a).copy(), a.dtype)


@op('detach', 'alias', 'lift_fresh', 'lift', 'view_as_real')
def _alias(func, a, **k):
    return mk(P(a), a.dtype)


@op('_to_copy', 'to')
def _to_copy(func, a, dtype=None, **k):
    dt = dtype or a.dtype
    return mk(cast(P(a).copy(), dt), dt)


@op('copy_')
def _copy_(func, a, b, non_blocking=False):
    return write(a, b)


@op('fill_')
def _fill_(func, a, v):
    return write(a, mk(np.broadcast_to(P(v), P(a).shape), a.dtype))


@op('zero_')
def _zero_(func, a):
    return write(a, mk(full(a.shape, 0), a.dtype))


@op('resize_')
def _resize_(func, a, size, **k):
    if tuple(size) == a._p.shape:
        return a
    old = a._p.reshape(-1)
    zero = 0 if not a.dtype.is_floating_point else Fraction(0)
    p = full(tuple(size), zero)
    flat = p.reshape(-1)
    for i in range(min(len(old), len(flat))):
        flat[i] = old[i]
    _set_data(a, SymTensor.make(flat.reshape(tuple(size)), a.dtype))
    return a


@op('set_')
def _set_(func, a, b=None, *r, **k):
    raise Unsupported('set_')


@op('_local_scalar_dense')
def _lsd(func, a):
    v = P(a).reshape(-1)[0]
    if not conc(v):
        if a.dtype.is_floating_point:
            v = cur().concretise_any(v, 'item() below Python')
        else:
            v = cur().concretise(v)
    return float(v) if a.dtype.is_floating_point else (
        bool(v) if a.dtype is torch.bool else int(v))


@op('is_nonzero')
def _isnz(func, a):
    return cur().branch(T.truth(P(a).reshape(-1)[0]))


@op('equal')
def _equal(func, a, b):
    pa, pb = P(a), P(b)
    if pa.shape != pb.shape:
        return False
    return cur().branch(T.and_(*[
        T.eq(x, y) for x, y in zip(pa.reshape(-1), pb.reshape(-1))
    ]))


@op('allclose')
def _allclose(func, a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    c = []
    for x, y in zip(*[q.reshape(-1) for q in np.broadcast_arrays(P(a), P(b))]):
        c.append(T.le(T.abs_(T.sub(x, y)), T.add(
            lift(atol), T.mul(lift(rtol), T.abs_(y)))))
    return cur().branch(T.and_(*c))


# ---- views
def _dim(d, n):
    return d + n if d < 0 else d


@op('view', 'reshape', '_unsafe_view', '_reshape_alias')
def _view(func, a, shape, *r):
    if not isinstance(shape, (list, tuple, torch.Size)):
        raise Unsupported('view dtype')
    return mk(P(a).reshape(tuple(shape)), a.dtype)


@op('expand')
def _expand(func, a, size, implicit=False):
    p = P(a)
    size = list(size)
    off = len(size) - p.ndim
    for i in range(len(size)):
        if size[i] == -1:
            size[i] = p.shape[i - off]
    return mk(np.broadcast_to(p, tuple(size)), a.dtype)


@op('permute')
def _permute(func, a, dims):
    return mk(P(a).transpose([_dim(d, a.dim()) for d in dims]), a.dtype)


@op('transpose')
def _transpose(func, a, d0, d1):
    if P(a).ndim == 0:
        return mk(P(a), a.dtype)
    return mk(np.swapaxes(P(a), d0, d1), a.dtype)


@op('t', 'numpy_T', 'mT')
def _t(func, a):
    return mk(P(a).T, a.dtype)


@op('unsqueeze')
def _unsq(func, a, d):
    return mk(np.expand_dims(P(a), _dim(d, a.dim() + 1)), a.dtype)


@op('squeeze')
def _sq(func, a, d=None):
    p = P(a)
    if d is None:
        return mk(p.reshape([s for s in p.shape if s != 1]), a.dtype)
    ds = [d] if isinstance(d, int) else d
    ds = [_dim(x, p.ndim) for x in ds]
    ds = tuple(x for x in ds if p.ndim and p.shape[x] == 1)
    return mk(np.squeeze(p, ds) if ds else p, a.dtype)


@op('select')
def _select(func, a, d, i):
    sl = [slice(None)] * a.dim()
    n = P(a).shape[d]
    if not -n <= i < n:
        raise IndexError(f'index {i} is out of bounds')
    d = _dim(d, a.dim())
    p = P(a)
    if p.ndim == 1:
        # keep a writable view
        return mk(p[i:i + 1 if i != -1 else None].reshape(()), a.dtype)
    sl[d] = i
    return mk(p[tuple(sl)], a.dtype)


@op('slice')
def _slice(func, a, d=0, s=None, e=None, st=1):
    sl = [slice(None)] * a.dim()
    n = P(a).shape[d]
    if e is not None and e > n:
        e = n
    sl[_dim(d, a.dim())] = slice(s, e, st)
    return mk(P(a)[tuple(sl)], a.dtype)


@op('narrow')
def _narrow(func, a, d, s, ln):
    s = int(s) if not isinstance(s, torch.Tensor) else int(
        cur().concretise(P(s).reshape(-1)[0]))
    if s < 0:
        s += P(a).shape[d]
    if s + ln > P(a).shape[d]:
        raise RuntimeError('start + length exceeds dimension size')
    return _slice(func, a, d, s, s + ln)


@op('split', 'split_with_sizes')
def _split(func, a, sz, d=0):
    n = P(a).shape[d]
    sizes = list(sz) if isinstance(sz, (list, tuple)) else None
    if sizes is None:
        sizes = [sz] * (n // sz) + ([n % sz] if n % sz else [])
        sizes = sizes or [0]
    elif sum(sizes) != n:
        raise RuntimeError('split_with_sizes expects split_sizes to sum')
    out, o = [], 0
    for s in sizes:
        out.append(_slice(func, a, d, o, o + s))
        o += s
    return out


@op('chunk')
def _chunk(func, a, n, d=0):
    sz = -(-P(a).shape[d] // n)
    return _split(func, a, max(sz, 1), d)


@op('unbind')
def _unbind(func, a, d=0):
    return [_select(func, a, d, i) for i in range(P(a).shape[d])]


@op('cat', 'concat')
def _cat(func, ts, d=0):
    dt = rt(*ts)
    ps = [P(t) for t in ts]
    ps = [p for p in ps if not (p.ndim == 1 and p.size == 0)] or ps[:1]
    try:
        return mk(cast(np.concatenate(ps, axis=d), dt), dt)
    except ValueError as e:
        raise RuntimeError(f'Sizes of tensors must match: {e}')


@op('stack')
def _stack(func, ts, d=0):
    dt = rt(*ts)
    try:
        return mk(cast(np.stack([P(t) for t in ts], axis=d), dt), dt)
    except ValueError as e:
        raise RuntimeError(f'stack expects each tensor to be equal size: {e}')


@op('repeat')
def _repeat(func, a, reps):
    p = P(a)
    if len(reps) > p.ndim:
        p = p.reshape((1, ) * (len(reps) - p.ndim) + p.shape)
    return mk(np.tile(p, tuple(reps)), a.dtype)


@op('repeat_interleave')
def _repint(func, a, r=None, dim=None, **k):
    if r is None:
        reps = [cur().concretise(v) for v in P(a).reshape(-1)]
        return mk(arr(np.array([i for i, n in enumerate(reps)
                                for _ in range(n)], dtype=object)), a.dtype)
    if isinstance(r, torch.Tensor):
        r = [cur().concretise(v) for v in P(r).reshape(-1)]
        r = r[0] if len(r) == 1 else r
    return mk(np.repeat(P(a) if dim is not None else P(a).reshape(-1), r,
                        axis=dim if dim is not None else 0), a.dtype)


@op('flip')
def _flip(func, a, dims):
    return mk(np.flip(P(a), tuple(dims)).copy(), a.dtype)


@op('roll')
def _roll(func, a, sh, dims=()):
    return mk(np.roll(P(a), tuple(sh), tuple(dims)) if dims else np.roll(
        P(a), sh[0] if isinstance(sh, (list, tuple)) else sh), a.dtype)


@op('unfold')
def _unfold(func, a, d, size, step):
    p = P(a)
    d = _dim(d, p.ndim)
    n = (p.shape[d] - size) // step + 1
    outs = [np.moveaxis(np.take(p, range(i * step, i * step + size), axis=d),
                        d, -1) for i in range(n)]
    return mk(np.stack(outs, axis=d), a.dtype)


@op('diagonal')
def _diagonal(func, a, offset=0, dim1=0, dim2=1):
    d = P(a).diagonal(offset, dim1, dim2)
    try:
        d.flags.writeable = True
    except ValueError:
        pass
    return mk(d, a.dtype)


@op('diag')
def _diag(func, a, diagonal=0):
    p = P(a)
    if p.ndim == 2:
        return mk(p.diagonal(diagonal).copy(), a.dtype)
    n = p.shape[0] + abs(diagonal)
    o = full((n, n), cast_raw(0, a.dtype))
    for i in range(p.shape[0]):
        o[i + max(0, -diagonal), i + max(0, diagonal)] = p[i]
    return mk(o, a.dtype)


@op('diag_embed')
def _diag_embed(func, a, offset=0, dim1=-2, dim2=-1):
    p = P(a)
    n = p.shape[-1]
    o = full(p.shape + (n, ), cast_raw(0, a.dtype))
    for i in range(n):
        o[..., i, i] = p[..., i]
    return mk(o, a.dtype)


def _tri(lower):

    def h(func, a, diagonal=0):
        p = P(a).copy()
        zv = cast_raw(0, a.dtype)
        for i in range(p.shape[-2]):
            for j in range(p.shape[-1]):
                if (j - i > diagonal) if lower else (j - i < diagonal):
                    p[..., i, j] = zv
        return mk(p, a.dtype)

    return h


H['tril'] = _tri(True)
H['triu'] = _tri(False)


@op('as_strided')
def _as_strided(func, a, size, stride, off=None):
    p = P(a)
    if p.flags.c_contiguous and p.size:
        # a view: what is written into it is written into a
        flat = p.reshape(-1)[off or 0:]
        o = np.lib.stride_tricks.as_strided(
            flat, tuple(size), tuple(i * flat.itemsize for i in stride))
        return mk(o, a.dtype)
    flat = p.reshape(-1)
    o = obj(tuple(size))
    for idx in np.ndindex(*size):
        o[idx] = flat[(off or 0) + sum(i * s for i, s in zip(idx, stride))]
    return mk(o, a.dtype)


@op('fill_diagonal')
def _fill_diagonal(func, a, v, wrap=False):
    p = P(a).copy()
    if wrap or p.ndim != 2:
        raise Unsupported('fill_diagonal_ with wrap or of more dimensions')
    for i in range(min(p.shape)):
        p[i, i] = cast_raw(lift(v), a.dtype)
    return mk(p, a.dtype)


def _cumext(better):

    def h(func, a, dim):
        p = np.moveaxis(P(a), dim, -1)
        o, k = obj(p.shape), obj(p.shape)
        for ix in np.ndindex(*p.shape[:-1]):
            bv = bi = None
            for j in range(p.shape[-1]):
                x = p[ix + (j, )]
                if bv is None:
                    bv, bi = x, j
                else:
                    c = better(x, bv)
                    bv, bi = T.ite(c, x, bv), T.ite(c, j, bi)
                o[ix + (j, )], k[ix + (j, )] = bv, bi
        return (mk(np.moveaxis(o, -1, dim), a.dtype),
                mk(np.moveaxis(k, -1, dim), torch.int64))

    return h


H['cummax'], H['cummin'] = _cumext(T.ge), _cumext(T.le)
H['signbit'] = _unop(lambda x: T.lt(x, 0), torch.bool)
H['copysign'] = _binop(lambda a, b: T.ite(
    T.lt(b, 0), T.neg(T.abs_(a)), T.abs_(a)), True)
H['log10'] = _unop(lambda x: T.div(T.uf('log', x), T.uf('log', 10)),
                   floatify=True)


@op('linalg_cross')
def _cross(func, a, b, dim=-1):
    p, q = np.broadcast_arrays(P(a), P(b))
    p, q = np.moveaxis(p, dim, 0), np.moveaxis(q, dim, 0)
    f = lambda i, j: ew(lambda u, v, w, x: T.sub(T.mul(u, v), T.mul(w, x)),
                        p[i], q[j], p[j], q[i])
    return mk(np.stack([np.asarray(f(1, 2), dtype=object),
                        np.asarray(f(2, 0), dtype=object),
                        np.asarray(f(0, 1), dtype=object)], axis=dim
                       if dim >= 0 else p.ndim + dim), rt(a, b))


@op('block_diag')
def _block_diag(func, ts):
    ps = [P(t) for t in ts]
    ps = [p.reshape((1, -1)) if p.ndim < 2 else p for p in ps]
    dt = rt(*ts)
    o = full((sum(p.shape[0] for p in ps), sum(p.shape[1] for p in ps)),
             cast_raw(0, dt))
    r = c = 0
    for p in ps:
        o[r:r + p.shape[0], c:c + p.shape[1]] = p
        r, c = r + p.shape[0], c + p.shape[1]
    return mk(o, dt)


def _rank(vals, x, right):
    return T.addn([T.num((T.le if right else T.lt)(v, x)) for v in vals]
                  or [0])


@op('searchsorted')
def _searchsorted(func, seq, x, *rest, out_int32=False, right=False,
                  side=None, sorter=None):
    p = P(seq)
    right = right or side == 'right'
    if sorter is not None or p.ndim != 1 or rest:
        raise Unsupported('searchsorted of several rows')
    dt = torch.int32 if out_int32 else torch.int64
    return mk(ew(lambda v: _rank(list(p), v, right),
                 P(x) if isinstance(x, torch.Tensor) else P(lift(x))), dt)


@op('bucketize')
def _bucketize(func, x, b, *, out_int32=False, right=False):
    return _searchsorted(func, b, x, out_int32=out_int32, right=right)


@op('pixel_shuffle')
def _pixel_shuffle(func, a, r):
    p = P(a)
    *b, c, h, w = p.shape
    n = len(b)
    p = p.reshape(tuple(b) + (c // (r * r), r, r, h, w))
    p = p.transpose(tuple(range(n)) + (n, n + 3, n + 1, n + 4, n + 2))
    return mk(p.reshape(tuple(b) + (c // (r * r), h * r, w * r)).copy(),
              a.dtype)


@op('pixel_unshuffle')
def _pixel_unshuffle(func, a, r):
    p = P(a)
    *b, c, h, w = p.shape
    n = len(b)
    p = p.reshape(tuple(b) + (c, h // r, r, w // r, r))
    p = p.transpose(tuple(range(n)) + (n, n + 2, n + 4, n + 1, n + 3))
    return mk(p.reshape(tuple(b) + (c * r * r, h // r, w // r)).copy(),
              a.dtype)


@op('channel_shuffle', 'native_channel_shuffle')
def _channel_shuffle(func, a, g):
    p = P(a)
    q = p.reshape((p.shape[0], g, p.shape[1] // g) + p.shape[2:])
    return mk(np.swapaxes(q, 1, 2).reshape(p.shape).copy(), a.dtype)


@op('constant_pad_nd')
def _cpad(func, a, pad, value=0):
    p = P(a)
    w = [(0, 0)] * p.ndim
    for i in range(len(pad) // 2):
        w[p.ndim - 1 - i] = (pad[2 * i], pad[2 * i + 1])
    v = cast_raw(lift(value), a.dtype)
    neg_any = any(x < 0 for q in w for x in q)
    if neg_any:
        sl = tuple(slice(max(0, -l), p.shape[i] - max(0, -r))
                   for i, (l, r) in enumerate(w))
        p = p[sl]
        w = [(max(l, 0), max(r, 0)) for l, r in w]
    return mk(np.pad(p, w, constant_values=v), a.dtype)


def _pad_mode(mode):

    def h(func, a, pad):
        p = P(a)
        w = [(0, 0)] * p.ndim
        for i in range(len(pad) // 2):
            w[p.ndim - 1 - i] = (pad[2 * i], pad[2 * i + 1])
        return mk(np.pad(p, w, mode=mode), a.dtype)

    return h


for _d in ('1d', '2d', '3d'):
    H['reflection_pad' + _d] = _pad_mode('reflect')
    H['replication_pad' + _d] = _pad_mode('edge')


# ---- indexing
def _concrete_mask(p):
    s = cur()
    o = np.empty(p.shape, dtype=bool)
    for i in np.ndindex(*p.shape):
        v = p[i]
        o[i] = v if type(v) is bool else s.branch(T.truth(v))
    return o


def _concrete_idx(p):
    s = cur()
    o = np.empty(p.shape, dtype=np.int64)
    for i in np.ndindex(*p.shape):
        o[i] = s.concretise(T.num(p[i]))
    return o


def _indices(a, idx):
    out = []
    for t in idx:
        if t is None:
            out.append(slice(None))
            continue
        p = P(t)
        if t.dtype in (torch.bool, torch.uint8):
            m = _concrete_mask(p)
            shp = P(a).shape
            k = sum(x.ndim if isinstance(x, np.ndarray) and x.dtype == bool
                    else 1 for x in out)
            if m.shape != shp[k:k + m.ndim]:
                raise IndexError(
                    f'The shape of the mask {list(m.shape)} at index 0 does '
                    f'not match the shape of the indexed tensor {list(shp)}')
            # expand to integer indices (numpy mixes masks with None badly)
            for q in np.nonzero(m):
                out.append(q)
        else:
            out.append(_concrete_idx(p))
    return tuple(out)


@op('index', '_unsafe_index')
def _index(func, a, idx):
    ii = _indices(a, idx)
    try:
        r = P(a)[ii]
    except IndexError as e:
        raise IndexError(str(e))
    return mk(arr(r).copy(), a.dtype)


@op('index_put', 'index_put_', '_index_put_impl_', '_unsafe_index_put')
def _index_put(func, a, idx, v, accumulate=False, unsafe=False):
    name = func._schema.name
    out = P(a) if name.endswith('_') else P(a).copy()
    if name.endswith('_') and not isinstance(a, SymTensor):
        raise Unsupported('in-place write into a plain tensor')
    ii = _indices(a, idx)
    pv = cast(P(v), a.dtype)
    if accumulate:
        tgt = np.empty(out.shape, dtype=object)
        sel = np.arange(out.size).reshape(out.shape)[ii]
        vals = np.broadcast_to(pv, sel.shape)
        flat = out.reshape(-1)
        for i, x in zip(sel.reshape(-1), vals.reshape(-1)):
            flat[i] = T.add(flat[i], x)
    else:
        if pv.ndim == 0:
            out[ii] = pv[()]
        else:
            out[ii] = pv
    return a if name.endswith('_') else mk(out, a.dtype)


@op('index_select')
def _isel(func, a, d, idx):
    ii = _concrete_idx(P(idx).reshape(-1))
    n = P(a).shape[d]
    if any(i < 0 or i >= n for i in ii):
        raise IndexError('index out of range in self')
    return mk(np.take(P(a), ii, axis=d), a.dtype)


@op('index_copy', 'index_fill', 'index_add')
def _icopy(func, a, d, idx, src, **k):
    name = func._schema.name.split('::')[1]
    out = P(a).copy()
    sl = [slice(None)] * out.ndim
    for n, i in enumerate(_concrete_idx(P(idx).reshape(-1))):
        sl[_dim(d, out.ndim)] = int(i)
        ps = P(src)
        if name.startswith('index_fill'):
            v = np.broadcast_to(ps, out[tuple(sl)].shape)
        else:
            v = np.take(ps, n, axis=d)
        if name.startswith('index_add'):
            v = ew(T.add, arr(out[tuple(sl)]), arr(v))
        out[tuple(sl)] = v if np.ndim(v) else arr(v)[()]
    return mk(cast(out, a.dtype), a.dtype)


@op('masked_select')
def _msel(func, a, m):
    p, q = np.broadcast_arrays(P(a), P(m))
    return mk(p[_concrete_mask(q)], a.dtype)


@op('nonzero')
def _nonzero(func, a):
    nz = np.argwhere(_concrete_mask(ew(T.truth, P(a))))
    return mk(arr(nz.astype(object)), torch.int64)


@op('nonzero_numpy')
def _nonzero_np(func, a):
    nz = np.nonzero(_concrete_mask(ew(T.truth, P(a))))
    return tuple(mk(x.astype(object), torch.int64) for x in nz)


@op('take')
def _take(func, a, idx):
    return mk(P(a).reshape(-1)[_concrete_idx(P(idx))], a.dtype)


def sel_chain(vals, i):
    """vals[i] with symbolic i."""
    if conc(i):
        return vals[i]
    r = vals[-1]
    for k in range(len(vals) - 2, -1, -1):
        r = T.ite(T.eq(i, k), vals[k], r)
    return r


@op('gather')
def _gather(func, a, d, idx, **k):
    p, ip = P(a), P(idx)
    d = _dim(d, p.ndim)
    o = obj(ip.shape)
    for ix in np.ndindex(*ip.shape):
        sl = list(ix)
        sl[d] = slice(None)
        o[ix] = sel_chain(list(p[tuple(sl)]), ip[ix])
    return mk(o, a.dtype)


@op('scatter', 'scatter_add', 'scatter_reduce')
def _scatter(func, a, d, idx, src, *r, **k):
    name = func._schema.name.split('::')[1]
    red = k.get('reduce', 'add' if name.startswith('scatter_add') else None)
    p, ip = P(a).copy(), P(idx)
    d = _dim(d, p.ndim)
    if ip.ndim == 0:
        ip = ip.reshape(1)
    ps = np.broadcast_to(P(src), ip.shape) if P(src).ndim == 0 else P(src)
    for ix in np.ndindex(*ip.shape):
        i = ip[ix]
        v = cast_raw(ps[ix], a.dtype)
        for kk in ([i] if conc(i) else range(p.shape[d])):
            sl = list(ix)
            sl[d] = kk
            sl = tuple(sl)
            nv = T.add(p[sl], v) if red else v
            p[sl] = nv if conc(i) else T.ite(T.eq(i, kk), nv, p[sl])
    return mk(cast(p, a.dtype), a.dtype)


@op('embedding')
def _embedding(func, w, idx, *r, **k):
    p, ip = P(w), P(idx)
    o = obj(ip.shape + p.shape[1:])
    for ix in np.ndindex(*ip.shape):
        i = ip[ix]
        if conc(i):
            o[ix] = p[i]
        else:
            for j in range(p.shape[1]):
                o[ix + (j, )] = sel_chain(list(p[:, j]), i)
    return mk(o, w.dtype)


# ---- reductions
def _axes(dim, n):
    if dim is None or (isinstance(dim, (list, tuple)) and len(dim) == 0):
        return tuple(range(n))
    if isinstance(dim, int):
        dim = [dim]
    return tuple(_dim(d, n) for d in dim)


def reduce(p, f, dim, keepdim):
    ax = _axes(dim, p.ndim)
    if p.ndim == 0:
        return arr(f([p[()]]))
    rest = [i for i in range(p.ndim) if i not in ax]
    q = p.transpose(rest + list(ax)).reshape(
        [p.shape[i] for i in rest] + [-1])
    o = obj(q.shape[:-1])
    for ix in np.ndindex(*q.shape[:-1]):
        o[ix] = f(list(q[ix]))
    if keepdim:
        o = o.reshape([1 if i in ax else p.shape[i] for i in range(p.ndim)])
    return o


@op('sum')
def _sum(func, a, dim=None, keepdim=False, dtype=None):
    dt = dtype or (torch.int64 if not a.dtype.is_floating_point else a.dtype)
    return mk(cast(reduce(cast(P(a), dt), T.addn, dim, keepdim), dt), dt)


@op('nansum')
def _nansum(func, a, dim=None, keepdim=False, dtype=None):
    return _sum(func, a, dim, keepdim, dtype)


@op('mean')
def _mean(func, a, dim=None, keepdim=False, dtype=None):
    if not (dtype or a.dtype).is_floating_point:
        raise RuntimeError('mean(): could not infer output dtype')
    return mk(cast(reduce(P(a), lambda xs: T.div(T.addn(xs), len(xs)) if xs else
                     float('nan'), dim, keepdim), dtype or a.dtype), dtype or a.dtype)


def _prodl(xs):
    r = 1
    for x in xs:
        r = T.mul(r, x)
    return r


@op('prod')
def _prod(func, a, dim=None, keepdim=False, dtype=None):
    dt = dtype or (torch.int64 if not a.dtype.is_floating_point else a.dtype)
    return mk(cast(reduce(P(a), _prodl, dim, keepdim), dt), dt)


def _varl(xs, corr):
    n = len(xs)
    m = T.div(T.addn(xs), n)
    d = [T.sub(x, m) for x in xs]
    den = n - corr
    s = T.addn([T.mul(x, x) for x in d])
    if den <= 0:
        return float('nan')
    return T.div(s, den)


def _var_args(args, kw):
    dim, corr, keep = None, 1, False
    args = list(args)
    if args and isinstance(args[0], bool):
        corr = 1 if args[0] else 0
        args = args[1:]
        kw = dict(kw)
    elif args:
        dim = args.pop(0)
        if args and isinstance(args[0], bool):
            corr = 1 if args.pop(0) else 0
            if args:
                keep = args.pop(0)
    if 'dim' in kw:
        dim = kw['dim']
    if 'unbiased' in kw:
        corr = 1 if kw['unbiased'] else 0
    if 'correction' in kw and kw['correction'] is not None:
        corr = kw['correction']
    keep = kw.get('keepdim', keep)
    return dim, corr, keep


@op('var')
def _var(func, a, *r, **k):
    dim, corr, keep = _var_args(r, k)
    return mk(reduce(P(a), lambda xs: _varl(xs, corr), dim, keep), a.dtype)


@op('std')
def _std(func, a, *r, **k):
    dim, corr, keep = _var_args(r, k)
    return mk(reduce(P(a), lambda xs: T.uf('sqrt', _varl(xs, corr)), dim,
                     keep), a.dtype)


@op('var_mean')
def _var_mean(func, a, *r, **k):
    dim, corr, keep = _var_args(r, k)
    return (mk(reduce(P(a), lambda xs: _varl(xs, corr), dim, keep), a.dtype),
            mk(reduce(P(a), lambda xs: T.div(T.addn(xs), len(xs)), dim, keep),
               a.dtype))


@op('any')
def _any(func, a, dim=None, keepdim=False):
    return mk(reduce(ew(T.truth, P(a)) if P(a).size else P(a),
                     lambda xs: T.or_(*xs), dim, keepdim), torch.bool)


@op('all')
def _all(func, a, dim=None, keepdim=False):
    return mk(reduce(ew(T.truth, P(a)) if P(a).size else P(a),
                     lambda xs: T.and_(*xs), dim, keepdim), torch.bool)


def _maxl(xs):
    if not xs:
        raise RuntimeError('max(): Expected reduction dim to be specified for '
                           'input.numel() == 0')
    r = xs[0]
    for x in xs[1:]:
        r = T.maximum(r, x)
    return r


def _minl(xs):
    if not xs:
        raise RuntimeError('min(): Expected reduction dim to be specified for '
                           'input.numel() == 0')
    r = xs[0]
    for x in xs[1:]:
        r = T.minimum(r, x)
    return r


def _argl(xs, better):
    bi, bv = 0, xs[0]
    for i, x in enumerate(xs[1:], 1):
        c = better(x, bv)
        bi = T.ite(c, i, bi)
        bv = T.ite(c, x, bv)
    return bi


@op('amax')
def _amax(func, a, dim=None, keepdim=False):
    return mk(reduce(P(a), _maxl, dim, keepdim), a.dtype)


@op('amin')
def _amin(func, a, dim=None, keepdim=False):
    return mk(reduce(P(a), _minl, dim, keepdim), a.dtype)


@op('aminmax')
def _aminmax(func, a, dim=None, keepdim=False):
    return (mk(reduce(P(a), _minl, dim, keepdim), a.dtype),
            mk(reduce(P(a), _maxl, dim, keepdim), a.dtype))


@op('max')
def _max(func, a, b=None, keepdim=False, dim=None):
    if isinstance(b, torch.Tensor):
        return H['maximum'](func, a, b)
    dim = b if b is not None else dim
    if dim is None:
        return mk(reduce(P(a), _maxl, None, False), a.dtype)
    return (mk(reduce(P(a), _maxl, dim, keepdim), a.dtype),
            mk(reduce(P(a), lambda xs: _argl(xs, T.gt), dim, keepdim),
               torch.int64))


@op('min')
def _min(func, a, b=None, keepdim=False, dim=None):
    if isinstance(b, torch.Tensor):
        return H['minimum'](func, a, b)
    dim = b if b is not None else dim
    if dim is None:
        return mk(reduce(P(a), _minl, None, False), a.dtype)
    return (mk(reduce(P(a), _minl, dim, keepdim), a.dtype),
            mk(reduce(P(a), lambda xs: _argl(xs, T.lt), dim, keepdim),
               torch.int64))


@op('argmax')
def _argmax(func, a, dim=None, keepdim=False):
    return mk(reduce(P(a), lambda xs: _argl(xs, T.gt), dim, keepdim),
              torch.int64)


@op('argmin')
def _argmin(func, a, dim=None, keepdim=False):
    return mk(reduce(P(a), lambda xs: _argl(xs, T.lt), dim, keepdim),
              torch.int64)


def _order(vals, desc):
    """concrete permutation on this path (stable), forking on comparisons."""
    import functools
    s = cur(optional=True)

    def before(i, j):  # strictly before
        c = T.gt(vals[i], vals[j]) if desc else T.lt(vals[i], vals[j])
        return c if conc(c) else s.branch(c)

    order = []
    for i in range(len(vals)):
        k = len(order)
        while k > 0 and before(i, order[k - 1]):
            k -= 1
        order.insert(k, i)
    return order


def _free_order(keys, desc):
    """any order, for harnesses that judge the keys of a sort themselves"""
    s = cur(optional=True)
    if s is None or not s.opts.get('free_sort') or all(conc(k) for k in keys):
        return None
    left, out = list(range(len(keys))), []
    while left:
        out.append(left.pop(s.pick(s.fresh_name('order'), range(len(left)))
                            if len(left) > 1 else 0))
    s.sorts.append((keys, out, desc))
    return out


def _sort_impl(a, dim, desc):
    p = P(a)
    if p.ndim == 0:
        return p.copy(), arr(0)
    q = np.moveaxis(p, dim, -1)
    v, ix = obj(q.shape), obj(q.shape)
    for i in np.ndindex(*q.shape[:-1]):
        o = _free_order(list(q[i]), desc) or _order(list(q[i]), desc)
        for k, j in enumerate(o):
            v[i + (k, )] = q[i + (j, )]
            ix[i + (k, )] = j
    return np.moveaxis(v, -1, dim), np.moveaxis(ix, -1, dim)


@op('sort')
def _sort(func, a, *r, stable=None, dim=-1, descending=False):
    r = [x for x in r]
    if r and (r[0] is None or isinstance(r[0], bool)) and len(r) == 3:
        r = r[1:]
    if len(r) > 0:
        dim = r[0]
    if len(r) > 1:
        descending = r[1]
    v, i = _sort_impl(a, dim, descending)
    return mk(v, a.dtype), mk(i, torch.int64)


@op('argsort')
def _argsort(func, a, dim=-1, descending=False, stable=None):
    return mk(_sort_impl(a, dim, descending)[1], torch.int64)


@op('topk')
def _topk(func, a, k, dim=-1, largest=True, sorted=True):
    if k > P(a).shape[dim]:
        raise RuntimeError('selected index k out of range')
    v, i = _sort_impl(a, dim, largest)
    sl = [slice(None)] * v.ndim
    sl[dim] = slice(0, k)
    return mk(v[tuple(sl)].copy(), a.dtype), mk(i[tuple(sl)].copy(),
                                                torch.int64)


@op('kthvalue')
def _kth(func, a, k, dim=-1, keepdim=False):
    v, i = _sort_impl(a, dim, False)
    f = lambda q: np.take(q, [k - 1] if keepdim else k - 1, axis=dim)
    return mk(arr(f(v)), a.dtype), mk(arr(f(i)), torch.int64)


@op('median')
def _median(func, a, dim=None, keepdim=False):
    n = P(a).size if dim is None else P(a).shape[dim]
    if dim is None:
        v, i = _sort_impl(mk(P(a).reshape(-1), a.dtype), 0, False)
        return mk(arr(v[(n - 1) // 2]), a.dtype)
    return _kth(func, a, (n - 1) // 2 + 1, dim, keepdim)


@op('cumsum')
def _cumsum(func, a, dim, dtype=None):
    p = np.moveaxis(cast(P(a), torch.int64) if not a.dtype.is_floating_point
                    else P(a), dim, -1)
    o = obj(p.shape)
    for ix in np.ndindex(*p.shape[:-1]):
        acc = None
        for k in range(p.shape[-1]):
            acc = p[ix + (k, )] if acc is None else T.add(acc, p[ix + (k, )])
            o[ix + (k, )] = acc
    dt = dtype or (a.dtype if a.dtype.is_floating_point else torch.int64)
    return mk(cast(np.moveaxis(o, -1, dim), dt), dt)


@op('cumprod')
def _cumprod(func, a, dim, dtype=None):
    p = np.moveaxis(P(a), dim, -1)
    o = obj(p.shape)
    for ix in np.ndindex(*p.shape[:-1]):
        acc = None
        for k in range(p.shape[-1]):
            acc = p[ix + (k, )] if acc is None else T.mul(acc, p[ix + (k, )])
            o[ix + (k, )] = acc
    return mk(np.moveaxis(o, -1, dim), dtype or a.dtype)


def _norml(xs, ord):
    if ord == 2 and len(xs) == 1:
        return T.abs_(xs[0])
    if ord == 2:
        return T.uf('sqrt', T.addn([T.mul(x, x) for x in xs]))
    if ord == 1:
        return T.addn([T.abs_(x) for x in xs])
    if ord == 0:
        return T.addn([T.ite(T.ne(x, 0), Fraction(1), Fraction(0))
                       for x in xs])
    if ord == float('inf'):
        return _maxl([T.abs_(x) for x in xs])
    return T.pow_(T.addn([T.pow_(T.abs_(x), lift(ord)) for x in xs]),
                  T.div(1, lift(ord)))


@op('norm', 'linalg_vector_norm')
def _norm(func, a, p=2, dim=None, keepdim=False, dtype=None):
    if p is None:
        p = 2
    return mk(cast(reduce(P(a), lambda xs: _norml(xs, p), dim, keepdim),
                   fl(a.dtype)), fl(a.dtype))


def _logsumexp(xs):
    return T.uf('log', T.addn([T.uf('exp', x) for x in xs]))


@op('logsumexp')
def _lse(func, a, dim, keepdim=False):
    return mk(reduce(P(a), _logsumexp, dim, keepdim), a.dtype)


def _along(p, dim, f):
    """f: list -> list along dim."""
    if p.ndim == 0:
        return arr(f([p[()]])[0])
    q = np.moveaxis(p, dim, -1)
    o = obj(q.shape)
    for ix in np.ndindex(*q.shape[:-1]):
        for k, v in enumerate(f(list(q[ix]))):
            o[ix + (k, )] = v
    return np.moveaxis(o, -1, dim)


def _softmaxl(xs):
    # shift-invariant form without the max: exact over the reals
    es = [T.uf('exp', x) for x in xs]
    s = T.addn(es)
    return [T.div(e, s) for e in es]


@op('_softmax', 'softmax', '_safe_softmax')
def _softmax(func, a, dim, *r, **k):
    return mk(cast(_along(P(a), dim, _softmaxl), fl(a.dtype)), fl(a.dtype))


@op('_log_softmax', 'log_softmax')
def _log_softmax(func, a, dim, *r, **k):

    def f(xs):
        s = T.uf('log', T.addn([T.uf('exp', x) for x in xs]))
        return [T.sub(x, s) for x in xs]

    return mk(_along(P(a), dim, f), fl(a.dtype))


# ---- linear algebra
def matmul(p, q):
    """p (n,k) q (k,m)."""
    if p.shape[1] != q.shape[0]:
        raise RuntimeError(f'mat1 and mat2 shapes cannot be multiplied '
                           f'({p.shape} and {q.shape})')
    o = obj((p.shape[0], q.shape[1]))
    cols = [list(q[:, j]) for j in range(q.shape[1])]
    for i in range(p.shape[0]):
        row = list(p[i])
        for j in range(q.shape[1]):
            o[i, j] = T.dot(row, cols[j])
    return o


@op('mm')
def _mm(func, a, b):
    return mk(cast(matmul(P(a), P(b)), rt(a, b)), rt(a, b))


@op('addmm')
def _addmm(func, c, a, b, beta=1, alpha=1):
    r = matmul(P(a), P(b))
    if alpha != 1:
        r = ew(lambda x: T.mul(x, lift(alpha)), r)
    pc = P(c)
    if beta != 1:
        pc = ew(lambda x: T.mul(x, lift(beta)), pc)
    return mk(cast(ew(T.add, r, pc), rt(a, b)), rt(a, b))


@op('bmm')
def _bmm(func, a, b):
    p, q = P(a), P(b)
    if p.shape[0] != q.shape[0]:
        raise RuntimeError('batch1 and batch2 must have same batch size')
    o = [matmul(p[i], q[i]) for i in range(p.shape[0])]
    return mk(cast(np.stack(o) if o else obj((0, p.shape[1], q.shape[2])),
                   rt(a, b)), rt(a, b))


@op('baddbmm')
def _baddbmm(func, c, a, b, beta=1, alpha=1):
    r = _bmm(func, a, b)
    return mk(ew(lambda x, y: T.add(T.mul(lift(beta), x), T.mul(
        lift(alpha), y)), P(c), P(r)), rt(a, b))


@op('mv')
def _mv(func, a, b):
    return mk(matmul(P(a), P(b)[:, None])[:, 0], rt(a, b))


@op('dot', 'vdot')
def _dot(func, a, b):
    return mk(arr(T.dot(list(P(a)), list(P(b)))), rt(a, b))


@op('linear')
def _linear(func, x, w, b=None):
    p, q = P(x), P(w)
    if p.shape[-1] != q.shape[1]:
        raise RuntimeError(
            f'mat1 and mat2 shapes cannot be multiplied ({p.shape} and '
            f'{q.T.shape})')
    r = matmul(p.reshape(-1, p.shape[-1]), q.T)
    if b is not None:
        if P(b).shape != (q.shape[0], ):
            raise RuntimeError('bias size mismatch')
        r = ew(T.add, r, P(b))
    return mk(r.reshape(p.shape[:-1] + (q.shape[0], )), rt(x, w))


def conv_nd(x, w, b, stride, pad, dil, groups):
    """x (N,C,*S) w (O,C/g,*K) -> payload."""
    nd = x.ndim - 2
    stride = list(stride) * (nd if len(stride) == 1 else 1)
    pad = list(pad) * (nd if len(pad) == 1 else 1)
    dil = list(dil) * (nd if len(dil) == 1 else 1)
    N, C = x.shape[:2]
    O, Cg = w.shape[:2]
    K = w.shape[2:]
    if C != Cg * groups or O % groups or O == 0:
        raise RuntimeError(
            f'Given groups={groups}, weight of size {list(w.shape)}, expected '
            f'input{list(x.shape)} to have {Cg * groups} channels, but got {C} '
            'channels instead')
    if b is not None and b.shape != (O, ):
        raise RuntimeError('expected bias to be 1-dimensional with '
                           f'{O} elements, but got {list(b.shape)}')
    xp = np.pad(x, [(0, 0), (0, 0)] + [(p, p) for p in pad],
                constant_values=Fraction(0))
    outs = [(xp.shape[2 + i] - dil[i] * (K[i] - 1) - 1) // stride[i] + 1
            for i in range(nd)]
    if any(o <= 0 for o in outs):
        raise RuntimeError("Kernel size can't be greater than actual input "
                           'size')
    o = obj([N, O] + outs)
    Og = O // groups
    wl = [list(w[c].reshape(-1)) for c in range(O)]
    for n in range(N):
        for pos in np.ndindex(*outs):
            for g in range(groups):
                sl = (n, slice(g * Cg, (g + 1) * Cg)) + tuple(
                    slice(pos[i] * stride[i],
                          pos[i] * stride[i] + dil[i] * (K[i] - 1) + 1, dil[i])
                    for i in range(nd))
                patch = list(xp[sl].reshape(-1))
                for c in range(g * Og, (g + 1) * Og):
                    v = T.dot(patch, wl[c])
                    o[(n, c) + pos] = v if b is None else T.add(v, b[c])
    return cast(o, torch.float64)


def conv_transpose_nd(x, w, b, stride, pad, dil, groups, outpad):
    nd = x.ndim - 2
    ex = lambda v: list(v) * (nd if len(v) == 1 else 1)
    stride, pad, dil, outpad = ex(stride), ex(pad), ex(dil), ex(outpad)
    N, C = x.shape[:2]
    K = w.shape[2:]
    Og = w.shape[1]
    O = Og * groups
    if w.shape[0] != C:
        raise RuntimeError('conv_transpose channel mismatch')
    outs = [(x.shape[2 + i] - 1) * stride[i] - 2 * pad[i] + dil[i] *
            (K[i] - 1) + outpad[i] + 1 for i in range(nd)]
    acc = {}
    Cg = C // groups
    for n in range(N):
        for c in range(C):
            g = c // Cg
            for pos in np.ndindex(*x.shape[2:]):
                for k in np.ndindex(*K):
                    q = tuple(pos[i] * stride[i] - pad[i] + k[i] * dil[i]
                              for i in range(nd))
                    if any(q[i] < 0 or q[i] >= outs[i] for i in range(nd)):
                        continue
                    for oc in range(Og):
                        acc.setdefault((n, g * Og + oc) + q, []).append(
                            T.mul(x[(n, c) + pos], w[(c, oc) + k]))
    o = obj([N, O] + outs)
    for ix in np.ndindex(*o.shape):
        v = T.addn(acc.get(ix, [Fraction(0)]))
        o[ix] = v if b is None else T.add(v, b[ix[1]])
    return cast(o, torch.float64)


@op('convolution', '_convolution', 'convolution_overrideable')
def _convolution(func, x, w, b, stride, pad, dil, transposed, outpad, groups,
                 *r, **k):
    px, pw, pb = P(x), P(w), None if b is None else P(b)
    if transposed:
        r = conv_transpose_nd(px, pw, pb, stride, pad, dil, groups, outpad)
    else:
        r = conv_nd(px, pw, pb, stride, pad, dil, groups)
    return mk(r, rt(x, w))


@op('im2col')
def _im2col(func, x, k, dil, pad, stride):
    p = P(x)
    xp = np.pad(p, [(0, 0), (0, 0), (pad[0], pad[0]), (pad[1], pad[1])],
                constant_values=Fraction(0))
    oh = (xp.shape[2] - dil[0] * (k[0] - 1) - 1) // stride[0] + 1
    ow = (xp.shape[3] - dil[1] * (k[1] - 1) - 1) // stride[1] + 1
    N, C = p.shape[:2]
    o = obj((N, C * k[0] * k[1], oh * ow))
    for n in range(N):
        for c in range(C):
            for i in range(k[0]):
                for j in range(k[1]):
                    for y in range(oh):
                        for xx in range(ow):
                            o[n, (c * k[0] + i) * k[1] + j, y * ow + xx] = xp[
                                n, c, y * stride[0] + i * dil[0],
                                xx * stride[1] + j * dil[1]]
    return mk(o, x.dtype)


# ---- normalisation
def _bn_stats(p):
    q = np.moveaxis(p, 1, 0).reshape(p.shape[1], -1)
    means, vars_ = [], []
    for c in range(q.shape[0]):
        xs = list(q[c])
        means.append(simp(T.div(T.addn(xs), len(xs)), som=True))
        vars_.append(simp(_varl(xs, 0), som=True))
    return means, vars_, q.shape[1]


def _bn(x, w, b, rm, rv, training, mom, eps):
    p = P(x)
    C = p.shape[1]
    for t in (w, b, rm, rv):
        if t is not None and P(t).shape != (C, ):
            raise RuntimeError(
                f'running_mean should contain {C} elements not {P(t).size}')
    if training:
        m, v, n = _bn_stats(p)
        if n <= 1:
            raise ValueError('Expected more than 1 value per channel when '
                             'training')
        if rm is not None:
            mo = lift(mom)
            nm, nv = obj(C), obj(C)
            for c in range(C):
                nm[c] = T.add(T.mul(1 - mo, P(rm)[c]), T.mul(mo, m[c]))
                nv[c] = T.add(T.mul(1 - mo, P(rv)[c]),
                              T.mul(mo * Fraction(n, n - 1), v[c]))
            write(rm, mk(nm, rm.dtype))
            write(rv, mk(nv, rv.dtype))
    else:
        m, v = list(P(rm)), list(P(rv))
    o = obj(p.shape)
    inv = [T.div(1, T.uf('sqrt', T.add(v[c], lift(eps)))) for c in range(C)]
    for ix in np.ndindex(*p.shape):
        c = ix[1]
        r = T.mul(T.sub(p[ix], m[c]), inv[c])
        if w is not None:
            r = T.mul(r, P(w)[c])
        if b is not None:
            r = T.add(r, P(b)[c])
        o[ix] = r
    mo_, io_ = obj(C), obj(C)
    for c in range(C):
        mo_[c], io_[c] = m[c], inv[c]
    if not training:
        mo_, io_ = obj(0), obj(0)
    return mk(cast(o, x.dtype), x.dtype), mk(mo_, x.dtype), mk(io_, x.dtype)


@op('native_batch_norm', 'cudnn_batch_norm', '_native_batch_norm_legit')
def _nbn(func, x, w, b, rm, rv=None, training=False, mom=0.1, eps=1e-5):
    if isinstance(rm, bool):
        return _bn(x, w, b, None, None, rm, rv, training)
    return _bn(x, w, b, rm, rv, training, mom, eps)


@op('native_layer_norm')
def _nln(func, x, shape, w, b, eps):
    p = P(x)
    k = len(shape)
    if tuple(p.shape[-k:]) != tuple(shape):
        raise RuntimeError(f'Given normalized_shape={list(shape)}, expected '
                           f'input with shape [*, {list(shape)}], but got '
                           f'input of size{list(p.shape)}')
    for t in (w, b):
        if t is not None and tuple(P(t).shape) != tuple(shape):
            raise RuntimeError('Expected weight to be of same shape as '
                               'normalized_shape')
    q = p.reshape(p.shape[:-k] + (-1, ))
    o = obj(q.shape)
    wl = list(P(w).reshape(-1)) if w is not None else None
    bl = list(P(b).reshape(-1)) if b is not None else None
    ms, rs = obj(q.shape[:-1]), obj(q.shape[:-1])
    for ix in np.ndindex(*q.shape[:-1]):
        xs = list(q[ix])
        m = simp(T.div(T.addn(xs), len(xs)), som=True)
        v = simp(_varl(xs, 0), som=True)
        inv = T.div(1, T.uf('sqrt', T.add(v, lift(eps))))
        ms[ix], rs[ix] = m, inv
        for c, xv in enumerate(xs):
            r = T.mul(T.sub(xv, m), inv)
            if wl:
                r = T.mul(r, wl[c])
            if bl:
                r = T.add(r, bl[c])
            o[ix + (c, )] = r
    return mk(o.reshape(p.shape), x.dtype), mk(ms, x.dtype), mk(rs, x.dtype)


@op('native_group_norm')
def _ngn(func, x, w, b, N, C, HxW, group, eps):
    p = P(x)
    q = p.reshape(N, group, -1)
    o = obj(q.shape)
    ms, rs = obj((N, group)), obj((N, group))
    for n in range(N):
        for g in range(group):
            xs = list(q[n, g])
            m = simp(T.div(T.addn(xs), len(xs)), som=True)
            v = simp(_varl(xs, 0), som=True)
            inv = T.div(1, T.uf('sqrt', T.add(v, lift(eps))))
            ms[n, g], rs[n, g] = m, inv
            for i, xv in enumerate(xs):
                o[n, g, i] = T.mul(T.sub(xv, m), inv)
    o = o.reshape(p.shape)
    for ix in np.ndindex(*p.shape):
        r = o[ix]
        if w is not None:
            r = T.mul(r, P(w)[ix[1]])
        if b is not None:
            r = T.add(r, P(b)[ix[1]])
        o[ix] = r
    return mk(o, x.dtype), mk(ms, x.dtype), mk(rs, x.dtype)


# ---- pooling / resize
def _pool_out(n, k, s, p, d=1, ceil=False):
    v = n + 2 * p - d * (k - 1) - 1
    o = (-(-v // s) if ceil else v // s) + 1
    if ceil and (o - 1) * s >= n + p:
        o -= 1
    return o


@op('avg_pool2d')
def _avgpool(func, x, k, stride=None, pad=(0, ), ceil=False, cip=True,
             div=None):
    p = P(x)
    sq = p.ndim == 3
    if sq:
        p = p[None]
    k = list(k) * (2 if len(k) == 1 else 1)
    s = list(stride or k)
    s = s * (2 if len(s) == 1 else 1)
    pad = list(pad or [0])
    pad = pad * (2 if len(pad) == 1 else 1)
    H_, W_ = p.shape[2:]
    oh, ow = (_pool_out(H_, k[0], s[0], pad[0], 1, ceil),
              _pool_out(W_, k[1], s[1], pad[1], 1, ceil))
    if oh <= 0 or ow <= 0:
        raise RuntimeError('Output size is too small')
    o = obj(p.shape[:2] + (oh, ow))
    for ix in np.ndindex(*o.shape):
        n, c, i, j = ix
        h0, w0 = i * s[0] - pad[0], j * s[1] - pad[1]
        h1, w1 = min(h0 + k[0], H_ + pad[0]), min(w0 + k[1], W_ + pad[1])
        size = (h1 - h0) * (w1 - w0)
        hs, ws, he, we = max(h0, 0), max(w0, 0), min(h1, H_), min(w1, W_)
        v = list(p[n, c, hs:he, ws:we].reshape(-1))
        dv = div or (size if cip else (he - hs) * (we - ws))
        o[ix] = T.div(T.addn(v), dv)
    return mk(o[0] if sq else o, x.dtype)


@op('max_pool2d_with_indices')
def _maxpool(func, x, k, stride=None, pad=(0, ), dil=(1, ), ceil=False):
    p = P(x)
    sq = p.ndim == 3
    if sq:
        p = p[None]
    two = lambda v: list(v) * (2 if len(v) == 1 else 1)
    k = two(k)
    s, pad, dil = two(stride or k), two(pad), two(dil)
    H_, W_ = p.shape[2:]
    oh = _pool_out(H_, k[0], s[0], pad[0], dil[0], ceil)
    ow = _pool_out(W_, k[1], s[1], pad[1], dil[1], ceil)
    if oh <= 0 or ow <= 0:
        raise RuntimeError('Output size is too small')
    o, idx = obj(p.shape[:2] + (oh, ow)), obj(p.shape[:2] + (oh, ow))
    for ix in np.ndindex(*o.shape):
        n, c, i, j = ix
        vals, pos = [], []
        for a in range(k[0]):
            for b in range(k[1]):
                y, xx = i * s[0] - pad[0] + a * dil[0], j * s[1] - pad[
                    1] + b * dil[1]
                if 0 <= y < H_ and 0 <= xx < W_:
                    vals.append(canon(p[n, c, y, xx]))
                    pos.append(y * W_ + xx)
        o[ix] = _maxl(vals)
        idx[ix] = pos[0]
    if sq:
        o, idx = o[0], idx[0]
    return mk(o, x.dtype), mk(idx, torch.int64)


@op('_adaptive_avg_pool2d', 'adaptive_avg_pool2d', 'adaptive_avg_pool1d',
    '_adaptive_avg_pool3d')
def _adavg(func, x, out):
    p = P(x)
    nd = len(out)
    sp = p.shape[-nd:]
    o = obj(p.shape[:-nd] + tuple(out))
    for ix in np.ndindex(*o.shape):
        sl = ix[:-nd] + tuple(
            slice((ix[-nd + d] * sp[d]) // out[d],
                  -(-((ix[-nd + d] + 1) * sp[d]) // out[d]))
            for d in range(nd))
        v = list(p[sl].reshape(-1))
        o[ix] = T.div(T.addn(v), len(v))
    return mk(o, x.dtype)


@op('adaptive_max_pool2d')
def _admax(func, x, out):
    p = P(x)
    sp = p.shape[-2:]
    o = obj(p.shape[:-2] + tuple(out))
    for ix in np.ndindex(*o.shape):
        sl = ix[:-2] + tuple(
            slice((ix[-2 + d] * sp[d]) // out[d],
                  -(-((ix[-2 + d] + 1) * sp[d]) // out[d])) for d in range(2))
        o[ix] = _maxl(list(p[sl].reshape(-1)))
    return mk(o, x.dtype), mk(full(o.shape, 0), torch.int64)


@op('upsample_nearest2d', 'upsample_nearest1d', '_upsample_nearest_exact2d')
def _upnear(func, x, size, *scales, **k):
    p = P(x)
    nd = p.ndim - 2
    sp = p.shape[2:]
    if size is None:
        sf = scales[0]
        size = [int(sp[i] * sf[i]) for i in range(nd)]
    exact = 'exact' in func._schema.name
    o = obj(p.shape[:2] + tuple(size))
    for ix in np.ndindex(*o.shape):
        src = tuple(min(int((ix[2 + d] + (0.5 if exact else 0)) *
                            (sp[d] / size[d])), sp[d] - 1) for d in range(nd))
        o[ix] = p[ix[:2] + src]
    return mk(o, x.dtype)


@op('upsample_bilinear2d')
def _upbil(func, x, size, align, *scales, **k):
    p = P(x)
    sp = p.shape[2:]
    if size is None:
        sf = scales[0]
        size = [int(sp[i] * sf[i]) for i in range(2)]
    o = obj(p.shape[:2] + tuple(size))

    def src(i, d):
        n, m = sp[d], size[d]
        if align:
            f = Fraction(i * (n - 1), m - 1) if m > 1 else Fraction(0)
        else:
            f = max(Fraction(2 * i + 1, 2) * Fraction(n, m) - Fraction(1, 2),
                    Fraction(0))
        lo = min(int(f), n - 1)
        hi = min(lo + 1, n - 1)
        return lo, hi, f - lo

    for ix in np.ndindex(*o.shape):
        n, c, i, j = ix
        y0, y1, fy = src(i, 0)
        x0, x1, fx = src(j, 1)
        o[ix] = T.addn([
            T.mul(p[n, c, y0, x0], (1 - fy) * (1 - fx)),
            T.mul(p[n, c, y0, x1], (1 - fy) * fx),
            T.mul(p[n, c, y1, x0], fy * (1 - fx)),
            T.mul(p[n, c, y1, x1], fy * fx)
        ])
    return mk(o, x.dtype)


@op('upsample_bicubic2d')
def _upbic(func, x, size, align, *scales, **k):
    """linear in x: probe the real operator with unit impulses."""
    p = P(x)
    sp = p.shape[2:]
    n = sp[0] * sp[1]
    with torch._C.DisableTorchFunction():
        e = torch.eye(n, dtype=torch.float64).reshape(n, 1, *sp)
        r = func(e, size, align, *scales, **k)
    M = r.reshape(n, -1).tolist()
    osz = tuple(r.shape[2:])
    o = obj(p.shape[:2] + (osz[0] * osz[1], ))
    for ix in np.ndindex(*p.shape[:2]):
        v = list(p[ix].reshape(-1))
        for j in range(o.shape[-1]):
            o[ix + (j, )] = T.dot(v, [lift(M[i][j]) for i in range(n)])
    return mk(o.reshape(p.shape[:2] + osz), x.dtype)


# ---- losses
def _red(p, red, dt):
    if red == 0:
        return mk(p, dt)
    s = T.addn(list(p.reshape(-1)))
    return mk(arr(T.div(s, p.size) if red == 1 else s), dt)


@op('mse_loss')
def _mse(func, a, b, red=1):
    d = ew(T.sub, P(a), P(b))
    return _red(ew(lambda x: T.mul(x, x), d), red, rt(a, b))


@op('smooth_l1_loss')
def _sl1(func, a, b, red=1, beta=1.0):
    d = ew(T.sub, P(a), P(b))
    bt = lift(beta)

    def f(x):
        ax = T.abs_(x)
        return T.ite(T.lt(ax, bt), T.mul(T.mul(x, x), Fraction(1, 2) / bt),
                     T.sub(ax, bt / 2)) if bt else ax

    return _red(ew(f, d), red, rt(a, b))


@op('nll_loss_forward', 'nll_loss2d_forward')
def _nll(func, x, t, w, red, ignore):
    p, tp = P(x), P(t)
    if p.ndim > 2:
        p = np.moveaxis(p, 1, -1)
        p = p.reshape(-1, p.shape[-1])
        tp0 = tp.shape
        tp = tp.reshape(-1)
    elif p.ndim == 1:
        p, tp = p[None], tp.reshape(1)
        tp0 = ()
    else:
        tp0 = tp.shape
    out, ws = [], []
    for i in range(p.shape[0]):
        ti = tp[i]
        wt = (sel_chain(list(P(w)), ti) if w is not None else Fraction(1))
        valid = T.ne(ti, ignore)
        idx = ti
        if conc(ti) and not (0 <= ti < p.shape[1]) and ti != ignore:
            raise IndexError(f'Target {ti} is out of bounds.')
        if conc(ti) and ti == ignore:
            out.append(Fraction(0))
            ws.append(Fraction(0))
            continue
        v = T.neg(T.mul(sel_chain(list(p[i]), idx), wt))
        out.append(T.ite(valid, v, Fraction(0)))
        ws.append(T.ite(valid, wt, Fraction(0)))
    tot = T.addn(ws)
    if red == 0:
        o = obj(len(out))
        for i, v in enumerate(out):
            o[i] = v
        return mk(o.reshape(tp0), x.dtype), mk(arr(tot), x.dtype)
    s = T.addn(out)
    if red == 1:
        s = T.div(s, tot)
    return mk(arr(s), x.dtype), mk(arr(tot), x.dtype)


@op('binary_cross_entropy')
def _bce(func, x, t, w=None, red=1):
    p = ew(lambda a, b: T.neg(T.add(T.mul(b, T.uf('log', a)), T.mul(
        T.sub(1, b), T.uf('log', T.sub(1, a))))), P(x), P(t))
    if w is not None:
        p = ew(T.mul, p, P(w))
    return _red(p, red, x.dtype)


# ---- misc
@op('_fused_moving_avg_obs_fq_helper', 'fused_moving_avg_obs_fake_quant')
def _fmo(func, *a, **k):
    raise Unsupported('fused_moving_avg_obs_fake_quant')


def _fq(x, s, zp, lo, hi):
    q = T.add(T.round_(canon(T.div(x, s))), zp)
    q = T.minimum(T.maximum(q, lo), hi)
    return T.mul(T.sub(q, zp), s), None


@op('fake_quantize_per_tensor_affine')
def _fqt(func, x, s, zp, lo, hi):
    ps, pz = P(s).reshape(-1)[0], P(zp).reshape(-1)[0]
    return mk(cast(ew(lambda v: _fq(v, ps, T.round_(pz), lo, hi)[0], P(x)),
                   x.dtype), x.dtype)


@op('fake_quantize_per_tensor_affine_cachemask')
def _fqtc(func, x, s, zp, lo, hi):
    return _fqt(func, x, s, zp, lo, hi), mk(full(x.shape, True), torch.bool)


@op('_fake_quantize_per_tensor_affine_cachemask_tensor_qparams')
def _fqtq(func, x, s, zp, en, lo, hi):
    e = P(en).reshape(-1)[0]
    on = e if conc(e) else cur().branch(T.ne(e, 0))
    if not on:
        return mk(P(x).copy(), x.dtype), mk(full(x.shape, True), torch.bool)
    return _fqt(func, x, s, zp, lo, hi), mk(full(x.shape, True), torch.bool)


@op('_fake_quantize_learnable_per_tensor_affine')
def _fqlt(func, x, s, zp, lo, hi, g=1.0):
    ps, pz = P(s).reshape(-1)[0], P(zp).reshape(-1)[0]
    zz = T.minimum(T.maximum(T.round_(pz), lo), hi)
    return mk(ew(lambda v: _fq(v, ps, zz, lo, hi)[0], P(x)), x.dtype)


def _fqch(x, s, zp, axis, lo, hi, clampz=False):
    p, ps, pz = P(x), P(s), P(zp)
    o = obj(p.shape)
    for ix in np.ndindex(*p.shape):
        c = ix[axis]
        zz = T.round_(pz[c])
        if clampz:
            zz = T.minimum(T.maximum(zz, lo), hi)
        o[ix] = _fq(p[ix], ps[c], zz, lo, hi)[0]
    return mk(cast(o, x.dtype), x.dtype)


@op('_fake_quantize_learnable_per_channel_affine')
def _fqlc(func, x, s, zp, axis, lo, hi, g=1.0):
    return _fqch(x, s, zp, axis, lo, hi, True)


@op('fake_quantize_per_channel_affine')
def _fqc(func, x, s, zp, axis, lo, hi):
    return _fqch(x, s, zp, axis, lo, hi)


@op('fake_quantize_per_channel_affine_cachemask')
def _fqcc(func, x, s, zp, axis, lo, hi):
    return _fqch(x, s, zp, axis, lo, hi), mk(full(x.shape, True), torch.bool)


@op('bincount')
def _bincount(func, a, w=None, minlength=0):
    ids = _concrete_idx(P(a))
    n = max([minlength] + [int(i) + 1 for i in ids])
    o = full((n, ), 0)
    for i, k in enumerate(ids):
        o[k] = T.add(o[k], 1 if w is None else P(w).reshape(-1)[i])
    return mk(o, torch.int64 if w is None else w.dtype)


@op('_unique2', 'unique_dim', '_unique')
def _unique2(func, a, sorted=True, return_inverse=False, return_counts=False):
    ids = [cur().concretise(v) for v in P(a).reshape(-1)]
    vals = __builtins__['sorted'](set(ids)) if isinstance(
        __builtins__, dict) else __import__('builtins').sorted(set(ids))
    o = obj(len(vals))
    for i, v in enumerate(vals):
        o[i] = v
    inv = obj(len(ids))
    for i, v in enumerate(ids):
        inv[i] = vals.index(v)
    cnt = obj(len(vals))
    for i, v in enumerate(vals):
        cnt[i] = ids.count(v)
    return (mk(o, a.dtype), mk(inv.reshape(P(a).shape), torch.int64),
            mk(cnt, torch.int64))


@op('count_nonzero')
def _cnz(func, a, dim=None):
    return mk(reduce(ew(lambda x: T.num(T.truth(x)), P(a)), T.addn, dim,
                     False), torch.int64)


@op('trace')
def _trace(func, a):
    return mk(arr(T.addn(list(P(a).diagonal()))), a.dtype)


@op('sym_size', 'size')
def _size(func, a, d=None):
    return list(a.shape) if d is None else a.shape[d]


@op('_cdist_forward')
def _cdist(func, a, b, p, mode=None):
    pa, pb = P(a), P(b)
    o = obj(pa.shape[:-1] + (pb.shape[-2], ))
    for ix in np.ndindex(*pa.shape[:-1]):
        for j in range(pb.shape[-2]):
            d = [T.sub(x, y) for x, y in zip(pa[ix], pb[ix[:-1] + (j, )])]
            o[ix + (j, )] = _norml(d, p)
    return mk(o, rt(a, b))


@op('record_stream', '_assert_async', '_record_function_enter_new',
    '_record_function_exit')
def _noop(func, *a, **k):
    return None


# ---------------------------------------------------------------- helpers
def sym_like(t, name, session, lo=None, hi=None):
    return session.tensor(name, tuple(t.shape), lo, hi, dtype=t.dtype)


def symbolize(module, session, prefix='', buffers=True, skip=(), nonneg=(
        'running_var', ), concrete=False):
    """replace parameters (and float buffers) of a module by symbolic ones.

    In replay mode the same names are filled from the counterexample."""
    seen = {}
    for mname, m in module.named_modules():
        for coll, isparam in ((m._parameters, True), (m._buffers, False)):
            if not isparam and not buffers:
                continue
            for k, t in list(coll.items()):
                if t is None or id(t) in seen:
                    if t is not None:
                        coll[k] = seen[id(t)]
                    continue
                full_name = f'{prefix}{mname}.{k}' if mname else f'{prefix}{k}'
                if any(s in full_name for s in skip):
                    new = _keep(t)
                elif not t.dtype.is_floating_point:
                    new = _keep(t)
                else:
                    lo = 0 if any(k.endswith(n) for n in nonneg) else None
                    new = session.tensor(full_name, tuple(t.shape), lo,
                                         dtype=t.dtype)
                if isparam:
                    rg = t.requires_grad
                    with torch._C.DisableTorchFunction():
                        new = torch.nn.Parameter(new, requires_grad=rg)
                seen[id(t)] = new
                coll[k] = new
    return module


def _keep(t):
    if isinstance(t, SymTensor):
        return t
    s = cur(optional=True)
    if s is not None and s.sym:
        return SymTensor.make(payload_plain(t), t.dtype)
    return t


def to_sym(t):
    return _keep(t)
