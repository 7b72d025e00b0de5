"""Shared helpers for the harnesses."""
import contextlib
import sys

import torch
from torch import nn

from symx.engine import Task
from symx.tensor import SymArray, symbolize, to_sym


def task_list(*groups):
    out = []
    for g in groups:
        out.extend(g)
    return out


def picks(S, name, n, least=1):
    """a symbolic selection of positions: python bools, all explored."""
    bits = [S.flag(f'{name}{i}') for i in range(n)]
    if sum(bits) < least:
        S.assume(False)
    return bits


def kept(bits):
    return [i for i, b in enumerate(bits) if b]


def mask(bits):
    return torch.tensor(bits, dtype=torch.bool)


def take(t, idx, dim=0):
    return t[idx] if dim == 0 else t[:, idx]


def snapshot(module):
    """parameters and buffers as raw clones keyed by name"""
    out = {}
    for n, p in list(module.named_parameters()) + list(
            module.named_buffers()):
        out[n] = p.detach().clone()
    return out


def same_state(S, module, snap, msg, skip=()):
    now = snapshot(module)
    S.check(set(now) == set(snap), f'{msg}: names of state')
    for n in snap:
        if n in now and not any(s in n for s in skip):
            S.eq(now[n], snap[n], f'{msg}: {n}')


@contextlib.contextmanager
def quiet():
    yield


class Fails(Exception):
    pass


def raises(S, fn, msg, exc=Exception):
    try:
        fn()
    except exc:
        S.check(True, msg)
        return True
    S.check(False, msg)
    return False


def plain_copy(x):
    """a deep copy of objects that hold ordinary tensors only"""
    import copy

    from torch.utils._python_dispatch import _disable_current_modes
    with torch._C.DisableTorchFunction(), _disable_current_modes():
        return copy.deepcopy(x)


class Np:
    """numpy whose arrays can hold symbolic values"""

    def __init__(self, np):
        self._np = np

    def __getattr__(self, name):
        return getattr(self._np, name)

    def zeros(self, shape, dtype=float):
        a = self._np.empty(shape, dtype=object)
        a.fill(0)
        return a.view(SymArray)

    def asarray(self, a, dtype=None, **k):
        if isinstance(a, SymArray):
            return a if dtype is None else a.astype(dtype)
        return self._np.asarray(a, dtype=dtype, **k)

    def array(self, a, dtype=None, **k):
        r = self.asarray(a, dtype, **k)
        return r.copy() if r is a else r

    def round(self, a, *r, **k):
        if not isinstance(a, SymArray) or a.dtype != object:
            return self._np.round(a, *r, **k)
        o = a.copy()
        for i in self._np.ndindex(*a.shape):
            o[i] = round(a[i])
        return o

    def clip(self, a, a_min=None, a_max=None):
        if not isinstance(a, SymArray) or a.dtype != object:
            return self._np.clip(a, a_min, a_max)
        o = a.copy()
        for i in self._np.ndindex(*a.shape):
            v = a[i]
            v = a_min if a_min is not None and v < a_min else v
            v = a_max if a_max is not None and v > a_max else v
            o[i] = v
        return o
