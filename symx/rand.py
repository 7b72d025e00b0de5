"""Nondeterministic stubs for the process-wide random sources.

They work identically in symbolic mode (fresh symbols) and in replay mode
(values of the counterexample)."""
import random

import numpy as np
import torch
from torch.utils._python_dispatch import TorchDispatchMode


def install(S):
    """replace random.* and np.random.* draws by session draws."""

    S.draws = []

    def _random():
        S.draws.append(S.real(S.fresh_name('random'), 0, 1, hi_open=True))
        return S.draws[-1]

    def _uniform(a, b):
        return a + (b - a) * _random()

    def _index(n, what='index'):
        if n <= 0:
            raise IndexError('Cannot choose from an empty sequence')
        if n == 1:
            return 0
        return S.concretise_int(S.int(S.fresh_name(what), 0, n - 1))

    def _choice(seq):
        return seq[_index(len(seq), 'choice')]

    def _randint(a, b):
        return S.int(S.fresh_name('randint'), a, b)

    def _randrange(a, b=None, step=1):
        if b is None:
            a, b = 0, a
        n = len(range(a, b, step))
        return a + step * _index(n, 'randrange')

    def _sample(pop, k, **kw):
        pop = list(pop)
        if k > len(pop) or k < 0:
            raise ValueError('Sample larger than population or is negative')
        out = []
        for _ in range(k):
            out.append(pop.pop(_index(len(pop), 'sample')))
        return out

    def _shuffle(x):
        x[:] = _sample(list(x), len(x))

    def _choices(pop, weights=None, *, cum_weights=None, k=1):
        out = []
        for _ in range(k):
            i = _index(len(pop), 'choices')
            if weights is not None:
                S.assume(weights[i] > 0)
            out.append(pop[i])
        return out

    for n, f in dict(random=_random, uniform=_uniform, choice=_choice,
                     randint=_randint, randrange=_randrange, sample=_sample,
                     shuffle=_shuffle, choices=_choices).items():
        S.patch(random, n, f)

    def _many(shape, one):
        n = 1
        for d in shape:
            n *= int(d)
        vals = [one() for _ in range(n)]
        if not S.sym:
            return np.array(vals, dtype=float).reshape(shape)
        out = np.empty(n, dtype=object)
        for i, v in enumerate(vals):
            out[i] = v
        return out.reshape(shape)

    def np_rand(*shape, size=None):
        shape = shape or (size, )
        if not shape or shape == (None, ):
            return _random()
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        return _many(shape, _random)

    def np_choice(a, size=None, replace=True, p=None):
        pop = list(range(int(a))) if not hasattr(a, '__len__') else list(a)

        def one(pop, p):
            i = _index(len(pop), 'npchoice')
            if p is not None:
                S.assume(p[i] > 0)
            return i

        if size is None:
            return pop[one(pop, p)]
        n = int(size) if not isinstance(size, tuple) else int(np.prod(size))
        if not replace and n > len(pop):
            raise ValueError("Cannot take a larger sample than population "
                             "when 'replace=False'")
        out = []
        pp = list(p) if p is not None else None
        for _ in range(n):
            i = one(pop, pp)
            out.append(pop[i])
            if not replace:
                pop = pop[:i] + pop[i + 1:]
                if pp is not None:
                    pp = pp[:i] + pp[i + 1:]
        return np.array(out)

    def np_randint(lo, hi=None, size=None, **kw):
        if hi is None:
            lo, hi = 0, lo
        if size is not None:
            return np.array([S.concretise_int(_randint(lo, hi - 1))
                             for _ in range(int(size))])
        return _randint(lo, hi - 1)

    def np_uniform(a=0.0, b=1.0, size=None):
        if size is not None:
            size = size if isinstance(size, (tuple, list)) else (size, )
            return _many(tuple(size), lambda: _uniform(a, b))
        return _uniform(a, b)

    def np_shuffle(x):
        x[:] = [x[i] for i in _sample(range(len(x)), len(x))]

    def np_permutation(x):
        pop = list(range(x)) if isinstance(x, int) else list(x)
        return np.array(_sample(pop, len(pop)))

    for n, f in dict(rand=np_rand, random=np_rand, random_sample=np_rand,
                     choice=np_choice, randint=np_randint, uniform=np_uniform,
                     shuffle=np_shuffle, permutation=np_permutation).items():
        S.patch(np.random, n, f)


class ReplayMode(TorchDispatchMode):
    """torch random operators answer with the counterexample's draws."""

    def __init__(self, S):
        super().__init__()
        self.S = S

    def _draw(self, shape, kind, dtype, default=0.25):
        base = self.S.fresh_name(kind)
        n = 1
        for d in shape:
            n *= d
        v = [float(self.S._val(f'{base}[{i}]', default)) for i in range(n)]
        return torch.tensor(v, dtype=torch.float64).reshape(
            tuple(shape)).to(dtype)

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        name = func._schema.name.split('::')[1]
        dt = kwargs.get('dtype') or torch.get_default_dtype()
        a0 = args[0] if args else None
        if isinstance(a0, torch.Tensor):
            dt = kwargs.get('dtype') or a0.dtype
        shp = a0.shape if isinstance(a0, torch.Tensor) else a0
        if name in ('rand', 'rand_like'):
            return self._draw(shp, 'rand', dt)
        if name in ('randn', 'randn_like'):
            return self._draw(shp, 'randn', dt)
        if name in ('randint', 'randint_like'):
            shape = shp if isinstance(a0, torch.Tensor) else args[-1]
            return self._draw(shape, 'randint',
                              kwargs.get('dtype') or torch.int64)
        if name == 'random_':
            return a0.copy_(self._draw(a0.shape, 'randint', dt))
        if name == 'exponential_':
            return a0.copy_(self._draw(a0.shape, 'expo', dt))
        if name in ('bernoulli_', 'bernoulli'):
            q = self._draw(a0.shape, 'rand', torch.float64)
            pr = a0 if name == 'bernoulli' else (args[1] if len(args) > 1 else
                                                 0.5)
            r = (q < pr).to(a0.dtype)
            return a0.copy_(r) if name.endswith('_') else r
        if name == 'randperm':
            left = list(range(a0))
            base = self.S.fresh_name('perm')
            out = [left.pop(int(self.S._val(f'{base}[{i}]', 0)))
                   for i in range(a0)]
            return torch.tensor(out, dtype=torch.int64)
        if name == 'multinomial':
            base = self.S.fresh_name('multinomial')
            rows = a0.reshape(-1, a0.shape[-1]).shape[0]
            out = [[int(self.S._val(f'{base}[{r},{i}]', 0))
                    for i in range(args[1])] for r in range(rows)]
            return torch.tensor(out).reshape(a0.shape[:-1] + (args[1], ))
        if name == 'native_dropout':
            train = args[2]
            if not train or args[1] == 0:
                return a0.clone(), torch.ones_like(a0, dtype=torch.bool)
            q = self._draw(a0.shape, 'drop', torch.float64)
            m = q >= args[1]
            return a0 * m / (1 - args[1]), m
        return func(*args, **kwargs)
