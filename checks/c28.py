"""C28: post-training weight quantisation (GPTQ)."""
import numpy as np
import torch
from torch import nn

from mmrazor.implementations.quantization.gptq import (GPTQCompressor,
                                                       GPTQLinear, Quantizer)
from mmrazor.implementations.quantization.gptq import gptq
from mmrazor.implementations.quantization.gptq.ops import (GPTQConv2d,
                                                           TritonGPTQLinear)

from symx.tensor import symbolize

from .c29 import CONVS, accumulate, conv, lin
from .c29 import DATA as COMMON
from .common import Np, Task
from .obs import compensated

INFO = dict(
    bounds='every weight of layers of 1 or 2 outputs and up to 4 inputs with '
    'every zero point, 1 to 4 bits, 4 fixed sets of statistics, blocks of 1 '
    'to 4 columns, groups of 1, 2 and all columns, both orders; parameters '
    'for every row of up to 3 weights; packed layers of 32 by 32 in which 2 '
    'codes and zero points are arbitrary; every input of up to 3 samples for '
    'the accumulation of statistics',
    outside='the triton kernels (no GPU, no triton), grouped convolutions, '
    'rounding of floats, several processes')


def params(S, rows, cols, sym, per, free, weight=True):
    """the parameters cover the range, values are half a step away at most"""
    bits = S.pick('bits', [2, 3, 4] if free is None else [1, 2])
    q = Quantizer()
    q.configure(bits, perchannel=per, sym=sym)
    S.check(not q.ready(), 'not before parameters are found')
    w = S.tensor('w', (rows, cols), -8, 8)
    if free is None:
        # the ends of the range are fixed, everything between is arbitrary
        lo, hi = S.pick('ends', [(-1., 3.), (-2., .5), (1., 3.), (-3., -1.),
                                 (0., 2.), (0., 0.), (-1., 1.)])
        for r in range(rows):
            w[r, 0], w[r, 1] = lo, hi
            for c in range(2, cols):
                S.assume(w[r, c].item() >= lo)
                S.assume(w[r, c].item() <= hi)
    x = w if weight else w.t()
    keep = w.clone()
    q.find_params(x, weight=weight)
    S.eq(w, keep, 'the weights stay')
    S.check(bool(q.ready()), 'ready')
    n = rows
    S.check(tuple(q.scale.shape) == ((n, 1) if weight else (1, n)) and
            q.zero.shape == q.scale.shape, 'one per output')
    y = q.quantize(x)
    if not weight:
        y = y.t()
    top = 2**bits - 1
    for r in range(n):
        s, z = q.scale.reshape(-1)[r], q.zero.reshape(-1)[r]
        S.check(s > 0, 'scales are positive')
        S.check((z >= 0) & (z <= top + 1) & ((z - z.round()).abs() < 1e-6),
                'the zero point is a level')
        if not per and r:
            S.eq(s, q.scale.reshape(-1)[0], 'one scale for all')
        for c in range(cols):
            k = y[r, c] / s + z
            S.check((k - k.round()).abs() <= 1e-3, 'on the grid')
            S.check((k >= -1e-3) & (k <= top + 1e-3), 'of the levels')
            S.check((y[r, c] - w[r, c]).abs() <= s / 2 + 1e-3,
                    'within half a step')
    again = q.quantize(y if weight else y.t())
    S.eq(again if weight else again.t(), y, 'a second time changes nothing')


# an order of columns that is not its own inverse
DATA = dict(COMMON, cycle=[[1., 3, 2, 1], [0, 3, -2, 1], [0, -1, 3, 2],
                           [-1, 2, 1, 1], [0, 1, 2, -1]])


class Packed(GPTQLinear):
    """what a layer with a kernel of its own packs"""

    @property
    def is_custom_kernel(self):
        return True

    def pack(self, scales, zeros, g_idx=None):
        self.packed = (scales, zeros, g_idx, self.weight.detach().clone())


class Fixed(Quantizer):
    """reports given parameters, one after the other"""

    def __init__(self, scales, zeros, log):
        super().__init__()
        self.given, self.log = list(zip(scales, zeros)), log

    def find_params(self, x, weight=False):
        # the first time is for the whole layer
        s, z = self.given[max(0, len(self.log) - (len(self.given) > 1))]
        self.log.append((x.clone(), weight))
        self.scale, self.zero = s, z


def layer(S, rows, cols, cls=GPTQLinear):
    op = cls(in_features=cols, out_features=rows, bias=False)
    w = S.tensor('w', (rows, cols), -4, 4)
    op.weight = nn.Parameter(w.clone(), requires_grad=False)
    return op, w


def stats(op, data, cols):
    op.init_hessian()
    x = torch.tensor(DATA[data])[:, :cols]
    op.update_hessian(x[None])
    return 2 * (x.T @ x).numpy().astype(np.float64)


def quant(S, rows, cols, data, bits, group, order, block):
    """every weight takes the level nearest to what compensation made of it"""
    op, w = layer(S, rows, cols, GPTQLinear if group == -1 else Packed)
    h = stats(op, data, cols)
    block = S.pick('block', block)
    top = 2**bits - 1
    n = 1 if group == -1 else -(-cols // group)
    scales = [torch.tensor([[[.5, .7, 1., .3][(r + g) % 4]]
                            for r in range(rows)]) for g in range(n)]
    zeros = [torch.tensor([[float(S.pick(f'z{r}{g}', [0, top // 2 + 1]))]
                           for r in range(rows)]) for g in range(n)]
    log = []
    q = Fixed(scales, zeros, log)
    q.configure(bits, perchannel=True, sym=False)
    op.quant(q, blocksize=block, percdamp=0.01, groupsize=group,
             actorder=order)
    y = op.weight.detach() if group == -1 else op.packed[3]
    perm = list(range(cols))
    if order:
        d = [h[i, i] if h[i, i] else 1. for i in range(cols)]
        perm = sorted(perm, key=lambda i: -d[i])
    if group != -1:
        log = log[1:] if n > 1 or len(log) > 1 else log
    S.check(len(log) == n, 'parameters once per group')
    for g, (x, weight) in enumerate(log):
        S.check(weight, 'of the weights')
        S.check(tuple(x.shape) == (rows, cols if group == -1 else
                                   min(group, cols - g * group)), 'group')
    if group != -1:
        s, z, idx, _ = op.packed
        S.check(idx.shape == (cols, ), 'every column has a group')
        S.check(all(int(idx[j]) == at // group
                    for at, j in enumerate(perm)), 'group of a column')
        S.eq(s, torch.cat(scales, 1), 'packed scales')
        S.eq(z, torch.cat(zeros, 1), 'packed zero points')
    dead = [j for j in range(cols) if h[j, j] == 0]
    for r in range(rows):
        start = [torch.zeros(()) if j in dead else w[r, j]
                 for j in range(cols)]
        got, _ = compensated(start, [y[r, j] for j in range(cols)], h, 0.01,
                             perm)
        for at, j in enumerate(perm):
            g = 0 if group == -1 else at // group
            s, z = float(scales[g][r, 0]), float(zeros[g][r, 0])
            k = y[r, j] / s + z
            S.check((k - k.round()).abs() <= 1e-3, 'on the grid')
            S.check((k >= -1e-3) & (k <= top + 1e-3), 'of the levels')
            goal = got[j] / s + z
            S.check((goal < 0) | (goal > top) | ((k - goal).abs() <= .501),
                    'within half a step of the compensated weight')
            S.check((goal >= 0) | (k <= 1e-3), 'the least level below')
            S.check((goal <= top) | (k >= top - 1e-3), 'the greatest above')


def own(S, data, sym, group, order):
    """with its own parameters: on the grid of its group"""
    cols = 4
    op = GPTQLinear(in_features=cols, out_features=1, bias=False)
    w = S.tensor('w', (1, cols), -4, 4)
    lo, hi = S.pick('ends', [(-1., 2.), (.5, 3.), (-2., -1.)])
    w[0, 1], w[0, 3] = lo, hi
    S.assume(w[0, 0].item() >= lo)
    S.assume(w[0, 0].item() <= hi)
    w[0, 2] = (lo + hi) / 2 + .1
    op.weight = nn.Parameter(w.clone(), requires_grad=False)
    h = stats(op, data, cols)
    seen = []

    class Spy(Quantizer):

        def find_params(self, x, weight=False):
            super().find_params(x, weight=weight)
            seen.append((self.scale.clone(), self.zero.clone(), x.clone()))

    q = Spy()
    q.configure(2, perchannel=True, sym=sym)
    op.quant(q, blocksize=S.pick('block', [2, 128]), groupsize=group,
             actorder=order)
    y = op.weight.detach()
    perm = list(range(cols))
    if order:
        perm = sorted(perm, key=lambda i: -h[i, i])
    S.eq(seen[0][2], w, 'parameters of the original weights')
    if group != -1:
        seen = seen[1:]
    S.check(len(seen) == (1 if group == -1 else cols // group), 'groups')
    for at, j in enumerate(perm):
        s, z, _ = seen[0 if group == -1 else at // group]
        k = y[0, j] / s[0, 0] + z[0, 0]
        S.check((k - k.round()).abs() <= 1e-3, 'on the grid of the group')
        S.check((k >= -1e-3) & (k <= 3 + 1e-3), 'of the levels')


def whole(S):
    """a model is quantised layer by layer, on a machine without GPU"""
    torch.manual_seed(0)
    m = nn.Sequential(nn.Linear(4, 2), nn.ReLU(), nn.Linear(2, 2))
    w0, w2 = [m[i].weight.detach().clone() for i in (0, 2)]
    symbolize(m, S, 'm.')
    with torch.no_grad():
        m[0].weight.copy_(w0)
        m[2].weight.copy_(w2)
        v = S.tensor('v', (1, ), -1, 1)
        m[0].weight[0, 0] = v[0]
    bias = m[0].bias.detach().clone()
    probe = S.tensor('probe', (1, 4))
    before = m(probe)
    skip = S.pick('skip', [[], ['0'], ['2']])
    c = GPTQCompressor()
    c.prepare(m, use_triton_ops=False, skipped_layers=skip)
    S.eq(m(probe), before, 'preparing changes nothing')
    S.check([n for n, _ in c.named_quant_ops] ==
            [n for n in ('0', '2') if n not in skip], 'layers')
    c.init_hessian('cpu')
    c.register_hessian_hooks()
    for op in c.quant_ops:
        op.remove_hessian_hook()
        x = torch.tensor(DATA['corr'])[:, :op.columns]
        op.update_hessian(x[None])
    S.patch(torch.cuda, 'empty_cache', lambda: None)
    c.quant_with_default_qconfig(groupsize=-1, device='cpu')
    for n, op in c.named_quant_ops:
        S.check(op._hessian is None, 'the layer was quantised')
        w = op.weight.detach()
        o = w0 if n == '0' else w2
        if n == '2':
            S.check(bool((w - o).abs().max() < 0.5), 'close')
            levels = {round(float(v), 5) for v in w.reshape(-1)}
            S.check(len(levels) <= 16 * 2, 'levels')
    S.eq(m[0].bias, bias, 'biases stay')
    if '0' in skip:
        S.eq(m[0].weight[0, 0], v[0], 'skipped layers stay')
    s = c.to_static_model(m)
    S.check(type(s[0]) is nn.Linear and type(s[2]) is nn.Linear, 'static')


def pack(S, bits, groups, order):
    """unpacking gives the codes that were packed"""
    n, top = 32, 2**bits - 1
    S.patch(gptq, 'np', Np(np))
    S.patch(torch, 'from_numpy', lambda a: torch.tensor(a.tolist()))
    m = nn.Linear(n, n, bias=True)
    op = TritonGPTQLinear.convert_from(m, bits, n // groups)
    codes = torch.tensor([[(5 * o + 3 * i) % (top + 1) for i in range(n)]
                          for o in range(n)]).float()
    zeros = torch.tensor([[(o + 2 * g) % (top + 1) for g in range(groups)]
                          for o in range(n)]).float()
    if order:
        idx = torch.tensor([(i * 7) % groups for i in range(n)],
                           dtype=torch.int32)
    else:
        idx = torch.tensor([i // (n // groups) for i in range(n)],
                           dtype=torch.int32)
    scales = torch.tensor([[[.5, .25, 1., 2.][(o + g) % 4]
                            for g in range(groups)] for o in range(n)])
    # arbitrary codes and zero points, some in the same word
    free = S.tensor('code', (6, ), 0, top, dtype=torch.int32).float()
    freez = S.tensor('zero', (4, ), 0, top, dtype=torch.int32).float()
    codes = codes + free[:1] * 0
    zeros = zeros + freez[:1] * 0
    for k, (o, i) in enumerate([(0, 0), (0, 1), (1, 0), (5, 3), (31, 31),
                                (31, 30)]):
        codes[o, i] = free[k]
    for k, (o, g) in enumerate([(0, 0), (1, 0), (31, groups - 1),
                                (30, groups - 1)]):
        zeros[o, g] = freez[k]
    full_s = scales[:, idx.long()]
    full_z = zeros[:, idx.long()]
    op.weight = nn.Parameter((codes - full_z) * full_s, requires_grad=False)
    op.pack(scales.clone(), zeros.clone(), idx)
    per = 32 // bits
    S.check(tuple(op.qweight.shape) == (n // per, n), 'packed weights')
    S.check(tuple(op.qzeros.shape) == (groups, n // per), 'packed zeros')
    for k, (t, want) in enumerate([(op.qweight, codes.t()),
                                   (op.qzeros.t(), zeros)]):
        back = []
        for i in range(n):
            word = t[i // per]
            # what a kernel reads: bits of the word as an unsigned number
            v = torch.div(word, 2**(bits * (i % per)),
                          rounding_mode='floor') % 2**bits
            back.append((v + k) % 2**bits)
        got = torch.stack(back)
        S.eq(got if k == 0 else got, want if k == 0 else want,
             ['codes', 'zero points'][k])
    S.eq(op.scales.t().float(), scales, 'scales')
    S.check(bool((op.g_idx == idx).all()), 'groups')


OPT = F32 = dict(random=False, tol=1e-3, dtype='float32')


def tasks(tier):
    T = []
    deep = tier != 'quick'
    for sym in (True, False):
        tag = 'sym' if sym else 'asym'
        T.append(Task(f'params-{tag}', params, dict(
            rows=1, cols=3, sym=sym, per=True, free=None), OPT))
        T.append(Task(f'params-{tag}-acts', params, dict(
            rows=2, cols=3, sym=sym, per=True, free=None, weight=False), OPT))
        T.append(Task(f'params-{tag}-tensor', params, dict(
            rows=2, cols=2, sym=sym, per=False, free=None), OPT))
        T.append(Task(f'params-{tag}-free', params, dict(
            rows=1, cols=2, sym=sym, per=True, free=True), OPT))
        for order in (False, True):
            for g in (-1, 2) if sym or order else (2, ):
                T.append(Task(
                    f'own-{tag}-{"act" if order else "seq"}-{g}', own, dict(
                        data='plain', sym=sym, group=g, order=order), OPT))
    for d in DATA:
        for order in (False, True):
            for g in (-1, 2, 1) if deep else (-1, 2):
                T.append(Task(
                    f'quant-{d}-{"act" if order else "seq"}-{g}', quant, dict(
                        rows=1, cols=3, data=d, bits=2, group=g, order=order,
                        block=[1, 2, 3, 128]), OPT))
    T.append(Task('quant-rows', quant, dict(
        rows=2, cols=2, data='corr', bits=3, group=1, order=True,
        block=[1, 128]), OPT))
    T.append(Task('stats-linear', accumulate, dict(
        kind='linear', make=lin(GPTQLinear), shape=(2, 3), n=3, ch=3), OPT))
    for tag, kw, shape in CONVS:
        T.append(Task(f'stats-conv-{tag}', accumulate, dict(
            kind='conv', make=conv(GPTQConv2d, **kw), shape=shape, n=2,
            ch=1), OPT))
    T.append(Task('model', whole, {}, OPT))
    for b in (2, 4, 8):
        for g, o in ((1, False), (2, False), (4, True)) if deep else \
                {2: [(1, False)], 4: [(4, True)], 8: [(2, False)]}[b]:
            T.append(Task(f'pack-{b}-{g}{"o" if o else ""}', pack, dict(
                bits=b, groups=g, order=o), F32))
    return T
