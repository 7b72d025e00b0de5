"""C29: one-shot pruning (SparseGPT)."""
import numpy as np
import torch
from torch import nn

from mmrazor.implementations.pruning.sparse_gpt import (SparseGptCompressor,
                                                        SparseGptLinear)
from mmrazor.implementations.pruning.sparse_gpt.ops import SparseGptConv2d
from mmrazor.implementations.pruning.sparse_gpt.sparse24_utils import \
    is_weight_sparse_24

from symx.tensor import symbolize

from .common import Task
from .obs import compensated, inverse

INFO = dict(
    bounds='every weight of layers of 1 or 2 outputs and up to 8 inputs, '
    'statistics of 3 fixed input sets (correlated, with dead inputs, '
    'diagonal), patterns 1:2, 2:4 and 1:4 and ratios 0 to 1, blocks of 2, 4 '
    'and 8 columns; every input of up to 4 samples for the accumulation of '
    'statistics, every split of them; linear and convolution layers',
    outside='grouped convolutions, patterns that do not divide the block or '
    'the number of inputs, equally salient weights (either may go), GPUs and '
    'several processes, rounding of floats')

DATA = dict(
    corr=[[1., 2, 0, 1, 3, 1, 0, 2], [2, 1, 1, 0, 1, 2, 1, 0],
          [0, 1, 2, 2, 0, 1, 3, 1], [1, 0, 1, 1, 2, 0, 1, 2],
          [1, 1, 0, 2, 1, 0, 1, 1], [0, 2, 1, 0, 0, 3, 1, 1],
          [3, 0, 1, 1, 1, 1, 0, 0], [1, 1, 2, 0, 2, 1, 1, 3],
          [0, 0, 1, 1, 1, 2, 2, 1]],
    dead=[[1., 0, 2, 1, 0, 1, 2, 1], [0, 0, 1, 3, 0, 1, 1, 0],
          [2, 0, 0, 1, 0, 2, 1, 1], [1, 0, 1, 0, 0, 0, 2, 3]],
    plain=[[float(i == j) * (i % 3 + 1) for i in range(8)] for j in range(8)])


def layer(S, rows, cols, kind='linear'):
    if kind == 'linear':
        lin = nn.Linear(cols, rows, bias=False)
        op = SparseGptLinear(in_features=cols, out_features=rows, bias=False)
        op.load_state_dict(lin.state_dict(), strict=False)
    w = S.tensor('w', (rows, cols), -4, 4)
    op.weight = nn.Parameter(w.clone(), requires_grad=False)
    return op, w


def stats(op, data, cols):
    op.init_hessian()
    x = torch.tensor(DATA[data])[:, :cols]
    op.register_hessian_hook()
    with torch.no_grad():
        op._forward_pre_hooks  # noqa: B018
        op.update_hessian(x[None])
    op.remove_hessian_hook()
    return 2 * np.array(DATA[data])[:, :cols].T @ np.array(
        DATA[data])[:, :cols]


def verify(S, w, q, h, percdamp, tell):
    """q is w with some weights zeroed and the later ones compensated; calls
    tell(row, weights at their turn, diagonal, pruned)"""
    dead = [j for j in range(len(h)) if h[j, j] == 0]
    for r in range(len(w)):
        start = [0. if j in dead else w[r, j] for j in range(len(h))]
        got, diag = compensated(start, [q[r, j] for j in range(len(h))], h,
                                percdamp)
        gone = {}
        for j in range(len(h)):
            gone[j] = bool(q[r, j] == 0)
            if not gone[j]:
                S.check((q[r, j] - got[j]).abs() <= 1e-3,
                        'what stays is compensated exactly from what is gone')
        tell(r, got, diag, gone)


def pattern(S, n, m, cols, rows, data, block):
    """n of every m inputs go, the least salient ones"""
    op, w = layer(S, rows, cols)
    h = stats(op, data, cols)
    damp = 0.01
    bias = None
    op.prune(0.5, prunen=n, prunem=m, blocksize=block, percdamp=damp)
    q = op.weight.detach()
    S.check(q.shape == w.shape, 'shape')
    dead = [j for j in range(cols) if h[j, j] == 0]

    def tell(r, got, diag, gone):
        for g in range(0, cols, m):
            group = range(g, g + m)
            zeros = sum(gone[j] for j in group)
            idle = [j for j in group if j in dead]
            S.check(zeros >= n, 'enough are zero in every group')
            live = [j for j in group if j not in dead]
            # a weight may be zero before
            extra = [j for j in live if gone[j]]
            if zeros > n and len(extra) > max(0, n - len(idle)):
                S.check(or_all([as_t(got[j]).abs() <= 1e-5 for j in extra]),
                        'no more than configured')
            del idle
        # saliency of a group as it was at its turn
        inv = inverse(h, damp)
        for g in range(0, cols, m):
            cur = {j: value_at(w, q, h, damp, r, g, j) for j in
                   range(g, g + m)}
            u = upper(inv)
            sal = {j: cur[j] * cur[j] / float(u[j, j]**2) for j in cur}
            for a in cur:
                for b in cur:
                    if gone[a] and not gone[b]:
                        # or compensation happened to make it zero
                        S.check((sal[a] <= sal[b] * 1.001 + 1e-3) |
                                (as_t(got[a]).abs() <= 1e-3),
                                'the least salient go')

    verify(S, w, q, h, damp, tell)
    if (n, m) == (2, 4):
        S.check(is_weight_sparse_24(op.weight), 'told as 2:4')
    del bias


def or_all(cs):
    r = cs[0]
    for c in cs[1:]:
        r = r | c
    return r


def upper(inv):
    """inv = u^T u: the diagonal is what is left of the inverse when the
    inputs before were eliminated"""
    return np.linalg.cholesky(inv).T


def value_at(w, q, h, damp, r, g, j):
    """weight j of row r once everything before g was fixed"""
    inv = inverse(h, damp)
    cur = [0. if h[k, k] == 0 else w[r, k] for k in range(len(h))]
    for i in range(g):
        for k in range(i + 1, len(h)):
            cur[k] = cur[k] - (cur[i] - q[r, i]) * float(
                inv[i, k] / inv[i, i])
        inv = inv - np.outer(inv[:, i], inv[i, :]) / inv[i, i]
    return cur[j]


def share(S, rows, cols, data, block):
    """an unstructured ratio prunes its share of every block"""
    op, w = layer(S, rows, cols)
    h = stats(op, data, cols)
    damp = 0.01
    ratio = S.pick('ratio', [0., 0.25, 0.5, 0.75, 1.])
    op.prune(ratio, blocksize=block, percdamp=damp)
    q = op.weight.detach()
    inv = inverse(h, damp)
    u = upper(inv)
    table = {}

    turn = {}

    def tell(r, got, diag, gone):
        for j in gone:
            table[r, j], turn[r, j] = gone[j], got[j]

    verify(S, w, q, h, damp, tell)
    for g in range(0, cols, block):
        at = [(r, j) for r in range(rows)
              for j in range(g, min(g + block, cols))]
        want = int(len(at) * ratio)
        val = {(r, j): value_at(w, q, h, damp, r, g, j) for r, j in at}
        sal = {a: val[a] * val[a] / float(u[a[1], a[1]]**2) for a in at}
        gone = [a for a in at if table[a]]
        stay = [a for a in at if not table[a]]
        S.check(len(gone) >= want, 'no less than the share')
        if len(gone) > want and S_apart(S, sal, [turn[a] for a in gone]):
            # unless saliencies agree or weights are zero anyway
            S.check(False, 'no more than the share')
        for a in gone:
            for b in stay:
                S.check((sal[a] <= sal[b] * 1.001 + 1e-3) |
                        (as_t(turn[a]).abs() <= 1e-3),
                        'the least salient go')


def as_t(v):
    return torch.as_tensor(v)


def S_apart(S, sal, turn):
    v = list(sal.values())
    ok = True
    for t in turn:
        ok = ok & (as_t(t).abs() > 1e-3)
    for i, a in enumerate(v):
        ok = ok & (a > 1e-3)
        for b in v[:i]:
            ok = ok & ((a - b).abs() > (a + b) * 0.001)
    return bool(ok)


def accumulate(S, kind, make, shape, n, ch):
    """statistics do not depend on how the calibration set is split"""
    whole, parts = make(), make()
    x = S.tensor('x', (n, ) + shape)
    whole.init_hessian()
    whole.update_hessian(x)
    parts.init_hessian()
    parts.register_hessian_hook()
    cuts = [S.flag(f'cut{i}') for i in range(n - 1)]
    at = [0] + [i + 1 for i in range(n - 1) if cuts[i]] + [n]
    for a, b in zip(at, at[1:]):
        parts(x[a:b])
    parts.remove_hessian_hook()
    parts(x[:1])
    S.eq(parts.hessian, whole.hessian, 'the same statistics')
    # against the definition
    rows = inputs_of(whole, x, kind)
    c = rows.shape[1]
    S.check(tuple(whole.hessian.shape) == (c, c), 'one for every input')
    want = torch.zeros(c, c)
    for i in range(c):
        for j in range(c):
            S.eq(whole.hessian[i, j],
                 2 * sum(rows[k, i] * rows[k, j] for k in range(len(rows)))
                 / n, 'products of the inputs that meet the weights')
    del want, ch


def inputs_of(op, x, kind):
    """rows of inputs such that the output is row times weight"""
    if kind == 'linear':
        return x.reshape(-1, x.shape[-1])
    rows = []
    k, s, p, d = op.kernel_size, op.stride, op.padding, op.dilation
    n, c, hh, ww = x.shape
    for b in range(n):
        oh = (hh + 2 * p[0] - d[0] * (k[0] - 1) - 1) // s[0] + 1
        ow = (ww + 2 * p[1] - d[1] * (k[1] - 1) - 1) // s[1] + 1
        for i in range(oh):
            for j in range(ow):
                row = []
                for ci in range(c):
                    for a in range(k[0]):
                        for e in range(k[1]):
                            y = i * s[0] - p[0] + a * d[0]
                            z = j * s[1] - p[1] + e * d[1]
                            inside = 0 <= y < hh and 0 <= z < ww
                            row.append(x[b, ci, y, z] if inside else
                                       torch.zeros(()))
                rows.append(torch.stack(row))
    return torch.stack(rows)


def conv(cls, **kw):
    def make():
        m = nn.Conv2d(**kw)
        return cls.convert_from(m)
    return make


def lin(cls, n=3, out=4):
    return lambda: cls.convert_from(nn.Linear(n, out))


class Net(nn.Module):

    def __init__(self):
        super().__init__()
        self.a = nn.Linear(4, 4)
        self.b = nn.Sequential(nn.ReLU(), nn.Linear(4, 4, bias=False))

    def forward(self, x):
        return self.b(self.a(x))


def compressor(S):
    """a whole model: only weights change, every layer gets its pattern"""
    torch.manual_seed(0)
    m = Net()
    wide = m.a.weight.detach().clone()
    symbolize(m, S, 'm.')
    for layer in (m.a, m.b[1]):
        # every weight of the first two inputs of the first output
        for i in range(4):
            for j in range(4):
                if i or j > 1:
                    layer.weight.data[i, j] = float(wide[i, j])
    keep = {k: v.detach().clone() for k, v in m.state_dict().items()}
    x = torch.tensor(DATA['corr'])[:, :4]
    probe = S.tensor('probe', (1, 4))
    before = m(probe)
    c = SparseGptCompressor()
    c.prepare(m)
    S.check(len(list(c.sparse_ops)) == 2, 'every layer is prepared')
    S.eq(m(probe), before, 'preparing changes nothing')
    c.init_hessian('cpu')
    for op in c.sparse_ops:
        op._hessian.copy_(2 * x.T @ x / len(x))
    skip = S.pick('only', [0, 1, 2])
    if skip < 2:
        list(c.sparse_ops)[skip]._hessian[0, 0] = -1
    c.prune(0.5, prunen=1, prunem=2, device=torch.device('cpu'))
    for i, (name, op) in enumerate(c.named_sparse_ops):
        w = op.weight.detach()
        S.check(op.bias is None or bool(op.bias is not None), 'bias')
        if i == skip:
            continue
        for r in range(4):
            for g in (0, 2):
                S.check(bool((w[r, g:g + 2] == 0).any()), 'pattern')
    for k, v in m.state_dict().items():
        if 'bias' in k:
            S.eq(v, keep[k], 'biases stay')
    s = c.to_static_model(m)
    S.check(type(s.a) is nn.Linear and type(s.b[1]) is nn.Linear, 'static')


OPT = dict(random=False, tol=1e-3, dtype="float32")


def tasks(tier):
    T = []
    deep = tier != 'quick'
    sets = list(DATA)
    for d in sets:
        T.append(Task(f'pattern-1:2-{d}', pattern, dict(
            n=1, m=2, cols=4, rows=1, data=d, block=128), OPT))
        T.append(Task(f'pattern-2:4-{d}', pattern, dict(
            n=2, m=4, cols=4, rows=1, data=d, block=4), OPT))
        T.append(Task(f'share-{d}', share, dict(
            rows=1, cols=4, data=d, block=128), OPT))
        if deep or d == 'plain':
            T.append(Task(f'share-blocks-{d}', share, dict(
                rows=1, cols=4, data=d, block=2), OPT))
    T.append(Task('pattern-1:2-blocks', pattern, dict(
        n=1, m=2, cols=4, rows=1, data='corr', block=2), OPT))
    T.append(Task('pattern-1:4', pattern, dict(
        n=1, m=4, cols=4, rows=1, data='corr', block=8), OPT))
    T.append(Task('pattern-1:2-rows', pattern, dict(
        n=1, m=2, cols=2, rows=2, data='corr', block=8), OPT))
    T.append(Task('share-rows', share, dict(
        rows=2, cols=2, data='corr', block=8), OPT))
    if deep:
        T.append(Task('pattern-2:4-two', pattern, dict(
            n=2, m=4, cols=8, rows=1, data='corr', block=4), OPT))
    T.append(Task('stats-linear', accumulate, dict(
        kind='linear', make=lin(SparseGptLinear), shape=(2, 3), n=3, ch=3),
        OPT))
    for tag, kw, shape in CONVS:
        T.append(Task(f'stats-conv-{tag}', accumulate, dict(
            kind='conv', make=conv(SparseGptConv2d, **kw), shape=shape, n=2,
            ch=1), OPT))
    T.append(Task('compressor', compressor, {}, OPT))
    return T


CONVS = [
    ('plain', dict(in_channels=2, out_channels=1, kernel_size=2), (2, 3, 3)),
    ('stride', dict(in_channels=1, out_channels=2, kernel_size=(2, 1),
                    stride=(1, 2), padding=(1, 0)), (1, 2, 4)),
    ('dilation', dict(in_channels=1, out_channels=1, kernel_size=2,
                      dilation=2), (1, 4, 3)),
]
