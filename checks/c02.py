"""C02: searchable normalisation == ordinary normalisation on the selection."""
import copy

import torch
import torch.nn.functional as F
from torch import nn

from mmrazor.models.architectures.dynamic_ops import (DMCPBatchNorm2d,
                                                      DynamicBatchNorm1d,
                                                      DynamicBatchNorm2d,
                                                      DynamicBatchNorm3d,
                                                      DynamicLayerNorm,
                                                      SwitchableBatchNorm2d)
from mmrazor.models.architectures.dynamic_ops.bricks.dynamic_norm import \
    DynamicBatchNormXd
from mmrazor.models.mutables import (SimpleMutableChannel,
                                     SquentialMutableChannel)

from .common import (Task, kept, mask, picks, raises, same_state, snapshot,
                     symbolize)

INFO = dict(
    bounds='1-4 channels with every mask (or every prefix), two or three '
    'forward steps mixing training, evaluation and changes of the mask, '
    'inputs of 2-4 values per channel in 2-5 dimensions, momentum 0.1, 0.5, '
    '1 and cumulative, affine and running statistics on and off; inputs, '
    'parameters and statistics are arbitrary reals (variances >= 0)',
    outside='larger inputs, the synchronised batch norm (needs a GPU), '
    'half precision; sqrt is an uninterpreted function applied to equal '
    'arguments on both sides')

CLS = dict(bn1=DynamicBatchNorm1d, bn2=DynamicBatchNorm2d,
           bn3=DynamicBatchNorm3d, bnx=DynamicBatchNormXd,
           dmcp=DMCPBatchNorm2d, switch=SwitchableBatchNorm2d)
STATIC = dict(bn1=nn.BatchNorm1d, bn2=nn.BatchNorm2d, bn3=nn.BatchNorm3d,
              bnx=nn.BatchNorm2d, dmcp=nn.BatchNorm2d, switch=nn.BatchNorm2d)


def _mutable(n, seq):
    return SquentialMutableChannel(n) if seq else SimpleMutableChannel(n)


def _select(S, m, n, name, seq):
    if seq:
        k = S.pick(name, range(1, n + 1))
        bits = [i < k for i in range(n)]
        m.current_choice = k
    else:
        bits = picks(S, name, n)
        m.current_choice = mask(bits)
    return kept(bits)


def _shape(kind, c):
    return {'bn1': (3, c), 'bn2': (1, c, 2, 1), 'bn3': (1, c, 2, 1, 1),
            'bnx': (2, c, 1, 1), 'dmcp': (2, c, 1, 1),
            'switch': (2, c, 1, 1)}[kind]


def _plain(kind, op, idx, affine, track):
    """an ordinary layer holding the selected channels"""
    st = STATIC[kind](len(idx), op.eps, op.momentum, affine, track)
    if affine:
        st.weight = nn.Parameter(op.weight.detach()[idx])
        st.bias = nn.Parameter(op.bias.detach()[idx])
    if track:
        st.running_mean = op.running_mean.detach()[idx]
        st.running_var = op.running_var.detach()[idx]
        st.num_batches_tracked = op.num_batches_tracked.clone()
    return st.train(op.training)


def batch(S, kind, n, steps, momentum=0.1, affine=True, track=True,
          seq=False, registered=True, dims=None):
    op = CLS[kind](n, eps=0.01, momentum=momentum, affine=affine,
                   track_running_stats=track)
    m = None
    if registered:
        m = _mutable(n, seq)
        op.register_mutable_attr('num_features', m)
    symbolize(op, S, skip=('mutable_attrs', ))
    for t in range(steps):
        idx = list(range(n))
        if m is not None:
            idx = _select(S, m, n, f'm{t}_', seq)
        op.train(S.flag(f'train{t}'))
        ref = _plain(kind, op, idx, affine, track)
        before = snapshot(op)
        shape = dims or _shape(kind, len(idx))
        x = S.tensor(f'x{t}', tuple(len(idx) if v == 'c' else v
                                    for v in shape))
        y = op(x)
        S.eq(y, ref(x), 'searchable vs ordinary normalisation')
        if track:
            S.eq(op.running_mean[idx], ref.running_mean, 'running mean')
            S.eq(op.running_var[idx], ref.running_var, 'running variance')
            S.eq(op.num_batches_tracked, ref.num_batches_tracked,
                 'number of batches')
            rest = [i for i in range(n) if i not in idx]
            S.eq(op.running_mean[rest], before['running_mean'][rest],
                 'statistics of unselected channels')
            S.eq(op.running_var[rest], before['running_var'][rest],
                 'statistics of unselected channels')
            if not op.training:
                same_state(S, op, before, 'evaluation changes nothing')
        if affine:
            S.eq(op.weight, before['weight'], 'weight')
            S.eq(op.bias, before['bias'], 'bias')
    # ---- export
    op.eval()
    if m is not None:
        m.fix_chosen(m.current_choice)
    before = snapshot(op)
    st = op.to_static_op()
    S.check(not hasattr(st, 'mutable_attrs'), 'exported layer is static')
    S.check((st.num_features, st.eps, st.momentum, st.affine,
             st.track_running_stats) ==
            (len(idx), op.eps, op.momentum, affine, track),
            'exported settings')
    st.eval()
    S.eq(st(x), op(x), 'exported normalisation')
    if affine:
        S.eq(st.weight, op.weight[idx], 'exported weight')
        S.eq(st.bias, op.bias[idx], 'exported bias')
    if track:
        # training the export must not leak into the searchable layer
        st.train()
        x2 = S.tensor('x_export', x.shape)
        y2 = st(x2)
        ref = _plain(kind, op, idx, affine, track).train()
        if momentum is not None:
            S.eq(y2, ref(x2), 'exported layer in training')
            S.eq(st.running_mean, ref.running_mean, 'exported mean')
            S.eq(st.running_var, ref.running_var, 'exported variance')
    same_state(S, op, before, 'export leaves the searchable layer')


def unfixed(S, kind, n):
    op = CLS[kind](n) if kind != 'ln' else DynamicLayerNorm(n)
    m = SquentialMutableChannel(n)
    op.register_mutable_attr('num_features', m)
    if S.flag('fixed'):
        m.fix_chosen(S.pick('c', range(1, n + 1)))
        op.to_static_op()
        S.check(True, 'export')
    else:
        S.check(raises(S, op.to_static_op, 'export only once fixed',
                       RuntimeError), 'export only once fixed')


def wrong_mask(S, kind):
    n = S.pick('n', [1, 2, 3, 4])
    op = CLS[kind](3) if kind != 'ln' else DynamicLayerNorm(3)
    m = SquentialMutableChannel(n)
    attr = S.pick('attr', ['num_features', 'in_channels', 'out_channels'])
    try:
        op.register_mutable_attr(attr, m)
        ok = True
    except ValueError:
        ok = False
    S.check(ok == (n == 3), 'width of the mask')
    S.check(('num_features' in op.mutable_attrs) == ok, 'registered')


def layer(S, n, affine=True, bias=True, seq=False, registered=True, steps=2,
          eps=0.01):
    op = DynamicLayerNorm(n, eps=eps, elementwise_affine=affine)
    if affine and not bias:
        op.register_parameter('bias', None)
    m = None
    if registered:
        m = _mutable(n, seq)
        op.register_mutable_attr('num_features', m)
    symbolize(op, S, skip=('mutable_attrs', ))
    for t in range(steps):
        idx = list(range(n))
        if m is not None:
            idx = _select(S, m, n, f'm{t}_', seq)
        op.train(S.flag(f'train{t}'))
        before = snapshot(op)
        x = S.tensor(f'x{t}', (1, 2, len(idx)))
        w = op.weight[idx] if affine else None
        b = op.bias[idx] if affine and bias else None
        want = F.layer_norm(x, (len(idx), ), w, b, eps)
        S.eq(op(x), want, 'searchable vs ordinary layer norm')
        same_state(S, op, before, 'layer norm keeps its state')
    if m is not None:
        m.fix_chosen(m.current_choice)
    st = op.to_static_op()
    S.check(tuple(st.normalized_shape) == (len(idx), ), 'exported shape')
    S.check(st.eps == eps and st.elementwise_affine == affine,
            'exported settings')
    S.check((st.bias is not None) == (affine and bias), 'exported bias')
    S.eq(st(x), want, 'exported layer norm')
    same_state(S, op, before, 'export leaves the searchable layer')
    S.eq(op(x), want, 'searchable layer norm after export')


def switchable(S, n, cands, steps, momentum=0.1, affine=True):
    """a width has its own statistics and parameters"""
    op = SwitchableBatchNorm2d(n, eps=0.01, momentum=momentum, affine=affine)
    op.init_candidates(list(cands))
    m = SquentialMutableChannel(n)
    op.register_mutable_attr('num_features', m)
    symbolize(op, S, skip=('mutable_attrs', ))
    widths = sorted(set(cands) | {n})
    ref = {}
    for w in widths:
        src = op if w == n else op.candidate_bn[str(w)]
        r = nn.BatchNorm2d(w, 0.01, momentum, affine)
        S.check((src.weight is None) == (not affine), 'affine per width')
        if affine:
            r.weight = nn.Parameter(src.weight.detach().clone())
            r.bias = nn.Parameter(src.bias.detach().clone())
        r.running_mean = src.running_mean.detach().clone()
        r.running_var = src.running_var.detach().clone()
        ref[w] = r
    for t in range(steps):
        w = S.pick(f'w{t}', widths)
        train = S.flag(f'train{t}')
        m.current_choice = w
        op.train(train)
        ref[w].train(train)
        x = S.tensor(f'x{t}', (2, w, 1, 1))
        S.eq(op(x), ref[w](x), 'switchable norm vs a norm per width')
        for v in widths:
            src = op if v == n else op.candidate_bn[str(v)]
            S.eq(src.running_mean, ref[v].running_mean, 'mean per width')
            S.eq(src.running_var, ref[v].running_var, 'variance per width')
    m.fix_chosen(w)
    op.eval()
    ref[w].eval()
    st = op.to_static_op().eval()
    S.check(st.num_features == w and type(st) is nn.BatchNorm2d, 'export')
    S.eq(st(x), ref[w](x), 'exported switchable norm')


def bad_candidates(S, n):
    op = SwitchableBatchNorm2d(n)
    c = S.int('c', -2, n + 2)
    ok = 0 < c and c <= n
    try:
        op.init_candidates([int(c)])
        S.check(ok, 'a candidate within the width')
    except AssertionError:
        S.check(not ok, 'legal candidates are accepted')


def progressive(S, groups, size, low):
    """differentiable channel scaling: group g of the channels above the
    minimum is weighted by exp(-(a_0 + .. + a_g)) of the clamped params"""
    n = low + groups * size
    op = DMCPBatchNorm2d(n, eps=0.01)
    m = SquentialMutableChannel(n)
    op.register_mutable_attr('num_features', m)
    symbolize(op, S, skip=('mutable_attrs', ))
    k = S.pick('k', range(groups + 1))
    m.current_choice = low + k * size
    a = S.tensor('a', (groups, ))
    op.eval()
    x = S.tensor('x', (1, low + k * size, 1, 1))
    plain = op(x)
    op.set_forward_args(arch_param=a, arch_attr=(size, groups, low))
    y = op(x)
    want = []
    p = 1
    for i in range(low + k * size):
        if i >= low and (i - low) % size == 0:
            p = p * torch.exp(-torch.clamp(a[(i - low) // size], min=0))
        want.append(plain[0, i, 0, 0] * p)
    S.eq(y[0, :, 0, 0], torch.stack(want), 'progressive channel weights')


def tasks(tier):
    T = []
    n = 3 if tier == 'quick' else 4
    ax = dict(cost=3)
    for kind in CLS:
        if kind == 'switch':
            continue
        T.append(Task(f'{kind}', batch, dict(kind=kind, n=n, steps=1), ax))
        T.append(Task(f'{kind}-steps', batch,
                      dict(kind=kind, n=2, steps=2, seq=True,
                           momentum=0.5), ax))
        T.append(Task(f'{kind}-free', batch,
                      dict(kind=kind, n=2, steps=2, registered=False)))
        T.append(Task(f'{kind}-cumulative', batch,
                      dict(kind=kind, n=2, steps=3 if tier != 'quick' else 2,
                           momentum=None), ax))
        T.append(Task(f'{kind}-replace', batch,
                      dict(kind=kind, n=2, steps=1, momentum=1.0)))
        T.append(Task(f'{kind}-nostat', batch,
                      dict(kind=kind, n=3, steps=1, track=False)))
        T.append(Task(f'{kind}-noaffine', batch,
                      dict(kind=kind, n=2, steps=2, affine=False), ax))
        T.append(Task(f'{kind}-unfixed', unfixed, dict(kind=kind, n=3)))
        T.append(Task(f'{kind}-wrong', wrong_mask, dict(kind=kind)))
    T.append(Task('bn1-3d', batch, dict(kind='bn1', n=3, steps=1,
                                        dims=(2, 'c', 2))))
    T.append(Task('bare-bn', batch, dict(kind='bn2', n=2, steps=2,
                                         affine=False, track=False,
                                         registered=False)))
    for aff, b in ((True, True), (True, False), (False, True)):
        T.append(Task(f'ln-free-{aff}-{b}', layer,
                      dict(n=3, affine=aff, bias=b, registered=False)))
    for b in (True, False):
        for seq in (False, True):
            T.append(Task(f'ln-{b}-{seq}', layer,
                          dict(n=n, bias=b, seq=seq), ax))
    T.append(Task('ln-unfixed', unfixed, dict(kind='ln', n=3)))
    T.append(Task('ln-wrong', wrong_mask, dict(kind='ln')))
    T.append(Task('switchable', switchable, dict(
        n=3, cands=(1, 2), steps=2 if tier == 'quick' else 3)))
    for mom, aff in ((0.5, True), (None, True), (0.3, False)):
        T.append(Task(f'switchable-{mom}-{aff}', switchable, dict(
            n=2, cands=(1, ), steps=2, momentum=mom, affine=aff)))
    T.append(Task('switchable-full', switchable, dict(
        n=2, cands=(1, 2), steps=2)))
    T.append(Task('switch-candidates', bad_candidates, dict(n=3)))
    for g, s, lo in ((2, 1, 1), (2, 2, 1), (3, 1, 2)):
        T.append(Task(f'progressive-{g}-{s}-{lo}', progressive,
                      dict(groups=g, size=s, low=lo),
                      dict(axioms=('exp_mono', ))))
    return T
