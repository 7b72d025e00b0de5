"""C19: batch norm calibration stores the average over calibration data."""
from types import SimpleNamespace

import torch
from torch import nn

from mmrazor.engine.runner.utils import CalibrateBNMixin
from mmrazor.models.architectures.dynamic_ops import (DynamicBatchNorm1d,
                                                      DynamicBatchNorm2d,
                                                      SwitchableBatchNorm2d)
from mmrazor.models.mutables import (OneShotMutableOP,
                                     SimpleMutableChannel,
                                     SquentialMutableChannel)

from .c09 import cfgs
from .c16 import Logger
from .common import Task, kept, mask, picks, symbolize

INFO = dict(
    bounds='batches of 1..3 samples of 1..3 channels and up to 2 positions, '
    'up to 3 batches, every requested number of samples up to more than '
    'available; batches as tensors or dictionaries with tensor or list '
    'inputs; plain, searchable and switchable norms of one to three '
    'dimensions, every channel mask; norms that do not run or do not track '
    'statistics; pixel values are arbitrary reals',
    outside='distributed calibration; half precision; batches of a single '
    'value per channel (their variance is undefined)')


class Loop(CalibrateBNMixin):

    def __init__(self, model):
        self.runner = SimpleNamespace(model=model, logger=Logger())


class Probe(nn.Module):
    """remembers what reaches a norm"""

    def __init__(self, bn, sel=None):
        super().__init__()
        self.bn, self.sel, self.seen = bn, sel, []

    def forward(self, x):
        if self.sel is not None:
            x = x[:, self.sel]
        self.seen.append(x.detach().clone())
        return self.bn(x)


class Model(nn.Module):

    def __init__(self, *mods):
        super().__init__()
        self.mods = nn.ModuleList(mods)
        self.scale = nn.Parameter(torch.ones(1))
        self.got = []
        self.modes = []

    def forward(self, x):
        for m in self.mods:
            m(x)
        return x

    def test_step(self, data):
        x = data
        if isinstance(data, dict):
            x = data['inputs']
            if isinstance(x, (list, tuple)):
                x = torch.stack(list(x))
            if len(data['data_samples']) != len(x):
                raise AssertionError('inputs and samples of a batch')
        self.got.append(x)
        self.modes.append((self.training, torch.is_grad_enabled()))
        return self(x * self.scale)


def expected(seen):
    """sample weighted average of batch means and unbiased variances"""
    n = sum(len(x) for x in seen)
    mean = var = 0
    for x in seen:
        rows = x.transpose(0, 1).reshape(x.shape[1], -1)
        k = rows.shape[1]
        m = rows.sum(1) / k
        v = ((rows - m[:, None]) ** 2).sum(1) / (k - 1)
        mean = mean + m * len(x) / n
        var = var + v * len(x) / n
    return mean, var


def batches(S, form, sizes, shape):
    out, every = [], []
    for i, n in enumerate(sizes):
        x = S.tensor(f'x{i}', (n, ) + shape)
        every.append(x)
        if form == 'tensor':
            out.append(x)
        elif form == 'dict':
            out.append(dict(inputs=x, data_samples=[0] * n))
        else:
            out.append(dict(inputs=[x[j] for j in range(n)],
                            data_samples=[0] * n))
    return out, every


def run(S, model, data, num):
    before = {}
    for n, t in list(model.named_parameters()) + list(model.named_buffers()):
        before[n] = t.detach().clone()
    hooks = {n: (len(m._forward_hooks), len(m._forward_pre_hooks))
             for n, m in model.named_modules()}
    attrs = {n: set(vars(m)) for n, m in model.named_modules()}
    Loop(model).calibrate_bn_statistics(data, num)
    for n, m in model.named_modules():
        S.check(hooks[n] == (len(m._forward_hooks),
                             len(m._forward_pre_hooks)), 'no hook is left')
        S.check(set(vars(m)) == attrs[n], 'no attribute is left')
    for n, p in model.named_parameters():
        S.eq(p.detach(), before[n], f'parameter {n}')
        S.check(p.grad is None, 'no gradient')
    S.check(all(t and not g for t, g in model.modes),
            'runs in training mode without gradients')
    return before


def count(S, form, sizes):
    """exactly the requested samples, in order"""
    bn = Probe(nn.BatchNorm2d(1))
    model = Model(bn)
    data, every = batches(S, form, sizes, (1, 1, 2))
    num = S.pick('num', range(1, sum(sizes) + 2))
    run(S, model, data, num)
    want = torch.cat(every)[:num]
    got = torch.cat(model.got)
    S.check(len(got) == len(want), 'number of samples')
    S.eq(got, want, 'the first samples')
    m, v = expected(bn.seen)
    S.eq(bn.bn.running_mean, m, 'running mean')
    S.eq(bn.bn.running_var, v, 'running variance')


DIMS = {1: (nn.BatchNorm1d, ()), 2: (nn.BatchNorm2d, (1, 2)),
        3: (nn.BatchNorm3d, (1, 1, 2)), '1s': (nn.BatchNorm1d, (2, ))}


def plain(S, dims, sizes):
    cls, tail = DIMS[dims]
    bn = Probe(cls(2, momentum=S.pick('momentum', [0.1, None])))
    none = Probe(cls(2, track_running_stats=False))
    model = Model(bn, none)
    symbolize(model, S)
    data, _ = batches(S, 'tensor', sizes, (2, ) + tail)
    run(S, model, data, sum(sizes))
    m, v = expected(bn.seen)
    S.eq(bn.bn.running_mean, m, 'running mean')
    S.eq(bn.bn.running_var, v, 'running variance')
    S.check(none.bn.running_mean is None, 'statistics are not tracked')


def searchable(S, cls, n, twice):
    """only the selected channels"""
    ch = SimpleMutableChannel(n)
    bn = cls(n, affine=S.pick('affine', [True, False]))
    bn.register_mutable_attr('num_features', ch)
    bits = picks(S, 'm', n)
    ch.current_choice = mask(bits)
    p = Probe(bn, kept(bits))
    model = Model(p)
    symbolize(model, S, skip=('mutable', 'mask'))
    tail = (1, 2) if cls is not DynamicBatchNorm1d else ()
    data, _ = batches(S, 'dict', (2, 2), (n, ) + tail)
    before = run(S, model, data, 3 if tail else 4)
    m, v = expected(p.seen)
    sel = kept(bits)
    rest = [i for i in range(n) if i not in sel]
    old = {k.split('.')[-1]: t for k, t in before.items()}
    S.eq(bn.running_mean[sel], m, 'selected mean')
    S.eq(bn.running_var[sel], v, 'selected variance')
    S.eq(bn.running_mean[rest], old['running_mean'][rest], 'other mean')
    S.eq(bn.running_var[rest], old['running_var'][rest], 'other variance')
    if twice:
        # calibrating again does not depend on the first time
        p.seen.clear()
        bits2 = picks(S, 'again', n)
        ch.current_choice = mask(bits2)
        p.sel = kept(bits2)
        data, _ = batches_again(S, n, tail)
        run(S, model, data, 2)
        m, v = expected(p.seen)
        S.eq(bn.running_mean[kept(bits2)], m, 'selected mean again')
        S.eq(bn.running_var[kept(bits2)], v, 'selected variance again')


def batches_again(S, n, tail):
    x = S.tensor('y', (2, n) + tail)
    return [x], [x]


def switchable(S):
    """the statistics of the width in use, no other ones"""
    ch = SquentialMutableChannel(3)
    bn = SwitchableBatchNorm2d(3)
    bn.init_candidates([1, 2])
    bn.register_mutable_attr('num_features', ch)
    w = S.pick('width', [1, 2, 3])
    ch.current_choice = w
    p = Probe(bn, list(range(w)))
    model = Model(p)
    symbolize(model, S, skip=('mutable', 'mask'))
    data, _ = batches(S, 'tensor', (2, 1), (3, 1, 2))
    before = run(S, model, data, 3)
    m, v = expected(p.seen)
    used = bn if w == 3 else bn.candidate_bn[str(w)]
    S.eq(used.running_mean, m, 'mean of the width in use')
    S.eq(used.running_var, v, 'variance of the width in use')
    now = dict(model.named_buffers())
    for c in (1, 2, 3):
        if c != w:
            pre = 'mods.0.bn.' + (f'candidate_bn.{c}.' if c < 3 else '')
            for k in ('running_mean', 'running_var'):
                S.eq(now[pre + k], before[pre + k],
                     f'statistics of another width: {k}')


def chosen(S):
    """norms of operations that are not chosen keep their statistics"""
    op = OneShotMutableOP(cfgs(2))
    bns = nn.ModuleDict()
    for k in list(op._candidates):
        op._candidates[k] = bns[k] = nn.BatchNorm2d(1)
    op.current_choice = S.pick('choice', op.choices)
    p = Probe(op)
    model = Model(p)
    symbolize(model, S)
    data, _ = batches(S, 'tensor', (2, 2), (1, 1, 1))
    before = run(S, model, data, S.pick('num', [2, 4]))
    m, v = expected(p.seen)
    for k, b in bns.items():
        pre = f'mods.0.bn._candidates.{k}.'
        if k == op.current_choice:
            S.eq(b.running_mean, m, 'mean of the chosen one')
            S.eq(b.running_var, v, 'variance of the chosen one')
        else:
            S.eq(b.running_mean, before[pre + 'running_mean'], 'other mean')
            S.eq(b.running_var, before[pre + 'running_var'], 'other variance')


def shared(S):
    """a norm that runs several times averages over all of them"""
    bn = nn.BatchNorm2d(1)
    p = Probe(bn)

    class Two(nn.Module):

        def __init__(self):
            super().__init__()
            self.p = p

        def forward(self, x):
            return self.p(self.p(x) + x)

    model = Model(Two())
    data, _ = batches(S, 'tensor', (2, ), (1, 1, 1))
    run(S, model, data, 2)
    m, v = expected(p.seen)
    S.eq(bn.running_mean, m, 'running mean')
    S.eq(bn.running_var, v, 'running variance')


def tasks(tier):
    deep = tier == 'thorough'
    out = []
    for form in ('tensor', 'dict', 'list'):
        for sizes in [(1, ), (2, 1), (1, 3), (2, 2, 1)] + (
                [(3, 3, 2), (4, 1, 1)] if deep else []):
            out.append(Task(f'count-{form}-{"-".join(map(str, sizes))}',
                            count, dict(form=form, sizes=sizes)))
    for d in DIMS:
        out.append(Task(f'plain-{d}', plain, dict(
            dims=d, sizes=(2, 3) if d == 1 else (1, 2))))
    for cls, n, twice in [(DynamicBatchNorm2d, 2, True),
                          (DynamicBatchNorm2d, 3, False),
                          (DynamicBatchNorm1d, 2, False)] + (
                              [(DynamicBatchNorm2d, 3, True)]
                              if deep else []):
        out.append(Task(f'searchable-{cls.__name__}-{n}-{twice}', searchable,
                        dict(cls=cls, n=n, twice=twice)))
    out += [Task('switchable', switchable), Task('chosen', chosen),
            Task('shared', shared)]
    return out
