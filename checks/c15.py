"""C15: constraint checks accept exactly the sub-networks within budget."""
from types import SimpleNamespace

import torch
from torch import nn

from mmrazor.engine.runner.utils import check_subnet_resources
from mmrazor.models.architectures.dynamic_ops import (DynamicConv2d,
                                                      DynamicMixin)
from mmrazor.models.mutables import (BaseMutable, MutableChannelContainer,
                                     OneShotMutableChannel,
                                     OneShotMutableChannelUnit,
                                     OneShotMutableOP)
from mmrazor.models.mutators import NasMutator
from mmrazor.models.task_modules import ResourceEstimator

from .c09 import cfgs
from .common import Task, same_state, snapshot, symbolize

INFO = dict(
    bounds='1..3 constrained resources out of flops, params and latency with '
    'arbitrary real ranges (tuples, lists or bare upper limits, ranges may '
    'be empty); reported resources arbitrary reals or those of the real '
    'estimator for every choice of a small searchable network; missing '
    'entries; detectors are checked by their backbone',
    outside='measuring the latency; correctness of the estimate (C25)')


class Arch(nn.Module):

    def __init__(self):
        super().__init__()
        ch = OneShotMutableChannel(3, [1, 2, 3])
        self.one = DynamicConv2d(3, 3, 1)
        self.two = DynamicConv2d(3, 2, 1)
        OneShotMutableChannelUnit._register_channel_container(
            self, MutableChannelContainer)
        reg = MutableChannelContainer.register_mutable_channel_to_module
        reg(self.one, ch, True)
        reg(self.two, ch, False)
        self.op = OneShotMutableOP(cfgs(2))

    def forward(self, x):
        return self.op(self.two(self.one(x)))


class Model(nn.Module):

    def __init__(self, arch):
        super().__init__()
        self.architecture = arch
        self.mutator = NasMutator()
        self.mutator.prepare_from_supernet(arch)

    def forward(self, x):
        return self.architecture(x)


class Stub:
    """reports arbitrary resources, remembers what it was asked about"""

    def __init__(self, res):
        self.res, self.seen = res, []

    def estimate(self, model, **kw):
        self.seen.append(model)
        return dict(self.res)


def legal(m):
    return list(m.candidate_choices if hasattr(m, 'candidate_choices') else
                m.choices)


def first(model):
    return {g: legal(ms[0])[0]
            for g, ms in model.mutator.search_groups.items()}


def _limits(S, names):
    """constraints and their meaning"""
    cons, rng = {}, {}
    for k in names:
        how = S.pick(f'kind_{k}', ['bare', 'tuple', 'list'])
        hi = S.real(f'hi_{k}')
        if how == 'bare':
            cons[k], rng[k] = hi, (0, hi)
        else:
            lo = S.real(f'lo_{k}')
            cons[k] = (lo, hi) if how == 'tuple' else [lo, hi]
            rng[k] = (lo, hi)
    return cons, rng


ALL = ('flops', 'params', 'latency')


def ranges(S, names, order):
    torch.manual_seed(0)
    model = Model(Arch())
    res = {k: S.real(f'res_{k}') for k in ALL}
    for k in ALL:
        S.assume(res[k] >= 0)
    cons, rng = _limits(S, [names[i] for i in order])
    given = {k: (type(v), list(v) if isinstance(v, (list, tuple)) else v)
             for k, v in cons.items()}
    est = Stub(res)
    subnet = first(model)
    ok, out = check_subnet_resources(model, subnet, est, cons)
    want = True
    for k in names:
        want = want & (res[k] >= rng[k][0]) & (res[k] <= rng[k][1])
    S.check(want == ok, 'within budget exactly when accepted')
    for k in ALL:
        S.check(out[k] == res[k], 'reported resources')
    S.check(len(est.seen) == 1, 'estimated once')
    now = {k: (type(v), list(v) if isinstance(v, (list, tuple)) else v)
           for k, v in cons.items()}
    S.check(list(now) == list(given), 'constraints are not modified')
    for k in now:
        a, b = now[k], given[k]
        S.check(a[0] is b[0], 'constraints are not modified')
        for p, q in zip(*[x if isinstance(x, list) else [x]
                          for x in (a[1], b[1])]):
            S.check(p == q, 'constraints are not modified')


def default(S):
    """without a range the default budget of 330 applies"""
    model = Model(Arch())
    res = {k: S.real(k, 0) for k in ALL}
    subnet = first(model)
    ok, _ = check_subnet_resources(model, subnet, Stub(res))
    S.check((res['flops'] <= 330) if ok else (res['flops'] > 330),
            'default budget')


def unconstrained(S):
    model = Model(Arch())
    res = {k: S.real(k) for k in ALL}
    ok, out = check_subnet_resources(
        model, first(model), Stub(res),
        S.pick('none', [None, {}]))
    S.check(ok is True, 'everything is accepted')
    for k in out:
        S.check(out[k] == res[k], 'reported resources')


def missing(S, names):
    """a constrained resource that is not reported is never accepted"""
    model = Model(Arch())
    have = [k for k in ALL if S.flag(f'has_{k}')]
    if all(k in have for k in names):
        S.assume(False)
    cons, _ = _limits(S, names)
    est = Stub({k: S.real(k) for k in have})
    try:
        ok, _ = check_subnet_resources(model, first(model),
                                       est, cons)
    except KeyError:
        S.check(True, 'refused')
        return
    S.check(not ok, 'a missing resource is never accepted')


def which(S, detector):
    """the sub-network asked about is the one estimated"""
    arch = Arch()
    if detector:
        from mmdet.models.detectors import BaseDetector

        class Det(BaseDetector):

            def __init__(self, backbone):
                super().__init__()
                self.backbone = backbone
                self.head = nn.Linear(2, 2)

            def forward(self, x, *a, **k):
                return self.backbone(x)

            def _forward(self, *a, **k):
                pass

            loss = predict = extract_feat = _forward

        arch = Det(arch)
    model = Model(arch)
    symbolize(model, S, skip=('mutable', 'mask'))
    before = snapshot(model)
    subnet = {}
    for g, ms in model.mutator.search_groups.items():
        subnet[g] = S.pick(f'g{g}', legal(ms[0]))
    est = Stub({'flops': S.real('flops')})
    check_subnet_resources(model, dict(subnet), est, dict(flops=S.real('hi')))
    (seen, ) = est.seen
    S.check(not any(isinstance(m, DynamicMixin) or
                    (isinstance(m, BaseMutable) and not m.is_fixed)
                    for m in seen.modules()), 'a static sub-network')
    S.check(not any('head' in n for n, _ in seen.named_modules()),
            'detectors are measured by their backbone')
    x = S.tensor('x', (1, 3, 1, 1))
    got = seen.eval()(x)
    model.eval()
    model.mutator.set_choices(subnet)
    S.eq(got, model(x), 'the estimated network is the sub-network')
    same_state(S, model, before, 'parameters')
    S.check(not any(m.is_fixed for m in model.modules()
                    if isinstance(m, BaseMutable)),
            'the network stays searchable')
    # another one afterwards
    other = {g: legal(ms[0])[-1] for g, ms in
             model.mutator.search_groups.items()}
    check_subnet_resources(model, other, est, dict(flops=S.real('hi2')))
    got = est.seen[-1].eval()(x)
    model.mutator.set_choices(other)
    S.eq(got, model(x), 'a second sub-network')


def real(S, order):
    """with the real estimator: the numbers of this very sub-network"""
    model = Model(Arch())
    est = ResourceEstimator(
        flops_params_cfg=dict(input_shape=(1, 3, 2, 2), units=None))
    subnet = {}
    for g, ms in model.mutator.search_groups.items():
        subnet[g] = S.pick(f'g{g}', legal(ms[0]))
    lo, hi = S.real('lo'), S.real('hi')
    cons = dict(flops=(lo, hi))
    if order:
        cons = dict(params=S.real('plimit'), flops=(lo, hi))
    ok, out = check_subnet_resources(model, subnet, est, cons)
    c = [v for v in subnet.values() if isinstance(v, int)][0]
    params = (3 * c + c) + (c * 2 + 2)
    flops = 4 * params
    S.check(out['flops'] == flops and out['params'] == params,
            'resources of the sub-network')
    want = (flops >= lo) & (flops <= hi)
    if order:
        want = want & (params <= cons['params'])
    S.check(want == ok, 'within budget exactly when accepted')


def tasks(tier):
    deep = tier == 'thorough'
    out = [Task('default', default), Task('unconstrained', unconstrained)]
    for n, names in enumerate([('flops', ), ('latency', ),
                               ('flops', 'params'),
                               ('params', 'latency', 'flops')]):
        orders = [tuple(range(len(names)))]
        if len(names) > 1:
            orders.append(tuple(reversed(orders[0])))
        for o in orders:
            out.append(Task(f'ranges-{"-".join(names)}-{o[0]}', ranges,
                            dict(names=names, order=o)))
    for names in [('flops', ), ('params', 'flops'), ('latency', 'params')]:
        out.append(Task(f'missing-{"-".join(names)}', missing,
                        dict(names=names)))
    out += [Task('which', which, dict(detector=False)),
            Task('which-detector', which, dict(detector=True)),
            Task('real', real, dict(order=False),
                 dict(torch=False)),
            Task('real-two', real, dict(order=True), dict(torch=False))]
    return out
