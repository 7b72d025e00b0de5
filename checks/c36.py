"""C36: supernet training steps run exactly the configured sub-networks."""
from types import SimpleNamespace

import torch
from mmengine.model import BaseModel
from mmengine.optim import OptimWrapper
from torch import nn

from mmrazor.models.algorithms.nas.autoslim import AutoSlim, AutoSlimDDP
from mmrazor.models.algorithms.nas.bignas import BigNAS, BigNASDDP
from mmrazor.models.algorithms.pruning.slimmable_network import (
    SlimmableNetwork, SlimmableNetworkDDP)
from mmrazor.models.architectures.dynamic_ops import (DynamicConv2d,
                                                      DynamicSequential)
from mmrazor.models.architectures.ops import MBBlock
from mmrazor.models.mutables import (MutableChannelContainer,
                                     OneShotMutableChannel)
from mmrazor.models.mutators import (NasMutator, OneShotChannelMutator,
                                     SlimmableChannelMutator)

from .common import Task, plain_copy, symbolize

INFO = dict(
    bounds='two prunable units of up to 4 channels, up to 3 listed and up to '
    '2 random sub-networks with every sampled choice, up to 2 steps in a row '
    'started at any iteration of a training of any length up to 10^6; every '
    'weight and input of 1 sample and 1 position; drop rates of any size for '
    '2 stages of up to 2 blocks; the algorithms themselves and their wrappers '
    'for several processes',
    outside='the backward pass and the rule of the optimizer, communication '
    'between processes, other accumulation counts than the number of '
    'sub-networks (as the documentation asks for)')


class Arch(BaseModel):
    """three layers with two prunable widths"""

    def __init__(self):
        super().__init__()
        self.a = nn.Conv2d(1, 4, 1)
        self.b = nn.Conv2d(4, 2, 1)
        self.c = nn.Conv2d(2, 1, 1)
        self.runs = None

    def forward(self, inputs, data_samples=None, mode='tensor'):
        x = self.c(self.b(torch.relu(self.a(inputs))))
        if mode == 'tensor':
            return x
        if self.runs is not None:
            self.runs.append(self)
        return dict(loss=x.mean(), loss_2=[x.sum(), 2 * x.sum()],
                    acc=x.sum() * 3)


class Block(MBBlock):
    """a block of the backbone that is small, with a rate of its own"""

    def __init__(self, n_in, n_out):
        nn.Module.__init__(self)
        self.conv = DynamicConv2d(n_in, n_out, 1)
        self._drop_path_rate = .5
        self.with_se = False

    @property
    def drop_path_rate(self):
        return self._drop_path_rate

    @drop_path_rate.setter
    def drop_path_rate(self, value):
        self._drop_path_rate = value

    def forward(self, x):
        return self.conv(x)


class Backbone(nn.Module):

    def __init__(self):
        super().__init__()
        self.layers = nn.ModuleList([
            DynamicSequential(Block(1, 4)),
            DynamicSequential(Block(4, 4), Block(4, 2)),
            DynamicSequential(Block(2, 1))])


class BigArch(BaseModel):
    """the same network in stages of blocks"""

    def __init__(self):
        super().__init__()
        self.backbone = Backbone()
        self.runs = None

    def forward(self, inputs, data_samples=None, mode='tensor'):
        x = inputs
        for layer in self.backbone.layers:
            x = layer(x)
        self.runs.append(self)
        return dict(loss=x.mean(), acc=x.sum() * 3)


def parse():
    return dict(type='ChannelAnalyzer', demo_input=(1, 1, 1, 1),
                tracer_type='BackwardTracer')


CHOICES = dict(one=([4], [2]), two=([2, 4], [2, 1]), three=([1, 3, 4],
                                                            [1, 2, 2]))
CACHE = {}


def auto():
    torch.manual_seed(0)
    net = Arch()
    mutator = OneShotChannelMutator(
        channel_unit_cfg=dict(type='OneShotMutableChannelUnit', default_args=(
            dict(candidate_choices=[.5, 1.0], choice_mode='ratio'))),
        parse_cfg=parse())
    mutator.prepare_from_supernet(net)
    return net, mutator


def slim(names, key):
    torch.manual_seed(0)
    net = Arch()
    units = {n: dict(init_args=dict(num_channels=w, divisor=1, min_value=1,
                                    min_ratio=.9, candidate_choices=list(c),
                                    choice_mode='number'), choice=c[0])
             for n, w, c in zip(names, (4, 2), CHOICES[key])}
    mutator = SlimmableChannelMutator(
        channel_unit_cfg=dict(type='SlimmableChannelUnit', units=units),
        parse_cfg=parse())
    mutator.prepare_from_supernet(net)
    return net, mutator


def early(key, fn):
    try:
        net, mutator = fn()
        CACHE[key] = net.double(), mutator
    except Exception as e:  # reported by the harness that needs it
        CACHE[key] = e


def prepare():
    early('auto', auto)
    if isinstance(CACHE['auto'], Exception):
        return
    net, mutator = CACHE['auto']
    names = [[u.name for u in mutator.mutable_units if any(
        c.module is m for c in u.output_related)][0] for m in (net.a, net.b)]
    for key in CHOICES:
        early(key, lambda: slim(names, key))


prepare()


def get(key):
    got = CACHE[key if not isinstance(CACHE['auto'], Exception) else 'auto']
    if isinstance(got, Exception):
        raise got
    net, mutator = plain_copy(got)
    return net, mutator


class Pre(nn.Module):

    def forward(self, data, training=False):
        assert training
        return dict(data)


class Optim(OptimWrapper):
    """records what is propagated back and when parameters move"""

    def __init__(self, S, count, iteration, most, log):
        super().__init__(torch.optim.SGD([nn.Parameter(torch.zeros(1))], .1),
                         accumulative_counts=count)
        self.log = log
        self.message_hub = SimpleNamespace(
            runtime_info=dict(iter=iteration, max_iters=most))

    def backward(self, loss, **kwargs):
        self.log.append(('backward', loss))
        self._inner_count += 1

    def step(self, **kwargs):
        self.log.append(('step', ))

    def zero_grad(self, **kwargs):
        self.log.append(('zero', ))


def distiller(weight, where):
    return dict(
        type='ConfigurableDistiller',
        teacher_recorders=dict(out=dict(type='ModuleOutputs', source=where)),
        student_recorders=dict(out=dict(type='ModuleOutputs', source=where)),
        distill_losses=dict(loss_kd=dict(
            type='L2Loss', normalize=False, loss_weight=weight)),
        loss_forward_mappings=dict(loss_kd=dict(
            s_feature=dict(recorder='out', from_student=True),
            t_feature=dict(recorder='out', from_student=False))))


def wrap(algo, cls):
    """the algorithm behind its wrapper for several processes"""
    if cls is None:
        return algo
    w = cls.__new__(cls)
    nn.Module.__init__(w)
    w.module = algo
    w.forward = lambda *a, **k: algo(*a, **k)
    w.require_backward_grad_sync = True
    return w


def plan(S, names, tag, first):
    """iterations of the training"""
    most = S.int('max_iters', 1, 10**6)
    it = S.int('iter', 0, 10**6 - 1)
    S.assume(it + 1 < most)
    return it, most


def output(w, x, ka, kb):
    """the network with its first channels only"""
    a = w['a.weight'][:ka, :, 0, 0] @ x.reshape(1, -1) + \
        w['a.bias'][:ka, None]
    a = torch.relu(a) if 'relu' in w else a
    b = w['b.weight'][:kb, :ka, 0, 0] @ a + w['b.bias'][:kb, None]
    c = w['c.weight'][:, :kb, 0, 0] @ b + w['c.bias'][:, None]
    return c


def weights(net):
    return {n: p.detach().clone() for n, p in net.named_parameters()}


def task_losses(out):
    return dict(loss=out.mean(), loss_2=out.sum() * 3)


def kd(out, teacher, weight):
    """squared distance of the outputs of the only sample"""
    return weight * ((out - teacher)**2).sum()


def verify(S, log, wants, count, steps):
    """every loss propagated once, one update at the end of each step"""
    back = [e for e in log if e[0] == 'backward']
    S.check(len(back) == len(wants), 'one loss for each sub-network')
    for (_, got), want in zip(back, wants):
        S.eq(got * count, want.reshape(got.shape), 'loss of the sub-network')
    per = len(wants) // steps
    order = [e[0] for e in log if e[0] in ('backward', 'step')]
    S.check(order == (['backward'] * per + ['step']) * steps,
            'one update for each step')


def common(S, count, times):
    log = []
    it, most = plan(S, None, '', None)
    optim = Optim(S, count, it, most, log)
    xs = [S.tensor(f'x{t}', (1, 1, 1, 1), -2, 2) for t in range(times)]
    return log, optim, xs


def small(net, S):
    symbolize(net, S, 'm.', skip=('mask', ))
    w = weights(net)
    w['relu'] = True
    return w


def slimmable(S, key, ddp, times):
    net, mutator = get(key)
    S.patch(mutator, 'prepare_from_supernet', lambda m: None)
    w = small(net, S)
    algo = SlimmableNetwork(net, mutator, data_preprocessor=Pre())
    pairs = list(zip(*CHOICES[key]))
    S.check(algo.num_subnet == len(pairs), 'number of sub-networks')
    log, optim, xs = common(S, len(pairs), times)
    model = wrap(algo, SlimmableNetworkDDP if ddp else None)
    net.runs, wants = [], []
    for x in xs:
        before = len(net.runs)
        out = model.train_step(dict(inputs=x, data_samples=None), optim)
        S.check(len(net.runs) - before == len(pairs), 'forwards')
        names = set()
        for i, (ka, kb) in enumerate(pairs):
            y = output(w, x, ka, kb)
            losses = task_losses(y)
            wants.append(losses['loss'] + losses['loss_2'])
            S.eq(out[f'subnet_{i}.loss'], losses['loss'], 'reported loss')
            S.eq(out[f'subnet_{i}.acc'], y.sum() * 3, 'reported value')
            names |= {f'subnet_{i}.{k}' for k in ('loss', 'loss_2', 'acc')}
        S.check(set(out) == names, 'names of the losses')
    verify(S, log, wants, len(pairs), times)


def fixed(S, ddp):
    """a deployed network trains as itself"""
    net, mutator = get('three')
    S.patch(mutator, 'prepare_from_supernet', lambda m: None)
    index = S.pick('index', range(3))
    w = small(net, S)
    algo = SlimmableNetwork(net, mutator, deploy_index=index,
                            data_preprocessor=Pre())
    log, optim, xs = common(S, 1, 1)
    model = wrap(algo, SlimmableNetworkDDP if ddp else None)
    out = model.train_step(dict(inputs=xs[0], data_samples=None), optim)
    ka, kb = [c[index] for c in CHOICES['three']]
    y = output(w, xs[0], ka, kb)
    losses = task_losses(y)
    S.eq(out['loss'], losses['loss'], 'reported loss')
    verify(S, log, [losses['loss'] + losses['loss_2']], 1, 1)


def autoslim(S, randoms, ddp, times):
    net, mutator = get('auto')
    S.patch(mutator, 'prepare_from_supernet', lambda m: None)
    w = small(net, S)
    weight = S.pick('weight', [1., .25])
    algo = AutoSlim(net, mutator, distiller(weight, 'c'),
                    num_random_samples=randoms, data_preprocessor=Pre())
    count = 2 + randoms
    log, optim, xs = common(S, count, times)
    drawn = spy(S, mutator)
    a, b = [[u for u in mutator.mutable_units if any(
        c.module is m for c in u.output_related)][0] for m in (net.a, net.b)]
    model = wrap(algo, AutoSlimDDP if ddp else None)
    net.runs, wants = [], []
    for x in xs:
        del drawn[:]
        before = len(net.runs)
        out = model.train_step(dict(inputs=x, data_samples=None), optim)
        S.check(len(net.runs) - before == count, 'forwards')
        S.check(len(drawn) == randoms, 'draws')
        top = output(w, x, 4, 2)
        subnets = [('max_subnet', 4, 2), ('min_subnet', 2, 1)]
        for i, d in enumerate(drawn):
            subnets.append((f'random{i}_subnet', round(4 * d[a.name]),
                            round(2 * d[b.name])))
        names = set()
        for name, ka, kb in subnets:
            y = output(w, x, ka, kb)
            losses = task_losses(y)
            if name != 'max_subnet':
                losses['loss_kd'] = kd(y, top, weight)
                S.eq(out[f'{name}.loss_kd'], losses['loss_kd'],
                     'distils from the largest of the same step')
            wants.append(sum(losses.values()))
            S.eq(out[f'{name}.loss'], losses['loss'], 'reported loss')
            names |= {f'{name}.{k}' for k in (*losses, 'acc')}
        S.check(set(out) == names, 'names of the losses')
    verify(S, log, wants, count, times)


def spy(S, mutator):
    drawn, real = [], mutator.sample_choices

    def sample(*a, **k):
        out = real(*a, **k)
        drawn.append(dict(out))
        return out

    S.patch(mutator, 'sample_choices', sample)
    return drawn


def big_net():
    net = BigArch()
    layers = net.backbone.layers
    convs = [layers[0][0].conv, layers[1][0].conv, layers[1][1].conv,
             layers[2][0].conv]
    wide = [OneShotMutableChannel(4, [2, 4]), None,
            OneShotMutableChannel(2, [1, 2])]
    mid = OneShotMutableChannel(4, [3, 4])
    ends = [(None, wide[0]), (wide[0], mid), (mid, wide[2]), (wide[2], None)]
    for c, (i, o) in zip(convs, ends):
        c.register_mutable_attr('in_channels',
                                MutableChannelContainer(c.in_channels))
        c.register_mutable_attr('out_channels',
                                MutableChannelContainer(c.out_channels))
        for m, to_out, n in ((i, False, c.in_channels),
                             (o, True, c.out_channels)):
            MutableChannelContainer.register_mutable_channel_to_module(
                c, m or OneShotMutableChannel(n, [n]), to_out)
    return net, convs, (wide[0], mid, wide[2])


def bignas(S, randoms, ddp, times):
    net, convs, mutables = big_net()
    symbolize(net, S, 'm.', skip=('mask', ))
    w = [(c.weight.detach().clone(), c.bias.detach().clone()) for c in convs]
    rate = S.real('rate', 0, 1)
    stages = [s for s in (1, 2) if S.flag(f'stage{s}')]
    mutator = NasMutator()
    algo = BigNAS(net, mutator, distiller(.5, 'backbone.layers.2'),
                  data_preprocessor=Pre(), num_random_samples=randoms,
                  drop_path_rate=rate, backbone_dropout_stages=stages)
    count = 2 + randoms
    log, optim, xs = common(S, count, times)
    drawn = spy(S, mutator)
    model = wrap(algo, BigNASDDP if ddp else None)
    blocks = [b for layer in net.backbone.layers[:2] for b in layer
              if isinstance(b, Block)]
    rates = []

    class Runs(list):

        def append(self, item):
            rates.append([b.drop_path_rate for b in blocks])
            list.append(self, item)

    net.runs, wants = Runs(), []
    for t, x in enumerate(xs):
        del drawn[:]
        del rates[:]
        out = model.train_step(dict(inputs=x, data_samples=None), optim)
        S.check(len(rates) == count and len(drawn) == randoms, 'forwards')

        def run(ks):
            # all channels, so far, of the layer before
            y, prev = x.reshape(1, -1), 1
            for (cw, cb), k in zip(w, list(ks) + [1]):
                y = cw[:k, :prev, 0, 0] @ y + cb[:k, None]
                prev = k
            return y

        top = run((4, 4, 2))
        names = set()
        subnets = [('max_subnet', (4, 4, 2)), ('min_subnet', (2, 3, 1))]
        for i, d in enumerate(drawn):
            ks = []
            for m in mutables:
                got = [d[n] for n, g in mutator.search_groups.items()
                       if g[0].mutable_channel is m]
                S.check(len(got) == 1, 'one choice for each width')
                ks.append(int(got[0]))
            subnets.append((f'random{i}_subnet', tuple(ks)))
        for i, (name, ks) in enumerate(subnets):
            y = run(ks)
            if name == 'max_subnet':
                losses = dict(loss=y.mean())
                names.add('max_subnet.acc')
            else:
                losses = dict(loss_kd=kd(y, top, .5))
            for k, v in losses.items():
                S.eq(out[f'{name}.{k}'], v, 'reported loss')
                names.add(f'{name}.{k}')
            wants.append(sum(losses.values()))
            for b in range(3):
                stage = 1 if b == 0 else 2
                if stage not in stages:
                    want = .5
                else:
                    want = rate * b / 3 if name == 'max_subnet' else 0
                S.check(abs(rates[i][b] - want) < 1e-9, 'drop rate')
        S.check(set(out) == names, 'names of the losses')
    verify(S, log, wants, count, times)


def tasks(tier):
    deep = tier != 'quick'
    T = []
    for ddp in (False, True):
        d = '-ddp' if ddp else ''
        for key in CHOICES:
            T.append(Task(f'slimmable-{key}{d}', slimmable, dict(
                key=key, ddp=ddp, times=2)))
        T.append(Task(f'fixed{d}', fixed, dict(ddp=ddp)))
        for r in (0, 1, 2) if deep else (0, 1):
            T.append(Task(f'autoslim-{r}{d}', autoslim, dict(
                randoms=r, ddp=ddp, times=2)))
            T.append(Task(f'bignas-{r}{d}', bignas, dict(
                randoms=r, ddp=ddp, times=2 if deep or not r else 1)))
        T.append(Task(f'autoslim-2{d}-once', autoslim, dict(
            randoms=2, ddp=ddp, times=1)))
    return T
