"""C40: DMCP samples by its probabilities and trains both players apart."""
import copy

import torch
from mmengine.model import BaseModel
from mmengine.optim import OptimWrapper, OptimWrapperDict
from torch import nn

from mmrazor.models.algorithms.pruning.dmcp import DMCP, DMCPDDP
from mmrazor.models.mutators import ChannelMutator, DMCPChannelMutator
from mmrazor.registry import MODELS

from .c36 import Pre
from .c37 import Sgd
from .common import Task, plain_copy, same_state, snapshot, symbolize

INFO = dict(
    bounds='any number of channels up to 4096 for 7 pruning rates; a network '
    'of two prunable units of 4 and 6 channels with any probabilities, draws, '
    'weights and inputs of 1 sample and 1 position; any resources and '
    'targets; up to 2 training steps from any iteration with any starting '
    'times, losses of any slopes, any learning rates; the algorithm and its '
    'wrapper for several processes',
    outside='the derivatives themselves (the losses of the harness give their '
    'own), communication between processes, gradient accumulation')

RATES = [(.1, 1, .05), (.25, 1, .25), (.5, 1, .1), (.2, 1, .2), (0.1, .8, .1),
         (.3, 1, .1), (.5, 1, .5), (1, 1, .1)]


def groups(S):
    """the search space ends at the whole layer and keeps a part of it"""
    low, high, step = rates = S.pick('rates', RATES)
    mut = DMCPChannelMutator.__new__(DMCPChannelMutator)
    mut.pruning_cfg = rates
    n = S.int('channels', 1, 4096)
    size, num, least = mut._generate_arch_message(n)
    S.check(num == round((high - low) / step), 'number of groups')
    S.check(size >= 0, 'size of the groups')
    S.check(least >= 1, 'a channel is kept at least')
    S.check(least + size * num == n, 'the largest choice is everything')
    S.check(size * high <= step * n + 1e-6 * n, 'no larger than the step')
    S.check(size * high > step * n - high - 1e-6 * n, 'about the step')


class Arch(BaseModel):

    def __init__(self):
        super().__init__()
        self.a = nn.Conv2d(1, 4, 1)
        self.an = nn.BatchNorm2d(4)
        self.b = nn.Conv2d(4, 6, 1)
        self.bn = nn.BatchNorm2d(6)
        self.c = nn.Conv2d(6, 1, 1)

    def forward(self, inputs, data_samples=None, mode='tensor'):
        x = self.bn(self.b(self.an(self.a(inputs))))
        return self.c(x)


CACHE = []
# (size of the groups, number of groups, least channels) of both units
SPACE = dict(a=(1, 3, 1), b=(1, 3, 3))


def setup(**kw):
    """find the units on ordinary values"""
    if CACHE:
        return
    torch.manual_seed(0)
    net = Arch()
    for m in (net.an, net.bn):
        m.running_var.copy_(torch.arange(1., 1 + m.num_features)**2 - 1e-5)
    mut = DMCPChannelMutator(
        channel_unit_cfg=dict(type='DMCPChannelUnit'),
        parse_cfg=dict(type='ChannelAnalyzer', demo_input=(1, 1, 1, 1),
                       tracer_type='BackwardTracer'),
        pruning_cfg=(.25, 1, .25))
    try:
        mut.prepare_from_supernet(net)
        net.double()
        mut.double()
        for m in (net.an, net.bn):
            m.running_var.copy_(
                torch.arange(1., 1 + m.num_features).double()**2 - 1e-5)
        CACHE.append((net.eval(), mut))
    except Exception as e:  # reported by the harness
        CACHE.append(e)


def network(S):
    setup()
    if isinstance(CACHE[0], Exception):
        raise CACHE[0]
    net, mut = plain_copy(CACHE[0])
    symbolize(net, S, 'm.', skip=('mask', 'running_var'))
    symbolize(mut, S, 'mut.', skip=('mask', ))
    where = {}
    for i, u in enumerate(mut.units):
        for c in u.output_related:
            where[c.name] = str(i)
    S.check({'a', 'b'} <= set(where) and where['a'] != where['b'], 'units')
    S.check(set(mut.arch_params) == {str(i) for i in range(len(mut.units))},
            'parameters of the units')
    return net, mut, where


def chances(p):
    """of the groups being kept, one after the other"""
    return [torch.exp(-torch.clamp(p[i], min=0)) for i in range(len(p))]


def rounded(S, v, n):
    """the whole number of channels of an expected number"""
    k = 0
    while k < n and bool(v >= k + 1):
        k += 1
    return k


def sampling(S, mode):
    net, mut, where = network(S)
    before = snapshot(mut)
    for n in SPACE:
        S.check(tuple(mut._arch_params_attr[where[n]]) ==
                ((1, 3, 1) if n == 'a' else (1, 3, 3)), 'search space')
        S.check(len(mut.arch_params[where[n]]) == 3, 'one for each group')
    draws, got, state = S.draws, {}, []
    real = mut._prune_by_arch

    def prune(m, g):
        first = len(draws)
        r = real(m, g)
        got[str(g)] = (draws[first:], r)
        return r

    mut._prune_by_arch = prune
    mut.sample_subnet(mode, False)
    S.check(set(got) == {str(i) for i in range(len(mut.units))},
            'every unit once')
    for n, (size, num, least) in SPACE.items():
        unit = mut.units[int(where[n])]
        drawn, value = got[where[n]]
        whole = least + size * num
        p = chances(mut.arch_params[where[n]].detach())
        if mode == 'max':
            S.check(value == whole, 'largest')
        elif mode == 'min':
            S.check(value == least, 'smallest')
        elif mode == 'random':
            S.check(any(bool(value == least + size * k)
                        for k in range(num + 1)), 'any number of groups')
        elif mode == 'direct':
            k = 0
            for u in drawn:
                if bool(u > p[k]):
                    S.check(u is drawn[-1], 'stops at the first group out')
                    break
                k += 1
            S.check(value == least + size * k, 'kept by their chances')
            S.check(len(drawn) == min(k + 1, num), 'one draw for each')
        else:
            want, m = least, 1
            for q in p:
                m = m * q
                want = want + m * size
            S.eq(value.detach(), want, 'expected channels')
            S.eq(unit.mutable_channel.activated_tensor_channels.detach(),
                 want, 'resources of the expected network')
            S.check(unit.current_choice == rounded(S, want + .5, whole),
                    'the nearest number of channels')
            continue
        S.eq(unit.current_choice, value, 'it is active')
        S.eq(unit.mutable_channel.activated_tensor_channels, value,
             'resources of the network')
    same_state(S, mut, before, 'probabilities stay', skip=('mask', ))


def scaled(S, deep):
    """channels weigh as much as they are likely to be kept"""
    net, mut, where = network(S)
    mode = S.pick('mode', ['max', 'min', 'random'] if deep else
                  ['max', 'random'])
    train = S.flag('arch_train')
    if S.flag('before'):
        mut.sample_subnet('max', not train)
    S.patch(net.an, 'eps', 1e-5)
    mut.sample_subnet(mode, train)
    ka, kb = [mut.units[int(where[n])].current_choice for n in 'ab']
    x = S.tensor('x', (1, 1, 1, 1), -2, 2)
    out = net(x)

    def conv(m, x, i, o):
        return m.weight.detach()[:o, :i, 0, 0] @ x + m.bias.detach()[:o, None]

    def norm(m, x, n, name):
        k = x.shape[0]
        sd = torch.arange(1., 1 + m.num_features).double()[:k, None]
        x = (x - m.running_mean[:k, None]) / sd * \
            m.weight.detach()[:k, None] + m.bias.detach()[:k, None]
        if not train:
            return x
        size, num, least = SPACE[name]
        rows, chance = [], 1
        p = chances(mut.arch_params[where[name]].detach())
        for i in range(k):
            if i >= least and (i - least) % size == 0:
                chance = chance * p[(i - least) // size]
            rows.append(x[i] * chance)
        return torch.stack(rows)

    y = norm(net.an, conv(net.a, x.reshape(1, 1), 1, ka), ka, 'a')
    y = norm(net.bn, conv(net.b, y, ka, kb), kb, 'b')
    y = conv(net.c, y, kb, 1)
    S.eq(out.detach().reshape(1, 1), y, 'output')


def loss(S, kind):
    """zero on target or least there, growing away from it on both sides"""
    algo = DMCP.__new__(DMCP)
    nn.Module.__init__(algo)
    target = S.real('target', 1, 1000)
    weight = S.real('weight', .01, 10)
    algo.flops_loss_type, algo.target_flops = kind, target
    algo.flop_loss_weight = weight

    def of(v):
        return algo._compute_flops_loss(v.reshape(())).reshape(())

    goal = target * 1e6
    ta, tb = [S.tensor(n, (1, ), 1, 10**10) for n in 'ab']
    la, lb = of(ta).item(), of(tb).item()
    a, b = ta[0].item(), tb[0].item()
    band = kind == 'log_l1'
    if band:
        inside = bool(a >= goal * .95) and bool(a < goal)
        if inside:
            S.eq(la, 0, 'nothing to gain within the band')
            return
        S.assume(abs(a - goal) > 1000)
        S.assume(abs(b - goal) > 1000)
        S.assume(abs(b - goal * .95) > 1000)
    if bool(a > b) and bool(b >= goal):
        S.assume(a - b > .01 * (a - goal))
        S.check(la > lb, 'grows above the target')
    elif bool(a < b) and bool(b < (goal * .95 if band else goal)):
        S.assume(b - a > .01 * (goal - a))
        S.check(la > lb, 'grows below the target')
    elif not band and bool(a - goal == goal - b):
        S.eq(la, lb, 'alike on both sides')


# ------------------------------------------------------------------- training
class Toy(BaseModel):
    """its losses are linear, the harness knows the slopes"""

    def __init__(self):
        super().__init__()
        self.w = nn.Parameter(torch.zeros(2))
        self.probe = nn.Identity()

    def forward(self, inputs, data_samples=None, mode='tensor'):
        raise NotImplementedError


class ToyMutator(ChannelMutator):

    def __init__(self, **kw):
        nn.Module.__init__(self)
        self.arch_params = nn.ParameterDict(
            dict(p=nn.Parameter(torch.zeros(1))))
        self.now = None

    def prepare_from_supernet(self, supernet):
        pass

    def sample_subnet(self, mode, arch_train):
        self.now = (mode, arch_train)
        self.log.append(('set', mode, arch_train))


class Kd(nn.Module):

    def __init__(self, weight):
        super().__init__()
        self.weight = weight

    def forward(self, s, t):
        return self.weight * (s - t.detach())


MODELS.register_module(name='VToyDMCP', module=ToyMutator, force=True)
MODELS.register_module(name='VKd', module=Kd, force=True)


def distiller(weight):
    return dict(
        type='ConfigurableDistiller',
        teacher_recorders=dict(out=dict(type='ModuleOutputs',
                                        source='probe')),
        student_recorders=dict(out=dict(type='ModuleOutputs',
                                        source='probe')),
        distill_losses=dict(loss_kd=dict(type='VKd', weight=weight)),
        loss_forward_mappings=dict(loss_kd=dict(
            s=dict(recorder='out', from_student=True),
            t=dict(recorder='out', from_student=False))))


class World(DMCP):
    """the algorithm with losses of the harness"""

    def set(self, S):
        self.S, self.runs = S, []
        self.log = self.mutator.log = []

    def p(self):
        return self.mutator.arch_params['p']

    def forward(self, inputs, data_samples=None, mode='loss'):
        S, k, w = self.S, len(self.runs), self.architecture.w
        assert mode == 'loss' and data_samples == 'samples'
        kind, arch = self.mutator.now
        c = S.tensor(f'slope{k}', (3, ), -2, 2)
        y = self.architecture.probe(w[1:2] * c[1] * inputs)
        value = (w[0] * c[0] + y[0]) + (self.p()[0] * c[2] if arch else 0)
        self.runs.append((kind, arch, self.training, c, w.detach().clone()))
        grads = [torch.stack([c[0], c[1] * inputs[0]]),
                 c[2:3] if arch else None]
        self.log.append(('run', k))
        self.last = [value, grads, c[1] * inputs[0]]
        return dict(loss=value, acc=value.detach() * 0)

    def calc_current_flops(self):
        assert self.mutator.now == ('expected', False)
        p = self.p()[0]
        self.flops = self.base + self.rate * p
        err = self.flops - self.target_flops * 1e6
        self.last = [err * err * self.flop_loss_weight,
                     [None, (2 * err * self.rate *
                             self.flop_loss_weight).reshape(1)], None]
        return self.flops


class WorldDDP(DMCPDDP):

    def __init__(self, module):
        nn.Module.__init__(self)
        self.module = module

    def forward(self, *a, **k):
        return self.module(*a, **k)


class Wrapper(OptimWrapper):
    algo = S = None

    def backward(self, loss, **kwargs):
        algo, S = self.algo, self.S
        value, grads, feature = algo.last
        grads = [None if g is None else g.detach().clone() for g in grads]
        soft = loss.reshape(()) - value.reshape(())
        if feature is not None and algo.soft:
            # the distilled part has the slope of the feature
            y = algo.architecture.w.detach()[1] * feature
            S.eq(soft.detach(), algo.kd * (y - algo.teacher),
                 'distilled from the largest network of this step')
            grads[0] = grads[0] + torch.stack(
                [feature * 0, algo.kd * feature])
        else:
            S.eq(soft.detach(), 0., 'the loss of the network')
        with torch.no_grad():
            for p, g in zip([algo.architecture.w, algo.p()], grads):
                if g is None:
                    continue
                if p.grad is None:
                    p.grad = g.clone()
                else:
                    p.grad.add_(g)
        self._inner_count += 1


PLANS = [('max', 'min', 'arch_random'),
         ('max', 'scheduled_random', 'min', 'arch_random'),
         ('max', 'scheduled_random', 'scheduled_random')]


def training(S, ddp, times, plans):
    plan = S.pick('strategy', plans)
    kd = S.pick('weight', [.5, 2.])
    algo = World(distiller(kd), Toy(), dict(type='VToyDMCP'), strategy=list(plan),
                 flops_loss_type='l2')
    symbolize(algo, S)
    algo.data_preprocessor = Pre()
    algo.set(S)
    algo.kd = kd
    algo.base, algo.rate = S.real('base', 0, 100), S.real('rate', -2, 2)
    algo.target_flops = S.real('target', 1, 10)
    algo.flop_loss_weight = S.real('flops weight', 0, 2)
    algo.arch_start_train = start = S.int('start', 0)
    algo.arch_train_freq = freq = S.pick('every', [1, 2])
    algo.distillation_times = late = S.int('distil', 0)
    algo.train()
    lr, lra = S.real('lr', 0, 1), S.real('lr of the probabilities', 0, 1)
    opt = OptimWrapperDict(
        architecture=Wrapper(Sgd(algo.architecture.parameters(), lr, 0, 0)),
        mutator=Wrapper(Sgd(algo.mutator.parameters(), lra, 0, 0)))
    for w in opt.values():
        w.algo, w.S = algo, S
    model = WorldDDP(algo) if ddp else algo
    it0 = S.int('iteration', 0)
    S.assume(it0 % freq == S.pick('phase', range(freq)))
    now = [it0]
    S.patch(DMCP, '_iter', property(lambda self: now[0]))
    w = algo.architecture.w.detach().clone()
    p = algo.p().detach().clone()
    on, chance = False, 1.
    if S.flag('probabilities were trained'):
        on = algo.arch_train = True
        chance = algo.cur_sample_prob = S.real('chance', 0, 1)
    for t in range(times):
        it = now[0] = it0 + t
        x = S.tensor(f'x{t}', (1, ), -2, 2)
        on = on or bool(it > start)
        soft = bool(it > late)
        update = on and bool(it % freq == 0)
        first, drawn = len(algo.runs), len(S.draws)
        algo.soft, algo.teacher = False, None
        hook = Teacher(S, algo, soft)
        out = model.train_step(dict(inputs=x, data_samples='samples'), opt)
        hook.stop()
        runs, draws = algo.runs[first:], S.draws[drawn:]
        kinds, names = [], set()
        count = {}
        used = 0
        for k in plan:
            if k == 'arch_random':
                k = 'direct' if on else 'random'
            elif k == 'scheduled_random':
                wants = draws[used] > chance
                used += 1
                chance = chance * .9999
                k = 'direct' if on and bool(wants) else 'random'
            kinds.append(k)
            count[k] = count.get(k, 0) + 1
            pre = f'{k}_subnet{count[k]}.'
            names |= {pre + 'loss', pre + 'acc'}
            if soft and k != 'max':
                names.add(pre + 'loss_kd')
        if update:
            names |= {'arch.loss', 'arch.acc', 'flops.loss'}
        S.check(set(out) == names, 'reported losses')
        S.check([r[0] for r in runs] == kinds + ['max'] * update,
                'networks of the step')
        teacher = None
        for i, (k, (kind, arch, mode, c, at)) in enumerate(zip(kinds, runs)):
            S.eq(at, w, 'weights of the run')
            S.check(mode and arch == on, 'mode of the run')
            feature = c[1] * x[0]
            g = torch.stack([c[0], feature])
            if k == 'max':
                teacher = w[1] * feature
            elif soft:
                g = g + torch.stack([feature * 0, kd * feature])
            w = w - lr * g
        if update:
            kind, arch, mode, c, at = runs[-1]
            S.eq(at, w, 'weights of the run')
            S.check(arch is True and not mode, 'probabilities, evaluated')
            p = p - lra * c[2:3]
            err = algo.base + algo.rate * p[0] - algo.target_flops * 1e6
            S.eq(out['flops.loss'].detach().reshape(()),
                 err * err * algo.flop_loss_weight, 'loss of the resources')
            p = p - lra * (2 * err * algo.rate *
                           algo.flop_loss_weight).reshape(1)
        S.eq(algo.architecture.w.detach(), w, 'weights')
        S.eq(algo.p().detach(), p, 'probabilities')
        S.check(algo.training, 'training goes on')
        S.check(algo.arch_train == on, 'when the probabilities train')
        S.eq(algo.cur_sample_prob, chance, 'chance of random networks')


class Teacher:
    """notes the output of the largest network and who is distilled"""

    def __init__(self, S, algo, soft):
        def note(module, args, out):
            kind, _ = algo.mutator.now
            if kind == 'max':
                algo.teacher, algo.soft = out.detach().clone()[0], False
            else:
                algo.soft = soft
        self.handle = algo.architecture.probe.register_forward_hook(note)

    def stop(self):
        self.handle.remove()


def tasks(tier):
    deep = tier == 'thorough'
    out = [Task('groups', groups, {})]
    for m in ('max', 'min', 'random', 'direct', 'expected'):
        out.append(Task(f'sampling-{m}', sampling, dict(mode=m),
                        dict(setup=setup)))
    out.append(Task('scaled', scaled, dict(deep=deep), dict(
        setup=setup)))
    for k in ('l2', 'l1', 'log_l1', 'inverted_log_l1'):
        out.append(Task(f'loss-{k}', loss, dict(kind=k),
                        dict(axioms=('log_mono', ))))
    for ddp in (False, True):
        n = '-ddp' if ddp else ''
        out.append(Task(f'training{n}', training, dict(
            ddp=ddp, times=2, plans=PLANS if deep else PLANS[:1])))
        if not deep:
            out.append(Task(f'schedule{n}', training, dict(
                ddp=ddp, times=1, plans=PLANS[1:])))
    return out
