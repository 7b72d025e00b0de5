"""C37: differentiable search moves both kinds of parameters by their rules."""
from types import SimpleNamespace

import torch
from mmengine.model import BaseModel
from mmengine.optim import OptimWrapper, OptimWrapperDict
from torch import nn

from mmrazor.engine.runner.darts_loop import (DartsEpochBasedTrainLoop,
                                              DartsIterBasedTrainLoop)
from mmrazor.models.algorithms.nas.darts import Darts, DartsDDP
from mmrazor.models.mutators import NasMutator

from .common import Task, symbolize

INFO = dict(
    bounds='three weights and two architecture parameters of any value, '
    'losses of any coefficients, any data, learning rates, momentum and '
    'weight decay; up to 2 steps in a row; with and without the second-order '
    'term; loaders of up to 3 batches, trainings that start anywhere; the '
    'algorithm and its wrapper for several processes',
    outside='the derivatives themselves (the loss of the harness gives its '
    'own), gradient accumulation over iterations, loss scaling, '
    'communication between processes, validation '
    'gradients shorter than 1e-8, several learning rates for the weights')


class Net(BaseModel):
    """a network whose loss knows its derivatives"""

    def __init__(self):
        super().__init__()
        self.w = nn.Parameter(torch.zeros(2))
        self.v = nn.Parameter(torch.zeros(1))
        self.log = []

    def forward(self, inputs, data_samples=None, mode='tensor'):
        raise NotImplementedError


def value(w, v, a, d):
    return (d[0] * w[0] * w[0] * w[0] * a[0] + d[1] * w[1] * v[0] * a[1] +
            d[2] * v[0] * a[0] * a[1] + d[3] * w[0] + d[4] * w[1] * w[1])


def slopes(w, v, a, d):
    """its derivatives by w, v and a"""
    gw = torch.stack([3 * d[0] * w[0] * w[0] * a[0] + d[3],
                      d[1] * v[0] * a[1] + 2 * d[4] * w[1]])
    gv = torch.stack([d[1] * w[1] * a[1] + d[2] * a[0] * a[1]])
    ga = torch.stack([d[0] * w[0] * w[0] * w[0] + d[2] * v[0] * a[1],
                      d[1] * w[1] * v[0] + d[2] * v[0] * a[0]])
    return gw, gv, ga


class Mutator(NasMutator):

    def __init__(self):
        super().__init__()
        self._search_groups = {}
        self._arch_params = nn.ParameterDict(
            dict(one=nn.Parameter(torch.zeros(2))))

    def prepare_from_supernet(self, supernet):
        pass

    def prepare_arch_params(self):
        pass


class Given(nn.Module):
    """data are handed on with a mark that they passed"""

    def forward(self, data, training=False):
        assert training
        return dict(inputs=data['inputs'], data_samples='samples')


class SymDarts(Darts):

    def forward(self, inputs, data_samples=None, mode='tensor'):
        assert mode == 'loss' and data_samples == 'samples'
        net, a = self.architecture, self.mutator.arch_params['one']
        loss = value(net.w, net.v, a, inputs)
        self.last = [loss, slopes(net.w, net.v, a, inputs)]
        net.log.append(inputs)
        return dict(loss=loss, acc=loss.detach() * 0)


class SymDDP(DartsDDP):
    """the wrapper without its communication"""

    def __init__(self, module):
        nn.Module.__init__(self)
        self.module = module

    def forward(self, *a, **k):
        return self.module(*a, **k)


class Wrapper(OptimWrapper):
    """the optimiser wrapper with derivatives of the harness

    Gradients are added up in place, the way torch does it."""
    algo = S = None

    def backward(self, loss, **kwargs):
        algo = self.algo
        given, grads = algo.last
        self.S.eq(loss, given, 'the loss that was computed last')
        params = [algo.architecture.w, algo.architecture.v,
                  algo.mutator.arch_params['one']]
        with torch.no_grad():
            for p, g in zip(params, grads):
                if p.grad is None:
                    p.grad = g.clone()
                else:
                    p.grad.add_(g)
        self._inner_count += 1


def build(S, unroll, wrapped):
    algo = SymDarts(Net(), Mutator(), unroll=unroll)
    symbolize(algo, S)
    algo.data_preprocessor = Given()
    model = SymDDP(algo) if wrapped else algo
    lr = S.real('lr', 0, 1)
    momentum = S.real('momentum', 0, 1) if S.flag('momentum used') else 0
    decay = S.real('weight decay', 0, 1) if S.flag('decay used') else 0
    rate = S.real('lr of the architecture', 0, 1)
    opt = OptimWrapperDict(
        architecture=Wrapper(Sgd(algo.architecture.parameters(), lr,
                                 momentum, decay)),
        mutator=Wrapper(Sgd(algo.mutator.parameters(), rate, 0, 0)))
    for w in opt.values():
        w.algo, w.S = algo, S
    return algo, model, opt, (lr, momentum, decay, rate)


class Sgd(torch.optim.SGD):

    def __init__(self, params, lr, momentum, decay):
        super().__init__(params, lr=.1, momentum=0, weight_decay=0,
                         foreach=False)
        for g in self.param_groups:
            g.update(lr=lr, momentum=momentum, weight_decay=decay)

    def zero_grad(self, set_to_none=True):
        for g in self.param_groups:
            for p in g['params']:
                p.grad = None

    def step(self, closure=None):
        """plain stochastic descent, with the state torch keeps"""
        with torch.no_grad():
            for g in self.param_groups:
                for p in g['params']:
                    if p.grad is None:
                        continue
                    d = p.grad + g['weight_decay'] * p
                    buf = None
                    if not isinstance(g['momentum'], int):
                        buf = self.state[p].get('momentum_buffer')
                        buf = d.clone() if buf is None else \
                            g['momentum'] * buf + d
                        d = buf
                    self.state[p]['momentum_buffer'] = buf
                    p.copy_(p - g['lr'] * d)

    step.hooked = True  # not to be profiled


class Oracle:
    """what the definition asks for"""

    def __init__(self, S, algo, rates):
        self.S = S
        net = algo.architecture
        self.w = [net.w.detach().clone(), net.v.detach().clone()]
        self.a = algo.mutator.arch_params['one'].detach().clone()
        self.lr, self.momentum, self.decay, self.rate = rates
        self.buf = [None, None]

    def grads(self, w, a, d):
        gw, gv, ga = slopes(w[0], w[1], a, d)
        return [gw, gv], ga

    def step(self, train, val, unroll):
        self.search(train, val, unroll)
        g, _ = self.grads(self.w, self.a, train)
        for i in range(2):
            d = g[i] + self.decay * self.w[i]
            if not isinstance(self.momentum, int):
                self.buf[i] = d if self.buf[i] is None else \
                    self.momentum * self.buf[i] + d
                d = self.buf[i]
            self.w[i] = self.w[i] - self.lr * d

    def search(self, train, val, unroll):
        if not unroll:
            _, ga = self.grads(self.w, self.a, val)
            self.a = self.a - self.rate * ga
            return
        g, _ = self.grads(self.w, self.a, train)
        ahead = [w - self.lr * (self.momentum * (0. if b is None else b) +
                                x + self.decay * w)
                 for w, x, b in zip(self.w, g, self.buf)]
        dw, da = self.grads(ahead, self.a, val)
        norm = torch.cat(dw).norm()
        self.S.assume((norm >= 1e-8).item())
        eps = 0.01 / norm
        up = [w + eps * d for w, d in zip(self.w, dw)]
        down = [w + eps * d + -2. * eps * d for w, d in zip(self.w, dw)]
        _, pos = self.grads(up, self.a, train)
        _, neg = self.grads(down, self.a, train)
        self.a = self.a - self.rate * (
            da - self.lr * ((pos - neg) / (2. * eps)))


def two_players(S, unroll, wrapped, steps):
    """both updates follow their definition, step after step"""
    algo, model, opt, rates = build(S, unroll, wrapped)
    net = algo.architecture
    oracle = Oracle(S, algo, rates)
    for i in range(steps):
        train = S.tensor(f'train{i}', (5,))
        val = S.tensor(f'val{i}', (5,))
        net.log.clear()
        oracle.step(train, val, unroll)
        logs = model.train_step([dict(inputs=train), dict(inputs=val)], opt)
        S.eq(algo.mutator.arch_params['one'], oracle.a,
             f'step {i}: the architecture parameters')
        S.eq(net.w, oracle.w[0], f'step {i}: the weights')
        S.eq(net.v, oracle.w[1], f'step {i}: the other weights')
        want = [train, val, train, train, train] if unroll else [val, train]
        S.check(len(net.log) == len(want) and all(
            a is b for a, b in zip(net.log, want)), 'the data that were used')
        S.check(set(logs) == {'mutator.loss', 'mutator.acc', 'supernet.loss',
                              'supernet.acc'}, 'the names of the logs')


def single(S, wrapped):
    """with one optimiser the step is an ordinary one"""
    algo, model, opt, rates = build(S, S.flag('unroll'), wrapped)
    net = algo.architecture
    oracle = Oracle(S, algo, rates)
    oracle.search = lambda *a: None
    train = S.tensor('train', (5,))
    logs = model.train_step(dict(inputs=train), opt['architecture'])
    oracle.step(train, None, False)
    S.eq(net.w, oracle.w[0], 'the weights')
    S.eq(net.v, oracle.w[1], 'the other weights')
    S.eq(algo.mutator.arch_params['one'], oracle.a,
         'the architecture parameters stay')
    S.check(set(logs) == {'loss', 'acc'}, 'the names of the logs')


class Sampler:

    def __init__(self, log):
        self.log = log

    def set_epoch(self, n):
        self.log.append(n)


class Loader:
    """a loader of n batches, new ones each time it is started"""
    metainfo = {}

    def __init__(self, name, n):
        self.name, self.n, self.starts, self.epochs = name, n, 0, []
        self.dataset = self
        self.sampler = Sampler(self.epochs)

    def __len__(self):
        return self.n

    def __iter__(self):
        self.starts += 1
        start = self.starts
        for i in range(self.n):
            yield self.name, start, i


class Runner:
    seed = 0

    def __init__(self, S):
        self.S, self.log = S, []
        self.visualizer = SimpleNamespace()
        self.optim_wrapper = 'wrapper'
        self.model = SimpleNamespace(train=lambda: None,
                                     train_step=self.train_step)
        self.val_loop = None

    def call_hook(self, name, **kw):
        if 'iter' not in name:
            self.log.append(name)

    def train_step(self, data, optim_wrapper):
        assert optim_wrapper == 'wrapper'
        self.log.append(data)
        return {}

    def run(self):
        self.log.append('validated')

    def build_dataloader(self, cfg, seed=None):
        return cfg['made']


def loops(S, by_epoch):
    """every step gets one batch of each loader"""
    runner = Runner(S)
    n, m = S.pick('batches', [1, 2, 3]), S.pick('batches2', [1, 2, 3])
    one, two = Loader('train', n), Loader('search', m)
    second = dict(made=two) if S.flag('from a config') else two
    begin, step = S.int('first validation', 1), S.pick('interval', [1, 2])
    if S.flag('validates'):
        runner.val_loop = runner
    done = S.int('done', 0)
    more = S.pick('to go', [1, 2] if by_epoch else [1, 2, 4])
    if by_epoch:
        loop = DartsEpochBasedTrainLoop(runner, one, second, 1, begin, step)
        loop._epoch, loop._max_epochs = done, done + more
    else:
        loop = DartsIterBasedTrainLoop(runner, one, second, 1, begin, step)
        loop._iter, loop._max_iters = done, done + more
    loop.run()
    want, least = ['before_train'], min(n, m)

    def validate(now, end):
        if runner.val_loop is not None and bool(now >= begin) and (
                bool(now % step == 0) or end):
            want.append('validated')
    if by_epoch:
        for e in range(more):
            want.append('before_train_epoch')
            want += [(('train', e + 1, i), ('search', e + 1, i))
                     for i in range(least)]
            want.append('after_train_epoch')
            validate(done + e + 1, e == more - 1)
    else:
        want.append('before_train_epoch')
        for i in range(more):
            k, j = i // least + 1, i % least
            want.append((('train', k, j), ('search', k, j)))
            validate(done + i + 1, False)
        want.append('after_train_epoch')
        rounds = list(range(1, (more - 1) // least + 1))
        S.check(one.epochs == rounds and two.epochs == rounds,
                'samplers know the round')
    want.append('after_train')
    S.check(runner.log == want, 'data and validation in order')


def tasks(tier):
    out = [Task('loop-epochs', loops, dict(by_epoch=True)),
           Task('loop-iterations', loops, dict(by_epoch=False))]
    for wrapped in (False, True):
        n = '-ddp' if wrapped else ''
        out.append(Task(f'single{n}', single, dict(wrapped=wrapped)))
        for unroll in (False, True):
            for steps in (1, 2, 3) if tier == 'thorough' else (1, 2):
                out.append(Task(
                    f'{"unrolled" if unroll else "plain"}-{steps}{n}',
                    two_players, dict(unroll=unroll, wrapped=wrapped,
                                      steps=steps),
                    dict(timeout_ms=4000)))
    return out
