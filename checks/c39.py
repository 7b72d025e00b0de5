"""C39: evaluation loops report the right networks, hooks save the right ones.
"""
import copy
import json
import os
import tempfile
from types import SimpleNamespace

import torch
import yaml
from mmengine.model import BaseModel
from torch import nn

from mmrazor.engine.hooks import (DMCPSubnetHook, DumpSubnetHook,
                                  EstimateResourcesHook)
from mmrazor.engine.runner import (ItePruneValLoop, SelfDistillValLoop,
                                   SingleTeacherDistillValLoop,
                                   SlimmableValLoop, SubnetValLoop)
from mmrazor.models.algorithms import SPOS
from mmrazor.models.mutables import DiffMutableOP, OneShotMutableOP
from mmrazor.models.mutators import ChannelMutator, NasMutator
from mmrazor.structures import load_fix_subnet

from .c09 import Scale, cfgs
from .c38 import Data, Judge
from .common import Task, plain_copy, same_state, snapshot, symbolize

INFO = dict(
    bounds='up to 3 listed or sampled sub-networks, 1..2 batches, arbitrary '
    'metrics and resources; trainings of up to 5 epochs or iterations with '
    'any saving interval up to 3 and any number of kept files; arbitrary '
    'samples, weights, inputs and costs of sampled networks',
    outside='other file systems, several processes, the calibration itself '
    '(C34)')


class Log(list):

    def info(self, *a):
        pass

    debug = info


class Runner:
    distributed = False

    def __init__(self, model, work_dir='/work'):
        self.model = model
        self.log = model.log = []
        self.logger = Log()
        self.work_dir = work_dir
        self.visualizer = SimpleNamespace()
        self.train_dataloader = 'train data'

    def call_hook(self, name, **kw):
        self.log.append((name, kw))

    def metrics(self):
        return [kw['metrics'] for n, kw in self.log if n == 'after_val_epoch']


class Mutator:
    """sub-networks are names"""

    def __init__(self, S, subnets=()):
        self.S, self.subnets, self.now, self.drawn = S, subnets, None, 0

    def set_choices(self, c):
        self.now = c

    def sample_choices(self):
        self.drawn += 1
        return f'drawn{self.drawn}'

    def set_max_choices(self):
        self.now = 'max'

    def set_min_choices(self):
        self.now = 'min'


class Net(nn.Module):
    """its outputs tell which sub-network made them"""
    data_preprocessor = 'pre'

    def __init__(self, mutator=None):
        super().__init__()
        self.mutator = mutator
        self.part = nn.BatchNorm1d(1)

    def what(self):
        return self.mutator.now if self.mutator else 'student'

    def val_step(self, data):
        assert not self.training and not self.part.training
        assert not torch.is_grad_enabled()
        self.log.append(('step', self.what()))
        return [(self.what(), data)]


def judged(S, judge, data, want):
    """each network saw every batch once and was judged on its own"""
    S.check([got for got, _, _ in judge.said] ==
            [[(w, d) for d in data] for w in want], 'judged networks')
    S.check(all(size == len(data) for _, size, _ in judge.said),
            'number of samples')
    S.check(not judge.got, 'nothing is left over')
    return [m for _, _, m in judge.said]


def named(pairs):
    return {f'{p}{k}': v for p, m in pairs for k, v in m.items()}


def finish(S, runner, out, want):
    S.check(len(runner.metrics()) == 1, 'metrics are reported once')
    S.eq(runner.metrics()[0], want, 'reported metrics')
    S.eq(out, want, 'returned metrics')
    n = [n for n, _ in runner.log if n != 'step' and 'iter' not in n]
    S.check(n[0] == 'before_val' and n[-2:] == ['after_val_epoch',
                                                'after_val'], 'hooks')


def listed(S):
    """all sub-networks of a slimmable network"""
    n = S.pick('sub-networks', [1, 2, 3])
    model = Net(Mutator(S, [f'net{i}' for i in range(n)]))
    runner, data = Runner(model), Data(S.pick('batches', [1, 2]))
    judge = Judge(S)
    model.train(S.flag('training'))
    out = SlimmableValLoop(runner, data, judge).run()
    got = judged(S, judge, data, [f'net{i}' for i in range(n)])
    finish(S, runner, out, named(
        (f'subnet_{i}.', m) for i, m in enumerate(got)))


KINDS = [('max', ), ('max', 'min', 'random0', 'random1'), ('min', 'random'),
         ('random', 'max'), None]


def sampled(S):
    kinds = S.pick('kinds', KINDS)
    model = Net(Mutator(S))
    fixed = kinds is None or S.flag('fixed')
    if kinds:
        model.sample_kinds = list(kinds)
    runner, data = Runner(model), Data(S.pick('batches', [1, 2]))
    judge = Judge(S)
    num = S.int('samples', 1)
    loop = SubnetValLoop(runner, data, judge, evaluate_fixed_subnet=fixed,
                         calibrate_sample_num=num)
    log, cost = [], []

    def calibrate(loader, n):
        log.append((model.what(), loader, n, len(judge.said)))
        model.train()

    def estimate(net):
        S.check(net is model, 'estimates the sub-network')
        cost.append((model.what(), dict(flops=S.real(f'flops{len(cost)}'))))
        return dict(cost[-1][1])

    loop.calibrate_bn_statistics = calibrate
    loop.estimator = SimpleNamespace(estimate=estimate)
    model.mutator.now = 'chosen'
    out = loop.run()
    if fixed:
        nets, pre = ['chosen'], ['fix_subnet.']
    else:
        nets, pre, k = [], [f'{k}_subnet.' for k in kinds], 0
        for kind in kinds:
            k += 'random' in kind
            nets.append(f'drawn{k}' if 'random' in kind else kind)
    got = judged(S, judge, data, nets)
    S.check(len(log) == len(nets), 'calibrated once for each')
    for i, (now, loader, n, before) in enumerate(log):
        S.check(now == nets[i] and before == i, 'calibrated when active')
        S.check(loader == 'train data', 'on the training data')
        S.eq(n, num, 'with the configured number of samples')
    S.check([w for w, _ in cost] == nets, 'resources of the right networks')
    finish(S, runner, out, named(
        (p, {**m, **c}) for p, m, (_, c) in zip(pre, got, cost)))


def distilled(S, teacher):
    model = Net()
    if teacher:
        t = nn.Module()
        t.val_step = lambda d: [('teacher', d)]
        model.teacher = t
    runner, data = Runner(model), Data(S.pick('batches', [1, 2]))
    judge = Judge(S)
    model.train(S.flag('training'))
    if teacher:
        S.check(not hasattr(t, 'data_preprocessor'), 'nothing yet')
        out = SingleTeacherDistillValLoop(runner, data, judge).run()
        S.check(t.data_preprocessor == 'pre', 'prepares data alike')
        a, b = judged(S, judge, data, ['student', 'teacher'])
        S.check(not t.training, 'the teacher evaluates')
        want = named([('', a), ('teacher.', b)])
    else:
        out = SelfDistillValLoop(runner, data, judge).run()
        (a, ) = judged(S, judge, data, ['student'])
        want = named([('student.', a)])
    finish(S, runner, out, want)


class Arch(BaseModel):
    """an ordinary network to prune"""

    def __init__(self):
        super().__init__()
        self.one = nn.Conv2d(2, 3, 1)
        self.bn = nn.BatchNorm2d(3)
        self.two = nn.Conv2d(3, 2, 1)

    def forward(self, inputs, *a, **k):
        return self.two(self.bn(self.one(inputs)))


def files(S, d):
    """only the files of the given directory"""
    return sorted(os.listdir(d))


CACHE, STATIC = [], []


def setup():
    """find the channel units on ordinary values"""
    if not CACHE:
        net = Arch()
        mut = ChannelMutator(
            channel_unit_cfg=dict(type='SequentialMutableChannelUnit'),
            parse_cfg=dict(type='ChannelAnalyzer',
                           demo_input=dict(type='DefaultDemoInput',
                                           input_shape=(1, 2, 1, 1)),
                           tracer_type='BackwardTracer'))
        try:
            mut.prepare_from_supernet(net)
            for n in (1, 2, 3):  # what each description stands for
                mut.mutable_units[0].current_choice = n
                fix = json.loads(json.dumps(mut.config_template(
                    with_unit_init_args=True)))
                static = Arch()
                load_fix_subnet(static, copy.deepcopy(fix),
                                load_subnet_mode='mutator')
                STATIC.append((fix, static.double().eval()))
            CACHE.append((net.double(), mut))
        except Exception as e:  # reported by the harness
            CACHE.append(e)


def pruned(S):
    """what is saved is the network that was evaluated"""
    setup()
    if isinstance(CACHE[0], Exception):
        raise CACHE[0]
    net, mut = plain_copy(CACHE[0])
    S.check([u.num_channels for u in mut.mutable_units] == [3], 'units')
    symbolize(net, S, skip=('mutable', 'mask'))
    for i, u in enumerate(mut.mutable_units):
        u.current_choice = S.pick(f'c{i}', range(1, u.num_channels + 1))

    class Model(nn.Module):

        def __init__(self):
            super().__init__()
            self.net, self.mutator = net, mut

        def forward(self, x, *a, **k):
            return net(x)

        def val_step(self, data):
            assert not net.training
            return [('student', data)]

    x = S.tensor('x', (1, 2, 1, 1))
    model = Model().eval()
    want = net(x)
    before = snapshot(net)
    saved = {}
    S.patch(torch, 'save', lambda o, f: saved.setdefault(f, o))
    with tempfile.TemporaryDirectory() as d:
        runner = Runner(model, d)
        data, judge = Data(S.pick('batches', [1, 2])), Judge(S)
        model.train(S.flag('training'))
        out = ItePruneValLoop(runner, data, judge).run()
        (m, ) = judged(S, judge, data, ['student'])
        finish(S, runner, out, m)
        same_state(S, net, before, 'weights stay')
        S.eq(net(x), want, 'the network stays as it is')
        fn = os.path.join(d, 'fix_subnet.json')
        wn = os.path.join(d, 'fix_subnet_weight.pth')
        S.check(list(saved) == [wn] and files(S, d) == ['fix_subnet.json'],
                'files')
        with open(fn) as f:
            fix = json.load(f)
    state = saved[wn]['state_dict']
    same = [st for d, st in STATIC if d == fix]
    S.check(len(same) == 1, 'the saved description')
    if not same:
        return
    static = plain_copy(same[0])
    have = {f'net.{k}': v for k, v in static.state_dict().items()}
    S.check(set(have) <= set(state), 'saved names')
    for k in have:
        S.check(tuple(state[k].shape) == tuple(have[k].shape), 'saved shapes')
    for name, mod in static.named_modules():
        for coll in (mod._parameters, mod._buffers):
            for k in coll:
                if f'net.{name}.{k}' in state:
                    coll[k] = state[f'net.{name}.{k}']
    S.eq(static(x), want, 'the saved network')


# ------------------------------------------------------------------- hooks
class SposNet(BaseModel):

    def __init__(self, cls):
        super().__init__()
        self.a = cls(cfgs(2))
        self.inner = nn.Module()
        self.inner.b = cls(cfgs(3), alias='b')

    def forward(self, x, *a, **k):
        return self.inner.b(self.a(x))


def ops(model):
    return [model.architecture.a, model.architecture.inner.b]


def fixed_sampling(S):
    """one sample will do where sampling is not the question"""
    S.patch(OneShotMutableOP, 'sample_choice', lambda self: self.choices[-1])


def train_runner(model, d, n, by_epoch):
    r = Runner(model, d)
    del model.log
    r.max_epochs = n if by_epoch else 10 ** 9
    r.max_iters = n if not by_epoch else 10 ** 9
    r._train_loop = r.train_loop = SimpleNamespace(
        max_epochs=r.max_epochs, max_iters=r.max_iters)
    r.epoch = r.iter = 0
    return r


def saving(S, deep):
    """one file at each due time, holding a network of the space"""
    fixed_sampling(S)
    by_epoch = S.flag('by epoch')
    n = S.pick('times', [3, 5] if deep else [3])
    every = S.pick('every', [1, 2, 3, -1])
    last = S.flag('save last')
    keep = S.pick('keep', [-1, 1, 2] if deep else [-1, 1])
    sub = S.flag('out_dir')
    model = SPOS(SposNet(OneShotMutableOP), NasMutator())
    symbolize(model, S)
    before = snapshot(model)
    for i, m in enumerate(ops(model)):
        m.current_choice = S.pick(f'now{i}', m.choices)
    now = [m.current_choice for m in ops(model)]
    with tempfile.TemporaryDirectory() as d:
        work = os.path.join(d, 'exp')
        os.mkdir(work)
        hook = DumpSubnetHook(interval=every, by_epoch=by_epoch,
                              out_dir=os.path.join(d, 'o') if sub else None,
                              max_keep_subnets=keep, save_last=last)
        runner = train_runner(model, work, n, by_epoch)
        hook.before_train(runner)
        place = os.path.join(d, 'o', 'exp') if sub else work
        due = []
        for t in range(1, n + 1):
            if by_epoch:
                runner.epoch = t - 1
                hook.after_train_iter(runner, 0)
                hook.after_train_epoch(runner)
            else:
                runner.iter = t - 1
                hook.after_train_iter(runner, 0)
                hook.after_train_epoch(runner)
            if every > 0 and t % every == 0 or last and t == n:
                due.append(t)
            kind = 'epoch' if by_epoch else 'iter'
            kept = due if keep < 0 else due[-keep:]
            S.check((files(S, place) if os.path.exists(place) else []) ==
                    sorted(f'subnet_{kind}_{k}.yaml' for k in kept),
                    'the due files are kept')
        same_state(S, model, before, 'saving leaves the weights')
        S.check([m.current_choice for m in ops(model)] == now and
                not any(m.is_fixed for m in ops(model)),
                'saving leaves the choices')
        fix = None
        for f in files(S, place) if os.path.exists(place) else []:
            with open(os.path.join(place, f)) as fh:
                fix = yaml.safe_load(fh)
            S.check(set(fix) == {'a', 'b'} or set(fix) == {
                'architecture.a', 'b'}, 'all variables are described')
            for k, m in zip(sorted(fix), ops(model)):
                S.check(fix[k]['chosen'] in m.choices, 'a legal choice')


def sampling(S):
    """the saved network is the sampled one, any sample can be saved"""
    model = SPOS(SposNet(OneShotMutableOP), NasMutator())
    symbolize(model, S)
    x = S.tensor('x', (1, ))
    with tempfile.TemporaryDirectory() as d:
        drawn = []
        real = NasMutator.sample_choices

        def sample(self, *a, **k):
            drawn.append(real(self, *a, **k))
            return drawn[-1]

        S.patch(NasMutator, 'sample_choices', sample)
        hook = DumpSubnetHook(interval=1)
        runner = train_runner(model, d, 1, True)
        hook.before_train(runner)
        hook.after_train_epoch(runner)
        S.check(len(drawn) == 1, 'sampled once')
        fn = os.path.join(d, 'subnet_epoch_1.yaml')
        model.mutator.set_choices(drawn[0])
        want = model.architecture(x)
        load_fix_subnet(model, fn)
        S.eq(model.architecture(x), want, 'the sampled network is saved')


def differentiable(S):
    """the most likely operations are saved, weights stay"""
    from mmrazor.models.algorithms import Darts
    model = Darts(SposNet(DiffMutableOP), NasMutator())
    symbolize(model, S)
    arch = model.mutator.arch_params
    with tempfile.TemporaryDirectory() as d:
        hook = DumpSubnetHook(interval=1)
        runner = train_runner(model, d, 1, True)
        hook.before_train(runner)
        hook.after_train_epoch(runner)
        with open(os.path.join(d, 'subnet_epoch_1.yaml')) as f:
            fix = yaml.safe_load(f)
    S.check(len(fix) == 2, 'all variables are described')
    for k, m in zip(sorted(fix), ops(model)):
        (p, ) = [arch[g] for g, ms in model.mutator.search_groups.items()
                 if m in ms]
        best = m.choices.index(fix[k]['chosen'])
        for j in range(len(m.choices)):
            S.check(p.detach()[best] >= p.detach()[j], 'the most likely one')
        S.check(not m.is_fixed, 'the search goes on')


def resources(S):
    """once per interval, the sampled network, the model itself is kept"""
    fixed_sampling(S)
    by_epoch = S.flag('by epoch')
    every = S.pick('every', [1, 2, 3, -1])
    supernet = S.flag('supernet')
    model = SPOS(SposNet(OneShotMutableOP), NasMutator())
    if supernet:
        model.is_supernet = True
    symbolize(model, S)
    before = snapshot(model)
    seen = []
    hook = EstimateResourcesHook(interval=every, by_epoch=by_epoch)

    def estimate(m):
        seen.append((t, m))
        return {}

    hook.estimator = SimpleNamespace(estimate=estimate)
    runner = train_runner(model, '/work', 9, by_epoch)
    total = 6
    for t in range(total):
        runner.epoch = runner.iter = t
        hook.after_val_iter(runner, 0)
        hook.after_val_epoch(runner)
    times = [t for t, _ in seen]
    S.check(len(times) == (total // every if every > 0 else 0) and all(
        b - a == every for a, b in zip(times, times[1:])),
        'once in every interval')
    for _, m in seen:
        S.check((m is not model) == supernet, 'sampled or as it is')
        if supernet:
            S.check(all(o.is_fixed for o in ops(m)), 'a single network')
    S.check(not any(o.is_fixed for o in ops(model)), 'the search goes on')
    same_state(S, model, before, 'weights stay')


def dmcp(S):
    """sampled networks are close to the target"""
    n = S.pick('networks', [0, 1, 2])
    target = S.real('target', 1, 50)

    class Model:
        target_flops = target
        log = None

        def __init__(self):
            self.draws = []
            self.mode = None

        def set_subnet(self, mode, arch_train=None):
            S.check(arch_train is False, 'nothing is trained')
            self.mode = mode
            self.cost = S.real(f'cost{len(self.draws)}', 0, 10 ** 9)
            self.draws.append((mode, self.cost))
            if len(self.draws) > n + 2 and mode == 'direct':
                S.assume(self.near())

        def near(self):
            return (self.cost >= target * 1e6 * .96) & (
                self.cost <= target * 1e6 * 1.04)

        def calc_current_flops(self):
            return self.cost

    model = Model()
    saved = []
    hook = DMCPSubnetHook(n)
    hook._save_subnet = lambda m, r, path: saved.append(
        (path, len(m.draws) - 1))
    with tempfile.TemporaryDirectory() as d:
        runner = Runner(model, d)
        hook.after_run(runner)
        root = os.path.join(d, 'model_sample')
        S.check([p for p, _ in saved] == [
            os.path.join(root, f'subnet_{i + 1}.json')
            for i in range(n)] + [os.path.join(root, 'excepted_ch.json')],
            'names of the files')
    for i, (_, k) in enumerate(saved):
        mode, cost = model.draws[k]
        S.check(mode == ('expected' if i == n else 'direct'), 'kind')
        if mode == 'direct':
            S.check(cost <= target * 1e6 * 1.05, 'not above the target')
            S.check(cost >= target * 1e6 * .95, 'not below the target')
    S.check(len(set(k for _, k in saved)) == len(saved), 'samples differ')
    for k, (mode, cost) in enumerate(model.draws):
        if mode == 'direct' and k not in [k for _, k in saved[:-1]] and \
                k + 1 != saved[-1][1]:
            S.check((cost > target * 1e6 * 1.05) |
                    (cost < target * 1e6 * .95), 'no good one is dropped')


def tasks(tier):
    deep = tier == 'thorough'
    return [
        Task('listed', listed, {}),
        Task('sampled', sampled, {}),
        Task('distilled-teacher', distilled, dict(teacher=True)),
        Task('distilled-self', distilled, dict(teacher=False)),
        Task('pruned', pruned, {}, dict(setup=setup)),
        Task('saving', saving, dict(deep=deep)),
        Task('sampling', sampling, {}),
        Task('differentiable', differentiable, {}),
        Task('resources', resources, {}),
        Task('dmcp', dmcp, {}),
    ]
