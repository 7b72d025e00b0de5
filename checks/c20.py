"""C20: iterative pruning reaches its target on schedule."""
import copy

import torch
from mmengine import MessageHub
from mmengine.model import BaseModel
from torch import nn

import mmrazor.models  # noqa: F401
from mmrazor.models.mutables import SequentialMutableChannelUnit
from mmrazor.models.algorithms import DCFF, ItePruneAlgorithm
from mmrazor.models.algorithms.pruning.ite_prune_algorithm import \
    ItePruneConfigManager

from .common import Task

INFO = dict(
    bounds='schedules of 1..6 steps (12 thorough) of length 1, 2, 3 or 7 '
    'iterations, every iteration number and every pair of starting and '
    'target count (up to 4096) or ratio; whole training runs of the real '
    'ItePruneAlgorithm and DCFF over networks of two groups of 4..6 '
    'channels with every target, interrupted and resumed after every '
    'iteration, by iterations and by epochs',
    outside='schedules that do not fit into the training run; ratios for '
    'groups measured in counts and counts for groups measured in ratios '
    '(the documentation asks for the mode of the choice template); '
    'intermediate steps of a resumed run start from the loaded structure')


class Arch(BaseModel):

    def __init__(self, widths=(4, 5)):
        super().__init__()
        self.a = nn.Conv2d(1, widths[0], 1)
        self.b = nn.Conv2d(widths[0], widths[1], 1)
        self.c = nn.Conv2d(widths[1], 2, 1)
        self.ran = 0

    def forward(self, inputs, data_samples=None, mode='tensor'):
        self.ran += 1
        return self.c(self.b(self.a(inputs)))


def manager(S, steps, freq, kind, linear):
    if kind == 'count':
        s = S.int('start', 1, 4096)
        t = S.int('target', 1, 4096)
        S.assume(t <= s)
        slack = 1
    else:
        s = S.real('start', 0, 1)
        t = S.real('target', 0, 1)
        S.assume(t <= s)
        slack = 1e-6
    m = ItePruneConfigManager({'u': t}, {'u': s, 'other': s}, freq, steps,
                              linear)
    i = S.int('iteration', 0, 10000)
    due = i % freq == 0
    if not m.is_prune_time(i):
        S.check(_not(due & (i < freq * steps)), 'a due step is not skipped')
        return
    S.check(due, 'pruning happens at multiples of the step length')
    S.check(i < freq * steps, 'nothing happens after the last step')
    k = i // int(freq) + 1
    now = m.prune_at(i)
    S.check(list(now) == ['u'], 'only the targeted groups are pruned')
    now = now['u']
    if not linear:
        S.check(now == t, 'a constant schedule prunes to the target')
        return
    exact = s + (t - s) * k / steps
    S.check((now - exact <= slack) & (exact - now <= slack),
            'steps are equally spaced')
    S.check((now <= s + 1e-9) & (now >= t - 1e-9),
            'the structure stays between start and target')
    if k == steps:
        S.check(now == t, 'the last step is the target')
        S.raises(AssertionError, m.prune_at, i + int(freq),
                 msg='there is no step after the last one')
    else:
        S.check(m.is_prune_time(i + int(freq)), 'the next step comes')
        S.check(m.prune_at(i + int(freq))['u'] <= now + 1e-9,
                'channels never come back')


def _not(c):
    return not c if isinstance(c, bool) else ~c


class Hub:
    """what a training loop puts into the message hub"""

    def __init__(self, S, max_iters, epochs):
        self.info = dict(iter=0, epoch=0, max_iters=max_iters,
                         max_epochs=epochs)
        self.per = max_iters // epochs
        hub = type('Hub', (), dict(runtime_info=self.info))()
        S.patch(MessageHub, 'get_current_instance',
                classmethod(lambda cls: hub))

    def at(self, i):
        self.info.update(iter=i, epoch=i // self.per)


def build(cls, mode, target, freq, times, linear, widths=(4, 5)):
    torch.manual_seed(0)
    dcff = cls is DCFF
    return cls(
        Arch(widths),
        mutator_cfg=dict(
            type='DCFFChannelMutator' if dcff else 'ChannelMutator',
            channel_unit_cfg=dict(
                type='DCFFChannelUnit'
                if dcff else 'SequentialMutableChannelUnit',
                default_args=dict(choice_mode=mode)),
            parse_cfg=dict(type='ChannelAnalyzer', demo_input=(1, 1, 2, 2),
                           tracer_type='BackwardTracer')),
        target_pruning_ratio=target, step_freq=freq, prune_times=times,
        linear_schedule=linear)


def names(mode='number'):
    a = build(ItePruneAlgorithm, mode, None, 1, 1, True)
    return [u.name for u in a.mutator.mutable_units]


NAMES = names()
N = dict(zip(NAMES, (4, 5)))


def widths(algo):
    return {u.name: int(u.mutable_channel.current_mask.sum())
            for u in algo.mutator.mutable_units}


class Structure:
    """stands in for the mutator: takes and reports choices"""

    def __init__(self, choices):
        self.now = dict(choices)
        self.set = []
        self.mutable_units = []
        for n in choices:
            u = SequentialMutableChannelUnit(8)
            u.name = n
            self.mutable_units.append(u)

    @property
    def current_choices(self):
        return dict(self.now)

    def set_choices(self, config):
        self.set.append(dict(config))
        self.now.update(config)

    def calc_information(self, tau):
        self.tau = tau


def schedule(S, cls, mode, freq, times, linear, epochs, resume):
    """whole runs, for every start and target"""
    per = 3 if epochs > 1 else 1
    step, freq_arg, times_arg = freq * per, freq, times
    max_iters = per * epochs if epochs > 1 else step * times + 2
    if cls is DCFF:
        # either is given, the other follows from the length of the run
        if S.flag('by step length'):
            times_arg, times = 0, max_iters // step
        else:
            freq_arg, step = 0, max_iters // times
    hub = Hub(S, max_iters, epochs)
    start, goal = {}, {}
    for n in 'abc':
        if mode == 'number':
            start[n] = S.int(f'start {n}', 1, 512)
            goal[n] = S.int(f'goal {n}', 1, 512)
        else:
            start[n] = S.real(f'start {n}', 0, 1)
            goal[n] = S.real(f'goal {n}', 0, 1)
        S.assume(goal[n] <= start[n])
    target = {n: goal[n] for n in 'ab'}

    def build(choices):
        algo = cls.__new__(cls)
        nn.Module.__init__(algo)
        algo.architecture = Arch()
        algo.mutator = Structure(choices)
        algo.target_pruning_ratio = target
        algo.step_freq, algo.prune_times = freq_arg, times_arg
        algo.linear_schedule = linear
        return algo

    algo = build(start)
    stop = S.pick('stop', range(1, max_iters)) if resume else None
    x = torch.ones(1, 1, 2, 2)
    last, base = dict(start), dict(start)
    for i in range(max_iters):
        if i == stop:
            algo = build(last)
            base = dict(last)
        hub.at(i)
        algo.mutator.set = []
        if i % step == 0:
            algo.eval()
            algo(x)
            S.check(algo.mutator.set == [], 'validation prunes nothing')
        algo.train()
        before = algo.architecture.ran
        algo(x)
        S.check(algo.architecture.ran == before + 1, 'the network runs once')
        now = algo.mutator.now
        k = i // step + 1
        if i % step == 0 and k <= times:
            S.check(len(algo.mutator.set) > 0, 'a due step is done')
            for c in algo.mutator.set:
                for n in target:
                    S.check(c[n] == now[n], 'a step is one structure')
            S.check(now['c'] == start['c'], 'an untargeted group is kept')
            for n in target:
                if k == times or not linear:
                    S.check(now[n] == goal[n], 'the target is reached')
                else:
                    exact = base[n] + (goal[n] - base[n]) * k / times
                    slack = 1.001 if mode == 'number' else 1e-6
                    S.check((now[n] - exact <= slack)
                            & (exact - now[n] <= slack),
                            'steps are equally spaced')
                S.check((goal[n] <= now[n] + 1e-9) &
                        (now[n] <= last[n] + 1e-9),
                        'channels only go, down to the target')
        else:
            S.check(algo.mutator.set == [],
                    'nothing is pruned between the steps')
        last = dict(now)
    for n in target:
        S.check(last[n] == goal[n], 'the run ends at the target')
    S.check(list(target) == ['a', 'b'], 'the configuration is left alone')


def network(S, cls, mode, freq, times):
    """the same on a real network, with its masks and state dictionaries"""
    max_iters = freq * times + 2
    hub = Hub(S, max_iters, 1)
    n, other = NAMES if S.flag('first') else NAMES[::-1]
    goal = S.pick('goal', range(1, N[n] + 1))
    target = {n: goal if mode == 'number' else goal / N[n]}
    times_arg = times
    if cls is DCFF:
        times_arg, times = 0, max_iters // freq
    algo = build(cls, mode, target, freq, times_arg, True)
    stop = S.pick('stop', range(0, max_iters))
    x = torch.ones(1, 1, 2, 2)
    last = N
    for i in range(max_iters):
        if i and i == stop:
            state = copy.deepcopy(algo.state_dict())
            algo = build(cls, mode, target, freq, times_arg, True)
            algo.load_state_dict(state)
            S.check(widths(algo) == last, 'the structure is resumed')
        hub.at(i)
        algo.train()
        algo(x)
        now = widths(algo)
        S.check(now[other] == N[other], 'an untargeted group is kept')
        if i % freq == 0 and i // freq < times:
            S.check(goal <= now[n] <= last[n],
                    'channels only go, down to the target')
        else:
            S.check(now == last, 'nothing is pruned between the steps')
        last = now
    S.check(last[n] == goal, 'the run ends at the target')


def temperature(S):
    """the fusion temperature falls with training"""
    algo = DCFF.__new__(DCFF)
    m = S.pick('max', [5, 20, 100])
    i = S.pick('iter', range(0, 5))
    a, b = (DCFF._calc_temperature(algo, j, m) for j in (i, i + 1))
    S.check(0 < b <= a <= 1 + 1e-9, 'the fusion temperature falls')


def tasks(tier):
    deep = tier == 'thorough'
    out = []
    for steps in range(1, 13 if deep else 7):
        for freq in (1, 2, 3, 7, 4.0):
            for kind in ('count', 'ratio'):
                for linear in (True, False):
                    if not linear and (steps > 3 or freq == 7):
                        continue
                    out.append(Task(
                        f'manager {steps}x{freq} {kind} {linear}', manager,
                        dict(steps=steps, freq=freq, kind=kind,
                             linear=linear), dict(time=200)))
    for cls in (ItePruneAlgorithm, DCFF):
        for mode in ('number', 'ratio'):
            for freq, times, linear, epochs in [
                    (1, 3, True, 1), (2, 2, True, 1), (3, 1, True, 1),
                    (1, 2, True, 4), (2, 2, True, 4), (1, 3, False, 1),
                    (1, 3, False, 5)] + ([(2, 4, True, 1), (1, 5, True, 1),
                                          (1, 4, True, 6), (3, 5, True, 1),
                                          (2, 3, False, 7),
                                          (5, 4, True, 1)] if deep else []):
                for resume in (False, True):
                    out.append(Task(
                        f'{cls.__name__} {mode} every {freq} x{times} '
                        f'linear={linear} epochs={epochs} resume={resume}',
                        schedule, dict(cls=cls, mode=mode, freq=freq,
                                       times=times, linear=linear,
                                       epochs=epochs, resume=resume),
                        dict(time=300)))
            for freq, times in [(1, 2), (2, 2)] + (
                    [(1, 3), (3, 2)] if deep else []):
                out.append(Task(
                    f'network {cls.__name__} {mode} {freq} x{times}',
                    network, dict(cls=cls, mode=mode, freq=freq,
                                  times=times),
                    dict(torch=False, random=False, no_grad=False, time=300)))
    out.append(Task('temperature', temperature))
    return out
