"""C18: greedy channel search takes the best removal and meets each target."""
import copy
import os
import tempfile
from types import SimpleNamespace

import torch
from mmengine import fileio
from torch import nn

from mmrazor.engine.runner.autoslim_greedy_search_loop import \
    AutoSlimGreedySearchLoop
from mmrazor.models.mutators import OneShotChannelMutator

from .c16 import Loader, Logger, Mem
from .common import Task

INFO = dict(
    bounds='networks of 1..3 prunable groups with up to 4 widths given as '
    'numbers or ratios, 1..3 targets in any order; scores and resources are '
    'arbitrary functions of the network; interruption after every saved '
    'step, twice in a row included',
    outside='several processes; two different recorded networks whose '
    'resources agree to two decimals share one file name')


class Model(nn.Module):

    def __init__(self, widths, mode):
        super().__init__()
        layers, last = [], 3
        for w in widths:
            layers += [nn.Conv2d(last, w, 1), nn.ReLU()]
            last = w
        layers.append(nn.Conv2d(last, 2, 1))
        self.architecture = nn.Sequential(*layers)
        self.unit = dict(number=lambda w: list(range(1, w + 1)),
                         ratio=lambda w: [(i + 1) / w for i in range(w)])
        m = widths[0]
        cand = self.unit[mode](m)
        self.mutator = OneShotChannelMutator(
            channel_unit_cfg=dict(
                type='OneShotMutableChannelUnit',
                default_args=dict(candidate_choices=cand, choice_mode=mode)),
            parse_cfg=dict(type='ChannelAnalyzer', demo_input=(1, 3, 2, 2),
                           tracer_type='BackwardTracer'))
        self.mutator.prepare_from_supernet(self.architecture)

    def forward(self, x):
        return self.architecture(x)

    def val_step(self, data):
        return [data]


_MODELS = {}


def model(widths, mode):
    if (widths, mode) not in _MODELS:
        old = torch.get_default_dtype()
        torch.manual_seed(0)
        m = Model(widths, mode)
        m.unit = None
        _MODELS[widths, mode] = m
        torch.set_default_dtype(old)
    m = _MODELS[widths, mode]
    m.mutator.set_max_choices()
    return m


class World:

    def __init__(self, S, m, d, int_flops):
        self.S, self.model, self.dir = S, m, d
        self.log, self.score, self.cost = [], {}, {}
        self.int = int_flops
        self.names = [u.name for u in m.mutator.mutable_units]

    def key(self):
        c = self.model.mutator.current_choices
        return tuple(c[n] for n in self.names)

    def estimate(self, model, **kw):
        k = self.key()
        if k not in self.cost:
            self.cost[k] = self.S.int(f'flops{len(self.cost)}', 0, 99)
        self.log.append(('est', k))
        return dict(flops=self.cost[k], params=0., latency=0.)

    def process(self, **kw):
        pass

    def evaluate(self, n):
        k = self.key()
        if k not in self.score:
            self.score[k] = self.S.int(f'score{len(self.score)}')
        self.log.append(('eval', k))
        return {'accuracy/top1': self.score[k]}

    def loop(self, targets, resume=None):
        lp = AutoSlimGreedySearchLoop.__new__(AutoSlimGreedySearchLoop)
        self.model.mutator.set_max_choices()
        runner = SimpleNamespace(
            model=self.model, rank=0, distributed=False, logger=Logger(),
            work_dir=self.dir, call_hook=lambda *a, **k: None,
            visualizer=SimpleNamespace())
        ld = Loader()
        ld.dataset = _Data()
        from mmrazor.registry import TASK_UTILS
        self.S.patch(TASK_UTILS, 'build', lambda *a, **k: self)
        lp.__init__(runner, ld, self, targets, resume_from=resume)
        lp.estimator = self
        return lp


class _Data(list):
    metainfo = {}

    def __init__(self):
        super().__init__([0])


def greedy(S, w, targets, cand):
    """the search by its definition, over the same scores and resources;
    -> recorded networks, None when a target cannot be met; also checks that
    the log contains exactly the evaluations of the definition"""
    log = list(w.log)
    S.check(log and log[0] == ('est', tuple(c[-1] for c in cand)),
            'starts at the largest network')
    pos, cur, out = 1, [len(c) - 1 for c in cand], []

    def net(b):
        return tuple(c[i] for c, i in zip(cand, b))

    for t in sorted(targets, reverse=True):
        while bool(w.cost[net(cur)] > t):
            opts = []
            for i in range(len(cur)):
                if cur[i]:
                    opts.append(cur[:i] + [cur[i] - 1] + cur[i + 1:])
            done = log[pos:pos + len(opts)]
            S.check(sorted(done) == sorted(('eval', net(o)) for o in opts),
                    'every legal single reduction is evaluated')
            pos += len(opts)
            if not opts:
                S.check(pos == len(log), 'nothing after the smallest')
                return None
            kind, nxt = log[pos] if pos < len(log) else ('', None)
            pos += 1
            S.check(kind == 'est' and nxt in [net(o) for o in opts],
                    'one of the reductions is taken')
            for o in opts:
                S.check(w.score[net(o)] <= w.score[nxt],
                        'the best reduction is taken')
            (cur, ) = [o for o in opts if net(o) == nxt]
        out.append(net(cur))
    S.check(pos == len(log), 'nothing else is evaluated')
    return out


def recorded(lp, w, cand):
    return [tuple(cand[i][s[n] - 1] for i, n in enumerate(w.names))
            for s in lp.searched_subnet]


def _cands(m):
    return [list(u.candidate_choices) for u in m.mutator.mutable_units]


def files(S, w, lp, want):
    costs = [w.cost[k] for k in want]
    for a, b in zip(lp.searched_subnet_flops, costs):
        S.check(a == b, 'recorded resources')
    S.check(len(lp.searched_subnet_flops) == len(want), 'recorded resources')


def search(S, widths, mode, n_targets):
    m = model(widths, mode)
    cand = _cands(m)
    targets = tuple(S.int(f't{i}', 0, 99) for i in range(n_targets))
    with tempfile.TemporaryDirectory() as d:
        Mem(S)
        w = World(S, m, d, True)
        lp = w.loop(targets)
        lp._save_searched_subnet = lambda: None
        try:
            lp.run()
            ok = True
        except RuntimeError:
            ok = False
        want = greedy(S, w, targets, cand)
        S.check(ok == (want is not None), 'fails exactly when out of reach')
        if ok:
            S.check(recorded(lp, w, cand) == want,
                    'the first network within each target')
            files(S, w, lp, want)
        for b in m.mutator.current_choices.values():
            S.check(b is not None, 'choices stay legal')


def resume(S, widths, mode, n_targets, twice):
    m = model(widths, mode)
    cand = _cands(m)
    targets = tuple(S.int(f't{i}', 0, 99) for i in range(n_targets))
    with tempfile.TemporaryDirectory() as d:
        mem = Mem(S)
        w = World(S, m, d, True)
        lp = w.loop(targets)
        lp._save_searched_subnet = lambda: None
        saves, real = [], lp._save_searcher_ckpt

        def spy():
            real()
            saves.append(copy.deepcopy(
                mem.files[os.path.join(d, 'latest.pkl')]))

        lp._save_searcher_ckpt = spy
        try:
            lp.run()
        except RuntimeError:
            S.assume(False)
        want, flops = recorded(lp, w, cand), list(lp.searched_subnet_flops)
        if not saves:
            S.assume(False)
        at = S.pick('at', range(len(saves)))
        fn = os.path.join(d, 'latest.pkl')
        mem.files[fn] = saves[at]
        lp = w.loop(targets, fn)
        lp._save_searched_subnet = lambda: None
        if twice:
            # stopped again right after the next saved step
            class Stop(Exception):
                pass

            real2 = lp._save_searcher_ckpt

            def stop():
                real2()
                raise Stop

            lp._save_searcher_ckpt = stop
            try:
                lp.run()
            except Stop:
                lp = w.loop(targets, fn)
                lp._save_searched_subnet = lambda: None
                lp.run()
        else:
            lp.run()
        S.check(recorded(lp, w, cand) == want, 'the same networks')
        S.check(len(lp.searched_subnet_flops) == len(flops),
                'the same resources')
        for a, b in zip(lp.searched_subnet_flops, flops):
            S.check(a == b, 'the same resources')


def saved(S, widths, mode):
    """the files hold the recorded networks"""
    m = model(widths, mode)
    cand = _cands(m)
    with tempfile.TemporaryDirectory() as d:
        Mem(S)
        w = World(S, m, d, False)
        a, b = S.pick('a', range(2, 8)), S.pick('b', range(2, 8))
        if a < b:
            S.assume(False)

        def estimate(model, **kw):
            w.log.append(('est', w.key()))
            w.cost[w.key()] = float(sum(w.key()))
            return dict(flops=w.cost[w.key()])

        w.estimate = estimate
        lp = w.loop((b, a))
        lp.run()
        want = recorded(lp, w, cand)
        have = sorted(f for f in os.listdir(d) if f.endswith('.yaml'))
        S.check(have == sorted({'FLOPS_{:.2f}M.yaml'.format(sum(k))
                                for k in want}), 'one file per network')
        for k in want:
            fix = fileio.load(os.path.join(
                d, 'FLOPS_{:.2f}M.yaml'.format(sum(k))))
            from mmrazor.structures import export_fix_subnet
            from mmrazor.structures import convert_fix_subnet
            m.mutator.set_choices(dict(zip(w.names, k)))
            now, _ = export_fix_subnet(m)
            S.check(fix == convert_fix_subnet(now),
                    'the file describes the recorded network')


def tasks(tier):
    deep = tier == 'thorough'
    O = dict(torch=False)
    out = []
    sets = [((2, ), 'number', 1), ((4, ), 'number', 2), ((2, 2), 'number', 2),
            ((3, 3), 'number', 1), ((2, 2), 'ratio', 1), ((4, ), 'number', 3)]
    if deep:
        sets += [((3, 3), 'number', 2), ((2, 2, 2), 'number', 1),
                 ((4, 4), 'ratio', 1)]
    for w, mode, n in sets:
        model(w, mode)
        nm = f'{"x".join(map(str, w))}-{mode}-{n}'
        out.append(Task(f'search-{nm}', search,
                        dict(widths=w, mode=mode, n_targets=n), O))
        if w != (3, 3) or deep:
            for t in (False, True):
                out.append(Task(f'resume-{nm}-{"twice" if t else "once"}',
                                resume, dict(widths=w, mode=mode,
                                             n_targets=n, twice=t), O))
    out.append(Task('saved', saved, dict(widths=(4, 4), mode='number'), O))
    model((4, 4), 'number')
    return out
