"""C16: evolution search keeps the best feasible candidates, also on resume."""
import copy
import os
import random
import tempfile
import types
from types import SimpleNamespace

import numpy as np
import torch
from mmengine import fileio
from torch import nn

from mmrazor.engine.runner.evolution_search_loop import EvolutionSearchLoop
from mmrazor.models.mutables import OneShotMutableValue
from mmrazor.models.mutators import NasMutator
from mmrazor.structures import Candidates

from .c09 import Scale
from .common import Task

INFO = dict(
    bounds='up to 3 generations of pools of 2 (quick) or 3 (thorough) '
    'candidates, elites of 1..3, one or two search groups of two choices, '
    'every random draw, every feasibility pattern and every interruption '
    'point; scores are arbitrary numbers, one per evaluation',
    outside='several processes; candidates given from outside are taken as '
    'they are; scores are compared after the rounding to two decimals')


class Mem:
    """stands for the pickle files (values stay symbolic)"""

    def __init__(self, S):
        self.files = {}
        dump, load = fileio.dump, fileio.load

        def _dump(obj, file=None, *a, **k):
            if str(file).endswith('.pkl'):
                self.files[str(file)] = copy.deepcopy(obj)
                open(str(file), 'w').close()
                return
            return dump(obj, file, *a, **k)

        def _load(file, *a, **k):
            if str(file) in self.files:
                return copy.deepcopy(self.files[str(file)])
            return load(file, *a, **k)

        S.patch(fileio, 'dump', _dump)
        S.patch(fileio, 'load', _load)


class Arch(nn.Module):

    def __init__(self, n):
        super().__init__()
        self.vals = nn.ModuleList([OneShotMutableValue(list(range(12)))
                                   for _ in range(n)])
        self.plain = Scale()

    def forward(self, x):
        return self.plain(x) + sum(v.current_choice for v in self.vals)


class Model(nn.Module):

    def __init__(self, n):
        super().__init__()
        self.architecture = Arch(n)
        self.mutator = NasMutator()
        self.mutator.prepare_from_supernet(self.architecture)
        self.log = []

    def forward(self, x):
        return self.architecture(x)

    def val_step(self, data):
        self.ran = dict(self.mutator.current_choices)
        return [data]


class Logger:

    def __getattr__(self, k):
        return lambda *a, **kw: None


class Shared:

    def __init__(self, fn):
        self.fn = fn

    def __call__(self, *a, **k):
        return self.fn(*a, **k)

    def __deepcopy__(self, memo):
        return self


class World:
    """a model, its evaluation and its resources"""
    repeat, probs = False, (1., 1.)

    def __init__(self, S, groups, work_dir, limit):
        self.S, self.dir = S, work_dir
        self.model = Model(groups)
        self.seen = []            # (subnet, score) in order of evaluation
        self.n = 0
        self.ok = {}
        self.limit = limit
        self.sampled = 0
        # every sample is a new sub-network or the previous one again; which
        # one does not matter as feasibility and scores are arbitrary
        self.model.mutator.sample_choices = Shared(self.sample)

    def sample(self, *a, **k):
        again = self.repeat and self.sampled and \
            self.S.flag(self.S.fresh_name('again'))
        if not again:
            self.sampled += 1
        return {g: (self.sampled + i) % 12 for i, g in
                enumerate(self.model.mutator.search_groups)}

    # the estimator: feasibility is an arbitrary function of the subnet
    def estimate(self, model, **kw):
        key = str(self.model.mutator.current_choices)
        if key not in self.ok:
            # at most `limit` sub-networks beyond the budget
            bad = list(self.ok.values()).count(False)
            self.ok[key] = bad >= self.limit or \
                self.S.flag(f'ok{len(self.ok)}')
        return dict(flops=1.0 if self.ok[key] else 9.0,
                    params=self.params(key), latency=0.0)

    @staticmethod
    def params(key):
        """of a sub-network, different for different ones"""
        return float(sum(ord(c) * (i + 1) for i, c in enumerate(key)))

    # the evaluator
    def process(self, **kw):
        pass

    def evaluate(self, n):
        self.n += 1
        s = self.S.int(f'score{self.n}')
        self.seen.append((dict(self.model.ran), s))
        return {'accuracy/top1': s}

    def loop(self, epochs, cand, top, mut, cross, resume=None, keep=3):
        lp = EvolutionSearchLoop.__new__(EvolutionSearchLoop)
        lp.__dict__['_runner'] = SimpleNamespace(
            model=self.model, rank=0, distributed=False, logger=Logger(),
            work_dir=self.dir, call_hook=lambda *a, **k: None)
        lp.model = self.model
        lp.dataloader = Loader()
        lp.evaluator = self
        lp._max_epochs, lp._epoch, lp._max_iters, lp._iter = epochs, 0, 0, 0
        lp.num_candidates, lp.top_k = cand, top
        lp.constraints_range = dict(flops=(0, 5))
        lp.calibrate_sample_num = -1
        lp.score_key = 'accuracy/top1'
        lp.num_mutation, lp.num_crossover = mut, cross
        lp.mutate_prob, lp.crossover_prob = self.probs
        lp.max_keep_ckpts, lp.resume_from = keep, resume
        lp.fp16, lp.use_predictor, lp.predictor_cfg = False, False, None
        lp.candidates, lp.top_k_candidates = Candidates(), Candidates()
        lp.estimator = self
        return lp


class Loader(list):

    def __init__(self):
        super().__init__([torch.zeros(1)])
        self.dataset = [0]


def ordered(S, scores):
    """descending, decided by the path"""
    out = []
    for s in scores:
        i = 0
        while i < len(out) and bool(out[i] >= s):
            i += 1
        out.insert(i, s)
    return out


def elite(S, w, lp, top, what):
    """the elite is the best of everything evaluated, in order"""
    best = ordered(S, [s for _, s in w.seen])[:top]
    got = lp.top_k_candidates
    S.check(len(got) == len(best), f'{what}: size of the elite')
    for a, b in zip(got.scores, best):
        S.check(a == b, f'{what}: best scores in order')
    for sub, sc in zip(got.subnets, got.scores):
        S.check(any(sub == o and bool(sc == s) for o, s in w.seen),
                f'{what}: an evaluated candidate with its score')
    if w.ok:
        resources(S, w, got, what)


def resources(S, w, pool, what):
    for sub, p, f in zip(pool.subnets, pool.resources('params'),
                         pool.resources('flops')):
        S.check(p == w.params(str(sub)) and f == (
            1.0 if w.ok.get(str(sub)) else 9.0),
            f'{what}: the resources of the candidate')


def generation(S, w, lp, start, cand, what):
    now = w.seen[start:]
    S.check(len(now) == cand, f'{what}: the pool has its configured size')
    for sub, _ in now:
        S.check(w.ok.get(str(sub), False), f'{what}: within the budget')


def final(S, w, lp, what):
    fix = fileio.load(os.path.join(w.dir, 'best_fix_subnet.yaml'))
    chosen = {k: v['chosen'] for k, v in fix.items()}
    want = lp.top_k_candidates.subnets[0]
    names = {}
    for g, ms in w.model.mutator.search_groups.items():
        for n, m in w.model.named_modules():
            if any(m is x for x in ms):
                names[n] = want[g]
    S.check(chosen == names, f'{what}: the best one is exported')
    best = ordered(S, [s for _, s in w.seen])[0]
    S.check(any(bool(s == best) and sub == want for sub, s in w.seen),
            f'{what}: nothing scored better')
    pth = [f for f in os.listdir(w.dir) if f.endswith('.pth')]
    S.check(len(pth) == 1, f'{what}: weights are exported')


def epochs(S, groups, n, cand, top, mut, cross, limit, repeat=False,
           probs=(1., 1.)):
    """generation by generation"""
    with tempfile.TemporaryDirectory() as d:
        Mem(S)
        w = World(S, groups, d, limit)
        w.repeat, w.probs = repeat, probs
        lp = w.loop(n, cand, top, mut, cross)
        for e in range(n):
            start = len(w.seen)
            lp.run_epoch()
            S.check(lp._epoch == e + 1, 'one generation')
            generation(S, w, lp, start, cand, f'generation {e + 1}')
            elite(S, w, lp, top, f'generation {e + 1}')
            nxt = lp.candidates
            S.check(len(nxt) <= mut + cross, 'size of the next generation')
            for sub in (nxt.subnets if len(nxt) else []):
                S.check(w.ok.get(str(sub), False), 'next candidates feasible')
            if len(nxt):
                resources(S, w, nxt, 'next candidates')


def dry(S, mut, cross):
    """no new sub-network is feasible after the first generation"""
    with tempfile.TemporaryDirectory() as d:
        Mem(S)
        w = World(S, 2, d, 10**6)
        w.probs = (.5, .5)
        lp = w.loop(2, 2, 2, mut, cross)
        estimate, tries = w.estimate, [0]

        def few(model, **kw):
            key = str(w.model.mutator.current_choices)
            if key not in w.ok:
                tries[0] += 1
                w.ok[key] = len(w.ok) < 2 or tries[0] > 200
            return estimate(model, **kw)

        w.estimate = few
        turn = [0]

        def draw(*a):  # genes alternate between the parents
            turn[0] += 1
            return .9 if turn[0] % 2 else .1

        S.patch(np.random, 'random_sample', draw)
        pick = [0]

        def choice(c):
            pick[0] += 1
            return c[pick[0] % len(c)]

        S.patch(random, 'choice', choice)
        for e in range(2):
            start = len(w.seen)
            lp.run_epoch()
            generation(S, w, lp, start, 2, f'generation {e + 1}')
            elite(S, w, lp, 2, f'generation {e + 1}')
            for sub in (lp.candidates.subnets if len(lp.candidates) else []):
                S.check(w.ok[str(sub)], 'next candidates feasible')


def whole(S, groups, n, cand, top, mut, cross, stop, keep=3):
    """an interrupted and resumed search runs the remaining generations"""
    with tempfile.TemporaryDirectory() as d:
        mem = Mem(S)
        w = World(S, groups, d, 0)
        lp = w.loop(n, cand, top, mut, cross, keep=keep)
        if stop is not None:
            for _ in range(stop):
                lp.run_epoch()
                lp._save_searcher_ckpt()
            fn = os.path.join(d, f'search_epoch_{stop}.pkl')
            saved = copy.deepcopy(lp.top_k_candidates.data)
            pool = copy.deepcopy(lp.candidates.data)
            lp = w.loop(n, cand, top, mut, cross, resume=fn, keep=keep)
            run, first = lp.run_epoch, []

            def spy():
                if not first:
                    first.append(1)
                    S.check(_plain(lp.top_k_candidates.data) ==
                            _plain(saved), 'the same elite')
                    S.check(_plain(lp.candidates.data) == _plain(pool),
                            'the same candidates')
                return run()

            lp.run_epoch = spy
        lp.run()
        S.check(lp._epoch == n, 'all generations are run')
        S.check(len(w.seen) == n * cand, 'exactly the remaining generations')
        elite(S, w, lp, top, 'at the end')
        final(S, w, lp, 'at the end')
        left = sorted(f for f in os.listdir(d) if f.endswith('.pkl'))
        S.check(left == [f'search_epoch_{i}.pkl' for i in range(
            max(1, n - keep + 1), n + 1)] if keep > 0 else
            len(left) == n, 'kept checkpoints')


def _plain(data):
    return [(k, {a: _txt(b) for a, b in v.items()}) for d in data
            for k, v in d.items()]


def _txt(v):
    return repr(v)


def predictor(S, source):
    """with a predictor it scores every candidate of the search"""
    with tempfile.TemporaryDirectory() as d:
        Mem(S)
        w = World(S, 1, d, 0)
        lp = w.loop(1, 2, 1, 1, 1)
        told = []

        class Pred:
            handler_ckpt = 'x.pkl' if source == 'ckpt' else None
            train_samples = 2

            def load_checkpoint(self):
                self.ready = True

            def model2vector(self, m):
                return list(m.values())

            def fit(self, x, y):
                self.ready = True
                S.check(len(x) == len(y) == 2, 'training samples')
                for (sub, s), got in zip(w.seen, y):
                    S.check(got == s, 'scores of the samples')

            def save_checkpoint(self, path):
                return path

            def predict(self, model):
                s = S.int(f'pred{len(told)}')
                told.append((dict(model.mutator.current_choices), s))
                return {lp.score_key: s}

        lp.predictor_cfg, lp.predictor = {}, Pred()
        lp.run()
        S.check(len(w.seen) == (0 if source == 'ckpt' else 2),
                'real evaluations only to train the predictor')
        S.check(len(told) == 2, 'every candidate is predicted')
        w.seen = told
        elite(S, w, lp, 1, 'with predictor')


def ckpts(S):
    """only the newest checkpoints are kept"""
    keep = S.pick('keep', [-1, 1, 2, 3])
    n = S.pick('n', [1, 2, 3, 4, 5])
    with tempfile.TemporaryDirectory() as d:
        mem = Mem(S)
        w = World(S, 1, d, 0)
        lp = w.loop(n, 1, 1, 1, 0, keep=keep)
        lp.top_k_candidates = Candidates([{'a': 1}])
        lp.top_k_candidates.set_score(0, 1.0)
        for e in range(1, n + 1):
            lp._epoch = e
            lp._save_searcher_ckpt()
        have = sorted(f for f in os.listdir(d))
        lo = 1 if keep < 0 else max(1, n - keep + 1)
        S.check(have == [f'search_epoch_{i}.pkl' for i in range(lo, n + 1)],
                'kept checkpoints')


def tasks(tier):
    deep = tier == 'thorough'
    O = dict(torch=False)
    out = []
    for g, n, cand, top, mut, cross, lim in [
            (1, 2, 2, 1, 1, 1, 1), (1, 2, 2, 2, 1, 0, 0),
            (1, 1, 3, 2, 1, 1, 1), (2, 1, 2, 1, 1, 1, 1),
            (1, 2, 1, 2, 0, 1, 0), (1, 3, 1, 1, 1, 0, 2)
    ] + ([(1, 2, 2, 3, 0, 1, 0), (1, 2, 3, 2, 1, 1, 0), (2, 2, 2, 1, 1, 0, 2),
          (1, 3, 2, 1, 1, 0, 0), (2, 1, 3, 2, 1, 1, 0)]
         if deep else []):
        out.append(Task(f'epochs-{g}-{n}-{cand}-{top}-{mut}-{cross}', epochs,
                        dict(groups=g, n=n, cand=cand, top=top, mut=mut,
                             cross=cross, limit=lim), O))
    for nm, kw in [('again', dict(repeat=True)), ('mixed', dict(
            repeat=True, probs=(0.5, 0.5)))]:
        out.append(Task(f'epochs-{nm}', epochs, dict(
            groups=1, n=1, cand=2, top=2, mut=1, cross=1, limit=0, **kw), O))
    for n, stop in [(1, None), (2, None), (2, 1), (3, 1), (3, 2), (2, 2)]:
        out.append(Task(f'whole-{n}-{stop}', whole,
                        dict(groups=1, n=n, cand=1 if n == 3 else 2, top=1,
                             mut=1, cross=0, stop=stop,
                             keep=3 if n < 3 else 2), O))
    out.append(Task('whole-three', whole, dict(
        groups=1, n=1, cand=3, top=3, mut=1, cross=0, stop=None), O))
    out.append(Task('epochs-filled', epochs, dict(
        groups=1, n=2, cand=2, top=2, mut=1, cross=0, limit=0), O))
    out.append(Task('epochs-mutants', epochs, dict(
        groups=1, n=1, cand=4, top=1, mut=2, cross=2, limit=1), O))
    for m, c in ((1, 0), (0, 1), (1, 1)):
        out.append(Task(f'dry-{m}-{c}', dry, dict(mut=m, cross=c), O))
    for s in ('ckpt', 'sample'):
        out.append(Task(f'predictor-{s}', predictor, dict(source=s), O))
    out.append(Task('checkpoints', ckpts, {}, O))
    return out
