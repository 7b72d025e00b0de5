"""C17: greedy supernet sampling follows its schedule and uses its best."""
import math
import os
import tempfile
from types import SimpleNamespace

from mmengine import fileio

from mmrazor.engine.runner.subnet_sampler_loop import GreedySamplerTrainLoop
from mmrazor.structures import Candidates

from .c16 import Loader, Logger, Mem, Shared, World, ordered
from .common import Task

INFO = dict(
    bounds='schedules of up to 8 iterations at every iteration, arbitrary '
    'initial and maximal probabilities; rounds of 1..3 samples, pools of up '
    'to 3 candidates, elites of 1..2, up to 5 training iterations; random '
    'draws, feasibility and scores are arbitrary',
    outside='a round in which no candidate at all is feasible; algorithms '
    'that choose their own sub-network while training')


def _bare(S, **kw):
    lp = GreedySamplerTrainLoop.__new__(GreedySamplerTrainLoop)
    for k, v in kw.items():
        setattr(lp, k, v)
    return lp


def schedule(S, kind, start, length):
    init = S.real('init', 0, 1)
    top = S.real('max', 0, 1)
    S.assume(init <= top)
    lp = _bare(S, prob_schedule=kind, schedule_start_iter=start,
               schedule_end_iter=start + length, init_prob=init,
               max_prob=top, cur_prob=0.)
    last = None
    for it in range(0, start + length + 3):
        lp.update_cur_prob(it)
        p = lp.cur_prob
        if it < start:
            S.check(p == init, 'before the schedule')
        elif it >= start + length:
            S.check(p == top, 'after the schedule')
        else:
            f = (it - start) / length
            if kind == 'consine':
                f = (1 - math.cos(math.pi * f)) / 2
            d = p - (init + (top - init) * f)
            S.check((d < 1e-9) & (d > -1e-9), 'on the schedule')
        S.check((p >= init - 1e-9) & (p <= top + 1e-9), 'within bounds')
        if last is not None:
            S.check(p >= last - 1e-9, 'never falls')
        last = p
    it = S.pick('again', range(0, start + length + 2))
    lp.update_cur_prob(it)
    a = lp.cur_prob
    lp.cur_prob = S.real('other')
    lp.update_cur_prob(it)
    S.check(lp.cur_prob == a, 'depends on the iteration only')


class Greedy(World):

    def __init__(self, S, d, limit):
        super().__init__(S, 1, d, limit)
        self.model.sample_subnet = Shared(self.sample)
        self.trained, self.drawn = [], []
        self.model.train_step = Shared(self.step)

    def sample(self, *a, **k):
        self.drawn.append(super().sample())
        return dict(self.drawn[-1])

    def step(self, data, optim_wrapper=None):
        self.trained.append(dict(self.model.mutator.current_choices))
        return {}

    def loop(self, cand, samples, top, prob, **kw):
        lp = _bare(self.S, model=self.model, dataloader_val=Loader(),
                   evaluator=self, _iter=0, _max_iters=9,
                   val_interval=2, val_begin=1,
                   score_key='accuracy/top1',
                   constraints_range=dict(flops=(0, 5)),
                   num_candidates=cand, num_samples=samples, top_k=top,
                   prob_schedule='linear', schedule_start_iter=2,
                   schedule_end_iter=4, init_prob=prob, max_prob=prob,
                   cur_prob=0., candidates=Candidates(),
                   top_k_candidates=Candidates(), estimator=self)
        lp.__dict__['_runner'] = SimpleNamespace(
            model=self.model, rank=0, distributed=False, logger=Logger(),
            work_dir=self.dir, call_hook=lambda *a, **k: None,
            optim_wrapper=None, message_hub=SimpleNamespace(
                update_info=lambda *a, **k: None))
        for k, v in kw.items():
            setattr(lp, k, v)
        return lp


def reuse(S, samples, pool):
    """as many reused as draws below the probability"""
    with tempfile.TemporaryDirectory() as d:
        w = Greedy(S, d, 1)
        prob = S.real('prob', 0, 1)
        lp = w.loop(9, samples, 1, prob)
        lp.cur_prob = prob
        old = [{g: 11 - i for g in w.model.mutator.search_groups}
               for i in range(pool)]
        for i, o in enumerate(old):
            lp.candidates.append(o)
            lp.candidates.set_score(i, S.real(f's{i}'))
        got, fresh = lp.get_candidates_with_sample(samples)
        S.check(fresh == len(w.drawn), 'number drawn from the supernet')
        subs = got.subnets if len(got) else []
        reused = [s for s in subs if s in old]
        new = [s for s in subs if s not in old]
        ok = [s for s in w.drawn if w.ok[str(s)]]
        S.check(len(reused) + fresh == samples, 'number of samples')
        S.check(new == ok, 'the feasible ones of the drawn')
        S.check(lp.candidates.subnets == old if pool else
                len(lp.candidates) == 0, 'the pool is unchanged')
        if pool == 0:
            S.check(fresh == samples, 'nothing to reuse')
        elif bool(prob == 0):
            S.check(fresh == samples, 'probability 0')
        elif bool(prob == 1):
            S.check(fresh == 0, 'probability 1')
        if pool and len(S.draws) == samples:
            below = sum(1 if bool(x < prob) else 0 for x in S.draws)
            S.check(len(reused) == below, 'the probability decides')


def rounds(S, cand, samples, top, iters, limit, prob=0.):
    """whole training iterations"""
    with tempfile.TemporaryDirectory() as d:
        Mem(S)
        w = Greedy(S, d, limit)
        lp = w.loop(cand, samples, top, prob)
        queue, it = [], 0
        while it < iters:
            start, drawn = len(w.seen), len(w.drawn)
            before = lp.candidates.subnets if len(lp.candidates) else []
            fresh = not queue
            lp.run_iter(None)
            it += 1
            S.check(lp._iter == it and len(w.trained) == it,
                    'one sub-network is trained')
            if fresh:
                now = w.seen[start:]
                new = [s for s in w.drawn[drawn:] if w.ok[str(s)]]
                have = [s for s, _ in now]
                S.check(have[:len(before)] == before or
                        all(have.count(b) >= before.count(b)
                            for b in before), 'the pool is scored again')
                S.check(all(s in have for s in new), 'samples are scored')
                S.check(all(s in before or s in new for s in have),
                        'nothing else')
                best = ordered(S, [s for _, s in now])
                pool = lp.candidates
                S.check(len(pool) == min(cand, len(now)), 'size of the pool')
                for a, b in zip(pool.scores, best):
                    S.check(a == b, 'the best ones stay, in order')
                for s, sc in zip(pool.subnets, pool.scores):
                    S.check(any(s == o and bool(sc == x) for o, x in now),
                            'a candidate with its score')
                queue = pool.subnets[:top]
                S.check(0 < len(queue) <= top, 'top candidates')
            else:
                S.check(len(w.seen) == start and len(w.drawn) == drawn,
                        'no sampling while top candidates are left')
            S.check(w.trained[-1] == queue.pop(0),
                    'the best not yet used one is trained')
            S.check(w.ok.get(str(w.trained[-1]), False), 'within the budget')
        lp._save_candidates()
        saved = fileio.load(os.path.join(d, 'candidates.pkl'))
        S.check(saved.subnets == lp.candidates.subnets, 'saved candidates')
        for a, b in zip(saved.scores, lp.candidates.scores):
            S.check(a == b, 'saved scores')


def over(S):
    """the schedule is applied when a round starts"""
    with tempfile.TemporaryDirectory() as d:
        w = Greedy(S, d, 0)
        it = S.pick('it', range(0, 7))
        a, b = S.real('a', 0, 1), S.real('b', 0, 1)
        S.assume(a <= b)
        lp = w.loop(2, 1, 1, 0., _iter=it, init_prob=a, max_prob=b)
        lp.sample_subnet()
        want = a if it < 2 else b if it >= 4 else a + (b - a) * (it - 2) / 2
        e = lp.cur_prob - want
        S.check((e < 1e-9) & (e > -1e-9), 'probability of this iteration')


def tasks(tier):
    deep = tier == 'thorough'
    O = dict(torch=False)
    out = []
    for kind in ('linear', 'consine'):
        for start, length in [(0, 1), (0, 4), (2, 3), (3, 0), (0, 0),
                              (1, 7)] + ([(5, 30)] if deep else []):
            out.append(Task(f'schedule-{kind}-{start}-{length}', schedule,
                            dict(kind=kind, start=start, length=length), O))
    for samples in (1, 2, 3):
        for pool in (0, 1, 2):
            out.append(Task(f'reuse-{samples}-{pool}', reuse,
                            dict(samples=samples, pool=pool), O))
    for cand, samples, top, iters, limit in [
            (2, 2, 1, 2, 1), (2, 2, 2, 3, 0), (3, 2, 2, 3, 0),
            (1, 2, 1, 2, 1), (2, 3, 2, 2, 2)] + (
                [(3, 2, 1, 3, 1), (2, 2, 2, 5, 0)] if deep else []):
        out.append(Task(f'rounds-{cand}-{samples}-{top}-{iters}', rounds,
                        dict(cand=cand, samples=samples, top=top,
                             iters=iters, limit=limit), O))
    out.append(Task('rounds-reuse', rounds, dict(
        cand=2, samples=1, top=1, iters=3, limit=0, prob=1.), O))
    out.append(Task('rounds-mixed', rounds, dict(
        cand=2, samples=1, top=1, iters=3, limit=0, prob=.5), O))
    out.append(Task('over', over, {}, O))
    return out
