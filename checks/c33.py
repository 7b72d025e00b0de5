"""C33: contrastive sampling draws true negatives and keeps distributions."""
import numpy as np
import torch
from mmengine.dataset import BaseDataset

from mmrazor.datasets.crd_dataset_wrapper import CRDDataset
from mmrazor.models.losses.crd_loss import (AliasMethod, ContrastLoss,
                                            ContrastMemory)

from .common import Task

INFO = dict(
    bounds='all labellings of 4 (thorough: 5) samples by up to 3 (thorough: '
    '4) classes, any percentage, any number of negative samples up to 4, all '
    'random draws; weights of up to 4 (thorough: 5) outcomes of any '
    'size; memories of 3 samples and 2 channels, batches of up to 2, any '
    'features, memories, temperatures and momenta',
    outside='the moving of tensors between devices, batches that hold one '
    'sample twice, rounding of floats, the frequencies with which the '
    'generators of torch and numpy draw')


class Labelled(BaseDataset):

    def __init__(self, labels, test_mode=False):
        self.labels = labels
        self.test_mode = test_mode
        self._metainfo = dict(classes=())
        self._fully_initialized = True

    @property
    def metainfo(self):
        return {}

    def full_init(self):
        pass

    def __len__(self):
        return len(self.labels)

    def get_gt_labels(self):
        return np.array(self.labels)

    def get_data_info(self, idx):
        return dict(sample_idx=idx, gt_label=self.labels[idx])


def dataset(S, n, classes, mode, draws):
    labels = [S.pick(f'label{i}', range(classes)) for i in range(n)]
    if len(set(labels)) < 2:
        S.assume(False)
    number = S.pick('neg_num', draws)
    percent = S.real('percent', 0, 2) if mode == 'parts' else 1.
    known = mode == 'parts' and S.flag('num_classes')
    mode = 'exact' if mode == 'parts' else mode
    data = CRDDataset(Labelled(labels), number, percent, sample_mode=mode,
                      num_classes=classes if known else None)
    whole = percent == 0 or percent >= 1
    for c in set(labels):
        pos = [int(i) for i in data.cls_positive[c]]
        neg = [int(i) for i in data.cls_negative[c]]
        S.check(pos == [i for i in range(n) if labels[i] == c],
                'positives of a class')
        other = [i for i in range(n) if labels[i] != c]
        S.check(len(set(neg)) == len(neg) and set(neg) <= set(other),
                'negatives of a class')
        if whole:
            S.check(set(neg) == set(other), 'all negatives')
        else:
            S.check(len(neg) >= 1, 'one negative at least')
            want = percent * len(other)
            S.check(len(neg) <= want or len(neg) == 1, 'at most the part')
            S.check(len(neg) + 1 > want, 'at least the part')
    if not number:
        return
    idx = S.pick('idx', range(n))
    info = data.get_data_info(idx)
    out = [int(i) for i in info['contrast_sample_idxs']]
    S.check(info['sample_idx'] == idx, 'the sample itself')
    S.check(len(out) == 1 + number, 'the requested number')
    S.check(out[0] == idx if mode == 'exact' else
            labels[out[0]] == labels[idx], 'the positive')
    pool = {int(i) for i in data.cls_negative[labels[idx]]}
    for i in out[1:]:
        S.check(i in pool and labels[i] != labels[idx], 'the negatives')
    if number <= len(pool):
        S.check(len(set(out[1:])) == number, 'no negative twice')


def untouched(S, n):
    """a dataset for tests gives no contrast"""
    labels = [S.pick(f'label{i}', range(2)) for i in range(n)]
    data = CRDDataset(Labelled(labels, True), 2, .5)
    idx = S.pick('idx', range(n))
    S.check(data.get_data_info(idx) == dict(
        sample_idx=idx, gt_label=labels[idx]), 'the data of the dataset')


def alias(S, n, norm):
    w = S.tensor('w', (n, ), lo=0, hi=10)
    total = w.sum()
    if norm == 'is 1':
        S.assume(total.item() == 1)
    else:
        S.assume(total.item() > 1)
    keep = w.clone()
    method = AliasMethod(w)
    S.eq(w, keep, 'the weights given stay')
    got = [0] * n
    for k in range(n):
        p, a = method.prob[k].item(), int(method.alias[k])
        S.check(p >= 0, 'a probability')
        S.check(p <= 1, 'a probability')
        got[k] = got[k] + p
        got[a] = got[a] + (1 - p)
    for k in range(n):
        S.check(got[k] * total.item() == n * keep[k].item(),
                'the requested distribution')


def draw(S, n, count):
    """a draw takes an outcome or its alias as its probability says"""
    method = AliasMethod(torch.ones(n))
    method.prob = S.tensor('prob', (n, ), lo=0, hi=1)
    method.alias = torch.tensor([S.pick(f'alias{i}', range(n))
                                 for i in range(n)])
    picked, coins = [], []
    real = torch.bernoulli

    def bernoulli(p, *a, **k):
        out = real(p, *a, **k)
        picked.append(p)
        coins.append(out)
        return out

    S.patch(torch, 'bernoulli', bernoulli)
    out = method.draw(count)
    S.check(len(coins) == 1 and out.shape == (count, ), 'one coin each')
    for i in range(count):
        o, p = out[i].item(), picked[0][i].item()
        c = coins[0][i].item()
        S.check(o >= 0, 'an outcome')
        S.check(o < n, 'an outcome')
        ways = []
        for k in range(n):
            a = int(method.alias[k])
            # the slot k was drawn
            ways.append((p == method.prob[k].item()) &
                        (((c == 1) & (o == k)) | ((c == 0) & (o == a))))
        ok = ways[0]
        for x in ways[1:]:
            ok = ok | x
        S.check(ok, 'the slot or its alias')


def memory(S, n, dim, batch, neg, given, steps, T):
    T, m = S.pick('T', T), S.pick('momentum', [0, .5])
    mem = ContrastMemory(dim, n, neg, T, m)
    mem = mem.double()
    mem.memory_v1.copy_(S.tensor('v1', (n, dim), -2, 2))
    mem.memory_v2.copy_(S.tensor('v2', (n, dim), -2, 2))
    Zs = Zt = None
    for step in range(steps):
        fs = S.tensor(f'fs{step}', (batch, dim), -2, 2)
        ft = S.tensor(f'ft{step}', (batch, dim), -2, 2)
        first = S.pick(f'idx{step}', range(n))
        at = [(first + 2 * i) % n for i in range(batch)]
        contrast = None
        if given:
            rows = [[at[i]] + [S.pick(f'neg{step}_{i}_{j}', range(n))
                               for j in range(neg)] for i in range(batch)]
            contrast = torch.tensor(rows)
        old1, old2 = mem.memory_v1.clone(), mem.memory_v2.clone()
        if not given:
            # the first of each row is replaced by the sample itself
            drawn = [[n - 1] + [S.pick(f'draw{step}_{i}_{j}', range(n))
                                for j in range(neg)] for i in range(batch)]
            S.patch(mem.multinomial, 'draw', lambda k: torch.tensor(
                [x for r in drawn for x in r]))
            rows = [[at[i]] + drawn[i][1:] for i in range(batch)]
        for i in range(batch):
            # a zero vector has no direction
            for o, f in ((old1, fs), (old2, ft)):
                v = o[at[i]] * m + f[i] * (1 - m)
                any_ = v[0].item() != 0
                for x in v[1:]:
                    any_ = any_ | (x.item() != 0)
                S.assume(any_)
        gs, gt = mem(fs, ft, torch.tensor(at), contrast)
        ws = torch.stack([torch.stack([((old2[j] * fs[i]).sum() / T).exp()
                                       for j in rows[i]])
                          for i in range(batch)])
        wt = torch.stack([torch.stack([((old1[j] * ft[i]).sum() / T).exp()
                                       for j in rows[i]])
                          for i in range(batch)])
        if Zs is None:
            Zs, Zt = ws.mean() * n, wt.mean() * n
        S.check(gs.shape == (batch, neg + 1, 1), 'shape of the scores')
        S.eq(gs[..., 0] * Zs, ws, 'scores of the student')
        S.eq(gt[..., 0] * Zt, wt, 'scores of the teacher')
        for name, new, old, f in (('v1', mem.memory_v1, old1, fs),
                                  ('v2', mem.memory_v2, old2, ft)):
            for j in range(n):
                if j not in at:
                    S.eq(new[j], old[j], f'{name}: other samples stay')
                    continue
                v = old[j] * m + f[at.index(j)] * (1 - m)
                S.eq(new[j], v / v.pow(2).sum().pow(.5),
                     f'{name}: normalised')


def loss(S, batch, neg, n_data):
    x = S.tensor('x', (batch, neg + 1, 1), lo=0, hi=5)
    S.assume(x.min().item() > 0)
    eps = S.pick('eps', [2.**-23, .25])  # sums with it are exact
    keep = x.clone()
    got = ContrastLoss(n_data, eps)(x)
    S.eq(x, keep, 'scores stay')
    noise = neg * (1 / float(n_data))
    pos = (keep[:, 0] / (keep[:, 0] + (noise + eps))).log().sum()
    rest = (noise / (keep[:, 1:] + (noise + eps))).log().sum()
    S.eq(got, (-(pos + rest) / batch).reshape(1), 'contrastive loss')


def tasks(tier):
    deep = tier != 'quick'
    T = []
    P = dict(torch=False)
    for mode in ('exact', 'random', 'parts'):
        for n, c, draws in ((4, 2, [1, 2, 3]), (3, 3, [1, 2, 4])) + (
                ((5, 3, [1, 2]), (4, 4, [3])) if deep else ()):
            if mode == 'parts':
                n = 4 if deep or c < 3 else 3
                draws = [0, 1] if deep or c < 3 else [0]
            T.append(Task(f'dataset-{mode}-{n}-{c}', dataset, dict(
                n=n, classes=c, mode=mode, draws=draws), P))
    T.append(Task('dataset-test', untouched, dict(n=3), P))
    for n in (1, 2, 3, 4) + ((5, ) if deep else ()):
        for norm in ('is 1', 'above 1'):
            T.append(Task(f'alias-{n}-{norm}', alias, dict(n=n, norm=norm)))
    T.append(Task('draw', draw, dict(n=3, count=2)))
    E = dict(explog=True)
    for given in (True, False):
        T.append(Task(f'memory-{given}', memory, dict(
            n=3, dim=2, batch=1, neg=1, given=given, steps=1, T=[.5, 1]), E))
        T.append(Task(f'memory-two-{given}', memory, dict(
            n=3, dim=2 if deep else 1, batch=2, neg=1, given=given, steps=1,
            T=[.5]), E))
    T.append(Task('memory-again', memory, dict(
        n=2, dim=2, batch=1, neg=1, given=True, steps=2, T=[1]), E))
    for b, k in ((1, 1), (2, 2), (3, 1)):
        T.append(Task(f'loss-{b}-{k}', loss, dict(batch=b, neg=k, n_data=4),
                      E))
    return T
