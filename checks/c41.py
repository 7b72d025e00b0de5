"""C41: filters fused for pruning are averages of similar filters."""
import itertools

import torch
from torch import nn

import mmrazor.models  # noqa: F401
from mmrazor.models.algorithms import DCFF
from mmrazor.models.architectures.dynamic_ops import FuseConv2d
from mmrazor.models.mutables import SquentialMutableChannel

from .c20 import Hub, N, NAMES, build
from .common import Task, plain_copy, same_state, snapshot, symbolize

INFO = dict(
    bounds='layers of up to 3 filters (4 thorough) with 1 or 2 weights each '
    '(also groups), every kept number, all weights and temperatures; '
    'temperatures at all iterations of runs of any length; the real algorithm '
    'on a network of two pruned layers with all weights, fusion matrices and '
    'targets, over 4 iterations',
    outside='exp, log and sqrt are arbitrary functions with exp positive and '
    'increasing and exp(0) = 1 (temperature: exact); ties between filters; '
    'which reading of the divergence the authors intended (DESIGN.md)')


def _all(cs):
    r = True
    for c in cs:
        r = c if r is True else (r if c is True else r & c)
    return r


def _any(cs):
    r = False
    for c in cs:
        r = c if r is False else (r if c is False else r | c)
    return r


def layer_of(S, cout, cin, k, keep, groups=1):
    op = FuseConv2d(cin, cout, k, groups=groups)
    out = SquentialMutableChannel(cout)
    out.current_choice = keep
    op.register_mutable_attr('out_channels', out)
    symbolize(op, S, skip=('mutable_attrs', ))
    return op


def pooled(S, cout, cin, k, keep, groups=1):
    """what holds for filters of any size"""
    op = layer_of(S, cout, cin, k, keep, groups)
    before = snapshot(op)
    tau = S.real('tau', 0, 10, lo_open=True)
    got = op.get_pooled_channel(tau)
    same_state(S, op, before, 'the layer')
    S.check(tuple(got.shape) == (keep, cout), 'a row per kept filter')
    w = op.weight.detach().reshape(cout, -1)
    P = [torch.softmax(torch.stack([
        -((w[i] - w[j])**2).sum().sqrt() for j in range(cout)]) / tau, 0)
        for i in range(cout)]
    near = 1e-9
    for r in range(keep):
        S.check(_any(_all(
            (got[r, j] - P[i][j] <= near) & (P[i][j] - got[r, j] <= near)
            for j in range(cout)) for i in range(cout)),
            'a row of similarities')


def ranked(S, cout, keep, tau):
    """filters of one weight, in any order, with any gaps between them"""
    op = layer_of(S, cout, 1, 1, keep)
    order = S.pick('order', list(itertools.permutations(range(cout))))
    gap = [S.real(f'gap{i}', 0, 20, lo_open=True) for i in range(cout - 1)]
    at, w = S.real('first', -20, 20), [None] * cout
    with torch.no_grad():
        for i, o in enumerate(order):
            w[o] = at = at if i == 0 else at + gap[i - 1]
            op.weight[o, 0, 0, 0] = at
    got = op.get_pooled_channel(tau)
    # reference: softmax(-distance / tau), distances by the gaps between
    pos = {o: i for i, o in enumerate(order)}
    e = [[torch.exp(torch.as_tensor(0.) - sum(
        gap[min(pos[i], pos[j]):max(pos[i], pos[j])]) / tau)
        for j in range(cout)] for i in range(cout)]
    P = [[q / sum(r) for q in r] for r in e]
    eps = 1e-7
    logs = [sum((q + eps).log() for q in r) / cout for r in P]
    score = [sum(P[i][j] * ((P[i][j] + eps).log() - logs[j])
                 for j in range(cout)) / cout for i in range(cout)]
    for keys, _, desc in S.sorts:
        S.check(len(keys) == cout, 'every filter is ranked')
        for k, q in zip(keys, score):
            S.eq(k, q, 'score of a filter')
    rows = []
    for r in range(keep):
        S.eq(sum(got[r, j] for j in range(cout)), 1, 'weights sum to one')
        top = [i for i in range(cout)
               if all(bool(got[r, i] >= got[r, j]) for j in range(cout))]
        S.check(len(top) == 1, 'one filter weighs most')
        rows.append(top[0])
        for j in range(cout):
            S.check(got[r, j] > 0, 'weights are positive')
            S.eq(got[r, j], P[top[0]][j], 'weight by the distance')
    S.check(len(set(rows)) == keep, 'different filters')
    if S.sorts:
        _, first, desc = S.sorts[-1]
        S.check(set(rows) == set(list(first if desc else first[::-1])[:keep]),
                'the filters ranked first are kept')
    else:  # ordinary numbers
        for i in rows:
            for j in range(cout):
                S.check(j in rows or score[i] >= score[j] - 1e-9,
                        'the filters that differ most are kept')


def temperature(S, part):
    algo = DCFF.__new__(DCFF)
    n = S.int('iterations', 1, 10**6)
    if part == 'ends':
        S.eq(algo._calc_temperature(0, n), 1, 'starts at one')
        S.eq(algo._calc_temperature(n, n) * 10000, 1, 'ends at 1e-4')
        return
    i = S.int('iteration', 0)
    j = S.int('later iteration', 0)
    S.assume((i < j) & (j <= n))
    a, b = algo._calc_temperature(i, n), algo._calc_temperature(j, n)
    # beyond some 30 iterations the curve is flat in floating point
    S.check((b < a) & (b > 0) & (a <= 1 + 1e-9), 'falls', margin=j <= 12)


MADE = {}


def setup(linear, freq):
    MADE[linear, freq] = build(DCFF, 'number', None, freq, 0,
                              linear).double()


def algorithm(S, linear, freq):
    times = 2
    max_iters = freq * times + 2
    hub = Hub(S, max_iters, 1)
    n, other = NAMES
    goal = {u: S.pick(f'goal {i}', range(1, N[u] - 1))
            for i, u in enumerate(NAMES)}
    algo = plain_copy(MADE[linear, freq])
    algo.target_pruning_ratio = dict(goal)
    net = algo.architecture
    symbolize(net, S, skip=('mutable_attrs', ))
    fused = {}
    calls = []

    def pooled(self, tau):
        name = [k for k, m in net.named_modules() if m is self][0]
        calls.append((name, tau))
        m = int(self.mutable_attrs['out_channels'].activated_channels)
        fused[name] = S.tensor(f'fusion{len(S.draws)}{name}{S.fresh_name("n")}', (m, self.out_channels))
        return fused[name]

    S.patch(FuseConv2d, 'get_pooled_channel', pooled)
    x = S.tensor('x', (1, 1, 1, 1))
    W = {k: getattr(net, k) for k in 'abc'}
    S.check(isinstance(W['a'], FuseConv2d) and isinstance(
        W['b'], FuseConv2d), 'layers that fuse')

    def layer(k, v, full):
        m = W[k]
        w = m.weight[:, :v.shape[0], 0, 0]
        if k == 'c':  # its outputs are not pruned
            return w @ v + m.bias
        if full and v.shape[0] == m.in_channels:
            return w @ v + m.bias
        return fused[k] @ (w @ v + m.bias)

    for i in range(max_iters):
        hub.at(i)
        algo.eval()
        del calls[:]
        if i % freq == 0 and i:
            algo(x)
            S.check(not calls, 'validation does not fuse')
        algo.train()
        y = algo(x)
        due = i % freq == 0 and i // freq < max_iters // freq
        if due:
            S.check(sorted(k for k, t in calls) == ['a', 'b'],
                    'the pruned layers fuse')
            for k, t in calls:
                S.eq(t, algo._calc_temperature(i, max_iters), 'temperature')
        else:
            S.check(not calls, 'no new fusion between the steps')
        now = {u.name: int(u.mutable_channel.current_mask.sum())
               for u in algo.mutator.mutable_units}
        v = x[0, :, 0, 0]
        for k, u in zip('ab', NAMES):
            v = layer(k, v, now[u] == N[u])
        v = layer('c', v, False)
        S.eq(y[0, :, 0, 0], v, 'output of the fused network')
    algo.eval()
    last = algo(x)
    for k in 'abc':
        for m in W[k].mutable_attrs.values():
            if not m.is_fixed:
                m.fix_chosen()
    v = x
    for k in 'abc':
        st = W[k].to_static_op() if hasattr(W[k], 'to_static_op') else W[k]
        S.check(type(st) is nn.Conv2d, 'an ordinary layer')
        v = st(v)
    S.eq(v, last, 'exported network')


def tasks(tier):
    deep = tier == 'thorough'
    O = dict(axioms=('exp_mono', 'sqrt'), time=200)
    out = []
    for c in (1, 2, 3) + ((4, ) if deep else ()):
        for keep in range(1, c + 1):
            for tau in (1., .5) if c < 4 else (1., ):
                out.append(Task(f'ranked {c}-{keep} {tau}', ranked,
                                dict(cout=c, keep=keep, tau=tau),
                                dict(explog=True, signs=True, free_sort=True,
                                     axioms=('exp_mono', ),
                                     cost=c * c)))
    for keep in (1, 2):
        for cin, groups in ((1, 1), (2, 1), (2, 2)):
            out.append(Task(f'pooled {keep}-{cin}-{groups}', pooled, dict(
                cout=2, cin=cin, k=1, keep=keep, groups=groups), dict(O)))
    out.append(Task('temperature ends', temperature, dict(part='ends'),
                    dict(axioms=('exp_mono', ))))
    out.append(Task('temperature falls', temperature, dict(part='falls'),
                    dict(axioms=('exp_mono', ))))
    for linear in (False, True):
        for freq in (1, 2) if deep else (2, ):
            out.append(Task(f'algorithm {linear} {freq}', algorithm,
                            dict(linear=linear, freq=freq), dict(
                                cost=50, setup=setup)))
    return out
