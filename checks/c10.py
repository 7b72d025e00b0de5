"""C10: differentiable choices mix by probabilities, export the strongest."""
import copy

import torch
from torch import nn

from mmrazor.models.mutables import (DiffChoiceRoute, DiffMutableOP,
                                     OneHotMutableOP)
from mmrazor.models.mutables.mutable_module.diff_mutable_module import \
    GumbelChoiceRoute
from mmrazor.models.mutators import NasMutator

from .c09 import NAMES, Scale, cfgs
from .common import Task, symbolize

INFO = dict(
    bounds='1..4 candidate operations or route inputs of arbitrary weights, '
    'arbitrary architecture parameters and inputs, arbitrary draws of the '
    'one-hot and Gumbel samplers, fix thresholds any real in [0, 1], 0..4 '
    'chosen route inputs, mutators over networks of up to 3 variables in all '
    'groupings',
    outside='exp and log are arbitrary functions with exp positive, '
    'increasing and exp(0) = 1; more candidates; mixed precision underflow of '
    'a probability to zero')

EL = dict(explog=True, random=True)
OPT = dict(explog=True, axioms=('exp_mono', ), random=True)


def soft(S, a):
    """reference softmax: exp(a_i) / sum"""
    e = torch.exp(a)
    return e / e.sum()


def probabilities(S, cls, n):
    a = S.tensor('a', (n, ))
    m = make(S, cls, n)
    p = m.compute_arch_probs(a)
    tot = 0
    for i in range(n):
        S.check(p[i] >= 0, 'probabilities are not negative')
        tot = tot + p[i]
    S.eq(tot, 1, 'probabilities sum to one')
    if cls in ('op', 'onehot', 'route'):
        for i in range(n):
            for j in range(n):
                S.check((p[i] >= p[j]) == (a[i] >= a[j]),
                        'probabilities follow the parameters')


def make(S, cls, n, **kw):
    if cls == 'op':
        return DiffMutableOP(cfgs(n), **kw)
    if cls == 'onehot':
        return OneHotMutableOP(cfgs(n), **kw)
    edges = nn.ModuleDict({k: Scale() for k in NAMES[:n]})
    if cls == 'gumbel':
        return GumbelChoiceRoute(edges, with_arch_param=True, **kw)
    return DiffChoiceRoute(edges, with_arch_param=True, **kw)


def parts(S, m, cls, n, shape=(2, )):
    if cls in ('op', 'onehot'):
        x = S.tensor('x', shape)
        return x, [m._candidates[k](x) for k in NAMES[:n]]
    x = [S.tensor(f'x{i}', shape) for i in range(n)]
    return x, [m._candidates[k](x[i]) for i, k in enumerate(NAMES[:n])]


def weighted(S, cls, n):
    m = make(S, cls, n)
    symbolize(m, S)
    x, outs = parts(S, m, cls, n)
    a = S.tensor('a', (n, ))
    keep = a.clone()
    p = soft(S, a)
    want = sum(p[i] * outs[i] for i in range(n))
    S.eq(m(x, a), want, 'weighted sum of the candidates')
    S.eq(a, keep, 'architecture parameters unchanged')
    plain = copy.deepcopy(m)
    m.set_forward_args(a)
    S.eq(m(x), want, 'weighted sum through the bound parameters')
    b = S.tensor('b', (n, ))
    m.set_forward_args(b)
    q = soft(S, b)
    S.eq(m(x), sum(q[i] * outs[i] for i in range(n)), 'rebound parameters')
    # export
    c = m.sample_choice(a)
    if cls == 'op':
        i = NAMES.index(c)
        for j in range(n):
            S.check(a[i] >= a[j], 'largest parameter is exported')
        m.fix_chosen(c)
        S.eq(m(x), outs[i], 'fixed output')
        plain.fix_chosen(c)
        S.eq(plain(x, a), outs[i], 'fixed output ignores parameters')


def unbound(S, cls, n):
    """without parameters (or when a route does not use them): plain sum"""
    m = make(S, cls, n)
    symbolize(m, S)
    x, outs = parts(S, m, cls, n)
    S.eq(m(x), sum(outs), 'sum of all candidates')
    S.eq(m.forward_all(x), sum(outs), 'sum of all candidates')
    if cls == 'route':
        r = DiffChoiceRoute(m._candidates, with_arch_param=False)
        S.eq(r(x, S.tensor('a', (n, ))), sum(outs), 'parameters not used')
        S.raises(AssertionError, m, x[:-1], S.tensor('b', (n, )),
                 msg='wrong number of inputs')


def route_export(S, cls, n, k):
    m = make(S, cls, n) if cls == 'gumbel' else make(S, cls, n, num_chosen=k)
    if cls == 'gumbel':
        k = 2
    symbolize(m, S)
    x, outs = parts(S, m, cls, n)
    a = S.tensor('a', (n, ))
    c = m.sample_choice(a)
    S.check(len(c) == min(n, k), 'number of chosen inputs')
    S.check(len(set(c)) == len(c), 'distinct inputs')
    idx = [NAMES.index(i) for i in c]
    for i in range(n):
        for j in range(n):
            if i in idx and j not in idx:
                S.check(a[i] >= a[j], 'strongest inputs are exported')
    S.eq(a, a.clone(), 'parameters')
    if k:
        m.current_choice = c
        S.eq(list(m.dump_chosen().chosen), c, 'dumped')
        m.fix_chosen(m.dump_chosen().chosen)
        S.eq(m(x, a), sum(outs[i] for i in range(n) if i in idx),
             'fixed output')
        S.eq(m.choices, [NAMES[i] for i in range(n) if i in idx],
             'kept candidates')
        S.raises(AttributeError, m.fix_chosen, [NAMES[0]],
                 msg='fixing twice')
        S.eq(m(x), sum(outs[i] for i in range(n) if i in idx),
             'fixed output after a rejected fix')


def lists(S, n):
    """an operation fixed to several candidates outputs their sum"""
    m = make(S, 'op', n)
    symbolize(m, S)
    x, outs = parts(S, m, 'op', n)
    sel = [i for i in range(n) if S.flag(f's{i}')]
    if not sel:
        S.assume(False)
    m.fix_chosen([NAMES[i] for i in sel])
    S.eq(m(x), sum(outs[i] for i in sel), 'sum of the chosen')
    S.eq(m.choices, [NAMES[i] for i in sel], 'kept')


def onehot(S, n, thr=None):
    t = S.real('t', 0, 1) if thr is None else thr
    m = make(S, 'onehot', n, fix_threshold=t)
    symbolize(m, S)
    x, outs = parts(S, m, 'onehot', n)
    a = S.tensor('a', (n, ))
    p = soft(S, a)
    y = m(x, a)
    top = max(range(n), key=lambda i: 0)
    order = sorted(range(n), key=lambda i: 0)
    # the largest probability and the runner up
    for i in range(1, n):
        if p[i] > p[top]:
            top = i
    if n > 1:
        rest = [i for i in order if i != top]
        second = rest[0]
        for i in rest[1:]:
            if p[i] > p[second]:
                second = i
        gap = p[top] - p[second]
    else:
        gap = p[top]
    if gap >= t:
        S.check(m.is_fixed, 'fixed when the lead reaches the threshold')
        S.check(len(m.choices) == 1, 'one candidate left')
        i = NAMES.index(m.choices[0])
        for j in range(n):
            S.check(p[i] >= p[j], 'fixed to the strongest candidate')
        S.eq(y, outs[i], 'output of the strongest candidate')
        S.eq(m(x, a), outs[i], 'output stays')
        S.eq(m(x), outs[i], 'output without parameters')
        S.eq(m.forward_arch_param(x, a), outs[i], 'output of the chosen')
    else:
        S.check(not m.is_fixed, 'not fixed below the threshold')
        w = m.arch_weights
        S.eq(w.sum(), 1, 'one-hot weights')
        hit = [i for i in range(n) if bool(w[i] == 1)]
        S.check(len(hit) == 1, 'exactly one candidate sampled')
        S.eq(y, outs[hit[0]], 'output of the sampled candidate')
        S.check(p[hit[0]] > 0, 'sampled with positive probability')


def gumbel(S, n, hard):
    tau = S.real('tau', 0, 10, lo_open=True)
    m = make(S, 'gumbel', n, tau=tau if S.flag('init') else 1.0, hard=hard)
    m.set_temperature(tau)
    symbolize(m, S)
    x, outs = parts(S, m, 'gumbel', n, (1, ))
    a = S.tensor('a', (n, ))
    seen = []
    old = m.compute_arch_probs
    m.compute_arch_probs = lambda arch_param: (
        seen.append(old(arch_param=arch_param)), seen[-1])[1]
    y = m(x, a)
    S.check(len(seen) == 1, 'one draw')
    p = seen[0]
    tot = sum(p[i] for i in range(n))
    S.eq(tot, 1, 'sums to one')
    S.eq(y, sum(p[i] * outs[i] for i in range(n)), 'weighted sum')
    for i in range(n):
        S.check(p[i] >= 0, 'not negative')
        if hard:
            S.check((p[i] == 0) | (p[i] == 1), 'one-hot')


def mixture(S, cls, n):
    """the parameters are written as the logarithms of positive weights: the
    output is the exact average with these weights"""
    m = make(S, cls, n)
    symbolize(m, S)
    x, outs = parts(S, m, cls, n, (1, ))
    u = S.tensor('u', (n, ), 0, 1000, lo_open=True)
    tot = sum(u[i] for i in range(n))
    S.eq(m(x, torch.log(u)) * tot, sum(u[i] * outs[i] for i in range(n)),
         'average of the candidates')


def draws(S, n, hard, power):
    """temperature 1/power: the weights are softmax((a + g) * power) with
    Gumbel noise g = -log(e), e exponential"""
    m = make(S, 'gumbel', n, tau=1.0, hard=hard)
    m.set_temperature(1. / power)
    symbolize(m, S)
    u = S.tensor('u', (n, ), 0, 1000, lo_open=True)
    e = S.tensor('e', (n, ), 0, 1000, lo_open=True)
    seen = []

    def fill(self, lambd=1, **kw):
        seen.append(lambd)
        return self.copy_(e)

    old = torch.Tensor.exponential_
    torch.Tensor.exponential_ = fill
    try:
        p = m.compute_arch_probs(torch.log(u))
    finally:
        torch.Tensor.exponential_ = old
    if seen != [1]:
        return  # drawn in some other way
    w = [(u[i] / e[i])**power for i in range(n)]
    tot = sum(w)
    for i in range(n):
        if hard:
            if p[i] > 0.5:
                for j in range(n):
                    S.check(w[i] >= w[j], 'the strongest draw is taken')
        else:
            S.eq(p[i] * tot, w[i], 'weights of the draw')


class Net(nn.Module):

    def __init__(self, kinds, aliases, n):
        super().__init__()
        self.kinds, self.n = kinds, n
        for i, (k, al) in enumerate(zip(kinds, aliases)):
            kw = dict(alias=al) if al else {}
            if k == 'route':
                m = DiffChoiceRoute(
                    nn.ModuleDict({c: Scale() for c in NAMES[:n]}),
                    num_chosen=1, with_arch_param=True, **kw)
            else:
                m = DiffMutableOP(cfgs(n), **kw)
            setattr(self, f'm{i}', m)

    def forward(self, x):
        out = []
        for i, k in enumerate(self.kinds):
            m = getattr(self, f'm{i}')
            out.append(m([x] * self.n) if k == 'route' else m(x))
        return out


def mutator(S, kinds, n):
    aliases = [S.pick(f'al{i}', [None, 'a', 'b']) for i in range(len(kinds))]
    for i, k in enumerate(kinds):
        for j in range(i):
            if k != kinds[j] and aliases[i] and aliases[i] == aliases[j]:
                S.assume(False)  # only variables of one kind can be coupled
    net = Net(kinds, aliases, n)
    symbolize(net, S)
    mt = NasMutator()
    mt.prepare_from_supernet(net)
    mt.prepare_arch_params()
    own = {}
    for g, ms in mt.search_groups.items():
        for m in ms:
            own[id(m)] = g
        S.check(mt.arch_params[g].shape[0] == n, 'a parameter per candidate')
    S.check(set(mt.arch_params.keys()) == set(mt.search_groups), 'one per group')
    # drawn at random: arbitrary values
    params = {g: mt.arch_params[g].detach().clone() for g in mt.search_groups}
    x = S.tensor('x', (2, ))
    for i in range(len(kinds)):
        for j in range(i):
            same = aliases[i] is not None and aliases[i] == aliases[j]
            S.check((own[id(getattr(net, f'm{i}'))] == own[id(
                getattr(net, f'm{j}'))]) == same, 'grouped by alias')
    ys = net(x)
    ch = mt.sample_choices()
    for i in range(len(kinds)):
        m = getattr(net, f'm{i}')
        a = params[own[id(m)]]
        p = soft(S, a)
        S.eq(ys[i], sum(p[j] * m._candidates[NAMES[j]](x) for j in range(n)),
             'each variable is weighted by the parameters of its group')
        c = ch[own[id(m)]]
        c = c[0] if isinstance(c, list) else c
        for j in range(n):
            S.check(a[NAMES.index(c)] >= a[j], 'strongest sampled')
    mt.set_choices(ch)
    S.eq(mt.current_choices, ch, 'choices read back')
    for i, k in enumerate(kinds):
        m = getattr(net, f'm{i}')
        want = m._candidates[m.current_choice if k != 'route' else
                             m.current_choice[0]](x)
        m.fix_chosen(m.export_chosen())
        ys = net(x)
        S.eq(ys[i], want, 'fixed to the sampled choice')


def tasks(tier):
    T = []
    th = tier != 'quick'
    for n in (1, 2, 3) + ((4, ) if th else ()):
        for cls in ('op', 'onehot', 'route', 'gumbel'):
            T.append(Task(f'probs-{cls}-{n}', probabilities,
                          dict(cls=cls, n=n), dict(OPT, cost=n)))
        for cls in ('op', 'route'):
            T.append(Task(f'mixture-{cls}-{n}', mixture,
                          dict(cls=cls, n=n), dict(EL, cost=5 * n)))
            T.append(Task(f'weighted-{cls}-{n}', weighted,
                          dict(cls=cls, n=n), dict(EL, cost=5 * n)))
            T.append(Task(f'unbound-{cls}-{n}', unbound, dict(cls=cls, n=n)))
        T.append(Task(f'lists-{n}', lists, dict(n=n)))
        for k in range(0, 4):
            T.append(Task(f'export-route-{n}-{k}', route_export,
                          dict(cls='route', n=n, k=k), dict(cost=n * 3)))
        T.append(Task(f'export-gumbel-{n}', route_export,
                      dict(cls='gumbel', n=n, k=2), dict(cost=n * 3)))
        for hard in (False, True):
            T.append(Task(f'gumbel-{n}-{hard}', gumbel,
                          dict(n=n, hard=hard), dict(OPT, cost=n * 8)))
            for power in (1, 2) + ((3, ) if th else ()):
                T.append(Task(f'draws-{n}-{hard}-{power}', draws,
                              dict(n=n, hard=hard, power=power),
                              dict(EL, cost=n * 8)))
        T.append(Task(f'onehot-{n}', onehot, dict(n=n), dict(OPT, cost=20)))
        T.append(Task(f'onehot-{n}-0', onehot, dict(n=n, thr=0.),
                      dict(OPT, cost=20)))
    for kinds in (('op', ), ('op', 'op'), ('route', 'op'),
                  ('op', 'op', 'route')):
        T.append(Task('mutator-' + '-'.join(kinds), mutator,
                      dict(kinds=kinds, n=2), dict(OPT, cost=20)))
    return T
