"""C09: search variables take legal values only and can be fixed once."""
import copy

import torch
from torch import nn

from mmrazor.models.mutables import (DiffChoiceRoute, DiffMutableOP,
                                     MutableValue, OneHotMutableOP,
                                     OneShotMutableChannel, OneShotMutableOP,
                                     OneShotMutableValue)
from mmrazor.models.mutables.mutable_module.one_shot_mutable_module import \
    OneShotProbMutableOP
from mmrazor.registry import MODELS

from .common import Task, symbolize

INFO = dict(
    bounds='value variables with 1..3 arbitrary integer or real candidates '
    '(repetitions allowed) and arbitrary requests; operation variables with '
    '1..4 candidate layers of arbitrary weights on arbitrary inputs, routes '
    'with 1..3 inputs; candidate channels 1..6; every sequence of three '
    'operations among set, set foreign, sample, dump, fix, fix foreign',
    outside='candidates of other types, longer histories, more candidates')


class Scale(nn.Module):
    """a candidate operation with its own parameter"""

    def __init__(self, extra=0., **kw):
        super().__init__()
        self.w = nn.Parameter(torch.ones(1))
        self.b = nn.Parameter(torch.ones(1))
        self.kw = kw

    def forward(self, x):
        return x * self.w + self.b


MODELS.register_module(name='VScale', module=Scale, force=True)
# names that are parts of each other are names like any other
NAMES = ['op_a', 'op_ab', 'op', 'op_d']


def cfgs(n):
    return {k: dict(type='VScale') for k in NAMES[:n]}


def number(S, kind, name):
    return S.int(name, -4, 9) if kind == 'int' else S.real(name, -4, 9)


def member(v, items):
    r = False
    for i in items:
        e = v == i
        r = e if r is False else (r | e)
    return r


def value(S, cls, kind, n, steps):
    items = [number(S, kind, f'v{i}') for i in range(n)]
    C = MutableValue if cls == 'plain' else OneShotMutableValue
    kw = {}
    if S.flag('default'):
        d = number(S, kind, 'd')
        kw['default_value'] = d
        if not member(d, items):
            S.raises(ValueError, C, list(items),
                     msg='a default outside the candidates is rejected', **kw)
            return
        now = d
    else:
        now = items[0]
        if cls != 'plain':
            for i in items:
                now = i if i > now else now
    given = list(items)
    m = C(given, **kw)
    S.eq(given, items, 'given candidates unchanged')
    S.eq(m.current_choice, now, 'default')
    S.check(m.num_choices == n, 'number of candidates')
    for i in items:
        S.check(member(i, m.choices), 'candidate kept')
    for c in m.choices:
        S.check(member(c, items), 'no other candidate')
    if cls != 'plain':
        for i in items:
            S.check(m.min_choice <= i, 'minimum')
            S.check(m.max_choice >= i, 'maximum')
        S.check(member(m.min_choice, items), 'minimum is a candidate')
        S.check(member(m.max_choice, items), 'maximum is a candidate')
    fixed = False
    for t in range(steps):
        op = S.pick(f'op{t}', ['set', 'sample', 'fix', 'dump'])
        if op == 'set' and not fixed:
            v = number(S, kind, f'set{t}')
            if member(v, items):
                m.current_choice = v
                now = v
            else:
                try:
                    m.current_choice = v
                    S.check(False, 'foreign value accepted')
                except ValueError:
                    pass
        elif op == 'sample' and cls != 'plain':
            v = m.sample_choice()
            S.check(member(v, items), 'sample is a candidate')
            S.eq(m.current_choice, now, 'sampling changes nothing')
        elif op == 'fix':
            v = number(S, kind, f'fix{t}')
            try:
                m.fix_chosen(v)
                S.check(not fixed, 'fixed twice')
                S.check(member(v, items), 'fixed to a foreign value')
                fixed, now = True, v
            except (AssertionError, ValueError):
                S.check(not fixed, 'second fix needs its own error')
                S.check(~member(v, items) if not isinstance(
                    member(v, items), bool) else not member(v, items),
                    'a candidate could not be fixed')
            except RuntimeError:
                S.check(fixed, 'first fix rejected')
        elif op == 'dump':
            d = m.dump_chosen()
            S.eq(d.chosen, now, 'dumped choice')
            S.eq(list(d.meta['all_choices']), list(m.choices), 'dumped list')
            m2 = C(list(items), **kw)
            m2.fix_chosen(d.chosen)
            S.eq(m2.current_choice, now, 're-fixed variable')
            S.check(m2.is_fixed, 're-fixed flag')
        S.eq(m.current_choice, now, 'choice')
        S.check(m.is_fixed is fixed, 'fixed flag')


def mixed(S):
    """candidates of different types are rejected"""
    a, b = S.int('a', 0, 9), S.pick('b', [1.5, 'x', None, (1, )])
    lst = [a, b] if S.flag('order') else [b, a]
    S.raises(TypeError, MutableValue, lst, msg='mixed types are rejected')


def build(S, cls, n, module_kwargs=None):
    if cls == 'oneshot':
        m = OneShotMutableOP(cfgs(n), module_kwargs=module_kwargs)
    elif cls == 'oneshot-dict':
        m = OneShotMutableOP(nn.ModuleDict({k: Scale() for k in NAMES[:n]}))
    elif cls == 'prob':
        ps = [S.real(f'p{i}', 0, 1) for i in range(n - 1)]
        rest = 1
        for p in ps:
            rest = rest - p
        S.assume(rest >= 0)
        m = OneShotProbMutableOP(cfgs(n), choice_probs=ps + [rest],
                                 module_kwargs=module_kwargs)
        m.ps = ps + [rest]
    elif cls == 'diff':
        m = DiffMutableOP(cfgs(n), module_kwargs=module_kwargs)
    elif cls == 'onehot':
        m = OneHotMutableOP(cfgs(n), module_kwargs=module_kwargs)
    return m


def operation(S, cls, n, steps):
    m = build(S, cls, n)
    symbolize(m, S)
    x = S.tensor('x', (2, ))
    outs = {k: m._candidates[k](x) for k in NAMES[:n]}
    every = sum(outs.values())
    now, fixed = None, None
    left = list(NAMES[:n])
    S.eq(m.choices, left, 'candidates')
    one = cls in ('oneshot', 'oneshot-dict', 'prob')

    def out():
        # the result expected from forward
        if fixed is not None:
            return outs[fixed]
        return outs[now] if one and now is not None else every

    S.eq(m(x), out(), 'initial forward')
    for t in range(steps):
        op = S.pick(f'op{t}', ['set', 'foreign', 'sample', 'fix', 'fix-foreign',
                               'dump'])
        if op == 'set' and fixed is None:
            now = S.pick(f'c{t}', left)
            m.current_choice = now
        elif op == 'foreign' and fixed is None and one:
            bad = S.pick(f'b{t}', ['other', '', 3])
            try:
                m.current_choice = bad
                m(x)
                S.check(False, 'a foreign choice was run')
            except (AssertionError, ValueError, KeyError):
                pass
            m.current_choice = now
        elif op == 'sample' and fixed is None:
            if one:
                s = m.sample_choice()
                if cls == 'prob':
                    S.check(m.ps[NAMES.index(s)] > 0,
                            'samples have a positive probability')
            else:
                s = m.sample_choice(S.tensor(f'arch{t}', (n, )))
            S.check(s in left, 'sample is a candidate')
            S.eq(m.current_choice, now, 'sampling changes nothing')
        elif op == 'fix':
            c = S.pick(f'c{t}', NAMES[:n])
            if fixed is None:
                m.fix_chosen(c)
                fixed, left = c, [c]
            else:
                S.raises(AttributeError, m.fix_chosen, c,
                         msg='second fix is rejected')
        elif op == 'fix-foreign':
            try:
                m.fix_chosen('other')
                S.check(False, 'fixed to a foreign candidate')
            except (AssertionError, AttributeError, ValueError, KeyError):
                pass
        elif op == 'dump' and now is not None:
            d = m.dump_chosen()
            S.eq(d.chosen, now, 'dumped choice')
            S.eq(list(d.meta['all_choices']), left, 'dumped candidates')
            if fixed is None:
                m2 = copy.deepcopy(m)
                m2.fix_chosen(d.chosen)
                S.eq(m2.choices, [now], 're-fixed variable')
                S.eq(m2(x), outs[now], 're-fixed variable computes the same')
                S.eq(m.choices, left, 'original untouched')
        S.eq(m.choices, left, 'candidates')
        S.check(m.num_choices == len(left), 'number of candidates')
        S.check(m.is_fixed is (fixed is not None), 'fixed flag')
        S.eq(m(x), out(), 'forward')
        if now is not None or op == 'set':
            S.eq(m.current_choice, now, 'current choice')
    S.eq(sorted({k.split('.')[1] for k in m.state_dict()}), sorted(left),
         'exactly the kept candidates own parameters')


def route(S, n, steps):
    edges = nn.ModuleDict({k: Scale() for k in NAMES[:n]})
    m = DiffChoiceRoute(edges, num_chosen=1)
    symbolize(m, S)
    xs = [S.tensor(f'x{i}', (2, )) for i in range(n)]
    outs = {k: edges[k](xs[i]) for i, k in enumerate(NAMES[:n])}
    fixed = None

    def out():
        return sum(outs[k] for k in (NAMES[:n] if fixed is None else fixed))

    S.eq(m(xs), out(), 'initial forward')
    for t in range(steps):
        op = S.pick(f'op{t}', ['fix', 'fix-foreign', 'sample'])
        if op == 'fix':
            sel = [k for i, k in enumerate(NAMES[:n]) if S.flag(f's{t}{i}')]
            if not sel:
                S.assume(False)
            if S.flag(f'rev{t}'):
                sel = sel[::-1]
            if fixed is None:
                m.fix_chosen(sel)
                fixed = sel
            else:
                S.raises(AttributeError, m.fix_chosen, sel,
                         msg='second fix is rejected')
        elif op == 'fix-foreign':
            try:
                m.fix_chosen(['other'])
                S.check(False, 'fixed to a foreign candidate')
            except (AssertionError, AttributeError, ValueError, KeyError):
                pass
        elif fixed is None:
            for s in m.sample_choice(S.tensor(f'arch{t}', (n, ))):
                S.check(s in NAMES[:n], 'sample is a candidate')
        S.eq(m.choices, [k for k in NAMES[:n] if fixed is None or k in fixed],
             'candidates')
        S.check(m.is_fixed is (fixed is not None), 'fixed flag')
        S.eq(m(xs), out(), 'forward')


def shared_cfg(S, cls):
    """configurations given are not modified"""
    c = cfgs(2)
    k = dict(extra=2., stride=1)
    C = dict(oneshot=OneShotMutableOP, diff=DiffMutableOP)[cls]
    a = C(c, module_kwargs=k)
    for o in a._candidates.values():
        S.eq(o.kw, dict(stride=1), 'arguments passed on')
    b = C(c, module_kwargs=dict(extra=1., padding=2))
    for o in b._candidates.values():
        S.eq(o.kw, dict(padding=2), 'only its own arguments')


def channel(S, n, mode, steps):
    ks = sorted({S.pick('a', range(1, n + 1)), S.pick('b', range(1, n + 1))})
    conv = (lambda k: k / n) if mode == 'ratio' else (lambda k: k)
    given = [conv(k) for k in reversed(ks)]
    m = OneShotMutableChannel(n, given, choice_mode=mode)
    S.eq(given, [conv(k) for k in reversed(ks)], 'given list unchanged')
    cand = [conv(k) for k in ks]
    S.eq(list(m.candidate_choices), cand, 'candidates')
    now, fixed = n, False
    for t in range(steps):
        op = S.pick(f'op{t}', ['set', 'fix', 'dump'])
        if op in ('set', 'fix'):
            k = S.pick(f'k{t}', range(0, n + 2))
            v = conv(k)
            if op == 'set' and fixed:
                continue
            try:
                if op == 'set':
                    m.current_choice = v
                else:
                    m.fix_chosen(v)
                    fixed = True
                S.check(k in ks, 'foreign choice accepted')
                now = k
            except AssertionError:
                S.check(k not in ks or fixed, 'candidate rejected')
            except (RuntimeError, AttributeError):
                S.check(fixed, 'candidate rejected')
        else:
            S.eq(m.dump_chosen().chosen, now, 'dumped number of channels')
        S.eq(m.current_choice, conv(now), 'choice')
        S.eq(m.current_mask.tolist(), [i < now for i in range(n)], 'mask')
        S.check(m.is_fixed is fixed, 'fixed flag')


def tasks(tier):
    T = []
    th = tier != 'quick'
    for cls in ('plain', 'oneshot'):
        for kind in ('int', 'real'):
            T.append(Task(f'value-{cls}-{kind}-1', value,
                          dict(cls=cls, kind=kind, n=1, steps=2),
                          dict(random=True)))
            T.append(Task(f'value-{cls}-{kind}-2', value,
                          dict(cls=cls, kind=kind, n=2, steps=2),
                          dict(random=True, cost=5)))
            T.append(Task(f'value-{cls}-{kind}-3', value,
                          dict(cls=cls, kind=kind, n=3, steps=1 + th),
                          dict(random=True, cost=5)))
    T.append(Task('value-mixed', mixed))
    for cls in ('oneshot', 'oneshot-dict', 'prob', 'diff', 'onehot'):
        for n, s in ((1, 2), (2, 3), (3, 2 + th)) + (((4, 2), ) if th else ()):
            T.append(Task(f'op-{cls}-{n}', operation,
                          dict(cls=cls, n=n, steps=s),
                          dict(random=True, cost=10 * n)))
    for n in (1, 2, 3):
        T.append(Task(f'route-{n}', route, dict(n=n, steps=2 + th),
                      dict(cost=n * 10)))
    for cls in ('oneshot', 'diff'):
        T.append(Task(f'shared-cfg-{cls}', shared_cfg, dict(cls=cls)))
    for mode in ('number', 'ratio'):
        for n, s in ((1, 3), (3, 2), (6, 1)) + (((3, 3), (6, 2)) if th else
                                                ()):
            T.append(Task(f'channel-{mode}-{n}-{s}', channel,
                          dict(n=n, mode=mode, steps=s), dict(cost=n * 4)))
    return T
