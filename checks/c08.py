"""C08: channel units translate choices between counts, ratios and masks."""
import torch
from torch import nn

from mmrazor.models.mutables import (DCFFChannelUnit, L1MutableChannelUnit,
                                     OneShotMutableChannelUnit,
                                     SequentialMutableChannelUnit,
                                     SlimmableChannelUnit)
from mmrazor.models.mutables.mutable_channel.units.channel_unit import Channel

from .common import Task, symbolize

INFO = dict(
    bounds='widths 1..8, 10, 20, 49 (thorough up to 64), divisors 1..8, every '
    'count, every ratio k/width (as the IEEE double) and arbitrary real ratios '
    'in (0, 1]; candidate lists of two requests; a conv-norm-conv(-linear) '
    'chain governed by the unit; norm-ranked units with up to 4 channels and '
    'arbitrary real weights',
    outside='minimum values that are no multiple of the divisor, wider units')

CLS = dict(seq=SequentialMutableChannelUnit, l1=L1MutableChannelUnit,
           dcff=DCFFChannelUnit, oneshot=OneShotMutableChannelUnit,
           slim=SlimmableChannelUnit)


def rnd(k, d, low=1, ratio=0.9, width=10**9):
    low = max(low, d)
    r = max(low, (2 * k + d) // (2 * d) * d)
    return min(r + d if r < ratio * k else r, width)


def model_for(n, cls=None, linear=True):
    model = nn.Sequential(
        nn.Conv2d(2, n, 1), nn.BatchNorm2d(n), nn.Conv2d(n, n, 1, groups=n),
        nn.Conv2d(n, 2, 1))
    return model


def governed(S, unit, n):
    """attach the unit to a small model; returns the masks it governs"""
    model = model_for(n)
    unit.add_output_related(Channel('0', model[0], (0, n)))
    unit.add_output_related(Channel('1', model[1], (0, n)))
    unit.add_input_related(
        Channel('1', model[1], (0, n), is_output_channel=False))
    unit.add_output_related(Channel('2', model[2], (0, n)))
    unit.add_input_related(
        Channel('2', model[2], (0, n), is_output_channel=False))
    unit.add_input_related(
        Channel('3', model[3], (0, n), is_output_channel=False))
    unit.prepare_for_pruning(model)

    def masks():
        out = []
        for i, sides in ((0, 'out'), (1, 'in'), (1, 'out'), (2, 'in'),
                         (2, 'out'), (3, 'in')):
            c = model[i].get_mutable_attr(sides + '_channels')
            out.append(c.current_mask)
        # the other sides stay complete
        out2 = [model[0].get_mutable_attr('in_channels').current_mask,
                model[3].get_mutable_attr('out_channels').current_mask]
        return out, out2

    return model, masks


def holds(S, unit, masks, r, n, what):
    """exactly the first r channels are kept everywhere"""
    want = [i < r for i in range(n)]
    S.eq(unit.mutable_channel.current_mask.tolist(), want, f'{what}: mask')
    S.check(unit.mutable_channel.activated_channels == r, f'{what}: count')
    S.eq(unit.current_choice, r if unit.is_num_mode else r / n,
         f'{what}: read back')
    S.check(isinstance(unit.current_choice, int) == unit.is_num_mode,
            f'{what}: kind of choice')
    if masks is not None:
        on, off = masks()
        for m in on:
            S.eq(m.tolist(), want, f'{what}: governed mask')
        for m in off:
            S.check(bool(m.all()), f'{what}: foreign mask')


def counts(S, cls, n, mode, d=1, low=1, mr=0.9, attach=True):
    """every count and every ratio k/n, twice, with read back in between"""
    u = CLS[cls](n, choice_mode=mode, divisor=d, min_value=low, min_ratio=mr)
    masks = governed(S, u, n)[1] if attach else None
    holds(S, u, masks, n, n, 'initially')
    for t in range(2):
        k = S.pick(f'k{t}', range(1, n + 1))
        as_ratio = S.flag(f'ratio{t}')
        u.current_choice = k / n if as_ratio else k
        r = rnd(k, d, low, mr, n)
        holds(S, u, masks, r, n, 'after set')
        u.current_choice = u.current_choice
        holds(S, u, masks, r, n, 'set to itself')
    cfg = u.config_template(with_init_args=True)
    v = CLS[cls].init_from_cfg(None, cfg)
    holds(S, v, None, r, n, 'rebuilt from its configuration')
    S.eq(v.config_template(with_init_args=True), cfg, 'same configuration')
    v.current_choice = k
    holds(S, v, None, r, n, 'set after rebuilding')
    v.current_choice = 1
    holds(S, v, None, rnd(1, d, low, mr, n), n, 'least after rebuilding')
    u.fix_chosen(S.pick('fix', range(1, n + 1)) if n < 6 else None)
    r2 = u.mutable_channel.activated_channels
    holds(S, u, masks, r2, n, 'fixed')
    S.check(u.mutable_channel.is_fixed, 'fixed flag')


def ratio(S, cls, n, mode, d=1):
    """an arbitrary real ratio"""
    u = CLS[cls](n, choice_mode=mode, divisor=d)
    x = S.real('x', 0, 1, lo_open=True)
    u.current_choice = x
    c = u.mutable_channel.activated_channels
    S.check(1 <= c <= n, 'between one and all channels')
    S.eq(u.mutable_channel.current_mask.tolist(), [i < c for i in range(n)],
         'a prefix is kept')
    if d == 1:
        # floor(n * x), at least one, up to the documented float tolerance
        S.check(c <= n * x + 0.001 or c == 1, 'not more than the ratio')
        S.check(c + 1 >= n * x, 'not a whole channel less than the ratio')
        S.check((c + 1 > n * x) | (c == n), 'whole channels of the ratio kept')
    else:
        S.check(c % d == 0 or c == n, 'multiple of the divisor')
    again = u.current_choice
    u.current_choice = again
    S.check(u.mutable_channel.activated_channels == c, 'stable')


def sample(S, cls, n, mode, d):
    u = CLS[cls](n, choice_mode=mode, divisor=d)
    s = u.sample_choice()
    S.check(isinstance(s, int) == (mode == 'number'), 'kind of sample')
    u.current_choice = s
    c = u.mutable_channel.activated_channels
    S.check(1 <= c <= n and (c % d == 0 or c == n), 'legal sample')
    S.check(abs(u.current_choice - s) < 1e-9, 'a sample reads back')


def oneshot(S, cls, n, mode, d=1, attach=True, lists=2):
    ks = [S.pick('abc'[i], range(1, n + 1)) for i in range(lists)]
    req = [k / n for k in ks] if mode == 'ratio' else list(ks)
    u = CLS[cls](n, req, choice_mode=mode, divisor=d)
    masks = governed(S, u, n)[1] if attach else None
    want = sorted(rnd(k, d, width=n) for k in ks)
    conv = (lambda r: r / n) if mode == 'ratio' else (lambda r: r)
    S.eq(list(u.candidate_choices), [conv(w) for w in want], 'candidates')
    S.eq(u.min_choice, conv(want[0]), 'minimum')
    S.eq(u.max_choice, conv(want[-1]), 'maximum')
    if attach:
        holds(S, u, masks, want[-1], n, 'prepared at the maximum')
    s = u.sample_choice()
    S.check(s in u.candidate_choices, 'sample is a candidate')
    i = S.pick('i', range(lists))
    u.current_choice = u.candidate_choices[i]
    holds(S, u, masks, want[i], n, 'candidate set')
    u.current_choice = u.current_choice
    holds(S, u, masks, want[i], n, 'candidate set to itself')
    bad = S.pick('bad', range(0, n + 2)) if attach else want[0]
    if bad not in want:
        # in ratio mode the integer 1 is a count and equals the ratio 1.0
        for b in ((bad / n, ) if bad == 1 and mode == 'ratio' else
                  (bad, bad / n)):
            try:
                u.current_choice = b
                S.check(False, 'a choice that is no candidate was accepted')
            except AssertionError:
                holds(S, u, masks, want[i], n, 'illegal choice rejected')
    u.current_choice = s
    S.eq(u.current_choice, s, 'sample set')
    u.current_choice = u.candidate_choices[i]
    u.fix_chosen()
    holds(S, u, masks, want[i], n, 'fixed')


def slim_bn(S, n):
    """slimmable units give every candidate its own norm"""
    ks = sorted({S.pick('a', range(1, n + 1)), S.pick('b', range(1, n + 1))})
    u = SlimmableChannelUnit(n, list(ks))
    model, masks = governed(S, u, n)
    bn = model[1]
    S.check(sorted(bn.candidate_bn.keys()) == sorted(str(k) for k in ks),
            'a norm per candidate')
    for k in ks:
        S.check(bn.candidate_bn[str(k)].num_features == k, 'norm width')
    k = S.pick('k', ks)
    u.current_choice = k
    holds(S, u, masks, k, n, 'candidate')


def default_lists(S, cls):
    """units never share or change the lists they were given"""
    n, m = S.pick('n', [2, 4, 6]), S.pick('m', [2, 4, 6])
    kw = dict(choice_mode='number')
    if cls == 'oneshot':
        kw['candidate_choices'] = lst = []
    else:
        lst = []
    a, b = CLS[cls](n, **kw), CLS[cls](m, **kw)
    S.eq(list(a.candidate_choices), [n], 'default candidates')
    S.eq(list(b.candidate_choices), [m], 'default candidates of the second')
    S.check(lst == [], 'list unchanged')
    b.current_choice = m
    a.current_choice = n
    given = [n, 1]
    c = CLS[cls](n, given, choice_mode='number')
    S.check(given == [n, 1], 'order of the given list unchanged')
    S.eq(list(c.candidate_choices), [1, n], 'sorted candidates')


def l1(S, n, mode, d=1, two=True):
    u = L1MutableChannelUnit(n, choice_mode=mode, divisor=d)
    model = nn.Sequential(nn.Conv2d(1, n, 1 if n > 3 else (1, 2)),
                          nn.BatchNorm2d(n), nn.Linear(n, 1))
    u.add_output_related(Channel('0', model[0], (0, n)))
    u.add_output_related(Channel('1', model[1], (0, n)))
    if two:
        model.append(nn.Linear(2, n + 1))
        u.add_output_related(Channel('3', model[3], (1, n + 1)))
    u.add_input_related(Channel('2', model[2], (0, n),
                                is_output_channel=False))
    u.prepare_for_pruning(model)
    symbolize(model, S, skip=('mutable', 'running', 'num_batches'))
    k = S.pick('k', range(1, n + 1))
    u.current_choice = k if mode == 'number' else k / n
    r = rnd(k, d, width=n)
    on = u.mutable_channel.current_mask.tolist()
    S.check(sum(on) == r, 'number of kept channels')
    S.eq(u.current_choice, r if mode == 'number' else r / n, 'read back')
    S.eq(model[0].get_mutable_attr('out_channels').current_mask.tolist(), on,
         'governed mask')
    if two:
        S.eq(model[3].get_mutable_attr('out_channels').current_mask.tolist(),
             [True] + on, 'governed mask of the shifted range')
    w = model[0].weight.abs().flatten(1)
    norms = w.sum(1) / w.shape[1]
    if two:
        w3 = model[3].weight[1:].abs()
        norms = norms + w3.sum(1) / w3.shape[1]
    for i in range(n):
        for j in range(n):
            if on[i] and not on[j]:
                S.check(norms[i] >= norms[j], 'largest norms are kept')


def tasks(tier):
    T = []
    th = tier != 'quick'
    for mode in ('number', 'ratio'):
        for cls in ('seq', 'dcff'):
            for n in (1, 2, 4) + ((5, 6) if th else ()):
                T.append(Task(f'counts-{cls}-{mode}-{n}', counts,
                              dict(cls=cls, n=n, mode=mode), dict(cost=n)))
            for n, d in ((6, 2), (7, 3), (10, 8)) + (
                    ((20, 8), (24, 4)) if th else ()):
                T.append(Task(f'counts-{cls}-{mode}-{n}-d{d}', counts,
                              dict(cls=cls, n=n, mode=mode, d=d, low=d,
                                   mr=0.8, attach=n < 8), dict(cost=n * 3)))
            T.append(Task(f'counts-{cls}-{mode}-9-least6', counts,
                          dict(cls=cls, n=9, mode=mode, d=3, low=6, mr=0.8,
                               attach=False), dict(cost=20)))
        for n in ((20, 49) + ((57, 61, 64) if th else ())):
            T.append(Task(f'single-{mode}-{n}', wide, dict(n=n, mode=mode),
                          dict(cost=n)))
        for cls in ('seq', 'dcff'):
            for n, d in ((1, 1), (4, 1), (7, 1), (9, 2), (10, 4), (20, 8)):
                T.append(Task(f'ratio-{cls}-{mode}-{n}-{d}', ratio,
                              dict(cls=cls, n=n, mode=mode, d=d)))
        for n, d in ((5, 1), (12, 4), (10, 8), (20, 8)):
            T.append(Task(f'sample-{mode}-{n}-{d}', sample,
                          dict(cls='seq', n=n, mode=mode, d=d)))
        for n, d, at in ((3, 1, True), (4, 2, True), (10, 4, False),
                         (10, 8, False)) + (((20, 8, False), ) if th else ()):
            T.append(Task(f'oneshot-{mode}-{n}-{d}', oneshot,
                          dict(cls='oneshot', n=n, mode=mode, d=d, attach=at),
                          dict(cost=n * n)))
        T.append(Task(f'oneshot-three-{mode}', oneshot,
                      dict(cls='oneshot', n=4, mode=mode, lists=3,
                           attach=False), dict(cost=20)))
        for n, d in ((3, 1), (4, 1), (4, 2)):
            for two in (False, True):
                T.append(Task(f'l1-{mode}-{n}-{d}-{two}', l1,
                              dict(n=n, mode=mode, d=d, two=two),
                              dict(cost=n * n * n)))
    for n in (3, 4):
        T.append(Task(f'slim-{n}', oneshot,
                      dict(cls='slim', n=n, mode='number')))
        T.append(Task(f'slim-bn-{n}', slim_bn, dict(n=n)))
    for cls in ('oneshot', 'slim'):
        T.append(Task(f'default-lists-{cls}', default_lists, dict(cls=cls)))
    return T


def wide(S, n, mode):
    """one set per count and ratio at awkward widths (float truncation)"""
    u = SequentialMutableChannelUnit(n, choice_mode=mode)
    k = S.pick('k', range(1, n + 1))
    u.current_choice = k / n if S.flag('ratio') else k
    holds(S, u, None, k, n, 'set')
    u.current_choice = u.current_choice
    holds(S, u, None, k, n, 'set to itself')
    o = OneShotMutableChannelUnit(n, [k / n] if mode == 'ratio' else [k],
                                  choice_mode=mode)
    holds(S, o, None, n, n, 'initially')
    o.current_choice = o.max_choice
    holds(S, o, None, k, n, 'candidate')
