"""C07: rounding channel counts to a divisor."""
import itertools

from mmrazor.models.mutables.mutable_channel.units.one_shot_mutable_channel_unit import \
    OneShotMutableChannelUnit
from mmrazor.models.mutables.mutable_channel.units.sequential_mutable_channel_unit import \
    SequentialMutableChannelUnit
from mmrazor.models.mutables.derived_mutable import _divide_and_divise
from mmrazor.models.utils import make_divisible

from .common import Task

INFO = dict(
    bounds='every divisor from 1 to 33 (thorough: 130), requests any integer '
    'or real from 0 to 100000, minimum any multiple of the divisor up to '
    '100000, absent, or below the divisor, lower fraction any real in [0, 1] '
    '(integer requests) or 0, 0.5, 0.8, 0.9 (1.0 for integer requests); unit wrappers: widths up to 40 (thorough 96)',
    outside='minimum values above the divisor that are no multiple of it '
    '(nothing sensible can be promised), negative requests')


def contract(S, r, value, divisor, low, ratio, what):
    S.check(r % divisor == 0, f'{what}: multiple of the divisor')
    S.check(r >= low, f'{what}: at least the minimum')
    S.check(r >= value * ratio, f'{what}: not below the lower fraction')
    # nearest multiple (halves up): near-1/2 <= value/d < near+1/2
    near = S.int(S.fresh_name('near'), 0)
    S.assume(2 * near * divisor <= 2 * value + divisor)
    S.assume(2 * near * divisor + divisor > 2 * value)
    near = near * divisor
    ok = (near >= low) & (near >= value * ratio)
    S.check(~ok | (r == near) if not isinstance(ok, bool) else
            (not ok or r == near), f'{what}: nearest multiple when legal')
    # never rounds further up than needed
    small = (r == low) | (r < value + divisor) if not isinstance(
        ok, bool) else (r == low or r < value + divisor)
    S.check(small, f'{what}: not more than one divisor above')


def rounding(S, divisor, kind, minimum, ratio):
    value = (S.int('value', 0, 100000) if kind == 'int' else
             S.real('value', 0, 100000))
    low = divisor
    kw = {}
    if minimum == 'multiple':
        low = S.int('k', 1, 100000) * divisor
        kw['min_value'] = low
    elif minimum == 'below':
        kw['min_value'] = S.int('low', 0, divisor - 1)
    if ratio is None:
        rr = 0.9
    elif ratio == 'sym':
        rr = S.real('ratio', 0, 1)
        kw['min_ratio'] = rr
    else:
        rr = ratio
        kw['min_ratio'] = rr
    r = make_divisible(value, divisor, **kw)
    contract(S, r, value, divisor, low, rr, 'make_divisible')
    S.eq(make_divisible(value, divisor, **kw), r, 'repeatable')


def divide(S, divisor):
    """the rounding used by derived (divided) channel numbers."""
    value = S.int('value', 0, 100000)
    ratio = S.pick('ratio', [1, 2, 3, 4, 7, 16])
    r = _divide_and_divise(value, ratio, divisor)
    contract(S, r, value // ratio, divisor, divisor, 0.9, 'divided width')


def _round(k, d, low=None, ratio=0.9):
    """independent reference of the rounding rule (integers)"""
    low = max(low or d, d)
    r = max(low, (2 * k + d) // (2 * d) * d)
    return r + d if r < ratio * k else r


def unit(S, width, divisor, min_value, min_ratio):
    u = SequentialMutableChannelUnit(
        width, divisor=divisor, min_value=min_value, min_ratio=min_ratio)
    c = S.int('c', 1, width)
    r = u._make_divisible(c)
    low = max(min_value, divisor)
    if r == width:
        S.check(r <= width, 'unit rounding stays within the width')
    else:
        S.check(r < width, 'unit rounding stays within the width')
        contract(S, r, c, divisor, low, min_ratio, 'unit rounding')
    n = S.pick('n', range(1, width + 1))
    u.current_choice = n
    S.eq(u.current_choice, min(_round(n, divisor, min_value, min_ratio),
                               width), 'unit choice is the rounded request')


def candidates(S, width, divisor, mode):
    ks = [S.pick('a', range(1, width + 1)), S.pick('b', range(1, width + 1))]
    if ks[0] > ks[1]:
        S.assume(False)
    req = [k / width for k in ks] if mode == 'ratio' else list(ks)
    given = list(req)
    u = OneShotMutableChannelUnit(
        width, req, choice_mode=mode, divisor=divisor, min_value=1,
        min_ratio=0.9)
    want = sorted(min(width, _round(k, divisor)) for k in ks)
    if mode == 'ratio':
        want = [w / width for w in want]
    S.eq(list(u.candidate_choices), want, 'candidates are rounded requests')
    S.check(req == given, 'request list unchanged')


def tasks(tier):
    T = []
    top = 33 if tier == 'quick' else 130
    for d in range(1, top):
        for kind in ('int', 'real'):
            for mn in ('none', 'multiple', 'below'):
                T.append(Task(f'round-{kind}-{d}-{mn}', rounding,
                              dict(divisor=d, kind=kind, minimum=mn,
                                   ratio=None), dict(torch=False)))
        T.append(Task(f'round-int-{d}-symratio', rounding,
                      dict(divisor=d, kind='int', minimum='multiple',
                           ratio='sym'), dict(torch=False)))
        for ratio in (0, 0.5, 0.8, 1.0):
            for kind in ('int', 'real')[:1 if ratio == 1 else 2]:
                T.append(Task(f'round-{kind}-{d}-ratio{ratio}', rounding,
                              dict(divisor=d, kind=kind, minimum='multiple',
                                   ratio=ratio), dict(torch=False)))
    for d in (1, 2, 3, 8, 16):
        T.append(Task(f'divide-{d}', divide, dict(divisor=d),
                      dict(torch=False)))
    big = tier != 'quick'
    for w, d, mv, mr in ((12, 1, 1, 0.9), (16, 4, 4, 0.9), (24, 8, 8, 0.8),
                         (40, 8, 16, 0.9), (30, 5, 5, 0.5)) + (
                             ((96, 8, 8, 0.9), ) if big else ()):
        T.append(Task(f'unit-{w}-{d}-{mv}-{mr}', unit,
                      dict(width=w, divisor=d, min_value=mv, min_ratio=mr)))
    for w, d in ((6, 1), (10, 4), (16, 8), (20, 8)) + (((49, 1), (40, 8))
                                                         if big else ()):
        for mode in ('number', 'ratio'):
            T.append(Task(f'candidates-{mode}-{w}-{d}', candidates,
                          dict(width=w, divisor=d, mode=mode),
                          dict(cost=w * w)))
    return T
