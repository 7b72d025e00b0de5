"""C05: derived channel numbers and masks always track their sources."""
import torch

from mmrazor.models.mutables import (DerivedMutable, MutableValue,
                                     OneShotMutableChannel,
                                     OneShotMutableValue,
                                     SimpleMutableChannel,
                                     SquentialMutableChannel)

from .common import Task, mask, picks

INFO = dict(
    bounds='sources: sequential channels of 1..6 (divisions: up to 40) '
    'channels at every choice, arbitrary masks of up to 4 channels, value '
    'variables whose candidates are arbitrary integers; derivations nested up '
    'to 2 deep (same, expand by integer, fractional or searched ratio, divide '
    'by integer, fractional or searched ratio with divisors 1..8, concat); '
    'histories of 3 changes of any source',
    outside='sources in ratio mode, ratios giving zero channels, deeper '
    'nesting')


def round8(k, d):
    r = max(d, (2 * k + d) // (2 * d) * d)
    return r + d if r < 0.9 * k else r


class Src:
    """a source with an independent record of its choice"""

    def __init__(self, S, name, kind, n):
        self.S, self.name, self.n, self.kind = S, name, n, kind
        if kind == 'seq':
            self.m = SquentialMutableChannel(n)
        elif kind == 'oneshot':
            self.m = OneShotMutableChannel(n, list(range(1, n + 1)))
            self.m.current_choice = n
        else:
            raise ValueError(kind)
        self.now = n
        self.k = 0

    def change(self):
        self.now = self.S.pick(f'{self.name}{self.k}', range(1, self.n + 1))
        self.k += 1
        self.m.current_choice = self.now

    def ref(self):
        return self.now, [i < self.now for i in range(self.n)]


def prefix(c, n):
    return [i < c for i in range(n)]


def check(S, d, c, m, what):
    S.eq(d.current_choice, c, f'{what}: choice')
    got = d.current_mask
    S.check(got.dtype == torch.bool, f'{what}: mask type')
    S.eq(got.tolist(), m, f'{what}: mask')
    S.check(sum(got.tolist()) == c, f'{what}: active channels == choice')


RULES = dict(
    same=lambda r: (r[0], prefix(r[0], len(r[1]))),
    x2=lambda r: (r[0] * 2, prefix(r[0] * 2, len(r[1]) * 2)),
    x3=lambda r: (r[0] * 3, prefix(r[0] * 3, len(r[1]) * 3)),
    x15=lambda r: (r[0] * 3 // 2, prefix(r[0] * 3 // 2, len(r[1]) * 3 // 2)),
    x225=lambda r: (r[0] * 9 // 4, prefix(r[0] * 9 // 4,
                                          len(r[1]) * 9 // 4)),
    d2=lambda r: (round8(r[0] // 2, 8), prefix(
        round8(r[0] // 2, 8), round8(len(r[1]) // 2, 8))),
    d3by1=lambda r: (round8(r[0] // 3, 1), prefix(
        round8(r[0] // 3, 1), round8(len(r[1]) // 3, 1))),
    d2by4=lambda r: (round8(r[0] // 2, 4), prefix(
        round8(r[0] // 2, 4), round8(len(r[1]) // 2, 4))),
    df2=lambda r: (round8(r[0] // 2, 1), prefix(
        round8(r[0] // 2, 1), round8(len(r[1]) // 2, 1))),
)


def build(m, rule):
    # operator sugar exists on channels only; derived ones use the methods
    if rule == 'same':
        return m.derive_same_mutable()
    if rule == 'x2':
        return m * 2 if hasattr(m, '__mul__') else m.derive_expand_mutable(2)
    if rule == 'x3':
        return m.derive_expand_mutable(3)
    if rule == 'x15':
        return m * 1.5 if hasattr(
            m, '__mul__') else m.derive_expand_mutable(1.5)
    if rule == 'x225':
        return m.derive_expand_mutable(2.25)
    if rule == 'd2':
        return m // 2 if hasattr(
            m, '__floordiv__') else m.derive_divide_mutable(2)
    if rule == 'd3by1':
        return m.derive_divide_mutable(3, 1)
    if rule == 'd2by4':
        return m // (2, 4) if hasattr(
            m, '__floordiv__') else m.derive_divide_mutable(2, 4)
    if rule == 'df2':
        return m.derive_divide_mutable(2.0)
    raise ValueError(rule)


def chain(S, n, kind, first, second=None, at_min=False, steps=2):
    s = Src(S, 'a', kind, n)
    if at_min:
        s.change()
    d = build(s.m, first)
    rule = RULES[first]
    if second:
        d2 = build(d, second)
        S.check(d2.source_mutables == {s.m}, 'sources of a chain')
    for _ in range(steps):
        r = rule(s.ref())
        check(S, d, *r, 'derived')
        if second:
            check(S, d2, *RULES[second](r), 'chained')
        s.change()
    r = rule(s.ref())
    check(S, d, *r, 'derived after changes')
    if second:
        check(S, d2, *RULES[second](r), 'chained after changes')
    # cannot be set independently
    for attr, val in (('current_choice', 1), ('current_mask', mask([True])),
                      ('is_fixed', True)):
        try:
            setattr(d, attr, val)
            S.check(False, f'{attr} of a derived mutable was set')
        except RuntimeError:
            S.check(True, 'rejected')
    d.fix_chosen(1)
    check(S, d, *r, 'fixing a derived mutable has no effect')
    S.check(s.m.is_fixed is False and d.is_fixed is False, 'not fixed')
    S.eq(d.dump_chosen().chosen, r[0], 'dumped')
    s.m.fix_chosen(s.now)
    S.check(d.is_fixed is True, 'fixed with its source')
    check(S, d, *r, 'after fixing the source')


def concat(S, na, nb, inner):
    a, b = Src(S, 'a', 'seq', na), Src(S, 'b', 'oneshot', nb)
    da = build(a.m, inner) if inner else a.m
    ra = RULES[inner] if inner else (lambda r: r)
    d = DerivedMutable.derive_concat_mutable([da, b.m])
    dd = DerivedMutable.derive_concat_mutable([b.m, d])
    S.check(d.source_mutables == {a.m, b.m}, 'sources of concat')
    S.check(dd.source_mutables == {a.m, b.m}, 'sources of nested concat')
    ds = d.derive_expand_mutable(2)
    for who in S.pick('order', [(0, 1), (1, 0), (0, 0), (1, 1)]):
        (a, b)[who].change()
        x, y = ra(a.ref()), b.ref()
        r = (x[0] + y[0], x[1] + y[1])
        check(S, d, *r, 'concat')
        check(S, dd, y[0] + r[0], y[1] + r[1], 'nested concat')
        check(S, ds, *RULES['x2'](r), 'expanded concat')
    a.m.fix_chosen(a.now)
    S.check(d.is_fixed is False, 'fixed only when all sources are')
    b.m.fix_chosen(b.now)
    S.check(d.is_fixed is True, 'fixed with all sources')


def masks(S, na, ratio):
    """arbitrary (non-prefix) masks: repeated channel by channel"""
    m = SimpleMutableChannel(na)
    d = m.expand_mutable_channel(ratio)
    for t in range(2):
        bits = picks(S, f'm{t}', na, least=0)
        m.current_choice = mask(bits)
        want = [b for b in bits for _ in range(ratio)]
        S.eq(d.current_mask.tolist(), want, 'expanded mask')
        S.eq(d.current_choice.tolist(), want, 'expanded choice')
    S.check(d.source_mutables == {m}, 'source of expanded channel')


def concat_twice(S, n):
    '''the same source may take part several times'''
    a, b = SquentialMutableChannel(n), SquentialMutableChannel(2)
    order = [S.pick(f's{i}', [0, 1]) for i in range(3)]
    d = DerivedMutable.derive_concat_mutable([[a, b][i] for i in order])
    for t in range(2):
        ca, cb = S.pick(f'a{t}', range(1, n + 1)), S.pick(f'b{t}', [1, 2])
        a.current_choice, b.current_choice = ca, cb
        parts = [(ca, n) if i == 0 else (cb, 2) for i in order]
        check(S, d, sum(c for c, _ in parts),
              sum((prefix(c, k) for c, k in parts), []), 'repeated concat')


def concat_masks(S):
    a, b = SquentialMutableChannel(3), SquentialMutableChannel(2)
    e = a.expand_mutable_channel(2)
    ca, cb = S.pick('ca', [1, 2, 3]), S.pick('cb', [1, 2])
    a.current_choice, b.current_choice = ca, cb
    S.eq(e.current_mask.tolist(), [i // 2 < ca for i in range(6)],
         'repeat-expanded mask')
    d = DerivedMutable.derive_concat_mutable([b, a])
    check(S, d, ca + cb, prefix(cb, 2) + prefix(ca, 3), 'concat')


def searched_ratio(S, how, n, ratios, default):
    """the ratio is a search variable itself"""
    a = Src(S, 'a', 'seq', n)
    mv = OneShotMutableValue(list(ratios), default_value=default)
    if how == 'mul':
        d = a.m * mv
    elif how == 'rmul':
        d = mv * a.m
    elif how == 'expand':
        d = a.m.derive_expand_mutable(mv)
    elif how == 'floordiv':
        d = a.m // mv
    elif how == 'divide':
        d = a.m.derive_divide_mutable(mv)
    S.check(d.source_mutables == {a.m, mv}, 'the ratio is a source too')
    hi, lo = max(ratios), min(ratios)
    r = default
    for t in range(3):
        if how in ('mul', 'rmul', 'expand'):
            c, w = int(a.now * r), int(n * hi)
        else:
            dv = 8 if how == 'floordiv' and isinstance(r, int) else 1
            c = round8(a.now // int(r), dv)
            w = round8(n // int(lo), dv)
        check(S, d, c, prefix(c, w), f'{how} by a searched ratio')
        if t == 0:
            r = S.pick('r', ratios)
            mv.current_choice = r
        elif t == 1:
            a.change()
    d2 = d.derive_same_mutable()
    check(S, d2, c, prefix(c, w), 'same of searched ratio')


def values(S, how):
    """derived numbers of value variables: arbitrary integer candidates"""
    x, y = S.int('x', 1, 10**6), S.int('y', 1, 10**6)
    S.assume(x < y)
    mv = MutableValue([x, y]) if how != 'oneshot' else OneShotMutableValue(
        [y, x])
    k = S.pick('k', [1, 2, 3, 7])
    e = mv * k
    f = mv * 1.5
    g = mv // k
    h = mv // (k, 4)
    dd = e.derive_expand_mutable(2)
    q = dd.derive_divide_mutable(2, 1)
    s = (k * mv).derive_same_mutable()
    for c in (y, x, y):
        mv.current_choice = c
        S.eq(e.current_choice, c * k, 'value * k')
        S.eq(s.current_choice, c * k, 'same of k * value')
        S.eq(f.current_choice, (3 * c) // 2, 'value * 1.5')
        for d, dv in ((g, 8), (h, 4)):
            r = d.current_choice
            S.check(r % dv == 0, 'divided value is a multiple')
            S.check((r >= dv) & (r * 10 >= (c // k) * 9), 'divided value')
            S.check((r == dv) | (r < c // k + dv), 'divided value near')
        S.eq(dd.current_choice, c * k * 2, 'chained expand')
        S.eq(q.current_choice, c * k if not isinstance(c, int) else max(
            1, c * k), 'chained divide')
        for d in (e, f, g, h, dd, q, s):
            S.check(d.source_mutables == {mv}, 'sources')
    for c in (y, x):
        mv.current_choice = c
        got = e.choices
        S.eq(list(got), [x * k, y * k], 'all choices of a derived value')
        S.eq(mv.current_choice, c, 'listing choices keeps the choice')
    try:
        e.current_mask
        S.check(False, 'value without mask has a mask')
    except RuntimeError:
        S.check(True, 'no mask')
    try:
        DerivedMutable.derive_concat_mutable([mv, mv])
        S.check(False, 'concat of values accepted')
    except RuntimeError:
        S.check(True, 'no concat of values')


def tasks(tier):
    T = []
    n1 = 4 if tier == 'quick' else 6
    small = ['same', 'x2', 'x3', 'x15', 'x225']
    big = ['d2', 'd3by1', 'd2by4', 'df2']
    for f in small:
        for kind in ('seq', 'oneshot'):
            T.append(Task(f'chain-{kind}-{f}', chain,
                          dict(n=n1, kind=kind, first=f)))
        T.append(Task(f'chain-from-any-{f}', chain,
                      dict(n=n1, kind='seq', first=f, at_min=True, steps=1)))
        for g in small + big:
            T.append(Task(f'chain-{f}-{g}', chain,
                          dict(n=n1, kind='seq', first=f, second=g, steps=1)))
    nb = 24 if tier == 'quick' else 48
    for f in big:
        T.append(Task(f'chain-{f}', chain,
                      dict(n=nb, kind='seq', first=f, steps=1),
                      dict(cost=5)))
        for g in small + big:
            T.append(Task(f'chain-{f}-{g}', chain,
                          dict(n=nb, kind='seq', first=f, second=g, steps=1),
                          dict(cost=5)))
    for inner in (None, 'x2', 'x15', 'same', 'd3by1'):
        T.append(Task(f'concat-{inner}', concat,
                      dict(na=3, nb=2, inner=inner)))
    for r in (1, 2, 3):
        T.append(Task(f'masks-{r}', masks, dict(na=3, ratio=r)))
    T.append(Task('concat-masks', concat_masks))
    T.append(Task('concat-twice', concat_twice, dict(n=3)))
    for how in ('mul', 'rmul', 'expand'):
        for rs in ((1, 2, 3), (1.0, 1.5, 2.5), (2, ), (0.5, 4.0)):
            for dflt in (rs[0], rs[-1]):
                T.append(Task(f'ratio-{how}-{rs}-{dflt}'.replace(' ', ''),
                              searched_ratio,
                              dict(how=how, n=4, ratios=rs, default=dflt))
                         ) if not (rs == (2, ) and dflt != rs[0]) else None
    for how in ('floordiv', 'divide'):
        for rs in ((1, 2, 4), (1.0, 2.0, 3.0)):
            for dflt in (rs[0], rs[-1]):
                T.append(Task(f'ratio-{how}-{rs}-{dflt}'.replace(' ', ''),
                              searched_ratio,
                              dict(how=how, n=20, ratios=rs, default=dflt)))
    for how in ('plain', 'oneshot'):
        T.append(Task(f'values-{how}', values, dict(how=how)))
    seen = {}
    return [seen.setdefault(t.name, t) for t in T if t.name not in seen]
