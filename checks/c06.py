"""C06: a tensor's channel mask is the in-order concatenation of its units."""
import torch
from torch import nn

from mmrazor.models.architectures.dynamic_ops import (DynamicConv2d,
                                                      DynamicLinear)
from mmrazor.models.mutables import (MutableChannelContainer,
                                     OneShotMutableValue,
                                     SimpleMutableChannel,
                                     SquentialMutableChannel)
from mmrazor.utils import IndexDict

from .common import Task, mask

INFO = dict(
    bounds='tensors of up to 6 channels (thorough 8), every sequence of 2 '
    '(thorough 3) registration attempts of any range, reversed, empty and '
    'overlapping ones included, in any order, between reads; masks of the '
    'units are arbitrary and change between reads; registration through a '
    'layer for sequential, value-scaled and expanded channels',
    outside='negative positions, more attempts')


def regs(S, width, attempts, read_between, valid_only=False):
    c = MutableChannelContainer(width)
    have = {}
    fill = set()

    def expect():
        out = []
        for i in range(width):
            hit = [(s, e) for s, e in have if s <= i < e]
            out.append(have[hit[0]][1][i - hit[0][0]] if hit else True)
        return out

    def check(msg):
        if have and not partial():
            want = expect()
            got = c.current_mask
            S.check(tuple(got.shape) == (width, ), f'{msg}: width')
            S.check(got.dtype == torch.bool, f'{msg}: dtype')
            for i in range(width):
                S.eq(got[i], want[i], f'{msg}: position {i}')
            S.eq(c.current_choice, got, f'{msg}: choice')
            n = sum(w if isinstance(w, int) else w.int() for w in want)
            S.eq(c.activated_channels, n, f'{msg}: number of channels')
            for i in range(width):
                if not any(s <= i < e for s, e in have):
                    fill.add(i)
        elif not have:
            S.eq(c.current_mask.tolist(), [True] * width, f'{msg}: empty')

    def partial():
        # a range past the end makes the tensor's mask undefined
        return any(e > width for s, e in have)

    check('nothing registered')
    for t in range(attempts):
        s = S.pick(f's{t}', range(0, width + (0 if valid_only else 1)))
        e = S.pick(f'e{t}', range(s + 1 if valid_only else 0, width + 1))
        m = SimpleMutableChannel(max(e - s, 1))
        bits = S.tensor(f'm{t}', (max(e - s, 1), ), dtype=torch.bool)
        m.current_choice = bits
        legal = s < e and not any(
            s < b and a < e for a, b in have) and not any(
                i in fill for i in range(s, e))
        before = list(c.mutable_channels.keys())
        try:
            c.register_mutable(m, s, e)
            ok = True
        except AssertionError:
            ok = False
        S.check(ok == legal, 'overlapping and reversed ranges are rejected')
        if ok:
            have[(s, e)] = (m, [bits[i] for i in range(e - s)])
        else:
            S.check(list(c.mutable_channels.keys()) == before,
                    'a rejected range changes nothing')
        keys = list(c.mutable_channels.keys())
        S.check(keys == sorted(keys), 'ranges are kept in order')
        S.check(all(a[1] <= b[0] for a, b in zip(keys, keys[1:])),
                'ranges are disjoint')
        if read_between:
            check(f'after attempt {t}')
    check('at the end')
    for k in list(have):
        m, old = have[k]
        bits = S.tensor(f'again{k}', (k[1] - k[0], ), dtype=torch.bool)
        m.current_choice = bits
        have[k] = (m, [bits[i] for i in range(k[1] - k[0])])
    check('after changing the units')
    check('read again')
    try:
        c.current_choice = mask([True] * width)
        S.check(False, 'the mask of a container was set')
    except NotImplementedError:
        S.check(True, 'not settable')


def shared(S, width):
    """one unit registered at several places of one or two tensors"""
    u = SimpleMutableChannel(2)
    a, b = MutableChannelContainer(width), MutableChannelContainer(width + 1)
    pos = S.pick('pos', range(0, width - 3))
    a.register_mutable(u, pos, pos + 2)
    a.register_mutable(u, pos + 2, pos + 4)
    b.register_mutable(u, width - 1, width + 1)
    bits = S.tensor('m', (2, ), dtype=torch.bool)
    for t in range(2):
        u.current_choice = bits
        for i in range(width):
            if pos <= i < pos + 4:
                S.eq(a.current_mask[i], bits[(i - pos) % 2], 'shared unit')
            else:
                S.eq(a.current_mask[i], True, 'rest kept')
        for i in range(width + 1):
            if i >= width - 1:
                S.eq(b.current_mask[i], bits[i - width + 1], 'second tensor')
            else:
                S.eq(b.current_mask[i], True, 'rest kept')
        bits = S.tensor(f'm2{t}', (2, ), dtype=torch.bool)


def to_module(S, kind, layer):
    """registration through a layer spans the whole unit, at any choice"""
    n = 3
    if kind == 'seq':
        m = SquentialMutableChannel(n)
        w = n
    elif kind == 'simple':
        m = SimpleMutableChannel(n)
        w = n
    elif kind == 'scaled':
        src = SquentialMutableChannel(n)
        mv = OneShotMutableValue([1, 2])
        m = src * mv
        w = n * 2
    else:
        src = SquentialMutableChannel(n)
        m = src.derive_expand_mutable(2)
        w = n * 2

    def change(t):
        if kind == 'simple':
            bits = [S.flag(f'b{t}{i}') for i in range(n)]
            m.current_choice = mask(bits)
            return bits
        c = S.pick(f'c{t}', range(1, n + 1))
        (m if kind == 'seq' else src).current_choice = c
        if kind == 'scaled':
            r = S.pick(f'r{t}', [1, 2])
            mv.current_choice = r
            c *= r
        elif kind == 'expand':
            c *= 2
        return [i < c for i in range(w)]

    if S.flag('early'):
        change(0)
    start = S.pick('start', [0, 1, 4])
    total = start + w + S.pick('rest', [0, 2])
    op = (nn.Conv2d(total, total, 1) if layer == 'conv' else nn.Linear(
        total, total))
    op = (DynamicConv2d if layer == 'conv' else
          DynamicLinear).convert_from(op)
    for a in ('in_channels', 'out_channels'):
        op.register_mutable_attr(a, MutableChannelContainer(total))
    out = S.flag('out')
    MutableChannelContainer.register_mutable_channel_to_module(
        op, m, out, start=start)
    bits = change(1)
    want = [True] * start + bits + [True] * (total - start - w)
    a = op.get_mutable_attr('out_channels' if out else 'in_channels')
    o = op.get_mutable_attr('in_channels' if out else 'out_channels')
    S.eq(a.current_mask.tolist(), want, 'registered side')
    S.eq(o.current_mask.tolist(), [True] * total, 'other side untouched')


def index_dict(S, top, n):
    """the ordered range dictionary on its own"""
    d = IndexDict()
    model = {}
    for t in range(n):
        s = S.pick(f's{t}', range(0, top))
        e = S.pick(f'e{t}', range(0, top + 1))
        over = any(s < b and a < e for a, b in model)
        if s < e:
            S.check(((s, e) in d) == over, 'membership is overlap')
        try:
            d[(s, e)] = t
            ok = True
        except AssertionError:
            ok = False
        S.check(ok == (s < e and not over), 'legal exactly when disjoint')
        if ok:
            model[(s, e)] = t
        S.eq(list(d.items()), sorted(model.items()), 'contents in order')


def tasks(tier):
    T = []
    th = tier != 'quick'
    for between in (False, True):
        T.append(Task(f'two-ranges-read{between}', regs,
                      dict(width=6 if th else 4, attempts=2,
                           read_between=between), dict(cost=9)))
        T.append(Task(f'two-valid-ranges-read{between}', regs,
                      dict(width=8 if th else 6, attempts=2, valid_only=True,
                           read_between=between), dict(cost=8)))
        T.append(Task(f'three-ranges-read{between}', regs,
                      dict(width=5 if th else 3, attempts=3, valid_only=True,
                           read_between=between), dict(cost=10)))
    T.append(Task('shared', shared, dict(width=6)))
    for kind in ('seq', 'simple', 'scaled', 'expand'):
        for layer in ('conv', 'linear'):
            T.append(Task(f'module-{kind}-{layer}', to_module,
                          dict(kind=kind, layer=layer)))
    T.append(Task('index-dict-2', index_dict, dict(top=5, n=2)))
    T.append(Task('index-dict-3', index_dict,
                  dict(top=5 if th else 3, n=3), dict(cost=5)))
    return T
