"""C32: any channel choice of a traced network runs and equals its export."""
import itertools

import torch
import torch.nn.functional as F
from torch import nn

from mmrazor.models.architectures.dynamic_ops.mixins import DynamicMixin
from mmrazor.models.mutables import (L1MutableChannelUnit,
                                     SequentialMutableChannelUnit)
from mmrazor.models.mutables.mutable_channel.units.channel_unit import (
    Channel, ChannelUnit)
from mmrazor.models.mutators import ChannelMutator
from mmrazor.structures import export_fix_subnet, load_fix_subnet

from .common import Task, plain_copy, symbolize

INFO = dict(
    bounds='hand-written and generated networks of up to 8 layers of widths '
    'up to 4: convolutions (plain, depthwise, grouped), batch norms, '
    'activations, pooling, residual additions, concatenations (of tensors of '
    'different widths, in different orders, of a tensor with itself), layers '
    'used twice, flattening of 1 or 2 positions and linear layers; both '
    'tracers; every choice of every unit (numbers and arbitrary masks); all '
    'weights, biases, statistics and inputs of 1 sample',
    outside='other layers, larger networks, layers the tracer cannot follow '
    '(tensors selected by index, views of channels); the scales of batch '
    'norms are fixed positive variances, kernels of 1 position')


class Spec(list):
    """a program: (name, kind, inputs, arguments)"""


class Net(nn.Module):

    def __init__(self, spec):
        super().__init__()
        self.spec = list(spec)
        for name, kind, _, args in spec:
            m = layer(kind, *args)
            if m is not None and not hasattr(self, name.split('@')[0]):
                self.add_module(name.split('@')[0], m)

    def forward(self, x):
        vals = {'x': x}
        for name, kind, ins, args in self.spec:
            a = [vals[i] for i in ins]
            m = getattr(self, name.split('@')[0], None)
            if m is not None:
                v = m(a[0])
            elif kind == 'add':
                v = a[0]
                for b in a[1:]:
                    v = v + b
            elif kind == 'cat':
                v = torch.cat(a, dim=1)
            elif kind == 'flat':
                v = torch.flatten(a[0], 1)
            elif kind == 'frelu':
                v = F.relu(a[0])
            vals[name] = v
        outs = [vals[i] for i in self.outs()]
        return outs[0] if len(outs) == 1 else tuple(outs)

    def outs(self):
        used = {i for _, _, ins, _ in self.spec for i in ins}
        return [n for n, _, _, _ in self.spec if n not in used]


def layer(kind, *a):
    if kind == 'conv':
        i, o = a
        return nn.Conv2d(i, o, 1)
    if kind == 'nobias':
        return nn.Conv2d(*a, 1, bias=False)
    if kind == 'dw':
        return nn.Conv2d(a[0], a[0], 1, groups=a[0])
    if kind == 'gw':
        i, o, g = a
        return nn.Conv2d(i, o, 1, groups=g)
    if kind == 'bn':
        m = nn.BatchNorm2d(a[0])
        return m
    if kind == 'bn1':
        return nn.BatchNorm1d(a[0])
    if kind == 'fc':
        return nn.Linear(*a)
    if kind == 'relu':
        return nn.ReLU()
    if kind == 'gap':
        return nn.AdaptiveAvgPool2d(1)
    return None


# ------------------------------------------------------------------- programs
PROGRAMS = {
    'chain': [
        ('a', 'conv', ['x'], (2, 3)), ('n', 'bn', ['a'], (3, )),
        ('r', 'relu', ['n'], ()), ('b', 'conv', ['r'], (3, 2)),
        ('o', 'nobias', ['b'], (2, 1))],
    'residual': [
        ('a', 'conv', ['x'], (2, 3)), ('b', 'conv', ['a'], (3, 2)),
        ('c', 'conv', ['b'], (2, 3)), ('n', 'bn', ['c'], (3, )),
        ('s', 'add', ['a', 'n'], ()), ('o', 'conv', ['s'], (3, 1))],
    'residual-twice': [
        ('a', 'conv', ['x'], (2, 2)), ('b', 'conv', ['a'], (2, 2)),
        ('s', 'add', ['a', 'b'], ()), ('c', 'conv', ['s'], (2, 2)),
        ('t', 'add', ['s', 'c'], ()), ('d', 'conv', ['t'], (2, 3)),
        ('o', 'conv', ['d'], (3, 1))],
    'from-input': [
        ('a', 'conv', ['x'], (2, 3)), ('b', 'conv', ['a'], (3, 2)),
        ('s', 'add', ['x', 'b'], ()), ('o', 'conv', ['s'], (2, 1))],
    'cat': [
        ('a', 'conv', ['x'], (2, 3)), ('b', 'conv', ['x'], (2, 2)),
        ('c', 'cat', ['a', 'b'], ()), ('n', 'bn', ['c'], (5, )),
        ('o', 'conv', ['n'], (5, 1))],
    'cat-add': [
        ('a', 'conv', ['x'], (2, 1)), ('b', 'conv', ['x'], (2, 3)),
        ('c', 'cat', ['a', 'b'], ()), ('d', 'conv', ['x'], (2, 4)),
        ('s', 'add', ['c', 'd'], ()), ('o', 'conv', ['s'], (4, 1))],
    'cat-add-cat': [
        ('a', 'conv', ['x'], (2, 1)), ('b', 'conv', ['x'], (2, 3)),
        ('c', 'cat', ['a', 'b'], ()), ('d', 'conv', ['x'], (2, 2)),
        ('e', 'conv', ['x'], (2, 2)), ('f', 'cat', ['d', 'e'], ()),
        ('s', 'add', ['c', 'f'], ()), ('o', 'conv', ['s'], (4, 1))],
    'cat-swap': [
        ('a', 'conv', ['x'], (2, 2)), ('b', 'conv', ['x'], (2, 2)),
        ('c', 'cat', ['a', 'b'], ()), ('d', 'cat', ['b', 'a'], ()),
        ('s', 'add', ['c', 'd'], ()), ('o', 'conv', ['s'], (4, 1))],
    'cat-swap-uneven': [
        ('a', 'conv', ['x'], (2, 2)), ('b', 'conv', ['x'], (2, 4)),
        ('c', 'cat', ['a', 'b'], ()), ('d', 'cat', ['b', 'a'], ()),
        ('s', 'add', ['c', 'd'], ()), ('o', 'conv', ['s'], (6, 1))],
    'cat-self': [
        ('a', 'conv', ['x'], (2, 3)), ('c', 'cat', ['a', 'a'], ()),
        ('o', 'conv', ['c'], (6, 1))],
    'cat-input': [
        ('a', 'conv', ['x'], (2, 3)), ('c', 'cat', ['x', 'a'], ()),
        ('o', 'conv', ['c'], (5, 1))],
    'dense': [
        ('a', 'conv', ['x'], (2, 2)), ('b', 'conv', ['a'], (2, 2)),
        ('c', 'cat', ['a', 'b'], ()), ('d', 'conv', ['c'], (4, 2)),
        ('e', 'cat', ['c', 'd'], ()), ('n', 'bn', ['e'], (6, )),
        ('o', 'conv', ['n'], (6, 1))],
    'dw': [
        ('a', 'conv', ['x'], (2, 4)), ('n', 'bn', ['a'], (4, )),
        ('d', 'dw', ['n'], (4, )), ('m', 'bn', ['d'], (4, )),
        ('r', 'frelu', ['m'], ()), ('o', 'conv', ['r'], (4, 1))],
    'dw-cat': [
        ('a', 'conv', ['x'], (2, 2)), ('b', 'conv', ['x'], (2, 3)),
        ('c', 'cat', ['a', 'b'], ()), ('d', 'dw', ['c'], (5, )),
        ('o', 'conv', ['d'], (5, 1))],
    'dw-residual': [
        ('a', 'conv', ['x'], (2, 3)), ('d', 'dw', ['a'], (3, )),
        ('s', 'add', ['a', 'd'], ()), ('o', 'conv', ['s'], (3, 1))],
    'grouped': [
        ('a', 'conv', ['x'], (2, 4)), ('g', 'gw', ['a'], (4, 4, 2)),
        ('o', 'conv', ['g'], (4, 1))],
    'grouped-wide': [
        ('a', 'conv', ['x'], (2, 4)), ('n', 'bn', ['a'], (4, )),
        ('g', 'gw', ['n'], (4, 6, 2)), ('m', 'bn', ['g'], (6, )),
        ('o', 'conv', ['m'], (6, 1))],
    'grouped-residual': [
        ('a', 'conv', ['x'], (2, 4)), ('g', 'gw', ['a'], (4, 4, 2)),
        ('s', 'add', ['a', 'g'], ()), ('o', 'conv', ['s'], (4, 1))],
    'gap': [
        ('a', 'conv', ['x'], (2, 3)), ('p', 'gap', ['a'], ()),
        ('f', 'flat', ['p'], ()), ('b', 'fc', ['f'], (3, 3)),
        ('n', 'bn1', ['b'], (3, )), ('r', 'relu', ['n'], ()),
        ('o', 'fc', ['r'], (3, 2))],
    'flatten': [
        ('a', 'conv', ['x'], (2, 3)), ('f', 'flat', ['a'], ()),
        ('b', 'fc', ['f'], (6, 2)), ('o', 'fc', ['b'], (2, 1))],
    'flatten-cat': [
        ('a', 'conv', ['x'], (2, 2)), ('b', 'conv', ['x'], (2, 3)),
        ('c', 'cat', ['a', 'b'], ()), ('f', 'flat', ['c'], ()),
        ('o', 'fc', ['f'], (10, 1))],
    'flatten-residual': [
        ('a', 'conv', ['x'], (2, 3)), ('b', 'conv', ['x'], (2, 3)),
        ('c', 'add', ['a', 'b'], ()), ('f', 'flat', ['c'], ()),
        ('o', 'fc', ['f'], (6, 1))],
    'shared': [
        ('a', 'conv', ['x'], (2, 3)), ('b', 'conv', ['x'], (2, 3)),
        ('s', 'conv', ['a'], (3, 2)), ('s@2', 'conv', ['b'], (3, 2)),
        ('c', 'cat', ['s', 's@2'], ()), ('o', 'conv', ['c'], (4, 1))],
    'shared-in-line': [
        ('a', 'conv', ['x'], (2, 3)), ('s', 'conv', ['a'], (3, 3)),
        ('r', 'relu', ['s'], ()), ('s@2', 'conv', ['r'], (3, 3)),
        ('o', 'conv', ['s@2'], (3, 1))],
    'two-outputs': [
        ('a', 'conv', ['x'], (2, 3)), ('b', 'conv', ['a'], (3, 2)),
        ('o', 'conv', ['b'], (2, 1)), ('p', 'conv', ['a'], (3, 2))],
}


def block(kind, tag, src, c):
    """a block keeps the number of channels or changes it"""
    t = lambda k: f'{tag}{k}'  # noqa: E731
    if kind == 'plain':
        return [(t('c'), 'conv', [src], (c, 3)), (t('n'), 'bn', [t('c')],
                                                 (3, )),
                (t('r'), 'relu', [t('n')], ())], t('r'), 3
    if kind == 'res':
        return [(t('c'), 'conv', [src], (c, 2)),
                (t('d'), 'conv', [t('c')], (2, c)),
                (t('s'), 'add', [src, t('d')], ())], t('s'), c
    if kind == 'down':
        return [(t('c'), 'conv', [src], (c, 2)),
                (t('d'), 'nobias', [src], (c, 2)),
                (t('n'), 'bn', [t('d')], (2, )),
                (t('s'), 'add', [t('n'), t('c')], ())], t('s'), 2
    if kind == 'dense':
        return [(t('c'), 'conv', [src], (c, 2)),
                (t('t'), 'cat', [src, t('c')], ())], t('t'), c + 2
    if kind == 'split':
        return [(t('c'), 'conv', [src], (c, 1)),
                (t('d'), 'conv', [src], (c, 2)),
                (t('t'), 'cat', [t('d'), t('c')], ())], t('t'), 3
    if kind == 'dw':
        return [(t('c'), 'dw', [src], (c, )),
                (t('d'), 'conv', [t('c')], (c, 2))], t('d'), 2
    raise KeyError(kind)


BLOCKS = ('plain', 'res', 'down', 'dense', 'split', 'dw')


def generated(kinds, head):
    spec, src, c = [('stem', 'conv', ['x'], (2, 2))], 'stem', 2
    for i, k in enumerate(kinds):
        more, src, c = block(k, f'b{i}', src, c)
        spec += more
    if head == 'conv':
        spec.append(('o', 'conv', [src], (c, 1)))
    elif head == 'gap':
        spec += [('p', 'gap', [src], ()), ('f', 'flat', ['p'], ()),
                 ('o', 'fc', ['f'], (c, 1))]
    else:
        spec += [('f', 'flat', [src], ()), ('o', 'fc', ['f'], (2 * c, 1))]
    return spec


# --------------------------------------------------------- expected coupling
class Union:

    def __init__(self):
        self.parent = {}

    def find(self, a):
        self.parent.setdefault(a, a)
        while self.parent[a] != a:
            a = self.parent[a]
        return a

    def join(self, a, b):
        self.parent[self.find(a)] = self.find(b)


def coupling(spec, outs):
    """the sets of layers whose channels are chosen together"""
    u = Union()
    flow = {'x': [('in', 0), ('in', 1)]}
    for e in flow['x']:
        u.join(e, 'fixed')
    first = {}
    for name, kind, ins, args in spec:
        base = name.split('@')[0]
        a = [flow[i] for i in ins]
        if kind in ('conv', 'nobias', 'gw', 'fc'):
            out = [(base, i) for i in range(args[1])]
            if base in first:
                for p, q in zip(first[base], a[0]):
                    u.join(p, q)
            first.setdefault(base, a[0])
            if kind == 'gw':
                g = args[2]
                for chans in (a[0], out):
                    n = len(chans) // g
                    for i, e in enumerate(chans):
                        u.join(e, chans[i % n])
        elif kind == 'add':
            out = a[0]
            for b in a[1:]:
                for p, q in zip(out, b):
                    u.join(p, q)
        elif kind == 'cat':
            out = [e for t in a for e in t]
        elif kind == 'flat':
            n = len(a[0])
            gap = any(s[0] == ins[0] and s[1] == 'gap' for s in spec)
            out = [e for e in a[0] for _ in range(1 if gap else 2)]
            assert len(out) in (n, 2 * n)
        else:
            out = a[0]
        if kind == 'bn1':  # not a layer that can be cut
            for e in out:
                u.join(e, 'fixed')
        flow[name] = out
    for o in outs:
        for e in flow[o]:
            u.join(e, 'fixed')
    classes = {}
    for e in list(u.parent):
        classes.setdefault(u.find(e), set()).add(e)
    for chans in flow.values():
        for e in chans:
            classes.setdefault(u.find(e), set()).add(e)
    fixed = u.find('fixed')
    return {frozenset(e[0] for e in c) for r, c in classes.items()
            if r != fixed}


def exact(spec, tracer):
    """the tracer is able to follow: no concatenation of the input of the
    network, nor, from gradients, of a sum or of another concatenation"""
    kinds = {s[0]: s[1] for s in spec}
    return not any(
        s[1] == 'cat' and any(
            i == 'x' or (tracer == 'BackwardTracer' and kinds[i] in
                         ('add', 'cat')) for i in s[2]) for s in spec)


# ----------------------------------------------------------------- reference
def mask_of(m, attr):
    a = m.get_mutable_attr(attr) if hasattr(m, 'get_mutable_attr') else None
    return None if a is None else [bool(v) for v in a.current_mask]


def keep(v, mask):
    """zero the channels that are cut away"""
    shape = [1, len(mask)] + [1] * (v.dim() - 2)
    return v * torch.tensor([float(b) for b in mask]).reshape(shape).double()


def reference(S, net, spec, outs, params, x):
    """the original network with the channels cut away set to zero"""
    vals, masks = {'x': x}, {'x': [True] * 2}
    for name, kind, ins, args in spec:
        base = name.split('@')[0]
        v, m = vals[ins[0]], masks[ins[0]]
        op = getattr(net, base, None)
        p = params.get(base, {})
        if kind in ('conv', 'nobias', 'fc'):
            got = mask_of(op, 'in_channels')
            S.check(got is None or got == m, 'inputs of a layer')
            out = mask_of(op, 'out_channels') or [True] * args[1]
            f = F.linear if kind == 'fc' else F.conv2d
            v = f(v, p['weight'], p.get('bias'))
            m = out
        elif kind == 'dw':
            for attr in ('in_channels', 'out_channels'):
                got = mask_of(op, attr)
                S.check(got is None or got == m, 'depthwise layer')
            v = F.conv2d(v, p['weight'], p['bias'], groups=args[0])
        elif kind == 'gw':
            g = args[2]
            S.check(mask_of(op, 'in_channels') == m, 'inputs of a layer')
            v = F.conv2d(v, p['weight'], p['bias'], groups=g)
            m = mask_of(op, 'out_channels')
        elif kind in ('bn', 'bn1'):
            got = mask_of(op, 'num_features')
            S.check(got is None or got == m, 'normalised channels')
            v = F.batch_norm(v, p['running_mean'], p['running_var'],
                             p['weight'], p['bias'], False, 0., 1e-5)
        elif kind in ('relu', 'frelu'):
            v = torch.relu(v)
        elif kind == 'gap':
            v = F.adaptive_avg_pool2d(v, 1)
        elif kind == 'flat':
            n = v.shape[2] * v.shape[3]
            v = v.reshape(1, -1)
            m = [b for b in m for _ in range(n)]
        elif kind == 'add':
            for i in ins[1:]:
                S.check(masks[i] == m, 'operands of an addition')
                v = v + vals[i]
        elif kind == 'cat':
            v = torch.cat([vals[i] for i in ins], 1)
            m = [b for i in ins for b in masks[i]]
        vals[name], masks[name] = keep(v, m), m
    for o in outs:
        S.check(all(masks[o]), 'outputs are never cut')
    return [vals[o] for o in outs]


# ------------------------------------------------------------------- harness
CACHE = {}
UNITS = dict(
    number=dict(type='SequentialMutableChannelUnit', default_args=dict(
        choice_mode='number', divisor=1, min_value=1, min_ratio=.1)),
    mask=dict(type='L1MutableChannelUnit', default_args=dict(
        choice_mode='number', divisor=1, min_value=1, min_ratio=.1)))


def setup(name, spec, unit, tracer):
    """traces the network, once, outside of the symbolic runs"""
    key = (name, unit, tracer)
    if key not in CACHE:
        try:
            torch.manual_seed(0)
            net = Net(spec)
            for m in net.modules():
                if isinstance(m, nn.modules.batchnorm._BatchNorm):
                    m.running_var.copy_(
                        torch.arange(1., 1 + m.num_features)**2 - 1e-5)
            net.eval()
            sizes = {n: p.shape for n, p in net.state_dict().items()}
            mutator = ChannelMutator(
                channel_unit_cfg=UNITS[unit],
                parse_cfg=dict(type='ChannelAnalyzer', demo_input=(1, 2, 1, 2),
                               tracer_type=tracer))
            mutator.prepare_from_supernet(net)
            net.double()
            for m in net.modules():
                if isinstance(m, nn.modules.batchnorm._BatchNorm):
                    m.eps = 1e-5
                    m.running_var.copy_(torch.arange(
                        1., 1 + m.num_features).double()**2 - 1e-5)
            CACHE[key] = net, mutator, sizes
        except Exception as e:  # reported by the harness that needs it
            CACHE[key] = e


def prepared(name, spec, unit, tracer):
    setup(name, spec, unit, tracer)
    got = CACHE[name, unit, tracer]
    if isinstance(got, Exception):
        raise got
    return plain_copy(got)


def choose(S, mutator, unit):
    for i, u in enumerate(mutator.mutable_units):
        n = u.num_channels
        if unit == 'number':
            u.current_choice = S.pick(f'unit{i}', list(range(n, 0, -1)))
        else:
            bits = S.pick(f'unit{i}', [
                b for b in itertools.product((1., 0.), repeat=n) if any(b)])
            u.mutable_channel.mask.copy_(torch.tensor(bits))


def network(S, name, spec, unit, tracer):
    net, mutator, sizes = prepared(name, spec, unit, tracer)
    S.check({n: p.shape for n, p in net.state_dict().items()
             if n in sizes} == sizes, 'layers keep their parameters')
    symbolize(net, S, 'm.', skip=('mask', 'mutable', 'running_var'))
    params = {}
    for n, m in net.named_modules():
        params[n] = {k: v.detach().clone() for k, v in (
            *m._parameters.items(), *m._buffers.items()) if v is not None}
    outs = net.outs()
    want = coupling(spec, outs)
    got = set()
    for u in mutator.mutable_units:
        got.add(frozenset(
            c.name for c in u.output_related
            if any(s[0] == c.name and s[1] in ('conv', 'nobias', 'gw', 'fc')
                   for s in spec)))
    # what the tracer cannot follow stays as it is
    S.check(got == want or got < want and not exact(spec, tracer),
            'layers of the units')
    S.check(len(mutator.mutable_units) == len(got), 'number of units')
    x = S.tensor('x', (1, 2, 1, 2), -2, 2)
    choose(S, mutator, unit)
    ref = reference(S, net, spec, outs, params, x)

    def same(model, msg):
        y = model(x)
        y = [y] if len(outs) == 1 else y
        for a, b in zip(y, ref):
            S.eq(a, b.reshape(a.shape), msg)

    same(net, 'sub-network')
    fix, static = export_fix_subnet(net, slice_weight=True)
    S.check(not any(isinstance(m, DynamicMixin) for m in static.modules()),
            'the export is static')
    static.eval()
    same(static, 'exported network')
    same(net, 'sub-network after the export')
    load_fix_subnet(net, fix)
    net.eval()
    same(net, 'network fixed to the sub-network')


def arguments(S, cls):
    """units made from found ones, with the arguments that were given"""
    a, b = S.pick('a', [2, 3, 4]), S.pick('b', [2, 5])
    given = dict(divisor=1, min_value=1, min_ratio=.1)
    if S.flag('stale'):
        given['num_channels'] = 7
    before = dict(given)
    for n in (a, b):
        unit = ChannelUnit(n)
        unit.add_output_related(Channel('a', None, (0, n)))
        unit.add_input_related(Channel('b', None, (0, n),
                                       is_output_channel=False))
        new = cls.init_from_channel_unit(unit, given)
        S.check(given == before, 'arguments are not modified')
        S.check(new.num_channels == n and new.mutable_channel.num_channels ==
                n, 'number of channels')
        S.check(new.input_related == unit.input_related and
                new.output_related == unit.output_related, 'channels')
    plain = cls.init_from_channel_unit(ChannelUnit(a))
    other = cls.init_from_channel_unit(ChannelUnit(b))
    S.check((plain.num_channels, other.num_channels) == (a, b), 'defaults')


def tasks(tier):
    deep = tier != 'quick'
    T = []
    for cls in (SequentialMutableChannelUnit, L1MutableChannelUnit):
        T.append(Task(f'arguments-{cls.__name__}', arguments, dict(cls=cls)))
    k = 0
    for name, spec in PROGRAMS.items():
        for unit in ('number', 'mask'):
            k += 1
            tracer = ('BackwardTracer', 'FxTracer')
            if name == 'shared-in-line':  # a cycle for gradients
                tracer = tracer[1:]
            for t in tracer if deep else [tracer[k // 2 % len(tracer)]]:
                T.append(Task(f'{name}-{unit}-{t}', network, dict(
                    name=name, spec=spec, unit=unit, tracer=t),
                              dict(setup=setup)))
    for n in (2, 3) if deep else (2, ):
        for kinds in itertools.product(BLOCKS, repeat=n):
            k += 1
            heads = ('conv', 'gap', 'flat')
            for head in heads if n == 2 and deep else [heads[k % 3]]:
                name = '-'.join(kinds) + '-' + head
                T.append(Task(name, network, dict(
                    name=name, spec=generated(kinds, head),
                    unit=('number', 'mask')[k // 3 % 2] if n == 2 else
                    'number',
                    tracer=('BackwardTracer', 'FxTracer')[k // 2 % 2]),
                              dict(setup=setup)))
    return T
