"""C35: widening an expandable network with zeros preserves its function."""
from types import SimpleNamespace

import torch
from torch import nn

from mmrazor.models.mutables import SimpleMutableChannel
from mmrazor.models.utils.expandable_utils import tools
from mmrazor.models.utils.expandable_utils.ops import (ExpandableBatchNorm2d,
                                                       ExpandableConv2d,
                                                       ExpandLinear)

from .common import Task, plain_copy, snapshot, symbolize

INFO = dict(
    bounds='networks of 2 to 4 layers of up to 3 channels (chain, residual '
    'sum, concatenation, depthwise, flattened and pooled into a linear '
    'layer, normalisation with and without scales), every combination of '
    'widths up to 2 (thorough: 4) above the old ones, one or two '
    'enlargements in a row, divisors up to 4, training and evaluation mode; '
    'single layers with every position of the old channels among up to 4; '
    'every weight, running statistic and input of 1 sample and 2 positions',
    outside='grouped convolutions other than depthwise (refused by the code), '
    'networks the tracer cannot follow, rounding of floats')


class Net(nn.Module):

    def __init__(self, kind):
        super().__init__()
        self.kind = kind
        conv = nn.Conv2d
        self.a = conv(3, 2, 1)
        if kind == 'chain':
            self.bn = nn.BatchNorm2d(2, eps=.25, momentum=.5)
            self.b = conv(2, 3, 3, padding=1, bias=False)
            self.c = conv(3, 1, 1)
        elif kind == 'plainbn':
            self.bn = nn.BatchNorm2d(2, affine=False)
            self.c = conv(2, 1, 1)
        elif kind == 'nostats':
            self.bn = nn.BatchNorm2d(2, track_running_stats=False)
            self.c = conv(2, 1, 1)
        elif kind == 'sum':
            self.b = conv(2, 2, 1)
            self.c = conv(2, 1, 1)
        elif kind == 'cat':
            self.b = conv(3, 1, 1)
            self.bn = nn.BatchNorm2d(3)
            self.c = conv(3, 1, 1)
        elif kind == 'dw':
            self.b = conv(2, 2, 1, groups=2)
            self.c = conv(2, 1, 1)
        elif kind == 'linear':
            self.c = nn.Linear(2, 2)
            self.d = nn.Linear(2, 1, bias=False)
        elif kind == 'flat':
            self.pool = nn.AdaptiveAvgPool2d((1, 2))
            self.c = nn.Linear(4, 1)

    def forward(self, x):
        k = self.kind
        if k == 'cat':
            x = torch.cat([self.a(x), self.b(x)], dim=1)
            return self.c(torch.relu(self.bn(x)))
        x = self.a(x)
        if k == 'chain':
            return self.c(torch.relu(self.b(self.bn(x))))
        if k in ('plainbn', 'nostats'):
            return self.c(torch.relu(self.bn(x)))
        if k == 'sum':
            return self.c(self.b(x) + x)
        if k == 'dw':
            return self.c(torch.relu(self.b(x)))
        if k == 'linear':
            x = self.c(x.mean(dim=[2, 3]))
            return self.d(torch.relu(x))
        if k == 'flat':
            return self.c(torch.flatten(self.pool(x), 1))


# unit -> old width, producers; layer -> blocks of inputs, blocks of outputs
UNITS = dict(
    chain=dict(a=2, b=3), plainbn=dict(a=2), nostats=dict(a=2), sum=dict(a=2),
    cat=dict(a=2, b=1), dw=dict(a=2), linear=dict(a=2, c=2), flat=dict(a=2))
LAYERS = dict(
    chain=dict(a=((), 'a'), bn=('a', 'a'), b=('a', 'b'), c=('b', ())),
    plainbn=dict(a=((), 'a'), bn=('a', 'a'), c=('a', ())),
    nostats=dict(a=((), 'a'), bn=('a', 'a'), c=('a', ())),
    sum=dict(a=((), 'a'), b=('a', 'a'), c=('a', ())),
    cat=dict(a=((), 'a'), b=((), 'b'), bn=('ab', 'ab'), c=('ab', ())),
    dw=dict(a=((), 'a'), b=('a', 'a'), c=('a', ())),
    linear=dict(a=((), 'a'), c=('a', 'c'), d=('c', ())),
    flat=dict(a=((), 'a'), c=('aa', ())))
CACHE = {}


def build(kind):
    if kind not in CACHE:
        torch.manual_seed(0)
        net = Net(kind)
        state = {k: v.clone() for k, v in net.state_dict().items()}
        try:
            mutator = tools.to_expandable_model(net)
            now = net.state_dict()
            same = set(now) >= set(state) and all(
                torch.equal(now[k], v) for k, v in state.items())
            CACHE[kind] = net.double(), mutator, same
        except Exception as e:  # reported by the harness that needs it
            CACHE[kind] = e
    return CACHE[kind]


for _k in UNITS:
    build(_k)


def start(S, kind, training):
    if isinstance(CACHE[kind], Exception):
        raise CACHE[kind]
    net, mutator, same = plain_copy(CACHE[kind])
    S.check(same, 'the conversion keeps the weights')
    symbolize(net, S, 'm.', skip=('mask', ))
    for m in net.modules():
        if isinstance(m, nn.BatchNorm2d) and m.running_var is not None:
            for i in range(m.num_features):
                S.assume(m.running_var[i].item() > 0)
    net.train(training)
    plain = Net(kind).train(training)
    state = {k: v.detach().clone() for k, v in net.state_dict().items()}
    for n, m in plain.named_modules():
        for k in list(m._parameters):
            if m._parameters[k] is not None:
                m._parameters[k] = nn.Parameter(
                    state[f'{n}.{k}'], requires_grad=False)
        for k in list(m._buffers):
            if m._buffers[k] is not None:
                m._buffers[k] = state[f'{n}.{k}']
    units = {}
    for u in mutator.mutable_units:
        first = [n for n, m in net.named_children()
                 if any(c.module is m for c in u.output_related)][0]
        units[first] = u
    S.check(set(units) == set(UNITS[kind]), 'the units')
    return net, mutator, plain, units


def blocks(names, old, new, width):
    """where the old channels lie, and how many there are now"""
    if not names:
        return list(range(width)), width
    pos, at = [], 0
    if names == 'aa':
        # flattened: every channel gives two features
        return list(range(2 * old['a'])), 2 * new['a']
    for n in names:
        pos += list(range(at, at + old[n]))
        at += new[n]
    return pos, at


def compare(S, kind, net, plain, old, new, zero):
    """the layers of the wide network"""
    for name, (i, o) in LAYERS[kind].items():
        a, b = getattr(plain, name), getattr(net, name)
        S.check(type(b) in (nn.Conv2d, nn.Linear, nn.BatchNorm2d),
                'an ordinary layer')
        S.check(b.training == a.training, 'mode of the layer')
        if isinstance(a, nn.BatchNorm2d):
            pos, n = blocks(o, old, new, a.num_features)
            S.check(b.num_features == n, 'width')
            for k in ('weight', 'bias', 'running_mean', 'running_var'):
                v, w = getattr(a, k), getattr(b, k)
                S.check((v is None) == (w is None), f'{k} is there')
                if v is not None:
                    S.check(w.shape == (n, ), 'width')
                    S.eq(w[pos], v, f'{name}.{k}')
            if a.num_batches_tracked is not None:
                S.eq(b.num_batches_tracked, a.num_batches_tracked,
                     'batches tracked')
            S.check((b.eps, b.momentum, b.affine, b.track_running_stats) ==
                    (a.eps, a.momentum, a.affine, a.track_running_stats),
                    'settings')
            continue
        conv = isinstance(a, nn.Conv2d)
        dw = conv and a.groups > 1
        ip, ni = blocks(i, old, new, a.in_channels if conv else
                        a.in_features)
        op_, no = blocks(o, old, new, a.out_channels if conv else
                         a.out_features)
        if conv:
            S.check((b.in_channels, b.out_channels) == (ni, no), 'width')
            S.check(b.groups == (no if dw else 1), 'groups')
            for k in ('kernel_size', 'stride', 'padding', 'dilation',
                      'padding_mode'):
                S.check(getattr(a, k) == getattr(b, k), k)
        else:
            S.check((b.in_features, b.out_features) == (ni, no), 'width')
        rest = a.weight.shape[2:]
        S.check(b.weight.shape == (no, 1 if dw else ni) + rest,
                'shape of the weight')
        got = b.weight[op_]
        S.eq(got if dw else got[:, ip], a.weight, f'{name}.weight')
        if zero:
            want = torch.zeros(b.weight.shape)
            for r, p in enumerate(op_):
                if dw:
                    want[p] = a.weight[r]
                else:
                    for c, q in enumerate(ip):
                        want[p, q] = a.weight[r, c]
            S.eq(b.weight, want, f'{name}.weight is zero elsewhere')
        S.check((a.bias is None) == (b.bias is None), 'bias is there')
        if a.bias is not None:
            S.check(b.bias.shape == (no, ), 'shape of the bias')
            S.eq(b.bias[op_], a.bias, f'{name}.bias')


def widen(S, kind, most, times):
    training = S.flag('training') and kind not in ('cat', )
    net, mutator, plain, units = start(S, kind, training)
    how = S.pick('how', ['expand', 'expand_to'])
    zero = S.flag('zero')
    old, new = dict(UNITS[kind]), dict(UNITS[kind])
    for t in range(times):
        for n, u in units.items():
            k = S.pick(f'more-{n}{t}', range(most + 1))
            new[n] += k
            u.expand(k) if how == 'expand' else u.expand_to(new[n])
    x = S.tensor('x', (1, 3, 1, 2), -2, 2)
    out = tools.expand_expandable_dynamic_model(net, zero=zero)
    S.check(out is net, 'the same network')
    compare(S, kind, net, plain, old, new, zero)
    if zero:
        S.eq(out(x), plain(x), 'the function stays')


def as_before(S, kind):
    """a converted network computes what the original one did"""
    net, mutator, plain, units = start(S, kind, S.flag('training'))
    x = S.tensor('x', (1, 3, 1, 2), -2, 2)
    S.eq(net(x), plain(x), 'the function stays')


def static(S, kind, most):
    """the entry points for ordinary networks"""
    net, mutator, plain, units = start(S, kind, False)
    seen = []

    def convert(model):
        seen.append(model)
        if len(seen) == 1:
            return mutator
        return SimpleNamespace(choice_template={
            u.name: model.get_submodule(n).weight.shape[0]
            for n, u in units.items()})

    S.patch(tools, 'to_expandable_model', convert)
    old = UNITS[kind]
    x = S.tensor('x', (1, 3, 1, 2), -2, 2)
    if S.flag('divisible'):
        d = S.pick('divisor', range(1, most + 1))
        got = tools.make_channel_divisible(net, d)
        new = {n: -(-w // d) * d for n, w in old.items()}
        S.check(got == {u.name: new[n] for n, u in units.items()},
                'the structure')
        out = net
    else:
        new = {n: w + S.pick(f'more-{n}', range(3))
               for n, w in old.items()}
        asked = {u.name: new[n] for n, u in units.items()
                 if new[n] != old[n] or S.flag(f'asked-{n}')}
        out = tools.expand_static_model(net, asked)
    S.check(seen[0] is net and out is net, 'the same network')
    compare(S, kind, net, plain, old, new, True)
    S.eq(out(x), plain(x), 'the function stays')


def chosen(S, name, n, wide):
    """where the old channels go: any n places"""
    at = [S.pick(f'{name}{i}', range(wide)) for i in range(n)]
    if any(a >= b for a, b in zip(at, at[1:])):
        S.assume(False)
    return at, torch.tensor([float(i in at) for i in range(wide)])


def layer(S, kind, n_in, n_out, wide_in, wide_out):
    """a single layer whose old channels may lie anywhere"""
    zero = S.flag('zero')
    bias = S.flag('bias')
    one = kind in ('dw', 'bn')
    ip, mi = chosen(S, 'in', n_in, wide_in)
    op_, mo = (ip, mi) if one else chosen(S, 'out', n_out, wide_out)
    if kind == 'linear':
        old = ExpandLinear(n_in, n_out, bias=bias)
    elif kind == 'bn':
        old = ExpandableBatchNorm2d(n_in)
    else:
        old = ExpandableConv2d(n_in, n_out, (1, 2), bias=bias, stride=(2, 1),
                               padding=(0, 1), dilation=(1, 2),
                               groups=n_in if kind == 'dw' else 1)
    symbolize(old, S, 'w.', skip=('mask', ))
    snap = snapshot(old)
    a = SimpleMutableChannel(n_in)
    b = a if one else SimpleMutableChannel(n_out)
    old.register_mutable_attr('in_channels', a)
    old.register_mutable_attr('out_channels', b)
    a.mask, b.mask = mi, mo
    new = old.expand(zero=zero)
    for k, v in snap.items():
        S.eq(old.get_parameter(k) if k in dict(old.named_parameters()) else
             old.get_buffer(k), v, 'the old layer stays')
        if k == 'num_batches_tracked':
            continue
        got = getattr(new, k)
        wide = [wide_in if one else wide_out] + (
            [wide_in] if k == 'weight' and not one else [])
        S.check(tuple(got.shape[:len(wide)]) == tuple(wide), 'width')
        part = got[op_]
        if k == 'weight' and not one:
            part = part[:, ip]
        S.eq(part, v, f'{k} in place')
        if zero and not k.startswith('running'):
            want = torch.zeros(got.shape)
            for r, p in enumerate(op_):
                if k == 'weight' and not one:
                    for c, q in enumerate(ip):
                        want[p, q] = v[r, c]
                else:
                    want[p] = v[r]
            S.eq(got, want, f'{k} is zero elsewhere')
    if kind in ('conv', 'dw'):
        for k in ('kernel_size', 'stride', 'padding', 'dilation'):
            S.check(getattr(new, k) == getattr(old, k), k)


def tasks(tier):
    deep = tier != 'quick'
    T = []
    for kind in UNITS:
        T.append(Task(f'widen-{kind}', widen, dict(
            kind=kind, most=4 if deep else 2, times=1)))
        T.append(Task(f'twice-{kind}', widen, dict(
            kind=kind, most=2 if deep else 1, times=2)))
        T.append(Task(f'before-{kind}', as_before, dict(kind=kind)))
        T.append(Task(f'static-{kind}', static, dict(
            kind=kind, most=6 if deep else 4)))
    for kind in ('conv', 'dw', 'linear', 'bn'):
        for n, w in ((2, 3), (1, 3)) + (((3, 5), ) if deep else ()):
            if kind == 'dw' and n == 1:
                continue  # one group is an ordinary convolution
            T.append(Task(f'layer-{kind}-{n}', layer, dict(
                kind=kind, n_in=n, n_out=n, wide_in=w, wide_out=w)))
    return T
