"""C25: resource estimates equal the true operation and parameter counts."""
import copy

import torch
from torch import nn

import mmrazor.models  # noqa: F401
from mmrazor.models.architectures import dynamic_ops as dyn
from mmrazor.models.architectures.dynamic_ops.bricks import dynamic_conv
from mmrazor.models.mutables import (MutableChannelContainer,
                                     OneShotMutableValue,
                                     SquentialMutableChannel)
from mmrazor.models.task_modules.estimators import ResourceEstimator
from mmrazor.models.task_modules.estimators.counters import (
    flops_params_counter as fpc)
from mmrazor.registry import TASK_UTILS
from mmrazor.structures.subnet.fix_subnet import _dynamic_to_static

from .common import Task, kept, mask, picks, same_state, snapshot

INFO = dict(
    bounds='counter of every layer kind: all channel numbers, kernel sizes, '
    'spatial sizes and batch sizes (unbounded symbolic integers; groups up '
    'to 4); dynamic layers with arbitrary masks over 4 channels; '
    'accumulation over a tree of 5 layers with arbitrary counts per layer, '
    'shared and repeated layers, every selection of listed and disabled '
    'parts; two estimates in a row with every combination of options',
    outside='measured latency; frozen parameters (layers other than '
    'convolutions leave them out by definition); attention layers and '
    'layers without a counter; values beyond double precision')


class Arr:
    """an array of symbolic shape"""

    def __init__(self, *shape, requires_grad=True):
        self.shape = tuple(shape)
        self.requires_grad = requires_grad

    def size(self, i=None):
        return self.shape if i is None else self.shape[i]

    def numel(self):
        n = 1
        for s in self.shape:
            n = n * s
        return n

    def dim(self):
        return len(self.shape)

    ndim = property(dim)

    def __len__(self):
        return self.shape[0]


def prod(xs):
    n = 1
    for x in xs:
        n = n * x
    return n


def size(S, name, hi=None):
    return S.int(name, 1, hi)


def put(module, name, arr):
    """let a parameter have a symbolic shape"""
    module._parameters[name] = arr


def count(S, module, x, out):
    counter = TASK_UTILS.build(dict(type=fpc.get_counter_type(module),
                                    _scope_='mmrazor'))
    module.__flops__ = f0 = S.int('flops_before', 0)
    module.__params__ = 0
    counter.add_count_hook(module, (x, ), out)
    return module.__flops__ - f0, module.__params__


# ------------------------------------------------------------ static layers
CONVS = dict(Conv1d=(nn.Conv1d, 1), Conv2d=(nn.Conv2d, 2),
             Conv3d=(nn.Conv3d, 3))


def conv(S, cls, groups, bias, sub=False):
    """flops = out positions * k * cin/g * cout (+ bias), per sample"""
    base, nd = CONVS[cls]
    if sub:
        base = type('My' + cls, (base, ), {})
    m = base(1, 1, 1)
    g = groups
    ci, co = g * size(S, 'ci'), g * size(S, 'co')
    k = tuple(size(S, f'k{i}') for i in range(nd))
    m.in_channels, m.out_channels, m.groups, m.kernel_size = ci, co, g, k
    put(m, 'weight', Arr(co, ci // g, *k))
    put(m, 'bias', Arr(co) if bias else None)
    b = size(S, 'b')
    out = [size(S, f'o{i}') for i in range(nd)]
    x = Arr(b, ci, *[size(S, f'i{i}') for i in range(nd)])
    flops, params = count(S, m, x, Arr(b, co, *out))
    per = prod(k) * (ci // g) * co
    S.eq(params, per + (co if bias else 0), 'params of a convolution')
    S.eq(flops, b * prod(out) * (per + (co if bias else 0)),
         'operations of a convolution')


def deconv(S, groups, bias):
    m = nn.ConvTranspose2d(1, 1, 1)
    g = groups
    ci, co = g * size(S, 'ci'), g * size(S, 'co')
    k = (size(S, 'k0'), size(S, 'k1'))
    m.in_channels, m.out_channels, m.groups, m.kernel_size = ci, co, g, k
    put(m, 'weight', Arr(ci, co // g, *k))
    put(m, 'bias', Arr(co) if bias else None)
    b, h, w = size(S, 'b'), size(S, 'h'), size(S, 'w')
    oh, ow = size(S, 'oh'), size(S, 'ow')
    flops, params = count(S, m, Arr(b, ci, h, w), Arr(b, co, oh, ow))
    per = prod(k) * ci * (co // g)
    S.eq(params, per + (co if bias else 0), 'params of a deconvolution')
    S.eq(flops, b * h * w * per + (b * oh * ow * co if bias else 0),
         'operations of a deconvolution')


def linear(S, bias, dims):
    m = nn.Linear(1, 1)
    ci, co = size(S, 'ci'), size(S, 'co')
    m.in_features, m.out_features = ci, co
    put(m, 'weight', Arr(co, ci))
    put(m, 'bias', Arr(co) if bias else None)
    lead = [size(S, f'd{i}') for i in range(dims - 1)]
    flops, params = count(S, m, Arr(*lead, ci), Arr(*lead, co))
    S.eq(flops, prod(lead) * ci * co, 'operations of a linear layer')
    S.eq(params, ci * co + (co if bias else 0), 'params of a linear layer')


NORMS = dict(
    BatchNorm1d=(lambda a: nn.BatchNorm1d(1, affine=a), 3),
    BatchNorm2d=(lambda a: nn.BatchNorm2d(1, affine=a), 4),
    BatchNorm3d=(lambda a: nn.BatchNorm3d(1, affine=a), 5),
    InstanceNorm1d=(lambda a: nn.InstanceNorm1d(1, affine=a), 3),
    InstanceNorm2d=(lambda a: nn.InstanceNorm2d(1, affine=a), 4),
    InstanceNorm3d=(lambda a: nn.InstanceNorm3d(1, affine=a), 5),
    GroupNorm=(lambda a: nn.GroupNorm(1, 1, affine=a), 4),
    LayerNorm=(lambda a: nn.LayerNorm(1, elementwise_affine=a), 3))


def norm(S, cls, affine):
    make, nd = NORMS[cls]
    m = make(affine)
    shape = [size(S, f'd{i}') for i in range(nd)]
    c = shape[-1] if cls == 'LayerNorm' else shape[1]
    if affine:
        put(m, 'weight', Arr(c))
        put(m, 'bias', Arr(c))
    flops, params = count(S, m, Arr(*shape), Arr(*shape))
    S.eq(flops, prod(shape) * (2 if affine else 1),
         'operations of a normalisation')
    S.eq(params, 2 * c if affine else 0, 'params of a normalisation')


POOLS = dict(
    MaxPool1d=1, MaxPool2d=2, MaxPool3d=3, AvgPool1d=1, AvgPool2d=2,
    AvgPool3d=3, AdaptiveMaxPool1d=1, AdaptiveMaxPool2d=2,
    AdaptiveMaxPool3d=3, AdaptiveAvgPool1d=1, AdaptiveAvgPool2d=2,
    AdaptiveAvgPool3d=3)


def pool(S, cls):
    m = getattr(nn, cls)(1)
    x = [size(S, f'd{i}') for i in range(POOLS[cls] + 2)]
    o = x[:2] + [size(S, f'o{i}') for i in range(POOLS[cls])]
    flops, params = count(S, m, Arr(*x), Arr(*o))
    S.eq(flops, prod(x), 'operations of a pooling: its inputs')
    S.eq(params, 0, 'params of a pooling')


def act(S, cls, up=False):
    m = (nn.Upsample(scale_factor=2) if up else getattr(nn, cls)())
    x = [size(S, f'd{i}') for i in range(4)]
    o = x[:2] + [size(S, 'o0'), size(S, 'o1')] if up else x
    n = size(S, 'n')
    if cls == 'PReLU':
        put(m, 'weight', Arr(n))
    flops, params = count(S, m, Arr(*x), Arr(*o))
    S.eq(flops, prod(o), 'operations: the outputs')
    S.eq(params, n if cls == 'PReLU' else 0, 'params')


# ----------------------------------------------------------- dynamic layers
def container(S, n, bits):
    c = MutableChannelContainer(n)
    u = SquentialMutableChannel(n)
    c.register_mutable(u, 0, n)
    u.current_choice = n
    u.mask.copy_(mask(bits).to(u.mask.dtype))
    return c


def dyn_conv(S, cls, groups, bias, reg=('in', 'out'), n=4, kernel=False):
    """a dynamic convolution counts as the static one it is exported to"""
    m = getattr(dynamic_conv, cls)(n, n, 3, groups=groups, bias=bias,
                                   padding=1)
    ib = picks(S, 'in', n) if 'in' in reg else [True] * n
    if groups == n:
        ob = ib
    else:
        ob = picks(S, 'out', n) if 'out' in reg else [True] * n
    if groups not in (1, n):
        for b in (ib, ob):
            per = [sum(b[i:i + n // groups])
                   for i in range(0, n, n // groups)]
            if min(per) < 1 or len(set(per)) > 1:
                S.assume(False)
    if 'in' in reg:
        m.register_mutable_attr('in_channels', container(S, n, ib))
    if 'out' in reg:
        m.register_mutable_attr('out_channels', container(S, n, ob))
    k = 3
    if kernel:
        v = OneShotMutableValue([1, 3], default_value=3)
        m.register_mutable_attr('kernel_size', v)
        k = S.pick('kernel', [1, 3])
        v.current_choice = k
    b, h, w = size(S, 'b'), size(S, 'h'), size(S, 'w')
    flops, params = count(S, m, Arr(b, sum(ib), h, w),
                          Arr(b, sum(ob), h, w))
    g = sum(ib) if groups == n else groups
    per = k * k * (sum(ib) // g) * sum(ob) + (sum(ob) if bias else 0)
    S.eq(params, per, 'params of a dynamic convolution')
    S.eq(flops, b * h * w * per, 'operations of a dynamic convolution')
    m.bias is not None and S.eq(m.get_dynamic_params()[1].numel(), sum(ob),
                                'bias')
    S.eq(m.get_dynamic_params()[0].numel() +
         (sum(ob) if bias else 0), params, 'params are those of the forward')


def dyn_linear(S, bias, reg=('in', 'out'), n=4):
    m = dyn.DynamicLinear(n, n, bias=bias)
    ib = picks(S, 'in', n) if 'in' in reg else [True] * n
    ob = picks(S, 'out', n) if 'out' in reg else [True] * n
    if 'in' in reg:
        m.register_mutable_attr('in_features', container(S, n, ib))
    if 'out' in reg:
        m.register_mutable_attr('out_features', container(S, n, ob))
    b = size(S, 'b')
    flops, params = count(S, m, Arr(b, sum(ib)), Arr(b, sum(ob)))
    S.eq(flops, b * sum(ib) * sum(ob), 'operations of a dynamic linear')
    S.eq(params, sum(ib) * sum(ob) + (sum(ob) if bias else 0),
         'params of a dynamic linear')


DNORMS = dict(
    DynamicBatchNorm1d=3, DynamicBatchNorm2d=4, DynamicBatchNorm3d=5,
    DMCPBatchNorm2d=4, DynamicLayerNorm=3)


def dyn_norm(S, cls, affine, reg=True, n=4):
    kw = dict(elementwise_affine=affine) if cls == 'DynamicLayerNorm' else \
        dict(affine=affine)
    m = getattr(dyn, cls)(n, **kw)
    bits = picks(S, 'num', n) if reg else [True] * n
    if reg:
        m.register_mutable_attr('num_features', container(S, n, bits))
    c = sum(bits)
    rest = [size(S, f'd{i}') for i in range(DNORMS[cls] - 1)]
    shape = rest + [c] if cls == 'DynamicLayerNorm' else \
        [rest[0], c] + rest[1:]
    flops, params = count(S, m, Arr(*shape), Arr(*shape))
    S.eq(flops, prod(shape) * (2 if affine else 1),
         'operations of a dynamic normalisation')
    S.eq(params, 2 * c if affine else 0, 'params of a dynamic normalisation')


def soft(S, n=4):
    """a soft number of channels enters the counts as it is"""
    m = dyn.DynamicConv2d(n, n, 1)
    c = container(S, n, [True] * n)
    u = list(c.mutable_channels.values())[0]
    s = S.real('soft', 0, n)
    u.activated_tensor_channels = s
    m.register_mutable_attr('out_channels', c)
    b, h, w = size(S, 'b'), size(S, 'h'), size(S, 'w')
    flops, params = count(S, m, Arr(b, n, h, w), Arr(b, n, h, w))
    S.eq(flops, b * h * w * (n * s + s), 'operations with soft channels')


# ------------------------------------------------------------- accumulation
class LeafA(nn.Module):

    def __init__(self, f=0, p=0):
        super().__init__()
        self.cost = (f, p)

    def forward(self, x):
        return x


class LeafB(LeafA):
    pass


class Other(nn.Module):
    """has no counter"""

    def __init__(self, *layers, repeat=1):
        super().__init__()
        for i, m in enumerate(layers):
            setattr(self, f'm{i}', m)
        self.layers = [f'm{i}' for i in range(len(layers))]
        self.repeat = repeat

    def forward(self, x):
        for _ in range(self.repeat):
            for n in self.layers:
                x = getattr(self, n)(x)
        return x


class LeafCounter:

    @staticmethod
    def add_count_hook(module, input, output):
        f, p = module.cost
        module.__flops__ += f * prod(input[0].shape)
        module.__params__ += p


class registered:
    """counters of the stand-in layers"""

    def __enter__(self):
        for n in ('LeafACounter', 'LeafBCounter'):
            TASK_UTILS._module_dict[n] = type(n, (LeafCounter, ), {})

    def __exit__(self, *a):
        for n in ('LeafACounter', 'LeafBCounter'):
            TASK_UTILS._module_dict.pop(n, None)


def tree(S, shared=False, repeat=1, lo=0):
    leaves = []
    for i, c in enumerate([LeafA, LeafB, LeafA]):
        leaves.append(c(S.int(f'f{i}', lo), S.int(f'p{i}', lo)))
    stage = Other(leaves[0], leaves[1], repeat=repeat)
    head = Other(leaves[2], *([leaves[0]] if shared else []))
    return Other(stage, head), leaves


def truth(tree_, leaves, shared, repeat, shape, off=()):
    """per name the operations per sample and the params"""
    per = prod(shape) // shape[0]

    def val(i, times):
        if type(leaves[i]).__name__ + 'Counter' in off:
            return 0
        return leaves[i].cost[0] * times * per

    def par(i):
        if type(leaves[i]).__name__ + 'Counter' in off:
            return 0
        return leaves[i].cost[1]

    times = [repeat + (1 if shared else 0), repeat, 1]
    # a shared layer has all its operations wherever it is listed
    f = {'m0.m0': val(0, times[0]), 'm0.m1': val(1, times[1]),
         'm1.m0': val(2, times[2])}
    p = {'m0.m0': par(0), 'm0.m1': par(1), 'm1.m0': par(2)}
    f['m0'], p['m0'] = f['m0.m0'] + f['m0.m1'], p['m0.m0'] + p['m0.m1']
    f['m1'], p['m1'] = f['m1.m0'], p['m1.m0']
    total = f['m0'] + f['m1'], p['m0'] + p['m1']
    if shared:
        f['m1'], p['m1'] = f['m1'] + f['m0.m0'], p['m1'] + p['m0.m0']
    return f, p, total


OFFS = [(), ('LeafACounter', ), ('LeafBCounter', ),
        ('LeafACounter', 'LeafBCounter')]
PARTS = [(), ('m0', ), ('m1', ), ('m0.m1', ), ('m0', 'm1'),
         ('m0.m0', 'm1.m0'), ('m0', 'm0.m1')]
SCALE = dict(G=10**9, M=10**6, K=10**3)


def convert(v, unit):
    return v if unit is None else round(v / float(SCALE[unit]), 3)


def clean(S, model):
    for n, m in model.named_modules():
        S.check(not m._forward_hooks and not m._forward_pre_hooks,
                f'no hooks left on {n}')
        for a in ('__flops__', '__params__', '__flops_params_handle__',
                  '__batch_counter_handle__'):
            S.check(not hasattr(m, a), f'{a} left on {n}')


def accumulate(S, shared, repeat, unit=None):
    with registered():
        model, leaves = tree(S, shared, repeat)
        off = S.pick('off', OFFS)
        spec = S.pick('spec', PARTS)
        sep = bool(spec) and S.flag('separate')
        shape = (S.pick('batch', [1, 2, 3]), S.pick('width', [1, 2]))
        units = None if unit is None else dict(flops=unit, params='K')
        spec_, off_ = list(spec), list(off)
        got = fpc.get_model_flops_params(
            model, shape, spec_modules=spec_, disabled_counters=off_,
            units=units, seperate_return=sep)
        f, p, total = truth(model, leaves, shared, repeat, shape, off)
        pu = None if unit is None else 'K'
        S.check(spec_ == list(spec) and off_ == list(off), 'options changed')
        if sep:
            S.check(set(got) == set(spec), 'exactly the listed parts')
            for n in spec:
                S.eq(got[n]['flops'], convert(f[n], unit),
                     f'operations of {n}')
                S.eq(got[n]['params'], convert(p[n], pu), f'params of {n}')
        elif spec:
            S.eq(got[0], sum(convert(f[n], unit) for n in spec),
                 'operations of the listed parts')
            S.eq(got[1], sum(convert(p[n], pu) for n in spec),
                 'params of the listed parts')
        else:
            S.eq(got[0], convert(total[0], unit), 'operations per sample')
            S.eq(got[1], convert(total[1], pu), 'params')
        clean(S, model)


def unknown_part(S):
    with registered():
        model, leaves = tree(S)
        S.raises(AssertionError, fpc.get_model_flops_params, model, (1, 1),
                 spec_modules=[S.pick('name', ['m2', 'm0.m2', 'x'])],
                 msg='unknown parts are refused')
        S.raises(AssertionError, fpc.get_model_flops_params, model, (1, 1),
                 seperate_return=True,
                 msg='separate results need listed parts')


def units(S):
    v = S.int('v', 0)
    for u, s in SCALE.items():
        r = fpc.params_units_convert(v, u)
        S.check(abs(r * s - v) * 2000 <= s, f'{u}: within half a thousandth')
        S.check((r * 1000).is_integer() if hasattr(r, 'is_integer') else True,
                'three digits')
    S.raises(ValueError, fpc.params_units_convert, v, 'X',
             msg='unknown units are refused')


# ---------------------------------------------------------------- estimator
def option(S, tag):
    """options of a call: a subset of keys, possibly none at all"""
    kind = S.pick(tag, ['none', 'empty', 'units', 'shape', 'spec', 'off',
                        'all'])
    full = dict(units=None, input_shape=(1, 1, 2), spec_modules=['m0'],
                disabled_counters=['LeafBCounter'])
    keys = dict(none=None, empty=[], units=['units'], shape=['input_shape'],
                spec=['spec_modules'], off=['disabled_counters'],
                all=list(full))[kind]
    return None if keys is None else {k: copy.deepcopy(full[k])
                                      for k in keys}


def history(S, strings=False, separate=False):
    """two estimates with any options after each other"""
    with registered():
        if strings:
            model, leaves = tree(_Fixed())
        else:
            model, leaves = tree(S)
        for m in model.modules():
            m.training = False
        for i, m in enumerate([model, leaves[0], leaves[2]]):
            m.training = S.flag(f'training{i}')
        modes = [m.training for m in model.modules()]
        base = S.pick('own', [{}, dict(disabled_counters=['LeafACounter']),
                              dict(spec_modules=['m0.m1', 'm1'], units=None)])
        base_ = copy.deepcopy(base)
        unit0 = dict(flops='K', params='K')
        est = ResourceEstimator(input_shape=(2, 1, 3), units=dict(unit0),
                                as_strings=strings, flops_params_cfg=base_)
        for step in range(2):
            opt = option(S, f'call{step}')
            want = dict(units=unit0, input_shape=(2, 1, 3), spec_modules=[],
                        disabled_counters=[])
            want.update(base)
            want.update(opt or {})
            keep = copy.deepcopy(opt)
            f, p, total = truth(model, leaves, False, 1,
                                want['input_shape'],
                                want['disabled_counters'])
            u = want['units'] or dict(flops=None, params=None)
            spec = want['spec_modules']

            def same(got, parts, what, msg):
                v = sum(convert(x, u[what]) for x in parts)
                if strings:
                    num, _, tail = got.partition(' ')
                    S.check(tail.strip() == (u[what] or '') +
                            dict(flops='FLOPs', params='')[what],
                            f'{msg}: unit')
                    got = float(num)
                S.eq(got, v, msg)

            use_sep = separate and step == 0
            if use_sep:
                if not spec:
                    S.raises(AssertionError,
                             est.estimate_separation_modules, model, opt,
                             msg='separate estimates need listed parts')
                else:
                    got = est.estimate_separation_modules(model, opt)
                    S.check(set(got) == set(spec), 'the listed parts')
                    for n in spec:
                        same(got[n]['flops'], [f[n]], 'flops',
                             f'operations of {n}')
                        same(got[n]['params'], [p[n]], 'params',
                             f'params of {n}')
            else:
                got = est.estimate(model, opt)
                same(got['flops'], [f[n] for n in spec] or [total[0]],
                     'flops', f'operations {step}')
                same(got['params'], [p[n] for n in spec] or [total[1]],
                     'params', f'params {step}')
                S.eq(got['latency'], '0.0 ms' if strings else 0.0,
                     'no latency asked for')
            S.check(opt == keep, 'the options of the caller stay')
            S.check([m.training for m in model.modules()] == modes,
                    'modes of the layers stay')
            clean(S, model)
        S.check(base_ == base, 'the options given first stay')


class _Fixed:
    """concrete counts"""

    def int(self, name, lo=0):
        return dict(f=7000, p=2500)[name[0]] * (int(name[1:]) + 1)


def latency(S):
    """a latency estimate takes place with the merged options"""
    from mmrazor.models.task_modules.estimators import resource_estimator
    with registered():
        model, leaves = tree(S)
        seen = []

        def stand_in(model, input_shape=(1, 3, 224, 224), unit='ms',
                     as_strings=False, max_iter=100, num_warmup=5,
                     log_interval=100, repeat_num=1):
            seen.append((input_shape, unit, as_strings, max_iter,
                         num_warmup))
            return 4.0

        S.patch(resource_estimator, 'get_model_latency', stand_in)
        own = S.pick('own', [None, dict(max_iter=9)])
        call = S.pick('call', [dict(num_warmup=2), dict(max_iter=3),
                               dict(input_shape=(1, 1, 1), max_iter=3)])
        shape = (2, 1, 3)
        est = ResourceEstimator(shape, latency_cfg=copy.deepcopy(own or {}))
        keep = copy.deepcopy(call)
        got = est.estimate(model, None, call)
        merged = {**(own or {}), **keep}
        S.eq(got['latency'], 4.0, 'latency')
        S.check(seen == [(merged.get('input_shape', shape), 'ms', False,
                          merged.get('max_iter', 100),
                          merged.get('num_warmup', 5))],
                'latency is measured with the options given')
        S.check(call == keep, 'the options of the caller stay')
        again = est.estimate(model)
        S.eq(again['latency'], 0.0, 'not asked again')
        S.raises(KeyError, est.estimate, model, None, dict(nonsense=1),
                 msg='unknown latency options are refused')
        S.raises(KeyError, est.estimate, model, dict(nonsense=1),
                 msg='unknown options are refused')


# ----------------------------------------------------- supernet and subnet
class Net(nn.Module):

    def __init__(self, n, groups, k):
        super().__init__()
        self.stem = dyn.DynamicConv2d(2, n, 1, bias=True)
        self.bn = dyn.DynamicBatchNorm2d(n)
        self.dw = dyn.BigNasConv2d(n, n, 3, groups=groups, padding=1) \
            if k else dyn.DynamicConv2d(n, n, 3, groups=groups, padding=1)
        self.act = nn.ReLU()
        self.last = dyn.FuseConv2d(n, 3, 1, bias=False) if groups == 1 \
            else dyn.DynamicConv2d(n, 3, 1, bias=False)
        self.pool = nn.AdaptiveAvgPool2d(1)
        self.head = dyn.DynamicLinear(3, 2)

    def forward(self, x):
        x = self.act(self.dw(self.bn(self.stem(x))))
        return self.head(self.pool(self.last(x)).flatten(1))


def definition(net, shape):
    """counts of a static network by the definitions of its layers"""
    f, p, hooks = [0], [0], []

    def hook(m, x, y):
        if isinstance(m, nn.Conv2d):
            p[0] += m.weight.numel()
            f[0] += m.weight.numel() * y[0, 0].numel()
            if m.bias is not None:
                p[0] += m.bias.numel()
                f[0] += y[0].numel()
        elif isinstance(m, nn.Linear):
            p[0] += m.weight.numel() + m.bias.numel()
            f[0] += m.weight.numel()
        elif isinstance(m, nn.BatchNorm2d):
            p[0] += 2 * m.num_features
            f[0] += 2 * x[0][0].numel()
        elif isinstance(m, nn.ReLU):
            f[0] += y[0].numel()
        elif isinstance(m, nn.AdaptiveAvgPool2d):
            f[0] += x[0][0].numel()
    for m in net.modules():
        hooks.append(m.register_forward_hook(hook))
    net.eval()
    net(torch.zeros(shape))
    for h in hooks:
        h.remove()
    return f[0], p[0]


def supernet(S, groups, n=4, kernel=False):
    net = Net(n, groups, kernel)
    bits = picks(S, 'mid', n)
    if groups == 2:
        if sum(bits[:2]) != sum(bits[2:]):
            S.assume(False)
    last = picks(S, 'last', 3)
    c, d = container(S, n, bits), container(S, 3, last)
    net.stem.register_mutable_attr('out_channels', c)
    net.bn.register_mutable_attr('num_features', c)
    net.dw.register_mutable_attr('in_channels', c)
    net.dw.register_mutable_attr('out_channels', c)
    net.last.register_mutable_attr('in_channels', c)
    net.last.register_mutable_attr('out_channels', d)
    net.head.register_mutable_attr('in_features', d)
    if kernel:
        v = OneShotMutableValue([1, 3], default_value=3)
        net.dw.register_mutable_attr('kernel_size', v)
        v.current_choice = S.pick('kernel', [1, 3])
    shape = (S.pick('batch', [1, 2]), 2, 3, S.pick('width', [2, 5]))
    est = ResourceEstimator(shape, flops_params_cfg=dict(units=None))
    before = snapshot(net)
    got = est.estimate(net)
    same_state(S, net, before, 'estimating changes no state')
    for m in net.modules():
        if hasattr(m, 'is_fixed') and hasattr(m, 'current_choice') and \
                not isinstance(m, MutableChannelContainer):
            m.is_fixed or m.fix_chosen(m.dump_chosen().chosen)
    static = copy.deepcopy(net)
    _dynamic_to_static(static)
    S.check(not any('mutable_attrs' in dict(m.named_children())
                    for m in static.modules()), 'a static network')
    exported = est.estimate(static)
    f, p = definition(static, shape)
    S.eq(exported['flops'], f, 'operations of the exported network')
    S.eq(exported['params'], p, 'params of the exported network')
    S.eq(got['flops'], f, 'operations of the network at this choice')
    S.eq(got['params'], p, 'params of the network at this choice')


def switch(S):
    """switchable batch norm counts the switch in use"""
    m = dyn.SwitchableBatchNorm2d(4)
    m.init_candidates([1, 2])
    k = S.pick('channels', [1, 2, 4])
    m.register_mutable_attr('num_features',
                            container(S, 4, [i < k for i in range(4)]))
    got = ResourceEstimator(
        (2, k, 3, 2), flops_params_cfg=dict(units=None)).estimate(
        nn.Sequential(m))
    S.eq(got['params'], 2 * k, 'params of the switch')
    S.eq(got['flops'], 2 * k * 6, 'operations of the switch')


STATIC = dict(random=False)
CONC = dict(torch=False, random=False, builtins=False)


def tasks(tier):
    T = []
    deep = tier != 'quick'
    for cls in CONVS:
        for g in ((1, 2, 3, 4) if deep or cls == 'Conv2d' else (1, 2)):
            for bias in (True, False):
                T.append(Task(f'{cls}-g{g}-bias{bias}', conv,
                              dict(cls=cls, groups=g, bias=bias), STATIC))
    T.append(Task('Conv2d-subclass', conv,
                  dict(cls='Conv2d', groups=1, bias=True, sub=True), STATIC))
    for g in (1, 2, 3):
        for bias in (True, False):
            T.append(Task(f'deconv-g{g}-bias{bias}', deconv,
                          dict(groups=g, bias=bias), STATIC))
    for bias in (True, False):
        for d in (2, 3):
            T.append(Task(f'linear-bias{bias}-{d}d', linear,
                          dict(bias=bias, dims=d), STATIC))
    for cls in NORMS:
        for a in (True, False):
            T.append(Task(f'{cls}-affine{a}', norm, dict(cls=cls, affine=a),
                          STATIC))
    for cls in POOLS:
        T.append(Task(cls, pool, dict(cls=cls), STATIC))
    for cls in ('ReLU', 'PReLU', 'ELU', 'LeakyReLU', 'ReLU6'):
        T.append(Task(cls, act, dict(cls=cls), STATIC))
    T.append(Task('Upsample', act, dict(cls='', up=True), STATIC))
    n = 4 if deep else 3
    dyn_opts = dict(random=False, torch=False)
    for cls in ('DynamicConv2d', 'BigNasConv2d', 'OFAConv2d', 'FuseConv2d',
                'DynamicConv2dAdaptivePadding'):
        for g in ((1, 2, 4) if cls == 'DynamicConv2d' or deep else (1, 4)):
            if cls == 'FuseConv2d' and g != 1:
                continue
            T.append(Task(f'{cls}-g{g}', dyn_conv,
                          dict(cls=cls, groups=g if g == 2 or g == 1
                               else n, bias=True,
                               n=4 if g == 2 else n), dyn_opts))
    T.append(Task('DynamicConv2d-nobias', dyn_conv, dict(
        cls='DynamicConv2d', groups=1, bias=False, n=n), dyn_opts))
    for r in ('in', 'out', ''):
        T.append(Task(f'DynamicConv2d-only-{r}', dyn_conv, dict(
            cls='DynamicConv2d', groups=1, bias=True, reg=(r, ), n=n),
            dyn_opts))
        T.append(Task(f'DynamicLinear-only-{r}', dyn_linear,
                      dict(bias=True, reg=(r, ), n=n), dyn_opts))
    for cls in ('BigNasConv2d', 'OFAConv2d'):
        for g in (1, n):
            T.append(Task(f'{cls}-kernel-g{g}', dyn_conv, dict(
                cls=cls, groups=g, bias=True, kernel=True, n=n), dyn_opts))
    for bias in (True, False):
        T.append(Task(f'DynamicLinear-bias{bias}', dyn_linear,
                      dict(bias=bias, n=n), dyn_opts))
    for cls in DNORMS:
        for a in (True, False):
            if cls == 'DynamicLayerNorm' and not a:
                continue  # refused
            T.append(Task(f'{cls}-affine{a}', dyn_norm,
                          dict(cls=cls, affine=a, n=n), dyn_opts))
        T.append(Task(f'{cls}-plain', dyn_norm,
                      dict(cls=cls, affine=True, reg=False), dyn_opts))
    T.append(Task('soft-channels', soft, {}, dyn_opts))
    T.append(Task('units', units, {}, STATIC))
    acc = dict(random=False, torch=False)
    for shared in (True, False):
        for repeat in ((1, 2) if not deep else (1, 2, 3)):
            for u in (None, 'K') if not deep else (None, 'K', 'M', 'G'):
                T.append(Task(
                    f'accumulate-{u}-shared{shared}-x{repeat}', accumulate,
                    dict(shared=shared, repeat=repeat, unit=u), acc))
    T.append(Task('unknown-part', unknown_part, {}, acc))
    T.append(Task('history', history, {}, acc))
    T.append(Task('history-separate', history, dict(separate=True), acc))
    T.append(Task('history-strings', history, dict(strings=True), CONC))
    T.append(Task('history-strings-separate', history,
                  dict(strings=True, separate=True), CONC))
    T.append(Task('latency', latency, {}, acc))
    for g in (1, 2, 4):
        T.append(Task(f'supernet-g{g}', supernet, dict(groups=g), CONC))
    T.append(Task('supernet-kernel', supernet, dict(groups=4, kernel=True),
                  CONC))
    T.append(Task('switch', switch, {}, CONC))
    return T
