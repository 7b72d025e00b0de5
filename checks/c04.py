"""C04: an ordinary layer and the searchable layer built from it agree."""
import torch
from mmcls.models.utils import PatchEmbed
from mmcv.cnn.bricks import Conv2dAdaptivePadding
from mmengine.model import Sequential
from mmengine.model.utils import _BatchNormXd
from torch import nn

from mmrazor.implementations.pruning.sparse_gpt.ops import (SparseGptConv2d,
                                                            SparseGptLinear)
from mmrazor.implementations.quantization.gptq.ops import (GPTQConv2d,
                                                           GPTQLinear)
from mmrazor.models.architectures import dynamic_ops as D
from mmrazor.models.architectures.dynamic_ops.bricks.dynamic_norm import (
    DynamicBatchNormXd, DynamicSyncBatchNorm)
from mmrazor.models.architectures.ops import (InputResizer,
                                              MultiheadAttention,
                                              RelativePosition2D)
from mmrazor.models.architectures.ops import function as resize_module
from mmrazor.models.mutables import (MutableChannelContainer,
                                     OneShotMutableValue,
                                     SimpleMutableChannel,
                                     SquentialMutableChannel)

from .c03 import Probe, Recorder
from .common import Task, mask, same_state, snapshot, symbolize

INFO = dict(
    bounds='convolutions (plain, kernel-searchable, fused, adaptively padded, '
    'and the one-shot pruning / quantisation variants) of 2-4 channels over '
    'every combination of kernel 1-3 (square or not), stride, padding (number, '
    'pair, "same", "valid"), padding mode, dilation, groups and bias listed in '
    'the harness; linear, batch/layer/sync norm over eps, momentum, affine, '
    'bias and tracking settings; patch embedding, relative positions, '
    'attention, resizer and sequence over their settings; before and after '
    'registering masks that select everything; inputs, parameters and '
    'statistics are arbitrary reals',
    outside='larger layers, dtypes and devices, the triton layer, the forward '
    'of the synchronised norm (GPU only; its settings are compared)')


def _load(S, src, dyn):
    """load the state of the ordinary layer into the searchable one"""
    r = dyn.load_state_dict(src.state_dict(), strict=False)
    S.check(not r.unexpected_keys, 'every entry of the state has a place')
    S.check(not [k for k in r.missing_keys if 'mutable' not in k],
            'no parameter is left without a value')


def _attrs(S, src, dyn, names):
    for n in names:
        S.check(getattr(src, n) == getattr(dyn, n), f'setting {n} is kept')


def _full(n, kind):
    if kind == 'seq':
        return SquentialMutableChannel(n)
    if kind == 'container':
        return MutableChannelContainer(n)
    m = SimpleMutableChannel(n)
    m.current_choice = mask([True] * n)
    return m


FULL = ('seq', 'simple', 'container')

CONVS = dict(Dynamic=D.DynamicConv2d, BigNas=D.BigNasConv2d, OFA=D.OFAConv2d,
             Fuse=D.FuseConv2d, Adaptive=D.DynamicConv2dAdaptivePadding,
             SparseGpt=SparseGptConv2d, GPTQ=GPTQConv2d)


def conv(S, cls, kernels, groups=(1, 2), size=(3, 2)):
    g = S.pick('groups', groups)
    k = S.pick('kernel', kernels)
    stride = S.pick('stride', [(1, 1), (2, 1)])
    dil = S.pick('dilation', [(1, 1), (1, 2)])
    bias = S.flag('bias')
    kw = dict(stride=stride, dilation=dil, groups=g, bias=bias)
    if cls == 'Adaptive':
        src = Conv2dAdaptivePadding(2, 4, k, **kw)
    else:
        pad = S.pick('padding', [(1, 2), (0, 1), 'same', 'valid']
                     if stride == (1, 1) else [(1, 2), (0, 1)])
        mode = S.pick('mode', ['zeros', 'circular', 'replicate']
                      if pad == (0, 1) else ['zeros'])
        src = nn.Conv2d(2, 4, k, padding=pad, padding_mode=mode, **kw)
    symbolize(src, S, prefix='src.')
    before = snapshot(src)
    try:
        op = CONVS[cls].convert_from(src)
    except AssertionError:
        S.check(src.padding_mode != 'zeros', 'a supported layer is converted')
        return
    S.check(type(op) is CONVS[cls], 'type')
    _attrs(S, src, op, ('in_channels', 'out_channels', 'kernel_size',
                        'stride', 'padding', 'dilation', 'groups',
                        'padding_mode'))
    S.check((op.bias is None) == (src.bias is None), 'bias kept')
    _load(S, src, op)
    x = S.tensor('x', (1, 2) + size)
    eff = [max(0, dil[i] * (k[i] - 1) + 1 - s) for i, s in enumerate(size)]
    if cls != 'Adaptive' and src.padding != 'same':
        p = (0, 0) if src.padding == 'valid' else src.padding
        if any(e > 2 * q for e, q in zip(eff, p)):
            S.assume(False)
    want = src(x)
    S.eq(op(x), want, 'no choice made')
    kind = S.pick('full', FULL)
    op.register_mutable_attr('in_channels', _full(2, kind))
    op.register_mutable_attr('out_channels', _full(4, kind))
    S.eq(op(x), want, 'all channels selected')
    same_state(S, src, before, 'the ordinary layer is left alone')


def kernel_full(S, cls):
    """the largest kernel selected"""
    k = S.pick('k', [3, 5])
    src = nn.Conv2d(2, 2, k, padding=k // 2, bias=S.flag('bias'),
                    stride=S.pick('stride', [1, 2]),
                    groups=S.pick('g', [1, 2]))
    symbolize(src, S, prefix='src.')
    op = CONVS[cls].convert_from(src)
    _load(S, src, op)
    m = OneShotMutableValue([1, 3, 5][:k // 2 + 1], default_value=k)
    op.register_mutable_attr('kernel_size', m)
    x = S.tensor('x', (1, 2, 2, 3))
    S.eq(op(x), src(x), 'largest kernel selected')


def linear(S, cls):
    i, o = S.pick('shape', [(3, 2), (2, 3), (2, 2)])
    src = nn.Linear(i, o, bias=S.flag('bias'))
    symbolize(src, S, prefix='src.')
    before = snapshot(src)
    op = dict(Dynamic=D.DynamicLinear, SparseGpt=SparseGptLinear,
              GPTQ=GPTQLinear)[cls].convert_from(src)
    _attrs(S, src, op, ('in_features', 'out_features'))
    S.check((op.bias is None) == (src.bias is None), 'bias kept')
    x = S.tensor('x', (2, i))
    if op is not src:
        _load(S, src, op)
        S.eq(op(x), src(x), 'no choice made')
        kind = S.pick('full', FULL)
        op.register_mutable_attr('in_features', _full(i, kind))
        op.register_mutable_attr('out_features', _full(o, kind))
    S.eq(op(x), src(x), 'all features selected')
    same_state(S, src, before, 'the ordinary layer is left alone')


NORMS = dict(
    bn1=(nn.BatchNorm1d, D.DynamicBatchNorm1d, (2, 3)),
    bn2=(nn.BatchNorm2d, D.DynamicBatchNorm2d, (1, 3, 2, 1)),
    bn3=(nn.BatchNorm3d, D.DynamicBatchNorm3d, (2, 3, 1, 1, 1)),
    bnx=(_BatchNormXd, DynamicBatchNormXd, (2, 3)),
    dmcp=(nn.BatchNorm2d, D.DMCPBatchNorm2d, (2, 3, 1, 1)),
    switch=(nn.BatchNorm2d, D.SwitchableBatchNorm2d, (2, 3, 1, 1)))
KEEP = ('num_features', 'eps', 'momentum', 'affine', 'track_running_stats')


def norm(S, kind):
    st, dy, shape = NORMS[kind]
    src = st(3, eps=S.pick('eps', [1e-5, 0.5]),
             momentum=S.pick('momentum', [0.1, 1.0, None]),
             affine=S.flag('affine'), track_running_stats=S.flag('track'))
    symbolize(src, S, prefix='src.')
    op = dy.convert_from(src)
    S.check(type(op) is dy, 'type')
    _attrs(S, src, op, KEEP)
    _load(S, src, op)
    # a layer without any per channel value can not be searched (documented)
    if (src.affine or src.track_running_stats) and S.flag('register'):
        op.register_mutable_attr('num_features',
                                 _full(3, S.pick('full', FULL)))
    for t in range(2):
        train = S.flag(f'train{t}')
        src.train(train)
        op.train(train)
        x = S.tensor(f'x{t}', shape)
        S.eq(op(x), src(x), 'converted normalisation')
        if src.track_running_stats:
            S.eq(op.running_mean, src.running_mean, 'running mean')
            S.eq(op.running_var, src.running_var, 'running variance')
            S.eq(op.num_batches_tracked, src.num_batches_tracked, 'batches')


def sync(S):
    src = nn.SyncBatchNorm(3, eps=S.pick('eps', [1e-5, 0.5]),
                           momentum=S.pick('momentum', [0.1, 1.0, None]),
                           affine=S.flag('affine'),
                           track_running_stats=S.flag('track'))
    symbolize(src, S, prefix='src.')
    op = DynamicSyncBatchNorm.convert_from(src)
    _attrs(S, src, op, KEEP + ('process_group', ))
    _load(S, src, op)


def layer(S):
    shape = S.pick('shape', [(3, ), (2, 3)])
    src = nn.LayerNorm(shape, eps=S.pick('eps', [1e-5, 0.5]),
                       elementwise_affine=S.flag('affine'))
    if src.bias is not None and S.flag('nobias'):
        src.register_parameter('bias', None)
    symbolize(src, S, prefix='src.')
    op = D.DynamicLayerNorm.convert_from(src)
    _attrs(S, src, op, ('normalized_shape', 'eps', 'elementwise_affine'))
    _load(S, src, op)
    x = S.tensor('x', (1, 2, 3))
    S.eq(op(x), src(x), 'no choice made')
    if len(shape) == 1 and src.elementwise_affine:
        op.register_mutable_attr('num_features',
                                 _full(3, S.pick('full', ('seq', 'simple'))))
        S.eq(op(x), src(x), 'all features selected')


def embed(S, norm):
    g = S.pick('groups', [1, 2])
    src = PatchEmbed(
        img_size=(4, 4), in_channels=2, embed_dims=2,
        norm_cfg=dict(type='LN', eps=0.5) if norm else None,
        conv_cfg=dict(type='Conv2d', kernel_size=S.pick('k', [2, (2, 1)]),
                      stride=S.pick('stride', [2, (2, 4)]),
                      padding=S.pick('padding', [0, 1]),
                      dilation=S.pick('dilation', [1, 2]),
                      padding_mode=S.pick('mode', ['zeros', 'circular']),
                      groups=g, bias=S.flag('bias')))
    symbolize(src, S, prefix='src.')
    before = snapshot(src)
    op = D.DynamicPatchEmbed.convert_from(src)
    _attrs(S, src, op, ('img_size', 'embed_dims', 'patches_resolution',
                        'num_patches'))
    _load(S, src, op)
    x = S.tensor('x', (1, 2, 4, 4))
    want = src(x)
    S.eq(op(x), want, 'no choice made')
    m = _full(2, 'simple')
    op.register_mutable_attr('embed_dims', m)
    S.eq(op(x), want, 'all channels selected')
    m.fix_chosen(m.current_choice)
    S.eq(op.to_static_op()(x), want, 'converted back')
    same_state(S, src, before, 'the ordinary layer is left alone')


def position(S):
    src = RelativePosition2D(2, S.pick('top', [1, 2, 3]))
    symbolize(src, S, prefix='src.')
    op = D.DynamicRelativePosition2D.convert_from(src)
    _attrs(S, src, op, ('head_dims', 'max_relative_position'))
    _load(S, src, op)
    n = S.pick('n', [2, 5, 10])
    S.eq(op(n, n), src(n, n), 'no choice made')
    op.register_mutable_attr('head_dims', _full(2, 'seq'))
    S.eq(op(n, n), src(n, n), 'all selected')


def attention(S, register):
    rel = S.flag('rel')
    short = not rel and S.flag('shortcut')
    src = MultiheadAttention(
        2 if not short else 64, 1, input_dims=2, attn_drop_rate=0.25,
        proj_drop_rate=0.5, out_drop_rate=0.75, relative_position=rel,
        max_relative_position=S.pick('top', [1, 3]), qkv_bias=S.flag('qkv'),
        qk_scale=S.pick('scale', [None, 0.5]), proj_bias=S.flag('proj'),
        v_shortcut=short).eval()
    for lin in (src.w_ks, src.w_vs, src.w_qs):  # mostly concrete: 64 wide
        with torch.no_grad():
            lin.weight.fill_(0.125)
            lin.weight[1:3].fill_(0.5)
    op = D.DynamicMultiheadAttention.convert_from(src).eval()
    _attrs(S, src, op, ('embed_dims', 'num_heads', 'input_dims', 'scale',
                        'relative_position', 'max_relative_position',
                        'v_shortcut', 'q_embed_dims'))
    for n in ('attn_drop', 'proj_drop', 'out_drop'):
        S.check(getattr(src, n).p == getattr(op, n).p, f'rate of {n} kept')
    for n in ('w_qs', 'w_ks', 'w_vs', 'proj'):
        S.check((getattr(src, n).bias is None) ==
                (getattr(op, n).bias is None), f'bias of {n} kept')
    _load(S, src, op)
    x = S.tensor('x', (1, 2, 2))
    if register:
        op.register_mutable_attr('num_heads', OneShotMutableValue([1]))
        op.register_mutable_attr('embed_dims', _full(src.embed_dims, 'seq'))
        op.register_mutable_attr('q_embed_dims', _full(64, 'seq'))
    S.eq(op(x), src(x), 'converted attention')


def resizer(S):
    rec = Recorder()
    S.patch(resize_module, 'functional', rec)
    src = InputResizer(S.pick('mode', ['nearest', 'bilinear', 'area']),
                       S.flag('align'), S.pick('scale', [None, 2.0]))
    if S.flag('given'):
        src._size = (3, 4)
    op = D.DynamicInputResizer.convert_from(src)
    x = S.tensor('x', (1, 1, 2, 2))
    a = () if S.flag('own') else ((5, 6), )
    src(x, *a)
    op(x, *a)
    one, two = rec.calls
    S.check(one.keys() == two.keys() and all(
        one[k] is two[k] or one[k] == two[k] for k in one), 'same resizing')


def sequence(S):
    log = []
    n = S.pick('n', [1, 2, 3, 4])
    src = Sequential(*[Probe(log, i) for i in range(n)])
    op = D.DynamicSequential.convert_from(src)
    symbolize(src, S, prefix='src.')
    _load(S, src, op)
    x = S.tensor('x', (2, ))
    S.eq(op(x), src(x), 'no choice made')
    if S.flag('register'):
        op.register_mutable_attr(
            'depth', OneShotMutableValue(list(range(1, n + 1))))
        op.mutable_depth.current_choice = n
        S.eq(op(x), src(x), 'full depth')


def tasks(tier):
    T = []
    ks = [(1, 1), (2, 2), (3, 1)]
    for c in CONVS:
        T.append(Task(f'conv-{c}', conv, dict(cls=c, kernels=ks),
                      dict(cost=9)))
        if tier != 'quick':
            T.append(Task(f'conv-{c}-more', conv, dict(
                cls=c, kernels=[(3, 3), (1, 3), (3, 2)], size=(3, 4)),
                dict(cost=15)))
    T.append(Task('conv-BigNas-kernel', kernel_full, dict(cls='BigNas')))
    T.append(Task('conv-OFA-kernel', kernel_full, dict(cls='OFA')))
    for c in ('Dynamic', 'SparseGpt', 'GPTQ'):
        T.append(Task(f'linear-{c}', linear, dict(cls=c)))
    for k in NORMS:
        T.append(Task(f'norm-{k}', norm, dict(kind=k), dict(cost=5)))
    T.append(Task('norm-sync', sync))
    T.append(Task('norm-layer', layer))
    for n in (False, True):
        T.append(Task(f'embed-norm{int(n)}', embed, dict(norm=n),
                      dict(cost=8)))
    T.append(Task('position', position, {}, dict(rand_zero=True)))
    for r in (False, True):
        T.append(Task(f'attention-registered{int(r)}', attention,
                      dict(register=r), dict(rand_zero=True, cost=5)))
    T.append(Task('resizer', resizer))
    T.append(Task('sequence', sequence))
    return T
