"""C01: searchable conv / linear == exported static layer == sliced layer."""
import torch
import torch.nn.functional as F
from torch import nn

from mmrazor.models.architectures.dynamic_ops import (
    BigNasConv2d, DynamicConv2d, DynamicConv2dAdaptivePadding, DynamicLinear,
    FuseConv2d, OFAConv2d)
from mmrazor.models.mutables import (OneShotMutableValue,
                                     SimpleMutableChannel,
                                     SquentialMutableChannel)

from .common import Task, kept, mask, picks, same_state, snapshot, symbolize

INFO = dict(
    bounds='1-4 in/out channels with every mask (or prefix), groups 1, 2 and '
    'depthwise, kernels 1..5 with every candidate, inputs up to 6x6, '
    'stride/padding/dilation variants listed in the harness names; weights, '
    'biases, transformation matrices and inputs are arbitrary reals',
    outside='larger layers, dtypes, non-zero padding modes')


def _mutable(n, bits=None, num=None):
    if bits is not None:
        m = SimpleMutableChannel(n)
        m.current_choice = mask(bits)
    else:
        m = SquentialMutableChannel(n)
        m.current_choice = num
    return m


def _fix(op):
    for m in op.mutable_attrs.values():
        if not m.is_fixed:
            m.fix_chosen(m.current_choice)


def conv(S, cls, cin, cout, groups, k, ks=(), bias=True, stride=1, padding=0,
         dilation=1, size=3, reg=('in', 'out'), seq=False, batch=1):
    cls = dict(Dynamic=DynamicConv2d, BigNas=BigNasConv2d, OFA=OFAConv2d,
               Adaptive=DynamicConv2dAdaptivePadding)[cls]
    op = cls(cin, cout, k, stride=stride, padding=padding, dilation=dilation,
             groups=groups, bias=bias)
    depthwise = groups == cin == cout and groups > 1
    in_bits, out_bits = [True] * cin, [True] * cout
    if seq:
        ni = S.pick('ni', range(1, cin + 1)) if 'in' in reg else cin
        no = S.pick('no', range(1, cout + 1)) if 'out' in reg else cout
        if depthwise:
            no = ni
        in_bits = [i < ni for i in range(cin)]
        out_bits = [i < no for i in range(cout)]
        mi, mo = _mutable(cin, num=ni), _mutable(cout, num=no)
    else:
        if 'in' in reg:
            in_bits = picks(S, 'i', cin)
        if 'out' in reg:
            out_bits = in_bits if depthwise else picks(S, 'o', cout)
        mi, mo = _mutable(cin, in_bits), _mutable(cout, out_bits)
    if groups > 1 and not depthwise:
        gi, go = cin // groups, cout // groups
        # grouped layers keep the same number in every group (documented)
        ci = [sum(in_bits[g * gi:(g + 1) * gi]) for g in range(groups)]
        co = [sum(out_bits[g * go:(g + 1) * go]) for g in range(groups)]
        if len(set(ci)) > 1 or len(set(co)) > 1:
            S.assume(False)
    if 'in' in reg:
        op.register_mutable_attr('in_channels', mi)
    if 'out' in reg:
        op.register_mutable_attr('out_channels', mo)
    kk = k
    if ks:
        mk = OneShotMutableValue(list(ks), default_value=max(ks))
        op.register_mutable_attr('kernel_size', mk)
        kk = S.pick('k', ks)
        mk.current_choice = kk
    symbolize(op, S, skip=('mutable_attrs', ))
    ii, oo = kept(in_bits), kept(out_bits)
    x = S.tensor('x', (batch, len(ii), size, size))
    before = snapshot(op)
    y = op(x)
    # ---- the definition: an ordinary layer on the selected slice
    w, b = op.weight, op.bias
    if ks:
        w = _kernel(S, op, w, k, sorted(ks), kk)
        padding = kk // 2
    if groups == 1:
        w = w[oo][:, ii]
        g = 1
    elif depthwise:
        w = w[oo]
        g = len(ii)
    else:
        gi, go = cin // groups, cout // groups
        rows = []
        for o in oo:
            gg = o // go
            cols = [i - gg * gi for i in ii if i // gi == gg]
            rows.append(w[o][cols])
        w = torch.stack(rows)
        g = groups
    b = b[oo] if bias else None
    xx = x
    if cls is DynamicConv2dAdaptivePadding:
        ke = dilation * (kk - 1) + 1
        tot = max((-(-size // stride) - 1) * stride + ke - size, 0)
        xx = F.pad(x, [tot // 2, tot - tot // 2, tot // 2, tot - tot // 2])
    want = F.conv2d(xx, w, b, stride, padding, dilation, g)
    S.eq(y, want, 'searchable layer vs selected slice')
    # ---- export
    _fix(op)
    st = op.to_static_op()
    S.check(not hasattr(st, 'mutable_attrs'), 'exported layer is static')
    S.check(st.in_channels == len(ii) and st.out_channels == len(oo),
            'exported channel counts')
    S.check(st.groups == g, 'exported groups')
    S.check(tuple(st.kernel_size) == (kk, kk), 'exported kernel size')
    S.check(tuple(st.stride) == (stride, stride), 'exported stride')
    S.check(tuple(st.dilation) == (dilation, dilation), 'exported dilation')
    S.check((st.bias is not None) == bias, 'exported bias')
    S.check(tuple(st.weight.shape) == (len(oo), len(ii) // g, kk, kk),
            'exported weight shape')
    S.eq(st(x), want, 'exported layer vs selected slice')
    same_state(S, op, before, 'export changed the searchable layer')
    S.eq(op(x), y, 'searchable layer after export')


def _kernel(S, op, w, k, ks, kk):
    cur = k
    for nxt in reversed(ks):
        if cur <= kk:
            break
        if nxt >= cur:
            continue
        off = (cur - nxt) // 2
        w = w[:, :, off:off + nxt, off:off + nxt]
        if isinstance(op, OFAConv2d):
            t = getattr(op, f'trans_matrix_{cur}to{nxt}')
            flat = w.reshape(-1, nxt * nxt)
            w = (flat @ t.t()).reshape(w.shape[0], w.shape[1], nxt, nxt)
        cur = nxt
    return w


def linear(S, cin, cout, bias=True, reg=('in', 'out'), seq=False, dims=2):
    op = DynamicLinear(cin, cout, bias=bias)
    in_bits = picks(S, 'i', cin) if 'in' in reg else [True] * cin
    out_bits = picks(S, 'o', cout) if 'out' in reg else [True] * cout
    if 'in' in reg:
        op.register_mutable_attr('in_features', _mutable(cin, in_bits))
    if 'out' in reg:
        op.register_mutable_attr('out_features', _mutable(cout, out_bits))
    symbolize(op, S, skip=('mutable_attrs', ))
    ii, oo = kept(in_bits), kept(out_bits)
    x = S.tensor('x', (2, ) * (dims - 1) + (len(ii), ))
    before = snapshot(op)
    y = op(x)
    want = F.linear(x, op.weight[oo][:, ii], op.bias[oo] if bias else None)
    S.eq(y, want, 'searchable linear vs selected slice')
    _fix(op)
    st = op.to_static_op()
    S.check((st.in_features, st.out_features) == (len(ii), len(oo)),
            'exported feature counts')
    S.check((st.bias is not None) == bias, 'exported bias')
    S.eq(st(x), want, 'exported linear')
    same_state(S, op, before, 'export changed the searchable layer')


def fuse(S, cin, cout, groups, bias):
    """filter-fusion conv: weight rows are mixed by the given matrix."""
    op = FuseConv2d(cin, cout, 2, groups=groups, bias=bias)
    dw = groups > 1
    no = S.pick('no', range(1, cout + 1))
    ni = no if dw else S.pick('ni', range(1, cin + 1))
    op.register_mutable_attr('in_channels', _mutable(cin, num=ni))
    op.register_mutable_attr('out_channels', _mutable(cout, num=no))
    symbolize(op, S, skip=('mutable_attrs', ))
    ch = S.tensor('choice', (no, cout))
    op.set_forward_args(choice=ch)
    x = S.tensor('x', (1, ni, 3, 3))
    y = op(x)
    if ni == cin and no == cout:
        w, b = op.weight, op.bias
    else:
        wi = op.weight if dw else op.weight[:, :ni]
        w = torch.stack([sum(ch[r, c] * wi[c] for c in range(cout))
                         for r in range(no)])
        b = torch.stack([sum(ch[r, c] * op.bias[c] for c in range(cout))
                         for r in range(no)]) if bias else None
    want = F.conv2d(x, w, b, 1, 0, 1, ni if dw else 1)
    S.eq(y, want, 'fused conv vs mixed filters')
    _fix(op)
    st = op.to_static_op()
    S.check((st.in_channels, st.out_channels) == (ni, no), 'exported counts')
    S.eq(st(x), want, 'exported fused conv')


def unfixed(S, cls):
    """export is refused while a choice is open."""
    cls = dict(Dynamic=DynamicConv2d, BigNas=BigNasConv2d, OFA=OFAConv2d,
               Linear=DynamicLinear)[cls]
    op = cls(2, 2, 1) if cls is not DynamicLinear else cls(2, 2)
    a, b = (('in_features', 'out_features') if cls is DynamicLinear else
            ('in_channels', 'out_channels'))
    m1, m2 = _mutable(2, num=2), _mutable(2, num=2)
    op.register_mutable_attr(a, m1)
    op.register_mutable_attr(b, m2)
    f1, f2 = S.flag('f1'), S.flag('f2')
    if f1:
        m1.fix_chosen(S.pick('c1', [1, 2]))
    if f2:
        m2.fix_chosen(S.pick('c2', [1, 2]))
    try:
        op.to_static_op()
        ok = True
    except RuntimeError:
        ok = False
    S.check(ok == (f1 and f2), 'export only once every choice is fixed')


def wrong_mask(S, cls):
    """a mask of another width is rejected and not registered."""
    cls = dict(Dynamic=DynamicConv2d, BigNas=BigNasConv2d, OFA=OFAConv2d,
               Linear=DynamicLinear)[cls]
    n = S.pick('n', [1, 2, 3, 4])
    op = cls(2, 3, 1) if cls is not DynamicLinear else cls(2, 3)
    lin = cls is DynamicLinear
    side = S.pick('side', ['in', 'out'])
    attr = side + ('_features' if lin else '_channels')
    try:
        op.register_mutable_attr(attr, _mutable(n, num=n))
        ok = True
    except ValueError:
        ok = False
    S.check(ok == (n == (2 if side == 'in' else 3)), 'mask width checked')
    S.check((attr in op.mutable_attrs) == ok, 'only valid masks registered')


def tasks(tier):
    T = []

    def c(cls, **p):
        nm = 'conv-' + cls + '-' + '-'.join(
            f'{k}{v}' for k, v in p.items()).replace(' ', '')
        T.append(Task(nm, conv, dict(cls=cls, **p),
                      dict(cost=p.get('size', 3)**2 * p['k'])))

    for cls in ('Dynamic', 'BigNas', 'OFA', 'Adaptive'):
        c(cls, cin=3, cout=3, groups=1, k=2, bias=True)
        c(cls, cin=3, cout=3, groups=3, k=2, bias=True)
        c(cls, cin=4, cout=4, groups=2, k=1, bias=True, size=2)
        c(cls, cin=2, cout=4, groups=2, k=2, bias=False, size=2)
        c(cls, cin=2, cout=3, groups=1, k=3, bias=False, stride=2,
          padding=0 if cls == 'Adaptive' else 1, size=4)
        c(cls, cin=2, cout=2, groups=1, k=2, bias=True,
          padding=0 if cls == 'Adaptive' else 1, dilation=2, size=3)
        c(cls, cin=2, cout=2, groups=2, k=3, bias=True, stride=2,
          padding=0 if cls == 'Adaptive' else 1, size=5)
        c(cls, cin=4, cout=3, groups=1, k=1, seq=True, size=2, batch=2)
        c(cls, cin=3, cout=2, groups=1, k=1, reg=('in', ), size=2)
        c(cls, cin=2, cout=3, groups=1, k=1, reg=('out', ), size=2)
        c(cls, cin=2, cout=2, groups=1, k=2, reg=(), size=3)
        c(cls, cin=4, cout=4, groups=4, k=1, seq=True, size=2)
    for cls in ('BigNas', 'OFA'):
        c(cls, cin=2, cout=2, groups=1, k=3, ks=(1, 3), size=3)
        c(cls, cin=2, cout=2, groups=2, k=3, ks=(3, 1), size=3)
        c(cls, cin=4, cout=2, groups=2, k=3, ks=(1, 3), size=2)
        c(cls, cin=2, cout=1, groups=1, k=5, ks=(1, 3, 5), size=3, seq=True)
        c(cls, cin=1, cout=2, groups=1, k=5, ks=(5, 3), size=3, stride=2,
          bias=False)
        c(cls, cin=2, cout=2, groups=1, k=3, ks=(1, 3), reg=(), size=2)
        if tier == 'thorough':
            c(cls, cin=2, cout=2, groups=1, k=7, ks=(3, 5, 7), size=3)
            c(cls, cin=3, cout=3, groups=3, k=5, ks=(1, 3, 5), size=4)
    if tier == 'thorough':
        for cls in ('Dynamic', 'Adaptive'):
            for st in (1, 2, 3):
                for dil in (1, 2):
                    for g, ci, co in ((1, 3, 4), (2, 4, 4), (4, 4, 4)):
                        c(cls, cin=ci, cout=co, groups=g, k=3, stride=st,
                          dilation=dil, size=6, bias=st == 1)
    for bias in (True, False):
        T.append(Task(f'linear-3-4-bias{bias}', linear,
                      dict(cin=3, cout=4, bias=bias)))
    T.append(Task('linear-3d', linear, dict(cin=3, cout=2, dims=3)))
    T.append(Task('linear-in', linear, dict(cin=3, cout=2, reg=('in', ))))
    T.append(Task('linear-out', linear, dict(cin=2, cout=3, reg=('out', ))))
    T.append(Task('fuse', fuse, dict(cin=2, cout=3, groups=1, bias=True)))
    T.append(Task('fuse-nobias', fuse, dict(cin=2, cout=2, groups=1,
                                            bias=False)))
    T.append(Task('fuse-dw', fuse, dict(cin=3, cout=3, groups=3, bias=True)))
    for cls in ('Dynamic', 'BigNas', 'OFA', 'Linear'):
        T.append(Task(f'unfixed-{cls}', unfixed, dict(cls=cls)))
        T.append(Task(f'wrong-mask-{cls}', wrong_mask, dict(cls=cls)))
    return T
