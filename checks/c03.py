"""C03: searchable attention, embedding, resizer and sequence == export."""
import torch
import torch.nn.functional as F
from mmengine.model import Sequential
from torch import nn

from mmrazor.models.architectures.dynamic_ops import (
    DynamicInputResizer, DynamicLinear, DynamicMultiheadAttention,
    DynamicPatchEmbed, DynamicRelativePosition2D, DynamicSequential)
from mmrazor.models.architectures.ops import (InputResizer,
                                              MultiheadAttention,
                                              RelativePosition2D)
from mmrazor.models.architectures.ops import function as resize_module
from mmrazor.models.mutables import (OneShotMutableValue,
                                     SimpleMutableChannel,
                                     SquentialMutableChannel)

from .common import (Task, kept, mask, picks, same_state, snapshot, symbolize)

INFO = dict(
    bounds='sequences of up to 5 modules with every depth; patch embeddings '
    'of up to 4 channels with every mask and several projection settings; '
    'relative positions up to 3x3 patches, range 1-3 and every head width up '
    'to 3; attention with up to 2 heads of width 1-2, embeddings up to 3, '
    '3-5 tokens, with and without relative positions, biases, own scale and '
    'value shortcut; resizers with every choice of a candidate list; inputs '
    'and parameters are arbitrary reals',
    outside='larger sizes, dropout active in training, masks that are not '
    'prefixes for the attention (not supported by it); exp is an '
    'uninterpreted function; the interpolation itself is torch code and is '
    'replaced by a recorder of its arguments')


# ------------------------------------------------------------------ sequence
class Probe(nn.Module):
    """scales by its own weight and records that it ran"""

    def __init__(self, log, name):
        super().__init__()
        self.weight = nn.Parameter(torch.ones(1))
        self.log, self.name = log, name

    def forward(self, x):
        self.log.append(self.name)
        return x * self.weight + self.name


def sequence(S, n, how, registered=True, steps=2):
    log = []
    mods = [Probe(log, i) for i in range(n)]
    if how == 'convert':
        seq = DynamicSequential.convert_from(Sequential(*mods))
    else:
        seq = DynamicSequential(*mods)
    mv = None
    cands = [i for i in range(1, n + 1)]
    if registered:
        cands = [i for i in cands if S.flag(f'cand{i}')]
        if not cands:
            S.assume(False)
        mv = OneShotMutableValue(cands, default_value=max(cands))
        seq.register_mutable_attr('depth', mv)
    S.check(seq.pure_module_nums == n, 'number of modules')
    symbolize(seq, S)
    for t in range(steps):
        d = n
        if mv is not None:
            d = S.pick(f'd{t}', cands)
            mv.current_choice = d
        x = S.tensor(f'x{t}', (2, ))
        del log[:]
        y = seq(x)
        S.check(log == list(range(d)), 'runs exactly the first modules')
        want = x
        for i in range(d):
            want = want * mods[i].weight + i
        S.eq(y, want, 'value of the sequence')
    if mv is not None:
        try:
            seq.to_static_op()
            S.check(False, 'export only once fixed')
        except RuntimeError:
            pass
        mv.fix_chosen(d)
    st = seq.to_static_op()
    S.check(not isinstance(st, DynamicSequential) and len(st) == d,
            'exported length')
    S.check([m for m in st] == mods[:d], 'exported modules')
    del log[:]
    S.eq(st(x), want, 'exported sequence')
    S.check(log == list(range(d)), 'exported sequence runs its modules')
    S.eq(seq(x), want, 'searchable sequence after export')


def too_deep(S, n):
    seq = DynamicSequential(*[nn.Identity() for _ in range(n)])
    c = S.pick('c', range(1, n + 4))
    mv = OneShotMutableValue([c, 1, 2], default_value=c)
    try:
        seq.register_mutable_attr('depth', mv)
        S.check(c <= n + 1, 'a depth beyond the sequence is rejected')
    except ValueError:
        S.check(c > n, 'legal depths are accepted')


# --------------------------------------------------------------- patch embed
def embed(S, n, cin, k, stride, padding=0, dilation=1, bias=True, size=4,
          registered=True, norm=False):
    op = DynamicPatchEmbed(
        img_size=size, in_channels=cin, embed_dims=n,
        norm_cfg=dict(type='LN') if norm else None,
        conv_cfg=dict(type='Conv2d', kernel_size=k, stride=stride,
                      padding=padding, dilation=dilation, bias=bias))
    m, idx = None, list(range(n))
    if registered:
        bits = picks(S, 'm', n)
        idx = kept(bits)
        if norm:
            S.assume(len(idx) == n)
        m = SimpleMutableChannel(n)
        m.current_choice = mask(bits)
        op.register_mutable_attr('embed_dims', m)
    symbolize(op, S, skip=('mutable_attrs', ))
    before = snapshot(op)
    x = S.tensor('x', (1, cin, size, size))
    y = op(x)
    want = F.conv2d(x, op.projection.weight[idx],
                    op.projection.bias[idx] if bias else None, stride,
                    padding, dilation).flatten(2).transpose(1, 2)
    if norm:
        want = F.layer_norm(want, (n, ), op.norm.weight, op.norm.bias,
                            op.norm.eps)
    S.eq(y, want, 'searchable embedding vs selected projection')
    if m is not None:
        m.fix_chosen(m.current_choice)
    st = op.to_static_op()
    S.check(not isinstance(st, DynamicPatchEmbed), 'exported type')
    S.check(st.embed_dims == len(idx), 'exported width')
    S.check(st.num_patches == op.num_patches == want.shape[1],
            'number of patches')
    S.eq(st(x), want, 'exported embedding')
    same_state(S, op, before, 'export leaves the searchable embedding')


# --------------------------------------------------------- relative position
def _position(table_v, table_h, nq, top, d):
    side = int((nq - 1)**0.5)

    def clip(v):
        return max(-top, min(top, v)) + top + 1

    rows = []
    for q in range(nq):
        row = []
        for k in range(nq):
            v = h = 0
            if q and k:
                v = clip((k - 1) // side - (q - 1) // side)
                h = clip((k - 1) % side - (q - 1) % side)
            row.append(table_v[v, :d] + table_h[h, :d])
        rows.append(torch.stack(row))
    return torch.stack(rows)


def position(S, dims, top, tokens, registered=True):
    op = DynamicRelativePosition2D(dims, top)
    d, m = dims, None
    if registered:
        m = SquentialMutableChannel(dims)
        op.register_mutable_attr('head_dims', m)
        d = S.pick('d', range(1, dims + 1))
        m.current_choice = d
    symbolize(op, S, skip=('mutable_attrs', ))
    before = snapshot(op)
    n = S.pick('n', tokens)
    want = _position(op.embeddings_table_v, op.embeddings_table_h, n, top, d)
    S.eq(op(n, n), want, 'searchable relative position')
    if m is not None:
        m.fix_chosen(d)
    st = op.to_static_op()
    S.check(type(st) is RelativePosition2D, 'exported type')
    S.check((st.head_dims, st.max_relative_position) == (d, top),
            'exported settings')
    for k in tokens:
        S.eq(st(k, k), _position(op.embeddings_table_v,
                                 op.embeddings_table_h, k, top, d),
             'exported relative position')
    same_state(S, op, before, 'export leaves the tables')


# ------------------------------------------------------------------ attention
def _attention(op, x, e, heads, w, scale, rel, vshort, top):
    """plain definition on the selected slices"""
    B, N = x.shape[:2]
    q_dim = heads * w

    def lin(layer, o, i, v):
        return F.linear(v, layer.weight[:o, :i],
                        None if layer.bias is None else layer.bias[:o])

    q = lin(op.w_qs, q_dim, e, x).view(B, N, heads, w).transpose(1, 2)
    k = lin(op.w_ks, q_dim, e, x).view(B, N, heads, w).transpose(1, 2)
    v = lin(op.w_vs, q_dim, e, x).view(B, N, heads, w).transpose(1, 2)
    attn = (q @ k.transpose(-2, -1)) * scale
    if rel:
        rk = _position(op.rel_pos_embed_k.embeddings_table_v,
                       op.rel_pos_embed_k.embeddings_table_h, N, top, w)
        extra = (q.permute(2, 0, 1, 3).reshape(N, heads * B, -1)
                 @ rk.transpose(2, 1)).transpose(1, 0)
        attn = attn + extra.reshape(B, heads, N, N) * scale
    attn = attn.softmax(dim=-1)
    out = (attn @ v).transpose(1, 2).reshape(B, N, -1)
    if rel:
        rv = _position(op.rel_pos_embed_v.embeddings_table_v,
                       op.rel_pos_embed_v.embeddings_table_h, N, top, w)
        extra = (attn.permute(2, 0, 1, 3).reshape(N, B * heads, -1) @ rv)
        out = out + extra.transpose(1, 0).reshape(
            B, heads, N, -1).transpose(2, 1).reshape(B, N, -1)
    out = lin(op.proj, e, q_dim, out)
    if vshort:
        out = v.squeeze(1) + out
    return out


def attention(S, embed_dims, heads, widths, tokens=3, rel=True, top=2,
              qkv_bias=True, proj_bias=True, scale=None, vshort=False,
              free=(), cost=None):
    op = DynamicMultiheadAttention(
        embed_dims, max(heads), relative_position=rel,
        max_relative_position=top, qkv_bias=qkv_bias, proj_bias=proj_bias,
        qk_scale=scale, v_shortcut=vshort)
    op.eval()
    fix = []
    h, e, w = max(heads), embed_dims, op.head_dims
    if 'heads' not in free:
        mh = OneShotMutableValue(list(heads), default_value=max(heads))
        h = S.pick('h', heads)
        mh.current_choice = h
        op.register_mutable_attr('num_heads', mh)
        fix.append(mh)
    if 'embed' not in free:
        me = SquentialMutableChannel(embed_dims)
        e = S.pick('e', range(1, embed_dims + 1))
        me.current_choice = e
        op.register_mutable_attr('embed_dims', me)
        fix.append(me)
    if 'q' not in free:
        w = S.pick('w', widths)
        mq = SquentialMutableChannel(op.q_embed_dims)
        mq.current_choice = h * w
        op.register_mutable_attr('q_embed_dims', mq)
        fix.append(mq)
        if rel:
            base = SquentialMutableChannel(op.head_dims)
            base.current_choice = w
            op.rel_pos_embed_k.register_mutable_attr('head_dims', base)
            op.rel_pos_embed_v.register_mutable_attr('head_dims', base)
            fix.append(base)
    symbolize(op, S, skip=('mutable_attrs', ))
    before = snapshot(op)
    x = S.tensor('x', (1, tokens, e))
    sc = scale or 64**-0.5
    want = _attention(op, x, e, h, w, sc, rel, vshort, top)
    S.eq(op(x), want, 'searchable attention vs definition')
    for m in fix:
        m.fix_chosen(m.current_choice)
    st = op.to_static_op().eval()
    S.check(type(st) is MultiheadAttention, 'exported type')
    S.check((st.embed_dims, st.num_heads, st.q_embed_dims) == (e, h, h * w),
            'exported widths')
    S.check((st.attn_drop.p, st.proj_drop.p, st.out_drop.p) ==
            (op.attn_drop.p, op.proj_drop.p, op.out_drop.p),
            'exported dropout rates')
    S.eq(st(x), want, 'exported attention')
    same_state(S, op, before, 'export leaves the searchable attention')
    S.eq(op(x), want, 'searchable attention after export')


def unfixed(S):
    op = DynamicMultiheadAttention(2, 2, relative_position=False)
    mh = OneShotMutableValue([1, 2])
    me = SquentialMutableChannel(2)
    mq = SquentialMutableChannel(4)
    op.register_mutable_attr('num_heads', mh)
    op.register_mutable_attr('embed_dims', me)
    op.register_mutable_attr('q_embed_dims', mq)
    f = [S.flag(f'f{i}') for i in range(3)]
    for flag, m in zip(f, [mh, me, mq]):
        if flag:
            m.fix_chosen(m.current_choice)
    try:
        op.to_static_op()
        ok = True
    except RuntimeError:
        ok = False
    S.check(ok == all(f), 'export only once every choice is fixed')


# -------------------------------------------------------------------- resizer
class Recorder:
    """stands for torch.nn.functional: records how it is asked to resize"""

    def __init__(self):
        self.calls = []

    def interpolate(self, **k):
        self.calls.append(k)
        return k['input']


SHAPES = {'pair': [[1, 2], [2, 2], [4, 3]], 'int': [1, 2, 4]}


def resizer(S, kind, convert, registered=True, steps=2):
    rec = Recorder()
    S.patch(resize_module, 'functional', rec)
    mode = S.pick('mode', ['nearest', 'bilinear', 'bicubic', 'area'])
    al = S.flag('align')
    sf = None if registered else S.pick('scale', [None, 2.0])
    if convert:
        src = InputResizer(mode, al, sf)
        if S.flag('given'):
            src._size = (3, 3)
        op = DynamicInputResizer.convert_from(src)
        default = src._size
    else:
        op = DynamicInputResizer(mode, al, sf)
        default = None
    mv = None
    if registered:
        mv = OneShotMutableValue(list(SHAPES[kind]))
        op.register_mutable_attr('shape', mv)
    x = S.tensor('x', (1, 1, 2, 2))

    def asked(size, what):
        k = rec.calls.pop()
        S.check(k['input'] is x and k['size'] == size and
                k['mode'] == mode and k['align_corners'] == al and
                k['scale_factor'] == sf and not rec.calls, what)

    for t in range(steps):
        size = default
        if mv is not None:
            size = S.pick(f's{t}', SHAPES[kind])
            mv.current_choice = size
        if not registered and S.flag(f'explicit{t}'):
            op(x, (5, 6))
            asked((5, 6), 'a size given for one call')
        op(x)
        asked(size, 'searchable resizer')
    if mv is not None:
        mv.fix_chosen(mv.current_choice)
    st = op.to_static_op()
    S.check(type(st) is InputResizer, 'exported type')
    st(x)
    asked(size, 'exported resizer')
    op(x)
    asked(size, 'searchable resizer after export')


def tasks(tier):
    T = []
    n = 4 if tier == 'quick' else 5
    for how in ('new', 'convert'):
        T.append(Task(f'sequence-{how}', sequence, dict(n=n, how=how)))
        T.append(Task(f'sequence-{how}-free', sequence,
                      dict(n=3, how=how, registered=False)))
    T.append(Task('too-deep', too_deep, dict(n=2)))
    for i, kw in enumerate([
            dict(n=3, cin=2, k=2, stride=2),
            dict(n=2, cin=1, k=3, stride=1, padding=1),
            dict(n=3, cin=1, k=2, stride=2, bias=False),
            dict(n=2, cin=2, k=2, stride=1, dilation=2),
            dict(n=2, cin=1, k=2, stride=2, norm=True),
            dict(n=4, cin=3, k=4, stride=4),
            dict(n=2, cin=3, k=16, stride=16, size=32)]):
        T.append(Task(f'embed-{i}', embed, kw, dict(cost=i)))
    T.append(Task('embed-free', embed,
                  dict(n=2, cin=2, k=2, stride=2, registered=False)))
    for top in (1, 2, 3):
        T.append(Task(f'position-{top}', position,
                      dict(dims=3, top=top, tokens=[3, 5, 10]),
                      dict(rand_zero=True)))
    T.append(Task('position-free', position,
                  dict(dims=2, top=1, tokens=[5, 10], registered=False),
                  dict(rand_zero=True)))
    A = dict(embed_dims=2, heads=[1, 2], widths=[1, 2])
    for i, kw in enumerate([
            dict(rel=False), dict(rel=True), dict(rel=True, top=1, tokens=5),
            dict(rel=False, qkv_bias=False), dict(rel=False, proj_bias=False),
            dict(rel=True, scale=0.5),
            dict(embed_dims=3, heads=[2], widths=[2], rel=False),
            dict(rel=False, free=('embed', )),
            dict(rel=True, heads=[2], free=('heads', )),
            dict(rel=False, scale=0.5, heads=[1], widths=[1], tokens=2)]):
        T.append(Task(f'attention-{i}', attention, dict(A, **kw),
                      dict(cost=20, rand_zero=True)))
    T.append(Task('attention-shortcut', attention, dict(
        embed_dims=2, heads=[1], widths=[2], rel=False, vshort=True,
        free=('embed', )), dict(cost=20, rand_zero=True)))
    T.append(Task('attention-free', attention, dict(
        embed_dims=1, heads=[1], widths=[64], tokens=2, rel=False,
        free=('heads', 'embed', 'q')), dict(cost=20, rand_zero=True)))
    T.append(Task('attention-unfixed', unfixed))
    for kind in SHAPES:
        for conv in (True, False):
            T.append(Task(f'resizer-{kind}-{conv}', resizer,
                          dict(kind=kind, convert=conv)))
    for conv in (True, False):
        T.append(Task(f'resizer-free-{conv}', resizer,
                      dict(kind='int', convert=conv, registered=False)))
    return T
