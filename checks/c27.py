"""C27: learned-step fake quantisation."""
import copy
import math

import torch
from torch import nn

import mmrazor.models  # noqa: F401
from mmrazor.models.fake_quants import (enable_param_learning,
                                        enable_static_estimate, enable_val,
                                        register_torch_fake_quants)
from mmrazor.models.observers import register_torch_observers
from mmrazor.registry import MODELS

from symx.tensor import symbolize

from .common import Task

register_torch_observers()
register_torch_fake_quants()

INFO = dict(
    bounds='two values per channel, 1 or 2 channels on either axis; every '
    'scale (or every ratio of value and scale) and zero point; ranges of 2, '
    '3, 4 and 8 bits of both types; sequences of 2 (thorough 3) switches out '
    'of 9 and two batches; all four schemes',
    outside='gradients of the learned step, rounding of floats (the grid is '
    'checked over the reals), torch.jit')

EPS = torch.finfo(torch.float32).eps
RANGE = dict(u2=(0, 3), i2=(-2, 1), n3=(-3, 3), i4=(-8, 7), u8=(0, 255),
             i8=(-128, 127))


def build(S, obs, rng, sym=True, axis=0, **kw):
    lo, hi = RANGE[rng]
    per = 'PerChannel' in obs
    k = dict(kw)
    if per:
        k['ch_axis'] = axis
    q = MODELS.get('LearnableFakeQuantize')(
        observer=MODELS.get(obs), quant_min=lo, quant_max=hi,
        dtype=torch.quint8 if rng[0] == 'u' else torch.qint8,
        qscheme={(True, True): torch.per_channel_symmetric,
                 (False, True): torch.per_channel_affine,
                 (True, False): torch.per_tensor_symmetric,
                 (False, False): torch.per_tensor_affine}[sym, per], **k)
    return q, lo, hi, per


def put(q, name, v):
    if name in q._parameters:
        q._parameters[name] = nn.Parameter(v)
    else:
        q._buffers[name] = v


def level(z, lo, hi):
    """the zero point as it is used: an integer of the range"""
    return z.round().clamp(lo, hi)


def grid(S, obs, rng, axis=0, free=True, whole=False):
    learn = S.flag('zero_learns')
    scaling = S.flag('grad_scaling')
    q, lo, hi, per = build(S, obs, rng, axis=axis, use_grad_scaling=scaling,
                           zero_point_trainable=learn)
    n = 2 if per else 1
    if free:
        s = S.tensor('scale', (n, ), 0.001, 100)
    else:
        s = torch.tensor([S.pick('scale', [0.1, 1., 3.])] + [0.7] * (n - 1))
    z = S.tensor('zero', (n, ), lo, hi, **(dict(dtype=torch.int32) if whole
                                           else {})).float()
    put(q, 'scale', s.clone())
    put(q, 'zero_point', z.clone())
    how = S.pick('how', [q.enable_val, q.enable_param_learning])
    how()
    factors = []
    for nm in ('tensor', 'channel'):
        nm = f'_fake_quantize_learnable_per_{nm}_affine'

        def spy(*args, real=getattr(torch, nm)):
            factors.append(args[-1])
            return real(*args)

        S.patch(torch, nm, spy)
    # values as multiples of the scale
    u = S.tensor('u', (2, 1) if axis == 0 else (1, 2), -600, 600)
    shape = (-1, 1) if axis == 0 else (1, -1)
    x = u * (s.reshape(shape) if per else s)
    y = q(x)
    S.check(len(factors) == 1 and abs(factors[0] - (
        1 / math.sqrt(x.numel() * hi) if scaling else 1)) < 1e-9,
        'gradients are scaled by the number of values and levels')
    S.eq(q.scale, s, 'the scale stays')
    S.eq(q.zero_point, z, 'the zero point stays')
    zz = level(z, lo, hi)
    S.check(y.shape == x.shape and y.dtype == x.dtype, 'shape and type')
    for i in range(2):
        at = (i, 0) if axis == 0 else (0, i)
        c = (i if per else 0)
        k = y[at] / s[c] + zz[c]
        S.check((k - k.round()).abs() <= 1e-3, 'on the grid')
        S.check((k >= lo - 1e-3) & (k <= hi + 1e-3), 'within the range')
        goal = u[at] + zz[c]
        S.check((goal < lo) | (goal > hi) |
                ((k - goal).abs() <= 0.5 + 1e-3), 'nearest')
        S.check((goal >= lo) | (k <= lo + 1e-3), 'the least level below')
        S.check((goal <= hi) | (k >= hi - 1e-3), 'the greatest above')
    again = q(y)
    S.eq(again, y, 'a second time changes nothing')


def off(S, obs, rng):
    """without fake quantisation the very input comes back"""
    q, lo, hi, per = build(S, obs, rng)
    symbolize(q.activation_post_process, S, 'o.', skip=('eps', ))
    n = 2 if per else 1
    put(q, 'scale', S.tensor('scale', (n, ), 0.01, 10))
    put(q, 'zero_point', S.tensor('zero', (n, ), lo, hi))
    x = S.tensor('x', (2, 2))
    if S.flag('static'):
        q.enable_static_observation()
    else:
        q.enable_val()
        q.toggle_fake_quant(False)
    keep = x.clone()
    y = q(x)
    S.eq(y, keep, 'the input passes')
    S.eq(x, keep, 'the input is not written')


SWITCH = dict(
    learn=dict(s=0, f=1, g=1), static=dict(s=1, f=1, g=0),
    val=dict(s=0, f=1, g=0), observe=dict(s=1, f=0, g=0),
    observer_on=dict(s=1), observer_off=dict(s=0), fake_on=dict(f=1),
    fake_off=dict(f=0), grad_on=dict(g=1), grad_off=dict(g=0))


def switch(q, name, root=None):
    t = root if root is not None else q
    dict(learn=lambda: t.apply(enable_param_learning),
         static=lambda: t.apply(enable_static_estimate),
         val=lambda: t.apply(enable_val),
         observe=q.enable_static_observation,
         observer_on=q.enable_observer,
         observer_off=lambda: q.toggle_observer_update(False),
         fake_on=q.toggle_fake_quant,
         fake_off=lambda: q.toggle_fake_quant(False),
         grad_on=q.toggle_qparam_learning,
         grad_off=lambda: q.toggle_qparam_learning(False))[name]()


def bounds(x, per):
    d = x.flatten(1) if per else x.reshape(1, -1)
    return [(r.min(), r.max(), r.abs().mean()) for r in d]


def switches(S, obs, steps):
    """switches act exactly as set, in every order"""
    learn = S.flag('zero_learns')
    sym = True
    q, lo, hi, per = build(S, obs, 'i2', sym=sym, zero_point_trainable=learn)
    n = 2 if per else 1
    m = nn.Sequential(nn.Identity(), q)
    state = dict(s=1, f=1, g=0)
    S.check(q.static_enabled[0] == 1 and q.fake_quant_enabled[0] == 1 and
            q.learning_enabled[0] == 0, 'initial switches')
    grad = None
    mins = [math.inf] * n
    maxs = [-math.inf] * n
    s, z = q.scale.detach().clone(), q.zero_point.detach().clone()
    for i in range(steps):
        # scales of channels exist once something was observed
        name = S.pick(f'switch{i}', list(SWITCH) if i or not per else
                      ['static', 'observe', 'observer_on', 'fake_on',
                       'fake_off', 'grad_on'])
        switch(q, name, m)
        state.update(SWITCH[name])
        if 'g' in SWITCH[name]:
            grad = bool(state['g'])
        S.check((int(q.static_enabled[0]), int(q.fake_quant_enabled[0]),
                 int(q.learning_enabled[0])) ==
                (state['s'], state['f'], state['g']), 'switches as set')
        if grad is not None:
            S.check(q.scale.requires_grad == grad, 'scale learns as set')
            if learn:
                S.check(q.zero_point.requires_grad == grad,
                        'zero point learns as set')
        if not learn:
            S.check(not q.zero_point.requires_grad, 'zero point never learns')
        x = S.tensor(f'x{i}', (2, 1), -4, 4)
        with torch.no_grad():
            y = m(x)
        if state['s']:
            want_s, want_z = [], []
            for c, (a, b, mean) in enumerate(bounds(x, per)):
                mins[c], maxs[c] = S_min(mins[c], a), S_max(maxs[c], b)
                if 'LSQ' in obs:
                    v = 2 * mean / math.sqrt(hi)
                else:
                    v = S_max(S_max(-mins[c], maxs[c]), 0) / ((hi - lo) / 2)
                want_s.append(S_max(v, EPS))
                want_z.append(torch.zeros(()))
            s, z = torch.stack(want_s), torch.stack(want_z)
            S.eq(q.scale.reshape(-1), s, 'the estimate is used')
            S.eq(q.zero_point.reshape(-1), z, 'the zero point is used')
            for nm, want in (('min_val', mins), ('max_val', maxs)):
                S.eq(getattr(q.activation_post_process, nm).reshape(-1),
                     torch.stack([torch.as_tensor(v) for v in want]), nm)
        else:
            S.eq(q.scale.reshape(-1), s.reshape(-1), 'the scale stays')
            S.eq(q.zero_point.reshape(-1), z.reshape(-1), 'so does zero')
            o = q.activation_post_process
            if not math.isinf(float_or(mins[0])):
                S.eq(o.min_val.reshape(-1), torch.stack(mins),
                     'nothing is observed')
                S.eq(o.max_val.reshape(-1), torch.stack(maxs),
                     'nothing is observed')
            else:
                S.check(o.min_val.numel() == 0 or bool(
                    torch.isinf(o.min_val).all()), 'nothing is observed')
        S.check((q.scale > 0).all(), 'the scale is positive')
        if not state['f']:
            S.eq(y, x, 'passes')
        else:
            # what this operation computes is decided by the grid harnesses
            sc, zc = q.scale.detach(), q.zero_point.detach()
            if q.scale.numel() == 2:
                want = torch._fake_quantize_learnable_per_channel_affine(
                    x, sc, zc, 0, lo, hi, 1.)
            else:
                want = torch._fake_quantize_learnable_per_tensor_affine(
                    x, sc, zc, lo, hi, 1.)
            S.eq(y, want, 'quantised')


def float_or(v):
    return v if isinstance(v, float) else 0.


def S_min(a, b):
    if isinstance(a, float) and math.isinf(a):
        return b
    return torch.minimum(torch.as_tensor(a), torch.as_tensor(b))


def S_max(a, b):
    if isinstance(a, float) and math.isinf(a):
        return b
    a, b = [torch.as_tensor(v, dtype=torch.float32) for v in (a, b)]
    return torch.maximum(a, b)


def positive(S, obs, rng):
    """scales are positive, whatever is observed or learned"""
    sym = S.flag('symmetric')
    q, lo, hi, per = build(S, obs, rng, sym=sym)
    x = S.tensor('x', (2, 1))
    getattr(q, S.pick('how', ['enable_static_estimate',
                              'enable_static_observation']))()
    q(x)
    S.check((q.scale > 0).all(), 'estimated')
    S.check(((q.zero_point >= lo) & (q.zero_point <= hi)).all(), 'in range')
    sc, _ = q.calculate_qparams()
    S.check((sc > 0).all(), 'reported')
    n = 2 if per else 1
    s = S.tensor('s', (n, ))
    put(q, 'scale', s.clone())
    z = S.tensor('z', (n, ), lo - 3, hi + 3)
    put(q, 'zero_point', z.clone())
    if S.flag('by_forward'):
        q.enable_param_learning()
        q(torch.zeros(2, 1))
    else:
        rs, rz = q.calculate_qparams()
        S.eq(rs, q.scale, 'reports the scale used')
        S.eq(rz, level(z, lo, hi), 'reports the zero point used')
    S.check((q.scale > 0).all(), 'learned')
    for i in range(n):
        if s[i] >= EPS:
            S.eq(q.scale[i], s[i], 'a usable scale stays')


def lsq(S, per, axis):
    """initial step: twice the mean magnitude over the root of the range"""
    rng = S.pick('range', ['u2', 'i4', 'i8', 'u8'])
    obs = 'LSQPerChannelObserver' if per else 'LSQObserver'
    q, lo, hi, _ = build(S, obs, rng, axis=axis)
    o = q.activation_post_process
    shape = S.pick('shape', [(2, 2, 1), (2, 2), (1, 2), (2, 1)])
    for b in range(2):
        x = S.tensor(f'x{b}', shape)
        back = o(x)
        S.eq(back, x, 'the input comes back')
        s, _ = o.calculate_qparams()
        if per:
            rows = [x.select(axis, i) for i in range(shape[axis])]
        else:
            rows = [x]
        s = s.reshape(-1)
        S.check(s.numel() == len(rows), 'one step per channel')
        for i, r in enumerate(rows):
            want = 2 * r.abs().sum() / r.numel() / math.sqrt(hi)
            S.eq(s[i], want, 'initial step')
    o(torch.zeros(0))
    again, _ = o.calculate_qparams()
    S.eq(again.reshape(-1), s, 'an empty batch changes nothing')


def reload(S, obs, rng):
    """a quantiser loaded from a state computes the same"""
    learn = S.flag('zero_learns')
    sym = S.flag('symmetric')
    q, lo, hi, per = build(S, obs, rng, sym=sym, zero_point_trainable=learn)
    if S.flag('used'):
        q(S.tensor('first', (2, 1), -4, 4))
    n = 2 if per and q.scale.numel() == 2 else 1
    put(q, 'scale', S.tensor('scale', (n, ), 0.01, 10))
    put(q, 'zero_point', S.tensor('zero', (n, ), lo, hi))
    name = S.pick('switch', ['learn', 'static', 'val', 'fake_off', 'observe'])
    switch(q, name)
    state = copy.deepcopy(q.state_dict())
    whole = copy.deepcopy(nn.Sequential(q).state_dict())
    r, _, _, _ = build(S, obs, rng, sym=sym, zero_point_trainable=learn)
    if S.flag('other_used'):
        r(torch.tensor([[1.], [2.]]))
    symbolize(r, S, 'r.', skip=('min_val', 'max_val', 'eps'))
    m = nn.Sequential(r)
    bad = m.load_state_dict(whole)
    S.check(not bad.missing_keys and not bad.unexpected_keys, 'complete')
    for k, v in m.state_dict().items():
        S.check(v.shape == state[k[2:]].shape, f'{k}: shape')
        S.eq(v, state[k[2:]], k)
    if n == 1 and per and name not in ('static', 'observe'):
        return
    x = S.tensor('x', (2, 1), -4, 4)
    for _ in range(2):
        S.eq(r(x), q(x), 'the same outputs')
    S.eq(r.scale, q.scale, 'the same scale afterwards')
    state.pop(S.pick('gone', ['scale', 'zero_point']))
    S.raises(RuntimeError, r.load_state_dict, state,
             msg='an incomplete state is refused')


F32 = dict(random=False, dtype='float32', tol=1e-3, builtins=True)


def tasks(tier):
    T = []
    deep = tier != 'quick'
    for r in RANGE if deep else ('u2', 'i2', 'n3', 'i8'):
        free = r in ('u2', 'i2') if deep else r == 'u2'
        for fr in (False, True) if free else (False, ):
            tag = f'{r}-free' if fr else r
            wh = r in ('u8', 'i8') or fr
            T.append(Task(f'grid-tensor-{tag}', grid, dict(
                obs='LSQObserver', rng=r, free=fr, whole=wh), F32))
            for ax in (0, 1):
                T.append(Task(f'grid-channel{ax}-{tag}', grid, dict(
                    obs='LSQPerChannelObserver', rng=r, axis=ax, free=fr, whole=wh),
                    F32))
    for o in ('LSQObserver', 'LSQPerChannelObserver', 'MinMaxObserver',
              'PerChannelMinMaxObserver'):
        T.append(Task(f'off-{o}', off, dict(obs=o, rng='i4'), F32))
        T.append(Task(f'switches-{o}', switches, dict(
            obs=o, steps=3 if deep else 2), F32))
        for r in ('u2', ) if not deep else RANGE:
            T.append(Task(f'positive-{o}-{r}', positive, dict(
                obs=o, rng=r), F32))
        T.append(Task(f'reload-{o}', reload, dict(obs=o, rng='i2'), F32))
    T.append(Task('lsq-tensor', lsq, dict(per=False, axis=0), F32))
    for ax in (0, 1):
        T.append(Task(f'lsq-channel{ax}', lsq, dict(per=True, axis=ax), F32))
    return T
