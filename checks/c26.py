"""C26: quantisation settings translate to consistent integer ranges."""
import copy

import torch
from torch import nn

import mmrazor.models  # noqa: F401
from mmengine.config import Config
from mmrazor.models.fake_quants import register_torch_fake_quants
from mmrazor.models.observers import register_torch_observers
from mmrazor.models.quantizers import (AcademicQuantizer, OpenVINOQuantizer,
                                       TensorRTQuantizer,
                                       TorchNativeQuantizer)
from mmrazor.registry import MODELS
from mmrazor.structures.quantization import QConfigHandler, QSchemeHandler

from symx.tensor import symbolize

from .common import Task

register_torch_observers()
register_torch_fake_quants()

INFO = dict(
    bounds='every bit width 1..16 (scheme), 2..8 (quantisers), both types, '
    'symmetry, symmetric ranges and every pair of observer and fake quantiser '
    'for weights and activations; replacing quantisers with arbitrary '
    'scales, zero points and ranges of 1 or 2 channels',
    outside='what the observers of torch compute; backend configurations, '
    'which this version of torch does not get; rounding of floats')

OBS = ['MinMaxObserver', 'MovingAverageMinMaxObserver', 'LSQObserver',
       'PerChannelMinMaxObserver', 'MovingAveragePerChannelMinMaxObserver',
       'LSQPerChannelObserver']
TENSOR = OBS[:3]
FQ = ['FakeQuantize', 'LearnableFakeQuantize']


def levels(qdtype, bit, narrow):
    if qdtype == 'quint8':
        return 0, 2**bit - 1
    return -2**(bit - 1) + (1 if narrow else 0), 2**(bit - 1) - 1


def scheme_of(sym, per):
    return {(True, True): torch.per_channel_symmetric,
            (False, True): torch.per_channel_affine,
            (True, False): torch.per_tensor_symmetric,
            (False, False): torch.per_tensor_affine}[sym, per]


def scheme(S, bits=16):
    qdtype = S.pick('qdtype', ['quint8', 'qint8'])
    bit = S.int('bit', 1, bits)
    sym, per = S.flag('symmetric'), S.flag('channel')
    narrow = S.pick('narrow', [None, False, True])
    extra = dict(averaging_constant=S.real('avg')) if S.flag('extra') else {}
    kw = dict(extra)
    if narrow is not None:
        kw['is_symmetric_range'] = narrow
    h = QSchemeHandler(qdtype=qdtype, bit=bit, is_symmetry=sym,
                       is_per_channel=per, **kw)
    for _ in range(2):
        p = h.to_observer_params()
        lo, hi = levels(qdtype, bit, bool(narrow))
        S.eq(p['quant_min'], lo, 'least level')
        S.eq(p['quant_max'], hi, 'greatest level')
        S.check(p['dtype'] is getattr(torch, qdtype), 'type')
        S.check(p['qscheme'] is scheme_of(sym, per), 'scheme')
        S.check(p['reduce_range'] is False, 'whole range')
        S.check(('ch_axis' in p) == per and p.get('ch_axis', 0) == 0,
                'channels are outputs')
        if extra:
            S.eq(p['averaging_constant'], extra['averaging_constant'],
                 'further settings are passed on')
        S.check(set(p) <= {'quant_min', 'quant_max', 'dtype', 'qscheme',
                           'reduce_range', 'ch_axis',
                           'averaging_constant'}, 'nothing else')
        p.clear()
    S.raises(AssertionError, QSchemeHandler,
             S.pick('other', ['float', 'qint32', 'int8']), msg='other types')


def part(S, tag, obs, fq, bit=None):
    """a part of a configuration and what it means"""
    qdtype = S.pick(f'{tag}_qdtype', ['quint8', 'qint8'])
    bit = bit or S.pick(f'{tag}_bit', [2, 4, 8])
    sym = S.flag(f'{tag}_sym')
    narrow = S.flag(f'{tag}_narrow') if qdtype == 'qint8' else False
    sch = dict(qdtype=qdtype, bit=bit, is_symmetry=sym)
    if narrow:
        sch['is_symmetric_range'] = True
    cfg = {f'{tag}_observer': dict(type=obs),
           f'{tag}_fake_quant': dict(type=fq), f'{tag}_qscheme': sch}
    return cfg, dict(qdtype=qdtype, bit=bit, sym=sym, narrow=narrow,
                     obs=obs, fq=fq)


def conform(S, ins, want, tag):
    lo, hi = levels(want['qdtype'], want['bit'], want['narrow'])
    per = 'PerChannel' in want['obs']
    S.check(type(ins) is MODELS.get(want['fq']), f'{tag}: fake quantiser')
    obs = ins.activation_post_process
    S.check(type(obs) is MODELS.get(want['obs']), f'{tag}: observer')
    for o, what in ((ins, 'quantiser'), (obs, 'observer')):
        S.check((int(o.quant_min), int(o.quant_max)) == (lo, hi),
                f'{tag}: range of the {what}')
        S.check(o.qscheme is scheme_of(want['sym'], per),
                f'{tag}: scheme of the {what}')
        S.check(o.dtype is getattr(torch, want['qdtype']),
                f'{tag}: type of the {what}')
    S.check(ins.ch_axis == (0 if per else -1), f'{tag}: axis')


def config(S, w_obs, a_obs, w_fq, a_fq):
    wc, w = part(S, 'w', w_obs, w_fq)
    ac, a = part(S, 'a', a_obs, a_fq)
    cfg = {**wc, **ac}
    keep = copy.deepcopy(cfg)
    use = Config(cfg) if S.flag('as_config') else cfg
    h = QConfigHandler(use)
    S.check(cfg == keep, 'the configuration stays')
    q = h.convert()
    for _ in range(2):
        conform(S, q.weight(), w, 'weight')
        conform(S, q.activation(), a, 'activation')
    S.check(q.weight() is not q.weight(), 'every use gets its own')
    h.fixed_w_fakequant()
    q2 = h.convert()
    plain = dict(w, fq='FakeQuantize',
                 obs='PerChannelMinMaxObserver' if 'PerChannel' in w['obs']
                 else 'MinMaxObserver')
    conform(S, q2.weight(), plain, 'fixed weight')
    conform(S, q2.activation(), a, 'activation afterwards')
    conform(S, q.weight(), w, 'weight before')


def observe(S, obs, fq, bit):
    """the quantiser observes and represents with the levels configured"""
    cfg, w = part(S, 'w', obs, fq, bit)
    other, _ = dict(a_observer=dict(type='MinMaxObserver'),
                    a_fake_quant=dict(type='FakeQuantize'),
                    a_qscheme=dict(qdtype='quint8', bit=8)), None
    ins = QConfigHandler({**cfg, **other}).convert().weight()
    symbolize(ins, S, 'state.', skip=('min_val', 'max_val', 'eps'))
    x = S.tensor('x', (2, 1), -4, 4)
    y = ins(x)
    n = 2 if 'PerChannel' in obs else 1
    S.check(ins.scale.numel() == n and ins.zero_point.numel() == n,
            'a scale per channel exactly when configured')
    lo, hi = levels(w['qdtype'], bit, w['narrow'])
    scale, zero = ins.scale.reshape(-1), ins.zero_point.reshape(-1)
    for i in range(n):
        S.check(scale[i] > 0, 'scales are positive')
        S.check((zero[i] >= lo) & (zero[i] <= hi), 'zero point in range')
        if w['sym']:
            mid = 0 if w['qdtype'] == 'qint8' else (lo + hi) // 2
            if bit == 8 and w['qdtype'] == 'quint8':
                S.check((zero[i] == 127) | (zero[i] == 128), 'middle')
            else:
                S.eq(zero[i], mid, 'symmetric: zero is in the middle')
    for r in range(2):
        s, z = scale[r if n > 1 else 0], zero[r if n > 1 else 0]
        S.check((y[r, 0] >= s * (lo - z)) & (y[r, 0] <= s * (hi - z)),
                'values between the least and the greatest level')


def refused(S):
    """incomplete configurations and impossible ranges are refused"""
    wc, _ = part(S, 'w', 'MinMaxObserver', 'FakeQuantize', 8)
    ac, _ = part(S, 'a', 'MinMaxObserver', 'FakeQuantize', 8)
    cfg = {**wc, **ac}
    gone = S.pick('gone', list(cfg))
    how = S.pick('how', ['absent', 'none', 'string'])
    bad = dict(cfg)
    bad.pop(gone)
    if how != 'absent':
        bad[gone] = dict(none=None, string='MinMaxObserver')[how]
    S.check(QConfigHandler.check_qconfig(cfg), 'complete')
    S.check(not QConfigHandler.check_qconfig(bad), 'incomplete')
    S.raises(ValueError, QConfigHandler, bad, msg='incomplete is refused')
    wide = copy.deepcopy(cfg)
    wide['w_qscheme']['bit'] = S.pick('bits', [9, 10, 16])
    q = QConfigHandler(wide).convert()
    S.raises(AssertionError, q.weight, msg='more levels than the type has')


def replace(S, fq, obs, train_zero=False):
    """the quantiser for deployment computes the same function"""
    per = 'PerChannel' in obs
    bit = S.pick('bit', [2, 8])
    qdtype = S.pick('qdtype', ['quint8', 'qint8'])
    sym = S.flag('symmetric')
    n = 2 if per else 1
    kw = {}
    if train_zero:
        kw['zero_point_trainable'] = True
    if 'MovingAverage' in obs:
        kw['averaging_constant'] = 0.5
    sch = QSchemeHandler(qdtype=qdtype, bit=bit, is_symmetry=sym,
                         is_per_channel=per, **kw)
    old = MODELS.get(fq).with_args(observer=MODELS.get(obs),
                                   **sch.to_observer_params())()
    lo, hi = levels(qdtype, bit, False)
    scale = S.tensor('scale', (n, ), 0.01, 4)
    if train_zero:
        zero = S.tensor('zero', (n, ), lo, hi)
    else:
        zero = S.tensor('zero', (n, ), lo, hi, dtype=torch.int32)
    pt = [fq != 'FakeQuantize']
    for name, v in (('scale', scale), ('zero_point', zero)):
        v = v.float() if pt[0] else v
        if name in old._parameters:
            old._parameters[name] = nn.Parameter(v)
        else:
            old._buffers[name] = v
    for m in ('min_val', 'max_val'):
        old.activation_post_process._buffers[m] = S.tensor(
            m, (n, ) if per else ())
    (old.enable_val if fq != 'FakeQuantize' else old.disable_observer)()
    x = S.tensor('x', (2, 1), -6, 6)
    want = old(x)
    cls = QConfigHandler.replace_fakequant
    new = cls(old, sch, update_qparams=True)
    S.check(type(new) is MODELS.get('FakeQuantize'), 'a plain quantiser')
    S.check(type(new.activation_post_process) is MODELS.get(
        'PerChannelMinMaxObserver' if per else 'MinMaxObserver'),
        'a plain observer')
    S.eq(new.scale, scale, 'scales are taken over')
    for m in ('min_val', 'max_val'):
        S.eq(getattr(new.activation_post_process, m),
             getattr(old.activation_post_process, m), f'{m} is taken over')
    new.disable_observer()
    S.eq(new(x), want, 'the same function')
    S.eq(old.scale, scale, 'the old one stays')
    S.eq(old.zero_point.float(), zero.float(), 'the old one stays')
    wrapper = cls(old, sch, update_qparams=False)
    fresh = wrapper()
    conform(S, fresh, dict(qdtype=qdtype, bit=bit, sym=sym, narrow=False,
                           fq='FakeQuantize',
                           obs='PerChannelMinMaxObserver' if per
                           else 'MinMaxObserver'), 'plain')


QUANT = dict(native=TorchNativeQuantizer, tensorrt=TensorRTQuantizer,
             openvino=OpenVINOQuantizer)


def full(w_obs='MinMaxObserver', a_obs='MinMaxObserver', bit=8):
    return dict(
        w_observer=dict(type=w_obs), a_observer=dict(type=a_obs),
        w_fake_quant=dict(type='FakeQuantize'),
        a_fake_quant=dict(type='FakeQuantize'),
        w_qscheme=dict(qdtype='qint8', bit=bit, is_symmetry=True),
        a_qscheme=dict(qdtype='quint8', bit=bit, is_symmetry=False))


def tell(bit, w_obs='MinMaxObserver'):
    return (dict(qdtype='qint8', bit=bit, sym=True, narrow=False,
                 obs=w_obs, fq='FakeQuantize'),
            dict(qdtype='quint8', bit=bit, sym=False, narrow=False,
                 obs='MinMaxObserver', fq='FakeQuantize'))


def backend(S, name):
    """a quantiser takes exactly the schemes its backend supports"""
    S.patch(torch, 'randn', lambda *a, **k: torch.zeros(1))
    w_obs, a_obs = S.pick('w_obs', OBS), S.pick('a_obs', OBS)
    cfg = full(w_obs, a_obs)
    keep = copy.deepcopy(cfg)
    if 'PerChannel' in a_obs:
        S.raises(AssertionError, QUANT[name], global_qconfig=cfg,
                 msg='activations per channel are refused')
        return
    skip = S.pick('skip', [None, [], ['torch.nn.Linear'],
                           ['torch.nn.Linear', 'torch.nn.Conv2d']])
    q = QUANT[name](global_qconfig=cfg, no_observer_modules=skip)
    S.check(cfg == keep, 'the configuration stays')
    m = q.qconfig_mapping
    w, a = tell(8, w_obs)
    a['obs'] = a_obs
    conform(S, m.global_qconfig.weight(), w, 'weight')
    conform(S, m.global_qconfig.activation(), a, 'activation')
    off = {k for k, v in m.object_type_qconfigs.items() if v is None}
    S.check(off == {getattr(nn, s.split('.')[-1]) for s in skip or []},
            'exactly the modules without observers')
    for op in (nn.Sigmoid, nn.Softmax, nn.Tanh):
        S.check(m.object_type_qconfigs.get(op) is not None,
                'operators of fixed range have fixed quantisers')


def academic(S):
    """every part of a mapping gets its own configuration"""
    S.patch(torch, 'randn', lambda *a, **k: torch.zeros(1))
    bits = [2, 3, 4, 5]
    use = [S.flag(f'use{i}') for i in range(4)]
    mapping = {}
    if use[0]:
        mapping['_global_'] = full(bit=bits[0])
    types = [('torch.nn.Conv2d', full(bit=bits[1]))] if use[1] else []
    names = [(n, full('PerChannelMinMaxObserver', bit=b))
             for n, b, u in (('a.b', bits[2], use[2]),
                             ('c', bits[3], use[3])) if u]
    if types:
        mapping['object_type'] = types
    if names:
        mapping['module_name'] = names
    keep = copy.deepcopy(mapping)
    q = AcademicQuantizer(mapping)
    S.check(mapping == keep, 'the mapping stays')
    m = q.qconfig_mapping
    S.check((m.global_qconfig is not None) == use[0], 'global')
    S.check(set(m.object_type_qconfigs) == ({nn.Conv2d} if use[1] else set()),
            'types')
    S.check(list(m.module_name_qconfigs) == [n for n, _ in names], 'names')
    found = []
    if use[0]:
        found.append((m.global_qconfig, bits[0], 'MinMaxObserver'))
    if use[1]:
        found.append((m.object_type_qconfigs[nn.Conv2d], bits[1],
                      'MinMaxObserver'))
    for n, b in (('a.b', bits[2]), ('c', bits[3])):
        if n in m.module_name_qconfigs:
            found.append((m.module_name_qconfigs[n], b,
                          'PerChannelMinMaxObserver'))
    for qc, b, o in found:
        w, a = tell(b, o)
        conform(S, qc.weight(), w, 'weight')
        conform(S, qc.activation(), a, 'activation')


F32 = dict(random=False, dtype='float32', tol=1e-4)
CONC = dict(torch=False, random=False, builtins=False)


def tasks(tier):
    T = []
    deep = tier != 'quick'
    T.append(Task('scheme', scheme, {}, dict(random=False)))
    pairs = [(w, a) for w in OBS for a in OBS] if deep else \
        list(zip(OBS, OBS[3:] + OBS[:3])) + list(zip(OBS, OBS[1:]))
    for w, a in pairs:
        for i, (f, g) in enumerate([(f, g) for f in FQ for g in FQ]):
            if ('LSQ' in w and f != FQ[1]) or ('LSQ' in a and g != FQ[1]):
                continue
            if not deep and i not in (0, 3) and 'LSQ' not in w + a:
                continue
            T.append(Task(f'config-{w}-{a}-{f[:4]}-{g[:4]}', config, dict(
                w_obs=w, a_obs=a, w_fq=f, a_fq=g), CONC))
    for o in ('MinMaxObserver', 'PerChannelMinMaxObserver'):
        for f in FQ:
            for b in (2, 8) if not deep else (2, 3, 4, 8):
                T.append(Task(f'observe-{o}-{f[:4]}-{b}', observe,
                              dict(obs=o, fq=f, bit=b), F32))
    T.append(Task('refused', refused, {}, CONC))
    for f in FQ:
        for o in OBS:
            if ('LSQ' in o) != (f != 'FakeQuantize'):
                continue
            T.append(Task(f'replace-{f[:4]}-{o}', replace, dict(
                fq=f, obs=o), F32))
    for o in ('LSQObserver', 'LSQPerChannelObserver'):
        T.append(Task(f'replace-learned-{o}', replace, dict(
            fq=FQ[1], obs=o, train_zero=True), F32))
    for b in QUANT:
        T.append(Task(f'backend-{b}', backend, dict(name=b), CONC))
    T.append(Task('academic', academic, {}, CONC))
    return T
