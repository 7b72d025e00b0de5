"""C34: exporting quantised graphs keeps order, constants and scales."""
import itertools

import numpy as np
import onnx
from onnx import TensorProto, helper, numpy_helper

from mmrazor.models.quantizers.exporters import openvino_quantize_exporter
from mmrazor.models.quantizers.exporters.openvino_quantize_exporter import \
    OpenVinoQuantizeExportor
from mmrazor.models.quantizers.exporters.optim_utils import ONNXOptimUtils
from mmrazor.models.quantizers.exporters.tensorrt_quantize_exporter import \
    TensorRTExplicitExporter
from symx.tensor import SymArray

from .common import Np, Task

INFO = dict(
    bounds='graphs of up to 3 (thorough: 4) layers out of convolutions with '
    'quantised weights, activations, sums, resizes with an absent input, '
    'effective and ineffective paddings and clips, fake quantisers on any '
    'subset of the values, level bounds shared or not, zero points referring '
    'to each other, one or two outputs; sorting: every wiring and order of 3 '
    '(thorough: 4) nodes of two outputs; every scale, zero point and '
    'pair of level bounds of up to 16 bits for the ranges',
    outside='the export of the torch model to the symbolic graph, control '
    'flow inside the graph, per-channel quantisation along other axes than '
    'the first, rounding of floats, the axis of per-channel quantisation for '
    'TensorRT')


class Builder:

    def __init__(self):
        self.nodes, self.inits, self.n = [], [], 0
        self.values = {}

    def name(self, kind):
        self.n += 1
        return f'/{kind}_{self.n}'

    def init(self, name, value):
        t = numpy_helper.from_array(np.asarray(value))
        t.name = name
        self.inits.append(t)
        return name

    def const(self, value):
        name = self.name('Constant')
        self.nodes.append(helper.make_node(
            'Constant', [], [name + '_out'], name,
            value=numpy_helper.from_array(np.asarray(value))))
        return name + '_out'

    def op(self, kind, inputs, **attrs):
        name = self.name(kind)
        self.nodes.append(helper.make_node(
            kind, inputs, [name + '_out'], name, **attrs))
        return name + '_out'

    def model(self, outputs):
        info = helper.make_tensor_value_info
        g = helper.make_graph(
            self.nodes, 'g', [info('x', TensorProto.FLOAT, [1, 2, 4, 4])],
            [info(o, TensorProto.FLOAT, None) for o in outputs], self.inits)
        return helper.make_model(g)


QTYPES = dict(tensor='FixedPerTensorAffine', channel='FixedPerChannelAffine',
              learnt='LearnablePerTensorAffine')


def fq(b, value, scale, zero, bounds, kind='tensor', axis=None):
    """a fake quantiser as the torch export writes it"""
    extra = [] if axis is None else [axis]
    return b.op(QTYPES[kind], [value, scale, zero] + extra + list(bounds),
                domain='mmrazor')


def tree(model, fqs, what):
    """every output as a nested tuple of what it is computed from"""
    g = model.graph
    made = {o: n for n in g.node for o in n.output}
    data = {i.name: numpy_helper.to_array(i) for i in g.initializer}
    memo = {}

    def array(name):
        if name in data:
            return data[name]
        n = made[name]
        if n.op_type == 'Identity':
            return array(n.input[0])
        return numpy_helper.to_array(n.attribute[0].t)

    def const(name):
        a = array(name)
        return ('const', a.shape, tuple(np.round(
            a.astype(np.float64).reshape(-1), 4).tolist()))

    def go(name):
        if name == '':
            return ''
        if name not in memo:
            memo[name] = make(name)
        return memo[name]

    def make(name):
        if name in data:
            return const(name)
        if name not in made:
            return ('input', name)
        n = made[name]
        if n.op_type == 'Constant':
            return const(name)
        if n.op_type == 'Identity':
            return go(n.input[0])
        if n.op_type in QTYPES.values():
            s, z = array(n.input[1]), array(n.input[2])
            lo, hi = (int(array(i)) for i in n.input[-2:])
            return quantiser(go(n.input[0]), s, z, lo, hi)
        if what == 'openvino' and n.op_type == 'FakeQuantize':
            a = {i.name: i.i for i in n.attribute}
            low, high, lo2, hi2 = (const(i) for i in n.input[1:5])
            return ('fq', go(n.input[0]), low[2], high[2], lo2[2], hi2[2],
                    a['levels'])
        if what == 'tensorrt' and n.op_type == 'DequantizeLinear':
            q = made[n.input[0]]
            if q.op_type != 'QuantizeLinear' or q.input[1:] != n.input[1:]:
                return ('broken', name)
            return ('fq', go(q.input[0]), const(q.input[1])[2],
                    const(q.input[2])[2])
        if n.op_type == 'Pad' and not tree_pads(model, n):
            return go(n.input[0])
        return (n.op_type, tuple(sorted(
            (a.name, str(helper.get_attribute_value(a)))
            for a in n.attribute)), tuple(go(i) for i in n.input))

    def quantiser(x, s, z, lo, hi):
        if what == 'tensorrt':
            return ('fq', x, tuple(np.round(
                s.reshape(-1).astype(np.float64), 4).tolist()),
                    tuple(z.reshape(-1).astype(np.float64).tolist()))
        s, z = (v.reshape(-1).astype(np.float64) for v in (s, z))
        low = tuple(np.round((lo - z) * s, 4).tolist())
        high = tuple(np.round((hi - z) * s, 4).tolist())
        return ('fq', x, low, high, low, high, hi - lo + 1)

    return [go(o.name) for o in g.output]


def ordered(S, model):
    """producers before consumers, every input is there"""
    g = model.graph
    known = {i.name for i in g.input} | {i.name for i in g.initializer} | {''}
    for n in g.node:
        for i in n.input:
            S.check(i in known, 'producers come first')
        for o in n.output:
            S.check(o not in known, 'made once')
            known.add(o)
    for o in g.output:
        S.check(o.name in known, 'outputs are made')
    names = [n.name for n in g.node]
    S.check(len(set(names)) == len(names), 'names differ')
    inits = [i.name for i in g.initializer]
    S.check(len(set(inits)) == len(inits), 'initialisers differ')


def census(model):
    out = {}
    for n in model.graph.node:
        if n.op_type not in ('Constant', 'Identity'):
            out[n.op_type] = out.get(n.op_type, 0) + 1
    return out


def export(S, layers, kinds, backend):
    b = Builder()
    sym = backend == 'tensorrt'
    shared = S.pick('bounds', ['own', 'shared', 'clip', 'kept'])
    zeros, alias = [], S.flag('alias')

    def bounds(weight=False):
        lo, hi = (-128, 127) if sym or weight else (0, 255)
        key = 'w' if weight else 'a'
        if shared == 'own':
            return b.const(np.int64(lo)), b.const(np.int64(hi))
        if key not in b.values:
            if shared == 'kept':
                b.values[key] = (b.init(f'lo-{key}', np.int64(lo)),
                                 b.init(f'hi-{key}', np.int64(hi)))
            else:
                b.values[key] = (b.const(np.int64(lo)),
                                 b.const(np.int64(hi)))
        return b.values[key]

    def zero(n, value):
        if sym:
            value = 0
        v = np.full((n, ), value, np.int32)
        old = [z for z, w in zeros if w.tolist() == v.tolist()]
        if old and alias:
            return b.op('Identity', [old[0]])
        name = b.init(f'zero{b.n}-{len(b.inits)}', v)
        zeros.append((name, v))
        return name

    def activation(v, i):
        s = b.init(f'act{i}.scale', np.float32([.5 + .125 * i]))
        return fq(b, v, s, zero(1, 3 * (i % 2)), bounds(),
                  'learnt' if i == 1 else 'tensor')

    values = ['x']
    if S.flag('fq-x'):
        values.append(activation('x', 0))
    for i in range(layers):
        kind = S.pick(f'kind{i}', kinds)
        v = values[-1]
        if kind == 'conv':
            w = b.init(f'w{i}', np.arange(4, dtype=np.float32).reshape(
                2, 2, 1, 1) + i)
            if i % 2 == 0:
                s = b.init(f'w{i}.scale', np.float32([.25, .75]))
                z = zero(2, 0)
                axis = b.const(np.int64(0))
                wq = fq(b, w, s, z, bounds(True), 'channel', axis)
            else:
                s = b.init(f'w{i}.scale', np.float32([.25]))
                wq = fq(b, w, s, zero(1, 0), bounds(True))
            bias = b.init(f'b{i}', np.float32([1, i]))
            v = b.op('Conv', [v, wq, bias], group=1)
        elif kind == 'relu':
            v = b.op('Relu', [v])
        elif kind == 'add':
            v = b.op('Add', [v, values[S.pick(f'arg{i}',
                                              range(len(values)))]])
        elif kind == 'resize':
            v = b.op('Resize', [v, '', b.const(np.float32([1, 1, 2, 2]))],
                     mode='nearest')
        elif kind == 'clip':
            # ordinary nodes can use the same constants
            lo, hi = bounds() if shared == 'clip' else (
                b.const(np.int64(0)), b.const(np.int64(6)))
            v = b.op('Clip', [v, lo, hi])
        elif kind == 'pad0':
            v = b.op('Pad', [v, b.const(np.int64([0] * 8))], mode='constant')
        else:
            # some paddings take away
            t = -1 if i % 2 else 1
            p = b.const(np.int64([0, 0, t, t, 0, 0, t, t]))
            if kind == 'padvar':
                p = b.op('Cast', [p], to=7)
            v = b.op('Pad', [v, p], mode='constant')
        values.append(v)
        if S.flag(f'fq{i}'):
            values.append(activation(v, i + 1))
            if i == 0 and S.flag('again'):
                # the same value, quantised in another way
                values.append(b.op('Add', [values[-1], activation(v, 7)]))
    outputs = [values[-1]]
    if outputs == ['x']:
        S.assume(False)
    if S.flag('branch'):
        outputs.append(b.op('Sigmoid', ['x']))
    model = b.model(outputs)
    want = tree(model, None, backend)
    before = census(model)
    n_fq = sum(before.pop(k, 0) for k in QTYPES.values())
    pads = sum(1 for n in model.graph.node if n.op_type == 'Pad' and
               not tree_pads(model, n))
    exact = not any(n.op_type == 'Pad' and n.output[0] in outputs and
                    not tree_pads(model, n) for n in model.graph.node)
    saved = []
    S.patch(onnx, 'save', lambda m, path, *a, **k: saved.append((m, path)))
    cls = dict(openvino=OpenVinoQuantizeExportor,
               tensorrt=TensorRTExplicitExporter)[backend]
    cls(model, 'out.onnx').export()
    S.check(len(saved) == 1 and saved[0][1] == 'out.onnx', 'saved once')
    out = saved[0][0]
    ordered(S, out)
    S.check([o.name for o in out.graph.output] == outputs, 'outputs')
    S.check(tree(out, None, backend) == want, 'wiring, constants and ranges')
    after = census(out)
    new = {}
    for k in (['FakeQuantize'] if backend == 'openvino' else
              ['QuantizeLinear', 'DequantizeLinear']):
        new[k] = after.pop(k, 0)
        S.check(new[k] == n_fq, 'one per fake quantiser')
    if exact and pads:
        before['Pad'] -= pads
        before = {k: v for k, v in before.items() if v}
    S.check({k: v for k, v in after.items() if k != 'Pad' or exact} ==
            {k: v for k, v in before.items() if k != 'Pad' or exact},
            'every other node stays')
    used = {i for n in out.graph.node for i in n.input} | set(outputs)
    for n in out.graph.node:
        if n.op_type == 'Constant':
            S.check(n.output[0] in used, 'no constant is left over')


def tree_pads(model, node):
    """whether a padding does anything"""
    for n in model.graph.node:
        if node.input[1] in n.output:
            return n.op_type != 'Constant' or numpy_helper.to_array(
                n.attribute[0].t).any()
    return True


def ordering(S, n):
    """any wiring, in any order, is sorted and otherwise left alone"""
    b = Builder()
    w = b.init('w', np.float32([1]))
    values, nodes = [], []
    for i in range(n):
        last = i == n - 1
        inputs = [S.pick(f'in{i}', ['x'] + ([] if last else [w]) + values)]
        if last:
            more = S.pick('more', [None, ''] + values)
            inputs += [] if more is None else [more]
        outs = [f'v{i}', f'w{i}']
        nodes.append(helper.make_node('Split', inputs, outs, f'/node{i}'))
        values += outs
    order = S.pick('order', list(itertools.permutations(range(n))))
    b.nodes = [nodes[i] for i in order]
    model = b.model([f'v{n - 1}'])
    keep = S.flag('copy')
    before = [str(m) for m in model.graph.node]
    out = ONNXOptimUtils.topo_sort(model, inplace=not keep)
    if keep:
        S.check([str(m) for m in model.graph.node] == before,
                'the given graph stays')
    else:
        S.check(out is model, 'the given graph is sorted')
    S.check(sorted(str(m) for m in out.graph.node) == sorted(before),
            'the nodes stay')
    ordered(S, out)


def ranges(S, n, levels):
    """the range a quantiser defines, for all its parameters"""
    lo, hi = S.pick('levels', levels)
    scale = [S.real(f's{i}', 0, 100, lo_open=True) for i in range(n)]
    zero = [S.int(f'z{i}', lo, hi) for i in range(n)]
    b = Builder()
    w = b.init('w', np.ones((n, 2, 1, 1), np.float32))
    s = b.init('scale', np.ones((n, ), np.float32))
    z = b.init('zero', np.ones((n, ), np.int32))
    wq = fq(b, w, s, z, (b.const(np.int64(lo)), b.const(np.int64(hi))),
            'channel', b.const(np.int64(0)))
    model = b.model([b.op('Conv', ['x', wq])])
    real_to, real_from = numpy_helper.to_array, numpy_helper.from_array
    made = {}

    def symbolic(vals):
        a = np.empty((len(vals), ), dtype=object)
        a[:] = vals
        return a.view(SymArray)

    def to_array(t, *a, **k):
        if t.name in ('scale', 'zero'):
            return symbolic(scale if t.name == 'scale' else zero)
        return real_to(t, *a, **k)

    def from_array(a, *r, **k):
        if isinstance(a, np.ndarray) and a.dtype != object:
            return real_from(a, *r, **k)
        t = TensorProto(int64_data=[len(made)])
        made[len(made)] = a
        return t

    S.patch(numpy_helper, 'to_array', to_array)
    S.patch(numpy_helper, 'from_array', from_array)
    S.patch(openvino_quantize_exporter, 'np', Np(np))
    saved = []
    S.patch(onnx, 'save', lambda m, path, *a, **k: saved.append(m))
    OpenVinoQuantizeExportor(model, 'out.onnx').export()
    g = saved[0].graph
    node, = [n for n in g.node if n.op_type == 'FakeQuantize']

    def value(name):
        t, = [i for i in g.initializer if i.name == name]
        if t.int64_data:
            return made[t.int64_data[0]]
        return real_to(t)

    ends = [value(i) for i in node.input[1:5]]
    for e in ends:
        S.check(e.shape in ([(n, 1, 1, 1)] if n > 1 else
                            [(1, ), (1, 1, 1, 1)]), 'one per channel')
    for k in range(n):
        for e, want in zip(ends, [lo, hi, lo, hi]):
            got = e.reshape(-1)[k]
            S.check(abs(got - (want - zero[k]) * scale[k]) <= .01,
                    'range of the quantiser')
    a = {i.name: i.i for i in node.attribute}
    S.check(a['levels'] == hi - lo + 1, 'levels')


OPT = dict(torch=False, random=False)


def tasks(tier):
    T = []
    deep = tier != 'quick'
    menus = [('conv', 'relu', 'add'), ('conv', 'resize', 'clip'),
             ('conv', 'pad0', 'pad', 'padvar')]
    for backend in ('openvino', 'tensorrt'):
        for m in menus:
            T.append(Task(f'export-{backend}-{m[1]}', export, dict(
                layers=3 if deep else 2, kinds=m, backend=backend), dict(
                    OPT, max_paths=10**6)))
    for n in (2, 3, 4) if deep else (2, 3):
        T.append(Task(f'ordering-{n}', ordering, dict(n=n), dict(
            OPT, max_paths=10**6)))
    for n in (1, 2, 3):
        T.append(Task(f'ranges-{n}', ranges, dict(
            n=n, levels=[(0, 255), (-128, 127), (-127, 127), (0, 15),
                         (0, 65535)]), OPT))
    return T
