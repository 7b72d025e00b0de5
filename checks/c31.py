"""C31: deleting fake quantisers keeps the rest of the computation."""
import operator

import torch
from torch import fx, nn
from torch.ao.quantization.fake_quantize import FakeQuantizeBase

from mmrazor.models.quantizers.native_quantizer import TorchNativeQuantizer
from mmrazor.models.task_modules.tracer.fx import (
    del_fakequant_after_function, del_fakequant_after_method,
    del_fakequant_after_module, del_fakequant_after_op,
    del_fakequant_before_function, del_fakequant_before_method,
    del_fakequant_before_module, del_fakequant_before_op)

from .common import Task

INFO = dict(
    bounds='every graph of one input, up to 3 (thorough: 4) nodes that are '
    'fake quantisers, other modules, methods, functions of one or two values '
    'or of a list of values, keyword arguments, and one, two or named outputs; every input; '
    'each of the eight functions, in place or not, and all of them in a row',
    outside='fake quantisers called twice, fake quantisers fed directly by '
    'another one, fake quantisers inside other modules')

FACTORS = [2., 3., 5., 7., 11., 13.]


class FQ(FakeQuantizeBase):
    """multiplies, so that leaving it out shows"""

    def __init__(self, k):
        super().__init__()
        self.k = k

    def forward(self, x):
        return x * self.k + 1

    def calculate_qparams(self):
        return None


class Mul(nn.Module):

    def __init__(self, k):
        super().__init__()
        self.k = k

    def forward(self, x):
        return x * self.k


class Target(Mul):
    pass


class Pair(Target):

    def forward(self, x, y):
        return x * self.k - y


def double(x):
    return x + x


def join(values, scale=1):
    r = 0
    for i, v in enumerate(values):
        r = r + v * (i + scale)
    return r


def keyed(x=None, y=None):
    return x - 3 * y


# what a node can be: (name, number of inputs)
def menu(by, deep):
    out = [('fq', 1), ('other', 1)]
    if by != 'op':
        out.append(('target', 1))
    if by == 'module':
        out.append(('pair', 2))
        out.append(('pairkw', 2))
    elif by == 'function':
        out.append(('join', 2))
    if deep or by in ('op', 'method'):
        out.append(('list', 2))
    if deep or by in ('op', 'function'):
        out.append(('kw', 2))
    return out


def build(S, n, by, deep):
    """an arbitrary graph"""
    root = nn.Module()
    g = fx.Graph()
    values = [g.placeholder('x')]
    kinds = {'x': 'input'}
    opts = menu(by, deep)
    for i in range(n):
        kind, k = S.pick(f'kind{i}', opts)
        args = [values[S.pick(f'arg{i}{j}', range(len(values)))]
                for j in range(k)]
        name = f'n{i}'
        f = FACTORS[i]
        if kind == 'fq':
            if kinds[args[0].name] == 'fq':
                S.assume(False)
            root.add_module(f'fq{i}', FQ(f))
            v = g.create_node('call_module', f'fq{i}', tuple(args), {}, name)
        elif kind in ('pair', 'pairkw') or (kind == 'target' and
                                            by == 'module'):
            root.add_module(f'm{i}', (Target if kind == 'target' else Pair)(f))
            a, kw = tuple(args), {}
            if kind == 'pairkw':
                a, kw = (args[0], ), dict(y=args[1])
            v = g.create_node('call_module', f'm{i}', a, kw, name)
            kind = 'target'
        elif kind == 'target' and by == 'method':
            v = g.create_node('call_method', 'neg', tuple(args), {}, name)
        elif kind == 'target' and by == 'function':
            v = g.create_node('call_function', double, tuple(args), {}, name)
        elif kind == 'join':
            v = g.create_node('call_function', join, (args, ), {}, name)
            kind = 'target'
        elif kind == 'list':
            v = g.create_node('call_function', torch.stack, (args, ),
                              {}, name)
            v = g.create_node('call_method', 'sum', (v, 0), {}, name + 's')
        elif kind == 'kw':
            v = g.create_node('call_function', keyed, (),
                              dict(x=args[0], y=args[1]), name)
        else:
            root.add_module(f'o{i}', Mul(f))
            v = g.create_node('call_module', f'o{i}', tuple(args), {}, name)
        kinds[v.name] = kind
        values.append(v)
    how = S.pick('out', ['one', 'dict', 'two'][:3 if deep else 2] if by == 'op' else ['one'])
    if how == 'one':
        g.output(values[-1])
    elif how == 'two':
        g.output((values[-1], values[S.pick('o2', range(len(values)))]))
    else:
        g.output({'a': values[-1], 'b': [values[max(0, len(values) - 2)]]})
    kinds['output'] = 'output'
    for node in g.nodes:
        kinds.setdefault(node.name, 'plain')
    return fx.GraphModule(root, g), kinds


def inputs_of(node):
    out = []

    def walk(a):
        if isinstance(a, fx.Node):
            if a not in out:
                out.append(a)
        elif isinstance(a, dict):
            for v in a.values():
                walk(v)
        elif isinstance(a, (list, tuple)):
            for v in a:
                walk(v)

    walk(node.args)
    walk(node.kwargs)
    return out


def above(node, kinds):
    """the nearest quantisers on every way up"""
    if kinds[node.name] == 'fq':
        return {node.name}
    r = set()
    for p in inputs_of(node):
        r |= above(p, kinds)
    return r


def evaluate(gm, drop, x):
    """the original graph with some quantisers replaced by identity"""
    env = {}

    def get(a):
        return fx.node.map_arg(a, lambda n: env[n.name])

    for n in gm.graph.nodes:
        if n.op == 'placeholder':
            env[n.name] = x
        elif n.op == 'output':
            return get(n.args[0])
        elif n.name in drop:
            env[n.name] = get(n.args[0])
        elif n.op == 'call_module':
            env[n.name] = gm.get_submodule(n.target)(
                *get(n.args), **get(n.kwargs))
        elif n.op == 'call_method':
            a = get(n.args)
            env[n.name] = getattr(a[0], n.target)(*a[1:], **get(n.kwargs))
        else:
            env[n.name] = n.target(*get(n.args), **get(n.kwargs))


def flat(y):
    if isinstance(y, dict):
        return [t for k in sorted(y) for t in flat(y[k])]
    if isinstance(y, (list, tuple)):
        return [t for v in y for t in flat(v)]
    return [y]


def selected(gm, kinds, by, when):
    out = set()
    for n in gm.graph.nodes:
        is_target = kinds[n.name] == 'target'
        if by == 'op':
            is_target = n.op in ('output', 'call_method') \
                if when == 'before' else n.op in ('placeholder',
                                                  'call_method')
        if not is_target:
            continue
        if when == 'after':
            out |= {u.name for u in n.users if kinds[u.name] == 'fq'}
        elif by == 'module':
            out |= {p.name for p in inputs_of(n) if kinds[p.name] == 'fq'}
        else:
            for p in inputs_of(n):
                out |= above(p, kinds)
    return out


DELETE = dict(
    before=dict(op=del_fakequant_before_op, method=del_fakequant_before_method,
                function=del_fakequant_before_function,
                module=del_fakequant_before_module),
    after=dict(op=del_fakequant_after_op, method=del_fakequant_after_method,
               function=del_fakequant_after_function,
               module=del_fakequant_after_module))
PATTERN = dict(method=('neg', 'other'), function=(double, join),
               module=(Target, ))


def describe(gm, kinds, drop=()):
    """every other node with what feeds it"""
    src = {}
    rows = []
    for n in gm.graph.nodes:
        if n.name in drop:
            src[n.name] = src[n.args[0].name]
            continue
        src[n.name] = n.name
        rows.append((n.name, n.op, n.target,
                     str(fx.node.map_arg(n.args, lambda m: src[m.name])),
                     str(fx.node.map_arg(n.kwargs, lambda m: src[m.name]))))
    return rows


def delete(S, n, by, when, deep):
    gm, kinds = build(S, n, by, deep)
    inplace = S.flag('inplace') if deep else True
    drop = selected(gm, kinds, by, when)
    if by == 'op':
        pattern = ('output', 'call_method') if when == 'before' else (
            'placeholder', 'call_method')
    else:
        pattern = PATTERN[by]
    x = S.tensor('x', (1, ), -10, 10)
    want = flat(evaluate(gm, drop, x))
    full = flat(evaluate(gm, (), x))
    rows = describe(gm, kinds, drop)
    before = describe(gm, kinds)
    mods = {n.name: n.target for n in gm.graph.nodes if kinds[n.name] == 'fq'}
    old = dict(gm.named_modules())
    out = DELETE[when][by](gm, pattern, inplace=inplace)
    S.check((out is gm) == inplace, 'in place or a copy')
    S.check(describe(out, kinds) == rows, 'nodes and wiring')
    for name, target in mods.items():
        S.check(hasattr(out, target) == (name not in drop),
                'modules of the quantisers')
    S.check({k for k, _ in out.named_modules()} ==
            set(old) - {mods[d] for d in drop}, 'other modules stay')
    got = flat(out(x))
    S.check(len(got) == len(want), 'outputs')
    for a, b in zip(got, want):
        S.eq(a, b, 'output')
    if not inplace:
        S.check(describe(gm, kinds) == before, 'the original stays')
        for a, b in zip(flat(gm(x)), full):
            S.eq(a, b, 'output of the original')


EXTRA = dict(
    extra_op_next_wo_fakequant=('placeholder', ),
    extra_module_prev_wo_fakequant=(Target, ),
    extra_module_next_wo_fakequant=(Target, ),
    extra_function_prev_wo_fakequant=(double, ),
    extra_function_next_wo_fakequant=(double, ),
    extra_method_prev_wo_fakequant=('neg', ),
    extra_method_next_wo_fakequant=('neg', ),
    extra_op_prev_wo_fakequant=('output', ))


def configured(S):
    """a quantizer deletes what its configuration lists, nothing else"""
    root = nn.Module()
    g = fx.Graph()
    v = g.placeholder('x')
    kinds, which = {'x': 'input'}, {}
    keys = iter(EXTRA)

    def add(kind, target=None, op='call_module', key=None):
        nonlocal v
        i = len(kinds)
        if op == 'call_module':
            target = f'{kind}{i}'
            root.add_module(target, dict(fq=FQ, o=Mul, t=Target)[kind](
                1 + i / 8))
        v = g.create_node(op, target, (v, ), {}, f'n{i}')
        kinds[v.name] = kind
        if key:
            which[key] = v.name

    add('fq', key=next(keys))
    for args in (('t', ), ('f', double, 'call_function'),
                 ('m', 'neg', 'call_method')):
        for k in ('o', 'fq', 'o'):
            add(k)
        add('fq', key=next(keys))
        add(*args)
        add('fq', key=next(keys))
    for k in ('o', 'fq', 'o'):
        add(k)
    add('fq', key=next(keys))
    g.output(v)
    kinds['output'] = 'output'
    gm = fx.GraphModule(root, g)
    q = TorchNativeQuantizer.__new__(TorchNativeQuantizer)
    on = [k for k in EXTRA if S.flag(k)]
    q.extra_redundant_fakequants = {k: EXTRA[k] for k in on}
    drop = {which[k] for k in on}
    x = S.tensor('x', (1, ), -10, 10)
    want = evaluate(gm, drop, x)
    rows = describe(gm, kinds, drop)
    out = q.del_redundant_fakequant(gm)
    S.check(describe(out, kinds) == rows, 'nodes and wiring')
    S.eq(out(x), want, 'output')


OPT = dict(random=False)


def tasks(tier):
    T = []
    deep = tier != 'quick'
    for by in ('op', 'method', 'function', 'module'):
        for when in ('before', 'after'):
            T.append(Task(f'{when}-{by}', delete, dict(
                n=3, by=by, when=when, deep=deep), dict(
                    OPT, max_paths=10**6)))
            T.append(Task(f'{when}-{by}-2', delete, dict(
                n=2, by=by, when=when, deep=True), OPT))
            if deep:
                T.append(Task(f'{when}-{by}-4', delete, dict(
                    n=4, by=by, when=when, deep=False), dict(
                        OPT, max_paths=10**6)))
    T.append(Task('configured', configured, {}, OPT))
    return T
