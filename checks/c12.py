"""C12: exporting a sub-network and loading it gives the same choices."""
import copy
import json
import os
import tempfile

import torch
from torch import nn

from mmrazor.models.architectures.dynamic_ops import (DynamicBatchNorm1d,
                                                      DynamicLinear,
                                                      DynamicMixin,
                                                      DynamicSequential)
from mmrazor.models.mutables import (BaseMutable, DerivedMutable,
                                     OneShotMutableChannel, OneShotMutableOP,
                                     OneShotMutableValue,
                                     SquentialMutableChannel)
from mmrazor.structures import (convert_fix_subnet, export_fix_subnet,
                                load_fix_subnet)

from .c09 import NAMES, Scale, cfgs
from .common import Task, same_state, snapshot, symbolize

INFO = dict(
    bounds='networks of up to 4 search variables (operations, values, '
    'channels, derived ones, searchable sequences) under several naming '
    'schemes, aliases and prefixes, every joint choice; parameters and inputs '
    'are arbitrary reals; description passed as an object, as plain '
    'dictionary or as a file; fresh networks built anew or by deep copy',
    outside='larger networks; exporting by channel mutator (see C32)')


# ------------------------------------------------------------------ networks
class Ops(nn.Module):
    """operations at nested names, some sharing an alias"""

    def __init__(self, names, alias):
        super().__init__()
        a, b, c = names
        self.path = names
        setattr(self, a, OneShotMutableOP(cfgs(2), alias=alias[0]))
        inner = nn.Module()
        setattr(inner, b, OneShotMutableOP(cfgs(3), alias=alias[1]))
        setattr(inner, c, OneShotMutableOP(cfgs(2), alias=alias[2]))
        setattr(self, f'{a}_inner', inner)
        self.plain = Scale()

    def forward(self, x):
        a, b, c = self.path
        inner = getattr(self, f'{a}_inner')
        x = getattr(self, a)(x)
        x = getattr(inner, c)(getattr(inner, b)(x))
        return self.plain(x)


class Block(nn.Module):

    def __init__(self, i, o, mi, mo):
        super().__init__()
        self.fc = DynamicLinear(i, o)
        self.bn = DynamicBatchNorm1d(o)
        if mi is not None:
            self.fc.register_mutable_attr('in_channels', mi)
        if mo is not None:
            self.fc.register_mutable_attr('out_channels', mo)
            self.bn.register_mutable_attr('num_features', mo)

    def forward(self, x):
        return self.bn(self.fc(x))


class Channels(nn.Module):
    """two blocks, the width between them is derived"""

    def __init__(self, kind, where, alias, early):
        super().__init__()
        if kind == 'oneshot':
            m = OneShotMutableChannel(2, [1, 2], alias=alias and 'width')
        else:
            m = SquentialMutableChannel(2)
            m.alias = 'width' if alias else None
        r = OneShotMutableValue([1, 2], default_value=2,
                                alias=alias and 'ratio')
        if where == 'attr' and early:
            self.m, self.r = m, r
        mid = m * r
        self.one = Block(2, 4, None, mid)
        self.two = Block(4, 2, mid, None)
        if where == 'attr' and not early:
            self.m, self.r = m, r
        self.hidden = (m, r)

    def forward(self, x):
        return self.two(self.one(x))


class Deep(nn.Module):
    """a searchable sequence of searchable layers"""

    def __init__(self, alias):
        super().__init__()
        m = OneShotMutableValue([1, 2], default_value=2, alias=alias)
        w = SquentialMutableChannel(2)
        self.width = w
        a = DynamicLinear(2, 2)
        a.register_mutable_attr('out_channels', w)
        b = nn.Sequential(DynamicLinear(2, 2), OneShotMutableOP(cfgs(2)))
        b[0].register_mutable_attr('in_channels', w)
        b[0].register_mutable_attr('out_channels', w)
        self.seq = DynamicSequential(a, b)
        self.seq.register_mutable_attr('depth', m)
        self.hidden = (m, )

    def forward(self, x):
        return self.seq(x)


class Wrapper(nn.Module):

    def __init__(self, name, net):
        super().__init__()
        self.inner = name
        setattr(self, name, net)

    def forward(self, x):
        return getattr(self, self.inner)(x)


# ------------------------------------------------------------------- helpers
def variables(net):
    """independent variables of the network in a fixed order"""
    out = []
    for m in net.modules():
        for h in getattr(m, 'hidden', ()):
            if h not in out:
                out.append(h)
        if isinstance(m, BaseMutable) and not isinstance(
                m, DerivedMutable) and m not in out:
            out.append(m)
    return out


def candidates(m):
    if isinstance(m, OneShotMutableChannel):
        return list(m.candidate_choices)
    if isinstance(m, SquentialMutableChannel):
        return list(range(1, m.num_channels + 1))
    return list(m.choices)


def choose(S, net, tag):
    """a joint choice; variables of one alias share it"""
    got, by_alias = [], {}
    for i, m in enumerate(variables(net)):
        if m.alias and m.alias in by_alias:
            c = by_alias[m.alias]
        else:
            c = S.pick(f'{tag}{i}', candidates(m))
            if m.alias:
                by_alias[m.alias] = c
        m.current_choice = c
        got.append(c)
    return got


def share(src, dst):
    """give the fresh network the parameters of the first one"""
    a = dict(src.named_modules())
    for n, m in dst.named_modules():
        for k in m._parameters:
            m._parameters[k] = a[n]._parameters[k]
        for k in m._buffers:
            m._buffers[k] = a[n]._buffers[k]


def searchable(net):
    return [m for m in net.modules() if isinstance(m, DynamicMixin)]


def passed(S, fix, tmp):
    """the ways of handing the description over"""
    how = S.pick('form', ['object', 'plain', 'file'])
    if how == 'object':
        return fix
    plain = convert_fix_subnet(fix)
    if how == 'plain':
        return plain
    fn = os.path.join(tmp, 'subnet.json')
    with open(fn, 'w') as f:
        json.dump(plain, f)
    return fn


def _round(S, build, x_shape, copies=('fresh', ), forms=True, names=None):
    net = build()
    symbolize(net, S, skip=('mutable', 'mask'))
    net.eval()
    chosen = choose(S, net, 'c')
    x = S.tensor('x', x_shape)
    want = net(x)
    before = snapshot(net)
    fix, none = export_fix_subnet(net)
    S.check(none is None, 'no weights unless asked for')
    S.check([m.current_choice for m in variables(net)] == chosen,
            'export leaves the choices')
    S.check(not any(m.is_fixed for m in variables(net)),
            'export fixes nothing')
    same_state(S, net, before, 'export leaves the weights')
    if names is not None:
        S.check(set(fix) == names, 'names of the variables')
    # ---- a fresh network
    how = S.pick('copy', copies)
    if how == 'fresh':
        new = build().eval()
        share(net, new)
    else:
        new = copy.deepcopy(net)
        choose(S, net, 'other')
    given = fix
    with tempfile.TemporaryDirectory() as tmp:
        if forms:
            given = passed(S, fix, tmp)
        load_fix_subnet(new, given)
    S.check(not searchable(new), 'loaded network is static')
    new.eval()
    S.eq(new(x), want, 'loaded network computes what was exported')
    left = [m for m in new.modules() if isinstance(m, BaseMutable)]
    S.check(all(m.is_fixed for m in left), 'loaded variables are fixed')
    return net, chosen, x, want


SCHEMES = [('op_a', 'op_b', 'op_c'), ('conv', 'backbone', 'kernel')]
ALIASES = [(None, None, None), ('g', None, 'g'), ('x', 'y', 'z')]


def ops(S, names, alias):
    a, b, c = names
    full = [a, f'{a}_inner.{b}', f'{a}_inner.{c}']
    _round(S, lambda: Ops(names, alias), (1, ), copies=('fresh', 'deep'),
           names={al or n for al, n in zip(alias, full)})


def channels(S, kind, where, early):
    alias = S.flag('alias') or where == 'hidden'
    _round(S, lambda: Channels(kind, where, alias, early), (1, 2),
           forms=False, copies=('fresh', 'deep') if where == 'attr' else
           ('fresh', ))


def hidden_channels(S):
    """without an alias two variables reachable through a derived one only
    cannot be told apart: refused, never mixed up"""
    def build():
        return Channels('seq', 'hidden', False, False)
    net = build().eval()
    symbolize(net, S, skip=('mutable', 'mask'))
    choose(S, net, 'c')
    x = S.tensor('x', (1, 2))
    want = net(x)
    try:
        fix, _ = export_fix_subnet(net)
    except RuntimeError:
        S.check(True, 'refused')
        return
    new = build().eval()
    share(net, new)
    load_fix_subnet(new, fix)
    S.eq(new(x), want, 'loaded network computes what was exported')


def deep(S):
    alias = S.pick('alias', [None, 'depth'])
    _round(S, lambda: Deep(alias), (1, 2),
           copies=('fresh', 'deep'), forms=False)


def sliced(S, build, x_shape, again=True):
    net = build().eval()
    symbolize(net, S, skip=('mutable', 'mask'))
    chosen = choose(S, net, 'c')
    x = S.tensor('x', x_shape)
    want = net(x)
    before = snapshot(net)
    fix, static = export_fix_subnet(net, slice_weight=True)
    S.check(not searchable(static), 'exported network is static')
    static.eval()
    S.eq(static(x), want, 'exported network')
    S.check([m.current_choice for m in variables(net)] == chosen and
            not any(m.is_fixed for m in variables(net)),
            'export leaves the choices')
    same_state(S, net, before, 'export leaves the weights')
    S.eq(net(x), want, 'the search network after export')
    S.check(len(searchable(net)) == len(searchable(build())),
            'the search network is still searchable')
    if again:
        choose(S, net, 'again')
        S.eq(static(x), want, 'later choices do not reach the export')


def prefixes(S):
    names = S.pick('names', SCHEMES + [('architecture', 'a', 'x')])
    alias = S.pick('alias', ALIASES[:2])
    outer = S.pick('outer', ['architecture', 'backbone', 'a'])
    net = Ops(names, alias).eval()
    symbolize(net, S)
    choose(S, net, 'c')
    x = S.tensor('x', (1, ))
    want = net(x)
    pre = outer + '.'
    how = S.pick('how', ['out', 'in', 'elsewhere'])
    if how == 'elsewhere':
        # a prefix that is none of these names', though found within them
        fix = export_fix_subnet(Wrapper('m', Wrapper(outer, net)))[0]
        inner = Ops(names, alias).eval()
        share(net, inner)
        new = Wrapper('m', Wrapper(outer, inner)).eval()
        load_fix_subnet(new, fix, prefix=pre)
    elif how == 'out':
        # described alone, loaded inside a wrapper
        fix = export_fix_subnet(net)[0]
        inner = Ops(names, alias).eval()
        share(net, inner)
        new = Wrapper(outer, inner).eval()
        load_fix_subnet(new, fix, prefix=pre)
    else:
        # described inside a wrapper, loaded alone
        fix = export_fix_subnet(Wrapper(outer, net))[0]
        new = Ops(names, alias).eval()
        share(net, new)
        load_fix_subnet(new, fix, extra_prefix=pre)
    S.eq(new(x), want, 'network loaded through a prefix')
    # a network whose variables are fixed keeps them
    other = Ops(names, alias)
    last = -S.pick('last', [0, 1])
    for m in variables(other):
        m.current_choice = candidates(m)[last]
    try:
        load_fix_subnet(new, export_fix_subnet(
            other if how == 'in' else Wrapper(outer, other) if how == 'out'
            else Wrapper('m', Wrapper(outer, other)))[0])
    except (RuntimeError, AssertionError, AttributeError):
        pass
    S.eq(new(x), want, 'network that was already loaded')


def rejected(S):
    alias = S.pick('alias', ALIASES)
    names = SCHEMES[0]
    net = Ops(names, alias).eval()
    choose(S, net, 'c')
    fix = export_fix_subnet(net)[0]
    key = S.pick('key', sorted(fix))
    wrong = S.pick('wrong', ['missing', 'foreign', 'both prefixes', 'type',
                             'mode'])
    new = Ops(names, alias).eval()
    kw = {}
    if wrong == 'missing':
        del fix[key]
    elif wrong == 'foreign':
        fix[key] = dict(chosen='no_such_candidate')
    elif wrong == 'both prefixes':
        kw = dict(prefix='a', extra_prefix='b')
    elif wrong == 'type':
        fix = [fix]
    else:
        kw = dict(load_subnet_mode='other')
    S.raises((RuntimeError, AssertionError, TypeError, ValueError),
             load_fix_subnet, new, fix, msg=f'rejected: {wrong}', **kw)


def root(S):
    op = DynamicLinear(2, 2)
    S.raises(RuntimeError, load_fix_subnet, op, {}, msg='root is searchable')


def tasks(tier):
    T = [Task(f'ops-{i}-{j}', ops, dict(names=n, alias=a), dict(cost=9))
         for i, n in enumerate(SCHEMES) for j, a in enumerate(ALIASES)]
    T += [Task('prefixes', prefixes, {}, dict(cost=8)),
          Task('rejected', rejected), Task('root', root),
          Task('deep', deep, {}, dict(cost=3)),
          Task('hidden-channels', hidden_channels)]
    for kind in ('seq', 'oneshot'):
        for where in ('attr', 'hidden'):
            for early in ((True, False) if where == 'attr' else (True, )):
                T.append(Task(f'channels-{kind}-{where}-{int(early)}',
                              channels, dict(kind=kind, where=where,
                                             early=early), dict(cost=4)))
    T.append(Task('slice-ops', sliced, dict(
        build=lambda: Ops(SCHEMES[1], ALIASES[1]), x_shape=(1, ))))
    T.append(Task('slice-deep', sliced, dict(
        build=lambda: Deep(None), x_shape=(1, 2))))
    for kind in ('seq', 'oneshot'):
        T.append(Task(f'slice-channels-{kind}', sliced, dict(
            build=lambda k=kind: Channels(k, 'attr', False, True),
            x_shape=(1, 2))))
    return T
