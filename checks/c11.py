"""C11: a mutator's groups partition the search space and couple equals."""
import torch
from torch import nn

from mmrazor.models.architectures.dynamic_ops import (DynamicConv2d,
                                                      DynamicSequential)
from mmrazor.models.mutables import (MutableChannelContainer,
                                     OneShotMutableChannel, OneShotMutableOP,
                                     OneShotMutableChannelUnit,
                                     OneShotMutableValue)
from mmrazor.models.mutators import NasMutator

from .c09 import NAMES, cfgs
from .common import Task

INFO = dict(
    bounds='networks of 1..4 value or operation variables in a nested module '
    'tree, aliases none/a/b, up to two custom groups given by names or '
    'aliases in any arrangement, values derived from one or two variables '
    '(registered in the network or not), channel units of two searchable '
    'convolutions; candidates and choices set are arbitrary integers',
    outside='more variables; variables of different kinds sharing an alias')


class Net(nn.Module):

    def __init__(self, kinds, aliases, cands):
        super().__init__()
        self.body = nn.Module()
        self.vars = []
        for i, (k, al) in enumerate(zip(kinds, aliases)):
            if k == 'value':
                m = OneShotMutableValue(list(cands), alias=al)
            else:
                m = OneShotMutableOP(cfgs(2), alias=al)
            # half of them nested
            holder = self.body if i % 2 else self
            setattr(holder, f'm{i}', m)
            self.vars.append(('body.' if i % 2 else '') + f'm{i}')

    def var(self, i):
        return self.get_submodule(self.vars[i])


def expected(S, names, aliases, custom):
    """independent statement of the grouping; None when it is illegal"""
    all_alias = {a for a in aliases if a}
    seen, parts = set(), []
    used = [k for g in custom for k in g]
    for k in used:
        if k not in all_alias and k not in names:
            return None
    if len(set(used)) != len(used):
        return None
    for g in custom:
        part = []
        for k in g:
            part += [i for i in range(len(names))
                     if (aliases[i] == k if k in all_alias else names[i] == k)]
        if seen & set(part) or len(set(part)) != len(part):
            return None
        seen |= set(part)
        parts.append(set(part))
    for a in all_alias:
        part = {i for i in range(len(names)) if aliases[i] == a} - seen
        if part:
            parts.append(part)
            seen |= part
    parts += [{i} for i in range(len(names)) if i not in seen]
    return parts


def groups(S, mt, variables, parts, what):
    """the groups are exactly the parts"""
    got = []
    for g, ms in mt.search_groups.items():
        S.check(len({id(m) for m in ms}) == len(ms), f'{what}: no repetition')
        got.append(frozenset(id(m) for m in ms))
    want = [frozenset(id(variables[i]) for i in p) for p in parts]
    S.check(len(got) == len(want), f'{what}: number of groups')
    S.check(set(got) == set(want), f'{what}: groups')
    return {id(m): g for g, ms in mt.search_groups.items() for m in ms}


def choices(S, mt, variables, own, cands, kinds, turns=2):
    def legal(i):
        return (list(variables[i].choices))

    before = None
    for t in range(turns):
        op = S.pick(f'op{t}', ['set', 'sample', 'max', 'min']) if all(
            k == 'value' for k in kinds) else S.pick(f'op{t}',
                                                     ['set', 'sample'])
        if op == 'set':
            ch = {}
            for g, ms in mt.search_groups.items():
                ch[g] = S.pick(f'{g}{t}', list(ms[0].choices))
        elif op == 'sample':
            ch = mt.sample_choices()
        elif op == 'max':
            ch = mt.max_choices
            S.eq(ch, mt.sample_choices('max'), 'maximum')
            for g in ch:
                S.eq(ch[g], mt.search_groups[g][0].max_choice, 'maximum')
        else:
            ch = mt.min_choices
            S.eq(ch, mt.sample_choices('min'), 'minimum')
            for g in ch:
                S.eq(ch[g], mt.search_groups[g][0].min_choice, 'minimum')
        S.check(list(ch) == list(mt.search_groups), 'a choice per group')
        for i, v in enumerate(variables):
            S.check(any(c is ch[own[id(v)]] or c == ch[own[id(v)]]
                        for c in legal(i)), 'legal choice')
        if before is not None:
            S.eq(mt.current_choices, before, 'drawing choices sets nothing')
        if op == 'set' and t == turns - 1 and S.flag('apart'):
            # members may have been changed on their own before
            for ms in mt.search_groups.values():
                for v in ms[1:]:
                    v.current_choice = list(v.choices)[
                        0 if v.current_choice != v.choices[0] else -1]
        if op == 'max' and S.flag(f'direct{t}'):
            mt.set_max_choices()
        elif op == 'min' and S.flag(f'direct{t}'):
            mt.set_min_choices()
        else:
            mt.set_choices(ch)
        for v in variables:
            S.eq(v.current_choice, ch[own[id(v)]], 'choice of each member')
        S.eq(mt.current_choices, ch, 'choices read back')
        before = dict(ch)


def plain(S, kinds, custom=True, turns=1, wide=False):
    n = len(kinds)
    aliases = [S.pick(f'al{i}', [None, 'a', 'b'] if i > 1 else [None, 'a'])
               for i in range(n)]
    for i in range(n):
        for j in range(i):
            if kinds[i] != kinds[j] and aliases[i] and \
                    aliases[i] == aliases[j]:
                S.assume(False)
    cands = None
    if 'value' in kinds:
        lo = S.int('lo', -5, 5)
        cands = [lo, lo + S.int('d', 1, 5)]
    net = Net(kinds, aliases, cands)
    given = []
    if custom:
        keys = net.vars + ['a'] + (['nothing'] if n < 3 else [])
        where = {k: S.pick('where_' + k, [None, 0, 1] if n < 3 or wide else
                           [None, 0]) for k in keys}
        given = [[k for k in keys if where[k] == g] for g in (0, 1)]
        given = [g for g in given if g]
        if len({kinds[i] for g in given for i in range(n)
                if net.vars[i] in g or aliases[i] in g}) > 1 or any(
                    len({kinds[i] for i in range(n)
                         if net.vars[i] in g or aliases[i] in g}) > 1
                    for g in given):
            S.assume(False)
    variables = [net.var(i) for i in range(n)]
    parts = expected(S, net.vars, aliases, given)
    mt = NasMutator(custom_groups=given)
    if parts is None:
        S.raises(AssertionError, mt.prepare_from_supernet, net,
                 msg='illegal custom groups are rejected')
        return
    mt.prepare_from_supernet(net)
    own = groups(S, mt, variables, parts, 'prepared')
    first = list(mt.search_groups)
    choices(S, mt, variables, own, cands, kinds, turns)
    mt.prepare_from_supernet(net)
    groups(S, mt, variables, parts, 'prepared again')
    S.check(list(mt.search_groups) == first, 'same group names')


def derived(S, n, turns=2):
    """derived values add no freedom; their sources are found once"""
    lo = S.int('lo', 1, 5)
    net = nn.Module()
    variables, aliases = [], []
    shared = S.flag('shared')
    for i in range(n):
        aliases.append(S.pick(f'al{i}', [None, 'a']))
        v = OneShotMutableValue([lo, lo + 1], alias=aliases[-1])
        variables.append(v)
        if S.flag(f'reg{i}'):
            setattr(net, f'v{i}', v)
        else:
            setattr(net, f'd{i}', v * 2)
        if shared:
            net.add_module(f'e{i}', v.derive_same_mutable())
    if n > 1 and S.flag('both'):
        # one value computed from two variables
        from mmrazor.models.mutables import DerivedMutable
        a, b = variables[0], variables[1]
        net.add_module('f', DerivedMutable(
            choice_fn=lambda: a.current_choice + b.current_choice))
    parts = expected(S, [f'v{i}' for i in range(n)], aliases, [])
    mt = NasMutator()
    mt.prepare_from_supernet(net)
    own = groups(S, mt, variables, parts, 'prepared')
    choices(S, mt, variables, own, None, ['value'] * n, turns)
    for name, d in net.named_children():
        if name.startswith('d'):
            S.eq(d.current_choice, variables[int(name[1])].current_choice * 2,
                 'derived value follows')
    if hasattr(net, 'f'):
        S.eq(net.f.current_choice,
             sum(v.current_choice for v in variables[:2]), 'derived sum')


def both_sources(S):
    """two variables only reachable through one derived value"""
    from mmrazor.models.mutables import DerivedMutable
    lo = S.int('lo', 1, 5)
    al = [S.pick('a', [None, 'x']), S.pick('b', [None, 'x', 'y'])]
    a, b = (OneShotMutableValue([lo, lo + 1], alias=i) for i in al)
    net = nn.Module()
    net.f = DerivedMutable(
        choice_fn=lambda: a.current_choice * 10 + b.current_choice)
    mt = NasMutator()
    mt.prepare_from_supernet(net)
    own = groups(S, mt, [a, b], expected(S, ['p', 'q'], al, []), 'prepared')
    choices(S, mt, [a, b], own, None, ['value'] * 2, 2)
    S.eq(net.f.current_choice, a.current_choice * 10 + b.current_choice,
         'derived value')


class ChannelNet(nn.Module):

    def __init__(self, w, cand, with_value):
        super().__init__()
        OneShotMutableChannelUnit  # noqa
        self.c1 = DynamicConv2d(1, w, 1)
        self.c2 = DynamicConv2d(w, w, 1)
        self.c3 = DynamicConv2d(w, 1, 1)
        if with_value:
            self.v = OneShotMutableValue([1, 2])
        OneShotMutableChannelUnit._register_channel_container(
            self, MutableChannelContainer)
        a = OneShotMutableChannel(w, list(cand))
        b = OneShotMutableChannel(w, list(cand))
        reg = MutableChannelContainer.register_mutable_channel_to_module
        reg(self.c1, a, True)
        reg(self.c2, a, False)
        reg(self.c2, b, True)
        reg(self.c3, b, False)
        self.ab = [a, b]


def channel(S, w):
    k = S.pick('k', range(1, w))
    net = ChannelNet(w, [k, w], S.flag('value'))
    mt = NasMutator()
    mt.prepare_from_supernet(net)
    chan = {g: ms for g, ms in mt.search_groups.items()
            if g.startswith('channel')}
    S.check(len(chan) == 2, 'a group per unit')
    S.check(len(mt.search_groups) == 2 + hasattr(net, 'v'), 'all groups')
    sides = [(net.c1, net.c2), (net.c2, net.c3)]
    ch = {g: S.pick(f'ch{i}', [k, w] if g in chan else [1, 2])
          for i, g in enumerate(mt.search_groups)}
    op = S.pick('op', ['set', 'sample', 'max', 'min'])
    if op == 'set':
        mt.set_choices(ch)
    elif op == 'sample':
        ch = mt.sample_choices()
        mt.set_choices(ch)
    elif op == 'max':
        mt.set_max_choices()
        ch = {g: w if g in chan else 2 for g in mt.search_groups}
    else:
        mt.set_min_choices()
        ch = {g: k if g in chan else 1 for g in mt.search_groups}
    S.eq(mt.current_choices, ch, 'read back')
    # the units in order of the network
    got = []
    for a, b in sides:
        o = a.get_mutable_attr('out_channels').current_mask.tolist()
        i = b.get_mutable_attr('in_channels').current_mask.tolist()
        S.eq(o, i, 'coupled masks')
        S.check(sum(o) in (k, w), 'legal width')
        got.append(sum(o))
    S.eq(sorted(got), sorted(ch[g] for g in chan), 'widths are the choices')
    S.eq(got, [ch[g] for g in chan], 'widths per unit')
    S.check(all(net.c1.get_mutable_attr('in_channels').current_mask.tolist()),
            'input untouched')
    if hasattr(net, 'v'):
        g = [g for g in ch if g not in chan][0]
        S.eq(net.v.current_choice, ch[g], 'value')


def tasks(tier):
    T = []
    th = tier != 'quick'
    for kinds in (('value', ), ('op', ), ('value', 'value'), ('value', 'op'),
                  ('op', 'op')):
        T.append(Task('plain-' + '-'.join(kinds), plain,
                      dict(kinds=kinds, turns=1 + th), dict(cost=20)))
    T.append(Task('plain-3', plain, dict(kinds=('value', ) * 3, turns=1, wide=th),
                  dict(cost=100)))
    T.append(Task('alias-4', plain, dict(kinds=('value', ) * 4, turns=1,
                                         custom=False), dict(cost=50)))
    if th:
        T.append(Task('plain-4', plain, dict(kinds=('value', ) * 4, turns=1),
                      dict(cost=200)))
        T.append(Task('plain-op-3', plain, dict(
            kinds=('value', 'op', 'value'), turns=1), dict(cost=200)))
    for n in (1, 2) + ((3, ) if th else ()):
        T.append(Task(f'derived-{n}', derived, dict(n=n, turns=1 + (th or n == 1)),
                      dict(cost=30)))
    T.append(Task('both-sources', both_sources, {}, dict(cost=10)))
    for w in (2, 3) + ((5, ) if th else ()):
        T.append(Task(f'channel-{w}', channel, dict(w=w), dict(cost=10)))
    return T
