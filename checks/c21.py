"""C21: recorders capture what ran and leave the program as it was."""
import sys
import types

import torch
from torch import nn

from mmrazor.models.task_modules import RecorderManager

from .common import Task

INFO = dict(
    bounds='every set of up to 3 recorders in every order out of 12 kinds '
    '(inputs and outputs of functions, methods, inherited, overridden and '
    'static methods, modules; parameters), sources shared or not; every '
    'sequence of up to 2 (quick) or 3 (thorough) calls out of 9 with '
    'arbitrary arguments and results, any of which may raise; recording '
    'repeated; a recorder that cannot start',
    outside='keyword arguments a function takes only through **kwargs; '
    'values changed in place after they were recorded; a manager entered '
    'again while it is active; an inherited method recorded through the '
    'subclass before the base class')


class Boom(Exception):
    pass


class Toys:
    """a little program of its own, built anew for every path"""

    def __init__(self, S):
        self.S, self.log, self.n = S, [], 0
        toys = self

        def result(what, *args):
            toys.n += 1
            # a function may also return nothing
            r = [S.int(f'result{toys.n}')] if toys.n % 3 != 2 else None
            toys.log.append((what, list(args), r))
            return r

        def f(a, b=0):
            if a == 'boom':
                raise Boom
            return result('f', a, b)

        class Toy:

            def m(self, a, b=0):
                if a == 'boom':
                    raise Boom
                return result('m', a, b)

            def n(self, a, b=0):
                return result('n', a, b)

            @staticmethod
            def s(a, b=0):
                return result('s', a, b)

        class Sub(Toy):

            def n(self, a, b=0):
                return result('sub.n', a, b)

        class Part(nn.Module):

            def __init__(self, what):
                super().__init__()
                self.w = nn.Parameter(torch.ones(1))
                self.what = what

            def forward(self, x):
                return result(self.what, x)

        class Net(nn.Module):

            def __init__(self):
                super().__init__()
                self.one = Part('one')
                self.two = nn.Sequential(Part('two'))

            def forward(self, x):
                return self.two(self.one(x))

        mod = types.ModuleType('symx_toys')
        mod.f, mod.Toy, mod.Sub, mod.NOT = f, Toy, Sub, 3
        for c in (Toy, Sub):
            c.__module__ = 'symx_toys'
        S.patch(sys, 'modules', dict(sys.modules, symx_toys=mod))
        self.mod, self.net = mod, Net()
        self.toy, self.sub = Toy(), Sub()
        self.before = self.state()

    def state(self):
        return [dict(vars(x)) for x in (self.mod, self.mod.Toy,
                                        self.mod.Sub)]

    def restored(self, msg):
        same = True
        for a, b in zip(self.before, self.state()):
            a = {k: v for k, v in a.items() if k[:2] != '__'}
            b = {k: v for k, v in b.items() if k[:2] != '__'}
            same &= set(a) == set(b) and all(a[k] is b[k] for k in a)
        self.S.check(same, msg)

    def call(self, what, x, y):
        """-> what ran, the inputs as given, the returned value"""
        m = self.mod
        if what == 'f':
            return ['f'], [x, y], m.f(x, y)
        if what == 'f kw':
            return ['f'], [x, y], m.f(b=y, a=x)
        if what == 'm':
            return ['m'], [x, y], self.toy.m(x, b=y)
        if what == 'sub.m':
            return ['m', 'sub.m'], [x], self.sub.m(x)
        if what == 'n':
            return ['n'], [x, y], self.toy.n(x, y)
        if what == 'sub.n':
            return ['sub.n'], [x, y], self.sub.n(x, y)
        if what == 's':
            return ['s'], [x, y], self.toy.s(x, y)
        if what == 'cls.s':
            return ['s'], [x, y], m.Toy.s(x, b=y)
        if what == 'net':
            return ['net'], [x], self.net(x)
        if what == 'f boom':
            return None, None, m.f('boom')
        assert what == 'm boom'
        return None, None, self.sub.m('boom')


CALLS = ['f', 'f kw', 'm', 'sub.m', 'n', 'sub.n', 's', 'cls.s', 'net']
BOOMS = ['f boom', 'm boom']
KINDS = {
    'f out': ('FunctionOutputs', 'symx_toys.f'),
    'f in': ('FunctionInputs', 'symx_toys.f'),
    'm out': ('MethodOutputs', 'symx_toys.Toy.m'),
    'm in': ('MethodInputs', 'symx_toys.Toy.m'),
    'sub.m out': ('MethodOutputs', 'symx_toys.Sub.m'),
    'n out': ('MethodOutputs', 'symx_toys.Toy.n'),
    'sub.n out': ('MethodOutputs', 'symx_toys.Sub.n'),
    's out': ('MethodOutputs', 'symx_toys.Toy.s'),
    's in': ('MethodInputs', 'symx_toys.Toy.s'),
    'one out': ('ModuleOutputs', 'one'),
    'two in': ('ModuleInputs', 'two'),
    'two.0 w': ('Parameter', 'two.0.w'),
}


def run(S, toys, i, allow_boom, calls=CALLS):
    """one call; -> what the kinds of recorders must have got"""
    what = S.pick(f'call{i}', calls + (BOOMS if allow_boom else []))
    x, y = S.int(f'x{i}'), S.int(f'y{i}')
    start = len(toys.log)
    ran, given, out = toys.call(what, x, y)
    new = toys.log[start:]
    S.check(out is new[-1][2], 'the result is the one of the program')
    want = {}
    if ran == ['net']:
        S.check([n[0] for n in new] == ['one', 'two'], 'the network runs')
        S.check(new[1][1][0] is new[0][2], 'and passes its values on')
        want['one out'] = [new[0][2]]
        want['two in'] = [(new[0][2], )]
    else:
        S.check(len(new) == 1, 'one call is one call')
        S.check(new[0][1][0] is x and (len(given) < 2 or new[0][1][1] is y),
                'the arguments are the ones given')
        for r in ran:
            want[r + ' out'] = [new[0][2]]
            want[r + ' in'] = [given]
    return want


def same(S, got, want, msg):
    S.check(len(got) == len(want), f'{msg}: number of records')
    for g, w in zip(got, want):
        if isinstance(w, (list, tuple)) and not (g is w):
            S.check(type(g) is type(w) and len(g) == len(w) and all(
                a is b for a, b in zip(g, w)), f'{msg}: record')
        else:
            S.check(g is w, f'{msg}: record')


def record(S, kinds, calls, rounds):
    toys = Toys(S)
    names = [f'r{i}' for i in range(len(kinds))]
    man = RecorderManager({n: dict(type=KINDS[k][0], source=KINDS[k][1])
                           for n, k in zip(names, kinds)})
    man.initialize(toys.net)
    toys.restored('building recorders changes nothing')
    related = [c for c in CALLS if any(
        c.split()[0].split('.')[-1] == k.split()[0].split('.')[-1]
        for k in kinds)]
    if any(k[0] in 'ot' for k in kinds):
        related.append('net')
    if len(related) < len(CALLS):
        related += [c for c in CALLS if c not in related][:1]
    for rnd in range(rounds):
        want = {k: [] for k in kinds}
        i0 = 10 * rnd
        try:
            with man:
                for i in range(i0, i0 + calls - (1 if rnd else 0)):
                    for k, v in run(S, toys, i, True, related).items():
                        if k in want:
                            want[k] += v
        except Boom:
            pass
        toys.restored('the original functions and methods are back')
        run(S, toys, i0 + 9, False, related[rnd:rnd + 1])
        for n, k in zip(names, kinds):
            rec = man.get_recorder(n)
            if k == 'two.0 w':
                want[k] = [toys.net.two[0].w]
            same(S, rec.data_buffer, want[k], k)
            for j, w in enumerate(want[k]):
                same(S, [rec.get_record_data(j)], [w], f'{k} by index')
                if isinstance(w, (list, tuple)):
                    S.check(rec.get_record_data(j, 0) is w[0],
                            f'{k}: part of a record')
            S.raises(AssertionError, rec.get_record_data, len(want[k]),
                     msg='a record that does not exist is an error')


def cannot_start(S, kinds):
    """nothing stays wrapped when one of the recorders cannot start"""
    toys = Toys(S)
    at = S.pick('at', range(len(kinds) + 1))
    bad = S.pick('bad', ['symx_toys.missing', 'symx_toys.NOT',
                         'symx_nowhere.f'])
    cfg = {f'r{i}': dict(type=KINDS[k][0], source=KINDS[k][1])
           for i, k in enumerate(kinds)}
    items = list(cfg.items())
    items.insert(at, ('bad', dict(type='FunctionOutputs', source=bad)))
    man = RecorderManager(dict(items))
    man.initialize(toys.net)

    def enter():
        with man:
            pass

    S.raises((AssertionError, TypeError, ImportError), enter,
             msg='an impossible source is an error')
    toys.restored('nothing stays wrapped')
    want = run(S, toys, 0, False)
    for (n, k) in zip(cfg, kinds):
        if k == 'two.0 w':
            continue
        same(S, man.get_recorder(n).data_buffer, [],
             'nothing is recorded afterwards')
    del want


def tasks(tier):
    deep = tier == 'thorough'
    out = []
    names = list(KINDS)
    sets = [(k, ) for k in names]
    # every pair of recorders of one source, both ways round, and mixtures
    related = [('f out', 'f in'), ('m out', 'm in'), ('m out', 'sub.m out'),
               ('m in', 'sub.m out'), ('n out', 'sub.n out'),
               ('s out', 's in'), ('one out', 'two in'),
               ('two in', 'two.0 w')]
    late = 'sub.m out'
    sets += related + [p[::-1] for p in related if p[1] != late]
    sets += [(k, k) for k in names if k != 'two.0 w']
    sets += [('m out', 'm in', 'sub.m out'), ('f out', 'f in', 'f out'),
             ('f in', 'm out', 'one out')]
    if deep:
        sets += [(a, b) for a in names for b in names
                 if a != b and (a, b) not in sets and
                 (a != late or b not in ('m out', 'm in'))]
        sets += [(a, b, a) for a, b in related]
    for ks in sets:
        # identical kinds share one expectation
        out.append(Task('record ' + ' + '.join(ks), record, dict(
            kinds=ks, calls=3 if deep else 2, rounds=2),
            dict(time=400, max_paths=60000)))
    for ks in [('f out', 'f in'), ('m out', 'm in'), ('sub.m out', 'one out'),
               ('s in', 'f out', 'm out')]:
        out.append(Task('cannot start ' + ' + '.join(ks), cannot_start,
                        dict(kinds=ks), dict(time=200)))
    return out
