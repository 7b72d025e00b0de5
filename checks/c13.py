"""C13: a candidate pool keeps its entries, their order and their records."""
import copy

from mmrazor.structures.subnet import Candidates

from .common import Task

INFO = dict(
    bounds='every sequence of up to 3 (quick) or 4 (thorough) operations '
    'among append, insert, extend (with plain, recorded, listed or pooled '
    'items), set, update, sort, slice, copy, pop and remove, on pools of up '
    'to 4 entries; resources and scores are arbitrary reals, so every order '
    'and every tie is covered',
    outside='longer histories; candidates that are neither dictionaries nor '
    'lists or pools of them')

IND = ('score', 'flops', 'params', 'latency')


class Model:
    """the entries the history implies: (subnet, record) in order"""

    def __init__(self, S):
        self.S, self.n = S, 0

    def real(self, what):
        self.n += 1
        return self.S.real(f'{what}{self.n}')

    def item(self, kind):
        """-> what is given to the pool, the entries it stands for"""
        S = self.S
        self.n += 1
        sub = {'a': self.n, 'b': f'op_{self.n % 2}'}
        if kind == 'plain':
            return sub, [(sub, {k: -1 for k in IND})]
        if kind == 'recorded':
            rec = {'score': self.real('score')}
            if S.flag(f'more{self.n}'):
                rec.update({k: self.real(k) for k in IND[1:]})
            full = {k: rec.get(k, 0.) for k in IND}
            return {str(sub): rec}, [(sub, full)]
        if kind == 'list':
            one, e1 = self.item('plain')
            two, e2 = self.item('recorded')
            return [one, two], e1 + e2
        if kind == 'twice':
            one, e = self.item('recorded')
            return [one, one], e + [(e[0][0], dict(e[0][1]))]
        assert kind == 'pool'
        one, e1 = self.item('list')
        return Candidates(one), e1


def _copy(x):
    return Candidates(copy.deepcopy(x.data)) if isinstance(
        x, Candidates) else copy.deepcopy(x)


def _same(S, a, b, msg):
    """same plain structure, records compared by the solver"""
    if isinstance(a, Candidates):
        a, b = a.data, b.data
    if isinstance(a, list):
        S.check(isinstance(b, list) and len(a) == len(b), msg)
        for x, y in zip(a, b):
            _same(S, x, y, msg)
    elif isinstance(a, dict):
        S.check(isinstance(b, dict) and list(a) == list(b), msg)
        for k in a:
            _same(S, a[k], b[k], msg)
    elif isinstance(a, str):
        S.check(a == b, msg)
    else:
        S.check(a == b, msg)


def observe(S, pool, want, what, scores=True):
    S.check(len(pool) == len(want), f'{what}: number of candidates')
    raw = copy.deepcopy(pool.data)
    if want:
        S.check(pool.subnets == [w[0] for w in want], f'{what}: candidates')
    for k in IND[1:]:
        got = pool.resources(k)
        S.check(len(got) == len(want), f'{what}: number of {k}')
        for g, (_, rec) in zip(got, want):
            S.check(g == rec[k], f'{what}: {k}')
    for d, (sub, rec) in zip(pool.data, want):
        S.check(list(d) == [str(sub)], f'{what}: key of an entry')
        (v, ) = d.values()
        S.check(set(v) == set(IND), f'{what}: indicators of an entry')
        S.check(v['score'] == rec['score'], f'{what}: score')
    if scores:
        got = pool.scores
        S.check(len(got) == len(want), f'{what}: number of scores')
        for g, (_, rec) in zip(got, want):
            e = g - rec['score']
            S.check((e <= 0.00501) & (e >= -0.00501),
                    f'{what}: score to two decimals')
    _same(S, raw, pool.data, f'{what}: reading changes nothing')


ADD = ('plain', 'recorded', 'list', 'twice', 'pool')


def step(S, M, t, pool, want, ops, others, inds=IND):
    op = S.pick(f'op{t}', ops)
    if op in ('append', 'insert', 'extend', 'new'):
        kinds = ADD if op != 'insert' else ('plain', 'recorded')
        given, entries = M.item(S.pick(f'kind{t}', kinds))
        keep = _copy(given)
        pos = len(want)
        if op == 'insert':
            pos = S.pick(f'pos{t}', range(len(want) + 1))
            pool.insert(pos, given)
        elif op == 'append':
            pool.append(given)
        elif op == 'extend':
            pool.extend(given)
        else:
            pool, want, pos = Candidates(given), [], 0
        _same(S, keep, given, 'the given input is not modified')
        want = want[:pos] + entries + want[pos:]
        if isinstance(given, Candidates):
            others.append((given, [(s, dict(r)) for s, r in entries]))
        return pool, want
    n = len(want)
    if op == 'set':
        if not n:
            S.assume(False)
        i = S.pick(f'at{t}', range(n))
        k = S.pick(f'ind{t}', inds)
        v = M.real('set')
        if k == 'score' and S.flag(f'direct{t}'):
            pool.set_score(i, v)
        else:
            pool.set_resource(i, v, k)
        want[i] = (want[i][0], dict(want[i][1], **{k: v}))
    elif op == 'update':
        start = S.pick(f'start{t}', range(n + 1))
        m = S.pick(f'len{t}', range(1, n + 2))
        res = [{k: M.real(k) for k in IND[1:2 + (j % 3)]} for j in range(m)]
        keep = copy.deepcopy(res)
        if start + m > n:
            try:
                pool.update_resources(res, start)
                S.check(False, 'too many records are rejected')
            except AssertionError:
                pass
        else:
            pool.update_resources(res, start)
            for j in range(m):
                want[start + j] = (want[start + j][0],
                                   dict(want[start + j][1], **res[j]))
        _same(S, keep, res, 'the given records are not modified')
    elif op == 'sort':
        k = S.pick(f'ind{t}', inds)
        rev = S.flag(f'rev{t}')
        if k == 'score' and rev and S.flag(f'default{t}'):
            pool.sort_by()
        else:
            pool.sort_by(k, rev)
        # stable insertion sort
        out = []
        for e in want:
            j = len(out)
            while j and (out[j - 1][1][k] < e[1][k] if rev else
                         e[1][k] < out[j - 1][1][k]):
                j -= 1
            out.insert(j, e)
        want = out
    elif op == 'slice':
        k = S.pick(f'top{t}', range(n + 1))
        how = S.pick(f'how{t}', ('data', 'pool'))
        new = Candidates(pool.data[:k]) if how == 'data' else pool[:k]
        others.append((pool, [(s, dict(r)) for s, r in want]))
        pool, want = new, want[:k]
    elif op == 'copy':
        new = Candidates(pool)
        others.append((pool, [(s, dict(r)) for s, r in want]))
        pool = new
    elif op == 'pop':
        if not n:
            S.assume(False)
        i = S.pick(f'at{t}', range(n))
        if S.flag(f'del{t}'):
            del pool[i]
        else:
            pool.pop(i)
        want = want[:i] + want[i + 1:]
    return pool, want


def history(S, first, ops, steps, inds=IND):
    M = Model(S)
    given, want = M.item(first)
    keep = _copy(given)
    pool = Candidates(given)
    _same(S, keep, given, 'the given input is not modified')
    want = list(want)
    others = []
    for t in range(steps):
        pool, want = step(S, M, t, pool, want, ops, others, inds)
    observe(S, pool, want, 'pool')
    for o, w in others:
        observe(S, o, w, 'another pool', scores=False)


def empty(S):
    a = Candidates()
    b = Candidates()
    a.append({'a': 1})
    S.check(len(b) == 0 and len(a) == 1, 'pools do not share entries')
    observe(S, a, [({'a': 1}, {k: -1 for k in IND})], 'pool')
    try:
        b.subnets
        S.check(False, 'an empty pool has no candidates')
    except AssertionError:
        pass


def two_level(S):
    """candidates of value and channel variables together"""
    n = S.pick('n', [1, 2])
    items, subs = [], []
    for i in range(n):
        v = {'op': S.pick(f'op{i}', ['x', 'y'])}
        c = {'unit': S.pick(f'unit{i}', [4, 8])}
        subs.append({'value_subnet': dict(v), 'channel_subnet': dict(c)})
        items.append({'value_subnet': v, 'channel_subnet': c})
    keep = copy.deepcopy(items)
    pool = Candidates(items)
    _same(S, keep, items, 'the given input is not modified')
    for i in range(n):
        r, s = S.real(f'r{i}'), S.real(f's{i}')
        pool.set_resource(i, r, 'flops')
        pool.set_score(i, s)
    S.check(pool.subnets == subs, 'candidates of two levels')
    S.check(pool.subnets == subs, 'reading changes nothing')
    before = [pool.data[i]['value_subnet']['flops'] for i in range(n)]
    rev = S.flag('rev')
    pool.sort_by('flops', rev)
    for i in range(n - 1):
        a = pool.data[i]['value_subnet']['flops']
        b = pool.data[i + 1]['value_subnet']['flops']
        S.check(a >= b if rev else a <= b, 'sorted')
    S.check(len(pool.data) == len(before), 'nothing lost')


def tasks(tier):
    T = []
    quick = tier == 'quick'
    inds = ('score', 'params') if quick else IND
    every = ('append', 'insert', 'extend', 'new', 'set', 'update', 'sort',
             'slice', 'copy', 'pop')
    for first in ADD:
        for op in every:
            # the last operations differ by harness: split for parallelism
            T.append(Task(f'history-{first}-{op}', two, dict(
                first=first, op=op, inds=inds,
                rest=every if not quick else (
                    'append', 'set', 'update', 'sort', 'pop')),
                dict(cost=3)))
    for first in ('twice', 'list', 'pool'):
        T.append(Task(f'order-{first}', history, dict(
            first=first, ops=('append', 'set', 'sort'), steps=2 if quick else 3, inds=inds),
            dict(cost=20)))
    T.append(Task('empty', empty))
    T.append(Task('two-level', two_level))
    return T


def two(S, first, op, rest, inds):
    M = Model(S)
    given, want = M.item(first)
    pool, want, others = Candidates(given), list(want), []
    for t, ops in enumerate(((op, ), rest)):
        pool, want = step(S, M, t, pool, want, ops, others, inds)
    observe(S, pool, want, 'pool')
    for o, w in others:
        observe(S, o, w, 'another pool', scores=False)
