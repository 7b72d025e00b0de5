"""C14: crossover and mutation only recombine parental and sampled genes."""
import copy
from types import SimpleNamespace

from mmrazor.engine.runner.evolution_search_loop import EvolutionSearchLoop
from mmrazor.engine.runner.utils import crossover
from mmrazor.models.mutators import NasMutator
from mmrazor.structures import Candidates

from .c11 import Net
from .common import Task

INFO = dict(
    bounds='1..4 (quick) or 1..5 (thorough) search groups, elites of 1..3 '
    'candidates, every choice of parents; genes, random draws and the '
    'probability are arbitrary',
    outside='the quality of the process-wide random source: draws are '
    'arbitrary values of its range')


def source(S, child, one, two, prob, made, what):
    """every gene from one of the two, the draws decide how many"""
    S.check(set(child) == set(one), f'{what}: groups of the child')
    n_two, told = 0, True
    for g in one:
        S.check((child[g] == one[g]) | (child[g] == two[g]),
                f'{what}: a gene of one of the two sources')
        if bool(one[g] == two[g]):
            told = False
        elif bool(child[g] == two[g]):
            n_two += 1
    if bool(prob == 0):
        for g in one:
            S.check(child[g] == one[g], f'{what}: probability 0')
    if bool(prob == 1):
        for g in one:
            S.check(child[g] == two[g], f'{what}: probability 1')
    if told and len(made) == len(one):
        # one draw per gene: as many genes as draws below the probability
        below = 0
        for d in made:
            below += 1 if bool(d < prob) else 0
        S.check(n_two == below, f'{what}: the probability decides')


def direct(S, n):
    prob = S.real('prob', 0, 1)
    keys = [0, 1, 'a', 2, 'g'][:n]
    one = {k: S.int(f'one{k}') for k in keys}
    two = {k: S.int(f'two{k}') for k in (keys if n < 2 else
                                          keys[1:] + keys[:1])}
    a, b = copy.copy(one), copy.copy(two)
    child = crossover(one, two, prob=prob)
    S.check(child is not one and child is not two, 'a new candidate')
    for k in keys:
        S.check(one[k] == a[k], 'first parent')
        S.check(two[k] == b[k], 'second parent')
    S.check(list(one) == list(a) and list(two) == list(b), 'parents')
    source(S, child, one, two, prob, S.draws, 'crossover')
    for k in keys:
        child[k] = S.int(f'later{k}')
        S.check(one[k] == a[k], 'the child does not share the parent')
        S.check(two[k] == b[k], 'the child does not share the parent')


def default(S):
    """without a probability both parents count alike"""
    one, two = {0: S.int('a'), 1: S.int('b')}, {0: S.int('c'), 1: S.int('d')}
    child = crossover(one, two)
    source(S, child, one, two, 0.5, S.draws, 'crossover')


def rejects(S):
    prob = S.real('prob')
    S.assume((prob < 0) | (prob > 1))
    S.raises(AssertionError, crossover, {0: 1}, {0: 2}, prob,
             msg='a probability outside 0..1')


def _loop(S, kinds, n_top):
    net = Net(kinds, [None] * len(kinds), [1, 2, 3])
    mt = NasMutator()
    mt.prepare_from_supernet(net)
    loop = EvolutionSearchLoop.__new__(EvolutionSearchLoop)
    loop.model = SimpleNamespace(mutator=mt)
    loop.mutate_prob = S.real('mutate', 0, 1)
    loop.crossover_prob = S.real('cross', 0, 1)
    legal = {g: list(ms[0].choices) for g, ms in mt.search_groups.items()}
    top = []
    for i in range(n_top):
        top.append({g: legal[g][(i + j) % len(legal[g])]
                    for j, g in enumerate(legal)})
    loop.top_k_candidates = Candidates(copy.deepcopy(top))
    return net, mt, loop, legal, top


def _in_pool(S, loop, top, before):
    S.check(loop.top_k_candidates.data == before and
            loop.top_k_candidates.subnets == top, 'the elite is unchanged')


def mutation(S, kinds, n_top):
    net, mt, loop, legal, top = _loop(S, kinds, n_top)
    before = copy.deepcopy(loop.top_k_candidates.data)
    sampled = []
    real = mt.sample_choices
    mt.sample_choices = lambda *a, **k: sampled.append(real(*a, **k)) or \
        dict(sampled[-1])
    state = [m.current_choice for ms in mt.search_groups.values() for m in ms]
    child = loop._mutation()
    _in_pool(S, loop, top, before)
    S.check(state == [m.current_choice for ms in mt.search_groups.values()
                      for m in ms], 'choices of the network')
    S.check(len(sampled) == 1, 'one sample')
    S.check(set(child) == set(legal), 'groups')
    for g, c in child.items():
        S.check(any(c == v for v in legal[g]), 'a legal gene')
        S.check(any(c == t[g] for t in top) or c == sampled[0][g],
                'a gene of an elite candidate or of the sample')
    S.check(any(all(child[g] in (t[g], sampled[0][g]) for g in legal)
                for t in top), 'a single parent')
    if bool(loop.mutate_prob == 0):
        S.check(child in top, 'probability 0 keeps the parent')
    if bool(loop.mutate_prob == 1):
        S.check(child == sampled[0], 'probability 1 takes the sample')
    made = S.draws
    if n_top == 1 and len(made) == len(legal):
        par = top[0]
        if all(par[g] != sampled[0][g] for g in legal):
            below = sum(1 if bool(d < loop.mutate_prob) else 0 for d in made)
            S.check(sum(child[g] != par[g] for g in legal) == below,
                    'the mutation probability decides')
    mt.set_choices(child)
    S.check(all(m.current_choice == child[g]
                for g, ms in mt.search_groups.items() for m in ms),
            'the mutant can be set')


def crossing(S, kinds, n_top):
    net, mt, loop, legal, top = _loop(S, kinds, n_top)
    before = copy.deepcopy(loop.top_k_candidates.data)
    child = loop._crossover()
    _in_pool(S, loop, top, before)
    S.check(any(all(child[g] in (a[g], b[g]) for g in legal)
                for a in top for b in top), 'genes of two elite candidates')
    if bool(loop.crossover_prob == 0) | bool(loop.crossover_prob == 1):
        S.check(child in top, 'probability 0 or 1 copies a parent')
    made = S.draws
    if n_top == 2 and len(made) == len(legal) and child not in top:
        below = sum(1 if bool(d < loop.crossover_prob) else 0 for d in made)
        d = sum(child[g] != top[0][g] for g in legal)
        S.check(below in (d, len(legal) - d),
                'the crossover probability decides')
    child[next(iter(child))] = None
    _in_pool(S, loop, top, before)


def tasks(tier):
    deep = tier == 'thorough'
    out = [Task(f'crossover-{n}', direct, dict(n=n))
           for n in range(1, 6 if deep else 5)]
    out += [Task('default', default), Task('rejects', rejects)]
    sets = [('value', ), ('value', 'op'), ('op', 'value', 'value')]
    for k in sets:
        for n in (1, 2, 3):
            if len(k) == 3 and n == 3 and not deep:
                continue
            nm = f'{"-".join(k)}-{n}'
            out.append(Task(f'mutation-{nm}', mutation,
                            dict(kinds=k, n_top=n)))
            out.append(Task(f'crossing-{nm}', crossing,
                            dict(kinds=k, n_top=n)))
    return out
