#!/usr/bin/env python3
"""Source of /verif/DESIGN.md: the text here, bounds from checks/*.py, and the
figures of the last runs in evidence/."""
import ast
import json
import os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')

HEAD = open(os.path.join(V, 'tools', 'design_head.md')).read()
TAIL = open(os.path.join(V, 'tools', 'design_tail.md')).read()

# what runs symbolically; the oracle it is decided against
HOW = dict(
 C01='The real `forward` of every searchable convolution and linear layer, its `to_static_op` and the forward of what that returns. Weights, biases, inputs and masks are symbolic (masks fork). Oracle: the slice of the original weights, written out with index arithmetic, convolved by the plain operator.',
 C02='As C01 for batch, layer, switchable and progressive norms, in both modes. Oracle: an ordinary norm built on the selected channels (statistics included); the statistics of channels that are not selected must be the same terms as before.',
 C03='Attention (relative positions included), patch embedding, resizer, depth-searchable sequence. Softmax and GELU stay function symbols, so equality of both sides is structural after normalisation of their arguments. Oracle: the exported plain block.',
 C04='`convert_from` of each searchable layer on an ordinary one with arbitrary parameters and settings; outputs and every hyper-parameter compared.',
 C05='Chains of `derive_*` calls of up to three links over symbolic choices, masks and rounding arguments. Oracle: arithmetic on the sources, recomputed after every change of a source.',
 C06='Histories of registrations with symbolic ranges on containers and `IndexDict`. Oracle: a list of booleans kept beside it.',
 C07='`make_divisible`, `UnitMutable` rounding and their callers with symbolic integers and fractions (nonlinear integer arithmetic, divisors enumerated). Oracle: nearest multiple, ties and lower bound as the docstring fixes them.',
 C08='Choices given as counts, ratios or masks to every kind of unit over all widths and ratios within the bounds; the round trips number -> ratio -> number run on the very floats of each width, since they hinge on rounding. Oracle: recount of all governed modules.',
 C09='Histories of set, sample, fix, dump on every kind of search variable, candidates symbolic where they are numbers. Oracle: a little state machine.',
 C10='Forward, sampling and export of differentiable mutables with symbolic architecture parameters and draws; `softmax` with exp as an increasing positive function, normal form `explog` for quotients of exponentials. Oracle: weighted sum written out.',
 C11='Grouping of `NasMutator` / `ChannelMutator` / `OneShot` on generated models whose aliases and couplings are chosen by the solver. Oracle: union-find over aliases and derivations.',
 C12='Export with one network, load in another, run both on a symbolic input with shared symbolic weights; names, aliases, prefixes and nesting enumerated. Oracle: same output; descriptions that are wrong must be refused.',
 C13='Histories of every list operation of `Candidates` with symbolic records. Oracle: a plain list of copies.',
 C14='Crossover and mutation with symbolic draws and genes. Oracle: each gene is one of the parents\' at its own place or a fresh sample.',
 C15='`check_subnet_resources` with symbolic resources and ranges. Oracle: conjunction of interval membership; the estimator is called on the sub-network given.',
 C16='The loop of the evolution search with symbolic scores, resources and draws, split at an arbitrary generation and resumed from what was written. Oracle: sorting networks over symbolic scores.',
 C17='Greedy sampling loops with symbolic draws, scores, iteration numbers. Oracle: schedule formula and pool as a list.',
 C18='`AutoSlimGreedySearchLoop` with symbolic scores, resources, targets; resume at every point. Oracle: step by step argmax.',
 C19='`CalibrateBNMixin` over symbolic batches. Oracle: mean of the per batch statistics, unbiased variance, everything unselected untouched.',
 C20='Schedules over symbolic ratios and iteration counts; the real algorithm over four iterations on a small network, export included.',
 C21='A toy program with functions, methods (inherited, overridden, static) and modules whose results are symbolic; histories of calls, exceptions, entering twice. Oracle: the log the toy program keeps itself.',
 C22='As C21 for deliveries.',
 C23='Configured distillers with toy student and teacher; losses, recorders, connectors, deliveries mapped by the solver\'s choice; histories of steps. Oracle: loss calls recorded at the loss modules; the teacher\'s state identical.',
 C24='Every loss class on symbolic features, temperatures, weights. Oracle: the published formula re-implemented elementwise; equality by polynomial and `explog` normal forms, rest by z3.',
 C25='Counters over symbolic sizes of layers (channels, kernels, spatial extents): closed-form products as integer polynomials. Oracle: multiplications of the definition of each operator; derived networks against their exported static ones.',
 C26='Translation of settings to back ends, every bit width and scheme. Oracle: ranges recomputed from the settings.',
 C27='The real fake quantiser and observers with symbolic values, scales, zero points; sequences of switches. The learnable operator is interpreted by its definition (real arithmetic).',
 C28='Quantiser, GPTQ sweep and bit packing. The sweep runs on symbolic weights with fixed rational statistics (Cholesky computed, then lifted to the solver). Oracle: `obs.compensated`, the published recursion in elimination form, independent of Cholesky.',
 C29='The SparseGPT sweep as in C28; thresholds and masks symbolic by forking on order. Oracle: counts per block and group, least saliency.',
 C30='Fisher information and channel removal with symbolic importances, gradients, activations; histories of steps. Oracle: recomputed sums and argmin over all units.',
 C31='Graph rewriting on generated fx graphs with fake quantisers in all positions; both graphs interpreted on symbolic inputs.',
 C32='Tracing of generated networks (branches, additions, concatenations, groups), every choice, forward and export on symbolic weights. Oracle: a reference interpreter of the generator\'s description.',
 C33='Sampling with the draw as a symbol, so distributions are decided, not estimated: measure of the set of draws that give each index, alias tables as rational arithmetic. Oracle: the exact probabilities.',
 C34='Export of ONNX-like graphs generated by the solver\'s choices: order, reachability and constants checked as graph properties; both graphs evaluated on symbols.',
 C35='Expansion of expandable ops with symbolic weights, forward of both networks on the old channels.',
 C36='`train_step` of slimmable, AutoSlim, BigNAS with recorded optimiser wrappers and symbolic losses. Oracle: the list of networks and losses, gradients of the sum.',
 C37='`Darts.train_step` with real autograd over symbolic weights (polynomial losses). Oracle: derivatives formed symbolically by the check, second order by its published finite difference.',
 C38='Loops with spies for hooks and toggles, symbolic epochs, thresholds, intervals.',
 C39='Validation loops and saving hooks with symbolic metrics; files are loaded again and compared on symbolic inputs.',
 C40='Sampling, widths, channel scaling, schedules and both losses of DMCP with symbolic probabilities and draws.',
 C41='`get_pooled_channel` (softmax of distances, exp increasing with exp(0)=1, ranking decided without forking through `free_sort`), temperature curve, the real algorithm over 4 iterations, export.')

LIMITS = dict(
 C10='The Gumbel noise is an arbitrary positive value per candidate, not a distribution.',
 C24='`log_softmax`/`exp` by algebraic axioms; numerical stability is out of reach.',
 C28='Statistics are fixed sets of rationals: with symbolic statistics the inverse square roots leave the decidable fragment.',
 C29='As C28.',
 C33='The generator behind the draws is assumed uniform.',
 C37='The finite-difference step has a data dependent length (norm): stated exactly, but compared with a relative tolerance.',
 C41='The code multiplies the row probabilities with the mean over the *last* axis broadcast on columns, the comment above it suggests rows; the property pins what the code computes, since neither reading is documented elsewhere.')


def main():
    props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
    out = [HEAD]
    fixed = {}
    for l in open(os.path.join(V, 'KNOWN_FINDINGS.txt')):
        if l.startswith('fixed: property='):
            w = l[len('fixed: property='):].split()
            fixed.setdefault(w[0], []).append(w[1])
    seeds = {}
    d = os.path.join(V, 'seeded')
    for s in sorted(os.listdir(d)):
        m = json.load(open(os.path.join(d, s, 'meta.json')))
        seeds.setdefault(m['property'], []).append(s)
    for p in props:
        c = p['id']
        info = {}
        for n in ast.parse(open(os.path.join(
                V, 'checks', c.lower() + '.py')).read()).body:
            if isinstance(n, ast.Assign) and getattr(
                    n.targets[0], 'id', '') == 'INFO':
                info = {k.arg: ast.literal_eval(k.value)
                        for k in n.value.keywords}
        out.append(f'### {c} {p["title"]}\n')
        out.append(HOW[c] + '\n')
        out.append(f'*Bounds*: {info.get("bounds")}.\n'
                   f'*Outside*: {info.get("outside")}.')
        if c in LIMITS:
            out.append(f'*Limit*: {LIMITS[c]}')
        more = []
        ev = os.path.join(V, 'evidence', c + '.json')
        if os.path.exists(ev):
            e = json.load(open(ev))
            if e.get('tier') == 'quick':
                k = e['coverage']
                more.append('quick run: %s harnesses, %s paths, %s claims' % (
                    k.get('harnesses'), k.get('paths'),
                    k.get('claims_checked')))
        if c in fixed:
            more.append('defects repaired: ' + ', '.join(fixed[c]))
        if c in seeds:
            more.append('planted bugs caught: ' + ', '.join(seeds[c]))
        if more:
            out.append('*' + '; '.join(more) + '.*')
        out.append('')
    out.append(TAIL)
    open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out))
    print(len('\n'.join(out)), 'characters')


main()
