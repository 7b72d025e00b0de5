#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one dict per property)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d['anchors']['observe_at'] = list(observe)
    P.append(d)
M = 'mmrazor/models/'

p('C01', 'Searchable conv and linear layers equal their exported static layer',
  'For every channel choice, kernel-size choice and channel mask, a searchable convolution or linear layer, depthwise, grouped or progressive-kernel ones included, produces on every input exactly the output of the fixed layer it exports, and of an ordinary layer holding the selected rows and columns of its weight. '
  'The exported layer carries the chosen channel counts, groups, kernel size and padding, and exporting does not change the searchable layer.',
  ['inputs', 'configurations'], 'all weights, inputs, in/out masks and kernel choices of a layer',
  'Tests draw one random weight, input and a few choices per layer type; equality is claimed for every mask (not only prefixes), kernel size and weight.',
  [M+'architectures/dynamic_ops/bricks/dynamic_conv.py', M+'architectures/dynamic_ops/bricks/dynamic_linear.py', M+'architectures/dynamic_ops/mixins/dynamic_conv_mixins.py', M+'architectures/dynamic_ops/mixins/dynamic_mixins.py'],
  [('mask slicing of weight and bias', 'dynamic_conv_mixins.py: get_dynamic_params'), ('progressive kernel crop/transform', 'dynamic_conv_mixins.py: BigNasConvMixin, OFAConvMixin'), ('export', 'to_static_op')],
  observe=['layer output', 'exported layer output and attributes'])

p('C02', 'Searchable normalisation layers match plain ones and isolate statistics',
  'For every channel mask a searchable batch or layer normalisation computes, in training and in evaluation mode, exactly what an ordinary normalisation over the selected channels computes, and its exported static layer computes the same. '
  'A training step updates running statistics only of the selected channels, with the values an ordinary layer would obtain; a switchable normalisation keeps the statistics of every width choice separate.',
  ['inputs', 'configurations', 'histories'], 'all inputs, affine parameters, statistics and masks; histories of forward steps under changing choices',
  'Tests check shapes and single random samples; leakage of statistics into unselected channels or other widths needs particular choice histories.',
  [M+'architectures/dynamic_ops/bricks/dynamic_norm.py', M+'architectures/dynamic_ops/mixins/dynamic_mixins.py'],
  [('masked batch norm', 'dynamic_norm.py: _DynamicBatchNorm.forward'), ('layer norm', 'dynamic_norm.py: DynamicLayerNorm'), ('per-choice batch norm', 'dynamic_norm.py: SwitchableBatchNorm2d')],
  state=[('running statistics', 'per channel mean and variance', 'module buffers')])

p('C03', 'Searchable attention, embedding and sequence blocks equal their export',
  'For every choice of embedding width, query width, head count and depth, the searchable attention, patch-embedding, relative-position, input-resizer and sequential blocks compute on every input what the fixed block they export computes, and a searchable sequence runs exactly its first chosen number of children. '
  'Choices never read outside the selected slice of the parameters.',
  ['inputs', 'configurations'], 'all weights, inputs and joint choices within small sizes',
  'Tests export at the maximal or one fixed choice on one random input.',
  [M+'architectures/dynamic_ops/bricks/dynamic_container.py', M+'architectures/dynamic_ops/bricks/dynamic_embed.py', M+'architectures/dynamic_ops/bricks/dynamic_relative_position.py', M+'architectures/dynamic_ops/bricks/dynamic_function.py', M+'architectures/ops/transformer_series.py'],
  [('depth-limited sequence', 'dynamic_container.py: DynamicSequential'), ('sliced attention projections', 'transformer_series.py / dynamic_container'), ('relative position tables', 'dynamic_relative_position.py')])

p('C04', 'Converting an ordinary layer to a searchable one preserves its function',
  'Building a searchable layer from an ordinary layer keeps every hyper-parameter of that layer (or refuses a layer it cannot represent, such as one padding with other values than zero), and once the ordinary layer\'s state is loaded the searchable layer computes the same function on every input while no choice has been made or all channels are selected.',
  ['inputs', 'configurations'], 'all hyper-parameter combinations (stride, padding, padding mode, dilation, groups, bias, eps, momentum, affine, tracking) and inputs',
  'Tests convert a default-configured layer; a dropped hyper-parameter shows only for non-default values.',
  [M+'architectures/dynamic_ops/bricks/dynamic_conv.py', M+'architectures/dynamic_ops/bricks/dynamic_linear.py', M+'architectures/dynamic_ops/bricks/dynamic_norm.py', M+'architectures/dynamic_ops/bricks/dynamic_embed.py', M+'architectures/ops/mobilenet_series.py'],
  [('conversion constructors', 'convert_from classmethods')])

p('C05', 'Derived channel numbers and masks always track their sources',
  'A derived search variable (same, concatenated, expanded or divided) reports at every moment the choice and mask its rule yields from the current choices of its sources, and its number of active channels equals its reported choice. '
  'Chained derivations and computed ratios keep tracking later changes of any source, and derived values cannot be set independently.',
  ['inputs', 'histories', 'configurations'], 'all source channel counts, choices, masks, expansion ratios and sequences of changes',
  'Tests fix one width and ratio; disagreement between derived choice and derived mask appears at particular ratios or non-divisible widths.',
  [M+'mutables/derived_mutable.py', M+'mutables/mutable_channel/sequential_mutable_channel.py', M+'mutables/mutable_value/mutable_value.py'],
  [('choice and mask derivation', 'derived_mutable.py: _expand/_divide/_concat choice and mask functions'), ('operator sugar', 'sequential_mutable_channel.py: __mul__, __floordiv__; mutable_value.py')])

p('C06', 'A tensor\'s channel mask is the in-order concatenation of its registered units',
  'When channel ranges of a tensor are registered to channel units, in any order and with any gaps, the tensor\'s mask is for every choice exactly the concatenation, by position, of the units\' masks, unregistered positions are always kept, and the number of current channels equals the number of kept positions. '
  'Overlapping or reversed ranges are rejected and never corrupt what was registered before.',
  ['inputs', 'histories', 'configurations'], 'all registration orders, range layouts, unit choices within small widths',
  'Tests register one or two adjacent ranges; gaps, out-of-order registration and overlaps are combinatorial.',
  [M+'mutables/mutable_channel/mutable_channel_container.py', M+'mutables/mutable_channel/simple_mutable_channel.py', 'mmrazor/utils/index_dict.py'],
  [('mask concatenation', 'mutable_channel_container.py: current_mask'), ('gap filling', 'mutable_channel_container.py: _fill_unregistered_range'), ('ordered range dictionary', 'index_dict.py')])

p('C07', 'Channel rounding returns a nearby multiple and never drops too far',
  'Rounding a requested channel count to a divisor returns a multiple of the divisor that is at least the required minimum (itself a multiple) and never below the requested lower fraction of the request, and is the nearest multiple when that one already satisfies those bounds. '
  'The channel units round counts, ratios and candidate lists by the same contract, limited to the width of the unit.',
  ['inputs'], 'all integer and fractional requests, divisors, minimum values and lower fractions',
  'No test of this function exists beyond incidental use; rounding boundaries are rare inputs.',
  [M+'utils/make_divisible.py', M+'mutables/mutable_channel/units/sequential_mutable_channel_unit.py', M+'mutables/mutable_channel/units/one_shot_mutable_channel_unit.py', M+'mutables/derived_mutable.py'],
  [('rounding rule', 'make_divisible.py: make_divisible')])

p('C08', 'Channel units translate choices faithfully between counts, ratios and masks',
  'Setting a legal choice on a channel unit, as a count or as a ratio, makes the unit and every channel it governs keep exactly that many positions; reading it back and setting it again changes nothing, minimum, maximum and sampled choices are legal, and rounding to the divisor stays within range. '
  'Norm-ranked units keep the channels of largest norm.',
  ['inputs', 'configurations', 'histories'], 'all widths, divisors, minimum values and ratios, candidate lists, weights',
  'Tests use one or two widths; float truncation and rounding break single width/ratio pairs.',
  [M+'mutables/mutable_channel/units/sequential_mutable_channel_unit.py', M+'mutables/mutable_channel/units/one_shot_mutable_channel_unit.py', M+'mutables/mutable_channel/units/l1_mutable_channel_unit.py', M+'mutables/mutable_channel/units/slimmable_channel_unit.py', M+'mutables/mutable_channel/units/utils.py', M+'mutables/mutable_channel/oneshot_mutable_channel.py', M+'mutables/mutable_channel/sequential_mutable_channel.py'],
  [('count/ratio conversion', 'sequential_mutable_channel_unit.py: _ratio2num,_num2ratio'), ('candidate preparation', 'one_shot_mutable_channel_unit.py: prepare_candidate_choices'), ('norm ranking', 'l1_mutable_channel_unit.py: _generate_mask')])

p('C09', 'A search variable only ever takes legal values and can be fixed once',
  'A value search variable accepts only its declared candidates and rejects others leaving its choice unchanged, an operation search variable never runs or is fixed to anything but a declared candidate, and samples, minimum and maximum are members of the candidates. '
  'Fixing a variable is possible only once (a second attempt raises and changes nothing); an operation then keeps exactly the chosen candidate, and its forward result equals the one this candidate gave before fixing. The dumped choice names the current choice and fixes an identical variable to the same one; configurations and lists given are not modified.',
  ['inputs', 'histories', 'configurations'], 'all candidate sets within small sizes, choices, inputs and operation sequences',
  'Tests walk one sequence per class; orders such as dump, fix, set or fixing with a foreign value are unexplored.',
  [M+'mutables/mutable_module/one_shot_mutable_module.py', M+'mutables/mutable_module/mutable_module.py', M+'mutables/mutable_value/mutable_value.py', M+'mutables/base_mutable.py', M+'mutables/mutable_channel/oneshot_mutable_channel.py'],
  [('fix once', 'fix_chosen'), ('choice setters', 'current_choice / choices'), ('mask-based forward', 'one_shot_mutable_module.py: forward_choice')])

p('C10', 'Differentiable choices mix by probabilities and export the strongest candidate',
  'A differentiable search variable in the searching stage outputs the sum of its candidates weighted by probabilities that are non-negative, sum to one and follow the architecture parameters of its group (for one-hot variables: the output of one sampled candidate, and once the lead of the strongest reaches the threshold it is fixed to that one); the exported choice is the candidate of largest parameter, or for a route the configured number of strongest inputs. '
  'After fixing, its output is that of the exported choice alone.',
  ['inputs', 'configurations'], 'all architecture parameters, inputs, temperatures and candidate counts within small sizes',
  'Tests check that a forward runs; the weighting and arg-max claims are about all parameter values.',
  [M+'mutables/mutable_module/diff_mutable_module.py', M+'mutators/nas_mutator.py'],
  [('probabilities', 'compute_arch_probs'), ('weighted forward', 'forward_arch_param'), ('export', 'dump_chosen'), ('parameter scatter', 'nas_mutator.py: sample_choices/modify_supernet_forward')])

p('C11', 'A mutator\'s groups partition the search space and couple equals',
  'Preparing a mutator from a network puts every independent search variable in exactly one group, groups those that share an alias, user group or name, and gives derived variables no freedom of their own. '
  'Setting choices gives each member of a group the same choice, leaves other groups untouched, reads back identically, and sampled choices cover every group with a legal value.',
  ['inputs', 'configurations', 'programs'], 'all assignments of aliases, custom groups and derivation links over a small number of variables',
  'Tests use a handful of group layouts; missing or duplicated membership depends on combinations of alias, custom group and derivation.',
  [M+'mutators/nas_mutator.py', M+'mutators/group_mixin.py', M+'mutators/base_mutator.py'],
  [('grouping', 'group_mixin.py: build_search_groups'), ('joint set', 'nas_mutator.py: set_choices')])

p('C12', 'An exported sub-network reproduces the searched choice when loaded',
  'Exporting the current sub-network of a search network and loading that description into a fresh copy yields exactly the exported choices, in slice mode a static network, and nothing else in the network changes. '
  'Names, prefixes and derived variables survive the round trip (unnamed variables that could not be told apart are refused), and a description lacking a variable of the network or choosing a foreign candidate is rejected.',
  ['configurations', 'histories'], 'all joint choices, module naming schemes and prefixes of small search networks',
  'Tests round-trip one sampled sub-network under simple names.',
  ['mmrazor/structures/subnet/fix_subnet.py'],
  [('load', 'fix_subnet.py: load_fix_subnet'), ('export', 'fix_subnet.py: export_fix_subnet')])

p('C13', 'A candidate pool keeps its entries and order and never shares records',
  'After any sequence of additions, insertions, removals, sorts and resource or score updates, a candidate pool contains exactly the candidates the sequence implies in that order, each with its own resource and score record, and reading them never changes them. '
  'Sorting is stable, orders by the requested key and direction and loses or duplicates nothing, scores are read to two decimals, and inputs passed in are not modified.',
  ['histories', 'inputs'], 'all short operation sequences over symbolic candidates and scores',
  'Tests apply one sequence; aliasing between entries and ordering for ties or negative values need particular histories.',
  ['mmrazor/structures/subnet/candidate.py'],
  [('formatting', 'candidate.py: _format'), ('sorting', 'candidate.py: sort_by'), ('updates', 'candidate.py: update_resources, set_score')])

p('C14', 'Crossover and mutation only recombine parental and sampled genes',
  'Crossover of two candidates gives for every search group the value of one of the two parents, mutation gives the parent\'s value or a freshly sampled legal value, with the configured probability deciding, and neither modifies its parents. '
  'Every gene can come from either source.',
  ['inputs', 'schedules'], 'all parents, random draws and probabilities over a small number of groups',
  'Tests run with the process random state once; parent aliasing and a swapped source need particular draws.',
  ['mmrazor/engine/runner/utils/genetic.py', 'mmrazor/engine/runner/evolution_search_loop.py'],
  [('crossover', 'genetic.py: crossover'), ('mutation', 'evolution_search_loop.py: _mutation')])

p('C15', 'Sub-network constraint checks accept exactly the sub-networks within budget',
  'A sub-network passes a resource constraint check exactly when every constrained resource it reports lies within its configured inclusive range, with a bare number meaning an upper limit, whatever the other resources are. '
  'Unconstrained checks accept everything, and the reported resources are those of the sub-network being checked.',
  ['inputs', 'configurations'], 'all constraint ranges, resource values and missing entries',
  'Tests try two values; boundaries and lower limits are untested.',
  ['mmrazor/engine/runner/utils/check.py'],
  [('constraint check', 'check.py: check_subnet_resources')])

p('C16', 'Evolution search keeps the best feasible candidates, also across a resume',
  'In every generation of evolution search all candidates handed to evaluation satisfy the constraints, the pool reaches its configured size, the retained elite is exactly the configured number of best-scored candidates seen so far in order, and the exported sub-network is the best of them; where a predictor is configured it gives the scores. '
  'A search interrupted after any generation and resumed runs exactly the remaining generations with the same elite.',
  ['schedules', 'histories', 'crash_points', 'fault_sequences'], 'all score assignments, random draws, feasibility patterns and interruption points over a few generations',
  'Tests mock everything with constant scores and never resume mid-way with meaningful state.',
  ['mmrazor/engine/runner/evolution_search_loop.py', 'mmrazor/structures/subnet/candidate.py'],
  [('generation step', 'evolution_search_loop.py: run_epoch, sample_candidates, update_candidate_pool'), ('selection', 'val_candidate_pool, gen_crossover_candidates, gen_mutation_candidates'), ('resume', '_resume, _save_searcher_ckpt')],
  state=[('elite', 'best candidates so far', 'top_k_candidates'), ('epoch', 'generation counter', '_epoch')])

p('C17', 'Greedy supernet sampling follows its schedule and consumes its candidates',
  'In greedy sampling training the probability of reusing a stored candidate instead of sampling a new one follows the configured linear or cosine schedule, from the initial probability at its start iteration to the maximal one at its end and constant outside, never falling. Each top candidate of a round trains the supernet exactly once, best first, before new ones are sampled, and every trained sub-network satisfies the constraints. '
  'The candidate pool never exceeds its configured size and keeps the best candidates.',
  ['schedules', 'inputs', 'histories'], 'all iterations, schedule settings, random draws and scores',
  'Tests run a few iterations under one setting.',
  ['mmrazor/engine/runner/subnet_sampler_loop.py'],
  [('schedule', 'subnet_sampler_loop.py: update_cur_prob'), ('sampling', 'sample_subnet, update_candidates, update_supernet')])

p('C18', 'Greedy channel search meets each target with the best removal at every step',
  'Greedy channel slimming starts at the largest network, at every step applies among all legal single-group reductions the one with the best score, and records for each target in order the first network not exceeding it, never going below the minimum width. '
  'Interrupting and resuming the search yields the same recorded networks.',
  ['schedules', 'crash_points', 'inputs'], 'all score functions, resource functions, targets and interruption points for a few groups and widths',
  'Tests run with a mocked metric; the decision depends on all orderings of scores.',
  ['mmrazor/engine/runner/autoslim_greedy_search_loop.py'],
  [('greedy step', 'autoslim_greedy_search_loop.py: run'), ('resume', '_resume, _save_searcher_ckpt')])

p('C19', 'Batch-norm calibration sets statistics to the average over calibration data',
  'Calibrating batch normalisation before evaluating a sub-network gives every batch-norm layer the sample-weighted average of batch means and variances over exactly the requested number of calibration samples, only for the selected channels. '
  'It leaves no hooks behind, uses no gradient and does not change any other parameter.',
  ['inputs', 'configurations', 'histories'], 'all batch contents, batch sizes, requested sample counts and channel choices',
  'Tests only check that calibration runs.',
  ['mmrazor/engine/runner/utils/calibrate_bn_mixin.py'],
  [('calibration', 'calibrate_bn_mixin.py: calibrate_bn_statistics')])

p('C20', 'Iterative pruning reaches its target monotonically and exactly on schedule',
  'An iterative pruning schedule moves the channel counts from the starting ones to the configured target in the configured number of equally spaced steps, monotonically, ends exactly at the target, changes nothing after the last step, and never prunes outside a scheduled step. '
  'Without a linear schedule every step goes straight to the target. Targets given as counts or ratios, in the unit the group uses, are both honoured, and stopping and resuming at any iteration ends at the same target.',
  ['schedules', 'inputs', 'crash_points'], 'all step frequencies, step counts, iteration numbers and targets',
  'Tests simulate one schedule.',
  [M+'algorithms/pruning/ite_prune_algorithm.py'],
  [('schedule', 'ite_prune_algorithm.py: ItePruneConfigManager.is_prune_time, prune_at')])

p('C21', 'Recorders capture exactly what ran and leave the program unchanged',
  'While recording, each recorder stores every value its source (module output or input, parameter, function, method) produced, in order and unmodified, independent of other recorders and of the order they were set up; results of the recorded program are unchanged. '
  'When recording ends, even through an exception, the recorded functions and methods are the original ones, and re-entering starts with an empty record.',
  ['histories', 'schedules', 'fault_sequences', 'configurations'], 'all sequences of enter/exit/call/exception over several recorders that may share a source',
  'Tests use one recorder per source and no exceptions.',
  [M+'task_modules/recorder/function_outputs_recorder.py', M+'task_modules/recorder/method_outputs_recorder.py', M+'task_modules/recorder/base_recorder.py', M+'task_modules/recorder/recorder_manager.py', M+'task_modules/recorder/module_outputs_recorder.py'],
  [('wrapper install/restore', '__enter__/__exit__'), ('manager', 'recorder_manager.py: RecorderManager')])

p('C22', 'Deliveries hand the recorded values over in order and restore the program',
  'When a delivery overrides results, the n-th intercepted call of the next model receives exactly the n-th value recorded from the previous one; exhausting or overflowing the queue is an error and is never silently served with another value. '
  'Afterwards the original functions and methods are back in place, for any number of deliveries that may share a target.',
  ['histories', 'schedules', 'configurations'], 'all sequences of calls with overriding on and off, queue lengths and shared targets',
  'Tests deliver one value through one target.',
  [M+'task_modules/delivery/function_outputs_delivery.py', M+'task_modules/delivery/method_outputs_delivery.py', M+'task_modules/delivery/delivery_manager.py', M+'task_modules/delivery/distill_delivery.py'],
  [('queue', 'deliver wrappers'), ('manager', 'delivery_manager.py: DistillDeliveryManager')])

p('C23', 'Distillation computes each configured loss on mapped features, teacher frozen',
  'A distillation step computes each configured loss exactly once from exactly the recorded features its mapping names, through the mapped connectors and indexes, reports task and distillation losses under distinct keys, and optimises the sum. '
  'A teacher that is not set trainable runs without gradients, with its batch norms in evaluation mode when so configured, and never changes; distillation terms stop contributing exactly from the configured epoch on. '
  'In data-free distillation student and generator are each updated by their own loss alone, as often as configured.',
  ['inputs', 'configurations', 'histories'], 'all mappings of losses to recorders, connectors, indexes; all epochs; all feature values',
  'Tests build one mapping with constant features.',
  [M+'distillers/configurable_distiller.py', M+'distillers/byot_distiller.py', M+'algorithms/distill/configurable/datafree_distillation.py', M+'algorithms/distill/configurable/single_teacher_distill.py', M+'algorithms/distill/configurable/self_distill.py', M+'algorithms/distill/configurable/fpn_teacher_distill.py', 'mmrazor/engine/hooks/stop_distillation_hook.py'],
  [('loss mapping', 'configurable_distiller.py: get_record, compute_distill_losses'), ('training step', 'single_teacher_distill.py: loss'), ('stop hook', 'stop_distillation_hook.py')])

p('C24', 'Distillation losses match their definitions for every input',
  'Each distillation loss equals its mathematical definition for every pair of predictions, scales linearly with its configured weight, respects its reduction and temperature, and is zero when student equals teacher where the definition says so. '
  'Losses do not modify their inputs.',
  ['inputs', 'configurations'], 'all prediction values and hyper-parameters at small shapes',
  'Tests check that a random input gives a finite number.',
  [M+'losses/kl_divergence.py', M+'losses/decoupled_kd.py', M+'losses/relational_kd.py', M+'losses/cross_entropy_loss.py', M+'losses/cwd.py', M+'losses/at_loss.py', M+'losses/dist_loss.py', M+'losses/fbkd_loss.py', M+'losses/l1_loss.py', M+'losses/l2_loss.py', M+'losses/ab_loss.py', M+'losses/ofd_loss.py', M+'losses/factor_transfer_loss.py', M+'losses/mgd_loss.py', M+'losses/dafl_loss.py', M+'losses/weighted_soft_label_distillation.py', M+'losses/kd_soft_ce_loss.py', M+'losses/pkd_loss.py'],
  [('loss forward', 'forward methods')])

p('C25', 'Resource estimates equal the true operation and parameter counts',
  'The estimated operations and parameters of a network equal the counts determined by the layer definitions for every layer configuration and input size, scale out the batch size, and of a searchable network at any choice equal those of its exported static network. '
  'Options given to the estimator or to a single call (input shape, units, string output, separately listed or disabled parts) are honoured, and estimating leaves the network and later estimates unchanged.',
  ['inputs', 'configurations', 'histories'], 'all layer hyper-parameters, input sizes and choices; sequences of estimate calls',
  'Tests compare a few fixed numbers.',
  [M+'task_modules/estimators/resource_estimator.py', M+'task_modules/estimators/counters/flops_params_counter.py', M+'task_modules/estimators/counters/op_counters/conv_layer_counter.py', M+'task_modules/estimators/counters/op_counters/linear_layer_counter.py', M+'task_modules/estimators/counters/op_counters/norm_layer_counter.py', M+'task_modules/estimators/counters/op_counters/pooling_layer_counter.py', M+'task_modules/estimators/counters/op_counters/upsample_layer_counter.py'],
  [('per-op counters', 'op_counters/*.py'), ('accumulation', 'flops_params_counter.py: get_model_flops_params'), ('estimator API', 'resource_estimator.py: ResourceEstimator')])

p('C26', 'Quantisation settings translate to consistent integer ranges',
  'For every bit width, signedness and symmetry setting, the quantiser built from a quantisation configuration represents exactly the configured number of levels, with bounds the scheme defines, per-channel exactly when configured, weights and activations each by their own settings. '
  'Quantisers of a backend refuse the schemes that they do not support, the resulting fake quantisers use the observers configured, and the plain quantiser that replaces a trained one for deployment computes the same function.',
  ['configurations'], 'all bit widths, signedness, symmetry and granularity combinations',
  'Tests check the 8-bit defaults.',
  ['mmrazor/structures/quantization/qconfig.py', M+'quantizers/native_quantizer.py'],
  [('scheme to observer arguments', 'qconfig.py: QSchemeHandler.to_observer_params'), ('config', 'qconfig.py')])

p('C27', 'Learned-step fake quantisation rounds to its grid and honours its switches',
  'With fake quantisation on, every output is scale times an integer offset from the zero point, within the configured integer range, nearest to the input when the input is in range, and applying it again changes nothing; with it off the input passes unchanged. '
  'Observation and learning switches take effect exactly as set, scales stay positive, and state reloads without changing results.',
  ['inputs', 'histories', 'configurations'], 'all inputs, scales, zero points, ranges and switch sequences',
  'Tests assert attribute values after single calls.',
  [M+'fake_quants/lsq.py', M+'observers/lsq.py', M+'observers/torch_observers.py', M+'observers/base.py'],
  [('fake quantise', 'lsq.py: LearnableFakeQuantize.forward'), ('switches', 'lsq.py: enable_*'), ('scale initialisation', 'observers/lsq.py')])

p('C28', 'Post-training weight quantisation stays on grid within half a step',
  'Weight quantisation parameters cover the range of the weights, every quantised weight lies on the grid and within half a step of a weight in range, and error compensation only changes weights not quantised yet. '
  'Packing quantised weights into integers and unpacking them returns the same levels, zero points, scales and groups, read as the kernels read them.',
  ['inputs', 'configurations'], 'all weights, bit widths, group sizes and activation orders at small sizes',
  'Tests quantise one random layer.',
  ['mmrazor/implementations/quantization/gptq/quantizer.py', 'mmrazor/implementations/quantization/gptq/gptq.py', 'mmrazor/implementations/quantization/gptq/ops.py'],
  [('grid', 'quantizer.py: find_params, quantize'), ('column loop', 'gptq.py / ops.py: quant'), ('packing', 'QuantLinear pack')])

p('C29', 'One-shot pruning leaves exactly the configured sparsity pattern',
  'One-shot weight pruning with an n:m pattern zeroes exactly n weights in every group of m consecutive inputs of each output, the least salient ones, and with an unstructured ratio zeroes the configured share; remaining weights are compensated only from pruned ones. '
  'The accumulated input statistics equal those of the whole calibration set in one batch, however it is split.',
  ['inputs', 'configurations', 'schedules'], 'all weights, statistics, patterns and splits of the calibration data at small sizes',
  'Tests run one random layer and check the sparsity ratio.',
  ['mmrazor/implementations/pruning/sparse_gpt/ops.py', 'mmrazor/implementations/pruning/sparse_gpt/sparse24_utils.py'],
  [('statistics', 'ops.py: update_hessian'), ('pruning', 'ops.py: prune'), ('n:m mask', 'sparse24_utils.py')])

p('C30', 'Group-Fisher pruning always removes the globally least important channel',
  'Each pruning step removes exactly one channel, the one of smallest accumulated normalised importance among all channels still present in all groups that may still be pruned, never a channel already pruned and never the last one. '
  'Importance counters restart after each step and no channel comes back.',
  ['inputs', 'histories'], 'all importance values, group layouts and step sequences at small sizes',
  'Tests run a few steps with arbitrary gradients and check shapes.',
  ['mmrazor/implementations/pruning/group_fisher/mutator.py', 'mmrazor/implementations/pruning/group_fisher/unit.py'],
  [('selection', 'mutator.py: try_prune'), ('importance', 'unit.py: importance, try_to_prune_min_channel'), ('accumulation', 'unit.py: update_fisher_info')])

p('C31', 'Removing fake quantisers from a graph keeps the rest of the computation',
  'Deleting the fake quantisers selected before or after given modules, functions, methods or kinds of nodes removes exactly the selected ones from the traced network, and the network then computes for every input the original graph with those quantisers replaced by identity. '
  'A selection reaches through arguments in lists and keywords and every way that leads to the node; everything else in the graph is kept, and so is the original when the deletion is not in place.',
  ['programs', 'inputs'], 'all small traced graphs built from the supported node kinds',
  'Tests cover one model; shared quantisers and multi-input operators need particular graphs.',
  [M+'task_modules/tracer/fx/graph_utils.py'],
  [('deletion', 'graph_utils.py: del_fakequant_*')])

p('C32', 'Any channel choice of a traced network runs and equals its exported slim network',
  'For a network of supported layers the channel units found by analysis couple exactly the layers that must share channels (a part the tracer cannot follow stays uncut), so every combination of unit choices gives a runnable network, and the exported slim network computes on every input exactly the same output. '
  'Residual additions, concatenations, depthwise convolutions and flattening are included.',
  ['programs', 'inputs', 'configurations'], 'all small network topologies from the listed layers, all unit choices, weights and inputs',
  'Tests check a set of standard models at random choices for shapes only.',
  [M+'mutators/channel_mutator/channel_mutator.py', M+'mutables/mutable_channel/units/mutable_channel_unit.py', M+'mutables/mutable_channel/units/channel_unit.py', 'mmrazor/structures/graph/channel_graph.py', 'mmrazor/structures/graph/channel_nodes.py', 'mmrazor/structures/graph/channel_flow.py', M+'task_modules/tracer/channel_analyzer.py'],
  [('channel flow union', 'channel_flow.py'), ('unit building', 'channel_graph.py: generate_units_config'), ('mutable registration', 'mutable_channel_unit.py: prepare_for_pruning')])

p('C33', 'Contrastive sampling draws only true negatives with the exact distribution',
  'For every class labelling the contrastive data wrapper offers as positives only samples of the same class and as negatives only samples of other classes, in the requested number, and the weighted sampler reproduces its requested distribution exactly. '
  'Feature memories are updated only for the given samples, staying normalised.',
  ['inputs', 'configurations'], 'all labellings, weights and random draws at small sizes',
  'Tests use balanced labels; unbalanced classes and extreme weights are not exercised.',
  ['mmrazor/datasets/crd_dataset_wrapper.py', M+'losses/crd_loss.py'],
  [('contrast indexes', 'crd_dataset_wrapper.py: parse_info'), ('alias method', 'crd_loss.py: AliasMethod'), ('memory', 'crd_loss.py: ContrastMemory')])

p('C34', 'Exporting a quantised graph keeps its order, constants and scales',
  'Preparing a quantised model for a backend removes exactly the fake-quantise nodes, keeps every other node, its wiring and its constants, orders nodes so that producers precede consumers, and reports for each tensor the clipping range or scale its fake quantiser defined.',
  ['programs', 'inputs'], 'all small graphs with fake-quantised weights and activations',
  'No tests cover the exporters beyond one model.',
  [M+'quantizers/exporters/base_quantize_exporter.py', M+'quantizers/exporters/optim_utils.py', M+'quantizers/exporters/openvino_quantize_exporter.py', M+'quantizers/exporters/tensorrt_quantize_exporter.py'],
  [('graph edit', 'base_quantize_exporter.py, optim_utils.py'), ('range export', 'tensorrt_quantize_exporter.py')])

p('C35', 'Widening an expandable network with zeros preserves its function',
  'Enlarging the channels of a prunable network and filling new weights with zero leaves the output on every input unchanged for the original channels, keeps every old weight in place, and yields layers of the requested width.',
  ['inputs', 'configurations'], 'all weights, inputs, masks and widths at small sizes',
  'Tests check only that shapes grow.',
  [M+'utils/expandable_utils/ops.py', M+'utils/expandable_utils/unit.py'],
  [('expansion', 'ops.py: expand')])

p('C36', 'Supernet training steps run exactly the configured sub-networks together',
  'A training step of a slimmable, auto-slimming or once-for-all style algorithm runs exactly the configured set of sub-networks (largest, smallest, sampled or listed), each with its own choices active during its own forward, propagates each of their losses once and moves the parameters once per step, and distils smaller ones from the largest one\'s output of the same step.',
  ['schedules', 'histories', 'configurations'], 'all numbers and kinds of sub-networks, sampled choices and losses',
  'Tests only check that loss keys exist.',
  [M+'algorithms/pruning/slimmable_network.py', M+'algorithms/nas/autoslim.py', M+'algorithms/nas/bignas.py', M+'utils/optim_wrapper.py'],
  [('train step', 'train_step of each algorithm')])
p('C37', 'A differentiable search step moves weights and architecture by their own losses',
  'With two optimisers, a DARTS step moves the architecture parameters by the gradient of the validation loss alone (first order) or by the documented second-order approximation taken at the virtually stepped weights (momentum and weight decay included), and moves the weights by the gradient of the training loss alone, from the weights they had before; each step gets one batch of either data loader, in order, as often as the training needs; nothing leaks from one update into the other or into the next step. With one optimiser it is an ordinary step.',
  ['histories', 'configurations', 'inputs'], 'all weights, architecture parameters, data, learning rates, momentum and decay',
  'Tests only check that a step returns something.',
  [M+'algorithms/nas/darts.py', 'mmrazor/engine/runner/darts_loop.py'],
  [('train step', 'Darts.train_step and DartsDDP.train_step with _unrolled_backward')])
p('C38', 'Quantisation loops switch observers, quantisers and norms on schedule',
  'In every epoch of a quantisation-aware training, quantisers are on, observers watch until their configured epoch and folded norms are frozen from theirs on, wherever the training was resumed; learned scales are estimated once, on the very first batch, and learned afterwards; what is saved or validated after an epoch has observers off; validations happen exactly when due and report both the quantised and the original network under their own names. Calibration uses exactly the configured number of first batches with observers on, then saves and validates with observers off.',
  ['histories', 'configurations'], 'all epochs, thresholds, intervals, batch counts and points of resumption',
  'Tests run one configuration with toy hooks.',
  ['mmrazor/engine/runner/quantization_loops.py', M+'fake_quants/lsq.py'],
  [('loops', 'QATEpochBasedLoop, LSQEpochBasedLoop, QATValLoop, PTQLoop')])

p('C39', 'Evaluation reports and saved sub-networks belong to the right network',
  'A validation of a search or distillation evaluates, in evaluation mode, exactly the networks it promises (every listed one, the largest, smallest and sampled ones, student and teacher), each active and re-calibrated while it is judged, on every batch once, and reports and returns each metric under the name of its network. Files written by the saving hooks and by the validation of iterative pruning appear exactly when due, hold the sampled, most likely or current network, load back to one computing the same, and leave the search network as it was; sampled networks of DMCP lie within 5 % of the target.',
  ['configurations', 'histories', 'inputs'], 'all metrics, resources, samples, intervals, limits, weights and inputs',
  'Tests run one configuration and only look for files or keys.',
  ['mmrazor/engine/runner/slimmable_val_loop.py', 'mmrazor/engine/runner/subnet_val_loop.py', 'mmrazor/engine/runner/distill_val_loop.py', 'mmrazor/engine/runner/iteprune_val_loop.py', 'mmrazor/engine/hooks/dump_subnet_hook.py', 'mmrazor/engine/hooks/estimate_resources_hook.py', 'mmrazor/engine/hooks/dmcp_subnet_hook.py'],
  [('loops', 'run of each validation loop'), ('hooks', '_save_subnet, estimate_resources, after_run')])

p('C40', 'DMCP samples widths by its probabilities and trains both players apart',
  'The search space of a unit ends at the whole layer and never drops below its least part. The largest, smallest, random, directly sampled and expected sub-networks have exactly the widths their names and the learned probabilities define, in the network and in its resources, and while probabilities are trained each channel is scaled by its chance of being kept. A training step runs the configured networks in their order, distils the others from the largest one of the same step when distillation has begun, trains probabilities exactly when due by the losses of the accuracy and of the resources, and moves the weights by their own losses only. Each resource loss is least on target (or within its band) and grows away from it on both sides.',
  ['histories', 'configurations', 'inputs'], 'all probabilities, draws, weights, slopes, iterations, starting times, resources and targets',
  'Tests only check that losses are positive and shapes fit.',
  [M+'algorithms/pruning/dmcp.py', M+'mutators/channel_mutator/dmcp_channel_mutator.py', M+'mutables/mutable_channel/units/dmcp_channel_unit.py', M+'architectures/dynamic_ops/bricks/dynamic_norm.py'],
  [('sampling', '_generate_arch_message, _prune_by_arch, set_choices'), ('scaling', 'DMCPBatchNorm2d.forward_arch_param'), ('training', 'DMCP.train_step, DMCPDDP.train_step, _update_arch_params, _compute_flops_loss')])

p('C41', 'Filters fused by DCFF are averages of similar filters and export intact',
  'Each row of the fusion matrix of a layer consists of positive weights adding up to one, the softmax of the negative distances to all filters over the temperature; rows belong to different filters, as many as the layer keeps, those of the highest importance. The temperature falls from 1 to 0.0001 over the training and never rises. Fusing happens exactly at the pruning steps of a training, never in a validation; widths follow the configured plan and the fusion then in force. A fused layer computes with the fused filters, and the exported plain network computes the same.',
  ['configurations', 'histories', 'inputs'], 'all weights, temperatures, kept numbers, iterations and inputs',
  'Tests only run the algorithm on random weights and look at shapes.',
  [M+'algorithms/pruning/dcff.py', M+'architectures/dynamic_ops/mixins/dynamic_conv_mixins.py', M+'architectures/dynamic_ops/bricks/dynamic_conv.py', M+'mutators/channel_mutator/dcff_channel_mutator.py'],
  [('fusing', 'FuseConvMixin.get_pooled_channel'), ('schedule', 'DCFF.train_step, DCFF._calc_temperature'), ('widths', 'DCFFChannelMutator.calc_information')])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for d in P: f.write(json.dumps(d) + '\n')
import sys
try:
    import jsonschema
    sch = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for d in P: jsonschema.validate(d, sch)
except (ImportError, FileNotFoundError): pass
for d in P:
    for f in d['anchors']['files']:
        if not os.path.exists('/repo/'+f): print(d['id'], 'missing', f)
