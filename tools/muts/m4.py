EV = 'engine/runner/evolution_search_loop.py'
SL = 'engine/runner/subnet_sampler_loop.py'
AS = 'engine/runner/autoslim_greedy_search_loop.py'
BN = 'engine/runner/utils/calibrate_bn_mixin.py'
IT = 'models/algorithms/pruning/ite_prune_algorithm.py'
MUTS = [
    ('C14', EV, "crossover(candidate1, candidate2, prob=self.mutate_prob)", "crossover(candidate2, candidate1, prob=self.mutate_prob)"),
    ('C16', EV, "self.candidates.data[:self.top_k])", "self.candidates.data[:max(self.top_k, 2)])"),
    ('C16', EV, "        self.candidates.extend(self.top_k_candidates)\n", ""),
    ('C16', EV, "start=len(self.candidates.data) - len(candidates_resources))", "start=init_candidates and 0)"),
    ('C16', EV, "            for k in ['candidates', 'top_k_candidates']:", "            for k in ['top_k_candidates']:"),
    ('C16', EV, "redundant_ckpts = range(1, cur_ckpt - self.max_keep_ckpts)", "redundant_ckpts = range(1, cur_ckpt - self.max_keep_ckpts + 1)"),
    ('C16', EV, "best_random_subnet = self.top_k_candidates.subnets[0]", "best_random_subnet = self.top_k_candidates.subnets[-1] if len(\n                self.top_k_candidates) > 2 else self.top_k_candidates.subnets[0]"),
    ('C16', EV, "            if is_pass:\n                crossover_candidates.append", "            if is_pass or crossover_iter == max_crossover_iters:\n                crossover_candidates.append"),
    ('C16', EV, "            self.candidates.set_resource(i, score, 'score')", "            self.candidates.set_resource(\n                i, max(score, 0.), 'score')"),
    ('C17', SL, "        if cur_iter >= self.schedule_end_iter:", "        if cur_iter > self.schedule_end_iter:"),
    ('C17', SL, "tmp_2 = math.pi * schedule_cur_steps", "tmp_2 = math.pi * cur_iter"),
    ('C17', SL, "random.random() >= self.cur_prob", "random.random() > 1 - self.cur_prob"),
    ('C17', SL, "                self.candidates.data[:self.num_candidates])\n", "                self.candidates.data[:self.num_candidates - 1])\n"),
    ('C17', SL, "            self.candidates.sort_by(key_indicator='score', reverse=True)\n", ""),
    ('C17', SL, "                if is_pass:\n                    sampled_candidates.append(subnet)", "                if is_pass or len(self.candidates) == 0:\n                    sampled_candidates.append(subnet)"),
    ('C18', AS, "if best_score is None or score > best_score:", "if not best_score or score > best_score:"),
    ('C18', AS, "            while self.current_flops > target:", "            while self.current_flops >= target:"),
    ('C18', AS, "in self.target_flops[len(self.searched_subnet):]:", "in self.target_flops[max(0, len(self.searched_subnet) - 1):]:"),
    ('C18', AS, "                    if self.current_subnet[unit_name] == 1:", "                    if self.current_subnet[unit_name] <= 2:"),
    ('C18', AS, "[unit_name][bins - 1]", "[unit_name][-bins]"),
    ('C19', BN, "real_input.var(dims, unbiased=True)", "real_input.var(dims, unbiased=False)"),
    ('C19', BN, "            var_average_meter.update(var, real_input.size(0))", "            var_average_meter.update(var)"),
    ('C19', BN, "                if data_batch_nums > remaining:\n                    data_batch = {", "                if data_batch_nums > remaining + 1:\n                    data_batch = {"),
    ('C19', BN, "        for handle in hook_handles:\n            handle.remove()", "        for handle in hook_handles[1:]:\n            handle.remove()"),
    ('C19', BN, "                module.running_var[selected] = calibrated_bn_var", "                module.running_var[selected] = calibrated_bn_var * \\\n                    var_average_meter.count / max(1, var_average_meter.count - 1)"),
    ('C20', IT, "and iteration // self.step_freq < self.prune_times", "and iteration // self.step_freq <= self.prune_times - 1"),
    ('C20', IT, "times = iteration // self.step_freq + 1", "times = max(1, iteration // self.step_freq)"),
    ('C20', IT, "                prune_current[key] = int(prune_current[key])", "                prune_current[key] = int(prune_current[key] + 0.5)"),
    ('C20', IT, "self.step_freq *= self._iters_per_epoch", "self.step_freq *= self._iters_per_epoch + 1"),
]
