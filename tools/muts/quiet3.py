"""changes that keep the behaviour, by extracting, reordering and rewriting:
every check must stay quiet (rc 0)"""
GS = 'engine/runner/autoslim_greedy_search_loop.py'
QC = 'structures/quantization/qconfig.py'
MUTS = [
    ('C18', GS, "                    pruned_subnet = copy.deepcopy(self.current_subnet)\n                    pruned_subnet[unit_name] -= 1\n", "                    pruned_subnet = {\n                        k: v - (k == unit_name)\n                        for k, v in self.current_subnet.items()\n                    }\n"),
    ('C18', GS, "                    if best_score is None or score > best_score:\n                        best_score = score\n                        best_subnet = pruned_subnet\n", "                    better = best_score is None or not score <= best_score\n                    if better:\n                        best_score, best_subnet = score, pruned_subnet\n"),
    ('C18', GS, "                for unit_name in sorted(self.current_subnet.keys()):\n                    if self.current_subnet[unit_name] == 1:\n                        # The number of channel_bin has reached the minimum\n                        # value\n                        continue\n", "                prunable = [\n                    n for n in sorted(self.current_subnet)\n                    if self.current_subnet[n] != 1\n                ]\n                for unit_name in prunable:\n"),
    ('C26', QC, "            quant_max = 2**(self.bit - 1) - 1\n            if self.is_symmetric_range:\n                quant_min = -2**(self.bit - 1) + 1\n            else:\n                quant_min = -2**(self.bit - 1)\n", "            half = 1 << (self.bit - 1)\n            quant_max = half - 1\n            quant_min = -quant_max if self.is_symmetric_range else -half\n"),
    ('C26', QC, "        if 'is_symmetric_range' in kwargs:\n            self.is_symmetric_range = kwargs['is_symmetric_range']\n            del kwargs['is_symmetric_range']\n        else:\n            self.is_symmetric_range = False\n", "        self.is_symmetric_range = kwargs.pop('is_symmetric_range', False)\n"),
    ('C26', QC, "        all_para = self.kwargs.copy()\n        all_para.update(naive_para)\n        return all_para\n", "        return {**self.kwargs, **naive_para}\n"),
]
MC = 'models/mutables/mutable_channel/mutable_channel_container.py'
MV = 'models/mutables/mutable_value/mutable_value.py'
FD = 'models/task_modules/delivery/function_outputs_delivery.py'
CD = 'models/distillers/configurable_distiller.py'
SG = 'implementations/pruning/sparse_gpt/ops.py'
ST = 'models/algorithms/distill/configurable/single_teacher_distill.py'
MUTS += [
    ('C06', MC, "        last_end = 0\n        for start, end in self.mutable_channels:\n            assert start == last_end\n            last_end = end\n        assert last_end == self.num_channels, (\n            f'channel mismatch: {last_end} vs {self.num_channels}')\n", "        ranges = list(self.mutable_channels)\n        ends = [0] + [end for _, end in ranges]\n        assert all(s == e for (s, _), e in zip(ranges, ends))\n        assert ends[-1] == self.num_channels, (\n            f'channel mismatch: {ends[-1]} vs {self.num_channels}')\n"),
    ('C06', MC, "            if last_end < start:\n                self.register_mutable(\n                    SimpleMutableChannel(start - last_end), last_end, start)\n            last_end = end\n", "            gap = start - last_end\n            if gap > 0:\n                filler = SimpleMutableChannel(gap)\n                self.register_mutable(filler, start=last_end, end=start)\n            last_end = end\n"),
    ('C09', MV, "        if choice not in self.choices:\n            raise ValueError(f'Expected choice in: {self.choices}, '\n                             f'but got: {choice}')\n\n        self._current_choice = choice\n", "        if any(choice == c for c in self.choices):\n            self._current_choice = choice\n        else:\n            raise ValueError(f'Expected choice in: {self.choices}, '\n                             f'but got: {choice}')\n"),
    ('C22', FD, "            if self.override_data:\n                assert len(self.data_queue) > 0, 'pop from an empty queue'\n                outputs = self.data_queue.popleft()\n            else:\n                assert len(self.data_queue) < self.data_queue.maxlen,\\\n                    'push into an full queue'\n                outputs = origin_func(*args, **kwargs)\n                self.data_queue.append(outputs)\n            return outputs\n", "            queue = self.data_queue\n            if not self.override_data:\n                assert queue.maxlen > len(queue), 'push into an full queue'\n                queue.append(origin_func(*args, **kwargs))\n                return queue[-1]\n            assert queue, 'pop from an empty queue'\n            return queue.popleft()\n"),
    ('C23', CD, "    def compute_distill_losses(self) -> LossResults:\n        \"\"\"Compute distill losses automatically.\"\"\"\n        # Record all computed losses' results.\n        losses = dict()\n        for loss_name, forward_mappings in self.loss_forward_mappings.items():\n            forward_kwargs = dict()\n            for forward_key, record in forward_mappings.items():\n                forward_var = self.get_record(**record)\n                forward_kwargs[forward_key] = forward_var\n\n            loss_module = self.distill_losses[loss_name]\n            loss = loss_module(**forward_kwargs)  # type: ignore\n            # add computed loss result.\n            losses[loss_name] = loss\n\n        return losses\n", "    def _one_loss(self, name, mappings):\n        inputs = {k: self.get_record(**r) for k, r in mappings.items()}\n        return self.distill_losses[name](**inputs)\n\n    def compute_distill_losses(self) -> LossResults:\n        \"\"\"Compute distill losses automatically.\"\"\"\n        return {\n            name: self._one_loss(name, mappings)\n            for name, mappings in self.loss_forward_mappings.items()\n        }\n"),
    ('C23', CD, "        if from_student:\n            recorder_ = self.student_recorders.get_recorder(recorder)\n        else:\n            recorder_ = self.teacher_recorders.get_recorder(recorder)\n", "        manager = (\n            self.student_recorders\n            if from_student else self.teacher_recorders)\n        recorder_ = manager.get_recorder(recorder)\n"),
    ('C23', ST, "            for m in self.teacher.modules():\n                if isinstance(m, _BatchNorm):\n                    m.eval()\n", "            norms = filter(lambda m: isinstance(m, _BatchNorm),\n                           self.teacher.modules())\n            for norm in norms:\n                norm.train(False)\n"),
    ('C29', SG, "        H = input @ input.T * 2  # C C\n", "        H = 2 * torch.einsum('cd,ed->ce', input, input)\n"),
    ('C29', SG, "        H_save = (H_save * self.hessian_batch + H) / (self.hessian_batch + B)\n        self.hessian = H_save\n        self.hessian_batch = self.hessian_batch + B\n", "        seen = self.hessian_batch\n        total = seen + B\n        self.hessian = H_save * (seen / total) + H / total\n        self.hessian_batch = total\n"),
]
