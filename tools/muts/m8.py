DM = 'models/mutators/channel_mutator/dmcp_channel_mutator.py'
DA = 'models/algorithms/nas/darts.py'
QL = 'engine/runner/quantization_loops.py'
MUTS = [
    ('C40', DM, "prob = torch.clamp(arch_param, min=0)\n            condition_prob = torch.exp(-prob)\n            if mode", "condition_prob = torch.exp(-arch_param.abs())\n            if mode"),
    ('C40', DM, "num_groups = int((max_rate - min_rate) / rate_offset + 1e-4)", "num_groups = int((max_rate - min_rate) / rate_offset)"),
    ('C40', DM, "group_size = int(rate_offset * out_channels / max_rate)", "group_size = int(rate_offset * out_channels)"),
    ('C40', DM, "group_size * random.randint(0, num_groups)", "group_size * random.randint(0, num_groups - 1)"),
    ('C40', DM, "                        break\n", "                        continue\n"),
    ('C40', DM, "torch.cumprod(condition_prob, dim=0)", "condition_prob"),
    ('C40', DM, "int(choice + 0.5)", "int(choice)"),
    ('C40', DM, "arch_params_attr = self._arch_params_attr[str(group_id)]\n            module", "arch_params_attr = self._arch_params_attr['0']\n            module"),
    ('C37', DA, "param.grad = d - lr * h", "param.grad = d - h"),
    ('C37', DA, "w -= lr * (momentum * m + w.grad + weight_decay * w)", "w -= lr * (momentum * m + w.grad) + weight_decay * w"),
    ('C37', DA, "for e in [eps, -2. * eps]:", "for e in [eps, -eps]:"),
    ('C37', DA, "        self._restore_weights(backup_params)\n        norm", "        norm"),
    ('C37', DA, "        # restore weights\n        self._restore_weights(backup_params)\n", ""),
    ('C37', DA, "            with set_aside_grads(self.mutator.parameters()):\n                optim_wrapper['architecture'].update", "            if True:\n                optim_wrapper['architecture'].update"),
    ('C37', DA, "pseudo_data = self.data_preprocessor(mutator_data, True)\n                    mutator_b", "pseudo_data = self.data_preprocessor(supernet_data, True)\n                    mutator_b"),
    ('C38', QL, "and self._epoch + 1 >= self.disable_observer_begin", "and self._epoch >= self.disable_observer_begin"),
    ('C38', QL, "                if idx == self.calibrate_steps:", "                if idx > self.calibrate_steps:"),
    ('C38', QL, "        self.prepare_for_val()\n        self.runner.call_hook('after_train_epoch')\n        self._epoch += 1\n\n\n@LOOPS.register_module()\nclass LSQ", "        self.runner.call_hook('after_train_epoch')\n        self.prepare_for_val()\n        self._epoch += 1\n\n\n@LOOPS.register_module()\nclass LSQ"),
    ('C38', QL, "                    and self._epoch >= self.val_begin\n", "                    and self._epoch > self.val_begin\n"),
    ('C38', QL, "            ori_key = 'original.' + key\n            qat_metrics[ori_key] = value", "            ori_key = 'original.' + key\n            qat_metrics[key] = value"),
    ('C38', QL, "self.run_iter(idx, data_batch, self.architecture)", "self.run_iter(idx, data_batch, self.runner.model)"),
    ('C38', QL, "        if (self.freeze_bn_begin > 0\n                and self._epoch + 1 >= self.freeze_bn_begin):\n            self.runner.model.apply(freeze_bn_stats)\n\n    def prepare_for_val", "        if (self.freeze_bn_begin > 0\n                and self._epoch + 1 == self.freeze_bn_begin):\n            self.runner.model.apply(freeze_bn_stats)\n\n    def prepare_for_val"),
]
