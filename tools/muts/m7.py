GF = 'implementations/pruning/group_fisher/'
EX = 'models/quantizers/exporters/'
XP = 'models/utils/expandable_utils/ops.py'
SN = 'models/algorithms/pruning/slimmable_network.py'
AS = 'models/algorithms/nas/autoslim.py'
CR = 'datasets/crd_dataset_wrapper.py'
MUTS = [
    ('C30', GF + 'unit.py', "fisher.masked_fill_(n_mask, fisher.max() + 1)", "fisher.masked_fill_(n_mask, fisher.max())"),
    ('C30', GF + 'unit.py', "return (fisher**2).sum(0)", "return fisher.sum(0)**2"),
    ('C30', GF + 'unit.py', "        for module in self.input_related_dynamic_ops:\n            delta_flop += module.delta_flop_of_a_in_channel\n", ""),
    ('C30', GF + 'unit.py', "        if self.mutable_channel.activated_channels > 1:", "        if self.mutable_channel.activated_channels > 2:"),
    ('C30', GF + 'unit.py', "self.normalized_fisher_info = self.normalized_fisher_info + batch_fisher_sum  # noqa", "self.normalized_fisher_info = torch.max(self.normalized_fisher_info, batch_fisher_sum)  # noqa"),
    ('C30', GF + 'ops.py', "module.recorded_grad.insert(0, grad_in[0])", "module.recorded_grad.append(grad_in[0])"),
    ('C30', GF + 'ops.py', "            _, out_c, h, w = shape\n", "            _, _, h, w = shape\n            out_c = self.out_channels\n"),
    ('C30', GF + 'ops.py', "        self.end_record()  # ensure to run start_record only once\n", ""),
    ('C30', GF + 'algorithm.py', "            self.mutator.try_prune()\n            self.mutator.reset_imp()\n", "            self.mutator.reset_imp()\n            self.mutator.try_prune()\n"),
    ('C34', EX + 'optim_utils.py', "                if input_name not in input2node:\n                    input2node[input_name] = []\n                input2node[input_name].append([node, idx])", "                input2node[input_name] = [[node, idx]]"),
    ('C34', EX + 'optim_utils.py', "if all([x == 0 for x in pads]):", "if not any([x > 0 for x in pads]):"),
    ('C34', EX + 'optim_utils.py', "if out_node in input2node or out_node in graph_outputs:", "if out_node in input2node:"),
    ('C34', EX + 'optim_utils.py', "            for output_name in node.output:\n                output_name2node[output_name] = node\n        for node in _onnx_model.graph.input", "            output_name2node[node.output[0]] = node\n        for node in _onnx_model.graph.input"),
    ('C34', EX + 'optim_utils.py', "                if indegree[next_node.name] == 0:", "                if indegree[next_node.name] <= 1:"),
    ('C34', EX + 'base_quantize_exporter.py', "qmin, qmax = node.input[-2:]", "qmax, qmin = node.input[-2:]"),
    ('C34', EX + 'base_quantize_exporter.py', "            if _is_standalone_constant_node(constant):\n                self", "            if constant.output:\n                self"),
    ('C34', EX + 'optim_utils.py', "            if name not in input2node and name not in redundant_set:", "            if name not in redundant_set and len(input2node.get(name, [])) < 1 or name.endswith('_2'):"),
    ('C35', XP, "        mask = self.mutable_out_mask.float().unsqueeze(\n            -1) * self.mutable_in_mask.float().unsqueeze(0)", "        mask = torch.ones(weight.shape[:2]) * self.mutable_in_mask.float().unsqueeze(0)"),
    ('C35', XP, "        if module.running_var is not None:\n            module.running_var.data = self.expand_bias(module.running_var,\n                                                       self.running_var)\n", ""),
    ('C35', XP, "                           self.padding, self.dilation, in_c, self.bias", "                           self.padding, 1, in_c, self.bias"),
    ('C35', XP, "nn.BatchNorm2d(in_c, self.eps, self.momentum", "nn.BatchNorm2d(in_c, self.eps, 0.1"),
    ('C35', XP, "        if module.bias is not None:\n            bias = self.expand_vector(", "        if module.bias is not None and not zero:\n            bias = self.expand_vector("),
    ('C36', SN, "            self.mutator.set_choices(subnet)\n            with optim_wrapper.optim_context(self):\n                losses = self(batch_inputs, data_samples, mode='loss')\n", "            with optim_wrapper.optim_context(self):\n                losses = self(batch_inputs, data_samples, mode='loss')\n            self.mutator.set_choices(subnet)\n"),
    ('C36', SN, "accumulative_counts=self.num_subnet)", "accumulative_counts=self.num_subnet - 1)"),
    ('C36', SN, "            self._optim_wrapper_count_status_reinitialized = True\n", ""),
    ('C36', AS, "self.mutator.set_choices(self.mutator.min_choices)", "self.mutator.set_choices(self.mutator.sample_choices())"),
    ('C36', AS, "        if not mode and self.norm_training:", "        if self.norm_training:"),
    ('C36', AS, "accumulative_counts=len(self.sample_kinds))", "accumulative_counts=len(self.sample_kinds) - 1)"),
    ('C36', AS, "                subnet_losses.update(soft_loss)\n", "                subnet_losses.update(soft_loss if len(soft_loss) > 1 else {})\n"),
    ('C36', AS, "for i in range(num_random_samples):", "for i in range(max(1, num_random_samples)):"),
    ('C33', CR, "                    if j == i:\n                        continue\n", "                    if j == i and i > 0:\n                        continue\n"),
    ('C33', CR, "len(self.cls_negative[self.gt_labels[idx]]) else False", "len(self.cls_negative[0]) else False"),
    ('C33', CR, "pos_idx = np.random.choice(self.cls_positive[self.gt_labels[idx]],", "pos_idx = np.random.choice(self.cls_positive[self.gt_labels[0]],"),
    ('C33', CR, "num_classes = max(self.dataset.get_gt_labels()) + 1", "num_classes = len(set(self.dataset.get_gt_labels()))"),
]
