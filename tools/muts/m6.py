OC = 'models/task_modules/estimators/counters/op_counters/'
FQ = 'models/fake_quants/lsq.py'
OB = 'models/observers/lsq.py'
QC = 'structures/quantization/qconfig.py'
SG = 'implementations/pruning/sparse_gpt/ops.py'
GQ = 'implementations/quantization/gptq/gptq.py'
MUTS = [
    ('C25', OC + 'conv_layer_counter.py', "        if groups == module.in_channels == module.out_channels:\n            # the groups of a depth-wise conv follow its channels\n            groups = in_channels\n", ""),
    ('C25', OC + 'conv_layer_counter.py', "            bias_flops = out_channels * active_elements_count\n            overall_params += out_channels\n        overall_flops = overall_conv_flops + bias_flops\n        module.__flops__ += overall_flops\n        module.__params__ += int(overall_params)\n\n\n@TASK_UTILS.register_module()\nclass Conv1d",
     "            bias_flops = out_channels * active_elements_count\n            overall_params += module.in_channels\n        overall_flops = overall_conv_flops + bias_flops\n        module.__flops__ += overall_flops\n        module.__params__ += int(overall_params)\n\n\n@TASK_UTILS.register_module()\nclass Conv1d"),
    ('C25', OC + 'deconv_layer_counter.py', "filters_per_channel = out_channels // groups", "filters_per_channel = out_channels"),
    ('C25', OC + 'linear_layer_counter.py', "        module.__params__ += get_dynamic_parameters_number(module)", "        module.__params__ += get_model_parameters_number(module)"),
    ('C25', OC + 'norm_layer_counter.py', "        flops = np.prod(input[0].shape)", "        flops = np.prod(input[0].shape[1:])"),
    ('C26', QC, "quant_min = -2**(self.bit - 1) + 1", "quant_min = -2**(self.bit - 1) - 1"),
    ('C26', QC, "        if self.is_per_channel:\n            naive_para['ch_axis'] = 0", "        if self.is_per_channel and not self.is_symmetry:\n            naive_para['ch_axis'] = 0"),
    ('C26', QC, "            zero_point = fake_quant_org.zero_point.detach().round().clamp(\n                fake_quant_org.quant_min, fake_quant_org.quant_max)", "            zero_point = fake_quant_org.zero_point.detach()"),
    ('C26', QC, "is_per_channel=a_is_per_channel, **qconfig['a_qscheme'])", "is_per_channel=a_is_per_channel, **{\n                    **qconfig['a_qscheme'], 'bit': qconfig['w_qscheme'].get('bit', 8)})"),
    ('C27', FQ, "grad_factor = 1.0 / (X.numel() * self.quant_max)**0.5", "grad_factor = 1.0 / (X.shape[0] * self.quant_max)**0.5"),
    ('C27', FQ, "        self.toggle_qparam_learning(enabled=False) \\\n            .toggle_fake_quant(enabled=False)", "        self.toggle_qparam_learning(enabled=False) \\\n            .toggle_fake_quant(enabled=True)"),
    ('C27', FQ, "        self.scale.requires_grad = enabled\n", ""),
    ('C27', OB, "self.tensor_norm = y.abs().mean(1)", "self.tensor_norm = y.abs().mean(1) if y.size(0) > 1 else y.abs().max(1)[0]"),
    ('C27', OB, "        min_val = torch.min(min_val_cur, self.min_val)\n", "        min_val = torch.min(min_val_cur, -max_val_cur)\n"),
    ('C28', GQ, "H_save = (H_save * self.hessian_batch + H) / (self.hessian_batch + B)", "H_save = (H_save * self.hessian_batch + H) / (self.hessian_batch + 1)"),
    ('C28', GQ, "                g_idx = g_idx[invperm]\n", ""),
    ('C28', GQ, "qzeros[:, col] |= zeros[:, j] << (self.bits * (j - i))", "qzeros[:, col] |= zeros[:, j] << (4 * (j - i))"),
    ('C28', GQ, "                                W[:, (i1 + i):(i1 + i + groupsize)],", "                                W1[:, i:(i + groupsize)],"),
    ('C28', GQ, "                Q = Q[:, invperm]\n", "                Q = Q[:, perm]\n"),
    ('C29', SG, "torch.topk(tmp, prunen, dim=1, largest=False)[1]", "torch.topk(tmp, prunen, dim=1, largest=True)[1]"),
    ('C29', SG, "tmp.flatten())[0][num_pruned - 1]", "tmp.flatten())[0][num_pruned]"),
    ('C29', SG, "            W[:, dead] = 0\n", ""),
    ('C29', SG, "                W[:, i2:] -= Err1.matmul(Hinv[i1:i2, i2:])", "                W[:, i2:] -= Err1.matmul(Hinv[i1:i2, i2:]) / 2"),
    ('C29', SG, "                    if prunen != 0 and i % prunem == 0:", "                    if prunen != 0 and (i1 + i) % prunem == 0 and i1 == 0:"),
]
