"""changes that keep the behaviour: every check must stay quiet (rc 0)"""
CM = 'models/architectures/dynamic_ops/mixins/dynamic_conv_mixins.py'
L = 'models/losses/'
R = 'models/task_modules/recorder/'
MUTS = [
    ('C01', CM, "            weight = weight[out_mask][:, in_mask]", "            weight = weight[:, in_mask][out_mask]"),
    ('C01', CM, "            weight = weight[out_mask][:, in_mask]", "            weight = weight.index_select(0, out_mask.nonzero().flatten()).index_select(1, in_mask.nonzero().flatten())"),
    ('C01', CM, "in_per_group = in_mask_.sum(dim=-1)[0].item()", "in_per_group = int(torch.count_nonzero(in_mask_[0]))"),
    ('C01', CM, "            mask = out_mask_.unsqueeze(-1) * in_mask_.unsqueeze(\n                -2)  # G out/G in/G", "            mask = torch.einsum('go,gi->goi', out_mask_.float(), in_mask_.float()) > 0"),
    ('C01', CM, "            groups = mutable_in_channels.current_mask.sum().item()", "            groups = len([m for m in mutable_in_channels.current_mask.tolist() if m])"),
    ('C24', L + 'kl_divergence.py', "        softmax_pred_T = F.softmax(preds_T / self.tau, dim=1)\n        logsoftmax_preds_S = F.log_softmax(preds_S / self.tau, dim=1)\n", "        logsoftmax_preds_S = (preds_S / self.tau).log_softmax(1)\n        softmax_pred_T = (preds_T / self.tau).softmax(1)\n"),
    ('C24', L + 'cwd.py', "loss = torch.sum(softmax_pred_T *\n                         logsoftmax(preds_T.view(-1, W * H) / self.tau) -\n                         softmax_pred_T *\n                         logsoftmax(preds_S.view(-1, W * H) / self.tau)) * (\n                             self.tau**2)", "loss = (softmax_pred_T * (logsoftmax(preds_T.reshape(N * C, -1) / self.tau) - logsoftmax(preds_S.reshape(N * C, -1) / self.tau))).sum() * self.tau * self.tau"),
    ('C24', L + 'relational_kd.py', "    prod = torch.mm(pred, pred.t())  # (N, N)", "    prod = pred @ pred.transpose(0, 1)"),
    ('C24', L + 'relational_kd.py', "    distance[range(len(prod)), range(len(prod))] = 0", "    distance.fill_diagonal_(0)"),
    ('C24', L + 'relational_kd.py', "    angle = torch.bmm(norm_pred_vec,\n                      norm_pred_vec.transpose(1, 2)).view(-1)  # (N*N*N, )", "    angle = torch.einsum('nic,njc->nij', norm_pred_vec, norm_pred_vec).flatten()"),
    ('C07', 'models/utils/make_divisible.py', "    new_value = max(min_value, int(value + divisor / 2) // divisor * divisor)", "    new_value = int(value + divisor / 2)\n    new_value -= new_value % divisor\n    if new_value < min_value:\n        new_value = min_value"),
    ('C14', 'engine/runner/utils/genetic.py', "    crossover_subnet = copy.deepcopy(random_subnet1)\n    for group_id, choice in random_subnet2.items():\n        if np.random.random_sample() < prob:\n            crossover_subnet[group_id] = choice\n    return crossover_subnet", "    result = {}\n    result.update(copy.deepcopy(random_subnet1))\n    for group_id in random_subnet2:\n        take_second = np.random.rand() < prob\n        if not take_second:\n            continue\n        result[group_id] = random_subnet2[group_id]\n    return result"),
    ('C41', CM, "        softmax = nn.Softmax(dim=1)\n        layeri_softmaxp = softmax(layeri_negaEudist / tau)", "        layeri_softmaxp = torch.softmax(layeri_negaEudist / tau, -1)"),
    ('C41', CM, "        _, topm_ids_order = torch.topk(\n            layeri_iscore_kl, int(real_out), sorted=False)", "        topm_ids_order = torch.argsort(\n            layeri_iscore_kl, descending=True)[:int(real_out)]"),
    ('C41', CM, "        _, topm_ids_order = torch.topk(\n            layeri_iscore_kl, int(real_out), sorted=False)", "        topm_ids_order = layeri_iscore_kl.sort()[1].flip(0)[:int(real_out)]"),
    ('C41', CM, "        layeri_kl = torch.mean((log_p - log_q), dim=2)", "        layeri_kl = (log_p - log_q).sum(2) / log_p.size(2)"),
    ('C41', 'models/algorithms/pruning/dcff.py', "        A = 2 * (t_e - t_s) * (1 + math.exp(-k * max_num)) / (\n            1 - math.exp(-k * max_num))\n        T = A / (1 + math.exp(-k * cur_num)) + t_s - A / 2\n        t = 1 / T\n        return t", "        e = math.exp(-k * max_num)\n        A = 2 * (t_e - t_s) * (1 + e) / (1 - e)\n        half = A / 2\n        return 1 / (A / (1 + math.exp(-k * cur_num)) + (t_s - half))"),
    ('C27', 'models/fake_quants/lsq.py', "grad_factor = 1.0 / (X.numel() * self.quant_max)**0.5", "grad_factor = (X.numel() * self.quant_max)**-0.5"),
    ('C28', 'implementations/quantization/gptq/gptq.py', "                g_idx = g_idx[invperm]\n", "                g_idx = torch.index_select(g_idx, 0, invperm)\n"),
    ('C28', 'implementations/quantization/gptq/gptq.py', "                invperm = torch.argsort(perm)\n", "                invperm = torch.empty_like(perm)\n                invperm[perm] = torch.arange(len(perm), device=perm.device)\n"),
    ('C28', 'implementations/quantization/gptq/gptq.py', "                W = W[:, perm]\n                H = H[perm][:, perm]", "                W = W.index_select(1, perm)\n                H = H[:, perm][perm, :]"),
    ('C34', 'models/quantizers/exporters/optim_utils.py', "            node_name = root.pop()", "            node_name = root.pop(0)"),
    ('C30', 'implementations/pruning/group_fisher/unit.py', "return (fisher**2).sum(0)", "return fisher.pow(2).sum(dim=0)"),
    ('C40', 'models/mutators/channel_mutator/dmcp_channel_mutator.py', "torch.cumprod(condition_prob, dim=0)", "condition_prob.cumprod(0)"),
    ('C40', 'models/mutators/channel_mutator/dmcp_channel_mutator.py', "group_size * random.randint(0, num_groups)", "group_size * random.choice(range(num_groups + 1))"),
]
