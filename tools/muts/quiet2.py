"""changes that keep the behaviour: every check must stay quiet (rc 0)"""
DM = 'models/mutables/derived_mutable.py'
CA = 'structures/subnet/candidate.py'
SU = 'models/mutables/mutable_channel/units/sequential_mutable_channel_unit.py'
DI = 'models/mutables/mutable_module/diff_mutable_module.py'
IP = 'models/algorithms/pruning/ite_prune_algorithm.py'
MUTS = [
    ('C05', DM, "        expand_mask = torch.zeros(expand_num_channels).bool()\n        expand_mask[:expand_choice] = True\n\n        return expand_mask", "        return torch.arange(expand_num_channels) < expand_choice"),
    ('C05', DM, "        expand_mask = torch.zeros(expand_num_channels).bool()\n        expand_mask[:expand_choice] = True\n\n        return expand_mask", "        return torch.cat([torch.ones(expand_choice, dtype=torch.bool), torch.zeros(expand_num_channels - expand_choice, dtype=torch.bool)])"),
    ('C05', DM, "    new_x = x // ratio\n\n    return make_divisible(new_x, divisor)  # type: ignore", "    return make_divisible(int(x / ratio), divisor)"),
    ('C15', 'engine/runner/utils/check.py', "        if results[k] < v[0] or results[k] > v[1]:\n            return False, results\n\n    return True, results", "        low, high = v\n        if not low <= results[k] <= high:\n            return False, results\n\n    return True, results"),
    ('C15', 'engine/runner/utils/check.py', "    for k, v in constraints_range.items():\n        if not isinstance(v, (list, tuple)):\n            v = (0, v)\n        if results[k] < v[0] or results[k] > v[1]:\n            return False, results\n\n    return True, results", "    ranges = {\n        k: v if isinstance(v, (list, tuple)) else (0, v)\n        for k, v in constraints_range.items()\n    }\n    ok = all(r[0] <= results[k] and results[k] <= r[1]\n             for k, r in ranges.items())\n    return ok, results"),
    ('C13', CA, "        self.data.sort(\n            key=lambda x: list(x.values())[0][key_indicator], reverse=reverse)", "        self.data = sorted(\n            self.data,\n            key=lambda x: next(iter(x.values()))[key_indicator],\n            reverse=reverse)"),
    ('C16', CA, "        self.data.sort(\n            key=lambda x: list(x.values())[0][key_indicator], reverse=reverse)", "        self.data = sorted(\n            self.data,\n            key=lambda x: next(iter(x.values()))[key_indicator],\n            reverse=reverse)"),
    ('C13', CA, "        for i, item in enumerate(self.data[start:end]):\n            for _, value in item.items():\n                value.update(resources[i])", "        for item, resource in zip(self.data[start:end], resources):\n            for value in item.values():\n                value.update(resource)"),
    ('C08', SU, "        return min(\n            make_divisible(choice_int, self.divisor, self.min_value,\n                           self.min_ratio), self.num_channels)", "        rounded = make_divisible(\n            choice_int,\n            self.divisor,\n            min_value=self.min_value,\n            min_ratio=self.min_ratio)\n        if rounded > self.num_channels:\n            return self.num_channels\n        return rounded"),
    ('C08', SU, "        num_choice = random.randint(1, self.num_channels)", "        num_choice = random.choice(range(1, self.num_channels + 1))"),
    ('C08', SU, "        num_choice = random.randint(1, self.num_channels)", "        num_choice = random.randrange(1, self.num_channels + 1)"),
    ('C10', DI, "        return F.softmax(arch_param, -1)", "        return arch_param.softmax(dim=-1)"),
    ('C10', DI, "        return F.softmax(arch_param, -1)", "        e = torch.exp(arch_param - arch_param.max())\n        return e / e.sum()"),
    ('C20', IP, "                prune_current[key] = (self.target[key] - self.supernet[key]\n                                      ) * ratio + self.supernet[key]", "                start, end = self.supernet[key], self.target[key]\n                prune_current[key] = start + (end - start) * ratio"),
    ('C20', IP, "        times = iteration // self.step_freq + 1\n        assert times <= self.prune_times\n        prune_current = {}\n        ratio = times / self.prune_times\n", "        done, _ = divmod(iteration, self.step_freq)\n        assert done < self.prune_times\n        prune_current = dict()\n        ratio = (done + 1) / self.prune_times\n"),
]
U = 'implementations/pruning/group_fisher/unit.py'
O = 'models/observers/lsq.py'
CR = 'models/losses/crd_loss.py'
MUTS += [
    ('C30', U, "            index = imp.argmin()\n            self.mutable_channel.mask.scatter_(0, index, 0.0)", "            index = torch.min(imp, dim=0)[1]\n            self.mutable_channel.mask[index] = 0.0"),
    ('C30', U, "        n_mask = (1 - mask.float()).bool()\n        fisher.masked_fill_(n_mask, fisher.max() + 1)\n        return fisher", "        return torch.where(mask.bool(), fisher, fisher.max() + 1)"),
    ('C30', U, "        n_mask = (1 - mask.float()).bool()\n        fisher.masked_fill_(n_mask, fisher.max() + 1)\n        return fisher", "        fisher[~mask.bool()] = fisher.max() + 1\n        return fisher"),
    ('C27', O, "        self.tensor_norm = y.abs().mean(1)\n", "        self.tensor_norm = y.abs().sum(1) / y.size(1)\n"),
    ('C27', O, "        new_axis_list = [i for i in range(len(x_dim))]  # noqa: C416\n        new_axis_list[self.ch_axis] = 0\n        new_axis_list[0] = self.ch_axis\n        y = x.permute(new_axis_list)", "        y = x.transpose(0, self.ch_axis)"),
    ('C27', O, "        min_val_cur, max_val_cur = torch.aminmax(x)\n        min_val = torch.min(min_val_cur, self.min_val)\n        max_val = torch.max(max_val_cur, self.max_val)\n", "        min_val = torch.minimum(x.min(), self.min_val)\n        max_val = torch.maximum(x.max(), self.max_val)\n"),
    ('C33', CR, "        log_D1 = torch.div(P_pos, P_pos.add(m * Pn + self.eps)).log_()", "        log_D1 = torch.log(P_pos / (P_pos + (m * Pn + self.eps)))"),
    ('C33', CR, "log_D0 = torch.div(P_neg.clone().fill_(m * Pn),\n                           P_neg.add(m * Pn + self.eps)).log_()", "log_D0 = torch.log(torch.full_like(P_neg, m * Pn) / (\n            P_neg + m * Pn + self.eps))"),
    ('C33', CR, "loss = -(log_D1.sum(0) + log_D0.view(-1, 1).sum(0)) / bsz", "loss = -(log_D1.sum(0, keepdim=True).reshape(1) + log_D0.sum().reshape(1)) / bsz"),
    ('C24', CR, "        log_D1 = torch.div(P_pos, P_pos.add(m * Pn + self.eps)).log_()", "        log_D1 = torch.log(P_pos / (P_pos + (m * Pn + self.eps)))"),
]
CMI = 'models/architectures/dynamic_ops/mixins/dynamic_conv_mixins.py'
QZ = 'implementations/quantization/gptq/quantizer.py'
CB = 'engine/runner/utils/calibrate_bn_mixin.py'
DA = 'models/algorithms/nas/darts.py'
MUTS += [
    ('C01', CMI, "            target_weight = F.linear(target_weight, trans_matrix)", "            target_weight = target_weight @ trans_matrix.t()"),
    ('C01', CMI, "            target_weight = F.linear(target_weight, trans_matrix)", "            target_weight = torch.einsum('nk,jk->nj', target_weight, trans_matrix)"),
    ('C28', QZ, "        q = torch.clamp(torch.round(x / scale) + zero, 0, maxq)\n        return scale * (q - zero)", "        q = x.div(scale).round().add(zero)\n        q = q.clamp(min=0)\n        q = torch.minimum(q, maxq.to(q.dtype))\n        return (q - zero) * scale"),
    ('C28', QZ, "        tmp = torch.zeros(x.shape[0], device=dev)\n        xmin = torch.minimum(x.min(1)[0], tmp)\n        xmax = torch.maximum(x.max(1)[0], tmp)\n", "        xmin = x.amin(1).clamp(max=0)\n        xmax = x.amax(1).clamp(min=0)\n"),
    ('C28', QZ, "        xmin[tmp] = -1\n        xmax[tmp] = +1\n", "        xmin = torch.where(tmp, -torch.ones_like(xmin), xmin)\n        xmax = torch.where(tmp, torch.ones_like(xmax), xmax)\n"),
    ('C19', CB, "            mean = real_input.mean(dims)\n            var = real_input.var(dims, unbiased=True)\n", "            var, mean = torch.var_mean(real_input, dims, unbiased=True)\n"),
    ('C19', CB, "            mean = real_input.mean(dims)\n            var = real_input.var(dims, unbiased=True)\n", "            flat = real_input.transpose(0, 1).flatten(1)\n            mean = flat.mean(1)\n            var = ((flat - mean[:, None])**2).sum(1) / (flat.size(1) - 1)\n"),
    ('C37', DA, "                w -= lr * (momentum * m + w.grad + weight_decay * w)", "                step = w.grad + weight_decay * w + momentum * m\n                w.sub_(step * lr)"),
    ('C37', DA, "            for param, d, h in zip(w_arch, d_arch, hessian):\n                # gradient = dalpha - lr * hessian\n                param.grad = d - lr * h", "            for i, param in enumerate(w_arch):\n                param.grad = d_arch[i].sub(hessian[i], alpha=lr)"),
    ('C37', DA, "        norm = torch.cat([w.view(-1) for w in dw]).norm()", "        norm = torch.linalg.norm(torch.cat([w.flatten() for w in dw]))"),
    ('C37', DA, "        norm = torch.cat([w.view(-1) for w in dw]).norm()", "        norm = sum((w**2).sum() for w in dw).sqrt()"),
]
