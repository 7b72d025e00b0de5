DC = 'models/architectures/dynamic_ops/mixins/dynamic_conv_mixins.py'
AL = 'models/algorithms/pruning/dcff.py'
MU = 'models/mutators/channel_mutator/dcff_channel_mutator.py'
MUTS = [
    ('C41', DC, "        softmax = nn.Softmax(dim=1)", "        softmax = nn.Softmax(dim=0)"),
    ('C41', DC, "softmax(layeri_negaEudist / tau)", "softmax(layeri_negaEudist * tau)"),
    ('C41', DC, "layeri_iscore_kl, int(real_out), sorted=False)", "layeri_iscore_kl, int(real_out), largest=False, sorted=False)"),
    ('C41', DC, "torch.cdist(layeri_param, layeri_param, p=2)", "torch.cdist(layeri_param, layeri_param, p=1)"),
    ('C41', DC, "        return layeri_softmaxp[topm_ids_order, :]", "        return layeri_softmaxp[:int(real_out), :]"),
    ('C41', AL, "        t = 1 / T", "        t = 1 / T if cur_num < max_num // 2 else 1 / T + 1e-3"),
    ('C41', AL, "        if self.training:\n            # In DCFF", "        if mode != 'predict':\n            # In DCFF"),
    ('C41', AL, "self._calc_temperature(self._iter,\n                                                     self._max_iters)", "self._calc_temperature(\n                    self._iter, self._max_iters // 2)"),
    ('C41', MU, "                if isinstance(channel.module, FuseConv2d):", "                if isinstance(channel.module, FuseConv2d) and layerid:"),
]
