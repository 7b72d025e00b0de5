D = 'models/architectures/dynamic_ops/'
C = D + 'mixins/dynamic_conv_mixins.py'
N = D + 'bricks/dynamic_norm.py'
A = D + 'bricks/dynamic_multi_head_attention.py'
P = D + 'bricks/dynamic_embed.py'
R = D + 'bricks/dynamic_relative_position.py'
MUTS = [
    ('C01', C, '            groups = x.size(1)\n        weight',
     '            groups = x.size(1) if self.kernel_size[0] > 1 else 1\n        weight'),
    ('C01', C, 'for i in range(len(self.kernel_size_list) - 1, 0, -1):\n            source_kernel_size = self.kernel_size_list[i]\n            if source_kernel_size <= current_kernel_size:',
     'for i in range(len(self.kernel_size_list) - 1, 0, -1):\n            source_kernel_size = self.kernel_size_list[i]\n            if source_kernel_size < current_kernel_size:'),
    ('C01', C, '            weight[:, :, start_offset:end_offset, start_offset:end_offset]',
     '            weight[:, :, :current_kernel_size, :current_kernel_size]'),
    ('C01', C, '''                                    weight.reshape(cout,
                                                   -1)).reshape(-1, cin, k, k)
        elif''', '''                                    weight.reshape(cout,
                                                   -1)).reshape(-1, cin, k, k).transpose(2, 3)
        elif'''),
    ('C01', C, 'bias = self.bias[out_mask] if self.bias is not None else None',
     'bias = self.bias[:int(out_mask.sum())] if self.bias is not None else None'),
    ('C01', C, "            stride=self.stride,\n            padding=padding,\n            padding_mode=self.padding_mode,\n            dilation=self.dilation,",
     "            stride=self.stride,\n            padding=self.padding,\n            padding_mode=self.padding_mode,\n            dilation=self.dilation,"),
    ('C01', C, "            dilation=self.dilation,\n            groups=groups,",
     "            groups=groups,"),
    ('C02', N, 'num, self.eps, self.momentum, self.affine,',
     'num, self.eps, 0.1, self.affine,'),
    ('C02', N, '            self.running_var.masked_scatter_(out_mask, running_var)',
     '            self.running_var.masked_scatter_(out_mask, running_mean)'),
    ('C02', N, '                    exponential_average_factor = 1.0 / float(\n                        self.num_batches_tracked)',
     '                    exponential_average_factor = 1.0 / float(\n                        self.num_batches_tracked + 1)'),
    ('C02', N, '        if num_groups == 0 or size_x[1] == min_ch:', '        if num_groups == 0 or size_x[1] <= min_ch + 1:'),
    ('C02', N, 'normalized_shape, weight, bias, self.eps)', 'normalized_shape, weight, bias, 1e-5)'),
    ('C03', A, "            qk_scale=self.scale,", "            qk_scale=None,"),
    ('C03', A, "weight = w.weight[:out_features, :in_features]\n        bias = w.bias[:out_features] if w.bias is not None else None\n\n        return weight, bias\n\n    def _get_dynamic_num",
     "weight = w.weight[:out_features, :in_features]\n        bias = w.bias[-out_features:] if w.bias is not None else None\n\n        return weight, bias\n\n    def _get_dynamic_num"),
    ('C03', A, "            static_mha.rel_pos_embed_v = self.rel_pos_embed_v.to_static_op()",
     "            static_mha.rel_pos_embed_v = self.rel_pos_embed_k.to_static_op()"),
    ('C03', R, "self.embeddings_table_h[:, :self.current_head_dim].clone())",
     "self.embeddings_table_v[:, :self.current_head_dim].clone())"),
    ('C03', P, "            weight = self.projection.weight[out_mask][:]",
     "            weight = self.projection.weight[:int(out_mask.sum())][:]"),
    ('C04', P, "        dynamic_patch_embed.num_patches = module.num_patches\n", ""),
    ('C04', A, "            v_shortcut=module.v_shortcut)\n        return dynamic_mha", "            )\n        return dynamic_mha"),
    ('C04', N, "            momentum=module.momentum,\n", ""),
    ('C04', N, "            eps=module.eps,\n            elementwise", "            elementwise"),
]
