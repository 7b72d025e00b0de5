M = 'models/mutables/'
DV = M + 'derived_mutable.py'
CT = M + 'mutable_channel/mutable_channel_container.py'
SQ = M + 'mutable_channel/sequential_mutable_channel.py'
SU = M + 'mutable_channel/units/sequential_mutable_channel_unit.py'
OU = M + 'mutable_channel/units/one_shot_mutable_channel_unit.py'
V = M + 'mutable_value/mutable_value.py'
O = M + 'mutable_module/one_shot_mutable_module.py'
DF = M + 'mutable_module/diff_mutable_module.py'
MUTS = [
    ('C05', DV, '        expand_choice = int(mutable.current_choice * current_ratio)',
     '        expand_choice = int(round(mutable.current_choice * current_ratio))'),
    ('C05', DV, '            mask.size(0), int(_min_ratio(ratio)), divisor)',
     '            mask.size(0), int(_current_ratio(ratio)), divisor)'),
    ('C05', DV, "        for m, choice in zip(self.source_mutables, origin_choices):\n            m.current_choice = choice\n\n        return", "        return"),
    ('C05', DV, 'return all(m.is_fixed for m in', 'return any(m.is_fixed for m in'),
    ('C05', SQ, 'max_expand_ratio = mutable2.max_choice', 'max_expand_ratio = mutable2.current_choice'),
    ('C06', CT, "                    SimpleMutableChannel(start - last_end), last_end, start)\n            last_end = end",
     "                    SimpleMutableChannel(start - last_end), last_end, start)\n            last_end = max(last_end, start)"),
    ('C06', 'utils/index_dict.py', 'existed = (start < e and s < end) or existed', 'existed = (start < e and s < end)'),
    ('C06', 'utils/index_dict.py', '        self._sort()', ''),
    ('C06', CT, 'end = mutable.current_mask.size(0) + start', 'end = mutable.current_mask.size(0)'),
    ('C07', 'models/utils/make_divisible.py', 'if new_value < min_ratio * value', 'if new_value <= min_ratio * value'),
    ('C08', SU, 'make_divisible(choice_int, self.divisor, self.min_value,\n                           self.min_ratio), self.num_channels)',
     'make_divisible(choice_int, self.divisor, self.min_value), self.num_channels)'),
    ('C08', OU, 'candidate_choices_ = sorted(candidate_choices_)', 'candidate_choices_ = sorted(set(candidate_choices_))'),
    ('C08', OU, "        return self.candidate_choices[0]\n", "        return min(self.candidate_choices[-2:])\n"),
    ('C08', SU, 'num_choice = random.randint(1, self.num_channels)\n        num_choice = self._make_divisible(num_choice)',
     'num_choice = random.randint(1, self.num_channels)'),
    ('C08', SU, "                    min_value=self.min_value,\n", ""),
    ('C09', V, "        assert chosen in self.choices\n\n        self.current_choice = chosen", "        self._current_choice = chosen"),
    ('C09', V, "        value_list = sorted(value_list)\n        # set", "        # set"),
    ('C09', O, "            self.choices, weights=self.choice_probs, k=1)[0]", "            sorted(self.choices), weights=self.choice_probs, k=1)[0]"),
    ('C09', O, "assert isinstance(choice, str) and choice in self.choices\n        return self._candidates[choice](x)",
     "assert isinstance(choice, str) and choice in self.choices\n        return self._candidates[self.choices[0] if len(self.choices) == 2 else choice](x)"),
    ('C10', DF, "            if prob > 0.:\n                outputs.append(prob * module(x))", "            if prob > 0.01:\n                outputs.append(prob * module(x))"),
    ('C10', DF, "for choice, x in zip(self._unfixed_choices, inputs):\n            if choice in self._chosen:", "for choice, x in zip(self._chosen, inputs):\n            if choice in self._chosen:"),
    ('C10', DF, "sort_idx = torch.argsort(-arch_param)", "sort_idx = torch.argsort(-arch_param.abs())"),
    ('C10', DF, "arch_param, tau=self.tau, hard=self.hard, dim=-1)", "arch_param / self.tau, hard=self.hard, dim=-1)"),
    ('C10', DF, "if gap >= self.fix_threshold:", "if values[0] >= self.fix_threshold:"),
]
