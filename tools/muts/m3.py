G = 'models/mutators/group_mixin.py'
NM = 'models/mutators/nas_mutator.py'
FX = 'structures/subnet/fix_subnet.py'
CA = 'structures/subnet/candidate.py'
GE = 'engine/runner/utils/genetic.py'
CK = 'engine/runner/utils/check.py'
MUTS = [
    ('C11', G, "                            search_groups[group_name].append(\n                                name2mutable[mutable_name])\n                            grouped_mutable_names.append(mutable_name)",
     "                            search_groups[group_name].append(\n                                name2mutable[mutable_name])\n                    grouped_mutable_names.extend(mutable_names)"),
    ('C11', G, "                    if mutable_name not in grouped_mutable_names:\n                        flag_all_grouped = False", "                    flag_all_grouped = mutable_name in \\\n                        grouped_mutable_names"),
    ('C11', NM, "                min_choices[name] = mutables[0].min_choice", "                min_choices[name] = mutables[-1].min_choice"),
    ('C11', NM, "            choice = self.min_choices[name]", "            choice = self.max_choices[name] if len(mutables) > 1 \\\n                else self.min_choices[name]"),
    ('C12', FX, "            if prefix and name.startswith(prefix):", "            if prefix and prefix in name:"),
    ('C12', FX, "        fix_subnet[mutable.alias or name] = mutable.dump_chosen()", "        fix_subnet[name] = mutable.dump_chosen()"),
    ('C12', FX, "                names.setdefault(source_mutable, name)", "                names[source_mutable] = name"),
    ('C12', FX, "        if not module.is_fixed:\n            module.fix_chosen(chosen.chosen)", "        if not module.is_fixed:\n            module.fix_chosen(chosen.chosen)\n        elif hasattr(module, '_chosen'):\n            module._chosen = chosen.chosen"),
    ('C13', CA, "        self.data.insert(i, item)", "        self.data.insert(min(i, len(self.data) - 1), item)"),
    ('C13', CA, "        for i, item in enumerate(self.data[start:end]):", "        for i, item in enumerate(self.data[start:]):\n            if i >= len(resources):\n                continue"),
    ('C13', CA, "key=lambda x: list(x.values())[0][key_indicator], reverse=reverse)", "key=lambda x: round(list(x.values())[0][key_indicator], 2),\n            reverse=reverse)"),
    ('C13', CA, "                    for key in list(self._indicators):\n                        value.setdefault(key, 0.)", "                    for key in list(self._indicators):\n                        value[key] = value.get(key) or 0."),
    ('C13', CA, "        for _, value in self.data[i].items():\n            value[key_indicator] = resources", "        for _, value in self.data[i].items():\n            if resources:\n                value[key_indicator] = resources"),
    ('C14', GE, "        if np.random.random_sample() < prob:", "        if group_id not in crossover_subnet:\n            continue\n        if np.random.random_sample() <= prob:"),
    ('C14', GE, "copy.deepcopy(random_subnet1)", "copy.copy(random_subnet1)"),
    ('C14', GE, "        if np.random.random_sample() < prob:", "        if np.random.random_sample() > prob:"),
    ('C15', CK, "results[k] < v[0] or results[k] > v[1]", "results[k] < v[0] or results[k] >= v[1]"),
    ('C15', CK, "            return False, results\n", "            return False, results\n        elif k == 'flops':\n            break\n"),
    ('C15', CK, "            v = (0, v)", "            v = (v * 0.5, v)"),
]
