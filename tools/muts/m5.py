T = 'models/task_modules/'
MR = T + 'recorder/method_outputs_recorder.py'
BR = T + 'recorder/base_recorder.py'
FR = T + 'recorder/function_outputs_recorder.py'
MD = T + 'delivery/method_outputs_delivery.py'
CD = 'models/distillers/configurable_distiller.py'
L = 'models/losses/'
MUTS = [
    ('C21', MR, "            data_buffer.append(outputs)\n", "            if outputs is not None:\n                data_buffer.append(outputs)\n"),
    ('C21', BR, "        self.reset_data_buffer()\n\n    def __exit__", "        if len(self._data_buffer) > 1:\n            self.reset_data_buffer()\n\n    def __exit__"),
    ('C21', FR, "        origin_func = self.origin_func\n", "        origin_func = getattr(mod, self.func_name).__wrapped__\n"),
    ('C21', MR, "        if self._is_static:\n            record_method = staticmethod(record_method)\n", ""),
    ('C21', BR, "            if isinstance(record, (list, tuple)):", "            if isinstance(record, (list, )):"),
    ('C22', MD, "self.data_queue.popleft()", "self.data_queue.pop()"),
    ('C22', MD, "                assert len(self.data_queue) < self.data_queue.maxlen,\\\n                    'push into an full queue'\n", ""),
    ('C22', MD, "        if self._own_method is None:\n            delattr(self.imported_cls, self.method_name)\n        else:\n            setattr(self.imported_cls, self.method_name, self._own_method)",
     "        setattr(self.imported_cls, self.method_name, self.origin_method)"),
    ('C23', CD, "        if connector_idx is not None:", "        if connector_idx:"),
    ('C23', CD, "recorder_.get_record_data(record_idx, data_idx)", "recorder_.get_record_data(record_idx, data_idx or None)"),
    ('C23', CD, "            recorder_ = self.teacher_recorders.get_recorder(recorder)", "            recorder_ = self.teacher_recorders.get_recorder(\n                recorder) if connector is None else \\\n                self.student_recorders.recorders.get(\n                    recorder, self.teacher_recorders.recorders.get(recorder))"),
    ('C24', L + 'kl_divergence.py', "loss = (self.tau**2) * F", "loss = self.tau * F"),
    ('C24', L + 'decoupled_kd.py', "            kl_loss = kl_loss.sum(dim=1)", "            kl_loss = kl_loss.mean(dim=1)"),
    ('C24', L + 'relational_kd.py', "mean_d_S = d_S[d_S > 0].mean()", "mean_d_S = d_S.mean()"),
    ('C24', L + 'ofd_loss.py', "(s_feature > t_feature) | (t_feature > 0)", "(s_feature > 0) | (t_feature > 0)"),
    ('C24', L + 'cwd.py', "(C * N)", "(C * N if N > 1 else C + 0 * N)"),
    ('C24', L + 'dist_loss.py', "y_s.transpose(0, 1), y_t.transpose(0, 1)", "y_s.transpose(0, 1).contiguous(), y_t.transpose(0, 1).flip(1)"),
    ('C24', L + 'at_loss.py', "x.pow(2).mean(1)", "x.abs().mean(1)"),
    ('C24', L + 'dafl_loss.py', "info_entropy = class_prob * torch.log10(class_prob)", "info_entropy = class_prob * torch.log2(class_prob)"),
    ('C24', L + 'weighted_soft_label_distillation.py', "1 - torch.exp(-focal_weight)", "1 - torch.exp(-focal_weight / self.tau)"),
    ('C24', L + 'pkd_loss.py', "unbiased=False", "unbiased=True"),
    ('C24', L + 'crd_loss.py', "m * Pn", "m * Pn + eps"),
]
