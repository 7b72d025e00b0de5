From eca829a6628ad7f1dd2ef9fff98d3d15834f60a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:49 +0000
Subject: [PATCH 01/74] fix: group-wise dynamic conv with a smaller searched
 kernel size

---
 .../architectures/dynamic_ops/mixins/dynamic_conv_mixins.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mmrazor/models/architectures/dynamic_ops/mixins/dynamic_conv_mixins.py b/mmrazor/models/architectures/dynamic_ops/mixins/dynamic_conv_mixins.py
index cf63ec1..3d02347 100644
--- a/mmrazor/models/architectures/dynamic_ops/mixins/dynamic_conv_mixins.py
+++ b/mmrazor/models/architectures/dynamic_ops/mixins/dynamic_conv_mixins.py
@@ -188,8 +188,10 @@ class DynamicConvMixin(DynamicChannelMixin):
             mask = mask.flatten()
             weight = weight.flatten(0, 1)
             weight = weight[mask]
-            weight = weight.reshape(
-                [self.groups * out_per_group, in_per_group, *self.kernel_size])
+            # the kernel may be smaller than `self.kernel_size`
+            weight = weight.reshape([
+                self.groups * out_per_group, in_per_group, *weight.shape[1:]
+            ])
 
         bias = self.bias[out_mask] if self.bias is not None else None
         return weight, bias
-- 
2.43.0


From ff3c3f81406f6d4b8b8b80f892b81442c752339d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:34 +0000
Subject: [PATCH 02/74] fix: detect index ranges that cover an existing one

---
 mmrazor/utils/index_dict.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mmrazor/utils/index_dict.py b/mmrazor/utils/index_dict.py
index a053024..e2add71 100644
--- a/mmrazor/utils/index_dict.py
+++ b/mmrazor/utils/index_dict.py
@@ -48,8 +48,7 @@ class IndexDict(OrderedDict):
             start, end = __o
             existed = False
             for s, e in self.keys():
-                existed = (s <= start < e or s < end < e or
-                           (s < start and end < e)) or existed
+                existed = (start < e and s < end) or existed
 
             return existed
 
-- 
2.43.0


From fee1efcc01e6188bb46f09362f378a7c69186e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:34 +0000
Subject: [PATCH 03/74] fix: fill gaps between registered channel ranges

---
 .../mutables/mutable_channel/mutable_channel_container.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/models/mutables/mutable_channel/mutable_channel_container.py b/mmrazor/models/mutables/mutable_channel/mutable_channel_container.py
index 5706d07..f9eeecc 100644
--- a/mmrazor/models/mutables/mutable_channel/mutable_channel_container.py
+++ b/mmrazor/models/mutables/mutable_channel/mutable_channel_container.py
@@ -115,7 +115,7 @@ class MutableChannelContainer(BaseMutableChannel):
         for start, end in copy.copy(self.mutable_channels):
             if last_end < start:
                 self.register_mutable(
-                    SimpleMutableChannel(last_end - start), last_end, start)
+                    SimpleMutableChannel(start - last_end), last_end, start)
             last_end = end
         if last_end < self.num_channels:
             self.register_mutable(
-- 
2.43.0


From dc92cd8211ae5344c78a3b3fb486763bbb931758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:09 +0000
Subject: [PATCH 04/74] fix: register a channel mutable over its whole width,
 not its current choice

---
 .../mutables/mutable_channel/mutable_channel_container.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/models/mutables/mutable_channel/mutable_channel_container.py b/mmrazor/models/mutables/mutable_channel/mutable_channel_container.py
index f9eeecc..0038f31 100644
--- a/mmrazor/models/mutables/mutable_channel/mutable_channel_container.py
+++ b/mmrazor/models/mutables/mutable_channel/mutable_channel_container.py
@@ -81,7 +81,7 @@ class MutableChannelContainer(BaseMutableChannel):
         """Register a BaseMutableChannel to a module with
         MutableChannelContainers."""
         if end == -1:
-            end = mutable.current_choice + start
+            end = mutable.current_mask.size(0) + start
         if is_to_output_channel:
             container: MutableChannelContainer = module.get_mutable_attr(
                 'out_channels')
-- 
2.43.0


From 601e1c6a209f35ada118ab2ab1d0260960f56baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:00 +0000
Subject: [PATCH 05/74] fix: derived mutables follow mutable ratios, chain
 without masks and agree with their masks

---
 mmrazor/models/mutables/derived_mutable.py    | 98 +++++++++++--------
 .../sequential_mutable_channel.py             | 10 +-
 2 files changed, 63 insertions(+), 45 deletions(-)

diff --git a/mmrazor/models/mutables/derived_mutable.py b/mmrazor/models/mutables/derived_mutable.py
index ac8a8c6..d531751 100644
--- a/mmrazor/models/mutables/derived_mutable.py
+++ b/mmrazor/models/mutables/derived_mutable.py
@@ -42,34 +42,59 @@ class MutableChannelProtocol(MutableProtocol):  # pragma: no cover
         """Current mask."""
 
 
-def _expand_choice_fn(mutable: MutableProtocol,
-                      expand_ratio: Union[int, float]) -> Callable:
+def _current_ratio(ratio: Union[int, float, BaseMutable]) -> Any:
+    """Current value of a ratio, which may be a mutable itself."""
+    return ratio.current_choice if isinstance(ratio, BaseMutable) else ratio
+
+
+def _max_ratio(ratio: Union[int, float, BaseMutable]) -> Any:
+    """Largest value of a ratio, which may be a mutable itself."""
+    if isinstance(ratio, BaseMutable):
+        return max(ratio.choices)
+    return ratio
+
+
+def _min_ratio(ratio: Union[int, float, BaseMutable]) -> Any:
+    """Smallest value of a ratio, which may be a mutable itself."""
+    if isinstance(ratio, BaseMutable):
+        return min(ratio.choices)
+    return ratio
+
+
+def _has_mask(mutable: MutableProtocol) -> bool:
+    """Whether a mutable has a mask."""
+    if isinstance(mutable, DerivedMutable):
+        return mutable.mask_fn is not None
+    return hasattr(mutable, 'current_mask')
+
+
+def _expand_choice_fn(
+        mutable: MutableProtocol,
+        expand_ratio: Union[int, float, BaseMutable]) -> Callable:
     """Helper function to build `choice_fn` for expand derived mutable."""
 
     def fn():
-        return int(mutable.current_choice * expand_ratio)
+        return int(mutable.current_choice * _current_ratio(expand_ratio))
 
     return fn
 
 
 def _expand_mask_fn(
-        mutable: MutableProtocol,
-        expand_ratio: Union[int, float]) -> Callable:  # pragma: no cover
+        mutable: MutableProtocol, expand_ratio: Union[int, float, BaseMutable]
+) -> Callable:  # pragma: no cover
     """Helper function to build `mask_fn` for expand derived mutable."""
     if not hasattr(mutable, 'current_mask'):
         raise ValueError('mutable must have attribute `currnet_mask`')
 
     def fn():
         mask = mutable.current_mask
-        if isinstance(expand_ratio, int):
-            expand_num_channels = mask.size(0) * expand_ratio
-            expand_choice = mutable.current_choice * expand_ratio
-        elif isinstance(expand_ratio, float):
-            expand_num_channels = int(mask.size(0) * expand_ratio)
-            expand_choice = int(mutable.current_choice * expand_ratio)
-        else:
+        max_ratio = _max_ratio(expand_ratio)
+        current_ratio = _current_ratio(expand_ratio)
+        if not isinstance(current_ratio, (int, float)):
             raise NotImplementedError(
-                f'Not support type of expand_ratio: {type(expand_ratio)}')
+                f'Not support type of expand_ratio: {type(current_ratio)}')
+        expand_num_channels = int(mask.size(0) * max_ratio)
+        expand_choice = int(mutable.current_choice * current_ratio)
         expand_mask = torch.zeros(expand_num_channels).bool()
         expand_mask[:expand_choice] = True
 
@@ -86,18 +111,19 @@ def _divide_and_divise(x: int, ratio: int, divisor: int = 8) -> int:
 
 
 def _divide_choice_fn(mutable: MutableProtocol,
-                      ratio: int,
+                      ratio: Union[int, BaseMutable],
                       divisor: int = 8) -> Callable:
     """Helper function to build `choice_fn` for divide derived mutable."""
 
     def fn():
-        return _divide_and_divise(mutable.current_choice, ratio, divisor)
+        return _divide_and_divise(mutable.current_choice,
+                                  int(_current_ratio(ratio)), divisor)
 
     return fn
 
 
 def _divide_mask_fn(mutable: MutableProtocol,
-                    ratio: int,
+                    ratio: Union[int, BaseMutable],
                     divisor: int = 8) -> Callable:  # pragma: no cover
     """Helper function to build `mask_fn` for divide derived mutable."""
     if not hasattr(mutable, 'current_mask'):
@@ -105,9 +131,10 @@ def _divide_mask_fn(mutable: MutableProtocol,
 
     def fn():
         mask = mutable.current_mask
-        divide_num_channels = _divide_and_divise(mask.size(0), ratio, divisor)
-        divide_choice = _divide_and_divise(mutable.current_choice, ratio,
-                                           divisor)
+        divide_num_channels = _divide_and_divise(
+            mask.size(0), int(_min_ratio(ratio)), divisor)
+        divide_choice = _divide_and_divise(mutable.current_choice,
+                                           int(_current_ratio(ratio)), divisor)
         divide_mask = torch.zeros(divide_num_channels).bool()
         divide_mask[:divide_choice] = True
 
@@ -145,29 +172,14 @@ class DerivedMethodMixin:
             self: MutableProtocol,
             expand_ratio: Union[int, BaseMutable, float]) -> 'DerivedMutable':
         """Derive expand mutable, usually used with `expand_ratio`."""
-        # avoid circular import
-        if isinstance(expand_ratio, int):
-            choice_fn = _expand_choice_fn(self, expand_ratio=expand_ratio)
-        elif isinstance(expand_ratio, float):
-            choice_fn = _expand_choice_fn(self, expand_ratio=expand_ratio)
-        elif isinstance(expand_ratio, BaseMutable):
-            current_ratio = expand_ratio.current_choice
-            choice_fn = _expand_choice_fn(self, expand_ratio=current_ratio)
-        else:
+        if not isinstance(expand_ratio, (int, float, BaseMutable)):
             raise NotImplementedError(
                 f'Not support type of ratio: {type(expand_ratio)}')
+        choice_fn = _expand_choice_fn(self, expand_ratio=expand_ratio)
 
         mask_fn: Optional[Callable] = None
-        if hasattr(self, 'current_mask'):
-            if isinstance(expand_ratio, int):
-                mask_fn = _expand_mask_fn(self, expand_ratio=expand_ratio)
-            elif isinstance(expand_ratio, float):
-                mask_fn = _expand_mask_fn(self, expand_ratio=expand_ratio)
-            elif isinstance(expand_ratio, BaseMutable):
-                mask_fn = _expand_mask_fn(self, expand_ratio=current_ratio)
-            else:
-                raise NotImplementedError(
-                    f'Not support type of ratio: {type(expand_ratio)}')
+        if _has_mask(self):
+            mask_fn = _expand_mask_fn(self, expand_ratio=expand_ratio)
 
         return DerivedMutable(choice_fn=choice_fn, mask_fn=mask_fn)
 
@@ -178,18 +190,20 @@ class DerivedMethodMixin:
         from .mutable_channel import BaseMutableChannel
 
         # avoid circular import
+        current_ratio: Union[int, BaseMutable]
         if isinstance(ratio, int):
-            choice_fn = _divide_choice_fn(self, ratio=ratio, divisor=divisor)
             current_ratio = ratio
         elif isinstance(ratio, float):
             current_ratio = int(ratio)
-            choice_fn = _divide_choice_fn(self, ratio=current_ratio, divisor=1)
+            divisor = 1
         elif isinstance(ratio, BaseMutable):
-            current_ratio = int(ratio.current_choice)
-            choice_fn = _divide_choice_fn(self, ratio=current_ratio, divisor=1)
+            current_ratio = ratio
+            divisor = 1
         else:
             raise NotImplementedError(
                 f'Not support type of ratio: {type(ratio)}')
+        choice_fn = _divide_choice_fn(
+            self, ratio=current_ratio, divisor=divisor)
 
         mask_fn: Optional[Callable] = None
         if isinstance(self, BaseMutableChannel) and hasattr(
diff --git a/mmrazor/models/mutables/mutable_channel/sequential_mutable_channel.py b/mmrazor/models/mutables/mutable_channel/sequential_mutable_channel.py
index c2b4f92..ff0b24c 100644
--- a/mmrazor/models/mutables/mutable_channel/sequential_mutable_channel.py
+++ b/mmrazor/models/mutables/mutable_channel/sequential_mutable_channel.py
@@ -4,7 +4,8 @@ from typing import Callable, Union
 import torch
 
 from mmrazor.registry import MODELS
-from ..derived_mutable import DerivedMutable
+from ..derived_mutable import (DerivedMutable, _divide_choice_fn,
+                               _divide_mask_fn)
 from .simple_mutable_channel import SimpleMutableChannel
 
 # TODO discuss later
@@ -120,8 +121,11 @@ class SquentialMutableChannel(SimpleMutableChannel):
 
         from ..mutable_value import OneShotMutableValue
         if isinstance(other, OneShotMutableValue):
-            ratio = other.current_choice
-            return self.derive_divide_mutable(ratio)
+            if isinstance(other.current_choice, float):
+                return self.derive_divide_mutable(other)
+            return DerivedMutable(
+                choice_fn=_divide_choice_fn(self, other),
+                mask_fn=_divide_mask_fn(self, other))
 
         raise TypeError(f'Unsupported type {type(other)} for div!')
 
-- 
2.43.0


From 4855d45b6039d1d86fc0c50f6c3237b03d497fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:39 +0000
Subject: [PATCH 06/74] fix: a rounded unit choice never exceeds the width of
 the unit

---
 .../mutable_channel/units/sequential_mutable_channel_unit.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mmrazor/models/mutables/mutable_channel/units/sequential_mutable_channel_unit.py b/mmrazor/models/mutables/mutable_channel/units/sequential_mutable_channel_unit.py
index d32c5fe..c6513a0 100644
--- a/mmrazor/models/mutables/mutable_channel/units/sequential_mutable_channel_unit.py
+++ b/mmrazor/models/mutables/mutable_channel/units/sequential_mutable_channel_unit.py
@@ -134,8 +134,9 @@ class SequentialMutableChannelUnit(MutableChannelUnit):
     def _make_divisible(self, choice_int: int):
         """Make the choice divisible."""
         from mmrazor.models.utils import make_divisible
-        return make_divisible(choice_int, self.divisor, self.min_value,
-                              self.min_ratio)
+        return min(
+            make_divisible(choice_int, self.divisor, self.min_value,
+                           self.min_ratio), self.num_channels)
 
     def _num2ratio(self, choice: Union[int, float]) -> float:
         """Convert the a number choice to a ratio choice."""
-- 
2.43.0


From 6333eb2390a1b0b5b33b5702fa1c3ebeed4f7b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:39 +0000
Subject: [PATCH 07/74] fix: converting a number of channels to a ratio and
 back keeps the number

---
 .../mutables/mutable_channel/sequential_mutable_channel.py    | 4 +++-
 .../mutable_channel/units/sequential_mutable_channel_unit.py  | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/mmrazor/models/mutables/mutable_channel/sequential_mutable_channel.py b/mmrazor/models/mutables/mutable_channel/sequential_mutable_channel.py
index ff0b24c..5e5eae3 100644
--- a/mmrazor/models/mutables/mutable_channel/sequential_mutable_channel.py
+++ b/mmrazor/models/mutables/mutable_channel/sequential_mutable_channel.py
@@ -141,4 +141,6 @@ class SquentialMutableChannel(SimpleMutableChannel):
         if isinstance(choice, int):
             return choice
         else:
-            return max(1, int(self.num_channels * choice))
+            # tolerate float errors, so that a ratio made from a number gives
+            # the same number back
+            return max(1, int(self.num_channels * choice + 1e-6))
diff --git a/mmrazor/models/mutables/mutable_channel/units/sequential_mutable_channel_unit.py b/mmrazor/models/mutables/mutable_channel/units/sequential_mutable_channel_unit.py
index c6513a0..584169e 100644
--- a/mmrazor/models/mutables/mutable_channel/units/sequential_mutable_channel_unit.py
+++ b/mmrazor/models/mutables/mutable_channel/units/sequential_mutable_channel_unit.py
@@ -150,7 +150,9 @@ class SequentialMutableChannelUnit(MutableChannelUnit):
         if isinstance(choice, int):
             return choice
         else:
-            return max(1, int(self.num_channels * choice))
+            # tolerate float errors, so that a ratio made from a number gives
+            # the same number back
+            return max(1, int(self.num_channels * choice + 1e-6))
 
     def _make_divisible_info(self, choice, new_choice):
         logger = MMLogger.get_current_instance()
-- 
2.43.0


From c531cdb417db985483011060418cf718e5462813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:39 +0000
Subject: [PATCH 08/74] fix: one-shot channels no longer share or reorder the
 given candidate list

---
 .../mutables/mutable_channel/oneshot_mutable_channel.py       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmrazor/models/mutables/mutable_channel/oneshot_mutable_channel.py b/mmrazor/models/mutables/mutable_channel/oneshot_mutable_channel.py
index 3265b79..533bf75 100644
--- a/mmrazor/models/mutables/mutable_channel/oneshot_mutable_channel.py
+++ b/mmrazor/models/mutables/mutable_channel/oneshot_mutable_channel.py
@@ -23,10 +23,10 @@ class OneShotMutableChannel(SquentialMutableChannel):
                  choice_mode='number',
                  **kwargs):
         super().__init__(num_channels, choice_mode, **kwargs)
-        candidate_choices.sort()
-        self.candidate_choices = candidate_choices
+        candidate_choices = sorted(candidate_choices)
         if candidate_choices == []:
             candidate_choices.append(num_channels if self.is_num_mode else 1.0)
+        self.candidate_choices = candidate_choices
 
     @property
     def current_choice(self) -> Union[int, float]:
-- 
2.43.0


From 308cfe413cdf12bafbb9961481c7cb3312d18ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:32 +0000
Subject: [PATCH 09/74] fix: fixing a fixed channel mutable again does not
 change its choice

---
 .../models/mutables/mutable_channel/base_mutable_channel.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mmrazor/models/mutables/mutable_channel/base_mutable_channel.py b/mmrazor/models/mutables/mutable_channel/base_mutable_channel.py
index 65d5a44..a3b2f4e 100644
--- a/mmrazor/models/mutables/mutable_channel/base_mutable_channel.py
+++ b/mmrazor/models/mutables/mutable_channel/base_mutable_channel.py
@@ -50,14 +50,14 @@ class BaseMutableChannel(BaseMutable, DerivedMethodMixin):
 
     def fix_chosen(self, chosen=None):
         """Fix the mutable  with chosen."""
-        if chosen is not None:
-            self.current_choice = chosen
-
         if self.is_fixed:
             raise AttributeError(
                 'The mode of current MUTABLE is `fixed`. '
                 'Please do not call `fix_chosen` function again.')
 
+        if chosen is not None:
+            self.current_choice = chosen
+
         self.is_fixed = True
 
     def dump_chosen(self) -> DumpChosen:
-- 
2.43.0


From b662098c0b6d1c4f696d35e6553b0081c6ff914b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:13 +0000
Subject: [PATCH 10/74] fix: searchable operations reject foreign choices, keep
 given configs and fix to the strongest candidate

---
 .../mutable_module/diff_mutable_module.py     | 22 ++++++++++++-------
 .../mutable_module/one_shot_mutable_module.py |  5 ++++-
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/mmrazor/models/mutables/mutable_module/diff_mutable_module.py b/mmrazor/models/mutables/mutable_module/diff_mutable_module.py
index e524ec6..3f6d0ac 100644
--- a/mmrazor/models/mutables/mutable_module/diff_mutable_module.py
+++ b/mmrazor/models/mutables/mutable_module/diff_mutable_module.py
@@ -148,7 +148,7 @@ class DiffMutableOP(DiffMutableModule):
         for name, op_cfg in candidates.items():
             assert name not in ops
             if module_kwargs is not None:
-                op_cfg.update(module_kwargs)
+                op_cfg = {**op_cfg, **module_kwargs}
             ops[name] = MODELS.build(op_cfg)
         return ops
 
@@ -221,6 +221,10 @@ class DiffMutableOP(DiffMutableModule):
         if isinstance(chosen, str):
             chosen = [chosen]
 
+        for c in chosen:
+            assert c in self.choices, \
+                f'Expected chosen in {self.choices}, but got: {c}'
+
         for c in self.choices:
             if c not in chosen:
                 self._candidates.pop(c)
@@ -311,11 +315,10 @@ class OneHotMutableOP(DiffMutableOP):
 
         if not self.is_fixed:
             self.arch_weights = self.sample_weights(arch_param, probs)
-            sorted_param = torch.topk(probs, 2)
-            index = (
-                sorted_param[0][0] - sorted_param[0][1] >= self.fix_threshold)
-            if index:
-                self.fix_chosen(self.choices[index])
+            values, indices = torch.topk(probs, min(2, len(probs)))
+            gap = values[0] - values[1] if len(probs) > 1 else values[0]
+            if gap >= self.fix_threshold:
+                self.fix_chosen(self.choices[indices[0].item()])
 
         if self.is_fixed:
             index = self.choices.index(self._chosen[0])
@@ -496,13 +499,16 @@ class DiffChoiceRoute(DiffMutableModule):
         Args:
             chosen (list(str)): the chosen key in ``MUTABLE``.
         """
-        self._unfixed_choices = self.choices
-
         if self.is_fixed:
             raise AttributeError(
                 'The mode of current MUTABLE is `fixed`. '
                 'Please do not call `fix_chosen` function again.')
 
+        for c in chosen:
+            assert c in self.choices, \
+                f'Expected chosen in {self.choices}, but got: {c}'
+
+        self._unfixed_choices = self.choices
         for c in self.choices:
             if c not in chosen:
                 self._candidates.pop(c)
diff --git a/mmrazor/models/mutables/mutable_module/one_shot_mutable_module.py b/mmrazor/models/mutables/mutable_module/one_shot_mutable_module.py
index 434b050..cf3c7fe 100644
--- a/mmrazor/models/mutables/mutable_module/one_shot_mutable_module.py
+++ b/mmrazor/models/mutables/mutable_module/one_shot_mutable_module.py
@@ -173,7 +173,7 @@ class OneShotMutableOP(OneShotMutableModule):
         for name, op_cfg in candidates.items():
             assert name not in ops
             if module_kwargs is not None:
-                op_cfg.update(module_kwargs)
+                op_cfg = {**op_cfg, **module_kwargs}
             ops[name] = MODELS.build(op_cfg)
         return ops
 
@@ -231,6 +231,9 @@ class OneShotMutableOP(OneShotMutableModule):
                 'The mode of current MUTABLE is `fixed`. '
                 'Please do not call `fix_chosen` function again.')
 
+        assert chosen in self.choices, \
+            f'Expected chosen in {self.choices}, but got: {chosen}'
+
         for c in self.choices:
             if c != chosen:
                 self._candidates.pop(c)
-- 
2.43.0


From f2944eaaad2d986d296bf7e24390f30bf05c4e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:44 +0000
Subject: [PATCH 11/74] fix: search groups hold every variable once and custom
 groups may end with an alias

---
 mmrazor/models/mutators/group_mixin.py | 71 ++++++++++++--------------
 1 file changed, 32 insertions(+), 39 deletions(-)

diff --git a/mmrazor/models/mutators/group_mixin.py b/mmrazor/models/mutators/group_mixin.py
index 569f01e..f02411b 100644
--- a/mmrazor/models/mutators/group_mixin.py
+++ b/mmrazor/models/mutators/group_mixin.py
@@ -1,6 +1,6 @@
 # Copyright (c) OpenMMLab. All rights reserved.
 from collections import Counter
-from typing import Dict, List
+from typing import Dict, Iterator, List, Tuple
 
 from torch.nn import Module
 
@@ -70,17 +70,31 @@ class GroupMixin():
                 return True
         return False
 
+    def _named_mutables(
+            self, supernet: Module) -> Iterator[Tuple[str, MUTABLE_TYPE]]:
+        """Yield the name and the object of each supported mutable once.
+
+        A mutable which is only a source of derived mutables takes the name of
+        the first of them.
+        """
+        seen = {m for m in supernet.modules() if self.is_supported_mutable(m)}
+        for name, module in supernet.named_modules():
+            if self.is_supported_mutable(module):
+                yield name, module
+                continue
+            source_name = name
+            for mutable in getattr(module, 'source_mutables', ()):
+                if self.is_supported_mutable(mutable) and mutable not in seen:
+                    seen.add(mutable)
+                    yield source_name, mutable
+                    source_name = f'{name}.source{len(seen)}'
+
     def _build_name_mutable_mapping(
             self, supernet: Module) -> Dict[str, MUTABLE_TYPE]:
         """Mapping module name to mutable."""
         name2mutable: Dict[str, MUTABLE_TYPE] = dict()
-        for name, module in supernet.named_modules():
-            if self.is_supported_mutable(module):
-                name2mutable[name] = module
-            elif hasattr(module, 'source_mutables'):
-                for each_mutable in module.source_mutables:
-                    if self.is_supported_mutable(each_mutable):
-                        name2mutable[name] = each_mutable
+        for name, module in self._named_mutables(supernet):
+            name2mutable[name] = module
 
         self._name2mutable = name2mutable
 
@@ -97,16 +111,9 @@ class GroupMixin():
             else:
                 dict[key].append(name)
 
-        for name, module in supernet.named_modules():
-            if self.is_supported_mutable(module):
-                if module.alias is not None:
-                    _append(module.alias, alias2mutable_names, name)
-            elif hasattr(module, 'source_mutables'):
-                for each_mutable in module.source_mutables:
-                    if self.is_supported_mutable(each_mutable):
-                        if each_mutable.alias is not None:
-                            _append(each_mutable.alias, alias2mutable_names,
-                                    name)
+        for name, module in self._named_mutables(supernet):
+            if module.alias is not None:
+                _append(module.alias, alias2mutable_names, name)
 
         return alias2mutable_names
 
@@ -159,8 +166,7 @@ class GroupMixin():
                     group_mutables.append(name2mutable[item])
                     grouped_mutable_names.append(item)
 
-            # TODO: fix prefix when constructing custom groups.
-            prefix = name2mutable[item].mutable_prefix
+            prefix = group_mutables[-1].mutable_prefix
             group_name = prefix + '_' + str(current_group_nums)
             search_groups[group_name] = group_mutables
             current_group_nums += 1
@@ -187,25 +193,12 @@ class GroupMixin():
                     current_group_nums += 1
 
         # check whether all the mutable objects are in the search_groups
-        for name, module in supernet.named_modules():
-            if self.is_supported_mutable(module):
-                if name in grouped_mutable_names:
-                    continue
-                else:
-                    prefix = module.mutable_prefix
-                    group_name = prefix + '_' + str(current_group_nums)
-                    search_groups[group_name] = [module]
-                    current_group_nums += 1
-            elif hasattr(module, 'source_mutables'):
-                for each_mutable in module.source_mutables:
-                    if self.is_supported_mutable(each_mutable):
-                        if name in grouped_mutable_names:
-                            continue
-                        else:
-                            prefix = each_mutable.mutable_prefix
-                            group_name = prefix + '_' + str(current_group_nums)
-                            search_groups[group_name] = [each_mutable]
-                            current_group_nums += 1
+        for name, module in name2mutable.items():
+            if name not in grouped_mutable_names:
+                prefix = module.mutable_prefix
+                group_name = prefix + '_' + str(current_group_nums)
+                search_groups[group_name] = [module]
+                current_group_nums += 1
 
         grouped_counter = Counter(grouped_mutable_names)
 
-- 
2.43.0


From c18cf238606d26f667a8965ea16ea37434c024a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:26 +0000
Subject: [PATCH 12/74] fix: searchable layer norm keeps its shape, runs
 without a choice and without bias

---
 .../architectures/dynamic_ops/bricks/dynamic_norm.py  | 10 ++++++----
 .../dynamic_ops/mixins/dynamic_layernorm_mixins.py    | 11 ++++++++---
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_norm.py b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_norm.py
index eb5dd3b..0f7f6da 100644
--- a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_norm.py
+++ b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_norm.py
@@ -238,6 +238,8 @@ class DynamicLayerNorm(LayerNorm, DynamicLayerNormMixin):
             normalized_shape=module.normalized_shape,
             eps=module.eps,
             elementwise_affine=module.elementwise_affine)
+        if module.elementwise_affine and module.bias is None:
+            dynamic_ln.register_parameter('bias', None)
 
         return dynamic_ln
 
@@ -247,11 +249,11 @@ class DynamicLayerNorm(LayerNorm, DynamicLayerNormMixin):
         self._check_input_dim(input)
 
         weight, bias = self.get_dynamic_params()
-        self.normalized_shape = (
-            self.mutable_num_features.activated_channels, )
+        normalized_shape = self.normalized_shape
+        if self.mutable_num_features is not None:
+            normalized_shape = (self.mutable_num_features.activated_channels, )
 
-        return F.layer_norm(input, self.normalized_shape, weight, bias,
-                            self.eps)
+        return F.layer_norm(input, normalized_shape, weight, bias, self.eps)
 
     def _check_input_dim(self, input: Tensor) -> None:
         """Check if input dimension is valid."""
diff --git a/mmrazor/models/architectures/dynamic_ops/mixins/dynamic_layernorm_mixins.py b/mmrazor/models/architectures/dynamic_ops/mixins/dynamic_layernorm_mixins.py
index 785be99..5a20f60 100644
--- a/mmrazor/models/architectures/dynamic_ops/mixins/dynamic_layernorm_mixins.py
+++ b/mmrazor/models/architectures/dynamic_ops/mixins/dynamic_layernorm_mixins.py
@@ -29,7 +29,7 @@ class DynamicLayerNormMixin(DynamicChannelMixin):
     def mutable_num_features(self):
         """Mutable number of features."""
         assert hasattr(self, 'mutable_attrs')
-        return self.mutable_attrs['num_features']
+        return getattr(self.mutable_attrs, 'num_features', None)
 
     def register_mutable_attr(self, attr, mutable):
         """Register attribute of mutable."""
@@ -107,11 +107,14 @@ class DynamicLayerNormMixin(DynamicChannelMixin):
                 Optional[Tensor]]: Sliced running_mean, running_var, weight and
                 bias.
         """
+        if 'num_features' not in self.mutable_attrs:
+            return self.weight, self.bias
+
         out_mask = self._get_num_features_mask()
 
         if self.elementwise_affine:
             weight = self.weight[out_mask]
-            bias = self.bias[out_mask]
+            bias = self.bias[out_mask] if self.bias is not None else None
         else:
             weight, bias = self.weight, self.bias
 
@@ -132,7 +135,7 @@ class DynamicLayerNormMixin(DynamicChannelMixin):
             num_features = self.mutable_attrs['num_features'].current_mask.sum(
             ).item()
         else:
-            num_features = self.num_features
+            num_features = self.normalized_shape
 
         static_ln = self.static_op_factory(
             normalized_shape=num_features,
@@ -143,5 +146,7 @@ class DynamicLayerNormMixin(DynamicChannelMixin):
             static_ln.weight = nn.Parameter(weight.clone())
         if bias is not None:
             static_ln.bias = nn.Parameter(bias.clone())
+        elif self.elementwise_affine:
+            static_ln.register_parameter('bias', None)
 
         return static_ln
-- 
2.43.0


From e7bbb0da66c6a52369b0aaa0a1766315e1c8cce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:20 +0000
Subject: [PATCH 13/74] fix: a searchable sequence without a depth choice runs
 all its modules

---
 .../dynamic_ops/bricks/dynamic_container.py            | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_container.py b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_container.py
index 3696fe3..e927c2d 100644
--- a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_container.py
+++ b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_container.py
@@ -27,7 +27,7 @@ class DynamicSequential(Sequential, DynamicMixin):
     def mutable_depth(self):
         """Mutable depth."""
         assert hasattr(self, 'mutable_attrs')
-        return self.mutable_attrs['depth']
+        return getattr(self.mutable_attrs, 'depth', None)
 
     def register_mutable_attr(self: Sequential, attr: str,
                               mutable: BaseMutable):
@@ -58,7 +58,7 @@ class DynamicSequential(Sequential, DynamicMixin):
         self.check_if_mutables_fixed()
 
         if self.mutable_depth is None:
-            fixed_depth = len(self)
+            fixed_depth = self.pure_module_nums
         else:
             fixed_depth = self.get_current_choice(self.mutable_depth)
 
@@ -79,9 +79,9 @@ class DynamicSequential(Sequential, DynamicMixin):
     def forward(self, x: Tensor) -> Tensor:
         """Forward of Dynamic Sequential."""
         if self.mutable_depth is None:
-            return self(x)
-
-        current_depth = self.get_current_choice(self.mutable_depth)
+            current_depth = self.pure_module_nums
+        else:
+            current_depth = self.get_current_choice(self.mutable_depth)
         passed_module_nums = 0
         for module in self.pure_modules():
             passed_module_nums += 1
-- 
2.43.0


From 5878e0cb27a97715017e05bce53a58b4c8b2ff07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:20 +0000
Subject: [PATCH 14/74] fix: searchable relative positions keep their range
 when exported and run without a choice

---
 .../dynamic_ops/bricks/dynamic_relative_position.py    | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_relative_position.py b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_relative_position.py
index 572880a..0c11bb5 100644
--- a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_relative_position.py
+++ b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_relative_position.py
@@ -43,7 +43,7 @@ class DynamicRelativePosition2D(RelativePosition2D, DynamicChannelMixin):
     def mutable_head_dims(self):
         """Mutable head dimension."""
         assert hasattr(self, 'mutable_attrs')
-        return self.mutable_attrs['head_dims']
+        return getattr(self.mutable_attrs, 'head_dims', None)
 
     def register_mutable_attr(self, attr: str, mutable: BaseMutable):
         """Register attribute of mutable."""
@@ -78,11 +78,13 @@ class DynamicRelativePosition2D(RelativePosition2D, DynamicChannelMixin):
     def to_static_op(self) -> nn.Module:
         """Convert dynamic RelativePosition2D to static One."""
         self.check_if_mutables_fixed()
-        assert self.mutable_head_dims is not None
+        if self.mutable_head_dims is None:
+            self.current_head_dim = self.head_dims
+        else:
+            self.current_head_dim = self.mutable_head_dims.activated_channels
 
-        self.current_head_dim = self.mutable_head_dims.activated_channels
         static_relative_position = self.static_op_factory(
-            self.current_head_dim)
+            self.current_head_dim, self.max_relative_position)
         static_relative_position.embeddings_table_v = \
             nn.Parameter(
                 self.embeddings_table_v[:, :self.current_head_dim].clone())
-- 
2.43.0


From 9263ad5ce0e2b4d483e9fe9da805791c17bd428f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:20 +0000
Subject: [PATCH 15/74] fix: searchable patch embedding honours and exports its
 projection settings and norm

---
 .../dynamic_ops/bricks/dynamic_embed.py       | 31 ++++++++++++++-----
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_embed.py b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_embed.py
index f255d24..ac525cd 100644
--- a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_embed.py
+++ b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_embed.py
@@ -1,4 +1,5 @@
 # Copyright (c) OpenMMLab. All rights reserved.
+import copy
 import logging
 from typing import Dict, Set, Tuple
 
@@ -15,7 +16,7 @@ from torch import Tensor
 
 from mmrazor.models.mutables.base_mutable import BaseMutable
 from mmrazor.registry import MODELS
-from ..mixins import DynamicChannelMixin
+from ..mixins import DynamicChannelMixin, DynamicMixin
 
 
 @MODELS.register_module()
@@ -47,7 +48,7 @@ class DynamicPatchEmbed(PatchEmbed, DynamicChannelMixin):
     def mutable_embed_dims(self):
         """Mutable embedding dimension."""
         assert hasattr(self, 'mutable_attrs')
-        return self.mutable_attrs['embed_dims']
+        return getattr(self.mutable_attrs, 'embed_dims', None)
 
     def register_mutable_attr(self: PatchEmbed, attr: str,
                               mutable: BaseMutable):
@@ -101,16 +102,28 @@ class DynamicPatchEmbed(PatchEmbed, DynamicChannelMixin):
     def to_static_op(self: PatchEmbed) -> nn.Module:
         """Convert dynamic PatchEmbed to static PatchEmbed."""
         self.check_if_mutables_fixed()
-        assert self.mutable_embed_dims is not None
 
         weight, bias = self._get_dynamic_params()
         static_patch_embed = self.static_op_factory(
             img_size=self.img_size,
-            in_channels=3,
-            embed_dims=self.mutable_embed_dims.activated_channels)
+            in_channels=self.projection.in_channels,
+            embed_dims=weight.size(0),
+            conv_cfg=dict(
+                type='Conv2d',
+                kernel_size=self.projection.kernel_size,
+                stride=self.projection.stride,
+                padding=self.projection.padding,
+                dilation=self.projection.dilation,
+                bias=bias is not None))
 
         static_patch_embed.projection.weight = nn.Parameter(weight.clone())
-        static_patch_embed.projection.bias = nn.Parameter(bias.clone())
+        if bias is not None:
+            static_patch_embed.projection.bias = nn.Parameter(bias.clone())
+
+        if isinstance(self.norm, DynamicMixin):
+            static_patch_embed.norm = self.norm.to_static_op()
+        else:
+            static_patch_embed.norm = copy.deepcopy(self.norm)
 
         return static_patch_embed
 
@@ -125,7 +138,7 @@ class DynamicPatchEmbed(PatchEmbed, DynamicChannelMixin):
 
         dynamic_patch_embed = cls(
             img_size=module.img_size,
-            in_channels=3,
+            in_channels=module.projection.in_channels,
             embed_dims=module.embed_dims,
             norm_cfg=None,
             conv_cfg=None,
@@ -134,6 +147,8 @@ class DynamicPatchEmbed(PatchEmbed, DynamicChannelMixin):
         # TODO mutable_attr should be inherited from its `__base__` class
         dynamic_patch_embed.projection = module.projection
         dynamic_patch_embed.norm = module.norm
+        dynamic_patch_embed.patches_resolution = module.patches_resolution
+        dynamic_patch_embed.num_patches = module.num_patches
 
         return dynamic_patch_embed
 
@@ -144,7 +159,7 @@ class DynamicPatchEmbed(PatchEmbed, DynamicChannelMixin):
             x,
             weight,
             bias,
-            stride=16,
+            stride=self.projection.stride,
             padding=self.projection.padding,
             dilation=self.projection.dilation).flatten(2).transpose(1, 2)
 
-- 
2.43.0


From 0344faa2a7ff14c64a527f22911b1f8156a914d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:20 +0000
Subject: [PATCH 16/74] fix: a searchable input resizer without a shape choice
 keeps the given size

---
 .../dynamic_ops/bricks/dynamic_function.py            | 11 ++++++-----
 .../dynamic_ops/mixins/dynamic_mixins.py              |  5 +++--
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_function.py b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_function.py
index 6e5761e..c0de228 100644
--- a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_function.py
+++ b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_function.py
@@ -32,13 +32,13 @@ class DynamicInputResizer(InputResizer, DynamicResizeMixin):
 
     def forward(self,
                 x: torch.Tensor,
-                size=Optional[Tuple[int, int]]) -> torch.Tensor:
-        self._size = self.get_dynamic_shape()
+                size: Optional[Tuple[int, int]] = None) -> torch.Tensor:
+        shape = self.get_dynamic_shape()
 
-        if not self._size:
-            self._size = size
+        if shape is not None:
+            size = shape
 
-        return super().forward(x, self._size)
+        return super().forward(x, size)
 
     @property
     def static_op_factory(self):
@@ -57,5 +57,6 @@ class DynamicInputResizer(InputResizer, DynamicResizeMixin):
             interpolation_type=module._interpolation_type,
             align_corners=module._align_corners,
             scale_factor=module._scale_factor)
+        dynamic_seq._size = module._size
 
         return dynamic_seq
diff --git a/mmrazor/models/architectures/dynamic_ops/mixins/dynamic_mixins.py b/mmrazor/models/architectures/dynamic_ops/mixins/dynamic_mixins.py
index 2a610e5..ff0b222 100644
--- a/mmrazor/models/architectures/dynamic_ops/mixins/dynamic_mixins.py
+++ b/mmrazor/models/architectures/dynamic_ops/mixins/dynamic_mixins.py
@@ -449,7 +449,8 @@ class DynamicResizeMixin(DynamicMixin):
             scale_factor=self._scale_factor)  # type:ignore
 
         size = self.get_dynamic_shape()
-        if size is not None:
-            input_resizer._size = size
+        if size is None:
+            size = self._size  # type:ignore
+        input_resizer._size = size
 
         return input_resizer
-- 
2.43.0


From 0b557a456e1e168aa0a503b99f9866aa7b4c6ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:20 +0000
Subject: [PATCH 17/74] fix: searchable attention runs without choices, keeps
 its settings and exports any head width

---
 .../bricks/dynamic_multi_head_attention.py    | 78 ++++++++++++-------
 1 file changed, 51 insertions(+), 27 deletions(-)

diff --git a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_multi_head_attention.py b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_multi_head_attention.py
index 8dcd6de..61d9598 100644
--- a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_multi_head_attention.py
+++ b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_multi_head_attention.py
@@ -60,19 +60,19 @@ class DynamicMultiheadAttention(MultiheadAttention, DynamicChannelMixin):
     def mutable_num_heads(self):
         """Mutable number of heads."""
         assert hasattr(self, 'mutable_attrs')
-        return self.mutable_attrs['num_heads']
+        return getattr(self.mutable_attrs, 'num_heads', None)
 
     @property
     def mutable_embed_dims(self):
         """Mutable embedding dimension."""
         assert hasattr(self, 'mutable_attrs')
-        return self.mutable_attrs['embed_dims']
+        return getattr(self.mutable_attrs, 'embed_dims', None)
 
     @property
     def mutable_q_embed_dims(self):
         """Mutable intermediate embedding dimension."""
         assert hasattr(self, 'mutable_attrs')
-        return self.mutable_attrs['q_embed_dims']
+        return getattr(self.mutable_attrs, 'q_embed_dims', None)
 
     def register_mutable_attr(self, attr: str, mutable: BaseMutable):
         """Register attribute of mutable."""
@@ -145,7 +145,7 @@ class DynamicMultiheadAttention(MultiheadAttention, DynamicChannelMixin):
         if self.mutable_q_embed_dims is not None:
             in_features = self.mutable_q_embed_dims.activated_channels
         else:
-            in_features = self.embed_dims
+            in_features = self.q_embed_dims
 
         if self.mutable_embed_dims is not None:
             out_features = self.mutable_embed_dims.activated_channels
@@ -172,24 +172,29 @@ class DynamicMultiheadAttention(MultiheadAttention, DynamicChannelMixin):
         if self.mutable_embed_dims is not None:
             in_features = self.mutable_embed_dims.activated_channels
         else:
-            in_features = self.embed_dims
+            in_features = self.input_dims
 
         if self.mutable_q_embed_dims is not None:
             out_features = self.mutable_q_embed_dims.activated_channels
         else:
-            out_features = self.mutable_q_embed_dims
+            out_features = self.q_embed_dims
 
         weight = w.weight[:out_features, :in_features]
         bias = w.bias[:out_features] if w.bias is not None else None
 
         return weight, bias
 
+    def _get_dynamic_num_heads(self) -> int:
+        """Get the current number of heads."""
+        if self.mutable_num_heads is None:
+            return self.num_heads
+        return self.mutable_num_heads.current_choice
+
     def to_static_op(self) -> MultiheadAttention:
         """Convert dynamic MultiheadAttention to static one."""
         self.check_if_mutables_fixed()
 
-        embed_dims = self.mutable_embed_dims.activated_channels
-        num_heads = self.mutable_num_heads.current_choice
+        num_heads = self._get_dynamic_num_heads()
 
         q_w, q_b = self._get_dynamic_qkv_params(self.w_qs)
         k_w, k_b = self._get_dynamic_qkv_params(self.w_ks)
@@ -198,23 +203,30 @@ class DynamicMultiheadAttention(MultiheadAttention, DynamicChannelMixin):
         proj_w, proj_b = self._get_dynamic_proj_params(self.proj)
 
         static_mha = MultiheadAttention(
-            embed_dims=embed_dims,
+            embed_dims=proj_w.size(0),
             num_heads=num_heads,
-            input_dims=None,
+            input_dims=q_w.size(1),
+            attn_drop_rate=self.attn_drop.p,
+            proj_drop_rate=self.proj_drop.p,
+            out_drop_rate=self.out_drop.p,
             relative_position=self.relative_position,
-            max_relative_position=self.max_relative_position)
-
-        static_mha.w_qs.weight = nn.Parameter(q_w.clone())
-        static_mha.w_qs.bias = nn.Parameter(q_b.clone())
-
-        static_mha.w_ks.weight = nn.Parameter(k_w.clone())
-        static_mha.w_ks.bias = nn.Parameter(k_b.clone())
-
-        static_mha.w_vs.weight = nn.Parameter(v_w.clone())
-        static_mha.w_vs.bias = nn.Parameter(v_b.clone())
-
-        static_mha.proj.weight = nn.Parameter(proj_w.clone())
-        static_mha.proj.bias = nn.Parameter(proj_b.clone())
+            max_relative_position=self.max_relative_position,
+            qkv_bias=q_b is not None,
+            qk_scale=self.scale,
+            proj_bias=proj_b is not None,
+            v_shortcut=self.v_shortcut)
+        # the width of a head may differ from the default one
+        static_mha.q_embed_dims = q_w.size(0)
+        static_mha.head_dims = q_w.size(0) // num_heads
+
+        for linear, weight, bias in ((static_mha.w_qs, q_w, q_b),
+                                     (static_mha.w_ks, k_w, k_b),
+                                     (static_mha.w_vs, v_w, v_b),
+                                     (static_mha.proj, proj_w, proj_b)):
+            linear.out_features, linear.in_features = weight.shape
+            linear.weight = nn.Parameter(weight.clone())
+            if bias is not None:
+                linear.bias = nn.Parameter(bias.clone())
 
         if self.relative_position:
             static_mha.rel_pos_embed_k = self.rel_pos_embed_k.to_static_op()
@@ -228,7 +240,16 @@ class DynamicMultiheadAttention(MultiheadAttention, DynamicChannelMixin):
         dynamic_mha = cls(
             embed_dims=module.embed_dims,
             num_heads=module.num_heads,
-        )
+            input_dims=module.input_dims,
+            attn_drop_rate=module.attn_drop.p,
+            proj_drop_rate=module.proj_drop.p,
+            out_drop_rate=module.out_drop.p,
+            relative_position=module.relative_position,
+            max_relative_position=module.max_relative_position,
+            qkv_bias=module.w_qs.bias is not None,
+            qk_scale=module.scale,
+            proj_bias=module.proj.bias is not None,
+            v_shortcut=module.v_shortcut)
         return dynamic_mha
 
     def static_op_factory(self):
@@ -242,8 +263,8 @@ class DynamicMultiheadAttention(MultiheadAttention, DynamicChannelMixin):
         k_w, k_b = self._get_dynamic_qkv_params(self.w_ks)
         v_w, v_b = self._get_dynamic_qkv_params(self.w_vs)
 
-        q_embed_dims = self.mutable_q_embed_dims.activated_channels
-        num_heads = self.mutable_num_heads.current_choice
+        q_embed_dims = q_w.size(0)
+        num_heads = self._get_dynamic_num_heads()
 
         q = F.linear(x, q_w, q_b).view(B, N, num_heads,
                                        q_embed_dims // num_heads)
@@ -275,5 +296,8 @@ class DynamicMultiheadAttention(MultiheadAttention, DynamicChannelMixin):
         # proj
         weight, bias = self._get_dynamic_proj_params(self.proj)
         x = F.linear(x, weight, bias)
-        x = self.proj_drop(x)
+        x = self.out_drop(self.proj_drop(x))
+
+        if self.v_shortcut:
+            x = v.squeeze(1) + x
         return x
-- 
2.43.0


From b94f7511c7841643cf1cc47aca3f88f61b95b742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:22 +0000
Subject: [PATCH 18/74] fix: converted layers keep padding modes and groups;
 switchable norm runs without a choice

---
 .../architectures/dynamic_ops/bricks/dynamic_conv.py |  3 +++
 .../dynamic_ops/bricks/dynamic_embed.py              | 12 ++++--------
 .../architectures/dynamic_ops/bricks/dynamic_norm.py |  2 ++
 3 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_conv.py b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_conv.py
index 4604ccb..2dc9a57 100644
--- a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_conv.py
+++ b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_conv.py
@@ -197,6 +197,9 @@ class FuseConv2d(nn.Conv2d, FuseConvMixin):
 
     def __init__(self, *args, **kwargs) -> None:
         super().__init__(*args, **kwargs)
+        # TODO
+        # https://pytorch.org/docs/stable/_modules/torch/nn/modules/conv.html#Conv2d
+        assert self.padding_mode == 'zeros'
         self.mutable_attrs: Dict[str, BaseMutable] = nn.ModuleDict()
 
     @classmethod
diff --git a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_embed.py b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_embed.py
index ac525cd..ce9cbc6 100644
--- a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_embed.py
+++ b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_embed.py
@@ -4,7 +4,6 @@ import logging
 from typing import Dict, Set, Tuple
 
 import torch.nn as nn
-import torch.nn.functional as F
 
 try:
     from mmcls.models.utils import PatchEmbed
@@ -113,7 +112,9 @@ class DynamicPatchEmbed(PatchEmbed, DynamicChannelMixin):
                 kernel_size=self.projection.kernel_size,
                 stride=self.projection.stride,
                 padding=self.projection.padding,
+                padding_mode=self.projection.padding_mode,
                 dilation=self.projection.dilation,
+                groups=self.projection.groups,
                 bias=bias is not None))
 
         static_patch_embed.projection.weight = nn.Parameter(weight.clone())
@@ -155,13 +156,8 @@ class DynamicPatchEmbed(PatchEmbed, DynamicChannelMixin):
     def forward(self, x: Tensor) -> Tensor:
         """Forward of dynamic patch embed."""
         weight, bias = self._get_dynamic_params()
-        x = F.conv2d(
-            x,
-            weight,
-            bias,
-            stride=self.projection.stride,
-            padding=self.projection.padding,
-            dilation=self.projection.dilation).flatten(2).transpose(1, 2)
+        x = self.projection._conv_forward(x, weight, bias)
+        x = x.flatten(2).transpose(1, 2)
 
         if self.norm is not None:
             x = self.norm(x)
diff --git a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_norm.py b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_norm.py
index 0f7f6da..63e63d6 100644
--- a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_norm.py
+++ b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_norm.py
@@ -187,6 +187,8 @@ class SwitchableBatchNorm2d(DynamicBatchNorm2d):
     def activated_channel_num(self):
         """The number of activated channels."""
         mask = self._get_num_features_mask()
+        if mask is None:
+            return self.num_features
         choice_num = (mask == 1).sum().item()
         return choice_num
 
-- 
2.43.0


From 1a0794a77534c7043879bdd918a7610df28f204b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:08 +0000
Subject: [PATCH 19/74] fix: every candidate owns its record and given
 candidates are not modified

---
 mmrazor/structures/subnet/candidate.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mmrazor/structures/subnet/candidate.py b/mmrazor/structures/subnet/candidate.py
index 9f0ebc3..dd99b32 100644
--- a/mmrazor/structures/subnet/candidate.py
+++ b/mmrazor/structures/subnet/candidate.py
@@ -111,6 +111,8 @@ class Candidates(UserList):
                 cond: Union[Dict, Dict[str, Dict]]) -> Dict[str, Dict]:
             """Transform Dict to Dict[str, Dict]."""
             if isinstance(list(cond.values())[0], dict):
+                # every candidate owns its record, the input is kept as it is
+                cond = {key: dict(value) for key, value in cond.items()}
                 for value in list(cond.values()):
                     for key in list(self._indicators):
                         value.setdefault(key, 0.)
-- 
2.43.0


From 82b3769630e74eaf49f1cf38cb74448c7b5af2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:35 +0000
Subject: [PATCH 20/74] fix: sub-network descriptions name every variable once,
 strip whole prefixes and reach nested searchable layers

---
 mmrazor/structures/subnet/fix_subnet.py | 96 ++++++++++++++-----------
 1 file changed, 56 insertions(+), 40 deletions(-)

diff --git a/mmrazor/structures/subnet/fix_subnet.py b/mmrazor/structures/subnet/fix_subnet.py
index 56b33be..f60ec37 100644
--- a/mmrazor/structures/subnet/fix_subnet.py
+++ b/mmrazor/structures/subnet/fix_subnet.py
@@ -1,6 +1,6 @@
 # Copyright (c) OpenMMLab. All rights reserved.
 import copy
-from typing import Dict, Optional, Tuple
+from typing import Dict, List, Optional, Tuple
 
 from mmengine import fileio
 from torch import nn
@@ -15,11 +15,11 @@ def _dynamic_to_static(model: nn.Module) -> None:
     from mmrazor.models.architectures.dynamic_ops import DynamicMixin
 
     def traverse_children(module: nn.Module) -> None:
-        for name, mutable in module.items():
-            if isinstance(mutable, DynamicMixin):
-                module[name] = mutable.to_static_op()
-            if hasattr(mutable, '_modules'):
-                traverse_children(mutable._modules)
+        for name, child in module.items():
+            if isinstance(child, DynamicMixin):
+                child = module[name] = child.to_static_op()
+            if hasattr(child, '_modules'):
+                traverse_children(child._modules)
 
     if isinstance(model, DynamicMixin):
         raise RuntimeError('Root model can not be dynamic op.')
@@ -59,15 +59,48 @@ def load_fix_subnet(model: nn.Module,
     _dynamic_to_static(model)
 
 
+def _named_source_mutables(model: nn.Module) -> List[Tuple]:
+    """Independent mutables of a model and their names in the fixed subnet.
+
+    A mutable is named by its alias, else by its place in the model, else
+    (when it is only reachable through a derived mutable) by the name of the
+    derived mutable.
+    """
+    # Avoid circular import
+    from mmrazor.models.mutables import DerivedMutable, MutableChannelContainer
+    from mmrazor.models.mutables.base_mutable import BaseMutable
+
+    named_mutables = [
+        (name, module) for name, module in model.named_modules()
+        if isinstance(module, BaseMutable)
+        and not isinstance(module, MutableChannelContainer)
+    ]
+    names: Dict[BaseMutable, str] = dict()
+    for name, mutable in named_mutables:
+        if not isinstance(mutable, DerivedMutable):
+            names[mutable] = name
+    for name, mutable in named_mutables:
+        if isinstance(mutable, DerivedMutable):
+            unnamed = [
+                m for m in mutable.source_mutables
+                if m not in names and not m.alias
+            ]
+            if len(unnamed) > 1:
+                raise RuntimeError(
+                    f'{name} is derived from several mutables which have '
+                    'neither an alias nor a name in the model, please set '
+                    'their `alias`.')
+            for source_mutable in mutable.source_mutables:
+                names.setdefault(source_mutable, name)
+    return [(name, mutable) for mutable, name in names.items()]
+
+
 def _load_fix_subnet_by_mutable(model: nn.Module,
                                 subnet_dict: Dict,
                                 prefix: str = '',
                                 extra_prefix: str = '') -> None:
-    # Avoid circular import
-    from mmrazor.models.mutables import DerivedMutable, MutableChannelContainer
-    from mmrazor.models.mutables.base_mutable import BaseMutable
 
-    def load_fix_module(module):
+    def load_fix_module(name, module):
         """Load fix module."""
         if getattr(module, 'alias', None):
             alias = module.alias
@@ -77,14 +110,13 @@ def _load_fix_subnet_by_mutable(model: nn.Module,
             # {chosen=xx, meta=xx)
             chosen = subnet_dict.get(alias, None)
         else:
-            if prefix:
-                mutable_name = name.lstrip(prefix)
+            if prefix and name.startswith(prefix):
+                mutable_name = name[len(prefix):]
             elif extra_prefix:
                 mutable_name = extra_prefix + name
             else:
                 mutable_name = name
-            if mutable_name not in subnet_dict and not isinstance(
-                    module, MutableChannelContainer):
+            if mutable_name not in subnet_dict:
                 raise RuntimeError(
                     f'The module name {mutable_name} is not in '
                     'subnet_dict, please check your `subnet_dict`.')
@@ -96,19 +128,11 @@ def _load_fix_subnet_by_mutable(model: nn.Module,
         if not module.is_fixed:
             module.fix_chosen(chosen.chosen)
 
-    for name, module in model.named_modules():
+    for name, module in _named_source_mutables(model):
         # The format of `chosen`` is different for each type of mutable.
         # In the corresponding mutable, it will check whether the `chosen`
         # format is correct.
-        if isinstance(module, (MutableChannelContainer)):
-            continue
-
-        if isinstance(module, BaseMutable):
-            if isinstance(module, DerivedMutable):
-                for source_mutable in module.source_mutables:
-                    load_fix_module(source_mutable)
-            else:
-                load_fix_module(module)
+        load_fix_module(name, module)
 
 
 def _load_fix_subnet_by_mutator(model: nn.Module, mutator_cfg: Dict) -> None:
@@ -174,25 +198,17 @@ def export_fix_subnet(
 def _export_subnet_by_mutable(model: nn.Module) -> Dict:
 
     # Avoid circular import
-    from mmrazor.models.mutables import DerivedMutable, MutableChannelContainer
-    from mmrazor.models.mutables.base_mutable import BaseMutable
-
-    def module_dump_chosen(module, fix_subnet):
-        if module.alias:
-            fix_subnet[module.alias] = module.dump_chosen()
-        else:
-            fix_subnet[name] = module.dump_chosen()
+    from mmrazor.models.mutables import DerivedMutable
 
     fix_subnet: Dict[str, DumpChosen] = dict()
+    for name, mutable in _named_source_mutables(model):
+        fix_subnet[mutable.alias or name] = mutable.dump_chosen()
+    # the only source of a derived mutable is listed by its name as well
     for name, module in model.named_modules():
-        if isinstance(module, BaseMutable):
-            if isinstance(module, MutableChannelContainer):
-                continue
-            elif isinstance(module, DerivedMutable):
-                for source_mutable in module.source_mutables:
-                    module_dump_chosen(source_mutable, fix_subnet)
-            else:
-                module_dump_chosen(module, fix_subnet)
+        if isinstance(module, DerivedMutable):
+            sources = [m for m in module.source_mutables if not m.alias]
+            if len(sources) == 1:
+                fix_subnet.setdefault(name, sources[0].dump_chosen())
     return fix_subnet
 
 
-- 
2.43.0


From bf5f01718aecd12c674cdbe0d24e30406f24b2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:35 +0000
Subject: [PATCH 21/74] fix: a copied derived mutable follows the copied
 sources

---
 mmrazor/models/mutables/derived_mutable.py | 33 ++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/mmrazor/models/mutables/derived_mutable.py b/mmrazor/models/mutables/derived_mutable.py
index d531751..2b98c50 100644
--- a/mmrazor/models/mutables/derived_mutable.py
+++ b/mmrazor/models/mutables/derived_mutable.py
@@ -6,8 +6,10 @@ if sys.version_info < (3, 8):
 else:
     from typing import Protocol
 
+import copy
 import inspect
 import logging
+import types
 from itertools import product
 from typing import Any, Callable, Dict, Iterable, Optional, Set, Union
 
@@ -298,6 +300,37 @@ class DerivedMutable(BaseMutable, DerivedMethodMixin):
                                  f'but {mutable} is not')
         self.source_mutables = source_mutables
 
+    def __deepcopy__(self, memo: Dict) -> 'DerivedMutable':
+        """The copy is derived from the copies of the source mutables."""
+        new = self.__class__.__new__(self.__class__)
+        memo[id(self)] = new
+        for key, value in self.__dict__.items():
+            if isinstance(value, types.FunctionType):
+                new.__dict__[key] = self._copy_closure(value, memo)
+            else:
+                new.__dict__[key] = copy.deepcopy(value, memo)
+        return new
+
+    @staticmethod
+    def _copy_closure(fn: Callable, memo: Dict) -> Callable:
+        """Copy a function with the mutables in its closure."""
+        if fn.__closure__ is None:
+            return fn
+
+        def make_cell(content: Any) -> Any:
+            return (lambda: content).__closure__[0]  # type: ignore
+
+        cells = []
+        for cell in fn.__closure__:
+            content = cell.cell_contents
+            if isinstance(content, (BaseMutable, list, tuple, set, dict)):
+                content = copy.deepcopy(content, memo)
+            cells.append(make_cell(content))
+        new_fn = types.FunctionType(fn.__code__, fn.__globals__, fn.__name__,
+                                    fn.__defaults__, tuple(cells))
+        new_fn.__kwdefaults__ = fn.__kwdefaults__
+        return new_fn
+
     # TODO
     # has no effect
     def fix_chosen(self, chosen) -> None:
-- 
2.43.0


From a4be06c3f0de8944257d52d9fdedeea9528f4a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:20 +0000
Subject: [PATCH 22/74] fix: a resumed evolution search runs all remaining
 epochs

---
 mmrazor/engine/runner/evolution_search_loop.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mmrazor/engine/runner/evolution_search_loop.py b/mmrazor/engine/runner/evolution_search_loop.py
index 644385e..ab1e546 100644
--- a/mmrazor/engine/runner/evolution_search_loop.py
+++ b/mmrazor/engine/runner/evolution_search_loop.py
@@ -141,10 +141,13 @@ class EvolutionSearchLoop(EpochBasedTrainLoop, CalibrateBNMixin):
         if self.predictor_cfg is not None:
             self._init_predictor()
 
+        # `_resume` reduces `_max_epochs` to the remaining epochs, while
+        # `_epoch` keeps counting from the start of the search.
+        end_epoch = self._max_epochs
         if self.resume_from:
             self._resume()
 
-        while self._epoch < self._max_epochs:
+        while self._epoch < end_epoch:
             self.run_epoch()
             self._save_searcher_ckpt()
 
-- 
2.43.0


From aae9fe75569aafdd17fc5e822d39d35ceac42d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:34 +0000
Subject: [PATCH 23/74] fix: a predictor loaded from a checkpoint is used to
 score candidates

---
 mmrazor/engine/runner/evolution_search_loop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/engine/runner/evolution_search_loop.py b/mmrazor/engine/runner/evolution_search_loop.py
index ab1e546..ec0d042 100644
--- a/mmrazor/engine/runner/evolution_search_loop.py
+++ b/mmrazor/engine/runner/evolution_search_loop.py
@@ -442,5 +442,5 @@ class EvolutionSearchLoop(EpochBasedTrainLoop, CalibrateBNMixin):
                     osp.join(self.runner.work_dir, 'predictor'))
                 self.runner.logger.info(
                     f'Predictor pre-trained, saved in {predictor_dir}.')
-            self.use_predictor = True
             self.candidates = Candidates()
+        self.use_predictor = True
-- 
2.43.0


From 93c1069396d3bd6abad2c1b8c091198841cb1608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:41 +0000
Subject: [PATCH 24/74] fix: the greedy sampling probability rises from its
 initial to its maximal value

---
 mmrazor/engine/runner/subnet_sampler_loop.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mmrazor/engine/runner/subnet_sampler_loop.py b/mmrazor/engine/runner/subnet_sampler_loop.py
index 4f26ee7..4f47b35 100644
--- a/mmrazor/engine/runner/subnet_sampler_loop.py
+++ b/mmrazor/engine/runner/subnet_sampler_loop.py
@@ -248,7 +248,7 @@ class GreedySamplerTrainLoop(BaseSamplerTrainLoop):
     def update_cur_prob(self, cur_iter: int) -> None:
         """update current probablity of sampling from the candidates, which is
         generated based on the probablity strategy and current iter."""
-        if cur_iter > self.schedule_end_iter:
+        if cur_iter >= self.schedule_end_iter:
             self.cur_prob = self.max_prob
         elif cur_iter < self.schedule_start_iter:
             self.cur_prob = self.init_prob
@@ -258,12 +258,13 @@ class GreedySamplerTrainLoop(BaseSamplerTrainLoop):
             schedule_cur_steps = cur_iter - self.schedule_start_iter
             if self.prob_schedule == 'linear':
                 tmp = self.max_prob - self.init_prob
-                self.cur_prob = tmp / schedule_all_steps * schedule_cur_steps
+                self.cur_prob = tmp / schedule_all_steps \
+                    * schedule_cur_steps + self.init_prob
             elif self.prob_schedule == 'consine':
-                tmp_1 = (1 - self.init_prob) * 0.5
+                tmp_1 = (self.max_prob - self.init_prob) * 0.5
                 tmp_2 = math.pi * schedule_cur_steps
                 tmp_3 = schedule_all_steps
-                self.cur_prob = tmp_1 * (1 + math.cos(tmp_2 / tmp_3)) \
+                self.cur_prob = tmp_1 * (1 - math.cos(tmp_2 / tmp_3)) \
                     + self.init_prob
             else:
                 raise ValueError('`prob_schedule` is eroor, it should be \
-- 
2.43.0


From d94268a1a382a1d6146824c9ba0fe3ca085fcd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:52 +0000
Subject: [PATCH 25/74] fix: greedy sampling trains every top candidate once
 before sampling again

---
 mmrazor/engine/runner/subnet_sampler_loop.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mmrazor/engine/runner/subnet_sampler_loop.py b/mmrazor/engine/runner/subnet_sampler_loop.py
index 4f47b35..7d68eec 100644
--- a/mmrazor/engine/runner/subnet_sampler_loop.py
+++ b/mmrazor/engine/runner/subnet_sampler_loop.py
@@ -218,6 +218,10 @@ class GreedySamplerTrainLoop(BaseSamplerTrainLoop):
             2. Pop from the `top_k_candidates` one by one to train
             the supernet.
         """
+        if len(self.top_k_candidates) > 0:
+            # the first candidate has been used by the previous iteration
+            self.top_k_candidates.pop(0)
+
         if len(self.top_k_candidates) == 0:
             self.update_cur_prob(cur_iter=self._iter)
 
-- 
2.43.0


From e5effbb09cb3fed2a46033e9effac82919db611c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:19 +0000
Subject: [PATCH 26/74] fix: a resumed greedy search records every met target
 exactly once

---
 mmrazor/engine/runner/autoslim_greedy_search_loop.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/mmrazor/engine/runner/autoslim_greedy_search_loop.py b/mmrazor/engine/runner/autoslim_greedy_search_loop.py
index cf9752c..37ff94c 100644
--- a/mmrazor/engine/runner/autoslim_greedy_search_loop.py
+++ b/mmrazor/engine/runner/autoslim_greedy_search_loop.py
@@ -95,10 +95,8 @@ class AutoSlimGreedySearchLoop(TestLoop):
         if self.resume_from:
             self._resume()
 
-        for target in self.target_flops:
-            if self.resume_from and self.current_flops <= target:
-                continue
-
+        # targets met before the search was interrupted have been recorded
+        for target in self.target_flops[len(self.searched_subnet):]:
             if self.current_flops <= target:
                 self.searched_subnet.append(self.current_subnet)
                 self.searched_subnet_flops.append(self.current_flops)
-- 
2.43.0


From 2a56fa561ede7767ff6dce4c22a193d87d054d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:54 +0000
Subject: [PATCH 27/74] fix: calibration of batch norms counts and slices dict
 batches and writes only the selected statistics

---
 .../engine/runner/utils/calibrate_bn_mixin.py | 46 +++++++++++++------
 1 file changed, 33 insertions(+), 13 deletions(-)

diff --git a/mmrazor/engine/runner/utils/calibrate_bn_mixin.py b/mmrazor/engine/runner/utils/calibrate_bn_mixin.py
index 3e0fe49..dd39464 100644
--- a/mmrazor/engine/runner/utils/calibrate_bn_mixin.py
+++ b/mmrazor/engine/runner/utils/calibrate_bn_mixin.py
@@ -8,6 +8,9 @@ from torch import Tensor
 from torch.nn.modules.batchnorm import _BatchNorm
 from torch.utils.data import DataLoader
 
+from mmrazor.models.architectures.dynamic_ops import (DynamicBatchNormMixin,
+                                                      SwitchableBatchNorm2d)
+
 
 class AverageMeter:
     """Computes and stores the average and current value."""
@@ -50,9 +53,17 @@ class CalibrateBNMixin:
             mean_average_meter: AverageMeter = bn_module.__mean_average_meter__
             var_average_meter: AverageMeter = bn_module.__var_average_meter__
 
+            if isinstance(bn_module, SwitchableBatchNorm2d) and \
+                    bn_module.activated_channel_num() != \
+                    bn_module.num_features:
+                # one of the candidate bns is used instead of this one
+                return
+
             real_input = input[0]
-            mean = real_input.mean((0, 2, 3))
-            var = real_input.var((0, 2, 3), unbiased=True)
+            # all dimensions but the channels
+            dims = [d for d in range(real_input.dim()) if d != 1]
+            mean = real_input.mean(dims)
+            var = real_input.var(dims, unbiased=True)
 
             mean_average_meter.update(mean, real_input.size(0))
             var_average_meter.update(var, real_input.size(0))
@@ -60,7 +71,7 @@ class CalibrateBNMixin:
         hook_handles = []
 
         for name, module in self.runner.model.named_modules():
-            if isinstance(module, _BatchNorm):
+            if isinstance(module, _BatchNorm) and module.track_running_stats:
                 self.runner.logger.debug(
                     'register `record_input_statistics_hook` to module: '
                     f'{name}')
@@ -76,12 +87,18 @@ class CalibrateBNMixin:
             f'Total sample number for calibration: {calibrate_sample_num}')
         remaining = calibrate_sample_num
         for data_batch in dataloader:
-            if len(data_batch) >= remaining:
-                data_batch = data_batch[:remaining]
             if isinstance(data_batch, torch.Tensor):
                 data_batch_nums = len(data_batch)
+                if data_batch_nums > remaining:
+                    data_batch = data_batch[:remaining]
             else:
                 data_batch_nums = len(data_batch['inputs'])
+                if data_batch_nums > remaining:
+                    data_batch = {
+                        key: value[:remaining]
+                        for key, value in data_batch.items()
+                    }
+            data_batch_nums = min(data_batch_nums, remaining)
             if dist.is_initialized() and dist.is_available():
                 data_batch_tensor = torch.tensor(
                     [data_batch_nums], device=self.runner.model.device)
@@ -99,9 +116,11 @@ class CalibrateBNMixin:
                 break
 
         for name, module in self.runner.model.named_modules():
-            if isinstance(module, _BatchNorm):
+            if hasattr(module, '__mean_average_meter__'):
                 mean_average_meter = module.__mean_average_meter__
                 var_average_meter = module.__var_average_meter__
+                del module.__mean_average_meter__
+                del module.__var_average_meter__
                 if mean_average_meter.count == 0 or \
                         var_average_meter.count == 0:
                     assert mean_average_meter.count == 0 and \
@@ -114,6 +133,10 @@ class CalibrateBNMixin:
                 calibrated_bn_var = var_average_meter.avg
 
                 feature_dim = calibrated_bn_mean.size(0)
+                # the channels which are selected in a dynamic bn
+                selected = slice(None)
+                if isinstance(module, DynamicBatchNormMixin):
+                    selected = module._get_num_features_mask()
 
                 self.runner.logger.debug(
                     f'layer: {name}, '
@@ -125,15 +148,12 @@ class CalibrateBNMixin:
                     'l2 norm of calibrated running var: '
                     f'{calibrated_bn_var.norm()}, '
                     'l2 norm of original running mean: '
-                    f'{module.running_mean[:feature_dim].norm()}, '
+                    f'{module.running_mean[selected].norm()}, '
                     'l2 norm of original running var: '
-                    f'{module.running_var[:feature_dim].norm()}, ')
+                    f'{module.running_var[selected].norm()}, ')
 
-                module.running_mean[:feature_dim].copy_(calibrated_bn_mean)
-                module.running_var[:feature_dim].copy_(calibrated_bn_var)
-
-                del module.__mean_average_meter__
-                del module.__var_average_meter__
+                module.running_mean[selected] = calibrated_bn_mean
+                module.running_var[selected] = calibrated_bn_var
 
         self.runner.logger.debug('Remove all hooks for calibration')
         self.runner.logger.info('Calibrate batch norm statistics done')
-- 
2.43.0


From 12cc1f4fc4ef3a9ce7b8e3fd01fde6724e9e516d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:49 +0000
Subject: [PATCH 28/74] fix: recorders and deliveries that share a source all
 take part and leave the original behind

---
 .../task_modules/delivery/delivery_manager.py | 21 +++++++++----
 .../delivery/method_outputs_delivery.py       | 20 +++++++++++--
 .../recorder/method_inputs_recorder.py        |  5 ++--
 .../recorder/method_outputs_recorder.py       | 30 ++++++++++++++-----
 .../task_modules/recorder/recorder_manager.py | 21 +++++++++----
 5 files changed, 76 insertions(+), 21 deletions(-)

diff --git a/mmrazor/models/task_modules/delivery/delivery_manager.py b/mmrazor/models/task_modules/delivery/delivery_manager.py
index 592d891..997fad4 100644
--- a/mmrazor/models/task_modules/delivery/delivery_manager.py
+++ b/mmrazor/models/task_modules/delivery/delivery_manager.py
@@ -1,5 +1,6 @@
 # Copyright (c) OpenMMLab. All rights reserved.
 import copy
+from contextlib import ExitStack
 from typing import Dict, Optional
 
 from mmrazor.registry import TASK_UTILS
@@ -104,10 +105,20 @@ class DistillDeliveryManager:
 
     def __enter__(self) -> None:
         """Enter the context manager."""
-        for delivery in self.deliveries.values():
-            delivery.__enter__()
+        with ExitStack() as stack:
+            for delivery in self.deliveries.values():
+                delivery.__enter__()
+                stack.push(delivery.__exit__)
+            # Everything is entered, so nothing has to be undone here.
+            self._exit_stack = stack.pop_all()
 
     def __exit__(self, exc_type, exc_value, traceback) -> None:
-        """Exit the context manager."""
-        for delivery in self.deliveries.values():
-            delivery.__exit__(exc_type, exc_value, traceback)
+        """Exit the context manager.
+
+        Deliveries may wrap the same target, so they are exited in reverse
+        order.
+        """
+        stack = self._exit_stack
+        # Bound methods of active deliveries should not be pickled.
+        del self._exit_stack
+        stack.__exit__(exc_type, exc_value, traceback)
diff --git a/mmrazor/models/task_modules/delivery/method_outputs_delivery.py b/mmrazor/models/task_modules/delivery/method_outputs_delivery.py
index fa9f6c4..f51b03f 100644
--- a/mmrazor/models/task_modules/delivery/method_outputs_delivery.py
+++ b/mmrazor/models/task_modules/delivery/method_outputs_delivery.py
@@ -1,5 +1,6 @@
 # Copyright (c) OpenMMLab. All rights reserved.
 import functools
+import inspect
 from types import FunctionType, ModuleType
 from typing import Callable
 
@@ -125,7 +126,15 @@ class MethodOutputsDelivery(DistillDelivery):
 
         Wrap the origin method.
         """
-        wrapped_method = self.deliver_wrapper(self.origin_method)
+        # The method may have been wrapped since this delivery was built, e.g.
+        # by a recorder of the same method. It may also be inherited.
+        self._own_method = vars(self.imported_cls).get(self.method_name)
+        current_method = getattr(self.imported_cls, self.method_name)
+        wrapped_method = self.deliver_wrapper(current_method)
+        if isinstance(
+                inspect.getattr_static(self.imported_cls, self.method_name),
+                staticmethod):
+            wrapped_method = staticmethod(wrapped_method)
         setattr(self.imported_cls, self.method_name, wrapped_method)
 
     def __exit__(self, exc_type, exc_value, traceback) -> None:
@@ -133,7 +142,14 @@ class MethodOutputsDelivery(DistillDelivery):
 
         Reset the origin method.
         """
-        setattr(self.imported_cls, self.method_name, self.origin_method)
+        if self._own_method is None:
+            delattr(self.imported_cls, self.method_name)
+        else:
+            setattr(self.imported_cls, self.method_name, self._own_method)
+
+        # A wrapped method can not be pickled. Delete it to avoid errors when
+        # ema model is used.
+        del self._own_method
 
     def deliver_wrapper(self, origin_method: Callable) -> Callable:
         """Wrap the specific method to make the intermediate results of the
diff --git a/mmrazor/models/task_modules/recorder/method_inputs_recorder.py b/mmrazor/models/task_modules/recorder/method_inputs_recorder.py
index 44cb418..61f9ed4 100644
--- a/mmrazor/models/task_modules/recorder/method_inputs_recorder.py
+++ b/mmrazor/models/task_modules/recorder/method_inputs_recorder.py
@@ -66,12 +66,13 @@ class MethodInputsRecorder(MethodOutputsRecorder):
         """
 
         method_input_params = signature(orgin_method).parameters.keys()
+        # the first argument of a method is the instance itself
+        num_skipped = 0 if self._is_static else 1
 
         @functools.wraps(orgin_method)
         def wrap_method(*args, **kwargs):
             outputs = orgin_method(*args, **kwargs)
-            # the first element of a class method is the class itself
-            inputs = list(args[1:])
+            inputs = list(args[num_skipped:])
             for keyword in method_input_params:
                 if keyword in kwargs:
                     inputs.append(kwargs[keyword])
diff --git a/mmrazor/models/task_modules/recorder/method_outputs_recorder.py b/mmrazor/models/task_modules/recorder/method_outputs_recorder.py
index 6d3fb65..205bcff 100644
--- a/mmrazor/models/task_modules/recorder/method_outputs_recorder.py
+++ b/mmrazor/models/task_modules/recorder/method_outputs_recorder.py
@@ -1,5 +1,6 @@
 # Copyright (c) OpenMMLab. All rights reserved.
 import functools
+import inspect
 from types import FunctionType, ModuleType
 from typing import Callable, List, Optional
 
@@ -115,6 +116,12 @@ class MethodOutputsRecorder(BaseRecorder):
         """Get the module name according to `method_path`."""
         return '.'.join(self.source.split('.')[:-2])
 
+    @property
+    def _is_static(self) -> bool:
+        """Whether the method is called without the instance."""
+        method = inspect.getattr_static(self.imported_class, self.method_name)
+        return isinstance(method, staticmethod)
+
     def prepare_from_model(self, model: Optional[nn.Module] = None) -> None:
         """Wrapper the origin source methods.
 
@@ -148,10 +155,15 @@ class MethodOutputsRecorder(BaseRecorder):
         super().__enter__()
 
         imported_cls = self.imported_class
-        origin_method = self.origin_method
-        # add record wrapper to origin method.
-        record_method = self.method_record_wrapper(origin_method,
+        # The method may have been wrapped since this recorder was built, e.g.
+        # by another recorder with the same source. It may also be inherited.
+        self._own_method = vars(imported_cls).get(self.method_name)
+        current_method = getattr(imported_cls, self.method_name)
+        # add record wrapper to the current method.
+        record_method = self.method_record_wrapper(current_method,
                                                    self.data_buffer)
+        if self._is_static:
+            record_method = staticmethod(record_method)
 
         # rewrite the origin method.
         setattr(imported_cls, self.method_name, record_method)
@@ -160,8 +172,12 @@ class MethodOutputsRecorder(BaseRecorder):
         """Exit the context manager."""
         super().__exit__(exc_type, exc_value, traceback)
 
-        imported_cls = self.imported_class
-        origin_method = self.origin_method
-
         # restore the origin method
-        setattr(imported_cls, self.method_name, origin_method)
+        if self._own_method is None:
+            delattr(self.imported_class, self.method_name)
+        else:
+            setattr(self.imported_class, self.method_name, self._own_method)
+
+        # A wrapped method can not be pickled. Delete it to avoid errors when
+        # ema model is used.
+        del self._own_method
diff --git a/mmrazor/models/task_modules/recorder/recorder_manager.py b/mmrazor/models/task_modules/recorder/recorder_manager.py
index 30fbbb3..577e3f1 100644
--- a/mmrazor/models/task_modules/recorder/recorder_manager.py
+++ b/mmrazor/models/task_modules/recorder/recorder_manager.py
@@ -1,5 +1,6 @@
 # Copyright (c) OpenMMLab. All rights reserved.
 import copy
+from contextlib import ExitStack
 from typing import Dict, Optional
 
 from torch import nn
@@ -107,10 +108,20 @@ class RecorderManager:
 
     def __enter__(self):
         """Enter the context manager."""
-        for recorder in self.recorders.values():
-            recorder.__enter__()
+        with ExitStack() as stack:
+            for recorder in self.recorders.values():
+                recorder.__enter__()
+                stack.push(recorder.__exit__)
+            # Everything is entered, so nothing has to be undone here.
+            self._exit_stack = stack.pop_all()
 
     def __exit__(self, exc_type, exc_value, traceback):
-        """Exit the context manager."""
-        for recorder in self.recorders.values():
-            recorder.__exit__(exc_type, exc_value, traceback)
+        """Exit the context manager.
+
+        Recorders may wrap the same source, so they are exited in reverse
+        order.
+        """
+        stack = self._exit_stack
+        # Bound methods of active recorders should not be pickled.
+        del self._exit_stack
+        stack.__exit__(exc_type, exc_value, traceback)
-- 
2.43.0


From d690724340423db2cc8fefdb15eda7977f0033d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:27 +0000
Subject: [PATCH 29/74] fix: the loss of the generator leaves no gradients in
 the student

---
 .../configurable/datafree_distillation.py       | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/mmrazor/models/algorithms/distill/configurable/datafree_distillation.py b/mmrazor/models/algorithms/distill/configurable/datafree_distillation.py
index 1aff807..f85a581 100644
--- a/mmrazor/models/algorithms/distill/configurable/datafree_distillation.py
+++ b/mmrazor/models/algorithms/distill/configurable/datafree_distillation.py
@@ -1,4 +1,5 @@
 # Copyright (c) OpenMMLab. All rights reserved.
+from contextlib import contextmanager
 from typing import Dict, List, Tuple
 
 import torch
@@ -140,6 +141,16 @@ class DataFreeDistillation(BaseAlgorithm):
 
         return distill_loss, log_vars
 
+    @contextmanager
+    def _keep_student_grads(self):
+        """Keep the loss of the generator, which may depend on the outputs of
+        the student, out of the gradients of the student."""
+        params = list(self.student.parameters())
+        grads = [None if p.grad is None else p.grad.clone() for p in params]
+        yield
+        for param, grad in zip(params, grads):
+            param.grad = grad
+
     def train_generator(
             self, data: Dict[str, List[dict]], optimizer: OPTIMIZERS
     ) -> Tuple[torch.Tensor, Dict[str, torch.Tensor]]:
@@ -166,7 +177,8 @@ class DataFreeDistillation(BaseAlgorithm):
             loss_generator = self.generator_distiller.compute_distill_losses()
 
         generator_loss, generator_loss_vars = self.parse_losses(loss_generator)
-        optimizer.update_params(generator_loss)
+        with self._keep_student_grads():
+            optimizer.update_params(generator_loss)
         log_vars = dict(add_prefix(generator_loss_vars, 'generator'))
 
         return generator_loss, log_vars
@@ -223,7 +235,8 @@ class DAFLDataFreeDistillation(DataFreeDistillation):
         distill_loss, distill_log_vars = self.parse_losses(loss_distill)
         log_vars.update(add_prefix(distill_log_vars, 'distill'))
 
-        optim_wrapper['generator'].update_params(generator_loss)
+        with self._keep_student_grads():
+            optim_wrapper['generator'].update_params(generator_loss)
         optim_wrapper['architecture'].update_params(distill_loss)
 
         return log_vars
-- 
2.43.0


From 63041c4e7dc4ec1eabc4c8d22097bd4ef340241d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:07 +0000
Subject: [PATCH 30/74] fix: decoupled distillation honours the configured
 reduction

---
 .../distill/mmcls/dkd/dkd_resnet34_resnet18_8xb32_in1k.py  | 2 +-
 mmrazor/models/losses/decoupled_kd.py                      | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/configs/distill/mmcls/dkd/dkd_resnet34_resnet18_8xb32_in1k.py b/configs/distill/mmcls/dkd/dkd_resnet34_resnet18_8xb32_in1k.py
index 391ccf5..5024f93 100644
--- a/configs/distill/mmcls/dkd/dkd_resnet34_resnet18_8xb32_in1k.py
+++ b/configs/distill/mmcls/dkd/dkd_resnet34_resnet18_8xb32_in1k.py
@@ -34,7 +34,7 @@ model = dict(
                 tau=1,
                 beta=0.5,
                 loss_weight=1,
-                reduction='mean')),
+                reduction='sum')),
         loss_forward_mappings=dict(
             loss_dkd=dict(
                 preds_S=dict(from_student=True, recorder='fc'),
diff --git a/mmrazor/models/losses/decoupled_kd.py b/mmrazor/models/losses/decoupled_kd.py
index 2aeff6a..1e29b3f 100644
--- a/mmrazor/models/losses/decoupled_kd.py
+++ b/mmrazor/models/losses/decoupled_kd.py
@@ -105,8 +105,11 @@ class DKDLoss(nn.Module):
     ) -> torch.Tensor:
         """Calculate the KL Divergence."""
         kl_loss = F.kl_div(
-            preds_S, preds_T, size_average=False,
-            reduction=self.reduction) * self.tau**2
+            preds_S, preds_T, reduction=self.reduction) * self.tau**2
+        if self.reduction == 'none':
+            # The two parts differ in the number of their classes, so that
+            # they can only be added up per sample.
+            kl_loss = kl_loss.sum(dim=1)
         return kl_loss
 
     def _cat_mask(
-- 
2.43.0


From 8fc97ccce3810cd68ca774af3a5c59a15b5a2adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:07 +0000
Subject: [PATCH 31/74] fix: the contrastive loss honours its weight

---
 mmrazor/models/losses/crd_loss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/models/losses/crd_loss.py b/mmrazor/models/losses/crd_loss.py
index 4ca81aa..f99db84 100644
--- a/mmrazor/models/losses/crd_loss.py
+++ b/mmrazor/models/losses/crd_loss.py
@@ -62,7 +62,7 @@ class CRDLoss(nn.Module):
         s_loss = self.criterion_s_t(out_s)
         t_loss = self.criterion_s_t(out_t)
         loss = s_loss + t_loss
-        return loss
+        return self.loss_weight * loss
 
 
 class ContrastLoss(nn.Module):
-- 
2.43.0


From 34e3c653dc88869924cd069d01f2f4bb861f9fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:57 +0000
Subject: [PATCH 32/74] fix: estimates use the options of the estimator and
 leave the options and the mode of the model alone

---
 .../estimators/resource_estimator.py          | 79 +++++++++++--------
 1 file changed, 48 insertions(+), 31 deletions(-)

diff --git a/mmrazor/models/task_modules/estimators/resource_estimator.py b/mmrazor/models/task_modules/estimators/resource_estimator.py
index ac5292d..8904eb1 100644
--- a/mmrazor/models/task_modules/estimators/resource_estimator.py
+++ b/mmrazor/models/task_modules/estimators/resource_estimator.py
@@ -1,4 +1,5 @@
 # Copyright (c) OpenMMLab. All rights reserved.
+from contextlib import contextmanager
 from typing import Dict, Optional, Tuple, Union
 
 import torch.nn
@@ -8,6 +9,18 @@ from .base_estimator import BaseEstimator
 from .counters import get_model_flops_params, get_model_latency
 
 
+@contextmanager
+def _evaluating(model: torch.nn.Module):
+    """Set the model to evaluation and restore the mode of each module."""
+    modes = [(module, module.training) for module in model.modules()]
+    model.eval()
+    try:
+        yield
+    finally:
+        for module, training in modes:
+            module.training = training
+
+
 @TASK_UTILS.register_module()
 class ResourceEstimator(BaseEstimator):
     """Estimator for calculating the resources consume.
@@ -117,27 +130,22 @@ class ResourceEstimator(BaseEstimator):
         resource_metrics = dict()
         measure_latency = True if latency_cfg else False
 
-        if flops_params_cfg:
-            flops_params_cfg = {**self.flops_params_cfg, **flops_params_cfg}
-            self._check_flops_params_cfg(flops_params_cfg)
-            flops_params_cfg = self._set_default_resource_params(
-                flops_params_cfg)
-        else:
-            flops_params_cfg = self.flops_params_cfg
-
-        if latency_cfg:
-            latency_cfg = {**self.latency_cfg, **latency_cfg}
-            self._check_latency_cfg(latency_cfg)
-            latency_cfg = self._set_default_resource_params(latency_cfg)
-        else:
-            latency_cfg = self.latency_cfg
+        flops_params_cfg = self._merge_flops_params_cfg(flops_params_cfg)
 
-        model.eval()
-        flops, params = get_model_flops_params(model, **flops_params_cfg)
         if measure_latency:
-            latency = get_model_latency(model, **latency_cfg)
-        else:
-            latency = '0.0 ms' if self.as_strings else 0.0  # type: ignore
+            latency_cfg = {**self.latency_cfg, **latency_cfg}  # type: ignore
+            self._check_latency_cfg(latency_cfg)
+            latency_cfg.setdefault('input_shape', self.input_shape)
+            latency_cfg.setdefault('unit', self.units.get('latency', 'ms'))
+            latency_cfg.setdefault('as_strings', self.as_strings)
+
+        with _evaluating(model):
+            flops, params = get_model_flops_params(model, **flops_params_cfg)
+            if measure_latency:
+                latency = get_model_latency(
+                    model, **latency_cfg)  # type: ignore
+            else:
+                latency = '0.0 ms' if self.as_strings else 0.0  # type: ignore
 
         resource_metrics.update({
             'flops': flops,
@@ -162,24 +170,33 @@ class ResourceEstimator(BaseEstimator):
                 params results (string | float format) of each modules in the
                 ``flops_params_cfg['spec_modules']``.
         """
-        if flops_params_cfg:
-            flops_params_cfg = {**self.flops_params_cfg, **flops_params_cfg}
-            self._check_flops_params_cfg(flops_params_cfg)
-            flops_params_cfg = self._set_default_resource_params(
-                flops_params_cfg)
-        else:
-            flops_params_cfg = self.flops_params_cfg
+        flops_params_cfg = self._merge_flops_params_cfg(flops_params_cfg)
         flops_params_cfg['seperate_return'] = True
 
-        assert len(flops_params_cfg['spec_modules']), (
+        assert len(flops_params_cfg.get('spec_modules', [])), (
             'spec_modules can not be empty when calling '
             f'`estimate_separation_modules` of {self.__class__.__name__} ')
 
-        model.eval()
-        spec_modules_resources = get_model_flops_params(
-            model, **flops_params_cfg)
+        with _evaluating(model):
+            spec_modules_resources = get_model_flops_params(
+                model, **flops_params_cfg)
         return spec_modules_resources
 
+    def _merge_flops_params_cfg(self,
+                                flops_params_cfg: Optional[dict]) -> dict:
+        """Merge the cfg of a call with that of the estimator.
+
+        Args:
+            flops_params_cfg (dict, optional): Cfg for estimating FLOPs and
+                parameters of this call only.
+        """
+        flops_params_cfg = {
+            **self.flops_params_cfg,
+            **(flops_params_cfg or {})
+        }
+        self._check_flops_params_cfg(flops_params_cfg)
+        return self._set_default_resource_params(flops_params_cfg)
+
     def _check_flops_params_cfg(self, flops_params_cfg: dict) -> None:
         """Check the legality of ``flops_params_cfg``.
 
@@ -206,7 +223,7 @@ class ResourceEstimator(BaseEstimator):
         """Set default attributes for the input cfgs.
 
         Args:
-            cfg (dict): flops_params_cfg or latency_cfg.
+            cfg (dict): flops_params_cfg.
         """
         default_common_settings = ['input_shape', 'units', 'as_strings']
         for key in default_common_settings:
-- 
2.43.0


From 6f033e5859fb86236df909a808536910a70354d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:57 +0000
Subject: [PATCH 33/74] fix: params of a module are counted once and shared
 modules are summed before units are converted

---
 .../estimators/counters/flops_params_counter.py  | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/mmrazor/models/task_modules/estimators/counters/flops_params_counter.py b/mmrazor/models/task_modules/estimators/counters/flops_params_counter.py
index 4a3e44d..2c89cdf 100644
--- a/mmrazor/models/task_modules/estimators/counters/flops_params_counter.py
+++ b/mmrazor/models/task_modules/estimators/counters/flops_params_counter.py
@@ -334,9 +334,11 @@ def accumulate_sub_module_flops_params(model, units=None):
                 sum += accumulate_flops(m)
             return sum
 
-    for module in model.modules():
-        _flops = accumulate_flops(module)
-        _params = accumulate_params(module)
+    # Modules may have children in common. All sums are taken before any of
+    # the counts is replaced by a sum in other units.
+    accumulated = [(module, accumulate_flops(module),
+                    accumulate_params(module)) for module in model.modules()]
+    for module, _flops, _params in accumulated:
         module.__flops__ = _flops
         module.__params__ = _params
         if units is not None:
@@ -417,7 +419,7 @@ def start_flops_params_count(self, disabled_counters):
                     counter = TASK_UTILS.build(
                         dict(type=counter_type, _scope_='mmrazor'))
                     handle = module.register_forward_hook(
-                        counter.add_count_hook)
+                        partial(count_once_hook, counter.add_count_hook))
 
                     module.__flops_params_handle__ = handle
                 else:
@@ -448,6 +450,12 @@ def reset_flops_params_count(self):
 
 
 # ---- Internal functions
+def count_once_hook(add_count_hook, module, input, output):
+    """Count the params of a module once, however often it is called."""
+    module.__params__ = 0
+    add_count_hook(module, input, output)
+
+
 def empty_flops_params_counter_hook(module, input, output):
     """Empty flops and params variables of the module."""
     module.__flops__ += 0
-- 
2.43.0


From d315f31f2c3406295fe84121c5b7c7de9fa8043b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:57 +0000
Subject: [PATCH 34/74] fix: count upsampling, deconvolution bias and affine
 layer norm completely

---
 .../estimators/counters/op_counters/deconv_layer_counter.py | 2 +-
 .../estimators/counters/op_counters/norm_layer_counter.py   | 3 ++-
 .../counters/op_counters/upsample_layer_counter.py          | 6 ++----
 3 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/mmrazor/models/task_modules/estimators/counters/op_counters/deconv_layer_counter.py b/mmrazor/models/task_modules/estimators/counters/op_counters/deconv_layer_counter.py
index 0426fbb..646365a 100644
--- a/mmrazor/models/task_modules/estimators/counters/op_counters/deconv_layer_counter.py
+++ b/mmrazor/models/task_modules/estimators/counters/op_counters/deconv_layer_counter.py
@@ -32,7 +32,7 @@ class ConvTranspose2dCounter(BaseCounter):
         bias_flops = 0
         if module.bias is not None:
             output_height, output_width = output.shape[2:]
-            bias_flops = out_channels * batch_size * output_height * output_height  # noqa: E501
+            bias_flops = out_channels * batch_size * output_height * output_width  # noqa: E501
         overall_flops = overall_conv_flops + bias_flops
 
         module.__flops__ += int(overall_flops)
diff --git a/mmrazor/models/task_modules/estimators/counters/op_counters/norm_layer_counter.py b/mmrazor/models/task_modules/estimators/counters/op_counters/norm_layer_counter.py
index 54f3f26..6dd7637 100644
--- a/mmrazor/models/task_modules/estimators/counters/op_counters/norm_layer_counter.py
+++ b/mmrazor/models/task_modules/estimators/counters/op_counters/norm_layer_counter.py
@@ -14,7 +14,8 @@ class BNCounter(BaseCounter):
         """Calculate FLOPs and params based on the size of input & output."""
         input = input[0]
         batch_flops = np.prod(input.shape)
-        if getattr(module, 'affine', False):
+        if getattr(module, 'affine', False) or getattr(
+                module, 'elementwise_affine', False):
             batch_flops *= 2
         module.__flops__ += int(batch_flops)
         module.__params__ += get_model_parameters_number(module)
diff --git a/mmrazor/models/task_modules/estimators/counters/op_counters/upsample_layer_counter.py b/mmrazor/models/task_modules/estimators/counters/op_counters/upsample_layer_counter.py
index 12958b6..2ed8a7b 100644
--- a/mmrazor/models/task_modules/estimators/counters/op_counters/upsample_layer_counter.py
+++ b/mmrazor/models/task_modules/estimators/counters/op_counters/upsample_layer_counter.py
@@ -11,10 +11,8 @@ class UpsampleCounter(BaseCounter):
     @staticmethod
     def add_count_hook(module, input, output):
         """Calculate FLOPs and params based on the size of input & output."""
-        output_size = output[0]
-        batch_size = output_size.shape[0]
-        output_elements_count = batch_size
-        for val in output_size.shape[1:]:
+        output_elements_count = 1
+        for val in output.shape:
             output_elements_count *= val
         module.__flops__ += int(output_elements_count)
         module.__params__ += get_model_parameters_number(module)
-- 
2.43.0


From cccf19646c172d616440a6d348acb97ff94c8ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:06 +0000
Subject: [PATCH 35/74] fix: dynamic ops are counted with their activated
 channels, kernels and groups

---
 .../counters/flops_params_counter.py          | 17 +++++
 .../counters/op_counters/__init__.py          | 23 ++++--
 .../op_counters/conv_layer_counter.py         | 31 ++++++++
 .../op_counters/linear_layer_counter.py       | 12 +++-
 .../op_counters/norm_layer_counter.py         | 70 ++++++++++++++++---
 5 files changed, 137 insertions(+), 16 deletions(-)

diff --git a/mmrazor/models/task_modules/estimators/counters/flops_params_counter.py b/mmrazor/models/task_modules/estimators/counters/flops_params_counter.py
index 2c89cdf..d7dd293 100644
--- a/mmrazor/models/task_modules/estimators/counters/flops_params_counter.py
+++ b/mmrazor/models/task_modules/estimators/counters/flops_params_counter.py
@@ -359,6 +359,23 @@ def get_model_parameters_number(model):
     return num_params
 
 
+def get_dynamic_parameters_number(module):
+    """Calculate number of the activated parameters of a dynamic op.
+
+    Args:
+        module (DynamicOP): The dynamic op with ``weight`` and ``bias``.
+
+    Returns:
+        int: Parameter number of the op to which the dynamic op is converted.
+    """
+    weight, bias = module.get_dynamic_params()[-2:]
+    num_params = 0
+    for param, activated in ((module.weight, weight), (module.bias, bias)):
+        if param is not None and param.requires_grad:
+            num_params += activated.numel()
+    return num_params
+
+
 def add_flops_params_counting_methods(net_main_module):
     """Add additional methods to the existing module object.
 
diff --git a/mmrazor/models/task_modules/estimators/counters/op_counters/__init__.py b/mmrazor/models/task_modules/estimators/counters/op_counters/__init__.py
index 5226a70..9f8edc4 100644
--- a/mmrazor/models/task_modules/estimators/counters/op_counters/__init__.py
+++ b/mmrazor/models/task_modules/estimators/counters/op_counters/__init__.py
@@ -2,15 +2,22 @@
 from .activation_layer_counter import (ELUCounter, LeakyReLUCounter,
                                        PReLUCounter, ReLU6Counter, ReLUCounter)
 from .base_counter import BaseCounter
-from .conv_layer_counter import (Conv1dCounter, Conv2dCounter, Conv3dCounter,
-                                 DynamicConv2dCounter)
+from .conv_layer_counter import (BigNasConv2dCounter, Conv1dCounter,
+                                 Conv2dCounter, Conv3dCounter,
+                                 DynamicConv2dAdaptivePaddingCounter,
+                                 DynamicConv2dCounter, FuseConv2dCounter,
+                                 OFAConv2dCounter)
 from .deconv_layer_counter import ConvTranspose2dCounter
 from .linear_layer_counter import DynamicLinearCounter, LinearCounter
 from .norm_layer_counter import (BatchNorm1dCounter, BatchNorm2dCounter,
                                  BatchNorm3dCounter, DMCPBatchNorm2dCounter,
-                                 GroupNormCounter, InstanceNorm1dCounter,
-                                 InstanceNorm2dCounter, InstanceNorm3dCounter,
-                                 LayerNormCounter)
+                                 DynamicBatchNorm1dCounter,
+                                 DynamicBatchNorm2dCounter,
+                                 DynamicBatchNorm3dCounter,
+                                 DynamicLayerNormCounter, GroupNormCounter,
+                                 InstanceNorm1dCounter, InstanceNorm2dCounter,
+                                 InstanceNorm3dCounter, LayerNormCounter,
+                                 SwitchableBatchNorm2dCounter)
 from .pooling_layer_counter import *  # noqa: F403, F405, F401
 from .upsample_layer_counter import UpsampleCounter
 
@@ -21,5 +28,9 @@ __all__ = [
     'ConvTranspose2dCounter', 'UpsampleCounter', 'LinearCounter',
     'GroupNormCounter', 'InstanceNorm1dCounter', 'InstanceNorm2dCounter',
     'InstanceNorm3dCounter', 'LayerNormCounter', 'BaseCounter',
-    'DMCPBatchNorm2dCounter', 'DynamicConv2dCounter', 'DynamicLinearCounter'
+    'DMCPBatchNorm2dCounter', 'DynamicConv2dCounter', 'DynamicLinearCounter',
+    'BigNasConv2dCounter', 'OFAConv2dCounter', 'FuseConv2dCounter',
+    'DynamicConv2dAdaptivePaddingCounter', 'DynamicBatchNorm1dCounter',
+    'DynamicBatchNorm2dCounter', 'DynamicBatchNorm3dCounter',
+    'DynamicLayerNormCounter', 'SwitchableBatchNorm2dCounter'
 ]
diff --git a/mmrazor/models/task_modules/estimators/counters/op_counters/conv_layer_counter.py b/mmrazor/models/task_modules/estimators/counters/op_counters/conv_layer_counter.py
index d410e39..34431e9 100644
--- a/mmrazor/models/task_modules/estimators/counters/op_counters/conv_layer_counter.py
+++ b/mmrazor/models/task_modules/estimators/counters/op_counters/conv_layer_counter.py
@@ -75,6 +75,10 @@ class DynamicConv2dCounter(ConvCounter):
         output_dims = list(output.shape[2:])
 
         kernel_dims = list(module.kernel_size)
+        if 'kernel_size' in module.mutable_attrs:
+            kernel_size = module.get_current_choice(
+                module.mutable_attrs['kernel_size'])
+            kernel_dims = [kernel_size] * len(kernel_dims)
 
         if 'out_channels' in module.mutable_attrs:
             out_channels = module.mutable_attrs[
@@ -93,6 +97,9 @@ class DynamicConv2dCounter(ConvCounter):
             in_channels = module.in_channels
 
         groups = module.groups
+        if groups == module.in_channels == module.out_channels:
+            # the groups of a depth-wise conv follow its channels
+            groups = in_channels
 
         filters_per_channel = out_channels / groups
         conv_per_position_flops = \
@@ -113,3 +120,27 @@ class DynamicConv2dCounter(ConvCounter):
 
         module.__flops__ += overall_flops
         module.__params__ += int(overall_params)
+
+
+@TASK_UTILS.register_module()
+class BigNasConv2dCounter(DynamicConv2dCounter):
+    """FLOPs/params counter for BigNasConv2d module."""
+    pass
+
+
+@TASK_UTILS.register_module()
+class OFAConv2dCounter(DynamicConv2dCounter):
+    """FLOPs/params counter for OFAConv2d module."""
+    pass
+
+
+@TASK_UTILS.register_module()
+class FuseConv2dCounter(DynamicConv2dCounter):
+    """FLOPs/params counter for FuseConv2d module."""
+    pass
+
+
+@TASK_UTILS.register_module()
+class DynamicConv2dAdaptivePaddingCounter(DynamicConv2dCounter):
+    """FLOPs/params counter for DynamicConv2dAdaptivePadding module."""
+    pass
diff --git a/mmrazor/models/task_modules/estimators/counters/op_counters/linear_layer_counter.py b/mmrazor/models/task_modules/estimators/counters/op_counters/linear_layer_counter.py
index 80c024c..51b1f9a 100644
--- a/mmrazor/models/task_modules/estimators/counters/op_counters/linear_layer_counter.py
+++ b/mmrazor/models/task_modules/estimators/counters/op_counters/linear_layer_counter.py
@@ -2,7 +2,8 @@
 import numpy as np
 
 from mmrazor.registry import TASK_UTILS
-from ..flops_params_counter import get_model_parameters_number
+from ..flops_params_counter import (get_dynamic_parameters_number,
+                                    get_model_parameters_number)
 from .base_counter import BaseCounter
 
 
@@ -22,4 +23,11 @@ class LinearCounter(BaseCounter):
 
 @TASK_UTILS.register_module()
 class DynamicLinearCounter(LinearCounter):
-    pass
+    """FLOPs/params counter for DynamicLinear module."""
+
+    @staticmethod
+    def add_count_hook(module, input, output):
+        """Calculate FLOPs and params based on the activated features."""
+        input = input[0]
+        module.__flops__ += int(np.prod(input.shape) * output.shape[-1])
+        module.__params__ += get_dynamic_parameters_number(module)
diff --git a/mmrazor/models/task_modules/estimators/counters/op_counters/norm_layer_counter.py b/mmrazor/models/task_modules/estimators/counters/op_counters/norm_layer_counter.py
index 6dd7637..35862d1 100644
--- a/mmrazor/models/task_modules/estimators/counters/op_counters/norm_layer_counter.py
+++ b/mmrazor/models/task_modules/estimators/counters/op_counters/norm_layer_counter.py
@@ -2,7 +2,8 @@
 import numpy as np
 
 from mmrazor.registry import TASK_UTILS
-from ..flops_params_counter import get_model_parameters_number
+from ..flops_params_counter import (get_dynamic_parameters_number,
+                                    get_model_parameters_number)
 from .base_counter import BaseCounter
 
 
@@ -69,9 +70,61 @@ class GroupNormCounter(BNCounter):
     pass
 
 
+class DynamicNormCounter(BaseCounter):
+    """FLOPs/params counter for dynamic normalization series."""
+
+    @staticmethod
+    def add_count_hook(module, input, output):
+        """Calculate FLOPs and params based on the activated features."""
+        flops = np.prod(input[0].shape)
+        if getattr(module, 'affine', False) or getattr(
+                module, 'elementwise_affine', False):
+            flops *= 2
+        module.__flops__ += int(flops)
+        module.__params__ += get_dynamic_parameters_number(module)
+
+
 @TASK_UTILS.register_module()
-class DMCPBatchNorm2dCounter(BNCounter):
+class DynamicBatchNorm1dCounter(DynamicNormCounter):
+    """FLOPs/params counter for DynamicBatchNorm1d module."""
+    pass
+
+
+@TASK_UTILS.register_module()
+class DynamicBatchNorm2dCounter(DynamicNormCounter):
     """FLOPs/params counter for DynamicBatchNorm2d module."""
+    pass
+
+
+@TASK_UTILS.register_module()
+class DynamicBatchNorm3dCounter(DynamicNormCounter):
+    """FLOPs/params counter for DynamicBatchNorm3d module."""
+    pass
+
+
+@TASK_UTILS.register_module()
+class DynamicLayerNormCounter(DynamicNormCounter):
+    """FLOPs/params counter for DynamicLayerNorm module."""
+    pass
+
+
+@TASK_UTILS.register_module()
+class SwitchableBatchNorm2dCounter(DynamicNormCounter):
+    """FLOPs/params counter for SwitchableBatchNorm2d module."""
+
+    @staticmethod
+    def add_count_hook(module, input, output):
+        """Calculate FLOPs and params of the widest switch.
+
+        The batch norms of the other switches are counted themselves.
+        """
+        if module.activated_channel_num() == module.num_features:
+            DynamicNormCounter.add_count_hook(module, input, output)
+
+
+@TASK_UTILS.register_module()
+class DMCPBatchNorm2dCounter(BNCounter):
+    """FLOPs/params counter for DMCPBatchNorm2d module."""
 
     @staticmethod
     def add_count_hook(module, input, output):
@@ -79,14 +132,15 @@ class DMCPBatchNorm2dCounter(BNCounter):
         input = input[0]
         B, C, H, W = input.shape
 
-        mutable_channel = list(
-            module.mutable_attrs['num_features'].mutable_channels.values())
-        if hasattr(mutable_channel[0], 'activated_tensor_channels'):
-            C = mutable_channel[0].activated_tensor_channels
+        if 'num_features' in module.mutable_attrs:
+            mutable_channel = list(
+                module.mutable_attrs['num_features'].mutable_channels.values())
+            if len(mutable_channel) > 0 and hasattr(
+                    mutable_channel[0], 'activated_tensor_channels'):
+                C = mutable_channel[0].activated_tensor_channels
 
         batch_flops = B * C * H * W
         if getattr(module, 'affine', False):
             batch_flops *= 2
-        num_features = module.mutable_attrs['num_features'].activated_channels
         module.__flops__ += batch_flops
-        module.__params__ += num_features * 2
+        module.__params__ += get_dynamic_parameters_number(module)
-- 
2.43.0


From 9f46d95888d9fb37cfa64defdd535709a28b6adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:20 +0000
Subject: [PATCH 36/74] fix: take the parameters of per-channel and learned
 fakequants over on replacement

replace_fakequant() failed on per-channel fakequants, whose scale and zero
point have one element per channel, and truncated learned (float) zero points
instead of rounding and clamping them as the fakequant itself does.
---
 mmrazor/structures/quantization/qconfig.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/mmrazor/structures/quantization/qconfig.py b/mmrazor/structures/quantization/qconfig.py
index ab682be..3477865 100644
--- a/mmrazor/structures/quantization/qconfig.py
+++ b/mmrazor/structures/quantization/qconfig.py
@@ -184,8 +184,16 @@ class QConfigHandler():
         if update_qparams:
             device = fake_quant_org.scale.device
             fake_quant_ins = fake_quant_wrapper().to(device)
-            fake_quant_ins.scale.copy_(fake_quant_org.scale)
-            fake_quant_ins.zero_point.copy_(fake_quant_org.zero_point)
+            scale = fake_quant_org.scale.detach()
+            # A learned zero point is a float, which the fakequant rounds and
+            # clamps before it is used.
+            zero_point = fake_quant_org.zero_point.detach().round().clamp(
+                fake_quant_org.quant_min, fake_quant_org.quant_max)
+            # There is one scale and zero point per channel if it is
+            # per-channel.
+            fake_quant_ins.scale.resize_(scale.shape).copy_(scale)
+            fake_quant_ins.zero_point.resize_(
+                zero_point.shape).copy_(zero_point)
             obs = fake_quant_ins.activation_post_process
             obs_org = fake_quant_org.activation_post_process
             obs.min_val.resize_(obs_org.min_val.shape).copy_(obs_org.min_val)
-- 
2.43.0


From 3709dc3c10a4365b9a80d6c0d7b1f95fd4860827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:33 +0000
Subject: [PATCH 37/74] fix: keep the scale of the learnable fakequant positive
 in static estimation

LSQ observers estimate a scale of zero for a tensor of zeros, such as dead
activations, and the estimate was used and kept as it is.
---
 mmrazor/models/fake_quants/lsq.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmrazor/models/fake_quants/lsq.py b/mmrazor/models/fake_quants/lsq.py
index 1689d03..9d5bb83 100644
--- a/mmrazor/models/fake_quants/lsq.py
+++ b/mmrazor/models/fake_quants/lsq.py
@@ -235,8 +235,8 @@ class LearnableFakeQuantize(FakeQuantizeBase):
 
             self.scale.data.copy_(_scale)
             self.zero_point.data.copy_(_zero_point)
-        else:
-            self.scale.data.clamp_(min=self.eps.item())
+        # The observer estimates zero for a tensor of zeros.
+        self.scale.data.clamp_(min=self.eps.item())
 
         if self.fake_quant_enabled[0] == 1:
 
-- 
2.43.0


From aa750d10b5dffda1d89411612cf5cd2d3dea24af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:06 +0000
Subject: [PATCH 38/74] fix: quantise with GPTQ on machines without a GPU

quant() synchronised with CUDA whatever the device of the weights, although
'cpu' is the default device of quant_with_default_qconfig().
---
 mmrazor/implementations/quantization/gptq/gptq.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mmrazor/implementations/quantization/gptq/gptq.py b/mmrazor/implementations/quantization/gptq/gptq.py
index 84cfd3a..6679daf 100644
--- a/mmrazor/implementations/quantization/gptq/gptq.py
+++ b/mmrazor/implementations/quantization/gptq/gptq.py
@@ -290,7 +290,8 @@ class GPTQMixIn(ModuleProtocol):
 
                 W[:, i2:] -= Err1.matmul(Hinv[i1:i2, i2:])
 
-            torch.cuda.synchronize()
+            if W.device.type == 'cuda':
+                torch.cuda.synchronize()
             error = torch.sum(Losses).item()
 
             groupsize = groupsize if groupsize != -1 else self.columns
-- 
2.43.0


From a9f04e72e1e8128008df8c64c75d48de35339b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:06 +0000
Subject: [PATCH 39/74] fix: cover the range of non-negative rows in symmetric
 quantisation

The zero point is in the middle of the levels, but the step of a row without
negative values was computed as if it was at their end, so that everything
above half of the maximum was clipped.
---
 mmrazor/implementations/quantization/gptq/quantizer.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mmrazor/implementations/quantization/gptq/quantizer.py b/mmrazor/implementations/quantization/gptq/quantizer.py
index 0db2fb9..8ab50c6 100644
--- a/mmrazor/implementations/quantization/gptq/quantizer.py
+++ b/mmrazor/implementations/quantization/gptq/quantizer.py
@@ -67,10 +67,9 @@ class Quantizer(nn.Module):
         xmax = torch.maximum(x.max(1)[0], tmp)
 
         if self.sym:
+            # the zero point is in the middle, whatever the signs are
             xmax = torch.maximum(torch.abs(xmin), xmax)
-            tmp = xmin < 0
-            if torch.any(tmp):
-                xmin[tmp] = -xmax[tmp]
+            xmin = -xmax
         tmp = (xmin == 0) & (xmax == 0)
         xmin[tmp] = -1
         xmax[tmp] = +1
-- 
2.43.0


From b5558343bfc584140d7955c63a5255fc2e14e6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:50 +0000
Subject: [PATCH 40/74] fix: collect the inputs of dilated convolutions at
 their taps in GPTQ and SparseGPT

The statistics were those of the convolution without dilation.
---
 mmrazor/implementations/pruning/sparse_gpt/ops.py | 5 ++++-
 mmrazor/implementations/quantization/gptq/ops.py  | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/mmrazor/implementations/pruning/sparse_gpt/ops.py b/mmrazor/implementations/pruning/sparse_gpt/ops.py
index 0f11b17..81d76c4 100644
--- a/mmrazor/implementations/pruning/sparse_gpt/ops.py
+++ b/mmrazor/implementations/pruning/sparse_gpt/ops.py
@@ -273,6 +273,9 @@ class SparseGptConv2d(DynamicConv2d, SparseGptMixIn):
         """Format input shape."""
         # input B C H W
         input = F.unfold(
-            input, self.kernel_size, padding=self.padding,
+            input,
+            self.kernel_size,
+            dilation=self.dilation,
+            padding=self.padding,
             stride=self.stride)  # B C D
         return input.transpose(-1, -2)
diff --git a/mmrazor/implementations/quantization/gptq/ops.py b/mmrazor/implementations/quantization/gptq/ops.py
index b8c1394..5853f94 100644
--- a/mmrazor/implementations/quantization/gptq/ops.py
+++ b/mmrazor/implementations/quantization/gptq/ops.py
@@ -561,6 +561,9 @@ class GPTQConv2d(DynamicConv2d, GPTQMixIn):
         """Format input shape."""
         # input B C H W
         input = F.unfold(
-            input, self.kernel_size, padding=self.padding,
+            input,
+            self.kernel_size,
+            dilation=self.dilation,
+            padding=self.padding,
             stride=self.stride)  # B C D
         return input.transpose(-1, -2)
-- 
2.43.0


From 4f87556213041c6d9c6a47601cce0e173ee86e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:50 +0000
Subject: [PATCH 41/74] fix: prune exactly the configured share of the weights
 with SparseGPT

One weight more than configured was pruned in every block, one even with a
sparsity of 0, and a sparsity of 1 raised IndexError.
---
 mmrazor/implementations/pruning/sparse_gpt/ops.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mmrazor/implementations/pruning/sparse_gpt/ops.py b/mmrazor/implementations/pruning/sparse_gpt/ops.py
index 81d76c4..72f6d23 100644
--- a/mmrazor/implementations/pruning/sparse_gpt/ops.py
+++ b/mmrazor/implementations/pruning/sparse_gpt/ops.py
@@ -176,9 +176,12 @@ class SparseGptMixIn(ModuleProtocol):
                         mask1 = mask[:, i1:i2]
                     else:
                         tmp = W1**2 / (torch.diag(Hinv1).reshape((1, -1)))**2
-                        thresh = torch.sort(tmp.flatten())[0][int(tmp.numel() *
-                                                                  sparsity)]
-                        mask1 = tmp <= thresh
+                        num_pruned = int(tmp.numel() * sparsity)
+                        mask1 = torch.zeros_like(tmp) == 1
+                        if num_pruned > 0:
+                            thresh = torch.sort(
+                                tmp.flatten())[0][num_pruned - 1]
+                            mask1 = tmp <= thresh
                 else:
                     mask1 = torch.zeros_like(W1) == 1
 
-- 
2.43.0


From afe8ec0235849885c9d6e25de2cee2858f9f12d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:47 +0000
Subject: [PATCH 42/74] fix: wrap zero points of 0 when packing GPTQ layers

A zero point of 0 was stored as -1, which sets every bit of the word and
corrupts the zero points packed beside it.
---
 mmrazor/implementations/quantization/gptq/gptq.py | 6 ++++--
 mmrazor/implementations/quantization/gptq/ops.py  | 4 ++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/mmrazor/implementations/quantization/gptq/gptq.py b/mmrazor/implementations/quantization/gptq/gptq.py
index 6679daf..9adb4ef 100644
--- a/mmrazor/implementations/quantization/gptq/gptq.py
+++ b/mmrazor/implementations/quantization/gptq/gptq.py
@@ -191,8 +191,10 @@ class GPTQMixIn(ModuleProtocol):
         qweight = qweight.astype(np.int32)
         self.qweight = torch.from_numpy(qweight).to(self.weight.device)
 
-        zeros -= 1
-        zeros = zeros.cpu().numpy().astype(np.uint32)
+        # a zero point of 0 wraps around to the largest level, as it does when
+        # the kernels add the 1 again
+        zeros = zeros.cpu().numpy().astype(np.int64) - 1
+        zeros = (zeros & (2**self.bits - 1)).astype(np.uint32)
         qzeros = np.zeros((zeros.shape[0], zeros.shape[1] // 32 * self.bits),
                           dtype=np.uint32)
         i = 0
diff --git a/mmrazor/implementations/quantization/gptq/ops.py b/mmrazor/implementations/quantization/gptq/ops.py
index 5853f94..5a16a91 100644
--- a/mmrazor/implementations/quantization/gptq/ops.py
+++ b/mmrazor/implementations/quantization/gptq/ops.py
@@ -167,7 +167,7 @@ try:
                 g_idx[:, None] * stride_zeros)  # (BLOCK_SIZE_K, BLOCK_SIZE_N,)
 
             zeros = (zeros >> zeros_shifter[None, :]) & maxq
-            zeros = (zeros + 1)
+            zeros = (zeros + 1) & maxq
 
             a = tl.load(
                 a_ptrs, mask=a_mask, other=0.)  # (BLOCK_SIZE_M, BLOCK_SIZE_K)
@@ -327,7 +327,7 @@ try:
             zeros = tl.load(zeros_ptrs)  # (BLOCK_SIZE_K, BLOCK_SIZE_N,)
 
             zeros = (zeros >> zeros_shifter[None, :]) & maxq
-            zeros = (zeros + 1)
+            zeros = (zeros + 1) & maxq
 
             a = tl.load(
                 a_ptrs, mask=a_mask, other=0.)  # (BLOCK_SIZE_M, BLOCK_SIZE_N)
-- 
2.43.0


From 3d1f57649ab9fc68fe6295aeefdac60844e24de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:00 +0000
Subject: [PATCH 43/74] fix: attribute Fisher information of concatenated
 inputs to their own channels

A layer fed by several groups added the information of its first input
channels to every one of these groups, and failed when a channel is
flattened into several inputs.
---
 .../pruning/group_fisher/unit.py              | 29 +++++++++++++------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/mmrazor/implementations/pruning/group_fisher/unit.py b/mmrazor/implementations/pruning/group_fisher/unit.py
index 1c9128b..6a5df50 100644
--- a/mmrazor/implementations/pruning/group_fisher/unit.py
+++ b/mmrazor/implementations/pruning/group_fisher/unit.py
@@ -1,5 +1,5 @@
 # Copyright (c) OpenMMLab. All rights reserved.
-from typing import List
+from typing import List, Optional
 
 import torch
 import torch.nn as nn
@@ -154,16 +154,25 @@ class GroupFisherChannelUnit(L1MutableChannelUnit):
         """Accumulate the unit's fisher info of this batch."""
         with torch.no_grad():
             fisher: torch.Tensor = 0
-            for module in self.input_related_dynamic_ops:
-                fisher = fisher + self._fisher_of_a_module(module)
+            for channel in self.input_related:
+                if isinstance(channel.module, GroupFisherMixin):
+                    fisher = fisher + self._fisher_of_a_module(
+                        channel.module, channel.start, channel.end)
             return (fisher**2).sum(0)  # shape: [C]
 
     @torch.no_grad()
-    def _fisher_of_a_module(self, module: GroupFisherMixin) -> torch.Tensor:
+    def _fisher_of_a_module(self,
+                            module: GroupFisherMixin,
+                            start: int = 0,
+                            end: Optional[int] = None) -> torch.Tensor:
         """Calculate the fisher info of one module.
 
         Args:
             module (GroupFisherConv2d): A `GroupFisherConv2d` module.
+            start (int): The first input channel of the module which belongs
+                to the unit. Defaults to 0.
+            end (int, optional): The end of the input channels of the module
+                which belong to the unit. Defaults to None, the last one.
 
         Return:
             torch.Tensor: Whose shape is [B C]
@@ -179,13 +188,15 @@ class GroupFisherChannelUnit(L1MutableChannelUnit):
             assert len(fisher.shape) == 2  # B C
             fisher_sum = fisher_sum + fisher
         assert isinstance(fisher_sum, torch.Tensor)
-        # expand to full num_channel
+        # expand to all input channels of the module
         batch_size = fisher_sum.shape[0]
-        mask = self.mutable_channel.current_mask.unsqueeze(0).expand(
-            [batch_size, self.num_channels])
-        zeros = fisher_sum.new_zeros([batch_size, self.num_channels])
+        mask = module.get_mutable_attr('in_channels').current_mask
+        mask = mask.unsqueeze(0).expand([batch_size, len(mask)])
+        zeros = fisher_sum.new_zeros(mask.shape)
         fisher_sum = zeros.masked_scatter_(mask, fisher_sum)
-        return fisher_sum
+        # a channel of the unit may be several inputs of the module
+        return fisher_sum[:, start:end].reshape(
+            [batch_size, self.num_channels, -1]).sum(-1)
 
     @torch.no_grad()
     def _get_normalized_fisher_info(self,
-- 
2.43.0


From 5757a3be61c7b1bed07e61d415ca07057d4d01db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:00 +0000
Subject: [PATCH 44/74] fix: prune the least important channel when all
 importances are above 1e5

Above that bound the first group lost a channel whatever its importance.
---
 mmrazor/implementations/pruning/group_fisher/mutator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/implementations/pruning/group_fisher/mutator.py b/mmrazor/implementations/pruning/group_fisher/mutator.py
index d9e521a..b7b7ff3 100644
--- a/mmrazor/implementations/pruning/group_fisher/mutator.py
+++ b/mmrazor/implementations/pruning/group_fisher/mutator.py
@@ -56,7 +56,7 @@ class GroupFisherChannelMutator(ChannelMutator[GroupFisherChannelUnit]):
     def try_prune(self) -> None:
         """Prune the channel with the minimum fisher unless it is the last
         channel of the current layer."""
-        min_imp = 1e5
+        min_imp = float('inf')
         min_unit = self.mutable_units[0]
         for unit in self.mutable_units:
             if unit.mutable_channel.activated_channels > 1:
-- 
2.43.0


From b2a3358673ae5a641d27dfe1f278af188e278be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:22 +0000
Subject: [PATCH 45/74] fix: normalise Fisher information of linear layers

The channels of a linear layer are registered as features, so the lookup
failed for every group that feeds a linear layer.
---
 mmrazor/implementations/pruning/group_fisher/ops.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mmrazor/implementations/pruning/group_fisher/ops.py b/mmrazor/implementations/pruning/group_fisher/ops.py
index 35dbbd7..2745b9b 100644
--- a/mmrazor/implementations/pruning/group_fisher/ops.py
+++ b/mmrazor/implementations/pruning/group_fisher/ops.py
@@ -135,13 +135,15 @@ class GroupFisherLinear(DynamicLinear, GroupFisherMixin):
     @property
     def delta_flop_of_a_out_channel(self):
         """Calculate the summation of flops when prune an out_channel."""
-        in_c = self.mutable_attrs['in_channels'].current_mask.float().sum()
+        in_c = self.get_mutable_attr(
+            'in_channels').current_mask.float().sum()
         return in_c * len(self.recorded_out_shape)
 
     @property
     def delta_flop_of_a_in_channel(self):
         """Calculate the summation of flops when prune an in_channel."""
-        out_c = self.mutable_attrs['out_channels'].current_mask.float().sum()
+        out_c = self.get_mutable_attr(
+            'out_channels').current_mask.float().sum()
         return out_c * len(self.recorded_out_shape)
 
     @property
-- 
2.43.0


From 88b19cd99a00cb1c12b242d704cbb67daa78d9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:04 +0000
Subject: [PATCH 46/74] fix: delete fake quantisers reached twice, in lists or
 by keyword

A fake quantiser that reached the node on two ways was deleted twice and
raised, those inside of lists (concatenation, several outputs) were never
found, and modules were only searched at their first positional input.
---
 .../task_modules/tracer/fx/graph_utils.py     | 32 +++++++++----------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/mmrazor/models/task_modules/tracer/fx/graph_utils.py b/mmrazor/models/task_modules/tracer/fx/graph_utils.py
index ca12917..f31abd9 100644
--- a/mmrazor/models/task_modules/tracer/fx/graph_utils.py
+++ b/mmrazor/models/task_modules/tracer/fx/graph_utils.py
@@ -61,15 +61,13 @@ def recursive_find_erased_nodes(node, prepared_model):
             _get_attrs(prepared_model, node.target), FakeQuantizeBase):
         return [node]
 
-    nodes_to_erase = []
-    for prev_node in node.args:
-        if isinstance(prev_node, Node):
-            nodes_to_erase.extend(
-                recursive_find_erased_nodes(prev_node, prepared_model))
-    for prev_node in node.kwargs.values():
-        if isinstance(prev_node, Node):
-            nodes_to_erase.extend(
-                recursive_find_erased_nodes(prev_node, prepared_model))
+    nodes_to_erase: List[Node] = []
+    # A node may be reached on several ways and inside of lists or dicts.
+    for prev_node in node.all_input_nodes:
+        for to_erase in recursive_find_erased_nodes(prev_node,
+                                                    prepared_model):
+            if to_erase not in nodes_to_erase:
+                nodes_to_erase.append(to_erase)
 
     return nodes_to_erase
 
@@ -332,14 +330,14 @@ def del_fakequant_before_module(prepared_model,
     for node in new_graph.nodes:
         if node.op == 'call_module' and isinstance(
                 _get_attrs(prepared_model, node.target), module_patterns):
-            to_erase = node.args[0]
-            if not (to_erase.op == 'call_module' and isinstance(
-                    _get_attrs(prepared_model, to_erase.target),
-                    FakeQuantizeBase)):
-                continue
-            to_erase.replace_all_uses_with(to_erase.args[0])
-            new_graph.erase_node(to_erase)
-            delattr(prepared_model, to_erase.target)
+            for to_erase in node.all_input_nodes:
+                if not (to_erase.op == 'call_module' and isinstance(
+                        _get_attrs(prepared_model, to_erase.target),
+                        FakeQuantizeBase)):
+                    continue
+                to_erase.replace_all_uses_with(to_erase.args[0])
+                new_graph.erase_node(to_erase)
+                delattr(prepared_model, to_erase.target)
 
     new_graph.lint()
     prepared_model.graph = new_graph
-- 
2.43.0


From 74707dc48134c73ff2fd62c11a869437c298ac15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:01 +0000
Subject: [PATCH 47/74] fix: collect the constants of every fake quantiser once

---
 mmrazor/models/quantizers/exporters/base_quantize_exporter.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mmrazor/models/quantizers/exporters/base_quantize_exporter.py b/mmrazor/models/quantizers/exporters/base_quantize_exporter.py
index 6527d32..a34a2c8 100644
--- a/mmrazor/models/quantizers/exporters/base_quantize_exporter.py
+++ b/mmrazor/models/quantizers/exporters/base_quantize_exporter.py
@@ -131,8 +131,7 @@ class BaseQuantizeExportor():
         collected_constant_names = set()
         constant_inputs = list()
         for node in symbolic_nodes:
-            constant_inputs = self._get_constant_inputs(node)
-            for constant in constant_inputs:
+            for constant in self._get_constant_inputs(node):
                 if constant.name in collected_constant_names:
                     continue
                 constant_inputs.append(constant)
-- 
2.43.0


From 45847da520377b09eb73dfb3928dcd8eb33fde07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:01 +0000
Subject: [PATCH 48/74] fix: keep nodes that make an output of the exported
 graph

---
 mmrazor/models/quantizers/exporters/optim_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mmrazor/models/quantizers/exporters/optim_utils.py b/mmrazor/models/quantizers/exporters/optim_utils.py
index f4adc5e..d43ac74 100644
--- a/mmrazor/models/quantizers/exporters/optim_utils.py
+++ b/mmrazor/models/quantizers/exporters/optim_utils.py
@@ -116,13 +116,15 @@ class ONNXOptimUtils():
         if output2node is None:
             output2node = cls.map_output_and_node(onnx_model)
 
+        graph_outputs = {output.name for output in onnx_model.graph.output}
+
         def _is_standalone_node(node, input2node, output2node):
             for input_name in node.input:
                 if input_name in output2node:
                     return False
 
             for out_node in node.output:
-                if out_node in input2node:
+                if out_node in input2node or out_node in graph_outputs:
                     return False
 
             return True
-- 
2.43.0


From ac23b45c76588edb486a4ce14a94de844292e0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:01 +0000
Subject: [PATCH 49/74] fix: sort exported graphs with absent optional inputs

---
 mmrazor/models/quantizers/exporters/optim_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mmrazor/models/quantizers/exporters/optim_utils.py b/mmrazor/models/quantizers/exporters/optim_utils.py
index d43ac74..e588187 100644
--- a/mmrazor/models/quantizers/exporters/optim_utils.py
+++ b/mmrazor/models/quantizers/exporters/optim_utils.py
@@ -205,7 +205,8 @@ class ONNXOptimUtils():
         # Build graph
         for i, node in enumerate(_onnx_model.graph.node):
             for input_name in node.input:
-                if input_name not in initializers:
+                # An empty name marks an optional input which is absent.
+                if input_name and input_name not in initializers:
                     indegree[node.name] += 1
                     prev_node = output_name2node[input_name]
                     graph[prev_node.name].append(node)
-- 
2.43.0


From d7f8f767ca9f49472fb7489ec27b6a27943386b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:01 +0000
Subject: [PATCH 50/74] fix: export paddings that are computed or make an
 output of the graph

---
 mmrazor/models/quantizers/exporters/optim_utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mmrazor/models/quantizers/exporters/optim_utils.py b/mmrazor/models/quantizers/exporters/optim_utils.py
index e588187..b88ec2b 100644
--- a/mmrazor/models/quantizers/exporters/optim_utils.py
+++ b/mmrazor/models/quantizers/exporters/optim_utils.py
@@ -83,9 +83,14 @@ class ONNXOptimUtils():
     @classmethod
     def remove_fake_pad_op(cls, onnx_model, name2data, inp2node, out2node):
         nodes_to_be_removed = []
+        graph_outputs = {output.name for output in onnx_model.graph.output}
         for idx, node in enumerate(onnx_model.graph.node):
             if node.op_type == 'Pad':
-                pads = name2data[node.input[1]]
+                # The pads may be computed by other nodes, and the name of
+                # an output of the graph can not be replaced.
+                pads = name2data.get(node.input[1])
+                if pads is None or node.output[0] in graph_outputs:
+                    continue
                 if all([x == 0 for x in pads]):
                     print_log(f'Remove pad op: <{node.name}>.')
                     next_nodes = inp2node[node.output[0]]
-- 
2.43.0


From d907254f037d8083d0b87ef64b42b631cb05f8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:43 +0000
Subject: [PATCH 51/74] fix: export every fake quantiser of a tensor with its
 own range

---
 .../models/quantizers/exporters/openvino_quantize_exporter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mmrazor/models/quantizers/exporters/openvino_quantize_exporter.py b/mmrazor/models/quantizers/exporters/openvino_quantize_exporter.py
index e706251..92c68bc 100644
--- a/mmrazor/models/quantizers/exporters/openvino_quantize_exporter.py
+++ b/mmrazor/models/quantizers/exporters/openvino_quantize_exporter.py
@@ -41,7 +41,9 @@ class OpenVinoQuantizeExportor(BaseQuantizeExportor):
         output_name = node.output[0]
         # Create a node (FakeQuantize)
         keys = ['input_min', 'input_max', 'output_min', 'output_max']
-        input_names = [f'{tensor_name}_{key}' for key in keys]
+        # A tensor may be quantized more than once, the output of the node
+        # names its range.
+        input_names = [f'{output_name}_{key}' for key in keys]
         backend_node = helper.make_node(
             'FakeQuantize',  # node name
             [tensor_name, *input_names],  # inputs
-- 
2.43.0


From c5e29c2613c3ec9a2cd085b3cc08ae8fa5e40760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:33 +0000
Subject: [PATCH 52/74] fix: draw contrastive samples from classes of different
 sizes

---
 mmrazor/datasets/crd_dataset_wrapper.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/mmrazor/datasets/crd_dataset_wrapper.py b/mmrazor/datasets/crd_dataset_wrapper.py
index aa62f38..929c287 100644
--- a/mmrazor/datasets/crd_dataset_wrapper.py
+++ b/mmrazor/datasets/crd_dataset_wrapper.py
@@ -112,9 +112,6 @@ class CRDDataset:
                     for i in range(num_classes)  # type: ignore
                 ]
 
-            self.cls_positive = np.asarray(self.cls_positive)
-            self.cls_negative = np.asarray(self.cls_negative)
-
     @property
     def metainfo(self) -> dict:
         """Get the meta information of the repeated dataset.
-- 
2.43.0


From 42a97228439843556285d6b84a8c010389c68e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:33 +0000
Subject: [PATCH 53/74] fix: take the percentage of the negative samples of
 every class

---
 mmrazor/datasets/crd_dataset_wrapper.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mmrazor/datasets/crd_dataset_wrapper.py b/mmrazor/datasets/crd_dataset_wrapper.py
index 929c287..4954469 100644
--- a/mmrazor/datasets/crd_dataset_wrapper.py
+++ b/mmrazor/datasets/crd_dataset_wrapper.py
@@ -106,10 +106,11 @@ class CRDDataset:
             ]
 
             if 0 < self.percent < 1:
-                n = int(len(self.cls_negative[0]) * self.percent)
+                # At least one negative sample has to be left to draw from.
                 self.cls_negative = [
-                    np.random.permutation(self.cls_negative[i])[0:n]
-                    for i in range(num_classes)  # type: ignore
+                    np.random.permutation(negative)
+                    [:max(1, int(len(negative) * self.percent))]
+                    for negative in self.cls_negative
                 ]
 
     @property
-- 
2.43.0


From 688035d17441b8b2747751408d76200ae0468daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:33 +0000
Subject: [PATCH 54/74] fix: AliasMethod does not change the weights it is
 given

---
 mmrazor/models/losses/crd_loss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/models/losses/crd_loss.py b/mmrazor/models/losses/crd_loss.py
index f99db84..d245686 100644
--- a/mmrazor/models/losses/crd_loss.py
+++ b/mmrazor/models/losses/crd_loss.py
@@ -215,7 +215,7 @@ class AliasMethod(object):
     def __init__(self, probs: torch.Tensor) -> None:
 
         if probs.sum() > 1:
-            probs.div_(probs.sum())
+            probs = probs / probs.sum()
         neg_sample = len(probs)
         self.prob = torch.zeros(neg_sample)
         self.alias = torch.LongTensor([0] * neg_sample)
-- 
2.43.0


From 6e351f0e54abfe1b8697e6e20237f53792c9d702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:23 +0000
Subject: [PATCH 55/74] fix: keep the normalisation of ContrastMemory a float
 for integer settings

---
 mmrazor/models/losses/crd_loss.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mmrazor/models/losses/crd_loss.py b/mmrazor/models/losses/crd_loss.py
index d245686..28b6831 100644
--- a/mmrazor/models/losses/crd_loss.py
+++ b/mmrazor/models/losses/crd_loss.py
@@ -127,8 +127,9 @@ class ContrastMemory(nn.Module):
         # self.multinomial.cuda()
         self.neg_sample = neg_sample
 
-        self.register_buffer('params',
-                             torch.tensor([neg_sample, T, -1, -1, momentum]))
+        # A floating tensor even if all these numbers are integers.
+        self.register_buffer(
+            'params', torch.tensor([neg_sample, T, -1., -1., momentum]))
         stdv = 1. / math.sqrt(dim_out / 3)
         self.register_buffer(
             'memory_v1',
-- 
2.43.0


From 2ba1e83e7d4e37f230a2a64aa6e08682d9ddf7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:24 +0000
Subject: [PATCH 56/74] fix: convert normalisation layers without parameters to
 dynamic ones

---
 .../mutable_channel/units/mutable_channel_unit.py        | 5 ++++-
 mmrazor/models/utils/utils.py                            | 9 +++++----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/mmrazor/models/mutables/mutable_channel/units/mutable_channel_unit.py b/mmrazor/models/mutables/mutable_channel/units/mutable_channel_unit.py
index 251214f..881a08e 100644
--- a/mmrazor/models/mutables/mutable_channel/units/mutable_channel_unit.py
+++ b/mmrazor/models/mutables/mutable_channel/units/mutable_channel_unit.py
@@ -227,8 +227,11 @@ class MutableChannelUnit(ChannelUnit):
             if isinstance(channel.module, nn.Module):
                 module = get_module(model, channel.name)
                 if type(module) in dynamicop_map:
+                    # A module can be without any parameter or buffer.
+                    device = get_module_device(
+                        module if module.state_dict() else model)
                     new_module = dynamicop_map[type(module)].convert_from(
-                        module).to(get_module_device(module))
+                        module).to(device)
                     replace_op(model, channel.name, new_module)
                     channel.module = new_module
                 else:
diff --git a/mmrazor/models/utils/utils.py b/mmrazor/models/utils/utils.py
index b2fc496..b608d3b 100644
--- a/mmrazor/models/utils/utils.py
+++ b/mmrazor/models/utils/utils.py
@@ -1,4 +1,5 @@
 # Copyright (c) OpenMMLab. All rights reserved.
+from itertools import chain
 from typing import List, Union
 
 import torch
@@ -9,15 +10,15 @@ def get_module_device(module: nn.Module) -> torch.device:
     """Get the device of a module.
 
     Args:
-        module (nn.Module): A module contains the parameters.
+        module (nn.Module): A module contains the parameters or buffers.
     """
     try:
-        next(module.parameters())
+        tensor = next(chain(module.parameters(), module.buffers()))
     except StopIteration as e:
         raise ValueError('The input module should contain parameters.') from e
 
-    if next(module.parameters()).is_cuda:
-        return next(module.parameters()).get_device()
+    if tensor.is_cuda:
+        return tensor.get_device()
 
     return torch.device('cpu')
 
-- 
2.43.0


From 963f083ddc720694d580ecae8e5797c1b867030f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:46 +0000
Subject: [PATCH 57/74] fix: keep the training mode of expanded layers

---
 mmrazor/models/utils/expandable_utils/ops.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mmrazor/models/utils/expandable_utils/ops.py b/mmrazor/models/utils/expandable_utils/ops.py
index f2bc2b0..b147557 100644
--- a/mmrazor/models/utils/expandable_utils/ops.py
+++ b/mmrazor/models/utils/expandable_utils/ops.py
@@ -21,11 +21,12 @@ class ExpandableMixin:
             zero (bool, optional): whether to set new weights to zero. Defaults
                 to False.
         """
-        return self.get_expand_op(
+        module = self.get_expand_op(
             self.expanded_in_channel,
             self.expanded_out_channel,
             zero=zero,
         )
+        return module.train(self.training)  # type: ignore
 
     def get_expand_op(self, in_c, out_c, zero=False):
         """Get an expanded op.
-- 
2.43.0


From 63078d24f6d15e8fe8ee3e26ba8e296243d4c2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:46 +0000
Subject: [PATCH 58/74] fix: expand normalisation layers without scales

---
 mmrazor/models/utils/expandable_utils/ops.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mmrazor/models/utils/expandable_utils/ops.py b/mmrazor/models/utils/expandable_utils/ops.py
index b147557..4307650 100644
--- a/mmrazor/models/utils/expandable_utils/ops.py
+++ b/mmrazor/models/utils/expandable_utils/ops.py
@@ -234,6 +234,7 @@ class ExpandableBatchNorm2d(dynamic_ops.DynamicBatchNorm2d, ExpandableMixin):
         if module.running_var is not None:
             module.running_var.data = self.expand_bias(module.running_var,
                                                        self.running_var)
-        module.weight.data = self.expand_bias(module.weight, self.weight)
-        module.bias.data = self.expand_bias(module.bias, self.bias)
+        if module.affine:
+            module.weight.data = self.expand_bias(module.weight, self.weight)
+            module.bias.data = self.expand_bias(module.bias, self.bias)
         return module
-- 
2.43.0


From 2bc7dad945db8ef164e7d7f29ba631f67142e87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:46 +0000
Subject: [PATCH 59/74] fix: keep the number of tracked batches of expanded
 layers

---
 mmrazor/models/utils/expandable_utils/ops.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mmrazor/models/utils/expandable_utils/ops.py b/mmrazor/models/utils/expandable_utils/ops.py
index 4307650..c2bb0bb 100644
--- a/mmrazor/models/utils/expandable_utils/ops.py
+++ b/mmrazor/models/utils/expandable_utils/ops.py
@@ -234,6 +234,9 @@ class ExpandableBatchNorm2d(dynamic_ops.DynamicBatchNorm2d, ExpandableMixin):
         if module.running_var is not None:
             module.running_var.data = self.expand_bias(module.running_var,
                                                        self.running_var)
+
+        if module.num_batches_tracked is not None:
+            module.num_batches_tracked.copy_(self.num_batches_tracked)
         if module.affine:
             module.weight.data = self.expand_bias(module.weight, self.weight)
             module.bias.data = self.expand_bias(module.bias, self.bias)
-- 
2.43.0


From bd7e768522d33f3ed8c40edfc9cb7a29efb7ef4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:01 +0000
Subject: [PATCH 60/74] fix: expand units to the given number of channels more
 than once

---
 mmrazor/models/utils/expandable_utils/unit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mmrazor/models/utils/expandable_utils/unit.py b/mmrazor/models/utils/expandable_utils/unit.py
index 6d0b036..4f39c02 100644
--- a/mmrazor/models/utils/expandable_utils/unit.py
+++ b/mmrazor/models/utils/expandable_utils/unit.py
@@ -28,4 +28,5 @@ class ExpandableUnit(L1MutableChannelUnit):
         self.mutable_channel.mask = mask
 
     def expand_to(self, num):
-        self.expand(num - self.num_channels)
+        # The unit may have been expanded before.
+        self.expand(num - self.mutable_channel.mask.numel())
-- 
2.43.0


From dc871a9c8840d697abe77109ba88df01d36985ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:18 +0000
Subject: [PATCH 61/74] fix: keep the training mode of layers replaced by
 dynamic ones

---
 .../mutables/mutable_channel/units/mutable_channel_unit.py       | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mmrazor/models/mutables/mutable_channel/units/mutable_channel_unit.py b/mmrazor/models/mutables/mutable_channel/units/mutable_channel_unit.py
index 881a08e..7bd7213 100644
--- a/mmrazor/models/mutables/mutable_channel/units/mutable_channel_unit.py
+++ b/mmrazor/models/mutables/mutable_channel/units/mutable_channel_unit.py
@@ -232,6 +232,7 @@ class MutableChannelUnit(ChannelUnit):
                         module if module.state_dict() else model)
                     new_module = dynamicop_map[type(module)].convert_from(
                         module).to(device)
+                    new_module.train(module.training)
                     replace_op(model, channel.name, new_module)
                     channel.module = new_module
                 else:
-- 
2.43.0


From b97c3edd3489d7813155dfaa57f3eb24897b86d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:18 +0000
Subject: [PATCH 62/74] fix: creating a unit from a channel unit leaves the
 given arguments alone

---
 mmrazor/models/mutables/mutable_channel/units/channel_unit.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mmrazor/models/mutables/mutable_channel/units/channel_unit.py b/mmrazor/models/mutables/mutable_channel/units/channel_unit.py
index e730245..e982892 100644
--- a/mmrazor/models/mutables/mutable_channel/units/channel_unit.py
+++ b/mmrazor/models/mutables/mutable_channel/units/channel_unit.py
@@ -171,8 +171,7 @@ class ChannelUnit(BaseModule):
                                unit: 'ChannelUnit',
                                args: Dict = {}) -> 'ChannelUnit':
         """Initial a object of current class from a ChannelUnit object."""
-        args['num_channels'] = unit.num_channels
-        mutable_unit = cls(**args)
+        mutable_unit = cls(**{**args, 'num_channels': unit.num_channels})
         mutable_unit.input_related = unit.input_related
         mutable_unit.output_related = unit.output_related
         return mutable_unit
-- 
2.43.0


From 21892aaace7710c5a5457f75d474c8bb86fb64d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:26 +0000
Subject: [PATCH 63/74] fix: cut repeated copies of a concatenated tensor alike

---
 mmrazor/structures/graph/channel_graph.py | 23 +++++++++++++++++++----
 mmrazor/structures/graph/channel_nodes.py | 14 ++++++++++++++
 2 files changed, 33 insertions(+), 4 deletions(-)

diff --git a/mmrazor/structures/graph/channel_graph.py b/mmrazor/structures/graph/channel_graph.py
index 40f8da0..601b788 100644
--- a/mmrazor/structures/graph/channel_graph.py
+++ b/mmrazor/structures/graph/channel_graph.py
@@ -7,9 +7,10 @@ from torch.nn import Module
 from mmrazor.utils import print_log
 from .base_graph import BaseGraph
 from .channel_flow import ChannelTensor
-from .channel_nodes import (ChannelDismatchError, ChannelNode, EndNode,
-                            ExpandChannelNode, InputChannelNode,
-                            default_channel_node_converter)
+from .channel_nodes import (CatChannelNode, ChannelDismatchError, ChannelNode,
+                            EndNode, ExpandChannelNode, InputChannelNode,
+                            LinearNode, PassChannelNode, PassUnionChannelNode,
+                            TileChannelNode, default_channel_node_converter)
 from .module_graph import ModuleGraph, NoInputError, NoOutputError
 
 
@@ -177,6 +178,16 @@ class ChannelGraph(ModuleGraph[ChannelNode]):
 
     def _insert_expand_node(self):
         """Insert expand nodes in the graph."""
+
+        def is_repeated(node: ChannelNode):
+            """If the output of a node is a concatenation of copies of one
+            tensor, as all the edges from that tensor are merged."""
+            while isinstance(node, (PassUnionChannelNode, PassChannelNode)) \
+                    and len(node.prev_nodes) == 1:
+                node = node.prev_nodes[0]
+            return isinstance(node, CatChannelNode) and \
+                len(node.prev_nodes) == 1
+
         num_expand_nodes = 0
         nodes: List[ChannelNode] = copy.copy(list(self.topo_traverse()))
         for node in nodes:
@@ -194,7 +205,11 @@ class ChannelGraph(ModuleGraph[ChannelNode]):
                         expand_ratio = (
                             node.in_channels // pre_node.out_channels)
                         # insert a expand node
-                        new_node = ExpandChannelNode(
+                        node_class = ExpandChannelNode
+                        if is_repeated(pre_node) and not isinstance(
+                                node, LinearNode):
+                            node_class = TileChannelNode
+                        new_node = node_class(
                             f'expand_{num_expand_nodes}',
                             'expand',
                             expand_ratio=expand_ratio)
diff --git a/mmrazor/structures/graph/channel_nodes.py b/mmrazor/structures/graph/channel_nodes.py
index be8e3de..f1d0672 100644
--- a/mmrazor/structures/graph/channel_nodes.py
+++ b/mmrazor/structures/graph/channel_nodes.py
@@ -279,6 +279,20 @@ class ExpandChannelNode(ChannelNode):
         return super().__repr__() + f'_expand({self.expand_ratio})'
 
 
+class TileChannelNode(ExpandChannelNode):
+    """A TileChannelNode repeats all input channels one after another."""
+
+    def channel_forward(self, channel_tensors: List[ChannelTensor]):
+        assert len(channel_tensors) == 1, f'{self}'
+        self.in_channel_tensor = channel_tensors[0]
+        self.out_channel_tensor = ChannelTensor.cat(channel_tensors *
+                                                    self.expand_ratio)
+        return self.out_channel_tensor
+
+    def __repr__(self) -> str:
+        return super().__repr__() + f'_tile({self.expand_ratio})'
+
+
 class InputChannelNode(ChannelNode):
 
     def __init__(self,
-- 
2.43.0


From f391f375bc19001ed403cdab53764a244896d9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:21 +0000
Subject: [PATCH 64/74] fix: keep the two updates of a DARTS step apart and
 apply its virtual step

---
 mmrazor/models/algorithms/nas/darts.py | 83 ++++++++++++++++++--------
 1 file changed, 58 insertions(+), 25 deletions(-)

diff --git a/mmrazor/models/algorithms/nas/darts.py b/mmrazor/models/algorithms/nas/darts.py
index b110f47..f38f410 100644
--- a/mmrazor/models/algorithms/nas/darts.py
+++ b/mmrazor/models/algorithms/nas/darts.py
@@ -1,7 +1,8 @@
 # Copyright (c) OpenMMLab. All rights reserved.
 import copy
 import os
-from typing import Dict, List, Optional, Union
+from contextlib import contextmanager
+from typing import Dict, Iterable, List, Optional, Union
 
 import torch
 from mmengine.model import BaseModel, MMDistributedDataParallel
@@ -17,6 +18,21 @@ from ..base import BaseAlgorithm
 VALID_MUTATOR_TYPE = Union[NasMutator, Dict]
 
 
+@contextmanager
+def _set_aside_grads(params: Iterable[nn.Parameter]):
+    """Set the gradients of ``params`` aside, as the backward passes inside
+    the context are not meant to update them."""
+    params = list(params)
+    grads = [param.grad for param in params]
+    for param in params:
+        param.grad = None
+    try:
+        yield
+    finally:
+        for param, grad in zip(params, grads):
+            param.grad = grad
+
+
 @MODELS.register_module()
 class Darts(BaseAlgorithm):
     """Implementation of `DARTS <https://arxiv.org/abs/1806.09055>`_
@@ -118,8 +134,9 @@ class Darts(BaseAlgorithm):
             if self.unroll:
                 with optim_wrapper['mutator'].optim_context(self):
                     optim_wrapper['mutator'].zero_grad()
-                    mutator_log_vars = self._unrolled_backward(
-                        mutator_data, supernet_data, optim_wrapper)
+                    with _set_aside_grads(self.architecture.parameters()):
+                        mutator_log_vars = self._unrolled_backward(
+                            mutator_data, supernet_data, optim_wrapper)
                 optim_wrapper['mutator'].step()
                 log_vars.update(add_prefix(mutator_log_vars, 'mutator'))
             else:
@@ -133,7 +150,8 @@ class Darts(BaseAlgorithm):
                         mode='loss')
                 mutator_losses, mutator_log_vars = self.parse_losses(
                     mutator_loss)
-                optim_wrapper['mutator'].update_params(mutator_losses)
+                with _set_aside_grads(self.architecture.parameters()):
+                    optim_wrapper['mutator'].update_params(mutator_losses)
                 log_vars.update(add_prefix(mutator_log_vars, 'mutator'))
 
             # Update the parameter of supernet
@@ -145,7 +163,8 @@ class Darts(BaseAlgorithm):
                     supernet_batch_inputs, supernet_data_samples, mode='loss')
             supernet_losses, supernet_log_vars = self.parse_losses(
                 supernet_loss)
-            optim_wrapper['architecture'].update_params(supernet_losses)
+            with _set_aside_grads(self.mutator.parameters()):
+                optim_wrapper['architecture'].update_params(supernet_losses)
             log_vars.update(add_prefix(supernet_log_vars, 'supernet'))
 
         else:
@@ -214,13 +233,16 @@ class Darts(BaseAlgorithm):
             supernet_batch_inputs, supernet_data_samples, mode='loss')
         supernet_loss, _ = self.parse_losses(supernet_loss)
 
-        optim_wrapper.backward(supernet_loss)
-        gradients = [param.grad for param in self.architecture.parameters()]
+        with _set_aside_grads(self.mutator.parameters()):
+            optim_wrapper.backward(supernet_loss)
 
         with torch.no_grad():
-            for w, g in zip(self.architecture.parameters(), gradients):
-                m = optim_wrapper.optimizer.state[w].get('momentum_buffer', 0.)
-                w = w - lr * (momentum * m + g + weight_decay * w)
+            for w in self.architecture.parameters():
+                m = optim_wrapper.optimizer.state[w].get('momentum_buffer')
+                m = 0. if m is None else m
+                w -= lr * (momentum * m + w.grad + weight_decay * w)
+                # only the gradients of the unrolled loss are used afterwards
+                w.grad = None
 
     def _restore_weights(self, backup_params):
         """restore weight from backup params."""
@@ -261,8 +283,9 @@ class Darts(BaseAlgorithm):
                 supernet_batch_inputs, supernet_data_samples, mode='loss')
             supernet_loss, _ = self.parse_losses(supernet_loss)
 
-            optim_wrapper.backward(supernet_loss)
-            dalpha = [param.grad for param in self.mutator.parameters()]
+            with _set_aside_grads(self.parameters()):
+                optim_wrapper.backward(supernet_loss)
+                dalpha = [param.grad for param in self.mutator.parameters()]
             dalphas.append(dalpha)
 
         # dalpha { L_trn(w+) }, # dalpha { L_trn(w-) }
@@ -357,8 +380,10 @@ class DartsDDP(MMDistributedDataParallel):
             if self.module.unroll:
                 with optim_wrapper['mutator'].optim_context(self):
                     optim_wrapper['mutator'].zero_grad()
-                    mutator_log_vars = self._unrolled_backward(
-                        mutator_data, supernet_data, optim_wrapper)
+                    with _set_aside_grads(
+                            self.module.architecture.parameters()):
+                        mutator_log_vars = self._unrolled_backward(
+                            mutator_data, supernet_data, optim_wrapper)
                 optim_wrapper['mutator'].step()
                 log_vars.update(add_prefix(mutator_log_vars, 'mutator'))
             else:
@@ -374,7 +399,9 @@ class DartsDDP(MMDistributedDataParallel):
 
                     mutator_losses, mutator_log_vars = self.module.parse_losses(  # noqa: E501
                         mutator_loss)
-                    optim_wrapper['mutator'].update_params(mutator_losses)
+                    with _set_aside_grads(
+                            self.module.architecture.parameters()):
+                        optim_wrapper['mutator'].update_params(mutator_losses)
                     log_vars.update(add_prefix(mutator_log_vars, 'mutator'))
 
             # Update the parameter of supernet
@@ -389,7 +416,9 @@ class DartsDDP(MMDistributedDataParallel):
                 supernet_losses, supernet_log_vars = self.module.parse_losses(
                     supernet_loss)
 
-                optim_wrapper['architecture'].update_params(supernet_losses)
+                with _set_aside_grads(self.module.mutator.parameters()):
+                    optim_wrapper['architecture'].update_params(
+                        supernet_losses)
                 log_vars.update(add_prefix(supernet_log_vars, 'supernet'))
 
         else:
@@ -463,15 +492,16 @@ class DartsDDP(MMDistributedDataParallel):
             supernet_batch_inputs, supernet_data_samples, mode='loss')
         supernet_loss, _ = self.module.parse_losses(supernet_loss)
 
-        optim_wrapper.backward(supernet_loss)
-        gradients = [
-            param.grad for param in self.module.architecture.parameters()
-        ]
+        with _set_aside_grads(self.module.mutator.parameters()):
+            optim_wrapper.backward(supernet_loss)
 
         with torch.no_grad():
-            for w, g in zip(self.module.architecture.parameters(), gradients):
-                m = optim_wrapper.optimizer.state[w].get('momentum_buffer', 0.)
-                w = w - lr * (momentum * m + g + weight_decay * w)
+            for w in self.module.architecture.parameters():
+                m = optim_wrapper.optimizer.state[w].get('momentum_buffer')
+                m = 0. if m is None else m
+                w -= lr * (momentum * m + w.grad + weight_decay * w)
+                # only the gradients of the unrolled loss are used afterwards
+                w.grad = None
 
     def _restore_weights(self, backup_params):
         """restore weight from backup params."""
@@ -512,8 +542,11 @@ class DartsDDP(MMDistributedDataParallel):
                 supernet_batch_inputs, supernet_data_samples, mode='loss')
             supernet_loss, _ = self.module.parse_losses(supernet_loss)
 
-            optim_wrapper.backward(supernet_loss)
-            dalpha = [param.grad for param in self.module.mutator.parameters()]
+            with _set_aside_grads(self.module.parameters()):
+                optim_wrapper.backward(supernet_loss)
+                dalpha = [
+                    param.grad for param in self.module.mutator.parameters()
+                ]
             dalphas.append(dalpha)
 
         # dalpha { L_trn(w+) }, # dalpha { L_trn(w-) }
-- 
2.43.0


From ade3411710c47eaab7b3ed8b5e5673034368c5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:50 +0000
Subject: [PATCH 65/74] fix: resumed LSQ training keeps the learned scales

---
 mmrazor/engine/runner/quantization_loops.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mmrazor/engine/runner/quantization_loops.py b/mmrazor/engine/runner/quantization_loops.py
index 58d91cf..8563b00 100644
--- a/mmrazor/engine/runner/quantization_loops.py
+++ b/mmrazor/engine/runner/quantization_loops.py
@@ -185,6 +185,9 @@ class LSQEpochBasedLoop(QATEpochBasedLoop):
         self.runner.call_hook('before_train_epoch')
         self.runner.model.train()
 
+        # A resumed training goes on learning the loaded scales instead of
+        # estimating them again.
+        self.is_first_batch = self.is_first_batch and self._iter == 0
         for idx, data_batch in enumerate(self.dataloader):
             if self.is_first_batch:
                 # lsq observer init
-- 
2.43.0


From a4d248dc7daf72be1a9369ab35a9131cc3e1a9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:18 +0000
Subject: [PATCH 66/74] fix: QAT validation returns the metrics of both
 networks

---
 mmrazor/engine/runner/quantization_loops.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mmrazor/engine/runner/quantization_loops.py b/mmrazor/engine/runner/quantization_loops.py
index 8563b00..c69699f 100644
--- a/mmrazor/engine/runner/quantization_loops.py
+++ b/mmrazor/engine/runner/quantization_loops.py
@@ -267,6 +267,7 @@ class QATValLoop(ValLoop):
             self.runner.message_hub.log_scalars.pop(f'val/{ori_key}', None)
 
         self.runner.call_hook('after_val_epoch', metrics=qat_metrics)
+        all_metrics = dict(qat_metrics)
 
         self.runner.call_hook('before_val_epoch')
         self.runner.model.eval()
@@ -285,7 +286,8 @@ class QATValLoop(ValLoop):
         self.runner.call_hook('after_val_epoch', metrics=qat_metrics)
 
         self.runner.call_hook('after_val')
-        return qat_metrics
+        all_metrics.update(qat_metrics)
+        return all_metrics
 
     @torch.no_grad()
     def run_iter(self, idx, data_batch: Sequence[dict], model):
-- 
2.43.0


From 2ef061f9ccaabfb23247fa01d64fc51dfd5f2079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:50 +0000
Subject: [PATCH 67/74] fix: restart the data loaders of an iteration based
 DARTS training

---
 mmrazor/engine/runner/darts_loop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/engine/runner/darts_loop.py b/mmrazor/engine/runner/darts_loop.py
index 65e4611..3c3762c 100644
--- a/mmrazor/engine/runner/darts_loop.py
+++ b/mmrazor/engine/runner/darts_loop.py
@@ -171,7 +171,7 @@ class IterMultiLoader:
             for loader in self._dataloaders:
                 if hasattr(loader.sampler, 'set_epoch'):
                     loader.sampler.set_epoch(self._epoch)
-            self.iter_loader = [iter(loader) for loader in self._dataloaders]
+            self.iter_loaders = [iter(loader) for loader in self._dataloaders]
             data = tuple([next(loader) for loader in self.iter_loaders])
 
         return data
-- 
2.43.0


From 7d52784d0697370f187fc8d80d5443a88a5bb9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:57 +0000
Subject: [PATCH 68/74] fix: DumpSubnetHook keeps at most max_keep_subnets
 files

---
 mmrazor/engine/hooks/dump_subnet_hook.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/mmrazor/engine/hooks/dump_subnet_hook.py b/mmrazor/engine/hooks/dump_subnet_hook.py
index 1aaeaba..5dd230f 100644
--- a/mmrazor/engine/hooks/dump_subnet_hook.py
+++ b/mmrazor/engine/hooks/dump_subnet_hook.py
@@ -2,7 +2,7 @@
 import copy
 import os.path as osp
 from pathlib import Path
-from typing import Optional, Sequence, Union
+from typing import List, Optional, Sequence, Union
 
 from mmengine.dist import master_only
 from mmengine.fileio import FileClient, dump
@@ -61,6 +61,7 @@ class DumpSubnetHook(Hook):
         self.save_last = save_last
         self.args = kwargs
         self.file_client_args = file_client_args
+        self._saved_subnets: List[str] = []
 
     def before_train(self, runner) -> None:
         """Finish all operations, related to checkpoint.
@@ -141,6 +142,16 @@ class DumpSubnetHook(Hook):
 
         dump(subnet_dict, filepath, file_format='yaml')
 
+        # remove the oldest subnets if there are too many
+        if self.max_keep_subnets > 0:
+            if filepath in self._saved_subnets:
+                self._saved_subnets.remove(filepath)
+            self._saved_subnets.append(filepath)
+            while len(self._saved_subnets) > self.max_keep_subnets:
+                outdated = self._saved_subnets.pop(0)
+                if file_client.isfile(outdated):
+                    file_client.remove(outdated)
+
     def after_train_iter(self,
                          runner,
                          batch_idx: int,
-- 
2.43.0


From 4804865597cd23e6f5b42754030c88fa5b5d3257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:08 +0000
Subject: [PATCH 69/74] fix: validation loops of sub-networks and distillation
 return their metrics

---
 mmrazor/engine/runner/distill_val_loop.py   | 2 ++
 mmrazor/engine/runner/slimmable_val_loop.py | 1 +
 mmrazor/engine/runner/subnet_val_loop.py    | 1 +
 3 files changed, 4 insertions(+)

diff --git a/mmrazor/engine/runner/distill_val_loop.py b/mmrazor/engine/runner/distill_val_loop.py
index 0a86bbf..8e0b393 100644
--- a/mmrazor/engine/runner/distill_val_loop.py
+++ b/mmrazor/engine/runner/distill_val_loop.py
@@ -64,6 +64,7 @@ class SingleTeacherDistillValLoop(ValLoop):
 
         self.runner.call_hook('after_val_epoch', metrics=metrics)
         self.runner.call_hook('after_val')
+        return metrics
 
     @torch.no_grad()
     def run_iter_teacher(self, idx, data_batch: Sequence[dict]):
@@ -125,3 +126,4 @@ class SelfDistillValLoop(ValLoop):
 
         self.runner.call_hook('after_val_epoch', metrics=student_metrics)
         self.runner.call_hook('after_val')
+        return student_metrics
diff --git a/mmrazor/engine/runner/slimmable_val_loop.py b/mmrazor/engine/runner/slimmable_val_loop.py
index d3f5e2a..b6f9aa3 100644
--- a/mmrazor/engine/runner/slimmable_val_loop.py
+++ b/mmrazor/engine/runner/slimmable_val_loop.py
@@ -56,3 +56,4 @@ class SlimmableValLoop(ValLoop):
         self.runner.call_hook('after_val_epoch', metrics=all_metrics)
 
         self.runner.call_hook('after_val')
+        return all_metrics
diff --git a/mmrazor/engine/runner/subnet_val_loop.py b/mmrazor/engine/runner/subnet_val_loop.py
index d61e274..4385ca2 100644
--- a/mmrazor/engine/runner/subnet_val_loop.py
+++ b/mmrazor/engine/runner/subnet_val_loop.py
@@ -80,6 +80,7 @@ class SubnetValLoop(ValLoop, CalibrateBNMixin):
 
         self.runner.call_hook('after_val_epoch', metrics=all_metrics)
         self.runner.call_hook('after_val')
+        return all_metrics
 
     def _evaluate_once(self) -> Dict:
         """Evaluate a subnet once with BN re-calibration."""
-- 
2.43.0


From 59bc008ba967ed1d3a0af62db0cfb928b4ee7c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:06 +0000
Subject: [PATCH 70/74] fix: sampled operations are plain strings, also in
 exported files

---
 .../models/mutables/mutable_module/one_shot_mutable_module.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/models/mutables/mutable_module/one_shot_mutable_module.py b/mmrazor/models/mutables/mutable_module/one_shot_mutable_module.py
index cf3c7fe..70b1ae0 100644
--- a/mmrazor/models/mutables/mutable_module/one_shot_mutable_module.py
+++ b/mmrazor/models/mutables/mutable_module/one_shot_mutable_module.py
@@ -252,7 +252,7 @@ class OneShotMutableOP(OneShotMutableModule):
 
     def sample_choice(self) -> str:
         """uniform sampling."""
-        return np.random.choice(self.choices, 1)[0]
+        return str(np.random.choice(self.choices, 1)[0])
 
     @property
     def choices(self) -> List[str]:
-- 
2.43.0


From 904d5f9775a71ef4faaeee8bead7d295cb6c7cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:44 +0000
Subject: [PATCH 71/74] fix: the FLOPs loss of DMCP compares FLOPs with the
 target in FLOPs

---
 mmrazor/models/algorithms/pruning/dmcp.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mmrazor/models/algorithms/pruning/dmcp.py b/mmrazor/models/algorithms/pruning/dmcp.py
index 043cf9a..f5e9730 100644
--- a/mmrazor/models/algorithms/pruning/dmcp.py
+++ b/mmrazor/models/algorithms/pruning/dmcp.py
@@ -257,22 +257,23 @@ class DMCP(BaseAlgorithm):
                 the target FLOPs. And the type of this loss should be the same
                 as the expected FLOPs.
         """
-        flops_error = expected_flops - self.target_flops * 1e6
+        target_flops = self.target_flops * 1e6
+        flops_error = expected_flops - target_flops
 
         if self.flops_loss_type == 'l2':
             floss = torch.pow(flops_error, 2)
         elif self.flops_loss_type == 'inverted_log_l1':
-            floss = -torch.log(1 / (flops_error + 1e-5))
+            floss = -torch.log(1 / (abs(flops_error) + 1e-5))
         elif self.flops_loss_type == 'log_l1':
             if abs(flops_error) > 200:
                 ratio = 0.1
             else:
                 ratio = 1.0
             # piecewise log function
-            lower_flops = self.target_flops * 0.95
+            lower_flops = target_flops * 0.95
             if expected_flops < lower_flops:
                 floss = torch.log(ratio * abs(flops_error))
-            elif (lower_flops <= expected_flops < self.target_flops):
+            elif (lower_flops <= expected_flops < target_flops):
                 floss = expected_flops * 0
             else:
                 floss = (
-- 
2.43.0


From 89d79bc72cc8b54a19be620fda7e96d8e041dd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:13 +0000
Subject: [PATCH 72/74] fix: architecture updates of DMCP leave the gradients
 of the weights alone

---
 mmrazor/models/algorithms/nas/darts.py    | 40 +++++++----------------
 mmrazor/models/algorithms/pruning/dmcp.py |  5 +--
 mmrazor/models/utils/__init__.py          |  5 +--
 mmrazor/models/utils/optim_wrapper.py     | 20 +++++++++++-
 4 files changed, 37 insertions(+), 33 deletions(-)

diff --git a/mmrazor/models/algorithms/nas/darts.py b/mmrazor/models/algorithms/nas/darts.py
index f38f410..9c476d9 100644
--- a/mmrazor/models/algorithms/nas/darts.py
+++ b/mmrazor/models/algorithms/nas/darts.py
@@ -1,8 +1,7 @@
 # Copyright (c) OpenMMLab. All rights reserved.
 import copy
 import os
-from contextlib import contextmanager
-from typing import Dict, Iterable, List, Optional, Union
+from typing import Dict, List, Optional, Union
 
 import torch
 from mmengine.model import BaseModel, MMDistributedDataParallel
@@ -11,28 +10,13 @@ from torch import nn
 from torch.nn.modules.batchnorm import _BatchNorm
 
 from mmrazor.models.mutators import NasMutator
-from mmrazor.models.utils import add_prefix
+from mmrazor.models.utils import add_prefix, set_aside_grads
 from mmrazor.registry import MODEL_WRAPPERS, MODELS
 from ..base import BaseAlgorithm
 
 VALID_MUTATOR_TYPE = Union[NasMutator, Dict]
 
 
-@contextmanager
-def _set_aside_grads(params: Iterable[nn.Parameter]):
-    """Set the gradients of ``params`` aside, as the backward passes inside
-    the context are not meant to update them."""
-    params = list(params)
-    grads = [param.grad for param in params]
-    for param in params:
-        param.grad = None
-    try:
-        yield
-    finally:
-        for param, grad in zip(params, grads):
-            param.grad = grad
-
-
 @MODELS.register_module()
 class Darts(BaseAlgorithm):
     """Implementation of `DARTS <https://arxiv.org/abs/1806.09055>`_
@@ -134,7 +118,7 @@ class Darts(BaseAlgorithm):
             if self.unroll:
                 with optim_wrapper['mutator'].optim_context(self):
                     optim_wrapper['mutator'].zero_grad()
-                    with _set_aside_grads(self.architecture.parameters()):
+                    with set_aside_grads(self.architecture.parameters()):
                         mutator_log_vars = self._unrolled_backward(
                             mutator_data, supernet_data, optim_wrapper)
                 optim_wrapper['mutator'].step()
@@ -150,7 +134,7 @@ class Darts(BaseAlgorithm):
                         mode='loss')
                 mutator_losses, mutator_log_vars = self.parse_losses(
                     mutator_loss)
-                with _set_aside_grads(self.architecture.parameters()):
+                with set_aside_grads(self.architecture.parameters()):
                     optim_wrapper['mutator'].update_params(mutator_losses)
                 log_vars.update(add_prefix(mutator_log_vars, 'mutator'))
 
@@ -163,7 +147,7 @@ class Darts(BaseAlgorithm):
                     supernet_batch_inputs, supernet_data_samples, mode='loss')
             supernet_losses, supernet_log_vars = self.parse_losses(
                 supernet_loss)
-            with _set_aside_grads(self.mutator.parameters()):
+            with set_aside_grads(self.mutator.parameters()):
                 optim_wrapper['architecture'].update_params(supernet_losses)
             log_vars.update(add_prefix(supernet_log_vars, 'supernet'))
 
@@ -233,7 +217,7 @@ class Darts(BaseAlgorithm):
             supernet_batch_inputs, supernet_data_samples, mode='loss')
         supernet_loss, _ = self.parse_losses(supernet_loss)
 
-        with _set_aside_grads(self.mutator.parameters()):
+        with set_aside_grads(self.mutator.parameters()):
             optim_wrapper.backward(supernet_loss)
 
         with torch.no_grad():
@@ -283,7 +267,7 @@ class Darts(BaseAlgorithm):
                 supernet_batch_inputs, supernet_data_samples, mode='loss')
             supernet_loss, _ = self.parse_losses(supernet_loss)
 
-            with _set_aside_grads(self.parameters()):
+            with set_aside_grads(self.parameters()):
                 optim_wrapper.backward(supernet_loss)
                 dalpha = [param.grad for param in self.mutator.parameters()]
             dalphas.append(dalpha)
@@ -380,7 +364,7 @@ class DartsDDP(MMDistributedDataParallel):
             if self.module.unroll:
                 with optim_wrapper['mutator'].optim_context(self):
                     optim_wrapper['mutator'].zero_grad()
-                    with _set_aside_grads(
+                    with set_aside_grads(
                             self.module.architecture.parameters()):
                         mutator_log_vars = self._unrolled_backward(
                             mutator_data, supernet_data, optim_wrapper)
@@ -399,7 +383,7 @@ class DartsDDP(MMDistributedDataParallel):
 
                     mutator_losses, mutator_log_vars = self.module.parse_losses(  # noqa: E501
                         mutator_loss)
-                    with _set_aside_grads(
+                    with set_aside_grads(
                             self.module.architecture.parameters()):
                         optim_wrapper['mutator'].update_params(mutator_losses)
                     log_vars.update(add_prefix(mutator_log_vars, 'mutator'))
@@ -416,7 +400,7 @@ class DartsDDP(MMDistributedDataParallel):
                 supernet_losses, supernet_log_vars = self.module.parse_losses(
                     supernet_loss)
 
-                with _set_aside_grads(self.module.mutator.parameters()):
+                with set_aside_grads(self.module.mutator.parameters()):
                     optim_wrapper['architecture'].update_params(
                         supernet_losses)
                 log_vars.update(add_prefix(supernet_log_vars, 'supernet'))
@@ -492,7 +476,7 @@ class DartsDDP(MMDistributedDataParallel):
             supernet_batch_inputs, supernet_data_samples, mode='loss')
         supernet_loss, _ = self.module.parse_losses(supernet_loss)
 
-        with _set_aside_grads(self.module.mutator.parameters()):
+        with set_aside_grads(self.module.mutator.parameters()):
             optim_wrapper.backward(supernet_loss)
 
         with torch.no_grad():
@@ -542,7 +526,7 @@ class DartsDDP(MMDistributedDataParallel):
                 supernet_batch_inputs, supernet_data_samples, mode='loss')
             supernet_loss, _ = self.module.parse_losses(supernet_loss)
 
-            with _set_aside_grads(self.module.parameters()):
+            with set_aside_grads(self.module.parameters()):
                 optim_wrapper.backward(supernet_loss)
                 dalpha = [
                     param.grad for param in self.module.mutator.parameters()
diff --git a/mmrazor/models/algorithms/pruning/dmcp.py b/mmrazor/models/algorithms/pruning/dmcp.py
index f5e9730..0d83867 100644
--- a/mmrazor/models/algorithms/pruning/dmcp.py
+++ b/mmrazor/models/algorithms/pruning/dmcp.py
@@ -12,7 +12,7 @@ from torch import nn
 
 from mmrazor.models.distillers import ConfigurableDistiller
 from mmrazor.models.mutators import ChannelMutator, DMCPChannelMutator
-from mmrazor.models.utils import add_prefix
+from mmrazor.models.utils import add_prefix, set_aside_grads
 from mmrazor.registry import MODEL_WRAPPERS, MODELS
 from ...task_modules.estimators import ResourceEstimator
 from ..base import BaseAlgorithm
@@ -229,7 +229,8 @@ class DMCP(BaseAlgorithm):
         with optim_wrapper['mutator'].optim_context(self):
             arch_loss = self(inputs, data_samples, mode=mode)
         parsed_arch_loss, _ = self.parse_losses(arch_loss)
-        optim_wrapper['mutator'].update_params(parsed_arch_loss)
+        with set_aside_grads(self.architecture.parameters()):
+            optim_wrapper['mutator'].update_params(parsed_arch_loss)
         arch_params_loss.update(add_prefix(arch_loss, 'arch'))
 
         # update flops_loss
diff --git a/mmrazor/models/utils/__init__.py b/mmrazor/models/utils/__init__.py
index e3be949..a6f4c49 100644
--- a/mmrazor/models/utils/__init__.py
+++ b/mmrazor/models/utils/__init__.py
@@ -1,7 +1,8 @@
 # Copyright (c) OpenMMLab. All rights reserved.
 from .make_divisible import make_divisible
 from .misc import add_prefix
-from .optim_wrapper import reinitialize_optim_wrapper_count_status
+from .optim_wrapper import (reinitialize_optim_wrapper_count_status,
+                            set_aside_grads)
 from .parse_values import parse_values
 from .quantization_util import pop_rewriter_function_record, str2class
 from .utils import get_module_device, set_requires_grad
@@ -9,5 +10,5 @@ from .utils import get_module_device, set_requires_grad
 __all__ = [
     'make_divisible', 'add_prefix', 'reinitialize_optim_wrapper_count_status',
     'str2class', 'get_module_device', 'set_requires_grad', 'parse_values',
-    'pop_rewriter_function_record'
+    'pop_rewriter_function_record', 'set_aside_grads'
 ]
diff --git a/mmrazor/models/utils/optim_wrapper.py b/mmrazor/models/utils/optim_wrapper.py
index 753f3bd..a5340f5 100644
--- a/mmrazor/models/utils/optim_wrapper.py
+++ b/mmrazor/models/utils/optim_wrapper.py
@@ -1,7 +1,10 @@
 # Copyright (c) OpenMMLab. All rights reserved.
+from contextlib import contextmanager
+from typing import Iterable
+
 from mmengine.logging import MMLogger
 from mmengine.optim import OptimWrapper
-from torch.nn import Module
+from torch.nn import Module, Parameter
 
 
 def reinitialize_optim_wrapper_count_status(model: Module,
@@ -27,3 +30,18 @@ def reinitialize_optim_wrapper_count_status(model: Module,
 
     optim_wrapper.initialize_count_status(
         model=model, init_counts=new_init_iters, max_counts=new_max_iters)
+
+
+@contextmanager
+def set_aside_grads(params: Iterable[Parameter]):
+    """Set the gradients of ``params`` aside, as the backward passes inside
+    the context are not meant to update them."""
+    params = list(params)
+    grads = [param.grad for param in params]
+    for param in params:
+        param.grad = None
+    try:
+        yield
+    finally:
+        for param, grad in zip(params, grads):
+            param.grad = grad
-- 
2.43.0


From 967914aebfbd81e732f3455bb200aa699f3640bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:23 +0000
Subject: [PATCH 73/74] fix: the expected sub-network of DMCP is not taken for
 the largest one

---
 .../models/mutators/channel_mutator/dmcp_channel_mutator.py   | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mmrazor/models/mutators/channel_mutator/dmcp_channel_mutator.py b/mmrazor/models/mutators/channel_mutator/dmcp_channel_mutator.py
index de7bbc4..2cfb152 100644
--- a/mmrazor/models/mutators/channel_mutator/dmcp_channel_mutator.py
+++ b/mmrazor/models/mutators/channel_mutator/dmcp_channel_mutator.py
@@ -174,5 +174,7 @@ class DMCPChannelMutator(ChannelMutator[DMCPChannelUnit]):
                 # allow optional target_prune_ratio
                 continue
             choice = choices[str(group_id)]
-            module.current_choice = choice
+            # an expected number of channels is a number, not a ratio
+            module.current_choice = int(choice + 0.5) if isinstance(
+                choice, torch.Tensor) else choice
             module.mutable_channel.activated_tensor_channels = choice
-- 
2.43.0


From 912e478f35f9ba0c3fa93a4ee8ba9c3320956895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:50 +0000
Subject: [PATCH 74/74] fix: record the gradient of the input of linear layers
 for group fisher pruning

---
 mmrazor/implementations/pruning/group_fisher/ops.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/mmrazor/implementations/pruning/group_fisher/ops.py b/mmrazor/implementations/pruning/group_fisher/ops.py
index 2745b9b..e77dcd7 100644
--- a/mmrazor/implementations/pruning/group_fisher/ops.py
+++ b/mmrazor/implementations/pruning/group_fisher/ops.py
@@ -132,6 +132,15 @@ class GroupFisherLinear(DynamicLinear, GroupFisherMixin):
         super().__init__(*args, **kwargs)
         self._init()
 
+    def backward_hook_wrapper(self):
+        """Wrap the hook used in backward."""
+
+        def backward_hook(module: GroupFisherMixin, grad_in, grad_out):
+            # gradients of (bias, input, weight) or of (input, weight)
+            module.recorded_grad.insert(0, grad_in[-2])
+
+        return backward_hook
+
     @property
     def delta_flop_of_a_out_channel(self):
         """Calculate the summation of flops when prune an out_channel."""
-- 
2.43.0

