SEEDS = [
 dict(id='group-mask-first', property='C01',
  edits=[('mmrazor/models/architectures/dynamic_ops/mixins/dynamic_conv_mixins.py',
  """            mask = out_mask_.unsqueeze(-1) * in_mask_.unsqueeze(
                -2)  # G out/G in/G""",
  """            mask = out_mask_.unsqueeze(-1) * in_mask_[:1].unsqueeze(
                -2)  # G out/G in/G""")],
  demo="""
import torch
from mmrazor.models.architectures.dynamic_ops import DynamicConv2d
from mmrazor.models.mutables import SimpleMutableChannel
op = DynamicConv2d(4, 4, 1, groups=2, bias=False)
mi, mo = SimpleMutableChannel(4), SimpleMutableChannel(4)
op.register_mutable_attr('in_channels', mi)
op.register_mutable_attr('out_channels', mo)
mi.current_choice = torch.tensor([1, 0, 0, 1]).bool()
x = torch.rand(1, 2, 3, 3)
w = torch.stack([op.weight[0][:1], op.weight[1][:1], op.weight[2][1:], op.weight[3][1:]])
assert torch.allclose(op(x), torch.nn.functional.conv2d(x, w, groups=2))
""", needs='a grouped convolution whose groups keep different positions',
  breaks='every group uses the input positions of the first group',
  tests=['tests/test_models/test_architectures/test_dynamic_op']),
 dict(id='concat-same-source', property='C05',
  edits=[('mmrazor/models/mutables/derived_mutable.py',
  "        return sum((m.current_choice for m in mutables))",
  "        return sum({m: m.current_choice for m in mutables}.values())")],
  demo='''
from mmrazor.models.mutables import SquentialMutableChannel, DerivedMutable
a = SquentialMutableChannel(4)
b = SquentialMutableChannel(3)
d = DerivedMutable.derive_concat_mutable([a, b, a])
a.current_choice = 2
assert d.current_choice == 7 == int(d.current_mask.sum()), d.current_choice
''', needs='the same source concatenated twice', breaks='the reported choice counts a repeated source once',
  tests=['tests/test_models/test_mutables']),
 dict(id='rounding-at-bound', property='C07',
  edits=[('mmrazor/models/utils/make_divisible.py',
  "    if new_value < min_ratio * value:", "    if new_value <= min_ratio * value:")],
  demo='''
from mmrazor.models.utils import make_divisible
assert make_divisible(10, 9) == 9
assert make_divisible(18, 8, min_ratio=0.5) == 16
''', needs='nearest multiple exactly at the lower fraction', breaks='the nearest multiple is skipped when it is exactly at the bound',
  tests=['tests/test_models/test_mutables', 'tests/test_models/test_utils']),
 dict(id='l1-norm-rows', property='C08',
  edits=[('mmrazor/models/mutables/mutable_channel/units/l1_mutable_channel_unit.py',
  "        weight = weight[start:end]", "        weight = weight[:end - start]")],
  demo='''
import torch
from torch import nn
from mmrazor.models.mutables import L1MutableChannelUnit
from mmrazor.models.architectures.dynamic_ops import DynamicConv2d
from mmrazor.models.mutables.mutable_channel import MutableChannelContainer
from mmrazor.models.mutables.mutable_channel.units.channel_unit import Channel
conv = DynamicConv2d(1, 4, 1, bias=False)
with torch.no_grad():
    conv.weight.copy_(torch.tensor([9., 1., 2., 5.]).view(4, 1, 1, 1))
unit = L1MutableChannelUnit(2)
unit.add_output_related(Channel('conv', conv, (2, 4), None, True))
unit.current_choice = 1
assert unit.mutable_channel.current_mask.tolist() == [False, True]
''', needs='a unit governing a channel range that does not start at zero',
  breaks='the unit ranks its channels by the norms of other rows',
  tests=['tests/test_models/test_mutables']),
 dict(id='fix-substring', property='C09',
  edits=[('mmrazor/models/mutables/mutable_module/one_shot_mutable_module.py',
  "            if c != chosen:", "            if c not in chosen:")],
  demo='''
from torch import nn
from mmrazor.models.mutables import OneShotMutableOP
op = OneShotMutableOP(nn.ModuleDict({'conv': nn.Conv2d(1, 1, 1), 'conv_se': nn.Conv2d(1, 1, 1), 'id': nn.Identity()}))
op.current_choice = 'conv_se'
op.fix_chosen('conv_se')
assert op.choices == ['conv_se'], op.choices
''', needs='a candidate whose name is part of the chosen name',
  breaks='candidates not chosen are kept after fixing',
  tests=['tests/test_models/test_mutables']),
 dict(id='group-skip-equal', property='C11',
  edits=[('mmrazor/models/mutators/nas_mutator.py',
  """            choice = choices[name]

            for mutable in mutables:
                mutable.current_choice = choice  # type: ignore""",
  """            choice = choices[name]
            if mutables[0].current_choice == choice:
                # nothing to do for this group
                continue

            for mutable in mutables:
                mutable.current_choice = choice  # type: ignore""")],
  demo='''
from torch import nn
from mmrazor.models.mutables import OneShotMutableValue
from mmrazor.models.mutators import NasMutator
class Net(nn.Module):
    def __init__(self):
        super().__init__()
        self.a = OneShotMutableValue([1, 2, 3], alias='k')
        self.b = OneShotMutableValue([1, 2, 3], alias='k')
net = Net()
m = NasMutator()
m.prepare_from_supernet(net)
net.b.current_choice = 1
(name, ) = m.search_groups
m.set_choices({name: net.a.current_choice})
assert net.a.current_choice == net.b.current_choice
''', needs='a group whose members differ while its first member already has the requested choice',
  breaks='the other members of the group are not set',
  tests=['tests/test_models/test_mutators']),
]
