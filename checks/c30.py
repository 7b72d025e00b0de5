"""C30: Group-Fisher pruning removes the least important channel."""
import torch
from mmengine.model import BaseModel
from torch import nn

from mmrazor.implementations.pruning.group_fisher import algorithm as gfa
from mmrazor.implementations.pruning.group_fisher.algorithm import \
    GroupFisherAlgorithm
from mmrazor.implementations.pruning.group_fisher.mutator import \
    GroupFisherChannelMutator
from mmrazor.implementations.pruning.group_fisher.ops import GroupFisherMixin

from .common import Task, picks, plain_copy, symbolize

INFO = dict(
    bounds='chains, residual sums, concatenations, depthwise, repeated and '
    'linear layers of 2 or 3 channels; every importance up to 1e12, every '
    'set of channels already removed, up to 3 pruning steps in a row; every '
    'input and gradient of up to 2 samples and 2 positions for the '
    'accumulation, without normalisation and normalised by operations or '
    'memory',
    outside='importances that are not finite, several processes, grouped '
    'convolutions, rounding of floats')


class Net(BaseModel):
    """layers and how a tensor runs through them"""

    def __init__(self, kind):
        super().__init__()
        self.kind = kind
        conv = nn.Conv2d
        self.a = conv(1, 3, 1)
        if kind == 'chain':
            self.b = conv(3, 2, 3, padding=1)
            self.bn = nn.BatchNorm2d(2)
            self.c = conv(2, 2, 1)
        elif kind == 'sum':
            self.b = conv(3, 3, 1)
            self.c = conv(3, 2, 1)
        elif kind == 'cat':
            self.b = conv(1, 2, 1)
            self.c = conv(5, 2, 1)
        elif kind == 'dw':
            self.b = conv(3, 3, 1, groups=3)
            self.c = conv(3, 2, 1)
        elif kind == 'twice':
            self.b = conv(3, 3, 1)
            self.c = conv(3, 2, 1)
        elif kind == 'linear':
            self.c = nn.Linear(3, 2)
        elif kind == 'flat':
            self.c = nn.Linear(6, 2)

    def forward(self, inputs, data_samples=None, mode='tensor'):
        x = inputs
        k = self.kind
        x = self.a(x) if k != 'cat' else x
        if k == 'chain':
            return self.c(torch.relu(self.bn(self.b(x))))
        if k == 'sum':
            return self.c(self.b(x) + x)
        if k == 'cat':
            return self.c(torch.cat([self.a(x), self.b(x)], dim=1))
        if k == 'dw':
            return self.c(self.b(x))
        if k == 'twice':
            return self.c(self.b(x)) + self.c(x)
        if k == 'linear':
            return self.c(x.mean(dim=[2, 3]))
        if k == 'flat':
            return self.c(torch.flatten(x, 1))


# first producer -> (width, producers, [consumer, channels from .. to])
UNITS = dict(
    chain=dict(a=(3, 'a', [('b', 0, 3)]), b=(2, 'b', [('c', 0, 2)])),
    sum=dict(a=(3, 'ab', [('b', 0, 3), ('c', 0, 3)])),
    cat=dict(a=(3, 'a', [('c', 0, 3)]), b=(2, 'b', [('c', 3, 5)])),
    dw=dict(a=(3, 'ab', [('b', 0, 3), ('c', 0, 3)])),
    twice=dict(a=(3, 'ab', [('b', 0, 3), ('c', 0, 3)])),
    linear=dict(a=(3, 'a', [('c', 0, 3)])),
    flat=dict(a=(3, 'a', [('c', 0, 6)])))
CALLS = dict(twice=dict(c=2))
KERNEL = dict(chain=dict(b=9))
CACHE = {}


def build(kind, norm='flops', linear=False, interval=10, double=False):
    key = kind, norm, linear, interval
    if double:
        key += (True, )
    if key not in CACHE:
        torch.manual_seed(0)
        net = Net(kind)
        CACHE[key] = GroupFisherAlgorithm(
            net, dict(
                type='GroupFisherChannelMutator',
                channel_unit_cfg=dict(
                    type='GroupFisherChannelUnit',
                    default_args=dict(
                        normalization_type=norm, mutate_linear=linear)),
                parse_cfg=dict(type='ChannelAnalyzer',
                               demo_input=(1, 1, 1, 2),
                               tracer_type='BackwardTracer')),
            interval=interval)
        if double:
            for p in CACHE[key].double().architecture.parameters():
                # exact small numbers
                p.data = (torch.arange(p.numel()) % 5 - 1.).reshape(
                    p.shape).double() / 2
            for m in CACHE[key].modules():
                if isinstance(m, nn.BatchNorm2d):
                    m.eps = 0.
    if isinstance(CACHE[key], Exception):
        raise CACHE[key]
    return plain_copy(CACHE[key])


def early(*key):
    try:
        build(*key)
    except Exception as e:  # reported by the harness that needs it
        CACHE[key] = e


for _k in UNITS:
    for _n in ('none', 'flops', 'act'):
        early(_k, _n, True, 10)
        early(_k, _n, True, 10, True)
early('linear', 'none', False, 10)
for _i in (1, 2, 3):
    early('chain', 'none', False, _i)


def start(S, kind, norm='flops', linear=True, interval=10):
    """the algorithm, its units by first producer"""
    algo = build(kind, norm, linear, interval)
    symbolize(algo, S, 'm.', skip=('mask', 'fisher', 'architecture'))
    net = algo.architecture
    units = {}
    for u in algo.mutator.mutable_units:
        first = [n for n, m in net.named_children()
                 if any(c.module is m for c in u.output_related)][0]
        units[first] = u
    return algo, net, units


def remove(S, units, order, least=1):
    """channels already gone"""
    live = {}
    for n in order:
        keep = picks(S, f'keep-{n}', units[n].num_channels, least)
        units[n].mutable_channel.mask.copy_(
            torch.tensor([float(k) for k in keep]))
        live[n] = keep
    return live


def current(S, units, order):
    out = {}
    for n in order:
        m = units[n].mutable_channel.current_mask
        out[n] = [bool(v) for v in m]
    return out


def select(S, kind, steps):
    algo, net, units = start(S, kind)
    want = UNITS[kind]
    S.check(set(units) == set(want), 'units that can be pruned')
    order = sorted(want)
    for n in order:
        S.check(units[n].num_channels == want[n][0], 'width')
    live = remove(S, units, order)
    top = 10**12
    for step in range(steps):
        info = {}
        for n in order:
            info[n] = S.tensor(f'imp{step}-{n}', (want[n][0], ), 0, top,
                               dtype=torch.float64)
            units[n].normalized_fisher_info = info[n].clone()
            # channels that are gone get no importance
            for c, k in enumerate(live[n]):
                if not k:
                    units[n].normalized_fisher_info[c] = 0
        algo.mutator.try_prune()
        now = current(S, units, order)
        gone = [(n, c) for n in order for c in range(want[n][0])
                if live[n][c] and not now[n][c]]
        back = [(n, c) for n in order for c in range(want[n][0])
                if now[n][c] and not live[n][c]]
        S.check(not back, 'no channel comes back')
        free = [(n, c) for n in order for c in range(want[n][0])
                if live[n][c] and sum(live[n]) > 1]
        S.check(len(gone) == (1 if free else 0), 'exactly one channel')
        if gone:
            S.check(gone[0] in free, 'never the last one of its group')
            g = info[gone[0][0]][gone[0][1]]
            for n, c in free:
                S.check(g <= info[n][c], 'of least importance')
        for n in order:
            S.check(sum(now[n]) >= 1, 'a channel stays')
            S.check(units[n].mutable_channel.activated_channels ==
                    sum(now[n]), 'channel count')
        algo.mutator.reset_imp()
        for n in order:
            S.eq(units[n].normalized_fisher_info,
                 torch.zeros(want[n][0]).double(), 'counters restart')
        live = now


def channels_of(kind, live, name, side):
    """which channels of a layer are there"""
    net = CACHE[kind, 'none', True, 10].architecture
    if side == 'in':
        for n, (w, p, use) in UNITS[kind].items():
            for m, s, e in use:
                if m == name and kind == 'flat':
                    return [k for k in live[n] for _ in range(2)]
        out = []
        for n in sorted(UNITS[kind]):
            for m, s, e in UNITS[kind][n][2]:
                if m == name:
                    out += live[n]
        return out or [True]
    for n, (w, p, use) in UNITS[kind].items():
        if name in p:
            return live[n]
    return [True, True]


def delta(kind, live, n, norm):
    """operations or memory that one more channel takes"""
    w, prod, use = UNITS[kind][n]
    total = 0
    for name in prod:
        calls = CALLS.get(kind, {}).get(name, 1)
        k = KERNEL.get(kind, {}).get(name, 1)
        if norm == 'act':
            total += 2 * calls
        else:
            total += 2 * k * sum(channels_of(kind, live, name, 'in')) * calls
    if norm == 'flops':
        for name, s, e in use:
            calls = CALLS.get(kind, {}).get(name, 1)
            k = KERNEL.get(kind, {}).get(name, 1)
            hw = 1 if kind in ('linear', 'flat') else 2
            total += hw * k * calls * sum(
                channels_of(kind, live, name, 'out'))
    return total / (1e9 if norm == 'flops' else 1e6)


def call(module, x, y):
    """what running the layer tells the recorder"""
    for h in list(module._forward_hooks.values()):
        h(module, (x, ), y)


def back(module, g):
    """hooks get the gradients of the operation: of input, weight and bias
    of a convolution, of bias, input and weight of a linear layer"""
    got = g, None, None
    if module._is_full_backward_hook:
        got = g,
    elif isinstance(module, nn.Linear):
        got = None, g, None
    for h in list(module._backward_hooks.values()):
        h(module, got, (None, ))


def run(S, net, kind, live, tag, batch, one=None):
    """a forward and backward pass with arbitrary inputs and gradients

    With `one` only a single gradient is arbitrary."""
    done = []
    for name, m in net.named_children():
        if not isinstance(m, GroupFisherMixin):
            continue
        for i in range(CALLS.get(kind, {}).get(name, 1)):
            n_in = sum(channels_of(kind, live, name, 'in'))
            n_out = sum(channels_of(kind, live, name, 'out'))
            tail = () if isinstance(m, nn.Linear) else (1, 2)
            shape = (batch, n_in) + tail
            if one is None:
                x = S.tensor(f'x{tag}-{name}{i}', shape, -4, 4)
                g = S.tensor(f'g{tag}-{name}{i}', shape, -4, 4)
            else:
                # distinct importances, one of them arbitrary
                x = torch.ones(shape)
                g = torch.arange(1., n_in + 1).reshape(
                    (1, n_in, 1, 1)).expand(shape) * (
                        .25 + .05 * tag + (.03 if name == 'c' else 0))
                if name == one and n_in:
                    g = g.clone()
                    g[0, -1] = S.real(f't{tag}', 0, 4)
            y = torch.zeros((batch, n_out) + tail)
            call(m, x, y)
            done.append((name, m, x, g))
    for name, m, x, g in reversed(done):
        back(m, g)
    return done


def expected(kind, live, n, done, batch, norm):
    w, prod, use = UNITS[kind][n]
    total = [0] * w
    for b in range(batch):
        row = [0] * w
        for user, s, e in use:
            there = channels_of(kind, live, user, 'in')
            per = (e - s) // w
            for name, m, x, g in done:
                if name != user:
                    continue
                for c in range(s, e):
                    if there[c]:
                        at = sum(there[:c])
                        v = (x[b, at] * g[b, at]).sum()
                        row[(c - s) // per] = row[(c - s) // per] + v
        total = [t + r * r for t, r in zip(total, row)]
    if norm != 'none':
        d = delta(kind, live, n, norm)
        total = [t / d for t in total]
    return total


def accumulate(S, kind, norm, batch, rounds):
    algo, net, units = start(S, kind, norm)
    order = sorted(UNITS[kind])
    live = remove(S, units, order)
    mt = algo.mutator
    want = {n: [0] * UNITS[kind][n][0] for n in order}
    for r in range(rounds):
        mt.start_record_info()
        done = run(S, net, kind, live, r, batch)
        mt.end_record_info()
        # not recorded
        run(S, net, kind, live, f'{r}v', batch)
        mt.update_imp()
        mt.reset_recorded_info()
        for n in order:
            e = expected(kind, live, n, done, batch, norm)
            want[n] = [p + q for p, q in zip(want[n], e)]
    for n in order:
        info = units[n].normalized_fisher_info
        for c, k in enumerate(live[n]):
            S.eq(info[c], want[n][c] if k else 0., 'importance')
        imp = units[n].importance()
        for c, k in enumerate(live[n]):
            if k:
                S.eq(imp[c], info[c], 'of the channels still there')
    mt.reset_imp()
    for n in order:
        S.eq(units[n].normalized_fisher_info,
             torch.zeros(UNITS[kind][n][0]).double(), 'counters restart')


def real(S, kind, norm, batch):
    """the importances a real forward and backward pass leave: the squared
    gradients of the loss of a sample by a factor on a channel"""
    algo = build(kind, norm, True, 10, True)
    net = algo.architecture
    units = {}
    for u in algo.mutator.mutable_units:
        first = [n for n, m in net.named_children()
                 if any(c.module is m for c in u.output_related)][0]
        units[first] = u
    net.eval()
    order = sorted(UNITS[kind])
    live = remove(S, units, order)
    x = S.tensor('x', (batch, 1, 1, 2), -4, 4)
    n_out = 2
    gy = S.tensor('g', (batch, n_out) + (
        () if kind in ('linear', 'flat') else (1, 2)), -4, 4)

    def loss():
        # the first layer does not ask for the gradient of the image
        return (net(x) * gy).sum()

    mt = algo.mutator
    mt.start_record_info()
    loss().backward()
    mt.end_record_info()
    mt.update_imp()
    mt.reset_recorded_info()
    # ---- the same by factors on the inputs of the consumers
    fac = {n: torch.ones(batch, UNITS[kind][n][0], requires_grad=True,
                         dtype=torch.float64)
           for n in order}
    handles = []
    for name, m in net.named_children():
        use = [(s, n, e) for n in order for u, s, e in UNITS[kind][n][2]
               if u == name]
        if not use:
            continue
        parts = []
        for s, n, e in sorted(use):
            per = (e - s) // UNITS[kind][n][0]
            parts.append(fac[n].repeat_interleave(per, 1))
        f = torch.cat(parts, 1)
        there = channels_of(kind, live, name, 'in')
        f = f[:, [i for i, k in enumerate(there) if k]]
        if not isinstance(m, nn.Linear):
            f = f[:, :, None, None]
        handles.append(m.register_forward_pre_hook(
            lambda mod, args, f=f: (args[0] * f, )))
    grads = torch.autograd.grad(loss(), [fac[n] for n in order])
    for n, g in zip(order, grads):
        want = (g * g).sum(0)
        if norm != 'none':
            want = want / delta(kind, live, n, norm)
        info = units[n].normalized_fisher_info
        for c, k in enumerate(live[n]):
            S.eq(info[c], want[c] if k else 0., 'importance')


def no_linear(S):
    """groups feeding a linear layer stay when linear is off"""
    algo, net, units = start(S, 'linear', 'none', linear=False)
    S.check(not units, 'linear layers stay')


class Info:

    def __init__(self):
        self.i = 0

    def iter(self):
        return self.i


def train(S, interval, steps, one):
    """steps of training prune every interval iterations"""
    kind = 'chain'
    algo, net, units = start(S, kind, 'none', False, interval)
    order = sorted(units)
    info = Info()
    info.i = S.pick('first', range(interval))
    S.patch(gfa, 'RuntimeInfo', info)
    log = []
    want = {n: [0] * UNITS[kind][n][0] for n in order}
    state = dict(live=current(S, units, order), tag=0)

    def step(self, data, optim_wrapper):
        done = run(S, net, kind, state['live'], state['tag'], 1,
                   one)
        state['done'] = done
        return dict(loss=data)

    S.patch(BaseModel, 'train_step', step)
    for t in range(steps):
        state['tag'] = t
        live = state['live']
        r = algo.train_step(t, None)
        S.check(r == dict(loss=t), 'result of the step')
        for n in order:
            e = expected(kind, live, n, state['done'], 1, 'none')
            want[n] = [p + q for p, q in zip(want[n], e)]
        now = current(S, units, order)
        gone = [(n, c) for n in order for c in range(len(now[n]))
                if live[n][c] and not now[n][c]]
        due = info.i % interval == 0
        S.check(len(gone) == int(due), 'prunes when it is due')
        for n, c in gone:
            S.check(sum(live[n]) > 1, 'never the last channel')
            for m in order:
                if sum(live[m]) > 1:
                    for d, k in enumerate(live[m]):
                        S.check(not k or want[n][c] * 1. <= want[m][d],
                                'the least important channel')
        for m in net.modules():
            if isinstance(m, GroupFisherMixin):
                S.check(not m._forward_hooks and not m._backward_hooks and
                        not m.recorded_input and not m.recorded_grad and
                        not m.recorded_out_shape, 'records are cleared')
        if due:
            want = {n: [0] * UNITS[kind][n][0] for n in order}
        for n in order:
            for c, k in enumerate(now[n]):
                if k:
                    S.eq(units[n].normalized_fisher_info[c], want[n][c] * 1.,
                         'importance since the last step')
        state['live'] = now
        info.i += 1


OPT = dict(random=False)
GRAD = dict(random=False, no_grad=False)


def tasks(tier):
    T = []
    deep = tier != 'quick'
    for kind in ('chain', 'sum', 'cat'):
        T.append(Task(f'select-{kind}', select, dict(
            kind=kind, steps=3 if deep else 2), OPT))
    for kind in UNITS:
        for norm in ('none', 'flops', 'act'):
            if kind == 'dw' and norm != 'none':
                continue
            T.append(Task(f'accumulate-{kind}-{norm}', accumulate, dict(
                kind=kind, norm=norm, batch=2 if deep or norm == 'none' else 1,
                rounds=2 if norm == 'none' else 1), OPT))
    for kind in UNITS:
        T.append(Task(f'real-{kind}', real, dict(
            kind=kind, norm='none', batch=2 if deep else 1), GRAD))
    for kind in ('chain', 'linear', 'flat'):
        for norm in ('flops', 'act'):
            T.append(Task(f'real-{kind}-{norm}', real, dict(
                kind=kind, norm=norm, batch=1), GRAD))
    T.append(Task('no-linear', no_linear, {}, OPT))
    for i in (1, 2, 3):
        for one in ('b', 'c'):
            T.append(Task(f'train-{i}-{one}', train, dict(
                interval=i, steps=4 if deep else 3, one=one), OPT))
    return T
