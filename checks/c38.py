"""C38: quantisation loops switch observers, quantisers and norms on time."""
from types import SimpleNamespace

import torch
from mmengine.evaluator import Evaluator
from torch import nn
from torch.ao.nn.intrinsic.qat import ConvBn2d
from torch.ao.quantization import FakeQuantize, get_default_qat_qconfig

from mmrazor.engine.runner.quantization_loops import (LSQEpochBasedLoop,
                                                      PTQLoop, QATEpochBasedLoop,
                                                      QATValLoop)
from mmrazor.models.fake_quants import LearnableFakeQuantize
from mmrazor.models.observers import LSQObserver

from .common import Task, plain_copy

INFO = dict(
    bounds='trainings resumed at any epoch, run for up to 3 more; any epoch '
    'from which observers or norms stop (or never), any first validation, '
    'intervals up to 3 with up to 2 changes at any epoch; 0..3 batches; '
    'calibration over up to 3 of up to 4 batches; arbitrary metrics',
    outside='the quantised network itself (C27, C28, C31), several processes '
    'beyond the averaging of scales, early stopping')


class Net(nn.Module):
    """holds one of each: quantisers, a folded norm, a learned quantiser"""

    def __init__(self):
        super().__init__()
        self.conv = ConvBn2d(1, 1, 1,
                             qconfig=get_default_qat_qconfig('fbgemm'))
        self.act = FakeQuantize()
        self.learned = LearnableFakeQuantize(LSQObserver, quant_min=0,
                                             quant_max=255)


class Model(nn.Module):

    def __init__(self):
        super().__init__()
        self.net = Net()
        self.architecture = SimpleNamespace(val_step=self.original)
        self.data_preprocessor = 'preprocessor'

    def state(self):
        n = self.net
        fq = [n.conv.weight_fake_quant, n.act]
        flag = lambda t: bool(int(t[0]))  # noqa: E731
        assert len({flag(f.fake_quant_enabled) for f in fq}) == 1
        assert len({flag(f.observer_enabled) for f in fq}) == 1
        return SimpleNamespace(
            quant=flag(fq[0].fake_quant_enabled),
            observe=flag(fq[0].observer_enabled),
            norm=n.conv.bn.training, train=self.training,
            learned=(flag(n.learned.fake_quant_enabled),
                     flag(n.learned.static_enabled),
                     flag(n.learned.learning_enabled)))

    def train_step(self, data, optim_wrapper):
        self.log.append(('step', data, self.state()))
        return dict(loss=torch.zeros(()))

    def sync_qparams(self, src_mode):
        self.log.append(('sync', src_mode, self.state()))

    def calibrate_step(self, data):
        assert not torch.is_grad_enabled()
        self.log.append(('calibrate', data, self.state()))

    def val_step(self, data):
        assert not torch.is_grad_enabled()
        self.log.append(('val', data, self.state()))
        return [('qat', data)]

    def original(self, data):
        self.log.append(('original', data, self.state()))
        return [('original', data)]


MODEL = Model()
LEARN, STATIC, VAL = ((True, False, True), (True, True, False),
                      (True, False, False))


class Data(list):
    metainfo = {}

    def __init__(self, n, name='data'):
        super().__init__(f'{name}{i}' for i in range(n))
        self.dataset = self


class Runner:
    distributed = False
    optim_wrapper = 'wrapper'
    work_dir, timestamp = '/work', 'now'

    def __init__(self, S):
        self.model = plain_copy(MODEL)
        self.model.architecture = SimpleNamespace(
            val_step=self.model.original)
        self.log = self.model.log = []
        self.visualizer = SimpleNamespace()
        self.message_hub = SimpleNamespace(log_scalars={})
        self.val_loop = None

    def call_hook(self, name, **kw):
        self.log.append((name, kw, self.model.state()))

    def save_checkpoint(self, *a, **k):
        self.log.append(('save', a, self.model.state()))

    def names(self, *skip):
        return [n for n, _, _ in self.log if not any(s in n for s in skip)]


class Val:

    def __init__(self, runner):
        self.runner = runner

    def run(self):
        self.runner.log.append(('validate', None, self.runner.model.state()))
        return dict(acc=self.runner)


def schedule(S, loop, start):
    """when validation is due, by the definition"""
    begin = S.int('first validation', 1)
    loop.val_begin = begin
    base = S.pick('interval', [1, 2, 3])
    stones, steps = [], []
    n = S.pick('changes of the interval', [0, 1, 2])
    for i in range(n):
        m = S.int(f'milestone{i}', 1)
        if stones:
            S.assume((m > stones[-1]))
        stones.append(m)
        steps.append(S.pick(f'interval{i}', [1, 2]))
    loop.val_interval = base
    loop.dynamic_milestones = [0] + stones
    loop.dynamic_intervals = [base] + steps

    def due(epoch):
        if bool(epoch < begin):
            return False
        k = base
        for m, s in zip(stones, steps):
            if bool(m <= epoch + 1):
                k = s
        return bool(epoch % k == 0)
    return due


def training(S, cls, changes=True, deep=False):
    runner = Runner(S)
    n = 1 if changes else S.pick('batches', [0, 1, 3] if deep else [0, 2])
    data = Data(n)
    loop = cls(runner, data, 1)
    start = S.int('epochs done', 0)
    more = S.pick('epochs to go', [1, 2, 3] if deep and not changes else
                  [1, 2])
    loop._epoch, loop._max_epochs = start, start + more
    loop._iter = start * n
    never = -1
    freeze = never
    if not changes and S.flag('norms freeze'):
        freeze = S.int('freeze', 1)
    loop.freeze_bn_begin = freeze
    off = never
    qat = cls is QATEpochBasedLoop
    if qat:
        if not changes and S.flag('observers stop'):
            off = S.int('off', 1)
        loop.disable_observer_begin = off
    due = schedule(S, loop, start) if changes else None
    if changes or S.flag('validates'):
        runner.val_loop = Val(runner)
    if not changes:
        loop.val_begin = S.int('first validation', 1)
        due = lambda e: bool(e >= loop.val_begin)  # noqa: E731
    loop.run()

    log, at = runner.log, 0

    def take(name):
        nonlocal at
        S.check(at < len(log) and log[at][0] == name,
                f'{name} comes next, not {log[at][0] if at < len(log) else 0}')
        at += 1
        return log[at - 1]

    first = bool(start == 0)
    take('before_train')
    frozen = False
    for e in range(more):
        now = start + e + 1
        take('before_train_epoch')
        frozen = frozen or freeze != never and bool(now >= freeze)
        watching = not (off != never and bool(now >= off))
        for b in range(n):
            take('before_train_iter')
            _, d, st = take('step')
            S.check(d == data[b], 'the batches in order')
            S.check(st.train and st.norm != frozen, 'training, norms')
            if qat:
                S.check(st.quant and st.observe == watching,
                        'quantisers on, observers as configured')
            else:
                S.check(st.learned == (STATIC if first else LEARN),
                        'estimated on the first batch, learned later')
                first = False
            take('after_train_iter')
        S.check(take('sync')[1] == 'loss', 'parameters of the modes agree')
        _, _, st = take('after_train_epoch')
        ready = (st.quant and not st.observe) if qat else st.learned == VAL
        S.check(ready, 'what is saved is ready for use')
        if runner.val_loop is not None and due(now):
            _, _, st = take('validate')
            ready = (st.quant and not st.observe) if qat else \
                st.learned == VAL
            S.check(ready, 'validated without observers')
        S.check(log[at][0] != 'validate', 'no validation in between')
    take('after_train')
    S.check(at == len(log), 'nothing else happened')
    S.check(loop._epoch == start + more, 'epochs are counted')
    S.check(loop._iter == start * n + more * n, 'iterations are counted')


class Judge(Evaluator):
    """metrics are arbitrary numbers for each kind of output"""

    def __init__(self, S):
        super().__init__([])
        self.S, self.got, self.said = S, [], []

    def process(self, data_samples, data_batch):
        assert data_samples[0][1] == data_batch
        self.got.append(data_samples[0])

    def evaluate(self, size):
        out = {k: self.S.real(f'{k}{len(self.said)}') for k in ('acc', 'b')}
        self.said.append((self.got, size, out))
        self.got = []
        return dict(out)


def validation(S):
    runner = Runner(S)
    data = Data(S.pick('batches', [1, 2, 3]))
    judge = Judge(S)
    loop = QATValLoop(runner, data, judge)
    for k in ('val/qat.acc', 'val/original.acc'):
        if S.flag(f'{k} shown'):
            runner.message_hub.log_scalars[k] = 1
    out = loop.run()
    S.check(len(judge.said) == 2, 'both networks are judged')
    reported = [kw['metrics'] for n, kw, _ in runner.log
                if n == 'after_val_epoch']
    S.check(len(reported) == 2, 'both results are reported')
    for kind, (got, size, metrics), rep in zip(('qat', 'original'),
                                               judge.said, reported):
        S.check(got == [(kind, d) for d in data], 'every batch once')
        S.check(size == len(data), 'number of samples')
        S.eq(rep, {f'{kind}.{k}': v for k, v in metrics.items()},
             f'metrics of the {kind} network')
    S.eq(out, {**reported[0], **reported[1]}, 'both are returned')
    for n, _, st in runner.log:
        if n in ('val', 'original'):
            S.check(not st.train, 'evaluation mode')


def calibration(S):
    runner = Runner(S)
    runner.val_loop = Val(runner)
    data = Data(S.pick('batches', [1, 3, 4]))
    steps = S.int('steps', 1)
    only = S.flag('only validate')
    loop = PTQLoop(runner, Data(1, 'test'), Judge(S), data, steps,
                   only_val=only)
    was = S.flag('observers were on')
    for m in runner.model.modules():
        if isinstance(m, FakeQuantize):
            (m.enable_observer if was else m.disable_observer)()
    out = loop.run()
    seen = [(d, st) for n, d, st in runner.log if n == 'calibrate']
    want = 0
    while not only and want < len(data) and bool(want < steps):
        want += 1
    S.check([d for d, _ in seen] == list(data[:want]),
            'calibrated on the first batches')
    for _, st in seen:
        S.check(st.quant and st.observe and not st.train, 'observers watch')
    names = runner.names('iter', 'calibrate')
    S.check(names == ['before_test', 'before_test_epoch'] + (
        [] if only else ['save']) + ['validate', 'after_test_epoch',
                                     'after_test'], 'order of events')
    for n, a, st in runner.log:
        if n in ('save', 'validate'):
            S.check(st.quant and not st.observe, 'observers are off')
        if n == 'save':
            S.check(a[0] == '/work/now' and a[1] == 'model_ptq.pth', 'place')
        if n == 'after_test_epoch':
            S.check(a['metrics'] is out, 'metrics are handed on')
    S.check(out == dict(acc=runner), 'metrics of the validation')


def tasks(tier):
    out = []
    for cls in (QATEpochBasedLoop, LSQEpochBasedLoop):
        n = cls.__name__[:3].lower()
        out.append(Task(f'{n}-switches', training, dict(
            cls=cls, changes=False, deep=tier == 'thorough')))
        out.append(Task(f'{n}-validation', training, dict(cls=cls)))
    out.append(Task('validation', validation, {}))
    out.append(Task('calibration', calibration, {}))
    return out
