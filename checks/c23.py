"""C23: a distillation step computes the configured losses, teacher frozen."""
from types import SimpleNamespace

import torch
from mmengine.model import BaseModel
from torch import nn

import mmrazor.models  # noqa: F401
from mmrazor.engine.hooks import StopDistillHook
from mmrazor.models.algorithms import (DAFLDataFreeDistillation,
                                       DataFreeDistillation,
                                       FpnTeacherDistill, SelfDistill,
                                       SingleTeacherDistill)
from mmrazor.registry import MODELS

from .common import Task, same_state, snapshot, symbolize

INFO = dict(
    bounds='distillers with two losses of two inputs, taken from every '
    'recorder (module outputs and inputs that are single or several values, '
    'one or two records, parameters), index, connector and connector index; '
    'the five configurable algorithms with every combination of their '
    'switches, for arbitrary features, weights and statistics at small '
    'shapes; stop epochs and training epochs without bound; gradient flow '
    'of data-free distillation for every schedule',
    outside='the task losses of real networks; several processes; layers '
    'other than batch norm that behave differently in training; losses and '
    'connectors themselves (C24)')


class Twice(nn.Module):
    """called twice, returning several values"""

    def __init__(self, k):
        super().__init__()
        self.k = k
        self.w = nn.Parameter(torch.ones(1))

    def forward(self, x):
        return (x * self.w, x + self.k, [x - self.k])


class Net(BaseModel):

    def __init__(self, k=1, bn=False):
        super().__init__()
        self.stem = nn.BatchNorm1d(1) if bn else nn.Identity()
        self.a = Twice(k)
        self.b = nn.Linear(1, 1)
        self.log = []

    def extract_feat(self, inputs):
        self.log.append((torch.is_grad_enabled(), self.training, inputs,
                         'feat'))
        x = self.stem(inputs)
        one, two, _ = self.a(x)
        three, _, _ = self.a(two)
        return self.b(one + three)

    def forward(self, inputs, data_samples=None, mode='tensor'):
        x = self.extract_feat(inputs)
        self.log.append((mode, data_samples))
        return dict(loss=x * 2, acc=x * 0)


class Mix(nn.Module):
    """a loss that keeps its inputs apart"""

    def __init__(self, p, q):
        super().__init__()
        self.p, self.q, self.calls = p, q, 0

    def forward(self, one, two, extra=None):
        self.calls += 1
        out = (one * self.p - two * self.q).sum()
        return out if extra is None else out + extra.sum()


class Connect(nn.Module):

    def __init__(self, k, several=False):
        super().__init__()
        self.k, self.several = k, several

    def forward(self, x):
        return (x * self.k, x + self.k) if self.several else x * self.k


for _c in (Net, Mix, Connect):
    MODELS.register_module(f'Symx{_c.__name__}', module=_c, force=True)

RECORDERS = dict(
    out=dict(type='ModuleOutputs', source='a'),
    into=dict(type='ModuleInputs', source='a'),
    last=dict(type='ModuleOutputs', source='b'),
    weight=dict(type='Parameter', source='a.w'))
CONNECTORS = dict(c1=dict(type='SymxConnect', k=3),
                  c2=[dict(type='SymxConnect', k=2),
                      dict(type='SymxConnect', k=5, several=True)])


def distiller(mappings, student=RECORDERS, teacher=RECORDERS, **kw):
    return dict(
        type=kw.pop('kind', 'ConfigurableDistiller'),
        student_recorders=student, teacher_recorders=teacher,
        connectors=CONNECTORS,
        distill_losses={n: dict(type='SymxMix', p=2 + 3 * i, q=7 - 2 * i)
                        for i, n in enumerate(mappings)},
        loss_forward_mappings=mappings, **kw)


class Quiet(list):

    def append(self, *a):
        pass


def expected(net, x):
    keep, net.log = net.log, Quiet()
    try:
        k, w = net.a.k, net.a.w
        y = net.stem(x)
        two = y + k
        out = [(y * w, y + k, [y - k]), (two * w, two + k, [two - k])]
        return dict(out=out, into=[(y, ), (two, )],
                    last=[net.b(y * w + two * w)], weight=[w])
    finally:
        net.log = keep


def info(S, tag, full):
    """any way to name a value"""
    rec = S.pick(f'{tag} recorder', ['out', 'into', 'last', 'weight'])
    r = dict(recorder=rec, from_student=S.flag(f'{tag} student'))
    if rec in ('out', 'into'):
        if S.flag(f'{tag} second'):
            r['record_idx'] = 1
        r['data_idx'] = S.pick(f'{tag} data', [0, 1] if rec == 'out' else [0])
    con = S.pick(f'{tag} connector', [None, 'c1', 'c2'])
    if con:
        r['connector'] = con
    if con == 'c2':
        r['connector_idx'] = S.pick(f'{tag} part', [0, 1])
    return r


def resolve(r, student, teacher):
    v = (student if r['from_student'] else teacher)[r['recorder']]
    v = v[r.get('record_idx', 0)]
    if 'data_idx' in r:
        v = v[r['data_idx']]
    if r.get('connector') == 'c1':
        v = v * 3
    elif r.get('connector') == 'c2':
        v = v * 2
        v = (v * 5, v + 5)
        v = v[r['connector_idx']]
    return v


def single(cls, conf, **kw):
    return cls(architecture=dict(type='SymxNet', k=1),
               **{**dict(distiller=conf,
                         teacher=dict(type='SymxNet', k=4, bn=True)), **kw})


def prepared(S, algo, teacher=True):
    nets = [algo.architecture] + ([algo.teacher] if teacher else [])
    old = {id(p): (net, n) for net in nets
           for n, p in net.named_parameters()}
    symbolize(algo.architecture, S, prefix='student')
    if teacher:
        symbolize(algo.teacher, S, prefix='teacher')
    # recorders keep the parameters themselves
    for man in (algo.distiller.student_recorders,
                algo.distiller.teacher_recorders):
        rec = man.recorders.get('weight') if man else None
        if rec is not None:
            net, n = old[id(rec.get_record_data())]
            rec._data_buffer = [dict(net.named_parameters())[n]]
    if teacher:
        S.assume(algo.teacher.stem.running_var[0].item() > 0)
    return S.tensor('x', (2, 1))


def mapping(S, which):
    fixed = dict(recorder='last', from_student=True)
    other = dict(recorder='last', from_student=False)
    a = info(S, 'a', True)
    maps = {'loss_1': dict(one=a, two=other), 'loss_2': dict(two=fixed,
                                                            one=other)}
    if which == 'second':
        maps = {'loss_2': maps['loss_2'], 'loss_1': dict(two=a, one=fixed)}
    elif which == 'both':
        maps['loss_2'] = dict(one=a, two=a)
    elif which == 'extra':
        maps['loss_1']['extra'] = a
    algo = single(SingleTeacherDistill, distiller(maps))
    algo.train()
    x = prepared(S, algo)
    losses = algo.loss(x, None)
    algo.student.eval()
    student, teacher = expected(algo.student, x), expected(algo.teacher, x)
    S.check(set(losses) == {'student.loss', 'student.acc',
                            'distill.loss_1', 'distill.loss_2'},
            'each loss is reported once under its own name')
    for n, m in maps.items():
        mod = algo.distiller.distill_losses[n]
        S.check(mod.calls == 1, 'each loss is computed once')
        want = mod(**{k: resolve(r, student, teacher)
                      for k, r in m.items()})
        S.eq(losses['distill.' + n], want, 'a loss gets the values it names')
    total, log = algo.parse_losses(losses)
    S.eq(total, losses['student.loss'].mean() + losses['distill.loss_1'] +
         losses['distill.loss_2'], 'the sum of all losses is optimised')


def wrong_index(S):
    r = dict(recorder=S.pick('recorder', ['out', 'last']), from_student=True)
    r['record_idx'] = S.pick('record', [0, 1, 2, 3])
    if S.flag('part'):
        r['data_idx'] = S.pick('data', [0, 3])
    ok = r['record_idx'] < (2 if r['recorder'] == 'out' else 1)
    if r['recorder'] == 'last':
        ok &= 'data_idx' not in r
    else:
        ok &= r.get('data_idx') == 0
    algo = single(SingleTeacherDistill, distiller({'loss_1': dict(
        one=r, two=dict(recorder='last', from_student=False))}))
    x = prepared(S, algo)
    if ok:
        algo.loss(x, None)
        S.check(True, 'existing values are taken')
    else:
        S.raises((AssertionError, TypeError), algo.loss, x, None,
                 msg='a value that does not exist is an error')


def bad_config(S):
    good = dict(recorder='last', from_student=True)
    bad = S.pick('bad', ['loss', 'key', 'recorder', 'side', 'connector',
                         'no recorder', 'no side', 'teacher recorder'])
    maps = {'loss_1': dict(one=dict(good), two=dict(good))}
    kw = {}
    if bad == 'loss':
        maps['loss_9'] = maps['loss_1']
        conf = distiller(maps)
        conf['distill_losses'].pop('loss_9')
    else:
        e = S.pick('entry', ['one', 'two'])
        m = maps['loss_1']
        if bad == 'key':
            m['three'] = dict(good)
        elif bad == 'recorder':
            m[e]['recorder'] = 'nothing'
        elif bad == 'side':
            m[e]['from_student'] = 1
        elif bad == 'connector':
            m[e]['connector'] = 'c9'
        elif bad == 'no recorder':
            m[e].pop('recorder')
        elif bad == 'no side':
            m[e].pop('from_student')
        else:
            m[e]['from_student'] = False
            kw['teacher'] = {}
        conf = distiller(maps, **kw)
    S.raises((AssertionError, TypeError), MODELS.build, conf,
             msg='an impossible mapping is an error')


def step(S, cls):
    """the switches of the algorithms with a teacher"""
    maps = {'loss_1': dict(one=dict(recorder='last', from_student=True),
                           two=dict(recorder='last', from_student=False))}
    trainable = S.flag('teacher trains')
    norm_eval = S.flag('norm eval')
    student_loss = cls is FpnTeacherDistill or S.flag('student loss')
    student_trains = S.flag('student trains')
    algo = single(cls, distiller(maps), teacher_trainable=trainable,
                  teacher_norm_eval=norm_eval,
                  calculate_student_loss=student_loss,
                  student_trainable=student_trains)
    for p in algo.teacher.parameters():
        S.check(p.requires_grad == trainable, 'a frozen teacher is frozen')
    for p in algo.student.parameters():
        S.check(p.requires_grad, 'the student can learn')
    algo.train()
    S.check(algo.student.training, 'the student trains')
    S.check(algo.teacher.stem.training == (not norm_eval),
            'the batch norms of the teacher are in evaluation')
    with torch.no_grad():
        x = prepared(S, algo)
        before = snapshot(algo.teacher)
    stopped = algo.distillation_stopped = S.flag('stopped')
    fpn = cls is FpnTeacherDistill
    grads = []
    for net, tag in ((algo.student, 'student'), (algo.teacher, 'teacher')):
        def feat(inputs, net=net, tag=tag, f=net.extract_feat):
            grads.append((tag, torch.is_grad_enabled()))
            with torch.no_grad():
                return f(inputs)
        net.extract_feat = feat
    with torch.enable_grad():
        if stopped:
            S.patch(algo.distiller, 'compute_distill_losses', _boom)
        losses = algo.loss(x, 'samples')
    S.check(grads == [('teacher', trainable), ('student', bool(
        student_loss or student_trains))],
            'teacher and student run once, the teacher without gradients')
    for net in (algo.student, algo.teacher):
        if fpn and net is algo.teacher:
            S.check(len(net.log) == 1, 'the teacher runs without its head')
            continue
        S.check(net.log[-1] == ('loss', 'samples'), 'both get the samples')
    S.check(all(n.log[0][2] is x for n in (algo.student, algo.teacher)),
            'both get the same batch')
    want = set()
    if student_loss:
        want |= {'student.loss', 'student.acc'}
    if trainable and not fpn:
        want |= {'teacher.loss', 'teacher.acc'}
    if not stopped:
        want |= {'distill.loss_1'}
    S.check(set(losses) == want, 'exactly the configured losses are there')
    with torch.no_grad():
        if norm_eval:
            same_state(S, algo.teacher, before, 'the teacher never changes')
            S.check(algo.teacher.a.w.grad is None, 'no gradient either')
        if not stopped and norm_eval:
            s, t = expected(algo.student, x), expected(algo.teacher, x)
            S.eq(losses['distill.loss_1'],
                 (s['last'][0] * 2 - t['last'][0] * 7).sum(),
                 'the loss compares student and teacher')


def _boom(*a, **k):
    raise AssertionError('a stopped distillation computed its losses')


def self_distill(S, byot):
    maps = {'loss_1': dict(
        one=dict(recorder='out', from_student=True, record_idx=1,
                 data_idx=0),
        two=dict(recorder='last', from_student=False, connector='c1'))}
    student_loss = S.flag('student loss')
    algo = SelfDistill(
        architecture=dict(type='SymxNet', k=1),
        distiller=distiller(maps, kind='BYOTDistiller' if byot
                            else 'ConfigurableDistiller'),
        calculate_student_loss=student_loss)
    x = prepared(S, algo, teacher=False)
    losses = algo.loss(x, None)
    S.check(len(algo.student.log) == 2, 'the network runs once')
    s = expected(algo.student, x)
    S.eq(losses['distill.loss_1'], (s['out'][1][0] * 2 - s['last'][0] * 3 * 7
                                    ).sum(), 'the loss compares both parts')
    S.check(set(losses) == {'distill.loss_1'} | (
        {'student.loss', 'student.acc'} if student_loss else set()),
            'exactly the configured losses are there')


def byot_detached(S):
    """the teacher side of self distillation passes no gradients on"""
    side = S.flag('student side')
    maps = {'loss_1': dict(
        one=dict(recorder='last', from_student=side, connector='c1'),
        two=dict(recorder='last', from_student=not side))}
    algo = SelfDistill(architecture=dict(type='SymxNet', k=1),
                       distiller=distiller(maps, kind='BYOTDistiller'))
    x = torch.ones(2, 1)
    seen = {}
    mod = algo.distiller.distill_losses['loss_1']
    S.patch(mod, 'forward', lambda one, two: seen.update(
        one=one.requires_grad, two=two.requires_grad) or one.sum())
    algo.loss(x, None)
    S.check(seen == dict(one=side, two=not side),
            'only the student side carries gradients')


def stop_hook(S, epochs):
    stop = S.int('stop', 0)
    start = S.int('start', 0)
    model = SimpleNamespace(distillation_stopped=False)
    hook = StopDistillHook(stop)
    runner = SimpleNamespace(
        model=model, logger=SimpleNamespace(info=lambda *a: None))
    for i in range(epochs):
        runner.epoch = start + i
        hook.before_train_epoch(runner)
        S.check((runner.epoch >= stop) == model.distillation_stopped,
                'distillation stops exactly at its epoch')


class Gen(nn.Module):

    def __init__(self):
        super().__init__()
        self.lin = nn.Linear(2, 1)
        self.latent_dim = 2
        self.module = None

    def forward(self, noise, batch_size):
        return self.lin(noise)


class Wrapped(nn.Module):
    """what a model wrapper shows"""

    def __init__(self, module):
        super().__init__()
        self.module = module

    def forward(self, *a, **k):
        return self.module(*a, **k)


@MODELS.register_module('SymxGen', force=True)
class WrappedGen(Wrapped):

    def __init__(self):
        super().__init__(Gen())


class Given(nn.Module):

    def forward(self, data, training=False):
        return data


class Optim:
    """an optimiser that notes which gradients would be applied"""

    def __init__(self, params, log, name):
        self.params, self.log, self.name = list(params), log, name

    def optim_context(self, model):
        import contextlib
        return contextlib.nullcontext()

    def update_params(self, loss):
        loss.backward()
        self.log.append((self.name, [
            None if p.grad is None else p.grad.clone()
            for p in self.params]))
        for p in self.params:
            p.grad = None


def data_free(S, cls):
    """every network is moved by its own loss alone"""
    torch.manual_seed(0)
    side = dict(recorder='last', from_student=True)
    uses_student = S.flag('generator watches the student')
    tea = dict(last=dict(type='ModuleOutputs', source='t1.b'),
               two=dict(type='ModuleOutputs', source='t2.b'))
    gen_map = {'loss_g': dict(
        one=side if uses_student else dict(recorder='two',
                                           from_student=False),
        two=dict(recorder='last', from_student=False))}
    stu_map = {'loss_s': dict(one=side, two=dict(recorder='last',
                                                 from_student=False))}
    kw = {}
    iters = 1
    if cls is DataFreeDistillation:
        iters = S.pick('student iterations', [1, 2])
        kw = dict(student_iter=iters,
                  student_train_first=S.flag('student first'))
    algo = cls(
        architecture=dict(type='SymxNet', k=1),
        distiller=distiller(stu_map, teacher=tea),
        generator_distiller=distiller(gen_map, teacher=tea),
        teachers={n: dict(build_cfg=dict(type='SymxNet', k=k, bn=True))
                  for n, k in (('t1', 3), ('t2', 5))},
        generator=dict(type='SymxGen'), **kw)
    algo.train()
    log, seen = [], []
    frozen = snapshot(algo.teachers)
    opt = dict(architecture=Optim(algo.student.parameters(), log, 'student'),
               generator=Optim(algo.generator.parameters(), log,
                               'generator'))
    # what the step alone asks for
    for name, mod in (('student', algo.distiller),
                      ('generator', algo.generator_distiller)):
        def losses(name=name, f=mod.compute_distill_losses):
            out = f()
            loss = sum(out.values())
            params = opt['architecture' if name == 'student'
                         else 'generator'].params
            seen.append((name, torch.autograd.grad(
                loss, params, retain_graph=True, allow_unused=True)))
            return out
        mod.compute_distill_losses = losses
    algo.data_preprocessor = Given()
    data = dict(inputs=[1, 2], data_samples=None)
    for _ in range(S.pick('steps', [1, 2])):
        log.clear()
        seen.clear()
        out = algo.train_step(data, opt)
        names = [n for n, _ in log]
        S.check(names.count('student') == iters and
                names.count('generator') == 1, 'each is updated as often '
                'as configured')
        if cls is DataFreeDistillation:
            S.check((names[0] == 'student') == kw['student_train_first'],
                    'the first one comes first')
        for net in ('student', 'generator'):
            got = [g for n, g in log if n == net]
            want = [g for n, g in seen if n == net]
            for g, w in zip(got, want):
                for a, b in zip(g, w):
                    zero = torch.zeros(())
                    a = zero if a is None else a
                    b = zero if b is None else b
                    S.check(bool(torch.allclose(a, b)),
                            'each is updated by its own loss')
        S.check(set(out) == {'distill.loss', 'distill.loss_s',
                             'generator.loss', 'generator.loss_g'},
                'losses are reported under distinct names')
    for n, v in snapshot(algo.teachers).items():
        S.check(bool((v == frozen[n]).all()), 'the teachers never change')
    for p in algo.teachers.parameters():
        S.check(p.grad is None, 'the teachers get no gradients')


def tasks(tier):
    deep = tier == 'thorough'
    out = []
    for w in ['first', 'second', 'both', 'extra']:
        out.append(Task(f'mapping {w}', mapping, dict(which=w),
                        dict(time=400)))
    out.append(Task('wrong index', wrong_index))
    out.append(Task('bad configuration', bad_config))
    for c in (SingleTeacherDistill, FpnTeacherDistill):
        out.append(Task(f'step {c.__name__}', step, dict(cls=c),
                        dict(time=300, no_grad=False)))
    for b in (True, False):
        out.append(Task(f'self byot={b}', self_distill, dict(byot=b)))
    out.append(Task('byot detached', byot_detached, {},
                    dict(torch=False, no_grad=False)))
    out.append(Task('stop hook', stop_hook, dict(epochs=8 if deep else 4)))
    for c in (DataFreeDistillation, DAFLDataFreeDistillation):
        out.append(Task(f'data free {c.__name__}', data_free, dict(cls=c),
                        dict(torch=False, random=False, no_grad=False)))
    return out
