"""C22: deliveries hand values over in order and restore the program."""
from mmrazor.models.task_modules import (DistillDeliveryManager,
                                         RecorderManager)

from .c21 import KINDS, Boom, Toys
from .common import Task

INFO = dict(
    bounds='every set of 1..3 deliveries of a function, a method, an '
    'inherited or a static method, together with recorders of the same '
    'sources entered before or after; queues of length 1..3; every sequence '
    'of up to 4 (quick) or 5 (thorough) events among calls, failing calls '
    'and switches of direction, in up to 3 blocks; arguments and results '
    'are arbitrary',
    outside='values changed in place after they were queued; several '
    'deliveries with one target hand over the values of the one entered '
    'last (only restoration is decided for them)')

TARGETS = {
    'f': ('FunctionOutputs', 'func_path', 'symx_toys.f'),
    'm': ('MethodOutputs', 'method_path', 'symx_toys.Toy.m'),
    'sub.m': ('MethodOutputs', 'method_path', 'symx_toys.Sub.m'),
    's': ('MethodOutputs', 'method_path', 'symx_toys.Toy.s'),
}
CALLS = {'f': ['f', 'f boom'], 'm': ['m', 'sub.m', 'm boom'],
         'sub.m': ['sub.m', 'm'], 's': ['s', 'cls.s']}


def manager(targets, keep):
    cfg = {}
    for i, t in enumerate(targets):
        kind, key, path = TARGETS[t]
        cfg[f'd{i}'] = dict(type=kind, max_keep_data=keep, **{key: path})
    return DistillDeliveryManager(cfg)


def deliver(S, targets, keep, events, recorder=None, first=True):
    toys = Toys(S)
    man = manager(targets, keep)
    recs = RecorderManager(
        {'r': dict(type=KINDS[recorder][0], source=KINDS[recorder][1])}
        if recorder else {})
    recs.initialize(toys.net)
    toys.restored('building deliveries changes nothing')
    queues = {t: [] for t in targets}
    calls = [c for t in targets for c in CALLS[t]]
    served = {}
    todo = events
    for block in range(3):
        if todo <= 0:
            break
        man.override_data = override = block > 0 if events < 3 else \
            S.flag(f'override{block}')
        ran = []
        try:
            with (recs if first else man), (man if first else recs):
                while todo > 0:
                    todo -= 1
                    what = S.pick(f'event{todo}', calls + ['end'])
                    if what == 'end':
                        break
                    x, y = S.int(f'x{todo}'), S.int(f'y{todo}')
                    start = len(toys.log)
                    hit = {'f': 'f', 'f boom': 'f', 's': 's', 'cls.s': 's',
                           'm': 'm', 'sub.m': 'sub.m' if 'sub.m' in targets
                           else 'm', 'm boom': 'm'}[what]
                    fails = hit in queues and (
                        not queues[hit] if override else
                        len(queues[hit]) >= keep)
                    fails |= 'boom' in what and not (hit in queues
                                                     and override)
                    try:
                        out = toys.call(what, x, y)[-1]
                    except (AssertionError, Boom):
                        S.check(fails, 'a call with a value succeeds')
                        S.check(len(toys.log) == start,
                                'a rejected call does not run')
                        raise
                    S.check(not fails, 'a missing place or value is an error')
                    new = toys.log[start:]
                    if hit not in queues:
                        S.check(len(new) == 1 and out is new[0][2],
                                'other calls are untouched')
                    elif override:
                        S.check(new == [], 'an overridden call does not run')
                        S.check(out is queues[hit].pop(0),
                                'values are handed over in order')
                    else:
                        S.check(len(new) == 1 and out is new[0][2],
                                'the giving side is unchanged')
                        S.check(new[0][1][0] is x, 'with its arguments')
                        queues[hit].append(out)
                    ran.append((what, out, new))
        except (Boom, AssertionError):
            pass
        toys.restored('the original functions and methods are back')
        if recorder:
            got = recs.get_recorder('r').data_buffer
            base = recorder.split()[0]
            if first:
                want = [o for w, o, new in ran if new and w.split()[0].split('.')[-1]
                        == base]
            else:
                want = [o for w, o, new in ran if w.split()[0].split('.')[-1] == base]
            S.check(len(got) == len(want) and all(
                a is b for a, b in zip(got, want)),
                    'recorders get what is seen at their place')
    for i, t in enumerate(targets):
        q = man.deliveries[f'd{i}'].data_queue
        S.check(len(q) == len(queues[t]) and all(
            a is b for a, b in zip(q, queues[t])), 'what is left is kept')
    del served


def shared(S, targets, keep, events):
    """several deliveries with one target"""
    toys = Toys(S)
    man = manager(targets, keep)
    for block in range(2):
        man.override_data = S.flag(f'override{block}')
        try:
            with man:
                for i in range(events):
                    what = S.pick(f'call{block}{i}', CALLS[targets[0]])
                    toys.call(what, S.int(f'x{block}{i}'), 0)
        except (Boom, AssertionError):
            pass
        toys.restored('the original functions and methods are back')


def cannot_start(S, targets):
    toys = Toys(S)
    at = S.pick('at', range(len(targets) + 1))
    bad = S.pick('bad', ['symx_toys.missing', 'symx_toys.NOT',
                         'symx_nowhere.f'])
    man = manager(targets, 1)
    items = list(man.deliveries.items())
    from mmrazor.models.task_modules.delivery import FunctionOutputsDelivery
    items.insert(at, ('bad', FunctionOutputsDelivery(bad, 1)))
    man._deliveries = dict(items)

    def enter():
        with man:
            pass

    S.raises((AssertionError, TypeError, ImportError), enter,
             msg='an impossible target is an error')
    toys.restored('nothing stays wrapped')
    for i, t in enumerate(targets):
        toys.call(t, S.int(f'x{i}'), 0)
        S.check(len(man.deliveries[f'd{i}'].data_queue) == 0,
                'nothing is queued afterwards')


def tasks(tier):
    deep = tier == 'thorough'
    out = []
    n = 5 if deep else 4
    for ts in [('f', ), ('m', ), ('sub.m', ), ('s', ), ('f', 'm'),
               ('m', 's'), ('m', 'sub.m')]:
        for keep in (1, 2, 3):
            if ts == ('m', 'sub.m'):
                continue
            out.append(Task(
                f'deliver {"+".join(ts)} keep {keep}', deliver,
                dict(targets=ts, keep=keep,
                     events=n if len(ts) == 1 else n - 1),
                dict(time=400, max_paths=60000)))
    for t, r in [('f', 'f out'), ('m', 'm out'), ('s', 's out'),
                 ('f', 'm out')]:
        for first in (True, False):
            out.append(Task(
                f'deliver {t} with recorder {r} first={first}', deliver,
                dict(targets=(t, ), keep=2, events=n - 1, recorder=r,
                     first=first), dict(time=400)))
    for t in TARGETS:
        for k in (2, 3):
            out.append(Task(f'shared {t} x{k}', shared, dict(
                targets=(t, ) * k, keep=2, events=n - 2), dict(time=300)))
    for ts in [('m', 'sub.m'), ('sub.m', 'm')]:
        out.append(Task(f'shared {"+".join(ts)}', shared, dict(
            targets=ts, keep=2, events=n - 2), dict(time=300)))
    for ts in [('f', 'm'), ('sub.m', 's')]:
        out.append(Task(f'cannot start {"+".join(ts)}', cannot_start,
                        dict(targets=ts), dict(time=200)))
    return out
