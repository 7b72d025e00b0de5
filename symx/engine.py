"""Exploration of one harness task and the check driver."""
import contextlib
import os
import sys
import time
import traceback

from . import core
from .core import (Budget, CheckFailed, FoundViolation, PathEnd, Session,
                   Stats, Undecided, Violation)
from .terms import EngineError, Unsupported

REPO = os.environ.get('SYMX_REPO', '/repo')


class PathTimeout(BaseException):
    pass


@contextlib.contextmanager
def alarm(sec):
    import signal

    def h(*a):
        raise PathTimeout()

    old = signal.signal(signal.SIGALRM, h)
    signal.setitimer(signal.ITIMER_REAL, sec)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


class Task:

    def __init__(self, name, fn, params=None, opts=None):
        self.name, self.fn = name, fn
        self.params = params or {}
        self.opts = opts or {}


class TaskResult:

    def __init__(self, name):
        self.name = name
        self.stats = Stats()
        self.violation = None
        self.error = None
        self.incomplete = None
        self.checks = 0
        self.wall = 0.0
        self.samples = []
        self.reached = set()


# ------------------------------------------------ which functions were run
_FUNCS = set()


def _monitor_on():
    mon = getattr(sys, 'monitoring', None)
    if mon is None:
        return
    try:
        mon.use_tool_id(4, 'symx')
    except ValueError:
        return

    def start(code, off):
        fn = code.co_filename
        if REPO is None:
            return None
        if fn.startswith(REPO + '/'):
            q = code.co_qualname
            if '<module>' not in q and '<lambda>' not in q:
                _FUNCS.add(f'{fn[len(REPO) + 1:]}:{q}')
        return mon.DISABLE

    mon.register_callback(4, mon.events.PY_START, start)
    mon.set_events(4, mon.events.PY_START)


@contextlib.contextmanager
def environment(S, opts):
    import torch
    core._CUR.append(S)
    old = torch.get_default_dtype()
    torch.set_default_dtype(getattr(torch, opts.get('dtype', 'float64')))
    try:
        with contextlib.ExitStack() as st:
            if opts.get('random', True):
                from . import rand
                rand.install(S)
            if opts.get('builtins', True) and S.sym:
                from . import scalars
                scalars.install_builtins(
                    S, prefixes=opts.get('prefixes', ('mmrazor', )),
                    minmax=opts.get('minmax', False))
            if opts.get('torch', True):
                if S.sym:
                    from .tensor import SymFnMode, SymMode
                    st.enter_context(SymFnMode())
                    st.enter_context(SymMode())
                else:
                    from .rand import ReplayMode
                    st.enter_context(ReplayMode(S))
            if opts.get('no_grad', True):
                st.enter_context(torch.no_grad())
            yield
    finally:
        S.cleanup()
        torch.set_default_dtype(old)
        core._CUR.pop()


def _exc_text(e):
    tb = traceback.extract_tb(e.__traceback__)
    loc = [f'{os.path.relpath(f.filename, REPO)}:{f.lineno}' for f in tb
           if f.filename.startswith(REPO)]
    return f'{type(e).__name__}: {str(e)[:300]} at {loc[-3:]}'


def replay(task, values):
    """run the harness on ordinary numbers against the real code."""
    S = Session('replay', values=values, opts=task.opts,
                tol=task.opts.get('tol', 1e-6))
    try:
        with alarm(60), environment(S, task.opts):
            task.fn(S, **task.params)
        return ('ok', '')
    except PathTimeout:
        return ('fail', 'does not terminate (60 s)')
    except CheckFailed as e:
        return ('fail', str(e))
    except PathEnd as e:
        return ('vacuous', str(e))
    except Exception as e:
        return ('exception', _exc_text(e))


def explore(task, deadline=None):
    res = TaskResult(task.name)
    t0 = time.time()
    opts = task.opts
    stack = [[]]
    max_paths = opts.get('max_paths', 20000)
    limit = opts.get('time', 240)
    first_values = None
    unreproduced = []
    if 'setup' in opts:  # what runs on ordinary values before the paths
        opts['setup'](**task.params)
    _FUNCS.clear()
    try:
        while stack:
            if time.time() - t0 > limit or (deadline
                                            and time.time() > deadline):
                res.incomplete = (f'time budget after {res.stats.paths} paths, '
                                  f'{len(stack)} open')
                break
            if res.stats.paths >= max_paths:
                res.incomplete = f'{max_paths} paths explored'
                break
            prefix = stack.pop()
            S = Session('sym', prefix=prefix, stats=res.stats, opts=opts,
                        timeout_ms=opts.get('timeout_ms', 20000),
                        tol=opts.get('tol', 1e-6))
            viol = None
            try:
                with alarm(opts.get('path_time', 150)), environment(S, opts):
                    task.fn(S, **task.params)
                res.stats.paths += 1
                if not opts.get('skip_feasible') and S.checks and len(
                        res.samples) < 3:
                    v = S.values_now(quick=True)
                    if v is not None:
                        res.samples.append(dict(list(v.items())[:12]))
            except PathEnd:
                res.stats.infeasible += 1
            except PathTimeout:
                vals = S.values_now()
                kind, text = replay(task, vals or {})
                if kind == 'fail' and 'terminate' in text:
                    viol = Violation('does not terminate', vals, 'timeout')
                else:
                    res.incomplete = 'a path exceeded its time budget'
            except FoundViolation as e:
                res.stats.paths += 1
                viol = e.v
            except EngineError:
                raise
            except CheckFailed as e:
                raise EngineError(f'CheckFailed in symbolic mode {e}')
            except (KeyboardInterrupt, SystemExit, GeneratorExit):
                raise
            except Exception as e:
                res.stats.paths += 1
                vals = S.values_now()
                if vals is None:
                    raise EngineError('exception on undecided path ' +
                                      _exc_text(e))
                viol = Violation('unexpected exception ' + _exc_text(e), vals,
                                 'exception',
                                 ''.join(traceback.format_exception(e))[-3000:])
            res.checks += S.checks
            stack.extend(S.pending)
            if viol is not None:
                kind, text = replay(task, viol.values)
                if kind in ('fail', 'exception'):
                    viol.replay = (kind, text)
                    viol.msg = viol.msg if kind == 'fail' else viol.msg
                    res.violation = viol
                    break
                unreproduced.append((viol, kind, text))
                if len(unreproduced) > 3:
                    break
        if res.violation is None and unreproduced:
            v, kind, text = unreproduced[0]
            res.error = (f'counterexample does not replay ({kind} {text}): '
                         f'{v.msg}\n{v.detail}\n{str(v.values)[:1500]}')
        elif (res.violation is None and res.checks == 0
              and res.incomplete is None):
            res.error = 'vacuous: no check reached'
    except Undecided as e:
        res.error = f'undecided: {e}'
    except EngineError as e:
        res.error = f'{type(e).__name__}: {e}\n' + traceback.format_exc()[
            -2500:]
    res.wall = time.time() - t0
    res.stats.funcs |= set(_FUNCS)
    return res
