"""Path exploration, proving, replay."""
import os
import random as _random
import time
import traceback
from fractions import Fraction

from . import terms as T
from .terms import (EngineError, PathEnd, Unsupported, conc, is_z3, lift, norm,
                    simp, z, z3)

_CUR = []
BEAT = None     # when a worker of run.py was last seen between solver calls


def tick():
    if BEAT is not None:
        BEAT.value = time.time()


def cur(optional=False):
    if not _CUR:
        if optional:
            return None
        raise Unsupported('no active session')
    return _CUR[-1]


class Undecided(EngineError):
    pass


class Budget(EngineError):
    pass


class CheckFailed(BaseException):
    """Raised in replay mode when a check fails on concrete values."""


class Stats:
    FIELDS = ('paths', 'infeasible', 'queries', 'branch_queries', 'obligations',
              'trivial', 'narrowed', 'concretised')

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.solver_s = 0.0
        self.max_query_s = 0.0
        self.notes = set()
        self.funcs = set()

    def merge(self, o):
        for f in self.FIELDS:
            setattr(self, f, getattr(self, f) + getattr(o, f))
        self.solver_s += o.solver_s
        self.max_query_s = max(self.max_query_s, o.max_query_s)
        self.notes |= o.notes
        self.funcs |= o.funcs

    def as_dict(self):
        d = {f: getattr(self, f) for f in self.FIELDS}
        d['solver_s'] = round(self.solver_s, 3)
        d['max_query_s'] = round(self.max_query_s, 3)
        return d


class Violation:

    def __init__(self, msg, values, kind, detail=''):
        self.msg, self.values, self.kind, self.detail = (msg, values, kind,
                                                         detail)


def to_jsonable(v):
    if isinstance(v, Fraction):
        return {'frac': [v.numerator, v.denominator]}
    return v


def from_jsonable(v):
    if isinstance(v, dict) and 'frac' in v:
        return Fraction(*v['frac'])
    return v


class Session:
    """One path of one harness (symbolic) or one replay (concrete)."""

    def __init__(self, mode, prefix=(), values=None, stats=None,
                 timeout_ms=20000, tol=1e-6, opts=None):
        self.mode = mode
        self.sym = mode == 'sym'
        self.prefix = list(prefix)
        self.pos = 0
        self.decisions = []
        self.pending = []  # alternatives discovered on this path
        self.values = values or {}
        self.vars = {}  # name -> z3 const
        self.stats = stats or Stats()
        self.timeout_ms = timeout_ms
        self.tol = tol
        self.opts = opts or {}
        self.pc = []
        self._known = {}
        self._range = {}
        self._least = {}
        self.sorts = []
        self.checks = 0
        self.undo = []
        self.injected = []
        self.events = []
        self._ax_seen = set()
        self._ax_terms = {}
        self._model = None
        if self.sym:
            self.solver = z3.Solver()
            self.solver.set('timeout', timeout_ms)

    # ------------------------------------------------------ solver helpers
    def _check(self, *assumptions, branch=False):
        tick()
        t = time.time()
        r = self.solver.check(*assumptions)
        dt = time.time() - t
        st = self.stats
        st.solver_s += dt
        st.max_query_s = max(st.max_query_s, dt)
        if branch:
            st.branch_queries += 1
        else:
            st.queries += 1
        return r

    def add(self, c):
        c = T.truth(c)
        if conc(c):
            if not c:
                raise PathEnd('infeasible')
            return
        self.pc.append(c)
        self._note(c)
        self.solver.add(c)
        self._model = None

    def _note(self, c):
        """conditions that hold as they are written need no query"""
        val = True
        while z3.is_not(c):
            c, val = c.arg(0), not val
        self._known[c.get_id()] = (c, val)

    def _as_noted(self, c):
        val = True
        while z3.is_not(c):
            c, val = c.arg(0), not val
        hit = self._known.get(c.get_id())
        return None if hit is None else hit[1] == val

    # ------------------------------------------------------ variables
    def _var(self, name, mk):
        if name in self.vars:
            raise EngineError(f'duplicate symbol {name}')
        v = mk(name)
        self.vars[name] = v
        return v

    def raw_int(self, name, lo=None, hi=None):
        v = self._var(name, z3.Int)
        self._range[name] = (lo, hi)
        if lo is not None:
            self.add(v >= lo)
        if hi is not None:
            self.add(v <= hi)
        return v

    def raw_real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        v = self._var(name, z3.Real)
        self._range[name] = (lo, hi)
        self._least[name] = (lo, lo_open)
        if lo is not None:
            self.add(v > T.zreal(lift(lo)) if lo_open else v >= T.zreal(lift(lo)))
        if hi is not None:
            self.add(v < T.zreal(lift(hi)) if hi_open else v <= T.zreal(lift(hi)))
        return v

    def _val(self, name, default):
        v = self.values.get(name, default)
        return from_jsonable(v)

    def int(self, name, lo=None, hi=None):
        if not self.sym:
            return int(self._val(name, lo if lo is not None else 0))
        from .scalars import SymInt
        return SymInt(self.raw_int(name, lo, hi))

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        if not self.sym:
            return float(self._val(name, lo if lo is not None else 0))
        from .scalars import SymReal
        return SymReal(self.raw_real(name, lo, hi, lo_open, hi_open))

    def bool(self, name):
        """symbolic boolean (forks when tested)."""
        if not self.sym:
            return bool(self._val(name, False))
        from .scalars import SymBool
        return SymBool(self._var(name, z3.Bool))

    def flag(self, name):
        """symbolic boolean decided now: a real Python bool, both explored."""
        if not self.sym:
            return bool(self._val(name, False))
        v = self._var(name, z3.Bool)
        return bool(self._fresh_choice(v, [True, False]))

    def pick(self, name, seq):
        """one element of seq, every one explored."""
        seq = list(seq)
        if len(seq) == 1:
            return seq[0]
        if not self.sym:
            return seq[int(self._val(name, 0))]
        v = self._var(name, z3.Int)
        self._range[name] = (0, len(seq) - 1)
        return seq[self._fresh_choice(v, range(len(seq)))]

    def _fresh_choice(self, v, domain):
        """decide a fresh, otherwise unconstrained variable: every value of
        its domain is feasible, no query is needed."""
        if self.pos < len(self.prefix):
            kind, val = self.prefix[self.pos]
            if kind != 'p':
                raise EngineError('nondeterministic harness')
        else:
            domain = list(domain)
            val = domain[0]
            for d in reversed(domain[1:]):
                self.pending.append(self.decisions + [('p', d)])
        self.pos += 1
        self.decisions.append(('p', val))
        self.add(T.eq(v, val))
        return val

    def concretise_int(self, x):
        if not self.sym:
            return int(x)
        return self.concretise(T.lift(x))

    def tensor(self, name, shape, lo=None, hi=None, dtype=None, lo_open=False):
        import numpy as np
        import torch
        shape = tuple(int(s) for s in shape)
        n = 1
        for s in shape:
            n *= s
        isint = dtype is not None and not dtype.is_floating_point
        if not self.sym:
            vals = [
                self._val(f'{name}[{i}]', lo if lo is not None else 0)
                for i in range(n)
            ]
            if dtype is torch.bool:
                return torch.tensor([bool(v) for v in vals],
                                    dtype=torch.bool).reshape(shape)
            vals = [int(v) if isint else float(v) for v in vals]
            return torch.tensor(
                vals, dtype=dtype or torch.get_default_dtype()).reshape(shape)
        from .tensor import SymTensor
        a = np.empty(n, dtype=object)
        for i in range(n):
            nm = f'{name}[{i}]'
            if dtype is torch.bool:
                a[i] = self._var(nm, z3.Bool)
            elif isint:
                a[i] = self.raw_int(nm, lo, hi)
            else:
                a[i] = self.raw_real(nm, lo, hi, lo_open=lo_open)
        return SymTensor.make(
            a.reshape(shape), dtype or torch.get_default_dtype())

    def fresh_name(self, base):
        k = ('n', base)
        c = self._counters[k] = self._counters.get(k, -1) + 1
        return f'{base}#{c}'

    @property
    def _counters(self):
        return self.__dict__.setdefault('_cnt', {})

    # ------------------------------------------------------ branching
    def branch(self, cond):
        """decide a raw boolean, exploring both sides."""
        cond = T.truth(cond)
        if conc(cond):
            return bool(cond)
        if not self.sym:
            raise EngineError('symbolic branch in replay')
        cond = norm(z3.simplify(cond))
        if conc(cond):
            return bool(cond)
        if self.pos < len(self.prefix):
            kind, val = self.prefix[self.pos]
            if kind != 'b':
                raise EngineError('nondeterministic harness')
            self.pos += 1
            self.decisions.append(('b', val))
            self.add(cond if val else T.not_(cond))
            return val
        noted = self._as_noted(cond)
        if noted is not None:
            self._forced(noted)
            return noted
        r1 = self._check(cond, branch=True)
        if r1 == z3.unsat:
            self._forced(False)
            self.pc_note(T.not_(cond))
            return False
        r0 = self._check(T.not_(cond), branch=True)
        if r0 == z3.unsat:
            self._forced(True)
            self.pc_note(cond)
            return True
        # unknown counts as feasible: the path is explored (sound for proofs)
        self.pending.append(self.decisions + [('b', False)])
        self.decisions.append(('b', True))
        self.pos += 1
        self.add(cond)
        return True

    def _forced(self, val):
        self.decisions.append(('b', val))
        self.pos += 1

    def pc_note(self, c):
        pass

    def concretise(self, x, limit=400):
        """raw int/real/bool -> concrete value, exploring every feasible one."""
        x = simp(x)
        if conc(x):
            return x
        if isinstance(x, z3.BoolRef):
            return self.branch(x)
        n = 0
        while True:
            if self.pos < len(self.prefix):
                kind, val = self.prefix[self.pos]
                if kind not in ('v', 'nv'):
                    raise EngineError('nondeterministic harness')
                self.pos += 1
                self.decisions.append((kind, val))
                if kind == 'v':
                    self.add(T.eq(x, val))
                    return val
                self.add(T.ne(x, val))
                continue
            r = self._check(branch=True)
            if r == z3.unsat:
                raise PathEnd('infeasible')
            if r != z3.sat:
                raise Undecided('unknown while concretising')
            m = self.solver.model()
            val = norm(m.eval(x, model_completion=True))
            if is_z3(val):
                raise Unsupported(f'cannot concretise {x} -> {val}')
            n += 1
            if n > limit:
                raise Budget(f'unbounded concretisation of {x}')
            if self._check(T.z(T.ne(x, val)), branch=True) == z3.unsat:
                self.decisions.append(('v', val))
                self.pos += 1
                self.add(T.eq(x, val))
                return val
            self.pending.append(self.decisions + [('nv', val)])
            self.decisions.append(('v', val))
            self.pos += 1
            self.add(T.eq(x, val))
            return val

    def concretise_any(self, x, why=''):
        """one model value (narrows the claim, recorded)."""
        x = simp(x)
        if conc(x):
            return x
        self.stats.concretised += 1
        self.stats.notes.add(f'narrowed: {why}')
        if self.pos < len(self.prefix):
            kind, val = self.prefix[self.pos]
            self.pos += 1
            self.decisions.append((kind, val))
            self.add(T.eq(x, val))
            return val
        r = self._check(branch=True)
        if r != z3.sat:
            raise PathEnd('infeasible')
        val = norm(self.solver.model().eval(x, model_completion=True))
        if is_z3(val):
            raise Unsupported('irrational model value')
        self.decisions.append(('v', val))
        self.pos += 1
        self.add(T.eq(x, val))
        return val

    # ------------------------------------------------------ UF axioms
    def uf_axioms(self, name, args, t):
        key = t.get_id()
        if key in self._ax_seen:
            return
        self._ax_seen.add(key)
        self._keep = self.__dict__.setdefault('_keep', [])
        self._keep.append(t)
        full = self.opts.get('axioms', ())
        if name == 'exp':
            self.solver.add(t > 0)
            self.solver.add(z3.Implies(args[0] == 0, t == 1))
            if 'exp_mono' in full:
                self.solver.add((args[0] < 0) == (t < 1),
                                (args[0] == 0) == (t == 1))
                for a2, t2 in self._ax_terms.get('exp', []):
                    self.solver.add((args[0] < a2) == (t < t2))
                    self.solver.add((args[0] == a2) == (t == t2))
        elif name == 'sqrt':
            self.solver.add(t >= 0)
            self.solver.add(z3.Implies(args[0] > 0, t > 0))
            if 'sqrt' in full:
                self.solver.add(z3.Implies(args[0] >= 0, t * t == args[0]))
        elif name == 'log':
            if 'log' in full:
                self.solver.add(z3.Implies(args[0] == 1, t == 0))
            if 'log_mono' in full:
                for a2, t2 in self._ax_terms.get('log', []):
                    both = z3.And(args[0] > 0, a2 > 0)
                    self.solver.add(z3.Implies(both, z3.And(
                        (args[0] < a2) == (t < t2),
                        (args[0] == a2) == (t == t2))))
        elif name in ('tanh', 'erf'):
            self.solver.add(t < 1, t > -1)
        elif name == 'pow' and z3.is_rational_value(args[0]):
            b = args[0].as_fraction()
            if b > 0:
                self.solver.add(t > 0)
                n = args[1]
                if n.decl().kind() == z3.Z3_OP_TO_REAL:
                    n = n.arg(0)
                for k in range(-1, 34):
                    self.solver.add(z3.Implies(
                        n == k, t == z3.RealVal(str(b**k))))
        self._ax_terms.setdefault(name, []).append((args[0], t))
        for ax in self.opts.get('uf_hooks', ()):
            for c in ax(name, args, t, self._ax_terms):
                self.solver.add(c)

    # ------------------------------------------------------ claims
    def assume(self, c):
        if not self.sym:
            if not c:
                raise PathEnd('assumption false in replay')
            return
        c = T.truth(lift(c))
        if conc(c):
            if not c:
                raise PathEnd('infeasible')
            return
        self.add(c)
        c = norm(z3.simplify(c))
        if is_z3(c):
            self._note(c)

    def feasible(self):
        r = self._check(branch=True)
        return r != z3.unsat

    def check(self, cond, msg, margin=None):
        """claim: cond holds (for everything consistent with this path)."""
        self.checks += 1
        if not self.sym:
            if hasattr(cond, 'item'):
                cond = bool(cond)
            if not cond:
                raise CheckFailed(msg)
            return
        self.stats.obligations += 1
        from .scalars import raw_of
        c = T.truth(raw_of(cond))
        if conc(c) and c:
            self.stats.trivial += 1
            return
        self._refute(T.not_(c), msg, margin)

    def _refute(self, neg, msg, margin=None):
        """neg: raw bool, claim neg is unsatisfiable with the pc."""
        if not conc(neg):
            neg = norm(z3.simplify(neg))
        if conc(neg) and not neg:
            self.stats.queries += 1
            return
        negz = z(neg)
        r, known = self._check(negz), None
        if r == z3.unsat:
            return
        if r == z3.unknown:
            model = self._guess(negz, margin)
            if model is not None:
                raise FoundViolation(
                    Violation(msg, self._model_values(model), 'check'))
            r, known = self._afresh(negz)
            if r == z3.unknown:
                r, known = self._narrow(negz)
            if r != z3.sat:
                return
        # look for a robust counterexample
        cands = []
        if margin is not None and not conc(margin):
            cands.append(margin)
        model = None
        box = self._box()
        self.solver.set('timeout', 5000)
        try:
            for c in cands + [None]:
                for b in (box, []):
                    assum = [negz] + ([c] if c is not None else []) + b
                    if self._check(*assum) == z3.sat:
                        model = self.solver.model()
                        break
                if model is not None:
                    break
        finally:
            self.solver.set('timeout', self.timeout_ms)
        if model is None:
            if self._check(negz) == z3.sat:
                model = self.solver.model()
            elif known is not None:
                model = known
            else:
                raise Undecided(msg)
        raise FoundViolation(
            Violation(msg, self._model_values(model), 'check'))

    def _box(self):
        out = []
        for n, v in self.vars.items():
            if isinstance(v, z3.ArithRef) and not v.is_int():
                out += [v >= -4, v <= 4]
        return out

    def _guess(self, negz, margin):
        """unknown: look for a counterexample at given values first; finding
        none settles nothing."""
        rng = _random.Random(11)
        every = list(self.vars.values())
        for i in range(8):
            fix = []
            for v in every:
                if not isinstance(v, z3.ArithRef):
                    continue
                lo, hi = self._range.get(v.decl().name(), (None, None))
                lo = -3 if lo is None else lo
                hi = max(3, lo + 3) if hi is None else hi
                if v.is_int():
                    x = z3.IntVal(rng.randint(int(lo), int(hi)))
                else:
                    x = z3.RealVal(Fraction(lo) + (Fraction(hi) - Fraction(
                        lo)) * Fraction(rng.randint(1, 7), 8))
                fix.append((v, x))
            tick()
            goal = [negz] + ([] if margin is None or conc(margin) or i > 5
                             else [margin])
            s = z3.Solver()
            s.set('timeout', 1000)
            for c in list(self.solver.assertions()) + goal:
                s.add(z3.simplify(z3.substitute(c, *fix)))
            for v, x in fix:
                s.add(v == x)
            t = time.time()
            r = s.check()
            self.stats.solver_s += time.time() - t
            if r == z3.sat:
                return s.model()
        return None

    def _afresh(self, negz):
        """unknown: ask solvers that are not incremental."""
        for seed, ms in ((0, self.timeout_ms), (7, 2 * self.timeout_ms)):
            tick()
            s = z3.Solver()
            s.set('timeout', ms)
            s.set('random_seed', seed)
            s.add(*self.solver.assertions())
            s.add(negz)
            t = time.time()
            r = s.check()
            self.stats.solver_s += time.time() - t
            self.stats.queries += 1
            if r == z3.unsat:
                return r, None
            if r == z3.sat:
                return r, s.model()
        return z3.unknown, None

    def _narrow(self, negz):
        """unknown: retry with some reals fixed (bound recorded)."""
        self.stats.narrowed += 1
        self.stats.notes.add('narrowed: solver gave up, some reals fixed')
        rng = _random.Random(7)
        reals = [
            v for v in self.vars.values()
            if isinstance(v, z3.ArithRef) and not v.is_int()
        ]
        if not reals:
            raise Undecided('unknown')
        decided = False
        self.solver.set('timeout', 4000)
        try:
            for frac in (0.5, 0.75, 1.0):
                for _ in range(2):
                    sel = rng.sample(reals, int(len(reals) * frac))
                    self.solver.push()
                    for v in sel:
                        self.solver.add(v == z3.RealVal(
                            f'{rng.randint(-16, 16)}/4'))
                    base = self._check(branch=True)
                    if base == z3.sat:
                        r = self._check(negz)
                        if r == z3.sat:
                            m = self.solver.model()
                            self.solver.pop()
                            return z3.sat, m
                        if r == z3.unsat:
                            decided = True
                    self.solver.pop()
                if decided:
                    return z3.unsat, None
        finally:
            self.solver.set('timeout', self.timeout_ms)
        raise Undecided('solver gave up')

    def _model_values(self, model):
        out = {}
        for n, v in self.vars.items():
            x = norm(model.eval(v, model_completion=True))
            if is_z3(x):
                if z3.is_algebraic_value(x):
                    a = x.approx(20)
                    x = Fraction(a.numerator_as_long(),
                                 a.denominator_as_long())
                else:
                    x = 0
            out[n] = to_jsonable(x)
        return out

    def values_now(self, quick=False):
        """a witness of the current path, or None if none was found."""
        import random
        rng = random.Random(7)
        reals = [v for v in self.vars.values() if v.sort() == z3.RealSort()]
        r = z3.unknown
        if not quick:
            r = self._check(branch=True)
        try:
            self.solver.set('timeout', 1000)
            for k in (16, 16, 4):
                if r == z3.sat:
                    break
                r = self._check(
                    *[v == z3.RealVal(f'{rng.randint(-k, k)}/4')
                      for v in reals], branch=True)
            if r != z3.sat and quick:
                r = self._check(branch=True)
        finally:
            self.solver.set('timeout', self.timeout_ms)
        if r != z3.sat:
            return None
        return self._model_values(self.solver.model())

    def eq(self, a, b, msg, tol=None):
        """claim: two scalars/tensors/nested structures are equal."""
        if not self.sym:
            self.checks += 1
            if not _close(a, b, tol or self.tol):
                raise CheckFailed(f'{msg}: {_short(a)} != {_short(b)}')
            return
        from .scalars import raw_of
        from .tensor import payload_or_none
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            self.check(len(a) == len(b), f'{msg}: length')
            for i, (x, y) in enumerate(zip(a, b)):
                self.eq(x, y, f'{msg}[{i}]', tol)
            return
        if isinstance(a, dict) and isinstance(b, dict):
            self.check(list(a.keys()) == list(b.keys()) or
                       set(a) == set(b), f'{msg}: keys')
            for k in a:
                self.eq(a[k], b[k], f'{msg}[{k}]', tol)
            return
        pa, pb = payload_or_none(a), payload_or_none(b)
        if pa is None and pb is None:
            ra, rb = raw_of(a, any_ok=True), raw_of(b, any_ok=True)
            if not T.is_z3(ra) and not T.is_z3(rb):
                self.check(_close(ra, rb, tol or self.tol), msg)
                return
            self.checks += 1
            self.stats.obligations += 1
            self._eq_raw([(ra, rb)], msg)
            return
        import numpy as np
        if pa is None or pb is None:
            o = raw_of(b if pb is None else a, any_ok=True)
            arr = np.empty((), dtype=object)
            arr[()] = o
            if pa is None:
                pa = arr
            else:
                pb = arr
        self.checks += 1
        self.stats.obligations += 1
        if pa.shape != pb.shape:
            self.check(False, f'{msg}: shape {pa.shape} != {pb.shape}')
            return
        self._eq_raw(list(zip(pa.reshape(-1), pb.reshape(-1))), msg)

    def _eq_raw(self, pairs, msg):
        dis, mar = [], []
        for x, y in pairs:
            if conc(x) and conc(y):
                if type(x) is bool and type(y) is bool:
                    if x != y:
                        dis.append(True)
                    continue
                if T._special(x) or T._special(y):
                    if not (x == y or (x != x and y != y)):
                        dis.append(True)
                    continue
                if x != y and abs(T.num(x) - T.num(y)) > Fraction(
                        1, 10**7) * (1 + abs(T.num(x))):
                    dis.append(True)
                continue
            if (T.is_boolz(x) or type(x) is bool) and (T.is_boolz(y)
                                                       or type(y) is bool):
                c = T.ne(x, y)
                if c is not False:
                    dis.append(c)
                continue
            if T._special(x) or T._special(y):
                dis.append(True)
                continue
            d = T.sub(x, y)
            if is_z3(d):
                d = simp(d, som=True)
                if is_z3(d):
                    same = T.polynomial(d)
                    d = same if conc(same) else d
            if conc(d):
                if d != 0 and abs(d) > Fraction(1, 10**9):
                    dis.append(True)
                elif d != 0:
                    self.stats.notes.add('float literal tolerance 1e-9')
                continue
            if not d.is_int() and self._tiny(d):
                continue
            dis.append(d != 0)
            mar.append(z3.Or(d > z3.RealVal('1/16'), d < z3.RealVal('-1/16'))
                       if not d.is_int() else d != 0)
        if not dis:
            self.stats.queries += 1
            return
        # decide in one query; fall back to one by one if unknown
        if len(dis) > 1:
            r = self._check(z(T.or_(*dis)))
            if r == z3.unsat:
                return
        for d in dis:
            m = z3.Or(*mar) if mar else None
            self._refute(d, msg, m)

    def _tiny(self, d):
        """every coefficient of a polynomial difference is float-rounding
        noise (|c| <= 1e-9): equal up to stated tolerance."""
        args = d.children() if z3.is_add(d) else [d]
        for a in args:
            c = 1
            if z3.is_mul(a):
                k = a.arg(0)
                if z3.is_rational_value(k):
                    c = Fraction(k.numerator_as_long(),
                                 k.denominator_as_long())
            elif z3.is_rational_value(a):
                c = Fraction(a.numerator_as_long(), a.denominator_as_long())
            if abs(c) > Fraction(1, 10**9):
                return False
        self.stats.notes.add('float literal tolerance 1e-9')
        return True

    # ------------------------------------------------------ misc
    def raises(self, exc, fn, *a, msg='expected an error', **k):
        """claim: fn raises one of exc; returns the exception."""
        try:
            fn(*a, **k)
        except exc as e:
            self.check(True, msg)
            return e
        self.check(False, msg)

    def patch(self, obj, name, val):
        """setattr undone at the end of the path."""
        missing = object()
        d = obj.__dict__ if hasattr(obj, '__dict__') else {}
        old = d.get(name, missing) if isinstance(obj, type) else getattr(
            obj, name, missing)
        own = name in d
        self.undo.append((obj, name, old, own, missing))
        setattr(obj, name, val)

    def cleanup(self):
        for d, n in self.injected:
            d.pop(n, None)
        self.injected = []
        for obj, name, old, own, missing in reversed(self.undo):
            try:
                if old is missing or not own:
                    delattr(obj, name)
                else:
                    setattr(obj, name, old)
            except AttributeError:
                pass
        self.undo = []


class FoundViolation(BaseException):

    def __init__(self, v):
        self.v = v


def _short(x):
    s = repr(x)
    return s if len(s) < 200 else s[:200] + '...'


def _close(a, b, tol):
    import numpy as np
    import torch
    if isinstance(a, torch.Tensor) or isinstance(b, torch.Tensor):
        a = torch.as_tensor(a).detach()
        b = torch.as_tensor(b).detach()
        if a.shape != b.shape:
            return False
        if a.numel() == 0:
            return True
        a, b = a.double(), b.double()
        return bool(torch.allclose(a, b, rtol=tol, atol=tol, equal_nan=True))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(
            _close(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(_close(a[k], b[k], tol) for k in a)
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return np.shape(a) == np.shape(b) and np.allclose(
            np.asarray(a, dtype=float), np.asarray(b, dtype=float), rtol=tol,
            atol=tol)
    try:
        if isinstance(a, (int, float, Fraction)) and isinstance(
                b, (int, float, Fraction)):
            if a == b:
                return True
            a, b = float(a), float(b)
            if a != a and b != b:
                return True
            return abs(a - b) <= tol * (1 + max(abs(a), abs(b)))
    except OverflowError:
        return a == b
    return a == b


def _assume_raw(self, c):
    self.add(c)


Session.assume_raw = _assume_raw
