"""What harnesses are written against: the same harness runs symbolically and concretely."""
import math
import os
import sys
from fractions import Fraction

from . import core

CASES = {}     # prop -> list of Case

EPS_SYM = 1e-5
EPS_CON = 5e-6


class Case:
    def __init__(self, prop, fn, quick, thorough, limit, covers):
        self.prop = prop
        self.fn = fn
        self.name = fn.__name__
        self.quick = quick
        self.thorough = thorough
        self.limit = limit
        self.covers = covers


def case(prop, quick=None, thorough=None, limit=None, covers=()):
    """Registers a harness. quick/thorough: lists of parameter dicts (the bounds)."""
    def deco(fn):
        q = quick if quick is not None else [{}]
        t = thorough if thorough is not None else q
        c = Case(prop, fn, q, t, limit, tuple(covers))
        CASES.setdefault(prop, []).append(c)
        return fn
    return deco


BASE = 1500000000      # base epoch of the symbolic timestamps
_BASES = ('B', 'B0', 'BASE')


def call(fn, s, params):
    """Runs a harness. With an 'epoch' among the parameters, every base epoch of the harnesses is that one instead."""
    global BASE
    params = dict(params)
    epoch = params.pop('epoch', os.environ.get('SYMX_EPOCH') and int(os.environ['SYMX_EPOCH']))
    if epoch is None:
        return fn(s, **params)
    saved, base = [], BASE
    for name, module in list(sys.modules.items()):
        if name.startswith('harness.'):
            for k in _BASES:
                if isinstance(getattr(module, k, None), int):
                    saved.append((module, k, getattr(module, k)))
                    setattr(module, k, epoch)
    BASE = epoch
    try:
        return fn(s, **params)
    finally:
        BASE = base
        for module, k, v in saved:
            setattr(module, k, v)


class Violated(core.CheckFailed):
    def __init__(self, label, detail=None, known=None):
        super().__init__(label)
        self.label = label
        self.detail = detail
        self.known = known


class AssumeFailed(BaseException):
    pass


class Base:
    """Shared helpers."""
    symbolic = False

    def all(self, conds):
        r = True
        for c in conds:
            r = self.and_(r, c)
        return r

    def any(self, conds):
        r = False
        for c in conds:
            r = self.or_(r, c)
        return r

    def eq(self, a, b, eps=None):
        """Equal up to rounding."""
        raise NotImplementedError

    def eqs(self, xs, ys):
        xs, ys = list(xs), list(ys)
        if len(xs) != len(ys):
            return False
        return self.all(self.eq(x, y) for x, y in zip(xs, ys))

    def eqd(self, a, b):
        """Dictionaries (or lists) of numbers equal up to rounding."""
        if isinstance(a, dict) != isinstance(b, dict):
            return False
        if isinstance(a, dict):
            if set(a.keys()) != set(b.keys()):
                return False
            return self.all(self.eq(a[k], b[k]) for k in a)
        return self.eqs(a, b)

    def check_all(self, pairs):
        for c, label in pairs:
            self.check(c, label)

    def refused(self, fn, *exc):
        """Runs fn; returns the exception it refused with, or None if it went through."""
        try:
            fn()
        except exc or (Exception,) as e:
            return e
        return None

    def reals(self, name, n, lo=-100, hi=100):
        return [self.real('%s%d' % (name, i), lo, hi) for i in range(n)]

    def increasing(self, name, n, base=None, gap_lo=1, gap_hi=1000, first=0):
        """n strictly increasing integer timestamps: base+first plus symbolic gaps."""
        t = (BASE if base is None else base) + (self.int(name + '_start', 0, first) if first else 0)
        out = [t]
        for i in range(1, n):
            t = t + self.int('%s_gap%d' % (name, i), gap_lo, gap_hi)
            out.append(t)
        return out


class Sym(Base):
    symbolic = True

    def __init__(self, ctx):
        self.ctx = ctx
        self.observed = []
        self.covered = set()
        self.checks = 0
        self.known_hits = []
        self.close = []      # (condition, the same condition with another tolerance) of the comparisons up to rounding

    def _new(self, name, kind):
        import z3
        if name in self.ctx.inputs:
            raise RuntimeError('input %s declared twice' % name)
        c = {'real': z3.Real, 'int': z3.Int, 'bool': z3.Bool}[kind](name)
        self.ctx.inputs[name] = (kind, c)
        return c

    def real(self, name, lo=-100, hi=100):
        x = core.SymReal(self._new(name, 'real'))
        self.ctx.assume(core.and_of([x >= Fraction(lo), x <= Fraction(hi)]), fresh=lo <= hi)
        return x

    def int(self, name, lo, hi):
        x = core.SymInt(self._new(name, 'int'))
        self.ctx.assume(core.and_of([x >= lo, x <= hi]), fresh=lo <= hi)
        return x

    def intf(self, name, lo, hi):
        """A float holding an integer."""
        return core.to_real(self.int(name, lo, hi))

    def bool(self, name):
        return core.SymBool(self._new(name, 'bool'))

    def choice(self, name, options):
        """A symbolic choice, decided by forking: the value returned is concrete."""
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[core.CTX.concretise_int(self.int(name, 0, len(options) - 1))]

    def concrete(self, x):
        """Fork over all the values of a small integer."""
        if type(x) is core.SymInt:
            return core.CTX.concretise_int(x)
        return x

    def assume(self, c):
        if isinstance(c, core.SymBool):
            self.ctx.assume(c)
        elif not c:
            self.ctx.abort()

    def and_(self, a, b):
        return core.and_of([a, b])

    def or_(self, a, b):
        return core.or_of([a, b])

    def not_(self, a):
        if isinstance(a, core.SymBool):
            return ~a
        return not a

    def implies(self, a, b):
        return self.or_(self.not_(a), b)

    def ite(self, c, a, b):
        return core.ite(c, a, b)

    def eq(self, a, b, eps=None):
        a0, b0 = a, b
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            return a is b or (a is not None and b is not None and a == b)
        if isinstance(a, (dict, list, tuple)) or isinstance(b, (dict, list, tuple)):
            return self.eqd(a, b)
        if not core.is_sym(a) and not core.is_sym(b):
            return _close(a, b, eps or EPS_SYM)
        if isinstance(a, float) and not core.is_sym(a) and not math.isfinite(a):
            return False
        if isinstance(b, float) and not core.is_sym(b) and not math.isfinite(b):
            return False
        e = eps or EPS_SYM
        d = core.lift(a) - b
        if not d.l.t:
            return abs(d.l.c) <= e if type(d) is core.SymReal else d.l.c == 0
        if type(d) is core.SymInt:
            return d == 0
        if core.lin_zero(d.l):
            return True
        def within(m):
            return core.and_of([d <= Fraction(m), d >= -Fraction(m)])
        c = within(e)
        self.close.append((c, within))
        return c

    def wider(self, tol):
        """The path condition with every comparison up to rounding done up to tol: added to it, the models
        left are those where what differs does so by more than tol, which no rounding in the replay hides."""
        z3 = core.z3
        subs = []
        for c, within in self.close:
            if isinstance(c, core.SymBool):
                w = within(tol)
                subs.append((c.e, w.e if isinstance(w, core.SymBool) else z3.BoolVal(bool(w))))
        if not subs:
            return []
        out = []
        for e in self.ctx.pc:
            w = z3.substitute(e, *subs)
            if not w.eq(e):
                out.append(w)
        return out

    def number(self, text):
        """The number which a text (or a number parsed from it) stands for."""
        from .core import from_token
        v = float(text)
        s = from_token(v)
        return v if s is None else s

    def log(self, x):
        return x.log() if core.is_sym(x) else math.log(x)

    def stdev(self, xs):
        from . import loader
        return loader.statistics_shim.stdev(list(xs))

    def le(self, a, b, eps=None):
        """a <= b up to rounding."""
        e = eps or EPS_SYM
        if not (core.is_sym(a) or core.is_sym(b)):
            return a <= b + e

        def within(m):
            return a <= b + Fraction(m)
        c = within(e)
        self.close.append((c, within))
        return c

    def check(self, cond, label, known=None):
        """Asserts cond for every input of this path: one solver query on its negation."""
        self.checks += 1
        st = self.ctx.stats
        st.asserts += 1
        if self.ctx.dead:
            raise self.ctx.dead
        if cond is True:
            st.assert_plain += 1
            return
        if isinstance(cond, core.SymNum):
            cond = cond != 0
        if isinstance(cond, core.SymBool):
            neg = core.z3.Not(cond.e)
            r, m = self.ctx._check(neg)
            if r == core.z3.unsat:
                return
            if r == core.z3.unknown:
                r, m = retry(self.ctx, neg)
                if r == core.z3.unsat:
                    return
                if r == core.z3.unknown:
                    st.assert_unknown += 1
                    self.ctx.dead = core.PathAbort()
                    raise self.ctx.dead
            self.ctx.add(neg)
        elif cond:
            return
        self.ctx.dead = Violated(label, known=known)
        raise self.ctx.dead

    def cover(self, label):
        self.covered.add(label)

    def observe(self, label, value):
        self.observed.append((label, value))


def retry(ctx, neg):
    """A second opinion on an unknown answer, from a fresh solver with another strategy."""
    z3 = core.z3
    for mk in (lambda: z3.Tactic('qfnra-nlsat').solver(), lambda: z3.SolverFor('QF_NRA'), z3.SimpleSolver):
        try:
            s = mk()
            s.set('timeout', ctx.query_timeout_ms)
            for e in ctx.pc:
                s.add(e)
            s.add(neg)
            r = s.check()
            ctx.stats.queries += 1
            if r == z3.unsat:
                return r, None
            if r == z3.sat:
                return r, s.model()
        except z3.Z3Exception:
            pass
    return z3.unknown, None


def _close(a, b, eps):
    if a == b:
        return True
    try:
        if isinstance(a, float) and math.isnan(a):
            return False
        return abs(a - b) <= eps * (1 + 1e-4 * (abs(a) + abs(b)) if abs(a) + abs(b) < 1e9 else 10)
    except TypeError:
        return False


class Con(Base):
    """Concrete mode: the same harness on plain Python numbers and the unmodified code."""

    def __init__(self, inputs):
        self.inputs = inputs
        self.observed = []
        self.covered = set()
        self.checks = 0

    def real(self, name, lo=-100, hi=100):
        return float(self.inputs.get(name, lo))

    def int(self, name, lo, hi):
        return int(self.inputs.get(name, lo))

    def intf(self, name, lo, hi):
        return float(self.inputs.get(name, lo))

    def bool(self, name):
        return bool(self.inputs.get(name, False))

    def number(self, text):
        return float(text)

    def log(self, x):
        return math.log(x)

    def stdev(self, xs):
        import statistics
        return statistics.stdev(xs)

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[int(self.inputs.get(name, 0))]

    def concrete(self, x):
        return x

    def assume(self, c):
        if not c:
            raise AssumeFailed()

    def and_(self, a, b):
        return bool(a) and bool(b)

    def or_(self, a, b):
        return bool(a) or bool(b)

    def not_(self, a):
        return not a

    def implies(self, a, b):
        return (not a) or bool(b)

    def ite(self, c, a, b):
        return a if c else b

    def eq(self, a, b, eps=None):
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            return a is b or (a is not None and b is not None and a == b)
        if isinstance(a, (dict, list, tuple)) or isinstance(b, (dict, list, tuple)):
            return self.eqd(a, b)
        return bool(_close(a, b, (eps or EPS_SYM) / 2))

    def le(self, a, b, eps=None):
        return bool(a <= b + (eps or EPS_SYM) / 2)

    def check(self, cond, label, known=None):
        self.checks += 1
        if not cond:
            raise Violated(label, known=known)

    def cover(self, label):
        self.covered.add(label)

    def observe(self, label, value):
        self.observed.append((label, value))
