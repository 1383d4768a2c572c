"""Symbolic execution core: path context, z3-backed proxy numbers.

The code under test runs on these proxies. Every truth test of a symbolic condition goes to
Ctx.branch(), which asks z3 whether each outcome is feasible under the path condition and explores
both (by re-execution with a recorded decision prefix). Floats are modelled as exact reals.
"""
import math
import os
import time
from fractions import Fraction

import z3


class PathAbort(BaseException):
    """The current path is infeasible or must not be explored further."""


class PathTimeout(BaseException):
    """The current path ran for too long."""


class CheckFailed(BaseException):
    """Ends a path after a reported failing check."""


class Unsupported(Exception):
    """The encoding cannot follow the code here."""


TOKEN_BASE = 4170000000000
TOKEN_SPAN = 10000000

CTX = None  # the current context (one per process)
SITES = {} if os.environ.get('SYMX_SITES') else None


def ctx():
    return CTX


def set_ctx(c):
    global CTX
    CTX = c


class Stats:
    def __init__(self):
        self.queries = 0
        self.sat = 0
        self.unsat = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.branches = 0
        self.forks = 0
        self.asserts = 0
        self.assert_plain = 0
        self.assert_unknown = 0
        self.local = 0
        self.pins = 0
        self.pin_sites = {}

    def as_dict(self):
        return dict(self.__dict__)


class Ctx:
    """One execution of a harness along one path."""

    def __init__(self, prefix, stats, query_timeout_ms=20000, max_decisions=4000, enum_cap=64):
        self.prefix = prefix          # list of decisions to replay
        self.trace = []               # decisions taken
        self.pending = []             # alternative prefixes discovered
        self.stats = stats
        self.solver = z3.SolverFor('QF_AUFLIRA') if False else z3.Solver()
        self.solver.set('timeout', query_timeout_ms)
        self.query_timeout_ms = query_timeout_ms
        self.pc = []
        self.model = None
        self.dead = None
        self.cache = {}
        self.keep = []                # keeps cached asts alive (ids are reused otherwise)
        self.inputs = {}              # name -> ('real'|'int'|'bool', z3 const)
        self.tokens = []
        self.max_decisions = max_decisions
        self.enum_cap = enum_cap
        self.pinned = []
        self.fresh = 0
        self.logs = {}
        self.spreads = {}
        self.known_hash = {}
        self.concretising = False
        self.bounds = {}              # direction -> [lo, lo strict, hi, hi strict], facts of the path
        self.multi = []               # the directions over several atoms among them
        self.nes = set()              # (direction, value) known to differ
        self.byidx = []
        self.uses = {}
        self.work = []
        self.propagating = False
        self.atoms = {}               # z3 ast id -> Atom
        self.products = {}            # (atom, atom) -> Lin
        self.quotients = {}
        self.local = 0                # branches decided without asking the solver
        self.sites = [] if SITES is not None else None

    def site(self):
        """Debugging aid (SYMX_SITES=1): replays must take their decisions where the first run took them."""
        import sys
        f = sys._getframe(2)
        out = []
        while f is not None and len(out) < 7:
            if '/symx/core' not in f.f_code.co_filename:
                out.append('%s:%d' % (f.f_code.co_filename.split('/')[-1], f.f_lineno))
            f = f.f_back
        s = ' < '.join(out)
        i = len(self.trace)
        self.sites.append(s)
        if i < len(self.prefix):
            k = repr(self.prefix[:i + 1])
            old = SITES.get(repr(self.prefix[:i]))
            if old is not None and old != s:
                print('DIVERGED at %d: %s\n   first time: %s' % (i, s, old), flush=True)
                for q in range(i + 1):
                    print('   ', q, self.prefix[q], '|', SITES.get(repr(self.prefix[:q])), '|', self.sites[q] if q < len(self.sites) else None)
        else:
            SITES[repr(self.trace)] = s

    # -- solver ------------------------------------------------------------
    def _check(self, *extra):
        if self.dead:
            raise self.dead
        t0 = time.time()
        if extra:
            self.solver.push()
            for e in extra:
                self.solver.add(e)
        r = self.solver.check()
        m = None
        if r == z3.sat:
            m = self.solver.model()
        if extra:
            self.solver.pop()
        self.stats.queries += 1
        self.stats.solver_s += time.time() - t0
        if r == z3.sat:
            self.stats.sat += 1
        elif r == z3.unsat:
            self.stats.unsat += 1
        else:
            self.stats.unknown += 1
        return r, m

    def add(self, e):
        self.pc.append(e)
        self.solver.add(e)
        if self.model is not None:
            v = self.model.eval(e, model_completion=True)
            if not z3.is_true(v):
                self.model = None

    def abort(self):
        self.dead = PathAbort()
        raise self.dead

    def assume(self, e, fresh=False):
        """Add an assumption; abandon the path if it is infeasible. fresh: bounds on a new input, always feasible."""
        if self.dead:
            raise self.dead
        b = None
        if isinstance(e, SymBool):
            b = e
            e = e.e
        if e is True:
            return
        if e is False:
            self.abort()
        self.add(e)
        if b is not None:
            add_fact(b, True)
        if self.model is None and not fresh and len(self.trace) >= len(self.prefix):
            r, m = self._check()
            if r == z3.unsat:
                self.abort()
            self.model = m

    def branch(self, e):
        if self.dead:
            raise self.dead
        self.stats.branches += 1
        if e is True or e is False:
            return e
        b = None
        if type(e) is SymBool:
            b = e
            d = known(b)
            if d is not None:
                self.stats.local += 1
                return d
            e = b.e
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        return self._branch(e, b)

    def _branch(self, e, b):
        key = e.get_id()
        if key in self.cache:
            return self.cache[key]
        if SITES is not None:
            self.site()
        i = len(self.trace)
        if i < len(self.prefix):
            d = self.prefix[i]
            if type(d) is tuple:
                # forced: only one outcome was feasible, nothing to add to the path condition
                if d[0] != 'f':
                    raise Unsupported('replay diverged')
                self.trace.append(d)
                self.cache[key] = d[1]
                self.keep.append(e)
                if b is not None:
                    add_fact(b, d[1])
                return d[1]
            self._take(e, d, key, b)
            return d
        if i >= self.max_decisions:
            self.dead = PathTimeout('too many decisions')
            raise self.dead
        # Which sides are feasible?
        if self.model is None:
            r, m = self._check()
            if r == z3.unsat:
                self.abort()
            self.model = m
        feas = {True: None, False: None}
        if self.model is not None:
            v = self.model.eval(e, model_completion=True)
            if z3.is_true(v):
                feas[True] = self.model
            elif z3.is_false(v):
                feas[False] = self.model
        models = {True: feas[True], False: feas[False]}
        ok = {}
        for side in (True, False):
            if models[side] is not None:
                ok[side] = True
                continue
            r, m = self._check(e if side else z3.Not(e))
            ok[side] = (r != z3.unsat)
            models[side] = m
        if not ok[True] and not ok[False]:
            self.abort()
        if ok[True] and ok[False]:
            d = True
            self.pending.append(self.trace + [False])
            self.stats.forks += 1
        else:
            # Only one outcome is feasible: nothing to add to the path condition.
            d = ok[True]
            self.trace.append(('f', d))
            self.cache[key] = d
            self.keep.append(e)
            if b is not None:
                add_fact(b, d)
            if self.model is None:
                self.model = models[d]
            return d
        self._take(e, d, key, b)
        self.model = models[d] if models[d] is not None else self.model
        return d

    def _take(self, e, d, key, b=None):
        self.trace.append(d)
        self.cache[key] = d
        self.keep.append(e)
        if b is not None:
            add_fact(b, d)
        self.add(e if d else z3.Not(e))

    def concretise_int(self, e):
        """Fork over every feasible value of an integer term (capped)."""
        if self.dead:
            raise self.dead
        lin = None
        if isinstance(e, SymNum):
            lin = e.l
            v = lin_value(lin)
            if v is not None:
                return int(v)
            e = e.e
        v = self._concretise_int(e)
        if lin is not None:
            add_fact(SymBool(p=('lin', lin_add(lin, Lin(v, {}), -1), '==')), True)
        return v

    def _concretise_int(self, e):
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        key = ('v', e.get_id())
        if key in self.cache:
            return self.cache[key]
        tried = 0
        while True:
            if SITES is not None:
                self.site()
            i = len(self.trace)
            if i < len(self.prefix):
                d = self.prefix[i]       # ('=', v) or ('!', v)
                op, v = d
                self.trace.append(d)
                if op == '=':
                    self.add(e == v)
                    self.cache[key] = v
                    self.keep.append(e)
                    return v
                self.add(e != v)
                tried += 1
                continue
            if self.model is None:
                r, m = self._check()
                if r == z3.unsat:
                    self.abort()
                if m is None:
                    raise Unsupported('unknown while concretising')
                self.model = m
            v = self.model.eval(e, model_completion=True).as_long()
            r, m = self._check(e != v)
            if r != z3.unsat:
                if tried < self.enum_cap:
                    self.pending.append(self.trace + [('!', v)])
                    self.stats.forks += 1
                else:
                    self.pinned.append('int')
                    self.stats.pins += 1
                    _pin_site(self.stats)
            self.trace.append(('=', v))
            self.add(e == v)
            self.cache[key] = v
            self.keep.append(e)
            return v

    def pin_real(self, e):
        """Concretise a real term to one value only: the path no longer covers the others."""
        if self.dead:
            raise self.dead
        lin = None
        if isinstance(e, SymNum):
            lin = e.l
            v = lin_value(lin)
            if v is not None:
                return Fraction(v)
            e = _real(e)
        v = self._pin_real(e)
        if lin is not None:
            add_fact(SymBool(p=('lin', lin_add(lin, Lin(norm_num(v), {}), -1), '==')), True)
        return v

    def _pin_real(self, e):
        e = z3.simplify(e)
        if z3.is_rational_value(e):
            return e.as_fraction()
        key = ('v', e.get_id())
        if key in self.cache:
            return self.cache[key]
        if SITES is not None:
            self.site()
        i = len(self.trace)
        if i < len(self.prefix):
            v = self.prefix[i][1]
        else:
            if self.model is None:
                r, m = self._check()
                if r == z3.unsat:
                    self.abort()
                if m is None:
                    raise Unsupported('unknown while concretising')
                self.model = m
            v = model_fraction(self.model, e)
        self.trace.append(('p', v))
        self.add(e == z3.RealVal(v))
        if i >= len(self.prefix):
            r, m = self._check()
            if r == z3.unsat:
                self.abort()
            self.model = m
        self.cache[key] = v
        self.keep.append(e)
        self.pinned.append('real')
        self.stats.pins += 1
        _pin_site(self.stats)
        return v

    def decide(self, fn):
        """A boolean fact about the path worked out with the solver once and replayed afterwards."""
        if self.dead:
            raise self.dead
        if SITES is not None:
            self.site()
        i = len(self.trace)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            d = ('d', fn())
        self.trace.append(d)
        return d[1]

    # -- tokens --------------------------------------------------------------
    def token(self, sym):
        for i, s in enumerate(self.tokens):
            if type(s) is type(sym) and s.l.key() == sym.l.key():
                return i
        self.tokens.append(sym)
        return len(self.tokens) - 1

    def fresh_const(self, sort, name='k'):
        self.fresh += 1
        n = '%s!%d' % (name, self.fresh)
        return z3.Real(n) if sort == 'real' else (z3.Int(n) if sort == 'int' else z3.Bool(n))


def _pin_site(stats):
    import sys
    f = sys._getframe(2)
    site = None
    while f is not None:
        fn = f.f_code.co_filename
        if '/symx/' not in fn:
            site = '%s:%s' % (fn.split('/repo/')[-1], f.f_code.co_name)
            if '/repo/' in fn or 'propertime' in fn:
                break
        f = f.f_back
    stats.pin_sites[site] = stats.pin_sites.get(site, 0) + 1


def sym_log(x, base=None):
    """A logarithm, of which only what holds for all of them is known: where it is defined, that it is
    strictly increasing and its values on the numbers it was asked for. Different bases are kept apart."""
    import math
    if CTX.branch(mkcond(lift(x).l, '<=')):
        raise ValueError('math domain error')
    seen = CTX.logs.setdefault(base, [])
    if not seen:
        seen.append((Fraction(1), Fraction(0)))
    z = _real(lift(x))
    r = CTX.fresh_const('real', 'log')
    cons = []
    for a, ra in seen:
        cons += [(a < z) == (ra < r), (a == z) == (ra == r)]
    CTX.assume(z3.And(cons))
    seen.append((z, r))
    return SymReal(r)


def sym_spread(name, xs):
    """A standard deviation, of which only what is linear is known: that it is a function of the values,
    that it is never negative, zero exactly when they are all equal and no larger than their range."""
    zs = [_real(lift(x)) for x in xs]
    r = CTX.fresh_const('real', name)
    same = z3.And([z == zs[0] for z in zs[1:]]) if len(zs) > 1 else z3.BoolVal(True)
    top = z3.Or([r <= a - b for i, a in enumerate(zs) for j, b in enumerate(zs) if i != j] + [r <= 0])
    seen = CTX.spreads.setdefault((name, len(zs)), [])
    CTX.assume(z3.And([r >= 0, same == (r == 0), top] +
                      [z3.Implies(z3.And([a == b for a, b in zip(zs, old)]), r == x) for old, x in seen]))
    seen.append((zs, r))
    return SymReal(r)


def model_fraction(model, e):
    v = model.eval(e, model_completion=True)
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return v.as_fraction()
    if z3.is_algebraic_value(v):
        return v.approx(20).as_fraction()
    raise Unsupported('no value for %s' % e)


# ---------------------------------------------------------------------------
# Linear forms
#
# A number is a constant plus a combination of atoms (inputs and opaque z3 terms, such as products
# and quotients). z3 terms are only built when the solver has to be asked; comparisons that follow
# from the bounds on the path by interval reasoning are decided here.
# ---------------------------------------------------------------------------

class Atom:
    __slots__ = ('idx', 'e', 'isint', 'factors', 'div', 'sq', 'iv')

    def __init__(self, idx, e, isint):
        self.idx = idx
        self.e = e
        self.isint = isint
        self.factors = None    # product of these atoms
        self.div = None        # (numerator, denominator)
        self.sq = None         # the square of this atom, if known
        self.iv = None         # interval known by construction


def norm_num(v):
    if type(v) is Fraction and v.denominator == 1:
        return v.numerator
    return v


class Lin:
    __slots__ = ('c', 't', '_k', '_n', '_allint')

    def __init__(self, c, t):
        self.c = c
        self.t = t
        self._k = None
        self._n = None
        self._allint = None

    def key(self):
        if self._k is None:
            self._k = (self.c, tuple(sorted((a.idx, k) for a, k in self.t.items())))
        return self._k

    def allint(self):
        """Integer valued whatever the atoms."""
        if self._allint is None:
            self._allint = type(self.c) is int and all(type(k) is int and a.isint for a, k in self.t.items())
        return self._allint

    def norm(self):
        """(direction, atoms, scale, 1/scale): self = (direction . atoms) / scale + c, direction primitive, scale signed."""
        if self._n is None:
            items = sorted(self.t.items(), key=lambda x: x[0].idx)
            den = 1
            for a, k in items:
                if type(k) is Fraction:
                    den = den * k.denominator // math.gcd(den, k.denominator)
            ks = [int(k * den) for a, k in items]
            g = 0
            for k in ks:
                g = math.gcd(g, k)
            if ks[0] < 0:
                g = -g
            dirk = tuple((a.idx, k // g) for (a, _), k in zip(items, ks))
            self._n = (dirk, [(a, k // g) for (a, _), k in zip(items, ks)], norm_num(Fraction(den, g)), norm_num(Fraction(g, den)))
        return self._n


def _z3num(c, real):
    if real:
        return z3.RealVal(c)
    return z3.IntVal(c)


def lin_expr(l, real):
    """The z3 term of a linear form."""
    if real and l.allint():
        return z3.ToReal(lin_expr(l, False))
    parts = []
    for a, k in l.t.items():
        e = a.e
        if real and a.isint:
            e = z3.ToReal(e)
        parts.append(e if k == 1 else _z3num(k, real) * e)
    if l.c != 0 or not parts:
        parts.append(_z3num(l.c, real))
    return parts[0] if len(parts) == 1 else z3.Sum(parts)


def lin_add(x, y, k=1):
    c = x.c + y.c * k
    if type(c) is Fraction:
        c = norm_num(c)
    if not y.t:
        return Lin(c, x.t)
    t = dict(x.t)
    for a, v in y.t.items():
        w = t.get(a)
        w = v * k if w is None else w + v * k
        if w == 0:
            del t[a]
        else:
            t[a] = norm_num(w)
    return Lin(c, t)


def lin_scale(x, k):
    if k == 0:
        return Lin(0, {})
    if k == 1:
        return x
    return Lin(norm_num(x.c * k), {a: norm_num(v * k) for a, v in x.t.items()})


def atom_lin(a):
    return Lin(0, {a: 1})


def atom_of(e, isint):
    """The atom of a z3 term."""
    i = e.get_id()
    a = CTX.atoms.get(i)
    if a is None:
        a = CTX.atoms[i] = Atom(len(CTX.atoms), e, isint)
        CTX.byidx.append(a)
    return a


def lin_of(e, isint):
    """Linear form of a z3 term built elsewhere."""
    if z3.is_int_value(e):
        return Lin(e.as_long(), {})
    if z3.is_rational_value(e):
        return Lin(norm_num(e.as_fraction()), {})
    if not isint and z3.is_app(e) and e.decl().kind() == z3.Z3_OP_TO_REAL:
        return lin_of(e.arg(0), True)
    return atom_lin(atom_of(e, isint))


def _monomial(a, b):
    """Product of two atoms."""
    key = (a.idx, b.idx) if a.idx <= b.idx else (b.idx, a.idx)
    r = CTX.products.get(key)
    if r is None:
        if a is b and a.sq is not None:
            r = a.sq
        else:
            fs = sorted((a.factors or (a,)) + (b.factors or (b,)), key=lambda f: f.idx)
            for i in range(len(fs) - 1):
                if fs[i] is fs[i + 1] and fs[i].sq is not None:
                    rest = fs[:i] + fs[i + 2:]
                    r = fs[i].sq
                    for f in rest:
                        r = lin_mul(r, atom_lin(f))
                    break
            else:
                isint = all(f.isint for f in fs)
                e = None
                for f in fs:
                    x = z3.ToReal(f.e) if f.isint and not isint else f.e
                    e = x if e is None else e * x
                at = atom_of(e, isint)
                at.factors = tuple(fs)
                r = atom_lin(at)
        CTX.products[key] = r
    return r


def _proportional(x, y):
    """x == k * y for a constant k?"""
    if len(x.t) != len(y.t) or not x.t:
        return None
    k = None
    for a, v in x.t.items():
        w = y.t.get(a)
        if w is None:
            return None
        q = Fraction(v) / w
        if k is None:
            k = q
        elif k != q:
            return None
    if x.c != y.c * k:
        return None
    return norm_num(k)


def _cancel(x, y):
    """x times y where the terms of x are quotients by (a multiple of) y: the product without divisions."""
    t = Lin(0, {})
    rest = {}
    hit = False
    for a, v in x.t.items():
        fs = a.factors or (a,)
        for i, f in enumerate(fs):
            if f.div is not None:
                k = _proportional(y, f.div[1])
                if k is not None:
                    r = lin_scale(f.div[0], k * v)
                    for g in fs[:i] + fs[i + 1:]:
                        r = lin_mul(r, atom_lin(g))
                    t = lin_add(t, r)
                    hit = True
                    break
        else:
            rest[a] = v
    if not hit:
        return None
    return lin_add(t, lin_mul(Lin(x.c, rest), y))


def lin_mul(x, y):
    if not x.t:
        return lin_scale(y, x.c)
    if not y.t:
        return lin_scale(x, y.c)
    for p, q in ((x, y), (y, x)):
        r = _cancel(p, q)
        if r is not None:
            return r
    if (len(x.t) + 1) * (len(y.t) + 1) > 600:
        isint = x.allint() and y.allint()
        return atom_lin(atom_of(lin_expr(x, not isint) * lin_expr(y, not isint), isint))
    r = lin_add(lin_scale(Lin(0, x.t), y.c), lin_scale(Lin(0, y.t), x.c))
    r = lin_add(r, Lin(norm_num(x.c * y.c), {}))
    for a, v in x.t.items():
        for b, w in y.t.items():
            r = lin_add(r, _monomial(a, b), v * w)
    return r


def lin_div(x, y):
    """Quotient by a nonzero form."""
    if not y.t:
        return lin_scale(x, 1 / Fraction(y.c))
    if not x.t and x.c == 0:
        return x
    k = _proportional(x, y)
    if k is not None:
        return Lin(k, {})
    # numerator of a single quotient times something: keep the quotient primitive
    lead = min(y.t, key=lambda a: a.idx)
    s = y.t[lead]
    y1 = lin_scale(y, 1 / Fraction(s))
    key = (x.key(), y1.key())
    a = CTX.quotients.get(key)
    if a is None:
        a = atom_of(lin_expr(x, True) / lin_expr(y1, True), False)
        a.div = (x, y1)
        CTX.quotients[key] = a
    return lin_scale(atom_lin(a), 1 / Fraction(s))


def lin_zero(l):
    """Is the form zero once the denominators (nonzero on the path) are cleared?"""
    for _ in range(12):
        if not l.t:
            return l.c == 0
        den = None
        for a in l.t:
            for f in (a.factors or (a,)):
                if f.div is not None:
                    den = f.div[1]
                    break
            if den is not None:
                break
        if den is None:
            break
        if len(l.t) > 120:
            return False
        l = lin_mul(l, den)
    else:
        return False
    m = equalities()
    if not m:
        return False
    for _ in range(4):
        n = lin_subst(l, m)
        if not n.t:
            return n.c == 0
        if n is l:
            return False
        l = n
    return False


def equalities():
    """Atoms expressed through others by the equalities of the path."""
    m = {}
    for dirk, b in list(CTX.bounds.items()):
        if b[0] is not None and b[0] == b[2] and not b[1] and not b[3]:
            ats = CTX.byidx
            items = [(ats[i], k) for i, k in dirk]
            a, k = items[-1]
            if a in m or a.factors is not None or a.div is not None:
                continue
            m[a] = lin_scale(Lin(norm_num(-b[0]), dict(items[:-1])), Fraction(-1, 1) / k)
    return m


def lin_subst(l, m):
    out = None
    for a, k in l.t.items():
        fs = a.factors or (a,)
        if any(f in m for f in fs):
            r = Lin(k, {})
            for f in fs:
                r = lin_mul(r, m[f] if f in m else atom_lin(f))
            out = lin_add(out or Lin(0, {}), r)
    if out is None:
        return l
    rest = {a: k for a, k in l.t.items() if not any(f in m for f in (a.factors or (a,)))}
    return lin_add(Lin(l.c, rest), out)


# -- intervals -------------------------------------------------------------------
# (lo, lo strict, hi, hi strict); None for unbounded

FREE = (None, False, None, False)


def _iv_add(p, q):
    return (None if p[0] is None or q[0] is None else p[0] + q[0], p[1] or q[1],
            None if p[2] is None or q[2] is None else p[2] + q[2], p[3] or q[3])


def _iv_scale(p, k):
    if k == 1:
        return p
    if k >= 0:
        return (None if p[0] is None else p[0] * k, p[1], None if p[2] is None else p[2] * k, p[3])
    return (None if p[2] is None else p[2] * k, p[3], None if p[0] is None else p[0] * k, p[1])


def _iv_meet(p, q):
    lo, ls = p[0], p[1]
    if q[0] is not None and (lo is None or q[0] > lo or (q[0] == lo and q[1])):
        lo, ls = q[0], q[1]
    hi, hs = p[2], p[3]
    if q[2] is not None and (hi is None or q[2] < hi or (q[2] == hi and q[3])):
        hi, hs = q[2], q[3]
    return (lo, ls, hi, hs)


def _iv_mul(p, q, same=False):
    if same and (p[0] is None or p[2] is None):
        return (0, False, None, False)
    if None in (p[0], p[2], q[0], q[2]):
        # both known not negative
        if p[0] is not None and q[0] is not None and p[0] >= 0 and q[0] >= 0:
            return (p[0] * q[0], False, None, False)
        return FREE
    xs = (p[0] * q[0], p[0] * q[2], p[2] * q[0], p[2] * q[2])
    lo, hi = min(xs), max(xs)
    if same:
        lo = 0 if p[0] <= 0 <= p[2] else min(p[0] * p[0], p[2] * p[2])
    return (lo, False, hi, False)


def atom_interval(a):
    r = CTX.bounds.get(((a.idx, 1),))
    r = FREE if r is None else r
    if a.iv is not None:
        r = _iv_meet(r, a.iv)
    if a.factors is not None and len(a.factors) == 2:
        f, g = a.factors
        r = _iv_meet(r, _iv_mul(atom_interval(f), atom_interval(g), f is g))
    elif a.div is not None:
        d = interval(a.div[1], False)
        n = interval(a.div[0], False)
        if d[0] is not None and d[0] > 0:
            if n[0] is not None and n[0] >= 0:
                r = _iv_meet(r, (0, n[1] or n[0] > 0, None, False))
            if n[2] is not None and n[2] <= 0:
                r = _iv_meet(r, (None, False, 0, n[3] or n[2] < 0))
            if n[0] is not None and n[2] is not None:
                m = max(abs(n[0]), abs(n[2])) / Fraction(d[0])
                r = _iv_meet(r, (-m, False, m, False))
    return r


def interval(l, deep=True):
    """Bounds of a linear form from those known on the path."""
    if not l.t:
        return (l.c, False, l.c, False)
    dirk, items, scale, s = l.norm()
    iv = (0, False, 0, False)
    for a, k in items:
        iv = _iv_add(iv, _iv_scale(atom_interval(a), k))
        if iv[0] is None and iv[2] is None:
            break
    b = CTX.bounds.get(dirk)
    if b is not None:
        iv = _iv_meet(iv, b)
    if deep and len(items) > 1:
        d = dict(dirk)
        for mk, matoms in CTX.multi[-60:]:
            if mk == dirk:
                continue
            lead = None
            for i, k in mk:
                if i in d:
                    lead = (i, k)
                    break
            if lead is None:
                continue
            m = d[lead[0]] if lead[1] == 1 else norm_num(Fraction(d[lead[0]], lead[1]))
            rest = {a: k for a, k in items}
            for (a, k) in matoms:
                w = rest.get(a, 0) - m * k
                if w == 0:
                    rest.pop(a, None)
                else:
                    rest[a] = w
            if len(rest) > len(items):
                continue
            iw = _iv_scale(CTX.bounds[mk], m)
            for a, k in rest.items():
                iw = _iv_add(iw, _iv_scale(atom_interval(a), k))
                if iw[0] is None and iw[2] is None:
                    break
            else:
                rk = Lin(0, rest)
                iv = _iv_meet(iv, iw)
                if len(rest) > 1:
                    b = CTX.bounds.get(rk.norm()[0])
                    if b is not None:
                        iv = _iv_meet(iv, _iv_add(_iv_scale(CTX.bounds[mk], m), _iv_scale(b, rk.norm()[3])))
    iv = _iv_scale(iv, s)
    if l.c != 0:
        iv = (None if iv[0] is None else iv[0] + l.c, iv[1], None if iv[2] is None else iv[2] + l.c, iv[3])
    return iv


def lin_value(l):
    """The value of a form known to be constant on the path."""
    if not l.t:
        return l.c
    iv = interval(l)
    if iv[0] is not None and iv[0] == iv[2] and not iv[1] and not iv[3]:
        return norm_num(iv[0])
    return None


def lin_decide(l, op):
    """l op 0, if it follows from the bounds known."""
    if not l.t:
        c = l.c
        return c < 0 if op == '<' else c <= 0 if op == '<=' else c == 0
    r = _decide_iv(l, op, interval(l, False))
    if r is None:
        r = _decide_iv(l, op, interval(l))
    return r


def _decide_iv(l, op, iv):
    lo, ls, hi, hs = iv
    if op == '<':
        if hi is not None and (hi < 0 or (hi == 0 and hs)):
            return True
        if lo is not None and lo >= 0:
            return False
    elif op == '<=':
        if hi is not None and hi <= 0:
            return True
        if lo is not None and (lo > 0 or (lo == 0 and ls)):
            return False
    else:
        if (hi is not None and (hi < 0 or (hi == 0 and hs))) or (lo is not None and (lo > 0 or (lo == 0 and ls))):
            return False
        if lo is not None and lo == hi and lo == 0:
            return True
        dirk, items, scale, _ = l.norm()
        b = -l.c * scale
        if (dirk, b) in CTX.nes:
            return False
        if Fraction(b).denominator != 1 and all(a.isint for a, k in items):
            return False
    return None


def _tighten(dirk, items, lo, ls, hi, hs):
    if all(a.isint for a, k in items):
        if lo is not None:
            f = Fraction(lo)
            n = -((-f.numerator) // f.denominator)
            if ls and n == lo:
                n += 1
            lo, ls = n, False
        if hi is not None:
            f = Fraction(hi)
            n = f.numerator // f.denominator
            if hs and n == hi:
                n -= 1
            hi, hs = n, False
    old = CTX.bounds.get(dirk)
    if old is None:
        if len(items) > 1:
            CTX.multi.append((dirk, items))
            for a, _ in items:
                CTX.uses.setdefault(a, []).append((dirk, items))
        old = FREE
    new = _iv_meet(old, (lo, ls, hi, hs))
    if new == old:
        return
    CTX.bounds[dirk] = new
    if CTX.propagating:
        CTX.work.append((dirk, items))
        return
    CTX.propagating = True
    CTX.work = [(dirk, items)]
    n = 0
    while CTX.work and n < 60:
        n += 1
        dk, its = CTX.work.pop()
        if len(its) == 1:
            for d2, i2 in CTX.uses.get(its[0][0], ())[-12:]:
                _propagate(d2, i2)
        else:
            _propagate(dk, its)
    CTX.propagating = False


def _propagate(dirk, items):
    """Bounds of the atoms from those of a direction over several of them."""
    b = CTX.bounds[dirk]
    ivs = [_iv_scale(atom_interval(a), k) for a, k in items]
    nlo = sum(1 for v in ivs if v[0] is None)
    nhi = sum(1 for v in ivs if v[2] is None)
    for (a, k), v in zip(items, ivs):
        lo, hi, ls, hs = None, None, False, False
        # k a <= b.hi - sum of the others' lows
        if b[2] is not None and (nlo == 0 or (nlo == 1 and v[0] is None)):
            hi = b[2] - sum(w[0] for w in ivs if w is not v)
            hs = b[3] or any(w[1] for w in ivs if w is not v)
        if b[0] is not None and (nhi == 0 or (nhi == 1 and v[2] is None)):
            lo = b[0] - sum(w[2] for w in ivs if w is not v)
            ls = b[1] or any(w[3] for w in ivs if w is not v)
        new = _iv_meet(v, (lo, ls, hi, hs))
        if new != v:
            if k != 1:
                i = Fraction(1, k)
                lo, ls, hi, hs = _iv_scale((lo, ls, hi, hs), i)
                lo = None if lo is None else norm_num(lo)
                hi = None if hi is None else norm_num(hi)
            _tighten(((a.idx, 1),), [(a, 1)], lo, ls, hi, hs)


def add_fact(b, d):
    """Record what a decided condition says about the bounds."""
    p = b.p
    if p is None:
        return
    k = p[0]
    if k == 'not':
        return add_fact(p[1], not d)
    if k == 'and' or k == 'or':
        if (k == 'and') == d:
            for x in p[1]:
                add_fact(x, d)
        return
    _, l, op = p
    if not l.t:
        return
    dirk, items, scale, _ = l.norm()
    v = norm_num(-l.c * scale)
    up = scale > 0          # dir <= v iff l <= 0
    if op == '==':
        if d:
            _tighten(dirk, items, v, False, v, False)
        else:
            CTX.nes.add((dirk, v))
            o = CTX.bounds.get(dirk)
            if o is not None:
                if o[0] == v:
                    _tighten(dirk, items, v, True, None, False)
                if o[2] == v:
                    _tighten(dirk, items, None, False, v, True)
            elif len(items) == 1 and items[0][0].iv is not None:
                iv = _iv_scale(items[0][0].iv, items[0][1])
                if iv[0] == v:
                    _tighten(dirk, items, v, True, None, False)
                if iv[2] == v:
                    _tighten(dirk, items, None, False, v, True)
        return
    strict = op == '<'
    if not d:
        up, strict = not up, not strict
    if up:
        if (dirk, v) in CTX.nes:
            strict = True
        _tighten(dirk, items, None, False, v, strict)
    else:
        if (dirk, v) in CTX.nes:
            strict = True
        _tighten(dirk, items, v, strict, None, False)


def known(b):
    """The truth of a condition, if it follows from the bounds known."""
    p = b.p
    if p is None:
        return None
    k = p[0]
    if k == 'lin':
        return lin_decide(p[1], p[2])
    if k == 'not':
        r = known(p[1])
        return None if r is None else not r
    if k == 'and':
        r = True
        for x in p[1]:
            y = known(x)
            if y is False:
                return False
            if y is None:
                r = None
        return r
    r = False
    for x in p[1]:
        y = known(x)
        if y is True:
            return True
        if y is None:
            r = None
    return r


# ---------------------------------------------------------------------------
# Proxies
# ---------------------------------------------------------------------------

def is_sym(x):
    return isinstance(x, SymBase)


_numpy = None


def np():
    global _numpy
    if _numpy is None:
        import numpy
        _numpy = numpy
    return _numpy


def lift(x):
    """Python number -> SymInt/SymReal, the float itself for infinities and nan, None if not a number."""
    t = type(x)
    if t is SymReal or t is SymInt:
        return x
    if t is SymBool:
        return x._as_int()
    if t is bool or t is int:
        return SymInt(l=Lin(int(x), {}))
    if t is float:
        if math.isinf(x) or math.isnan(x):
            return x
        return SymReal(l=Lin(norm_num(Fraction(x)), {}))
    if t is Fraction:
        return SymReal(l=Lin(norm_num(x), {}))
    if isinstance(x, int):
        return SymInt(l=Lin(int(x), {}))
    if isinstance(x, float):
        return lift(float(x))
    if _numpy is not None or t.__module__ == 'numpy':
        n = np()
        if isinstance(x, n.integer):
            return SymInt(l=Lin(int(x), {}))
        if isinstance(x, n.floating):
            return lift(float(x))
        if isinstance(x, n.bool_):
            return SymInt(l=Lin(int(x), {}))
    return None


def _is_arr(x):
    return type(x).__module__ == 'numpy' and type(x).__name__ == 'ndarray'


def _real(s):
    return lin_expr(s.l, True)


def to_real(s):
    return s if type(s) is SymReal else SymReal(l=s.l)


class SymBase:
    __array_ufunc__ = None

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise Unsupported('pickling a symbolic value')


def _binop(name):
    def f(self, other):
        return _arith(name, self, other, False)

    def r(self, other):
        return _arith(name, self, other, True)
    return f, r


def _vec(name, a, b, rev):
    n = np()
    g = n.frompyfunc(lambda x: _arith(name, a, x, rev), 1, 1)
    return g(b)


def _arith(name, a, b, rev):
    if _is_arr(b):
        return _vec(name, a, b, rev)
    lb = lift(b)
    if lb is None:
        return NotImplemented
    if type(lb) is float:
        # infinity or nan with a finite symbolic value
        x, y = (lb, 1.0) if rev else (1.0, lb)
        if math.isnan(lb):
            return lb
        if name == 'add':
            return lb
        if name == 'sub':
            return lb if rev else -lb
        if name == 'div' and not rev:
            return 0.0
        raise Unsupported('infinite operand in %s' % name)
    x, y = (lb, a) if rev else (a, lb)
    bothint = type(x) is SymInt and type(y) is SymInt
    cls = SymInt if bothint else SymReal
    if name == 'add':
        return cls(l=lin_add(x.l, y.l))
    if name == 'sub':
        return cls(l=lin_add(x.l, y.l, -1))
    if name == 'mul':
        return cls(l=lin_mul(x.l, y.l))
    if name == 'div':
        _nonzero(y)
        return SymReal(l=lin_div(x.l, y.l))
    if name == 'floordiv' or name == 'mod':
        _nonzero(y)
        if not y.l.t:
            q, m = _divmod_const(x.l, y.l.c)
            return cls(l=q if name == 'floordiv' else m)
        if bothint:
            # z3 is Euclidean, Python floors: use the positive-divisor form
            if CTX.branch(SymBool(p=('lin', lin_scale(y.l, -1), '<'))):
                q = atom_lin(atom_of(x.e / y.e, True))
            else:
                q = atom_lin(atom_of((-x.e) / (-y.e), True))
        else:
            q = lin_floor(lin_div(x.l, y.l))
        if name == 'floordiv':
            return cls(l=q)
        return cls(l=lin_add(x.l, lin_mul(y.l, q), -1))
    raise Unsupported(name)


def _divmod_const(x, d):
    """Quotient (floored) and remainder by a constant."""
    if d == 1 and x.allint():
        return x, Lin(0, {})
    if d == 1:
        q = lin_floor(x)
        return q, lin_add(x, q, -1)
    if d != 1 and not (type(d) is int and x.allint()):
        q = lin_floor(lin_scale(x, 1 / Fraction(d)))
        return q, lin_add(x, lin_scale(q, d), -1)
    if d < 0:
        q, m = _divmod_const(lin_scale(x, -1), -d)
        return q, lin_scale(m, -1)
    # integers: take the multiples of d out
    qt, rt = {}, {}
    for a, k in x.t.items():
        u, w = divmod(k, d)
        if u:
            qt[a] = u
        if w:
            rt[a] = w
    qc, rc = divmod(x.c, d)
    q = Lin(qc, qt)
    if not rt:
        return q, Lin(rc, {})
    r = Lin(rc, rt)
    lo, ls, hi, hs = interval(r)
    if lo is not None and hi is not None and lo // d == hi // d:
        k = int(lo // d)
        return lin_add(q, Lin(k, {})), lin_add(r, Lin(k * d, {}), -1)
    e = lin_expr(r, False)
    a = atom_of(e / d, True)
    if a.iv is None:
        a.iv = (None if lo is None else int(lo // d), False, None if hi is None else int(hi // d), False)
        m = lin_add(r, Lin(0, {a: d}), -1)
        add_fact(SymBool(p=('lin', lin_add(m, Lin(d - 1, {}), -1), '<=')), True)
        add_fact(SymBool(p=('lin', lin_scale(m, -1), '<=')), True)
        # few quotients: settle which one now, everything after stays linear
        if a.iv[0] is not None and a.iv[2] is not None and a.iv[2] - a.iv[0] <= 2:
            for k in range(a.iv[0], a.iv[2]):
                if CTX.branch(SymBool(p=('lin', lin_add(r, Lin((k + 1) * d, {}), -1), '<'))):
                    a.iv = (k, False, k, False)
                    break
            else:
                a.iv = (a.iv[2], False, a.iv[2], False)
    if a.iv[0] is not None and a.iv[0] == a.iv[2]:
        k = a.iv[0]
        return lin_add(q, Lin(k, {})), lin_add(r, Lin(k * d, {}), -1)
    return lin_add(q, atom_lin(a)), lin_add(r, Lin(0, {a: d}), -1)


def lin_floor(x):
    if x.allint():
        return x
    it, rt = {}, {}
    for a, k in x.t.items():
        if a.isint:
            u = k if type(k) is int else k.numerator // k.denominator
            if u:
                it[a] = u
            if k != u:
                rt[a] = norm_num(k - u)
        else:
            rt[a] = k
    c = x.c
    ic = c if type(c) is int else c.numerator // c.denominator
    i = Lin(ic, it)
    r = Lin(norm_num(c - ic), rt)
    lo, ls, hi, hs = interval(r)
    flo = None if lo is None else math.floor(lo)
    fhi = None if hi is None else (math.ceil(hi) - 1 if hs else math.floor(hi))
    if flo is not None and flo == fhi:
        return lin_add(i, Lin(flo, {}))
    a = atom_of(z3.ToInt(lin_expr(r, True)), True)
    if a.iv is None:
        a.iv = (flo, False, fhi, False)
        m = lin_add(r, atom_lin(a), -1)
        add_fact(SymBool(p=('lin', lin_add(m, Lin(1, {}), -1), '<')), True)
        add_fact(SymBool(p=('lin', lin_scale(m, -1), '<=')), True)
        if flo is not None and fhi is not None and fhi - flo <= 2:
            for k in range(flo, fhi):
                if CTX.branch(SymBool(p=('lin', lin_add(r, Lin(k + 1, {}), -1), '<'))):
                    a.iv = (k, False, k, False)
                    break
            else:
                a.iv = (fhi, False, fhi, False)
    if a.iv[0] is not None and a.iv[0] == a.iv[2]:
        return lin_add(i, Lin(a.iv[0], {}))
    return lin_add(i, atom_lin(a))


def lin_trunc(x):
    if x.allint():
        return x
    lo, ls, hi, hs = interval(x)
    if lo is not None and lo >= 0:
        return lin_floor(x)
    if hi is not None and hi <= 0:
        return lin_scale(lin_floor(lin_scale(x, -1)), -1)
    e = lin_expr(x, True)
    a = atom_of(_trunc(e), True)
    if a.iv is None:
        a.iv = (None if lo is None else math.ceil(lo), False, None if hi is None else math.floor(hi), False)
    return atom_lin(a)


def lin_round(x):
    """Half to even."""
    if x.allint():
        return x
    it, rt = {}, {}
    for a, k in x.t.items():
        if a.isint and type(k) is int and k % 2 == 0:
            it[a] = k
        else:
            rt[a] = k
    ic = 2 * ((x.c / 2) if type(x.c) is int and x.c % 2 == 0 else math.floor(Fraction(x.c) / 2))
    i = Lin(int(ic), it)
    r = Lin(norm_num(x.c - int(ic)), rt)
    if r.allint():
        return x
    lo, ls, hi, hs = interval(r)
    rlo = None if lo is None else round(Fraction(lo))
    rhi = None if hi is None else round(Fraction(hi))
    if rlo is not None and rlo == rhi:
        return lin_add(i, Lin(rlo, {}))
    a = atom_of(_round_even(lin_expr(r, True)), True)
    if a.iv is None:
        a.iv = (rlo, False, rhi, False)
        m = lin_add(r, atom_lin(a), -1)
        h = Fraction(1, 2)
        add_fact(SymBool(p=('lin', lin_add(m, Lin(h, {}), -1), '<=')), True)
        add_fact(SymBool(p=('lin', lin_add(lin_scale(m, -1), Lin(h, {}), -1), '<=')), True)
    return lin_add(i, atom_lin(a))


def _nonzero(y):
    if CTX is not None and y.l.t:
        if CTX.branch(SymBool(p=('lin', y.l, '=='))):
            raise ZeroDivisionError('division by zero')
    elif y.l.c == 0:
        raise ZeroDivisionError('division by zero')


def _cmp(name, a, b):
    if _is_arr(b):
        n = np()
        return n.frompyfunc(lambda x: _cmp(name, a, x), 1, 1)(b)
    lb = lift(b)
    if lb is None:
        return NotImplemented
    if type(lb) is float:
        if math.isnan(lb):
            return name == 'ne'
        return {'lt': lb > 0, 'le': lb > 0, 'gt': lb < 0, 'ge': lb < 0, 'eq': False, 'ne': True}[name]
    if name == 'gt' or name == 'ge':
        return mkcond(lin_add(lb.l, a.l, -1), '<' if name == 'gt' else '<=')
    l = lin_add(a.l, lb.l, -1)
    if name == 'lt':
        return mkcond(l, '<')
    if name == 'le':
        return mkcond(l, '<=')
    r = mkcond(l, '==')
    if name == 'eq':
        return r
    return (not r) if type(r) is bool else ~r


def mkcond(l, op):
    """l op 0"""
    if not l.t:
        c = l.c
        return c < 0 if op == '<' else c <= 0 if op == '<=' else c == 0
    return SymBool(p=('lin', l, op))


def cond_of(x):
    """A condition as SymBool, or a plain bool."""
    if type(x) is SymBool:
        return x
    if isinstance(x, SymNum):
        return x != 0
    return bool(x)


def and_of(xs):
    out = []
    for x in xs:
        x = cond_of(x)
        if x is False:
            return False
        if x is not True:
            out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else SymBool(p=('and', out))


def or_of(xs):
    out = []
    for x in xs:
        x = cond_of(x)
        if x is True:
            return True
        if x is not False:
            out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else SymBool(p=('or', out))


def ite(c, a, b):
    """Conditional number."""
    c = cond_of(c)
    if c is True:
        return a
    if c is False:
        return b
    k = known(c)
    if k is not None:
        return a if k else b
    a, b = lift(a), lift(b)
    isint = type(a) is SymInt and type(b) is SymInt
    if a.l.key() == b.l.key():
        return a if isint else to_real(a)
    # the common part stays outside
    d = lin_add(a.l, b.l, -1)
    allint = d.allint()
    e = z3.If(c.e, lin_expr(d, not allint), z3.IntVal(0) if allint else z3.RealVal(0))
    at = atom_of(e, allint)
    if at.iv is None:
        iv = interval(d)
        at.iv = (None if iv[0] is None else min(iv[0], 0), False, None if iv[2] is None else max(iv[2], 0), False)
    r = lin_add(b.l, atom_lin(at))
    return SymInt(l=r) if isint else SymReal(l=r)


def mkbool(e):
    if e is True or e is False:
        return e
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


class SymNum(SymBase):
    __slots__ = ('l', '_e')

    def __init__(self, e=None, l=None):
        if l is None:
            l = lin_of(e, type(self) is SymInt)
        self.l = l
        self._e = None

    @property
    def e(self):
        if self._e is None:
            self._e = lin_expr(self.l, type(self) is SymReal)
        return self._e

    __add__, __radd__ = _binop('add')
    __sub__, __rsub__ = _binop('sub')
    __mul__, __rmul__ = _binop('mul')
    __truediv__, __rtruediv__ = _binop('div')
    __floordiv__, __rfloordiv__ = _binop('floordiv')
    __mod__, __rmod__ = _binop('mod')

    def __divmod__(self, o):
        return (self // o, self % o)

    def __rdivmod__(self, o):
        return (o // self, o % self)

    def __lt__(self, o):
        return _cmp('lt', self, o)

    def __le__(self, o):
        return _cmp('le', self, o)

    def __gt__(self, o):
        return _cmp('gt', self, o)

    def __ge__(self, o):
        return _cmp('ge', self, o)

    def __eq__(self, o):
        return _cmp('eq', self, o)

    def __ne__(self, o):
        return _cmp('ne', self, o)

    def __neg__(self):
        return type(self)(l=lin_scale(self.l, -1))

    def __pos__(self):
        return self

    def __abs__(self):
        if not self.l.t:
            return type(self)(l=Lin(abs(self.l.c), {}))
        neg = lin_decide(self.l, '<')
        if neg is not None:
            return -self if neg else self
        lo, ls, hi, hs = interval(self.l)
        e = self.e
        a = atom_of(z3.If(e >= 0, e, -e), type(self) is SymInt)
        if a.iv is None:
            a.iv = (0, False, None if lo is None or hi is None else max(abs(lo), abs(hi)), False)
            a.sq = lin_mul(self.l, self.l)
            for d in (lin_add(self.l, atom_lin(a), -1), lin_add(lin_scale(self.l, -1), atom_lin(a), -1)):
                add_fact(SymBool(p=('lin', d, '<=')), True)
        return type(self)(l=atom_lin(a))

    def __bool__(self):
        return not CTX.branch(mkcond(self.l, '=='))

    def __pow__(self, p, mod=None):
        if is_sym(p):
            if type(p) is SymInt:
                p = CTX.concretise_int(p)
            else:
                p = float(p)
        if p == 0.5:
            return self.sqrt()
        if type(p) is float and p.is_integer():
            r = self.__pow__(int(p))
            return to_real(r) if is_sym(r) else float(r)
        if isinstance(p, int) and 0 <= p <= 8:
            r = 1
            for _ in range(p):
                r = r * self
            return r
        if isinstance(p, int) and p < 0:
            return 1 / self.__pow__(-p)
        return float(self) ** p

    def __rpow__(self, b):
        if type(self) is SymInt:
            return b ** CTX.concretise_int(self)
        return b ** float(self)

    def sqrt(self):
        if CTX.branch(mkcond(self.l, '<')):
            raise ValueError('math domain error')
        x = _real(self)
        r = CTX.fresh_const('real', 'sqrt')
        CTX.assume(z3.And(r >= 0, r * r == x))
        a = atom_of(r, False)
        a.sq = self.l
        a.iv = (0, False, None, False)
        return SymReal(l=atom_lin(a))

    def log(self, base=None):
        return sym_log(self, base)

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def __str__(self):
        return self._tok()

    def __repr__(self):
        return self._tok()

    def __format__(self, spec):
        if spec in ('', 's'):
            return self._tok()
        if spec[:1] == '.' and spec[-1:] == 'f' and spec[1:-1].isdigit():
            n = int(spec[1:-1])
            return round(self, n)._tok() if type(self) is SymReal else self._tok() + ('.' + '0' * n if n else '')
        # Any other formatted rendition is a different number: keep it only as text of one concrete value
        return format(self.__float__() if type(self) is SymReal else self.__index__(), spec)


class SymReal(SymNum):
    __slots__ = ()

    @property
    def __class__(self):
        return float

    def _tok(self):
        if not self.l.t and Fraction(float(self.l.c)) == self.l.c:
            return str(float(self.l.c))
        n = TOKEN_BASE + CTX.token(self)
        return ('%d.0' if self.l.allint() else '%d.5') % n

    def __hash__(self):
        if not self.l.t:
            return hash(self.l.c)
        return 417

    def __float__(self):
        return float(CTX.pin_real(self))

    def __int__(self):
        return CTX.concretise_int(self.__trunc__())

    def __trunc__(self):
        return SymInt(l=lin_trunc(self.l))

    def __floor__(self):
        return SymInt(l=lin_floor(self.l))

    def __ceil__(self):
        return SymInt(l=lin_scale(lin_floor(lin_scale(self.l, -1)), -1))

    def __round__(self, n=None):
        if n is None:
            return SymInt(l=lin_round(self.l))
        s = Fraction(10) ** n
        return SymReal(l=lin_scale(lin_round(lin_scale(self.l, s)), 1 / s))

    def is_integer(self):
        if self.l.allint():
            return True
        return bool(self == SymReal(l=lin_floor(self.l)))

    def as_integer_ratio(self):
        return self.__float__().as_integer_ratio()


class SymInt(SymNum):
    __slots__ = ()

    @property
    def __class__(self):
        return int

    def _tok(self):
        if not self.l.t:
            return str(self.l.c)
        return '%d' % (TOKEN_BASE + CTX.token(self))

    def __hash__(self):
        # Small-domain integers are enumerated (they may be mixed with concrete keys);
        # wide ones (timestamps) share a constant bucket and are told apart by equality forks.
        if not self.l.t:
            return hash(self.l.c)
        k = self.l.key()
        c = CTX.known_hash.get(k)
        if c is None:
            lo, ls, hi, hs = interval(self.l)
            if lo is not None and hi is not None and lo >= -1000 and hi <= 1000:
                c = False
            else:
                e = self.e
                c = CTX.decide(lambda: CTX._check(z3.Or(e > 1000, e < -1000))[0] != z3.unsat)
            CTX.known_hash[k] = c
        if c:
            return 417
        return hash(CTX.concretise_int(self))

    def __float__(self):
        return float(CTX.concretise_int(self))

    def __int__(self):
        return CTX.concretise_int(self)

    def __index__(self):
        return CTX.concretise_int(self)

    def __trunc__(self):
        return self

    def __floor__(self):
        return self

    def __ceil__(self):
        return self

    def __round__(self, n=None):
        if n is None or n >= 0:
            return self
        s = 10 ** (-n)
        return SymInt(l=lin_scale(lin_round(lin_scale(self.l, Fraction(1, s))), s))

    def __and__(self, o):
        return CTX.concretise_int(self) & (CTX.concretise_int(o) if is_sym(o) else o)

    __rand__ = __and__

    def is_integer(self):
        return True

    def bit_length(self):
        return CTX.concretise_int(self).bit_length()


def _trunc(e):
    return z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e))


def _round_even(e):
    h = e + z3.RealVal('1/2')
    f = z3.ToInt(h)
    tie = z3.ToReal(f) == h
    return z3.If(z3.And(tie, f % 2 != 0), f - 1, f)


class SymBool(SymBase):
    """A condition: a z3 term, or p = ('lin', form, op) meaning form op 0, ('and'|'or', [...]), ('not', c)."""
    __slots__ = ('_e', 'p')

    def __init__(self, e=None, p=None):
        self._e = e
        self.p = p

    @property
    def e(self):
        if self._e is None:
            p = self.p
            k = p[0]
            if k == 'lin':
                l, op = p[1], p[2]
                dirk, items, scale, _ = l.norm()
                # direction . atoms  op  value, over the integers when possible
                isint = all(a.isint for a, _ in items)
                v = norm_num(-l.c * scale)
                lhs = lin_expr(Lin(0, dict(items)), not isint)
                if isint and type(v) is not int:
                    fl = v.numerator // v.denominator
                    if op == '==':
                        self._e = z3.BoolVal(False)
                    elif scale > 0:
                        self._e = lhs <= fl
                    else:
                        self._e = lhs >= fl + 1
                    return self._e
                rhs = _z3num(v, not isint)
                if op == '==':
                    self._e = lhs == rhs
                elif scale > 0:
                    self._e = lhs < rhs if op == '<' else lhs <= rhs
                else:
                    self._e = lhs > rhs if op == '<' else lhs >= rhs
            elif k == 'not':
                self._e = z3.Not(p[1].e)
            elif k == 'and':
                self._e = z3.And([x.e for x in p[1]])
            else:
                self._e = z3.Or([x.e for x in p[1]])
        return self._e

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return CTX.branch(self)

    def _as_int(self):
        k = known(self)
        if k is not None:
            return SymInt(l=Lin(int(k), {}))
        a = atom_of(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)), True)
        a.iv = (0, False, 1, False)
        return SymInt(l=atom_lin(a))

    def __and__(self, o):
        return and_of([self, o])

    __rand__ = __and__

    def __or__(self, o):
        return or_of([self, o])

    __ror__ = __or__

    def __xor__(self, o):
        return mkbool(z3.Xor(self.e, zbool(o)))

    __rxor__ = __xor__

    def __invert__(self):
        p = self.p
        if p is not None:
            if p[0] == 'not':
                return p[1]
            if p[0] == 'lin' and p[2] != '==':
                return SymBool(p=('lin', lin_scale(p[1], -1), '<=' if p[2] == '<' else '<'))
        return SymBool(p=('not', self))

    def __eq__(self, o):
        if type(o) is SymBool or isinstance(o, bool):
            return mkbool(self.e == zbool(o))
        return self._as_int() == o

    def __ne__(self, o):
        if type(o) is SymBool or isinstance(o, bool):
            return mkbool(self.e != zbool(o))
        return self._as_int() != o

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __float__(self):
        return float(bool(self))

    def __str__(self):
        return str(bool(self))

    __repr__ = __str__

    def __format__(self, s):
        return format(bool(self), s)

    def __add__(self, o):
        return self._as_int() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self._as_int() - o

    def __rsub__(self, o):
        return o - self._as_int()

    def __mul__(self, o):
        return self._as_int() * o

    __rmul__ = __mul__

    def __lt__(self, o):
        return self._as_int() < o

    def __gt__(self, o):
        return self._as_int() > o

    def __le__(self, o):
        return self._as_int() <= o

    def __ge__(self, o):
        return self._as_int() >= o

    def __truediv__(self, o):
        return self._as_int() / o


def zbool(x):
    if type(x) is SymBool:
        return x.e
    if isinstance(x, SymNum):
        return x.e != 0
    return z3.BoolVal(bool(x))


# ---------------------------------------------------------------------------
# Tokens back to symbols
# ---------------------------------------------------------------------------

def from_token(v):
    """A number parsed from text: if it is one of our tokens, the symbol it stands for, else None."""
    try:
        a = -v if v < 0 else v
    except TypeError:
        return None
    if TOKEN_BASE <= a < TOKEN_BASE + TOKEN_SPAN and CTX is not None:
        i = int(a) - TOKEN_BASE
        if i < len(CTX.tokens):
            s = CTX.tokens[i]
            return -s if v < 0 else s
    return None
