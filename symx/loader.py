"""Loads timeseria and propertime from source with sym-aware builtins (symbolic mode only).

Only the names float/int/round/min/max/str and the json/math/sklearn helper names seen by these
modules are replaced; the code itself is executed unchanged from /repo's working tree.
"""
import ast
import builtins
import importlib.abc
import importlib.machinery
import importlib.util
import json as _json
import statistics as _statistics
import logging
import math as _math
import os
import sys

from . import core
from .core import SymBase, SymInt, SymReal, SymBool, is_sym, from_token, lift
import z3

REPO = os.environ.get('SYMX_REPO', '/repo')


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.float)

    def __subclasscheck__(cls, c):
        return c is cls or issubclass(c, builtins.float)

    def __call__(cls, x=0.0):
        if is_sym(x):
            s = lift(x)
            return core.to_real(s)
        v = builtins.float(x)
        if type(x) in (str, int, float):
            s = from_token(v)
            if s is not None:
                s = lift(s)
                return core.to_real(s)
        return v

    def __eq__(cls, o):
        return o is cls or o is builtins.float

    def __hash__(cls):
        return hash(builtins.float)

    def __repr__(cls):
        return "<class 'float'>"


class float_shim(metaclass=_FloatMeta):
    fromhex = builtins.float.fromhex
    __name__ = 'float'


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.int)

    def __subclasscheck__(cls, c):
        return c is cls or issubclass(c, builtins.int)

    def __call__(cls, x=0, *a):
        if is_sym(x):
            return lift(x).__trunc__()
        v = builtins.int(x, *a)
        s = from_token(v)
        if s is not None:
            return s.__trunc__()
        return v

    def __eq__(cls, o):
        return o is cls or o is builtins.int

    def __hash__(cls):
        return hash(builtins.int)

    def __repr__(cls):
        return "<class 'int'>"


class int_shim(metaclass=_IntMeta):
    __name__ = 'int'


def _fold(a, kw, less):
    if kw or not a:
        return None
    xs = list(a[0]) if len(a) == 1 else list(a)
    if not xs or not any(is_sym(x) for x in xs):
        return xs
    r = lift(xs[0])
    for x in xs[1:]:
        x = lift(x)
        if r is None or x is None or type(x) is float or type(r) is float:
            return xs
        c = (x < r) if less else (x > r)
        if c is True:
            r = x
        elif c is False:
            pass
        else:
            r = core.ite(c, x, r)
    return r


def min_shim(*a, **kw):
    r = _fold(a, kw, True)
    if r is None:
        return builtins.min(*a, **kw)
    if isinstance(r, list) and type(r) is list:
        return builtins.min(r)
    return r


def max_shim(*a, **kw):
    r = _fold(a, kw, False)
    if r is None:
        return builtins.max(*a, **kw)
    if isinstance(r, list) and type(r) is list:
        return builtins.max(r)
    return r


def type_shim(*a):
    if len(a) == 1 and is_sym(a[0]):
        return a[0].__class__
    return builtins.type(*a)


class _JsonShim:
    def __getattr__(self, n):
        return getattr(_json, n)

    @staticmethod
    def _out(x):
        if type(x) is SymReal or type(x) is SymInt:
            t = str(x)
            return builtins.float(t) if '.' in t else builtins.int(t)
        if type(x) is SymBool:
            return bool(x)
        if isinstance(x, dict):
            return {_JsonShim._key(k): _JsonShim._out(v) for k, v in x.items()}
        if isinstance(x, (list, tuple)):
            return [_JsonShim._out(v) for v in x]
        return x

    @staticmethod
    def _key(k):
        return _JsonShim._out(k) if is_sym(k) else k

    @staticmethod
    def _in(x):
        if isinstance(x, bool):
            return x
        if isinstance(x, (int, float)):
            s = from_token(x)
            return x if s is None else s
        if isinstance(x, dict):
            return {k: _JsonShim._in(v) for k, v in x.items()}
        if isinstance(x, list):
            return [_JsonShim._in(v) for v in x]
        return x

    def dumps(self, x, **kw):
        return _json.dumps(self._out(x), **kw)

    def dump(self, x, f, **kw):
        return _json.dump(self._out(x), f, **kw)

    def loads(self, s, **kw):
        return self._in(_json.loads(s, **kw))

    def load(self, f, **kw):
        return self._in(_json.load(f, **kw))


class _MathShim:
    def __getattr__(self, n):
        return getattr(_math, n)

    @staticmethod
    def isnan(x):
        return False if is_sym(x) else _math.isnan(x)

    @staticmethod
    def isinf(x):
        return False if is_sym(x) else _math.isinf(x)

    @staticmethod
    def isfinite(x):
        return True if is_sym(x) else _math.isfinite(x)

    @staticmethod
    def sqrt(x):
        return x.sqrt() if is_sym(x) else _math.sqrt(x)

    @staticmethod
    def log10(x):
        return x.log(10) if is_sym(x) else _math.log10(x)

    @staticmethod
    def log(x, *base):
        return x.log(*base) if is_sym(x) else _math.log(x, *base)

    @staticmethod
    def fabs(x):
        return abs(x) if is_sym(x) else _math.fabs(x)

    @staticmethod
    def fsum(xs):
        xs = list(xs)
        return sum(xs) if any(is_sym(x) for x in xs) else _math.fsum(xs)

    @staticmethod
    def isclose(a, b, rel_tol=1e-09, abs_tol=0.0):
        if not any(is_sym(x) for x in (a, b, rel_tol, abs_tol)):
            return _math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
        return abs(a - b) <= max_shim(rel_tol * max_shim(abs(a), abs(b)), abs_tol)

    @staticmethod
    def pow(x, y):
        return x ** y if is_sym(x) or is_sym(y) else _math.pow(x, y)


json_shim = _JsonShim()
math_shim = _MathShim()


class _StatisticsShim:
    def __getattr__(self, n):
        return getattr(_statistics, n)

    @staticmethod
    def mean(xs):
        xs = list(xs)
        if not any(is_sym(x) for x in xs):
            return _statistics.mean(xs)
        return sum(xs) / len(xs)

    @staticmethod
    def fmean(xs):
        xs = list(xs)
        if not any(is_sym(x) for x in xs):
            return _statistics.fmean(xs)
        return sum(xs) / len(xs)

    @staticmethod
    def median(xs):
        xs = sorted(xs)
        if not any(is_sym(x) for x in xs):
            return _statistics.median(xs)
        n = len(xs)
        return xs[n // 2] if n % 2 else (xs[n // 2 - 1] + xs[n // 2]) / 2

    @staticmethod
    def variance(xs):
        xs = list(xs)
        if not any(is_sym(x) for x in xs):
            return _statistics.variance(xs)
        if len(xs) < 2:
            raise _statistics.StatisticsError('variance requires at least two data points')
        m = sum(xs) / len(xs)
        return sum((x - m) * (x - m) for x in xs) / (len(xs) - 1)

    @staticmethod
    def pvariance(xs):
        xs = list(xs)
        if not any(is_sym(x) for x in xs):
            return _statistics.pvariance(xs)
        m = sum(xs) / len(xs)
        return sum((x - m) * (x - m) for x in xs) / len(xs)

    def stdev(self, xs):
        xs = list(xs)
        if not any(is_sym(x) for x in xs):
            return _statistics.stdev(xs)
        if len(xs) < 2:
            raise _statistics.StatisticsError('stdev requires at least two data points')
        return core.sym_spread('stdev', xs)

    def pstdev(self, xs):
        xs = list(xs)
        if not any(is_sym(x) for x in xs):
            return _statistics.pstdev(xs)
        return core.sym_spread('pstdev', xs)


statistics_shim = _StatisticsShim()


def _mae(a, b, **kw):
    a, b = list(a), list(b)
    if not any(is_sym(x) for x in a + b):
        from sklearn.metrics import mean_absolute_error
        return mean_absolute_error(a, b, **kw)
    if len(a) != len(b):
        raise ValueError('Found input variables with inconsistent numbers of samples: [%d, %d]' % (len(a), len(b)))
    return sum(abs(x - y) for x, y in zip(a, b)) / len(a)


def _mse(a, b, **kw):
    a, b = list(a), list(b)
    if not any(is_sym(x) for x in a + b):
        from sklearn.metrics import mean_squared_error
        return mean_squared_error(a, b, **kw)
    if len(a) != len(b):
        raise ValueError('Found input variables with inconsistent numbers of samples: [%d, %d]' % (len(a), len(b)))
    return sum((x - y) * (x - y) for x, y in zip(a, b)) / len(a)


SHIM_BUILTINS = dict(builtins.__dict__)
SHIM_BUILTINS.update(float=float_shim, int=int_shim, min=min_shim, max=max_shim,
                     __plain_float__=builtins.float, __plain_int__=builtins.int)

# Globals replaced after import, by the identity of the object they name (stubs, listed in DESIGN.md)
_REPL = None


def _replacements():
    global _REPL
    if _REPL is None:
        import sklearn.metrics as m
        from . import symdt
        _REPL = {id(_json): json_shim, id(_math): math_shim,
                 id(m.mean_absolute_error): _mae, id(m.mean_squared_error): _mse,
                 id(_statistics): statistics_shim}
        for n in ('sqrt', 'log', 'log10', 'isnan', 'isinf', 'isfinite', 'fabs', 'fsum', 'isclose', 'pow'):
            _REPL[id(getattr(_math, n))] = getattr(math_shim, n)
        for n in ('mean', 'fmean', 'median', 'variance', 'pvariance', 'stdev', 'pstdev'):
            _REPL[id(getattr(_statistics, n))] = getattr(statistics_shim, n)
        _REPL.update(symdt.replacements())
    return _REPL


class _Proxy:
    """A module with the stubs in the place of what they stand for."""

    def __init__(self, m):
        self.__dict__['_m'] = m

    def __getattr__(self, n):
        v = getattr(self._m, n)
        return _replacements().get(id(v), v)


def import_shim(name, globals=None, locals=None, fromlist=(), level=0):
    m = builtins.__import__(name, globals, locals, fromlist, level)
    if level == 0:
        r = _replacements().get(id(m))
        if r is not None:
            return r
        if name == 'sklearn.metrics' and fromlist:
            return _Proxy(m)
    return m


SHIM_BUILTINS['__import__'] = import_shim


class _Messages(ast.NodeTransformer):
    """Log and exception messages are not formatted: what goes into them is still evaluated, but writing
    symbolic timestamps out as text would fork on each of their values for nothing."""
    inside = False

    def _within(self, node):
        old, self.inside = self.inside, True
        self.generic_visit(node)
        self.inside = old
        return node

    def visit_Expr(self, node):
        c = node.value
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name) \
                and c.func.value.id == 'logger':
            return self._within(node)
        return self.generic_visit(node)

    def visit_Raise(self, node):
        return self._within(node)

    def visit_ClassDef(self, node):
        # Subclasses of float and int are of the real ones
        self.generic_visit(node)
        for b in node.bases:
            if isinstance(b, ast.Name) and b.id in ('float', 'int'):
                b.id = '__plain_%s__' % b.id
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if self.inside and isinstance(f, ast.Attribute) and f.attr == 'format' and isinstance(f.value, ast.Constant) \
                and not any(isinstance(a, ast.Starred) for a in node.args):
            t = ast.Tuple([f.value] + node.args + [k.value for k in node.keywords if k.arg], ast.Load())
            return ast.copy_location(ast.Subscript(t, ast.Constant(0), ast.Load()), node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if self.inside and isinstance(node.op, ast.Mod) and isinstance(node.left, ast.Constant) \
                and isinstance(node.left.value, str):
            t = ast.Tuple([node.left, node.right], ast.Load())
            return ast.copy_location(ast.Subscript(t, ast.Constant(0), ast.Load()), node)
        return node


class SymLoader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        # always from source: never a stale .pyc
        path = self.get_filename(fullname)
        with open(path, 'rb') as f:
            tree = _Messages().visit(ast.parse(f.read(), path))
        return compile(ast.fix_missing_locations(tree), path, 'exec', dont_inherit=True)

    def exec_module(self, module):
        module.__dict__['__builtins__'] = SHIM_BUILTINS
        super().exec_module(module)
        rep = _replacements()
        for k, v in list(module.__dict__.items()):
            if k.startswith('__'):
                continue
            r = rep.get(id(v))
            if r is not None:
                module.__dict__[k] = r


class SymFinder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if not (name == 'timeseria' or name.startswith('timeseria.') or
                name == 'propertime' or name.startswith('propertime.')):
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path)
        if spec is None or not spec.origin or not spec.origin.endswith('.py'):
            return spec
        spec.loader = SymLoader(name, spec.origin)
        spec.cached = None
        return spec


def install(symbolic):
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import warnings
    warnings.filterwarnings('ignore')
    logging.disable(logging.CRITICAL)
    if symbolic:
        # third-party parts first, with their own builtins
        import numpy, pandas, scipy.stats, scipy.signal, sklearn.metrics, chardet, pytz, dateutil.tz, matplotlib  # noqa
        sys.meta_path.insert(0, SymFinder())
    import timeseria  # noqa
    logging.disable(logging.CRITICAL)
