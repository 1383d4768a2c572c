"""Path exploration of one harness, with concrete replay of candidates and of sampled paths."""
import json
import os
import random
import signal
import subprocess
import sys
import time
import traceback
from fractions import Fraction

from . import core, api

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


# ---------------------------------------------------------------------------
# Concrete execution (vanilla interpreter)
# ---------------------------------------------------------------------------

class _Alarm(BaseException):
    pass


def _on_alarm(*a):
    raise _Alarm()


def run_concrete(fn, params, inputs, timeout=20):
    s = api.Con(inputs)
    out = {'obs': [], 'outcome': 'ok', 'label': None, 'detail': None}
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_REAL, timeout, 1)
    try:
        api.call(fn, s, params)
    except api.Violated as e:
        out.update(outcome='violated', label=e.label, known=e.known)
    except api.AssumeFailed:
        out.update(outcome='assume')
    except _Alarm:
        out.update(outcome='timeout', label='does not terminate')
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        out.update(outcome='exception', label='unexpected %s' % type(e).__name__,
                   detail='%s: %s @ %s' % (type(e).__name__, str(e)[:300],
                                           ' < '.join('%s:%d' % (os.path.basename(f.filename), f.lineno)
                                                      for f in reversed(tb[-4:]))))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    out['obs'] = [[l, plain(v)] for l, v in s.observed]
    out['checks'] = s.checks
    return out


def plain(v):
    if v is None or isinstance(v, (str, bool)):
        return v
    if isinstance(v, dict):
        return {str(k): plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    try:
        return float(v)
    except Exception:
        return str(type(v))


def worker_main():
    """Vanilla replay server: JSON requests on stdin, JSON answers on stdout."""
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    import importlib
    from . import loader
    loader.install(False)
    for line in sys.stdin:
        req = json.loads(line)
        importlib.import_module('harness.' + req['module'])
        fn = find_case(req['prop'], req['case']).fn
        res = run_concrete(fn, req['params'], req['inputs'], req.get('timeout', 20))
        out.write(json.dumps(res) + '\n')
        out.flush()


def find_case(prop, name):
    for c in api.CASES.get(prop, []):
        if c.name == name:
            return c
    raise KeyError((prop, name))


class Replayer:
    def __init__(self):
        self.p = None

    def run(self, module, prop, case, params, inputs, timeout=20):
        if self.p is None or self.p.poll() is not None:
            self.p = subprocess.Popen([sys.executable, os.path.join(HERE, 'check.py'), '--worker'],
                                      stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True,
                                      stderr=subprocess.DEVNULL, cwd=HERE)
        self.p.stdin.write(json.dumps(dict(module=module, prop=prop, case=case, params=params,
                                           inputs=inputs, timeout=timeout)) + '\n')
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            self.p = None
            return {'outcome': 'crash', 'obs': [], 'label': None}
        return json.loads(line)

    def close(self):
        if self.p is not None:
            try:
                self.p.stdin.close()
                self.p.wait(5)
            except Exception:
                self.p.kill()
            self.p = None


REPLAYER = Replayer()


# ---------------------------------------------------------------------------
# Models -> inputs
# ---------------------------------------------------------------------------

def nice_models(ctx, extra=(), n=3):
    """Models of the path condition, simple numbers preferred (they survive the trip to floats)."""
    z3 = core.z3
    reals = [c for k, c in ctx.inputs.values() if k == 'real']
    nonlinear_guard = 4000
    s = z3.Solver()
    s.set('timeout', nonlinear_guard)
    for e in ctx.pc:
        s.add(e)
    for e in extra:
        s.add(e)
    prefs = []
    if reals:
        prefs.append([z3.IsInt(c) for c in reals])
        prefs.append([z3.IsInt(c * 4) for c in reals])
        prefs.append([z3.IsInt(c * 64) for c in reals])
    prefs.append([])
    got = 0
    blocked = []
    for p in prefs:
        s.push()
        for e in p:
            s.add(e)
        while got < n:
            r = s.check()
            if r != z3.sat:
                break
            m = s.model()
            yield m
            got += 1
            diff = []
            for k, c in ctx.inputs.values():
                if k == 'bool':
                    continue
                v = m.eval(c, model_completion=True)
                if z3.is_algebraic_value(v):
                    continue
                diff.append(c != v)
            if not diff:
                break
            s.add(z3.Or(diff))
        s.pop()
        if got >= n:
            return
    if got == 0 and ctx.model is not None and not extra:
        yield ctx.model


def clear_models(ctx, s):
    """Models of a candidate violation, those which rounding cannot hide in the replay first."""
    for tol in (1, 0.01, 0.0005):
        extra = s.wider(tol)
        if extra:
            yield from nice_models(ctx, extra=extra, n=2)
    yield from nice_models(ctx, n=4)


def inputs_of(ctx, model):
    z3 = core.z3
    out = {}
    for name, (kind, c) in ctx.inputs.items():
        if kind == 'bool':
            out[name] = z3.is_true(model.eval(c, model_completion=True))
        elif kind == 'int':
            out[name] = model.eval(c, model_completion=True).as_long()
        else:
            out[name] = float(core.model_fraction(model, c))
    return out


def eval_obs(model, v):
    z3 = core.z3
    if v is None or isinstance(v, str):
        return v
    if type(v) is core.SymBool:
        return z3.is_true(model.eval(v.e, model_completion=True))
    if isinstance(v, core.SymNum):
        return float(core.model_fraction(model, v.e))
    if isinstance(v, bool):
        return v
    if isinstance(v, dict):
        return {str(k): eval_obs(model, x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [eval_obs(model, x) for x in v]
    try:
        return float(v)
    except Exception:
        return str(type(v))


def obs_match(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(obs_match(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(obs_match(x, y) for x, y in zip(a, b))
    if isinstance(a, bool) or isinstance(b, bool):
        return bool(a) == bool(b)
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return abs(a - b) <= 1e-6 * (1 + abs(a) + abs(b))
    return a == b


# ---------------------------------------------------------------------------
# Exploration
# ---------------------------------------------------------------------------

class _Codes:
    """Which functions of the code under test ran symbolically."""

    def __init__(self):
        self.seen = set()
        self.on = False

    def start(self):
        if self.on:
            return
        self.on = True
        from . import loader
        root = loader.REPO + '/timeseria/'
        mon = sys.monitoring
        try:
            mon.use_tool_id(3, 'symx')
        except ValueError:
            return

        def cb(code, off):
            fn = code.co_filename
            if fn.startswith(root):
                self.seen.add(fn[len(root):] + ':' + code.co_qualname)
            return mon.DISABLE
        mon.register_callback(3, mon.events.PY_START, cb)
        mon.set_events(3, mon.events.PY_START)


CODES = _Codes()


def explore(case, module, params, prefixes, slice_s, cfg):
    """Explores from the given prefixes for at most slice_s seconds.

    Returns a result dict with the remaining prefixes."""
    CODES.start()
    stats = core.Stats()
    res = dict(case=case.name, params=params, paths=0, completed=0, aborted=0, timeouts=0, incomplete=0,
               checked=0, violations=[], spurious=[], validated=0, mismatches=[], covers=set(), samples=[],
               pending=[], labels=set(), known=[], depth=0)
    t_end = time.time() + slice_s
    work = list(prefixes)
    rng = random.Random(cfg['seed'] * 7919 + len(work))
    signal.signal(signal.SIGALRM, _on_alarm)
    validate_left = cfg['validate']
    while work:
        if time.time() > t_end:
            break
        if sum(1 for v in res['violations'] if v.get('known') not in cfg.get('known', ())) >= cfg['max_violations']:
            work = []
            break
        prefix = work.pop()
        ctx = core.Ctx(prefix, stats, cfg['query_timeout_ms'])
        ctx.solver.set('random_seed', cfg['seed'])
        core.set_ctx(ctx)
        s = api.Sym(ctx)
        outcome, label, detail, known = 'ok', None, None, None
        signal.setitimer(signal.ITIMER_REAL, cfg['path_timeout'], 1)
        try:
            try:
                api.call(case.fn, s, params)
                if ctx.dead is not None:
                    raise ctx.dead
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        except api.Violated as e:
            outcome, label, known = 'violated', e.label, e.known
        except core.PathAbort:
            outcome = 'abort'
        except (core.PathTimeout, _Alarm):
            outcome = 'timeout'
        except Exception as e:
            if isinstance(ctx.dead, api.Violated):
                outcome, label, known = 'violated', ctx.dead.label, ctx.dead.known
            elif isinstance(ctx.dead, core.PathAbort):
                outcome = 'abort'
            elif ctx.dead is not None:
                outcome = 'timeout'
            else:
                outcome, label = 'exception', 'unexpected %s' % type(e).__name__
                detail = '%s: %s' % (type(e).__name__, str(e)[:200])
                if cfg.get('debug'):
                    traceback.print_exc()
        signal.setitimer(signal.ITIMER_REAL, 0)
        work.extend(ctx.pending)
        if outcome == 'abort':
            res['aborted'] += 1
            continue
        res['paths'] += 1
        res['depth'] = max(res['depth'], len(ctx.trace))
        ctx.dead = None
        if ctx.pinned:
            res['incomplete'] += 1
        if outcome == 'ok':
            res['completed'] += 1
            res['checked'] += s.checks
            res['covers'] |= s.covered
            # differential validation of the encoding on a sample of the paths
            if validate_left > 0 and (res['completed'] <= 2 or rng.random() < cfg['validate_p']):
                validate_left -= 1
                _validate(case, module, params, ctx, s, res)
            continue
        if outcome == 'timeout':
            r = None
            for m in nice_models(ctx, n=1):
                r = REPLAYER.run(module, case.prop, case.name, params, inputs_of(ctx, m), timeout=10)
                if r['outcome'] in ('timeout', 'violated', 'exception'):
                    res['violations'].append(dict(label=r['label'], detail=r.get('detail'), inputs=inputs_of(ctx, m),
                                                  known=r.get('known')))
            if r is None or r['outcome'] not in ('timeout', 'violated', 'exception'):
                res['timeouts'] += 1
            continue
        if outcome == 'violated' and known in res['known']:
            continue     # one more instance of a listed finding, already replayed
        # A candidate: replay on the unmodified code
        tried = []
        found = False
        for m in clear_models(ctx, s):
            try:
                inp = inputs_of(ctx, m)
            except core.Unsupported:
                continue
            r = REPLAYER.run(module, case.prop, case.name, params, inp)
            tried.append((inp, r['outcome'], r.get('label'), r.get('detail')))
            if r['outcome'] in ('violated', 'exception', 'timeout'):
                res['violations'].append(dict(label=r['label'], detail=r.get('detail'), inputs=inp,
                                              known=r.get('known') if r['outcome'] == 'violated' else None,
                                              symbolic_label=label))
                if r['outcome'] == 'violated' and r.get('known') in cfg.get('known', ()):
                    res['known'].append(r['known'])
                found = True
                break
        if not found:
            res['spurious'].append(dict(label=label, detail=detail, tried=[str(x) for x in tried[:2]]))
    res['pending'] = work
    res['stats'] = stats.as_dict()
    res['functions'] = sorted(CODES.seen)
    return res


def _validate(case, module, params, ctx, s, res):
    """Run one concrete instance of this path on the unmodified code and compare what was observed."""
    for m in nice_models(ctx, n=2):
        try:
            inp = inputs_of(ctx, m)
            exp = [[l, eval_obs(m, v)] for l, v in s.observed]
        except core.Unsupported:
            continue
        r = REPLAYER.run(module, case.prop, case.name, params, inp)
        if r['outcome'] == 'ok' and obs_match(exp, r['obs']):
            res['validated'] += 1
            if len(res['samples']) < 2:
                res['samples'].append(dict(case=case.name, params=params, inputs=inp, decisions=len(ctx.trace)))
            return
        if r['outcome'] in ('violated', 'exception', 'timeout'):
            # A concrete instance of a path on which every assertion was proved fails: report it,
            # it is a real execution of the real code.
            res['violations'].append(dict(label=r['label'], detail=r.get('detail'), inputs=inp, known=r.get('known'),
                                          symbolic_label='(path validation)'))
            return
        bad = (inp, r['outcome'], exp, r['obs'])
    else:
        try:
            res['mismatches'].append(str(bad)[:600])
        except NameError:
            pass
