"""C28: cross-validation."""
from symx.api import case
from .common import *
from .p_c17 import make
from .p_c19 import state

BASE = 1500001200


def recorder(S, log, metrics, window=None, update='no', shape='figures'):
    """A model which notes what it is fitted and evaluated on."""
    from timeseria.models.base import Model

    class Recorder(Model):
        @Model.fit_function
        def fit(self, series, alpha=None, verbose=False):
            log.append(('fit', [x for x in series], alpha))
            if window:
                self.data['window'] = window

        @Model.predict_function
        def predict(self, series):
            return {'a': 1}

        @Model.evaluate_function
        def evaluate(self, series, beta=None):
            log.append(('evaluate', [x for x in series], beta))
            k = sum(1 for x in log if x[0] == 'evaluate') - 1
            return {m: metrics[m][k] for m in (list(metrics) if k % 2 == 0 else list(reversed(list(metrics))))}

        @property
        def window(self):
            if not window:
                raise AttributeError('window')
            return window

        if update == 'yes':
            def fit_update(self, series, alpha=None, verbose=False):
                log.append(('update', [x for x in series], alpha))
        elif update == 'refused':
            def fit_update(self, series, alpha=None, verbose=False):
                raise NotImplementedError('Not for this model')
    return Recorder


def ids(items):
    return [id(x) for x in items]


@case('C28', quick=[dict(n=n) for n in (2, 3, 4, 5, 7)] + [dict(n=25)] + [dict(n=4, epoch=-1200)], thorough=[dict(n=n) for n in range(2, 14)] + [dict(n=25)] + [dict(n=4, epoch=-1200)])
def rounds(S, n):
    """Any number of items and rounds: what is held out, what is fitted, and what figures come out."""
    k = S.choice('rounds', range(2, n + 1))
    kind = S.choice('kind', ['points', 'slots'])
    window = S.choice('window', [None, 2])
    update = S.choice('update', ['no', 'yes', 'refused'])
    s, rows = make(S, kind, 3600, n, BASE, {'a': S.reals('a', n), 'b': S.reals('b', n)}, [{'data_loss': S.real('l', 0, 1)}] * n)
    log = []
    figures = {'RMSE': S.reals('r', k, 0, 10), 'MAE': S.reals('m', k, 0, 10)}
    model = recorder(S, log, figures, window, update)()
    ident, before, items = model.data['id'], snap(s), ids(s)
    out = model.cross_validate(s, rounds=k, fit_alpha=0.5, evaluate_beta='x')
    S.check(same_snap(S, snap(s), before) and ids(s) == items, 'the series is unchanged')
    evaluated = [x for x in log if x[0] == 'evaluate']
    S.check(len(evaluated) == k, 'one evaluation for each round')
    held = [i for e in evaluated for i in ids(e[1])]
    S.check(sorted(held) == sorted(items), 'every item is held out exactly once')
    S.check(all(len(e[1]) for e in evaluated), 'something is held out in every round')
    # What each round was fitted on: all that comes before its evaluation and after the one before
    fitted = []
    for x in log:
        S.check(x[2] == ('x' if x[0] == 'evaluate' else 0.5), 'the parameters are forwarded')
        if x[0] == 'evaluate':
            S.check(len(fitted) > 0 and fitted[0][0] == 'fit', 'fitted in every round')
            S.check(all(f[0] == 'update' for f in fitted[1:]), 'fitted from scratch once')
            train = [i for f in fitted for i in ids(f[1])]
            S.check(len(train) > 0, 'fitted on something')
            S.check(not set(train) & set(ids(x[1])), 'never on what it is evaluated on')
            S.check(set(train) <= set(items) and len(set(train)) == len(train), 'on items of the series, each once')
            a = items.index(id(x[1][0]))
            b = n - a - len(x[1])
            S.check(len(fitted[0][1]) == max(a, b), 'first on the larger side')
            S.check(len(train) == a + b or update != 'yes' or (window and min(a, b) < window), 'on all the rest, if it can be updated')
            S.check(all(ids(f[1]) == [i for i in items if i in ids(f[1])] for f in fitted + [x]), 'in order')
            fitted = []
        else:
            fitted.append(x)
    S.check(not fitted, 'nothing fitted after the last evaluation')
    S.check(set(out) == {m + e for m in figures for e in ('_avg', '_stdev')}, 'the figures')
    for m in figures:
        S.check(S.eq(out[m + '_avg'] * k, sum(figures[m])), 'the mean of the rounds')
        S.check(S.eq(out[m + '_stdev'], S.stdev(figures[m])), 'the standard deviation of the rounds')
    S.check(not model.fitted and model.data['id'] == ident, 'the model is not fitted, and still itself')
    S.check(S.refused(lambda: model.predict(s)) is not None, 'the model cannot predict')
    S.check(S.refused(lambda: model.evaluate(s)) is not None, 'the model cannot be evaluated')
    model.fit(s, alpha=0.5)
    S.check(model.fitted and ids(log[-1][1]) == items, 'the model can be fitted')


@case('C28', quick=[dict(n=4)], thorough=[dict(n=4), dict(n=6)])
def spread(S, n):
    """The standard deviation, by its definition."""
    k = S.choice('rounds', [2, 3] if n < 6 else [2, 3, 4])
    s, _ = make(S, 'points', 3600, n, BASE, {'a': S.reals('a', n)}, None)
    log = []
    base = [1.0, 4.0, 2.0, 8.0][:k]
    scale, off = S.real('scale', 0, 10), S.real('off', -10, 10)
    out = recorder(S, log, {'M': [scale * b + off for b in base]})().cross_validate(s, rounds=k)
    mean = sum(base) / k
    var = sum((b - mean) ** 2 for b in base) / (k - 1)
    S.check(S.eq(out['M_avg'], scale * mean + off), 'the mean')
    S.check(out['M_stdev'] >= 0, 'not negative')
    S.check(S.implies(scale > 0.001, out['M_stdev'] > 0), 'zero only if all the rounds agree')
    S.check(S.le(out['M_stdev'], scale * (max(base) - min(base))), 'within their range')


@case('C28', quick=[dict()])
def refused(S):
    """What cannot be cross-validated is refused, and leaves the model as it was."""
    n = S.choice('n', [1, 2, 3])
    why = S.choice('why', ['more rounds', 'one round', 'no rounds', 'fitted', 'unknown', 'empty', 'not a series', 'other figures'])
    s, _ = make(S, 'points', 3600, n, BASE, {'a': S.reals('a', n)}, None)
    log = []
    model = recorder(S, log, {'M': S.reals('m', 4)})()
    kw = dict(rounds=2)
    on = s
    if why == 'more rounds':
        kw['rounds'] = n + S.choice('more', [1, 2, 10])
    elif why == 'one round':
        kw['rounds'] = 1
    elif why == 'no rounds':
        kw['rounds'] = S.choice('less', [0, -1])
    elif why == 'fitted':
        model.fit(s)
    elif why == 'unknown':
        kw[S.choice('name', ['alpha', 'fitalpha', 'xfit_alpha', 'beta', 'xevaluate_beta'])] = 1
    elif why == 'empty':
        on = ts().TimeSeries()
    elif why == 'not a series':
        on = [x for x in s]
    else:
        answers = iter([{'M': 1.0, 'N': 2.0}, {'M': 1.0}, {'M': 1.0}])
        model.evaluate = lambda series: next(answers)
        if n < 2:
            return
    was, before, steps = state(model), snap(s), len(log)
    S.check(S.refused(lambda: model.cross_validate(on, **kw)) is not None, 'refused')
    S.check(same_snap(S, snap(s), before), 'the series is unchanged')
    if why != 'other figures':
        S.check(state(model) == was, 'the model is unchanged')
        S.check(len(log) == steps, 'nothing was fitted nor evaluated')


@case('C28', quick=[dict(which=w) for w in ('forecaster', 'reconstructor')])
def models(S, which):
    """The figures of actual models are those of fitting and evaluating them by hand on the very same parts."""
    from timeseria.models import PeriodicAverageForecaster, PeriodicAverageReconstructor
    kind = S.choice('kind', ['points', 'slots'])
    k = S.choice('rounds', [2, 3])
    n = 9 if which == 'forecaster' else 14
    if which == 'forecaster':
        cls, fit, ev = PeriodicAverageForecaster, dict(periodicity=2), dict(error_metrics=['MAE'])
    else:
        cls, fit, ev = PeriodicAverageReconstructor, dict(periodicity=2), dict(metrics=['MAE'], steps=[1])
    s, rows = make(S, kind, 3600, n, BASE, {'a': S.reals('a', n, 0, 10)}, [{'data_loss': 0.0}] * n)
    parts = []

    class Watched(cls):
        def fit(self, series, **kw):
            parts.append([series.duplicate(), None])
            return super().fit(series, **kw)

        def evaluate(self, series, **kw):
            parts[-1][1] = series.duplicate()
            return super().evaluate(series, **kw)
    before = snap(s)
    model = Watched()
    parts.clear()
    kw = {'fit_' + x: fit[x] for x in fit}
    kw.update({'evaluate_' + x: ev[x] for x in ev})
    out = model.cross_validate(s, rounds=k, **kw)
    S.check(same_snap(S, snap(s), before), 'the series is unchanged')
    S.check(not model.fitted, 'the model is not fitted')
    parts = [p for p in parts if p[1] is not None]
    S.check(len(parts) == k, 'one evaluation for each round')
    S.check(sorted(x.t for _, e in parts for x in e) == [b[0] for b in before], 'every item is held out exactly once')
    by_hand = []
    for train, held in parts:
        S.check(not {x.t for x in train} & {x.t for x in held}, 'never on what it is evaluated on')
        m = cls()
        m.fit(plain(S, train, kind), **fit)
        by_hand.append(m.evaluate(plain(S, held, kind), **ev))
    S.check(all(set(b) == set(by_hand[0]) for b in by_hand), 'the same figures')
    S.check(set(out) == {m + e for m in by_hand[0] for e in ('_avg', '_stdev')}, 'the figures of the rounds')
    for m in by_hand[0]:
        S.check(S.eq(out[m + '_avg'] * k, sum(b[m] for b in by_hand)), 'the mean of the rounds')
        S.check(S.eq(out[m + '_stdev'], S.stdev([b[m] for b in by_hand])), 'the standard deviation of the rounds')


def plain(S, part, kind):
    """A series of its own with the same items."""
    t = [x.start.t if kind == 'slots' else x.t for x in part]
    rows = [dict(x.data) for x in part]
    ix = [dict(x.data_indexes) for x in part]
    if kind == 'points':
        return point_series(S, t, rows, indexes=ix)
    return slot_series(S, t[0], 3600, rows, indexes=ix)
