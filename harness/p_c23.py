"""C23: error metrics and evaluations compute what their name says."""
from symx.api import case
from .common import *
from .p_c17 import make
from .p_c19 import state, same_state

BASE = 1500001200


def errors(S, name, actual, predicted):
    """One figure for each pair, from the name of the metric."""
    if name in ('MAE', 'HAE'):
        return [abs(p - a) for a, p in zip(actual, predicted)]
    if name in ('MAPE', 'HAPE'):
        return [abs((p - a) / a) for a, p in zip(actual, predicted)]
    if name in ('MALE', 'HALE'):
        return [abs(S.log(a / p)) for a, p in zip(actual, predicted)]
    return [(p - a) * (p - a) for a, p in zip(actual, predicted)]


def is_metric(S, name, got, actual, predicted):
    """Whether a figure is what the metric with that name says, for these pairs."""
    es = errors(S, name, actual, predicted)
    if name == 'RMSE':
        return S.and_(got >= 0, S.eq(got * got * len(es), sum(es), eps=1e-6))
    if name[0] == 'H':
        return S.and_(S.any([S.eq(got, e) for e in es]), S.all([S.le(e, got) for e in es]))
    return S.eq(got * len(es), sum(es))


def functions():
    from timeseria import utilities as u
    return {'MAE': u.mean_absolute_error, 'HAE': u.max_absolute_error, 'MAPE': u.mean_absolute_percentage_error,
            'HAPE': u.max_absolute_percentage_error, 'MALE': u.mean_absolute_log_error, 'HALE': u.max_absolute_log_error,
            'MSE': u.mean_squared_error}


def pairs(S, name, n, tag=''):
    """Actual values (any, but given ones where it is divided by them) and any predictions."""
    if name in ('MAPE', 'HAPE'):
        k = S.choice(tag + 'scale', [1.0, -4.0])
        return [k * (i + 1) * (1 if i % 2 else -1) for i in range(n)], S.reals(tag + 'p', n)
    if name in ('MALE', 'HALE'):
        k = S.choice(tag + 'scale', [0.5, 4.0])
        return [k * (i + 1) for i in range(n)], S.reals(tag + 'p', n, 0.001, 100)
    return S.reals(tag + 'a', n), S.reals(tag + 'p', n)


@case('C23', quick=[dict(name=m, n=n) for m in ('MAE', 'HAE', 'MAPE', 'HAPE', 'MALE', 'HALE', 'MSE') for n in (1, 2, 3)],
      thorough=[dict(name=m, n=n) for m in ('MAE', 'HAE', 'MAPE', 'HAPE', 'MALE', 'HALE', 'MSE') for n in (1, 2, 3, 4, 5)])
def metrics(S, name, n):
    f = functions()[name]
    actual, predicted = pairs(S, name, n)
    a, p = list(actual), list(predicted)
    got = f(a, p)
    S.check(S.eqd(a, actual) and S.eqd(p, predicted), 'the lists are unchanged')
    S.check(is_metric(S, name, got, actual, predicted), 'what the name says')
    S.check(S.le(0, got), 'never negative')
    equal = S.all([x == y for x, y in zip(actual, predicted)])
    S.check(S.implies(equal, S.eq(got, 0)), 'zero if equal')
    if name != 'MSE':
        S.check(S.implies(S.any([S.or_(x - y > 0.001, y - x > 0.001) for x, y in zip(actual, predicted)]), got > 0), 'zero only if equal')
    S.check(S.eq(f(list(actual), list(actual)), 0), 'zero with itself')
    for short in (predicted[:-1], predicted + [1.0]):
        S.check(S.refused(lambda: f(list(actual), list(short))) is not None, 'different lengths are refused')
        S.check(S.refused(lambda: f(list(short), list(actual))) is not None, 'different lengths are refused')


NAMES = ['MAE', 'HAE', 'MAPE', 'HAPE', 'MALE', 'HALE', 'MSE', 'RMSE']


def stub(which, w, L, offsets, shape, target=None, minimize=None):
    """A forecaster whose prediction for the item at position i is the last value seen plus a given quantity."""
    from timeseria.models.forecasters import Forecaster

    def out(values):
        return dict(values) if shape == 'dict' else ({l: [v] for l, v in values.items()} if shape == 'lists' else [dict(values)])

    class Model(Forecaster):
        @Forecaster.fit_function
        def fit(self, series, verbose=False):
            if w is not None:
                self.data['window'] = w
            if minimize:
                self.data['minimized_error_metric'] = minimize
            if which == 'context':
                self.data['target_data_labels'] = [target]
                self.data['context_data_labels'] = [l for l in L if l != target]

        if which == 'context':
            @Forecaster.predict_function
            def predict(self, series, steps=1, context_data=None):
                i = len(series)
                return out({target: series[-1].data[target] + sum(context_data[l] for l in L if l != target) + offsets[target][i]})
        else:
            @Forecaster.predict_function
            def predict(self, series, steps=1):
                i = len(series)
                return out({l: series[-1].data[l] * (1 if shape == 'list' else 0) + offsets[l][i] for l in L})
    return Model


@case('C23', quick=[dict(which=w, group=g) for w in ('plain', 'context') for g in ('AE', 'PE', 'LE', 'SE')] + [dict(which='plain', group='AE', epoch=-1200)])
def forecasts(S, which, group):
    """The evaluation of a forecaster compares each item with what is predicted from those before it."""
    L = ['b', 'a']
    target = 'a' if which == 'context' else None
    kind = S.choice('kind', ['points', 'slots'])
    w = S.choice('window', [1, 2] + ([None, 0] if which == 'plain' else []))
    n = 3
    shape = 'lists' if group == 'LE' else S.choice('shape', ['dict', 'lists', 'list'])
    if group == 'SE':
        n = 2 if w in (1, None, 0) else 3
    if group in ('PE', 'LE'):
        cols = {l: [(1.0 + j) * (i + 1) for i in range(n)] for j, l in enumerate(L)}
    else:
        cols = {l: S.reals('s' + l, n, -10, 10) for l in L}
    offsets = {l: S.reals('o' + l, n, -20 if group != 'LE' else 0.5, 20) for l in L}
    if which == 'context' and group == 'LE':
        offsets = {l: [o + 1 for o in offsets[l]] for l in L}
    s, rows = make(S, kind, 3600, n, BASE, cols, [{'data_loss': 0.25, 'x': None} for _ in range(n)])
    model = stub(which, w, L, offsets, shape, target)()
    model.fit(s)
    before, was = snap(s), state(model)
    names = {'AE': ['MAE', 'HAE'], 'PE': ['MAPE', 'HAPE'], 'LE': ['MALE', 'HALE'], 'SE': ['MSE', 'RMSE']}[group]
    punctual = {'AE': ['E'], 'PE': ['PE'], 'LE': ['LE'], 'SE': None}[group]
    series = S.choice('series', [False, True])
    out = model.evaluate(s, error_metrics=names, return_results_series=series, punctual_error_metrics=punctual)
    S.check(same_snap(S, snap(s), before), 'the series is unchanged')
    S.check(same_state(S, state(model), was), 'the model is unchanged')
    labels = [target] if target else L
    S.check(set(out) == {'%s_%s' % (l, m) for l in labels for m in names} | ({'series'} if series else set()), 'the metrics asked for')
    first = w or 0
    at = list(range(first, n))
    actual = {l: [rows[i][l] for i in at] for l in labels}

    def forecast(l, i):
        if which == 'context':
            return rows[i - 1][l] + sum(rows[i][o] for o in L if o != l) + offsets[l][i]
        return rows[i - 1][l] * (1 if shape == 'list' else 0) + offsets[l][i]

    # Where there is no window, the first item has nothing before it: what is predicted for it comes from the
    # last one (a known finding, of which the rest is checked as if it were meant)
    if first == 0 and shape == 'list':
        S.check(False, 'nothing can be predicted before the first item', known='evaluate-first-item')
    predicted = {l: [forecast(l, i) for i in at] for l in labels}
    for l in labels:
        for m in names:
            S.check(is_metric(S, m, out['%s_%s' % (l, m)], actual[l], predicted[l]), 'metric ' + m)
    if series:
        got = out['series']
        S.check(len(got) == len(at), 'an item for each prediction')
        extra = {'AE': ['pred', 'AE', 'E'], 'PE': ['pred', 'APE', 'PE'], 'LE': ['pred', 'ALE', 'LE'], 'SE': ['pred']}[group]
        for j, i in enumerate(at):
            o = got[j]
            S.check(S.eq(o.start.t if kind == 'slots' else o.t, before[i][0]), 'same time')
            S.check(S.eqd(dict(o.data_indexes), before[i][3]), 'same indexes')
            S.check(set(o.data) == set(L) | {'%s_%s' % (l, k) for l in labels for k in extra}, 'the details')
            for l in L:
                S.check(S.eq(o.data[l], rows[i][l]), 'same values')
            for l in labels:
                a, p = actual[l][j], predicted[l][j]
                what = {'pred': p, 'AE': abs(a - p), 'E': a - p}
                if group == 'PE':
                    what.update(APE=abs((a - p) / a), PE=(a - p) / a)
                if group == 'LE':
                    what.update(ALE=abs(S.log(a / p)), LE=S.log(a / p))
                for k in extra:
                    S.check(S.eq(o.data['%s_%s' % (l, k)], what[k]), 'detail ' + k)


@case('C23', quick=[dict()])
def asked(S):
    """What metrics are computed if not said, and what is refused."""
    L = ['a']
    minimize = S.choice('minimize', [None, 'MAE', 'HAPE'])
    s, rows = make(S, 'points', 3600, 2, BASE, {'a': [2.0, 4.0]}, None)
    p = S.real('o')
    model = stub('plain', 1, L, {'a': [0, p]}, 'dict', minimize=minimize)()
    model.fit(s)
    out = model.evaluate(s)
    names = ['RMSE', 'MAE'] if minimize is None else [minimize]
    S.check(set(out) == {'a_' + m for m in names}, 'the metrics')
    for m in names:
        if m != 'RMSE':
            S.check(is_metric(S, m, out['a_' + m], [4.0], [p]), 'metric ' + m)
        else:
            S.check(S.eq(out['a_RMSE'], abs(p - 4.0), eps=1e-6), 'metric RMSE')
    for kw in (dict(error_metrics=['MAE', 'WHAT']), dict(punctual_error_metrics=['MAE']), dict(steps=2)):
        S.check(S.refused(lambda: model.evaluate(s, **kw)) is not None, 'refused')
    S.check(S.refused(lambda: model.evaluate(ts().TimeSeries())) is not None, 'an empty series is refused')


@case('C23', quick=[dict(w=w, metric=m) for w in (1, 2) for m in ('MAE', 'MAPE')] + [dict(w=1, metric='MAE', epoch=-1200)] + [dict(w=1, metric='RMSE')],
      covers=('limited', 'lost skipped', 'more steps'))
def reconstructions(S, w, metric):
    """The evaluation of a reconstructor compares what is there with what would be put in its place."""
    from timeseria.models.reconstructors import Reconstructor
    kind = S.choice('kind', ['points', 'slots'])
    n = 2 * w + 3
    values = [2.0, -4.0, 8.0, 16.0, -5.0, 10.0, 32.0][:n] if metric == 'MAPE' else S.reals('s', n, -10, 10)
    steps = S.choice('steps', [[1], [2], [1, 2], 2, 'auto']) if metric != 'RMSE' else [1]
    rounds = {'auto': [1, 2]}.get(steps if isinstance(steps, str) else None) or (steps if isinstance(steps, list) else list(range(1, steps + 1)))
    off = {r: {} for r in (1, 2)}
    asked = []
    shape = S.choice('shape', ['lists', 'list'])

    class Model(Reconstructor):
        window = w

        @Reconstructor.fit_function
        def fit(self, series, verbose=False):
            self.data['window'] = w
            self.data['periodicity'] = 2

        @Reconstructor.predict_function
        def predict(self, series, from_i, to_i):
            asked.append((from_i, to_i))
            out = [series[from_i - 1].data['a'] * 0.5 + S.real('o%d_%d_%d' % (from_i, to_i, i), -20, 20) for i in range(from_i, to_i + 1)]
            off[to_i - from_i + 1][from_i] = out
            return {'a': out} if shape == 'lists' else [{'a': x} for x in out]

    limit = S.choice('limit', [None, 1]) if metric != 'RMSE' else 1
    lost = S.choice('lost', [None, 0, n - 1, n - 2, w]) if metric != 'RMSE' else None
    level = S.choice('level', [1.0, 0.5])
    s, rows = make(S, kind, 3600, n, BASE, {'a': values}, [{'data_loss': level if i == lost else (0.25 if i % 2 else None)} for i in range(n)])
    model = Model()
    model.fit(s)
    before, was = snap(s), state(model)
    details = S.choice('details', [False, True])

    def good(i, r, last):
        span = range(i - w, i + r + w)
        return i - w >= 0 and i + r + w <= n - last and lost not in span

    places = {}
    for last in (0, 1):
        # (whether or not the last place where it would be possible is used)
        places[last] = {r: [i for i in range(n) if good(i, r, last)][:limit] for r in rounds}
    if any(not places[1][r] for r in rounds):
        S.check(S.refused(lambda: model.evaluate(s, steps=steps, limit=limit, data_loss_threshold=level, metrics=[metric])) is not None
                or all(places[0][r] for r in rounds), 'refused with nothing to evaluate on')
        return
    out = model.evaluate(s, steps=steps, limit=limit, data_loss_threshold=level, metrics=[metric], details=details)
    S.check(same_snap(S, snap(s), before), 'the series is unchanged')
    S.check(same_state(S, state(model), was), 'the model is unchanged')
    used = {r: sorted(i for i, j in asked if j - i + 1 == r) for r in rounds}
    S.check(used in (places[0], places[1]), 'evaluated where there is something to compare with')
    each = []
    for r in rounds:
        actual = [values[j] for i in used[r] for j in range(i, i + r)]
        predicted = [p for i in used[r] for p in off[r][i]]
        each.append((r, actual, predicted))
    keys = {metric} | ({'%s_%d_steps' % (metric, r) for r in rounds} if details else set())
    S.check(set(out) == keys, 'the metrics asked for')
    if len(each) == 1:
        S.check(is_metric(S, metric, out[metric], each[0][1], each[0][2]), 'the metric')
    else:
        S.check(S.eq(out[metric] * len(each), sum(sum(errors(S, metric, a, p)) / len(a) for r, a, p in each)), 'the average of the rounds')
        S.cover('more steps')
    if details:
        for r, a, p in each:
            S.check(is_metric(S, metric, out['%s_%d_steps' % (metric, r)], a, p), 'the metric of the round')
    if limit:
        S.cover('limited')
    if lost is not None:
        S.cover('lost skipped')
