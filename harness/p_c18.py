"""C18: forecasters."""
from symx.api import case
from .common import *
from .p_c17 import make

BASE = 1500001200

UNITS = [1, 0.25, 900, 3600]


def check_past(S, label, before, series, flags=True):
    after = snap(series)
    S.check(len(after) >= len(before), label + ': no item is lost')
    for b, a in zip(before, after):
        S.check(S.eq(b[0], a[0]) if b[1] is None else S.and_(S.eq(b[0], a[0]), S.eq(b[1], a[1])), label + ': past timestamps')
        S.check(S.eqd(b[2], a[2]), label + ': past values')
        ix, ib = dict(a[3]), dict(b[3])
        if flags:
            S.check(ix.pop('forecast', None) == 0, label + ': past items are not flagged as forecast')
            ib.pop('forecast', None)
        S.check(S.eqd(ix, ib), label + ': past indexes')


def check_new(S, label, kind, unit, before, series, steps, values, L, zone):
    after = snap(series)
    S.check(len(after) == len(before) + steps, label + ': exactly the requested number of items')
    for k in range(steps):
        a = after[len(before) + k]
        if kind == 'points':
            S.check(S.eq(a[0], before[-1][0] + (k + 1) * unit), label + ': at the resolution of the series')
        else:
            S.check(S.and_(S.eq(a[0], before[-1][1] + k * unit), S.eq(a[1], before[-1][1] + (k + 1) * unit)),
                    label + ': contiguous and at the resolution of the series')
        S.check(set(a[2]) == set(L), label + ': same labels')
        S.check(a[3].get('forecast') == 1, label + ': flagged as forecast')
        S.check(type(series[len(before) + k]) is type(series[0]), label + ': same type of items')
        S.check(str(series[len(before) + k].tz) == zone, label + ': same timezone')
        if values is not None:
            S.check(S.eqd(a[2], values[k]), label + ': the predicted values')


def indexes(S, n):
    return [S.choice('index%d' % i, [None, {'data_loss': 0.5}]) if i == 0 else {'data_loss': S.real('loss%d' % i, 0, 1), 'x': 0.5}
            for i in range(n)]


@case('C18', quick=[dict(form=f, kind=k) for f in ('list', 'single', 'single list') for k in ('points', 'slots')])
def generic(S, form, kind):
    """Any forecaster model, predicting all the steps or only one at a time."""
    from timeseria.models.forecasters import Forecaster
    n = 3
    unit = S.choice('unit', UNITS)
    steps = S.choice('steps', [1, 2, 3])
    L = ['b', 'a']
    pred = [{l: S.real('p%s%d' % (l, k)) for l in L} for k in range(steps)]
    seen = []

    class Mine(Forecaster):
        @Forecaster.predict_function
        def predict(self, series, steps=1):
            seen.append(len(series))
            k = len(series) - n
            if form == 'list':
                return [dict(x) for x in pred[k:k + steps]]
            if steps > 1:
                raise NotImplementedError('one at a time')
            return dict(pred[k])

    class All(Forecaster):
        @Forecaster.predict_function
        def predict(self, series, steps=1):
            return [dict(x) for x in pred[:steps]] if steps > 1 else dict(pred[0])

    tz = S.choice('tz', ['UTC', 'Europe/Rome'])
    cols = {l: S.reals(l, n) for l in L}
    s, rows = make(S, kind, unit, n, S.choice('t0', [-unit, BASE]), cols, indexes(S, n), tz=tz)
    before = snap(s)
    model = (All if form == 'single list' else Mine)()
    f = model.forecast(s, steps=1)
    S.check(same_snap(S, snap(s), before), 'forecasting only leaves the series untouched')
    f = f[0] if isinstance(f, list) else f
    S.check(S.eqd(f.data, pred[0]), 'the forecast holds the prediction')
    S.check(S.eq(f.start.t if kind == 'slots' else f.t, before[-1][1] if kind == 'slots' else before[-1][0] + unit),
            'the forecast is right after the series')
    inplace = S.choice('inplace', [False, True])
    r = model.apply(s, steps=steps, inplace=inplace)
    if inplace:
        S.check(r is None, 'in-place returns nothing')
        r = s
    else:
        S.check(same_snap(S, snap(s), before), 'the input is untouched')
    check_past(S, 'generic', before, r)
    check_new(S, 'generic', kind, unit, before, r, steps, pred, L, tz)
    S.check(str(r.resolution) == str(s.resolution), 'same resolution')
    # On top of the forecast
    if steps == 1:
        again = snap(r)
        model2 = All()
        q = model2.apply(r, steps=1, inplace=inplace)
        q = r if inplace else q
        check_past(S, 'again', again, q)
        check_new(S, 'again', kind, unit, again, q, 1, pred, L, tz)


@case('C18', quick=[dict(kind=k) for k in ('points', 'slots')] + [dict(kind='points', epoch=-7200)])
def context(S, kind):
    """Forecasters of some labels only, the others being given as context: the context goes in the forecast items as well."""
    from timeseria.models.forecasters import Forecaster
    n = 3
    unit = S.choice('unit', UNITS)
    steps = S.choice('steps', [1, 2])
    L = ['b', 'a', 'c']
    pred = [S.real('p%d' % k) for k in range(steps)]
    given = {'b': S.real('given b'), 'a': S.real('given a')}
    seen = []

    class Mine(Forecaster):
        @Forecaster.fit_function
        def fit(self, series):
            self.data['target_data_labels'] = ['c']
            self.data['context_data_labels'] = ['b', 'a']

        @Forecaster.predict_function
        def predict(self, series, steps=1, context_data=None):
            if steps > 1:
                raise NotImplementedError('one at a time')
            seen.append((len(series), dict(context_data)))
            return dict({'a': 10 + len(seen)} if other else {}, c=pred[len(series) - n])

    other = S.choice('predicts', ['the target', 'one of the context too']) != 'the target'
    cols = {l: S.reals(l, n) for l in L}
    s, rows = make(S, kind, unit, n, BASE, cols, indexes(S, n), tz='Europe/Rome')
    before = snap(s)
    inplace = S.choice('inplace', [False, True])
    model = Mine()
    model.fit(s)
    ctx = S.choice('context', ['given', 'none', 'empty'])
    if ctx != 'given':
        kw = dict(context_data={}) if ctx == 'empty' else {}
        S.check(S.refused(lambda: model.apply(s, steps=steps, inplace=inplace, **kw)) is not None, 'refused without context')
        S.check(S.refused(lambda: model.forecast(s, **kw)) is not None, 'forecasting refused without context')
        S.check(same_snap(S, snap(s), before), 'refused without effect')
        return
    f = model.forecast(s, steps=1, context_data=given)
    S.check(S.eqd(f.data, dict(given, c=pred[0])), 'the forecast holds the prediction and the context')
    S.check(same_snap(S, snap(s), before), 'forecasting only leaves the series untouched')
    del seen[:]
    r = model.apply(s, steps=steps, inplace=inplace, context_data=given)
    r = s if inplace else r
    if not inplace:
        S.check(same_snap(S, snap(s), before), 'the input is untouched')
    check_past(S, 'context', before, r)
    check_new(S, 'context', kind, unit, before, r, steps, [dict(given, c=pred[k]) for k in range(steps)], L, 'Europe/Rome')
    S.check([x[0] for x in seen] == [n + k for k in range(steps)], 'each prediction follows the previous one')
    S.check(S.all(S.eqd(x[1], given) for x in seen), 'the model is given the context')
    S.check(sorted(given) == ['a', 'b'], 'the context is left as it was')


@case('C18', quick=[dict(unit=u, tz=z) for u in ('1D', '1M') for z in ('UTC', 'Europe/Rome')],
      thorough=[dict(unit=u, tz=z) for u in ('1D', '1W', '1M', '1Y') for z in ('UTC', 'Europe/Rome', 'America/New_York')])
def calendar(S, unit, tz):
    """Slots of calendar units: each forecast starts where the previous ends, also when they change length."""
    from timeseria.models.forecasters import Forecaster
    from timeseria.units import TimeUnit
    from propertime.utils import dt
    d = ts()

    class Mine(Forecaster):
        @Forecaster.predict_function
        def predict(self, series, steps=1):
            return [{'a': pred[k]} for k in range(steps)]

    year, month, day = S.choice('start', [(2019, 3, 29), (2019, 10, 25), (2020, 2, 27), (2019, 12, 30)])
    if unit in ('1M', '1Y'):
        day = 1
    if unit == '1Y':
        month = 1
    steps = S.choice('steps', [1, 3])
    pred = S.reals('p', steps)
    u = TimeUnit(unit)
    s = d.TimeSeries()
    p = d.TimePoint(dt=dt(year, month, day, tz=tz))
    for i in range(2):
        s.append(d.DataTimeSlot(start=p, unit=u, data={'a': S.real('a%d' % i)}))
        p = p + u
    before = snap(s)
    r = Mine().apply(s, steps=steps)
    S.check(same_snap(S, snap(s), before), 'the input is untouched')
    check_past(S, 'calendar', before, r)
    S.check(len(r) == 2 + steps, 'calendar: exactly the requested number of items')
    for k in range(steps):
        x = r[2 + k]
        q = p + u
        S.check(S.and_(S.eq(x.start.t, p.t), S.eq(x.end.t, q.t)), 'calendar: each slot is the next unit')
        S.check(S.eq(x.data['a'], pred[k]) and x.data_indexes['forecast'] == 1, 'calendar: values')
        p = q
    S.check(str(r.tz) == tz and r.resolution == u, 'calendar: timezone and resolution')


@case('C18', quick=[dict(kind=k, p=p, w=w) for k in ('points', 'slots') for p in (2, 3) for w in ('auto', 2)] + [dict(kind='points', p=3, w='auto', epoch=-7200), dict(kind='slots', p=2, w=2, epoch=-7200)],
      thorough=[dict(kind=k, p=p, w=w) for k in ('points', 'slots') for p in (1, 2, 3, 4, 5) for w in ('auto', 1, 2, 5)] + [dict(kind='points', p=3, w='auto', epoch=-7200), dict(kind='slots', p=2, w=2, epoch=-7200)])
def periodic(S, kind, p, w):
    """A periodic signal of any shape, forecast from any phase and level, after a context of any length."""
    from timeseria.models.forecasters import PeriodicAverageForecaster
    unit = S.choice('unit', [900, 3600])
    base = BASE
    L = ['b', 'a']
    v = {l: S.reals('v' + l, p) for l in L}
    nf = 2 * p + 1
    junk = S.choice('missing in the fit', [None, p])
    cols = {l: [S.real('junk' + l, -1000, 1000) if i == junk else v[l][i % p] for i in range(nf)] for l in L}
    tz = S.choice('tz', ['UTC', 'Europe/Rome'])
    limit = S.choice('limit', ['default', 0.5]) if w == 'auto' else (0 if kind == 'slots' else 'default')
    high, low = {'default': (1, 0.5), 0.5: (0.5, 0.25), 0: (0, None)}[limit]
    fit, _ = make(S, kind, unit, nf, base, cols, tz=tz, indexes=[{'data_loss': high if i == junk else (None if i == 0 else low)} for i in range(nf)])
    fb = snap(fit)
    model = PeriodicAverageForecaster(window=w) if w != 'auto' else PeriodicAverageForecaster()
    if kind == 'slots':
        # Nothing remains of a previous fit
        other, _ = make(S, kind, 60, 7, base, {l: [1.0, 5.0, -3.0, 2.0, 0.0, 9.0, 4.0] for l in ('a', 'b', 'c')}, None)
        model.fit(other, periodicity=p + 1)
    model.fit(fit, periodicity=p, dst_affected=S.choice('dst', [False, True]), **({} if limit == 'default' else dict(data_loss_limit=limit)))
    S.check(same_snap(S, snap(fit), fb), 'fitting leaves the series untouched')
    win = p if w == 'auto' else w
    S.check(model.window == win, 'the window')
    n = max(win + S.choice('longer', [0, 1, 2]), 1)
    first = S.choice('first', [0, 1, -1, 5 * p - 1])
    level = {l: S.real('level' + l, -50, 50) for l in L}
    x = {l: [v[l][(i + first) % p] + level[l] for i in range(n)] for l in L}
    s, rows = make(S, kind, unit, n, base + first * unit, x, [{'data_loss': 0}] * n, tz=tz)
    before = snap(s)
    steps = S.choice('steps', [1, p + 1])
    want = [{l: v[l][(n + k + first) % p] + level[l] for l in L} for k in range(steps)]
    got = model.predict(s, steps=steps)
    S.check(len(got) == steps and S.all(S.eqd(g, x) for g, x in zip(got, want)), 'the signal is continued by the prediction')
    r = model.apply(s, steps=steps)
    S.check(same_snap(S, snap(s), before), 'the input is untouched')
    check_past(S, 'periodic', before, r)
    check_new(S, 'periodic', kind, unit, before, r, steps, want, L, tz)
    S.check(model.apply(s, steps=steps, inplace=True) is None, 'in-place returns nothing')
    S.check(same_snap(S, snap(s), snap(r)), 'in-place gives the same')


@case('C18', quick=[dict(kind=k) for k in ('points', 'slots')])
def automatic(S, kind):
    """Periodicities detected for each label on its own (the detection itself being given)."""
    from timeseria.models import forecasters
    unit = 3600
    base = BASE
    periods = {'b': S.choice('pb', [2, 3]), 'a': S.choice('pa', [2, 3])}
    v = {l: S.reals('v' + l, periods[l]) for l in periods}
    N = 8
    fit, _ = make(S, kind, unit, N, base, {l: [v[l][i % periods[l]] for i in range(N)] for l in periods}, None)
    real = forecasters.detect_periodicity
    forecasters.detect_periodicity = lambda series: periods[series.data_labels()[0]]
    try:
        model = forecasters.PeriodicAverageForecaster()
        model.fit(fit)
    finally:
        forecasters.detect_periodicity = real
    S.check(model.window == max(periods.values()), 'the longest window')
    first = S.choice('first', [0, 1, 4])
    n = 4
    level = {l: S.real('level' + l, -50, 50) for l in periods}
    s, rows = make(S, kind, unit, n, base + first * unit, {l: [v[l][(i + first) % periods[l]] + level[l] for i in range(n)] for l in periods}, None)
    before = snap(s)
    want = [{l: v[l][(n + k + first) % periods[l]] + level[l] for l in periods} for k in range(3)]
    r = model.apply(s, steps=3)
    check_past(S, 'automatic', before, r)
    check_new(S, 'automatic', kind, unit, before, r, 3, want, ['a', 'b'], 'UTC')


@case('C18', quick=[dict(kind=k) for k in ('points', 'slots')])
def refusals(S, kind):
    """Not enough data for the window, or not all the forecasts: refused leaving everything as it was."""
    from timeseria.models.forecasters import PeriodicAverageForecaster, Forecaster
    unit = 3600
    base = BASE
    n = S.choice('n', [2, 3])
    steps = S.choice('steps', [1, 2, 3])
    s, rows = make(S, kind, unit, n, base, {'a': S.reals('a', n)}, indexes(S, n))
    before = snap(s)
    inplace = S.choice('inplace', [False, True])
    which = S.choice('model', ['short', 'missing', 'midway'])
    if which == 'short':
        fit, _ = make(S, kind, unit, 8, base, {'a': S.reals('f', 8)}, None)
        model = PeriodicAverageForecaster()
        model.fit(fit, periodicity=4)
    else:
        class Mine(Forecaster):
            @Forecaster.predict_function
            def predict(self, series, steps=1):
                if which == 'missing':
                    return [{'a': 1}] * (steps - 1) if steps > 1 else [{'a': 1}] * 2
                if steps > 1:
                    raise NotImplementedError()
                if steps0 == 1 or len(series) > n:
                    raise ValueError('no more')
                return {'a': 1}
        model = Mine()
    steps0 = steps
    e = S.refused(lambda: model.apply(s, steps=steps, inplace=inplace))
    S.check(e is not None, 'refused')
    S.check(same_snap(S, snap(s), before), 'the series is left as it was')
