"""C34: models on external engines, by what is asked to the engines and what is done of what they answer."""
import datetime
import sys
import types

from symx.api import case
from .common import *
from .p_c19 import state, same_state, same


class engines:
    """The engines stand for themselves: they record what they are given and answer anything."""

    def __init__(self, S):
        self.S = S
        self.fits, self.asked, self.options, self.by = [], [], [], []
        self.answers = {}
        me = self

        class Prophet:
            def __init__(self, **kw):
                pass

            def fit(self, df, **kw):
                S.check(list(df.columns) == ['ds', 'y'], 'a column for the times and one for the values')
                S.check(not hasattr(self, 'number'), 'an engine is fitted once')
                self.number = len(me.fits)
                me.fits.append([(naive(d), y) for d, y in zip(df['ds'], df['y'])])
                return self

            def predict(self, df):
                from pandas import DataFrame
                when = [naive(d) for d in df['ds']]
                me.asked.append(when)
                me.by.append(self.number)
                return DataFrame({'ds': when, 'yhat_lower': [0] * len(when), 'yhat': [me.answer(d) for d in when]}, dtype=object)

        class Arima:
            def __init__(self, data, order=None, **kw):
                self.number = len(me.fits)
                me.fits.append(list(data))
                me.options.append(order)

            def fit(self, **kw):
                return self

            def summary(self):
                pass

            def forecast(self, steps=1, **kw):
                me.by.append(self.number)
                return me.ahead(steps)

            predict = forecast

        def auto_arima(data, **kw):
            a = Arima(data)
            me.options[-1] = kw
            return a

        self.modules = {'prophet': types.SimpleNamespace(Prophet=Prophet), 'pmdarima': types.SimpleNamespace(auto_arima=auto_arima),
                        'statsmodels.tsa.arima.model': types.SimpleNamespace(ARIMA=Arima)}

    def answer(self, when):
        if when not in self.answers:
            self.answers[when] = self.S.real('y%d' % len(self.answers))
        return self.answers[when]

    def ahead(self, steps):
        return [self.answer(i) for i in range(steps)]

    def __enter__(self):
        self.old = {k: sys.modules.get(k) for k in self.modules}
        sys.modules.update(self.modules)
        return self

    def __exit__(self, *a):
        for k, m in self.old.items():
            if m is None:
                del sys.modules[k]
            else:
                sys.modules[k] = m


def naive(d):
    d = d.to_pydatetime() if hasattr(d, 'to_pydatetime') else d
    return datetime.datetime(d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond) if d.tzinfo is None else 'with a time zone'


def wall(t, tz):
    import pytz
    return datetime.datetime.fromtimestamp(t, pytz.timezone(tz)).replace(tzinfo=None)


# unit, zone and starts of the items, around a change where there is one, and of the three next ones
GRIDS = {'hours': ('1h', 'Europe/Rome', [1572130800 + 3600 * i for i in range(7)]), 'utc': ('10m', 'UTC', [1500001200 + 600 * i for i in range(7)]),
         'west': ('1h', 'America/New_York', [1552190400 + 3600 * i for i in range(7)]), 'half': ('15m', 'Asia/Kolkata', [1500001200 + 900 * i for i in range(7)]),
         'days': ('1D', 'Europe/Rome', [1553814000, 1553900400, 1553986800, 1554069600, 1554156000, 1554242400, 1554328800])}


def build(S, grid, kind, n=4, label='a', losses=None, as_list=False):
    d = ts()
    from timeseria.units import TimeUnit
    unit, tz, starts = GRIDS[grid]
    values = [S.real('v%d' % i) for i in range(n)]
    s = d.TimeSeries()
    for i in range(n):
        x = [values[i]] if as_list else {label: values[i]}
        kw = {} if losses is None else {'data_loss': losses[i]}
        if kind == 'slot':
            s.append(d.DataTimeSlot(start=d.TimePoint(t=starts[i], tz=tz), unit=TimeUnit(unit), data=x, **kw))
        else:
            s.append(d.DataTimePoint(t=starts[i], tz=tz, data=x, **kw))
    return s, values, tz, starts


def pick(S):
    grid = S.choice('grid', list(GRIDS))
    return grid, 'slot' if grid == 'days' else S.choice('kind', ['point', 'slot'])


@case('C34', quick=[dict(steps=1), dict(steps=3)])
def prophet_forecaster(S, steps):
    """Fitted on every item at its local time, and asked for the next ones."""
    from timeseria.models.forecasters import ProphetForecaster
    with engines(S) as e:
        grid, kind = pick(S)
        s, values, tz, starts = build(S, grid, kind)
        before = snap(s)
        m = ProphetForecaster()
        m.fit(s)
        got = e.fits[0]
        S.check(len(e.fits) == 1 and len(got) == 4, 'fitted on all of the items')
        S.check(all(g[0] == wall(t, tz) for g, t in zip(got, starts)), 'at their local times')
        S.check(S.eqs([g[1] for g in got], values), 'with their values')
        n = S.choice('on', [4, 3])
        q = s[0:n]
        want = [wall(t, tz) for t in starts[n:n + steps]]
        p = m.predict(q, steps=steps)
        S.check(e.asked[-1] == want, 'asked for the local times of the next items')
        p = p if isinstance(p, list) else [p]
        S.check(len(p) == steps and all(S.eqd(x, {'a': e.answer(w)}) is True or S.eqd(x, {'a': e.answer(w)}) for x, w in zip(p, want)), 'the forecasts are the answers, in order')
        r = m.apply(q, steps=steps)
        S.check(len(r) == n + steps, 'as many new items as asked for')
        for i in range(steps):
            x = snap(r)[n + i]
            S.check(S.eq(x[0], starts[n + i]), 'at the next times')
            S.check(S.eqd(x[2], {'a': e.answer(want[i])}), 'with the answers')
        S.check(same_snap(S, snap(s), before), 'the series is unchanged')


@case('C34')
def prophet_reconstructor(S):
    """What is missing is asked for on the clock of the fit."""
    from timeseria.models.reconstructors import ProphetReconstructor
    with engines(S) as e:
        grid, kind = pick(S)
        lost = [S.choice('lost%d' % i, [0, 1]) for i in range(4)]
        if all(lost):
            return
        s, values, tz, starts = build(S, grid, kind, losses=lost)
        before = snap(s)
        m = ProphetReconstructor()
        m.fit(s)
        S.check(len(e.fits[0]) == 4 and all(g[0] == wall(t, tz) for g, t in zip(e.fits[0], starts)) and S.eqs([g[1] for g in e.fits[0]], values), 'fitted on every item at its local time')
        r = m.apply(s)
        S.check(sorted(w for a in e.asked for w in a) == [wall(t, tz) for t, l in zip(starts, lost) if l], 'asked for what is missing')
        got = snap(r)
        S.check(len(got) == 4, 'same items')
        for i in range(4):
            S.check(S.eqd(got[i][2], {'a': e.answer(wall(starts[i], tz)) if lost[i] else values[i]}), 'the answer for the local time of the item, where missing')
            S.check(S.eq(got[i][0], starts[i]), 'at its time')
        S.check(same_snap(S, snap(s), before), 'the series is unchanged')


@case('C34', quick=[dict(which='arima'), dict(which='auto')])
def arima(S, which):
    """Fitted on the values in order, only for what comes next."""
    from timeseria.models.forecasters import ARIMAForecaster, AARIMAForecaster
    with engines(S) as e:
        grid, kind = pick(S)
        s, values, tz, starts = build(S, grid, kind, as_list=False)
        before = snap(s)
        m = ARIMAForecaster(p=2, d=0, q=1) if which == 'arima' else AARIMAForecaster()
        if which == 'arima':
            m.fit(s)
            S.check(tuple(e.options[0]) == (2, 0, 1), 'the order asked for')
        else:
            m.fit(s, seasonal=False, max_p=3)
            S.check(e.options[0].get('seasonal') is False and e.options[0].get('max_p') == 3, 'with the options asked for')
        S.check(S.eqs(e.fits[0], values), 'fitted on the values, in order')
        steps = S.choice('steps', [1, 2, 3])
        p = m.predict(s, steps=steps)
        p = p if isinstance(p, list) else [p]
        S.check(len(p) == steps and S.all(S.eqd(x, {'a': e.answer(i)}) for i, x in enumerate(p)), 'the forecasts are the answers, in order')
        how = S.choice('then', ['shorter', 'apply', 'inplace', 'append'])
        if how == 'shorter':
            S.check(S.refused(lambda: m.predict(s[:-1], steps=steps)) is not None and S.refused(lambda: m.apply(s[:-1], steps=steps)) is not None, 'refused away from the end of the fit')
        elif how == 'apply':
            r = snap(m.apply(s, steps=steps))
            S.check(len(r) == 4 + steps and S.all(S.and_(S.eq(r[4 + i][0], starts[4 + i]), S.eqd(r[4 + i][2], {'a': e.answer(i)})) for i in range(steps)), 'new items with the answers')
        else:
            if how == 'inplace':
                m.apply(s, steps=1, inplace=True)
            else:
                d = ts()
                s.append(d.DataTimeSlot(start=s[-1].end, unit=s[-1].unit, data={'a': 1}) if kind == 'slot' else d.DataTimePoint(t=starts[4], tz=tz, data={'a': 1}))
            S.check(S.refused(lambda: m.predict(s, steps=steps)) is not None, 'refused once the series goes on')
            S.check(S.refused(lambda: m.predict(s[0:4], steps=steps)) is None, 'but not on what it was fitted on')
            return
        S.check(same_snap(S, snap(s), before), 'the series is unchanged')


@case('C34')
def refused(S):
    """More than one label is refused, and nothing is left behind."""
    from timeseria.models import forecasters as f, reconstructors as r
    with engines(S) as e:
        s = point_series(S, [B + 600 * i for i in range(4)], [{'a': S.real('a%d' % i), 'b': S.real('b%d' % i)} for i in range(4)])
        t, _, _, _ = build(S, 'utc', 'point')
        before = snap(s)
        m = S.choice('model', [f.ProphetForecaster, r.ProphetReconstructor, f.ARIMAForecaster, f.AARIMAForecaster])()
        S.check(S.refused(lambda: m.predict(t)) is not None, 'not to be used before the fit')
        S.check(S.refused(lambda: m.fit(s)) is not None and not e.fits, 'more labels are refused')
        S.check(not m.fitted, 'and the model is not fitted')
        S.check(same_snap(S, snap(s), before), 'the series is unchanged')
        m.fit(t)
        S.check(m.fitted and len(e.fits) == 1, 'a single one is fine')
        S.check(S.refused(lambda: m.apply(s)) is not None, 'and other labels are refused from then on')


@case('C34', quick=[dict(which=w) for w in ('prophet', 'reconstructor', 'arima', 'auto')])
def again(S, which):
    """Fitted again on any other series, whatever its unit, zone, label and kind: nothing of the first fit is left."""
    from timeseria.models import forecasters as f, reconstructors as r
    with engines(S) as e:
        first, k1 = pick(S)
        m = {'prophet': f.ProphetForecaster, 'reconstructor': r.ProphetReconstructor, 'arima': f.ARIMAForecaster, 'auto': f.AARIMAForecaster}[which]()
        d = ts()
        unit, tz1, starts1 = GRIDS[first]
        other = point_series(S, starts1[:5], [{'z': i} for i in range(5)], tz=tz1) if k1 == 'point' else build(S, first, k1, n=3, label='z')[0]
        m.fit(other)
        if which != 'reconstructor':
            S.check(S.refused(lambda: m.predict(other)) is None, 'fitted')
        second, k2 = S.choice('second', [('hours', 'slot'), ('utc', 'point'), ('half', 'slot')])
        lost = [0, 1, 1, 0] if which == 'reconstructor' else None
        tz, starts = GRIDS[second][1:]
        s = d.TimeSeries()
        from timeseria.units import TimeUnit
        values = [S.real('w%d' % i) for i in range(4)]
        for i in range(4):
            kw = {} if lost is None else {'data_loss': lost[i]}
            s.append(d.DataTimePoint(t=starts[i], tz=tz, data={'a': values[i]}, **kw) if k2 == 'point'
                     else d.DataTimeSlot(start=d.TimePoint(t=starts[i], tz=tz), unit=TimeUnit(GRIDS[second][0]), data={'a': values[i]}, **kw))
        before = snap(s)
        m.fit(s)
        e.asked.clear()
        e.by.clear()
        if which == 'reconstructor':
            got = snap(m.apply(s))
            S.check(sorted(w for a in e.asked for w in a) == [wall(starts[i], tz) for i in (1, 2)], 'asked for what is missing')
            for i in range(4):
                S.check(S.eqd(got[i][2], {'a': e.answer(wall(starts[i], tz)) if lost[i] else values[i]}), 'the answer for the local time of the item, where missing')
        else:
            steps = 2
            got = snap(m.apply(s, steps=steps))
            want = [wall(t, tz) for t in starts[4:6]] if which == 'prophet' else [0, 1]
            S.check(len(got) == 4 + steps, 'as many new items as asked for')
            for i in range(steps):
                S.check(S.and_(S.eq(got[4 + i][0], starts[4 + i]), S.eqd(got[4 + i][2], {'a': e.answer(want[i])})), 'the answers, at the next times')
            if which != 'prophet':
                S.check(S.refused(lambda: m.predict(other)) is not None, 'not on the first one any more')
        S.check(set(e.by) == {len(e.fits) - 1}, 'by the engine of the second fit')
        S.check(S.eqs([x[1] if isinstance(x, tuple) else x for x in e.fits[-1]], values), 'fitted on the values of the second series')
        S.check(same_snap(S, snap(s), before), 'the series is unchanged')
