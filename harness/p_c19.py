"""C19: models refuse invalid states and incompatible data."""
import os
import shutil
import tempfile

from symx.api import case
from .common import *
from .p_c17 import make

BASE = 1500001200


def state(model):
    import copy
    return (model.fitted, copy.deepcopy(model.data))


def same(S, a, b):
    if isinstance(a, dict) or isinstance(b, dict):
        if not (isinstance(a, dict) and isinstance(b, dict)) or list(a) != list(b):
            return False
        return S.all(same(S, a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        if not (isinstance(a, (list, tuple)) and isinstance(b, (list, tuple))) or len(a) != len(b):
            return False
        return S.all(same(S, x, y) for x, y in zip(a, b))
    if hasattr(a, 'as_seconds') or hasattr(b, 'as_seconds'):
        return a == b
    return S.eq(a, b)


def same_state(S, a, b):
    return S.and_(a[0] == b[0], same(S, a[1], b[1]))


def custom(fit=True):
    """A model of which everything is used: what it answers does not matter."""
    from timeseria.models.base import Model

    class Plain(Model):
        @Model.predict_function
        def predict(self, series, extra=None):
            return {'a': [1]}

        @Model.apply_function
        def apply(self, series):
            return series.duplicate()

        @Model.evaluate_function
        def evaluate(self, series):
            return {'MAE': 1}

    class Fitted(Plain):
        @Model.fit_function
        def fit(self, series, fail=False, verbose=False):
            self.data['average'] = sum(x.data[series.data_labels()[0]] for x in series) / len(series)
            if fail:
                raise ValueError('cannot fit')

    return Fitted() if fit else Plain()


def uses(model):
    return {'predict': lambda s: model.predict(s), 'apply': lambda s: model.apply(s), 'evaluate': lambda s: model.evaluate(s)}


@case('C19', quick=[dict(kind=k) for k in ('points', 'slots')])
def labels(S, kind):
    """Data labels other than those the model was fitted on."""
    L = S.choice('fitted on', [['a'], ['b', 'a'], ['a', 'b', 'c']])
    n = S.choice('n', [1, 2, 3])
    G = S.choice('used on', [['a'], ['b'], ['a', 'b'], ['b', 'a'], ['a', 'c'], ['c', 'b', 'a'], ['a', 'b', 'c', 'd'], []])
    fit, _ = make(S, kind, 3600, 3, BASE, {l: S.reals('f' + l, 3) for l in L}, None)
    s, _ = make(S, kind, 3600, n, BASE, {l: S.reals('s' + l, n) for l in G}, None)
    m = custom()
    if kind == 'slots':
        # What counts is the last fit
        other, _ = make(S, kind, 60, 2, BASE, {'a': [1.0, 2.0], 'z': [3.0, 4.0]}, None)
        m.fit(other)
    m.fit(fit)
    before, ms = snap(s), state(m)
    S.check(m.fitted, 'fitted')
    for name, use in uses(m).items():
        e = S.refused(lambda: use(s))
        S.check((e is None) == (set(L) == set(G)), name + ': refused exactly if the labels differ')
        S.check(same_snap(S, snap(s), before), name + ': the series is unchanged')
        S.check(same_state(S, state(m), ms), name + ': the model is unchanged')


@case('C19', quick=[dict(), ], covers=('same', 'other'))
def spacing(S):
    """Point series of any resolution."""
    r = S.choice('fitted on', [1, 60, 90, 3600, 86400])
    g = S.int('used on', 1, 90000)
    fit, _ = make(S, 'points', r, 3, BASE, {'a': S.reals('f', 3)}, None)
    n = S.choice('n', [2, 3])
    s = point_series(S, [BASE + i * g for i in range(n)], [{'a': x} for x in S.reals('s', n)])
    m = custom()
    if n == 3:
        # What counts is the last fit
        m.fit(point_series(S, [BASE, BASE + 7], [{'a': 0.0}, {'a': 1.0}]))
    m.fit(fit)
    before, ms = snap(s), state(m)
    compatible = bool(g == r)
    S.cover('same' if compatible else 'other')
    for name, use in uses(m).items():
        e = S.refused(lambda: use(s))
        S.check((e is None) == compatible, name + ': refused exactly if the resolution differs')
        S.check(same_snap(S, snap(s), before), name + ': the series is unchanged')
        S.check(same_state(S, state(m), ms), name + ': the model is unchanged')


@case('C19', quick=[dict(kind=k) for k in ('points', 'slots')], covers=('same', 'other'))
def fractions(S, kind):
    """Spacings and units of fractions of a second."""
    R = [0.125, 0.25, 0.5, 0.75, 1, 1.25, 1.5, 2]
    r, g = S.choice('fitted on', R), S.choice('used on', R)
    fit, _ = make(S, kind, r, 3, BASE, {'a': S.reals('f', 3)}, None)
    s, _ = make(S, kind, g, 2, BASE, {'a': S.reals('s', 2)}, None)
    m = custom()
    m.fit(fit)
    S.cover('same' if g == r else 'other')
    for name, use in uses(m).items():
        e = S.refused(lambda: use(s))
        S.check((e is None) == (g == r), name + ': refused exactly if the resolution differs')


UNITS = ['1m', '60s', '1h', '60m', '3600s', '24h', '1D', '86400s', '1M']
SAME = [{'1m', '60s'}, {'1h', '60m', '3600s'}, {'24h', '86400s'}, {'1D'}, {'1M'}]


def unit_slots(S, unit, n, name):
    from timeseria.units import TimeUnit
    from propertime.utils import dt
    d = ts()
    s = d.TimeSeries()
    p = d.TimePoint(dt=dt(2019, 3, 1, tz='Europe/Rome'))
    for i in range(n):
        x = d.DataTimeSlot(start=p, unit=TimeUnit(unit), data={'a': S.real('%s%d' % (name, i))})
        s.append(x)
        p = x.end
    return s


@case('C19', quick=[{}], covers=('same', 'other'))
def units(S):
    """Slot series of any unit, however written."""
    u, v = S.choice('fitted on', UNITS), S.choice('used on', UNITS)
    fit = unit_slots(S, u, 3, 'f')
    s = unit_slots(S, v, S.choice('n', [1, 2]), 's')
    m = custom()
    m.fit(fit)
    before, ms = snap(s), state(m)
    compatible = any(u in x and v in x for x in SAME)
    S.cover('same' if compatible else 'other')
    for name, use in uses(m).items():
        e = S.refused(lambda: use(s))
        S.check((e is None) == compatible, name + ': refused exactly if the resolution differs')
        S.check(same_snap(S, snap(s), before), name + ': the series is unchanged')
        S.check(same_state(S, state(m), ms), name + ': the model is unchanged')


@case('C19', quick=[dict(kind=k) for k in ('points', 'slots')])
def unfitted(S, kind):
    """Not fitted: nothing can be done, whatever the data."""
    from timeseria.models import forecasters as f, reconstructors as r, anomaly_detectors as a
    from timeseria.exceptions import NotFittedError
    d = ts()
    which = S.choice('model', ['custom', f.PeriodicAverageForecaster, f.ProphetForecaster, f.ARIMAForecaster, f.AARIMAForecaster,
                               f.LSTMForecaster, r.PeriodicAverageReconstructor, r.ProphetReconstructor,
                               a.PeriodicAverageAnomalyDetector, a.PeriodicAverageReconstructorAnomalyDetector])
    m = custom() if which == 'custom' else which()
    n = S.choice('n', [1, 4])
    s, _ = make(S, kind, 3600, n, BASE, {'a': S.reals('s', n)}, [{'data_loss': 1 if 0 < i < n - 1 else 0} for i in range(n)])
    before, ms = snap(s), state(m)
    S.check(m.fitted is False, 'not fitted')
    todo = dict(uses(m))
    if hasattr(r, 'Reconstructor') and isinstance(m, r.Reconstructor):
        todo['predict'] = lambda s: m.predict(s, from_i=1, to_i=1)
    folder = tempfile.mkdtemp()
    try:
        path = os.path.join(folder, 'model')
        todo['save'] = lambda s: m.save(path)
        for name, use in todo.items():
            e = S.refused(lambda: use(s))
            S.check(e is not None, name + ': refused before the fit')
            S.check(isinstance(e, (NotFittedError, NotImplementedError)), name + ': because not fitted')
            S.check(same_snap(S, snap(s), before), name + ': the series is unchanged')
            S.check(same_state(S, state(m), ms), name + ': the model is unchanged')
        S.check(not os.path.exists(path), 'nothing is saved')
    finally:
        shutil.rmtree(folder)


@case('C19', quick=[dict(fit=f) for f in (True, False)])
def not_series(S, fit):
    """What no model can work on: other types, empty series, series of variable resolution."""
    d = ts()
    m = custom(fit)
    good, _ = make(S, 'points', 60, 3, BASE, {'a': S.reals('f', 3)}, None)
    if fit:
        m.fit(good)
    g = S.int('gap', 1, 1000)
    h = S.int('gap2', 1, 1000)
    S.assume(S.not_(S.eq(g, h)))
    bad = S.choice('what', ['variable', 'empty', 'list', 'none', 'series'])
    if bad == 'variable':
        s = point_series(S, [BASE, BASE + g, BASE + g + h], [{'a': 1}, {'a': 2}, {'a': 3}])
    else:
        s = {'empty': d.TimeSeries(), 'list': [1, 2], 'none': None, 'series': d.Series(1, 2, 3)}[bad]
    ms = state(m)
    todo = dict(uses(m))
    if fit:
        todo['fit'] = lambda s: m.fit(s)
        todo['cross validate'] = lambda s: custom().cross_validate(s)
    for name, use in todo.items():
        S.check(S.refused(lambda: use(s)) is not None, name + ': refused')
        S.check(same_state(S, state(m), ms), name + ': the model is unchanged')
    for name, use in uses(m).items():
        S.check(S.refused(lambda: use(good)) is None, name + ': still usable')


@case('C19', quick=[{}])
def other_states(S):
    """Saving where there is already something, saving what has no parameters, context not accepted, refused fits."""
    from timeseria.models.reconstructors import PeriodicAverageReconstructor, LinearInterpolationReconstructor
    from timeseria.models.forecasters import PeriodicAverageForecaster
    n = 5
    data = {'a': S.reals('f', n)}
    fit, _ = make(S, 'points', 3600, n, BASE, data, [{'data_loss': 0}] * n)
    which = S.choice('model', ['custom', 'forecaster', 'reconstructor'])
    m = {'custom': custom, 'forecaster': PeriodicAverageForecaster, 'reconstructor': PeriodicAverageReconstructor}[which]()
    kw = {} if which == 'custom' else {'periodicity': 2}
    # A refused first fit leaves the model unfitted
    what = S.choice('refused fit', ['labels', 'lost'])
    other, _ = make(S, 'slots', 60, 3, BASE, {'x': [1, 2, 3], 'y': [1, 2, 3]} if what == 'labels' else {'x': [1, 2, 3]},
                    [{'data_loss': 1}] * 3)

    def refit():
        if which == 'custom':
            m.fit(other, fail=True)
        elif which == 'forecaster':
            m.fit(other, periodicity=0 if what == 'labels' else 2)
        else:
            m.fit(other, periodicity=0, offset_method='nope' if what == 'lost' else 'average')
    ms = state(m)
    S.check(S.refused(refit) is not None, 'fit refused')
    S.check(same_state(S, state(m), ms), 'refused first fit')
    S.check(S.refused(lambda: m.predict(fit)) is not None, 'not fitted by a refused fit')
    m.fit(fit, **kw)
    ms = state(m)
    S.check(S.refused(refit) is not None, 'fit refused again')
    S.check(same_state(S, state(m), ms), 'refused fit of a fitted model')
    S.check(S.refused(lambda: m.apply(fit)) is None, 'still usable on the data it was fitted on')
    S.check(S.refused(lambda: m.cross_validate(fit)) is not None, 'cross validating a fitted model is refused')
    S.check(same_state(S, state(m), ms), 'as before')
    if which != 'reconstructor':
        S.check(S.refused(lambda: m.predict(fit, context_data={'a': 1})) is not None, 'context data not asked for is refused')
        m.data['context_data_labels'] = ['a']
        S.check(S.refused(lambda: m.predict(fit)) is not None, 'missing context data is refused')
        del m.data['context_data_labels']
    folder = tempfile.mkdtemp()
    try:
        there = os.path.join(folder, S.choice('there', ['folder', 'file']))
        if there.endswith('folder'):
            os.mkdir(there)
        else:
            open(there, 'w').close()
        before = os.stat(there).st_mtime_ns
        for path in (there, '', None):
            S.check(S.refused(lambda: m.save(path)) is not None, 'saving over something or nowhere is refused')
            S.check(same_state(S, state(m), ms), 'save refused: the model is unchanged')
        S.check(os.listdir(folder) == [os.path.basename(there)] and os.stat(there).st_mtime_ns == before, 'nothing is written')
        for plain in (custom(False), LinearInterpolationReconstructor()):
            S.check(S.refused(lambda: plain.save(os.path.join(folder, 'x'))) is not None, 'nothing to save')
            S.check(S.refused(lambda: plain.fit(fit)) is not None, 'nothing to fit')
        S.check(os.listdir(folder) == [os.path.basename(there)], 'nothing is written by models without parameters')
    finally:
        shutil.rmtree(folder)


@case('C19', quick=[dict(model=m, kind=k) for m in ('forecaster', 'reconstructor') for k in ('points', 'slots')], covers=('used', 'refused'))
def periodic(S, model, kind):
    """The periodic average models, on compatible and incompatible data."""
    from timeseria.models.reconstructors import PeriodicAverageReconstructor
    from timeseria.models.forecasters import PeriodicAverageForecaster
    n = 8
    L = S.choice('labels', [['a'], ['b', 'a']]) if model == 'forecaster' else ['a']
    fit, _ = make(S, kind, 3600, n, BASE, {l: S.reals('f' + l, n) for l in L}, None)
    m = (PeriodicAverageForecaster if model == 'forecaster' else PeriodicAverageReconstructor)()
    m.fit(fit, periodicity=2)
    G = S.choice('used on', [['a'], ['a', 'b'], ['c']])
    unit = S.choice('unit', [3600, 60, 7200])
    s, _ = make(S, kind, unit, n, BASE, {l: S.reals('s' + l, n) for l in G},
                [{'data_loss': 1 if i == 2 else 0} for i in range(n)])
    before, ms = snap(s), state(m)
    compatible = set(L) == set(G) and unit == 3600
    S.cover('used' if compatible else 'refused')
    todo = {'predict': lambda: m.predict(s) if model == 'forecaster' else m.predict(s, from_i=2, to_i=2),
            'apply': lambda: m.apply(s)}
    if model == 'forecaster':
        todo['forecast'] = lambda: m.forecast(s)
        todo['evaluate'] = lambda: m.evaluate(s, error_metrics=['MAE'])
    else:
        todo['evaluate'] = lambda: m.evaluate(s, steps=[1], metrics=['MAE'])
    for name, use in todo.items():
        e = S.refused(use)
        S.check((e is None) == compatible, name + ': refused exactly if not compatible')
        S.check(same_snap(S, snap(s), before), name + ': the series is unchanged')
        S.check(same_state(S, state(m), ms), name + ': the model is unchanged')
