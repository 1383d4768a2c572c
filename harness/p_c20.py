"""C20: a saved and reloaded model is the same model."""
import os
import shutil
import tempfile
import types

from symx.api import case
from .common import *
from .p_c17 import make
from .p_c19 import state, same_state, same

BASE = 1500001200


class Folder:
    def __enter__(self):
        self.path = tempfile.mkdtemp()
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.path)

    def __call__(self, name):
        return os.path.join(self.path, name)


def same_model(S, label, model, loaded):
    S.check(type(model) is type(loaded), label + ': same class')
    S.check(set(model.data) == set(loaded.data), label + ': same parameters')
    for k in model.data:
        S.check(same(S, model.data[k], loaded.data[k]), label + ': same ' + k)
        S.check(type(model.data[k]) is type(loaded.data[k]) or k == 'fitted_at', label + ': same type of ' + k)
    S.check(model.id == loaded.id, label + ': same id')


def answers(S, label, use, model, loaded, s):
    """Same answer, also if it is a refusal, and the series left as it was."""
    before = snap(s)
    out = []
    for m in (model, loaded):
        try:
            out.append((None, use(m, s)))
        except Exception as e:
            out.append((type(e), None))
        S.check(same_snap(S, snap(s), before), label + ': the series is unchanged')
    S.check(out[0][0] == out[1][0], label + ': refused alike')
    if out[0][0] is None:
        a, b = out[0][1], out[1][1]
        if hasattr(a, 'item_type'):
            S.check(same_snap(S, snap(a), snap(b)), label + ': same result')
        else:
            S.check(same(S, a, b), label + ': same result')


def roundtrip(S, model, folder, name='m'):
    before = state(model)
    path = folder(name)
    S.check(model.save(path) is None, 'saved')
    S.check(same_state(S, state(model), before), 'saving leaves the model as it was')
    S.check(os.path.isdir(path), 'something is saved')
    for again in (path, folder.path):
        S.check(S.refused(lambda: model.save(again)) is not None, 'an existing path is refused')
        S.check(same_state(S, state(model), before), 'a refused save leaves the model as it was')
    loaded = type(model).load(path)
    S.check(loaded.fitted, 'loaded as fitted')
    same_model(S, 'loaded', model, loaded)
    S.check(same_state(S, state(model), before), 'loading leaves the model as it was')
    return loaded


@case('C20', quick=[dict(kind=k, w=w) for k in ('points', 'slots') for w in ('auto', 2)],
      thorough=[dict(kind=k, w=w) for k in ('points', 'slots') for w in ('auto', 1, 2, 3)])
def forecaster(S, kind, w):
    from timeseria.models.forecasters import PeriodicAverageForecaster
    unit = S.choice('unit', [0.5, 60, 3600])
    p = S.choice('periodicity', [1, 2, 3])
    n = p + 2
    L = ['b', 'a']
    fit, _ = make(S, kind, unit, n, BASE, {l: S.reals('f' + l, n) for l in L}, [{'data_loss': S.choice('lost', [0, 1]) if i == 1 else None} for i in range(n)])
    model = PeriodicAverageForecaster(window=w) if w != 'auto' else PeriodicAverageForecaster()
    model.fit(fit, periodicity=p, dst_affected=S.choice('dst', [False, True]))
    with Folder() as folder:
        loaded = roundtrip(S, model, folder)
        S.check(model.window == loaded.window, 'same window')
        m = S.choice('length', [1, 3])
        s, _ = make(S, kind, unit, m, BASE + S.choice('first', [0, 1, 7]) * unit, {l: S.reals('s' + l, m) for l in L}, None)
        for label, use in (('predict', lambda m, s: m.predict(s, steps=3)), ('forecast', lambda m, s: m.forecast(s, steps=2)),
                           ('apply', lambda m, s: m.apply(s, steps=2)), ('evaluate', lambda m, s: m.evaluate(s, error_metrics=['MAE']))):
            answers(S, label, use, model, loaded, s)
        other, _ = make(S, kind, unit * 2, 3, BASE, {l: S.reals('o' + l, 3) for l in L}, None)
        answers(S, 'other resolution', lambda m, s: m.predict(s), model, loaded, other)
        # On and on
        again = roundtrip(S, loaded, folder, 'again')
        same_model(S, 'loaded again', model, again)
        answers(S, 'predict again', lambda m, s: m.predict(s, steps=1), model, again, s)


@case('C20', quick=[dict(kind=k) for k in ('points', 'slots')])
def reconstructor(S, kind):
    from timeseria.models.reconstructors import PeriodicAverageReconstructor
    unit = S.choice('unit', [0.5, 60, 3600])
    p = S.choice('periodicity', [1, 2, 3])
    n = p + 2
    fit, _ = make(S, kind, unit, n, BASE, {'a': S.reals('f', n)}, None)
    model = PeriodicAverageReconstructor()
    model.fit(fit, periodicity=p, dst_affected=S.choice('dst', [False, True]), offset_method=S.choice('offset', ['average', 'extremes']))
    with Folder() as folder:
        loaded = roundtrip(S, model, folder)
        lost = S.choice('lost', [(1,), (1, 2), (0,), ()])
        s, _ = make(S, kind, unit, 4, BASE + S.choice('first', [0, 1, 7]) * unit, {'a': S.reals('s', 4)},
                    [{'data_loss': 1 if i in lost else 0} for i in range(4)])
        for label, use in (('predict', lambda m, s: m.predict(s, from_i=1, to_i=2)), ('apply', lambda m, s: m.apply(s)),
                           ('evaluate', lambda m, s: m.evaluate(s, steps=[1], metrics=['MAE']))):
            answers(S, label, use, model, loaded, s)
        again = roundtrip(S, loaded, folder, 'again')
        answers(S, 'apply again', lambda m, s: m.apply(s), model, again, s)


UNITS = ['0.25s', '1s', '90s', '1m', '1h', '24h', '1D', '2D', '1M', '1Y', None]


@case('C20', quick=[dict(fit=f) for f in (True, False)])
def custom(S, fit):
    """Models of anybody, with parameters of any kind, on data of any resolution."""
    from timeseria.models.base import Model
    from timeseria.units import TimeUnit
    from propertime.utils import dt
    d = ts()
    r = S.reals('p', 3)
    more = S.choice('parameters', [True, None, 'text é "quoted"\n', -7, [], {}, {'x': {'y': [1, [2]]}}])

    class Base(Model):
        @Model.predict_function
        def predict(self, series):
            x = series[-1].data['a']
            return {'a': x * self.data['k'][0] + self.data['deep']['er'][0] + self.data['k'][1]}

        @Model.apply_function
        def apply(self, series):
            out = series.duplicate()
            for item in out:
                item.data['a'] = item.data['a'] + self.data['k'][1]
            return out

    def parameters(self):
        self.data['k'] = [2, r[0]]
        self.data['deep'] = {'er': [r[1], {'l': r[2]}]}
        self.data['more'] = more

    if fit:
        class Mine(Base):
            @Model.fit_function
            def fit(self, series, verbose=False):
                parameters(self)
    else:
        class Mine(Base):
            def __init__(self):
                self.data = {}
                super().__init__()
                if r is not None:
                    parameters(self)
                    self.data['data_labels'] = ['a']
                    self.data['resolution'] = TimeUnit('1h')
    u = S.choice('unit', UNITS) if fit else '1h'
    kind = S.choice('kind', ['points', 'slots'])
    if u is None:
        # A single point has no resolution at all
        s = point_series(S, [BASE], [{'a': S.real('a0')}])
    elif kind == 'slots' or u[-1] in 'DMY':
        s = d.TimeSeries()
        t = d.TimePoint(dt=dt(2019, 1, 1, tz='Europe/Rome'))
        for i in range(3):
            s.append(d.DataTimeSlot(start=t, unit=TimeUnit(u), data={'a': S.real('a%d' % i)}))
            t = s[-1].end
    else:
        step = TimeUnit(u).as_seconds()
        s = point_series(S, [BASE + i * step for i in range(3)], [{'a': S.real('a%d' % i)} for i in range(3)])
    m = Mine()
    if fit:
        m.fit(s)
    with Folder() as folder:
        before = state(m)
        path = folder('m')
        m.save(path)
        S.check(same_state(S, state(m), before), 'saving leaves the model as it was')
        loaded = Mine.load(path)
        same_model(S, 'loaded', m, loaded)
        answers(S, 'predict', lambda m, s: m.predict(s), m, loaded, s)
        answers(S, 'apply', lambda m, s: m.apply(s), m, loaded, s)
        # What cannot be saved is refused leaving the model as it was
        m.data['odd'] = {1, 2}
        before = state(m)
        S.check(S.refused(lambda: m.save(folder('odd'))) is not None, 'not something which can be saved')
        S.check(same_state(S, state(m), before), 'a failed save leaves the model as it was')


class FakeFitter:
    """Stands for fitter.Fitter: what is fitted does not matter here."""
    def __init__(self, values, distributions=None):
        self.values = list(values)

    def fit(self, progress=False):
        pass

    def get_best(self):
        return {'gennorm': {'beta': 2.0, 'loc': 0.0, 'scale': 1.5}}

    def summary(self, plot=True):
        return self

    def transpose(self):
        return self

    def to_dict(self):
        return {'gennorm': {'ks_pvalue': 0.5, 'sumsquare_error': 1.25}}


class FakeDistribution:
    """Stands for the probability density of the errors."""
    def __init__(self, dist, params):
        self.params = params

    def __call__(self, x):
        return 100000 - abs(x - self.params['loc']) / self.params['scale']


class faked:
    """The anomaly detectors with the statistical fits and densities (SciPy) replaced."""
    def __init__(self, fitter=FakeFitter, distribution=FakeDistribution):
        from timeseria.models import anomaly_detectors as a
        self.a, self.new = a, (fitter, distribution)

    def __enter__(self):
        self.old = self.a.fitter_library, self.a.DistributionFunction
        self.a.fitter_library = types.SimpleNamespace(fitter=types.SimpleNamespace(Fitter=self.new[0], get_common_distributions=lambda: []))
        self.a.DistributionFunction = self.new[1]

    def __exit__(self, *x):
        self.a.fitter_library, self.a.DistributionFunction = self.old


@case('C20', quick=[dict(which=w, kind=k) for w in ('forecaster', 'reconstructor', 'generic', 'context') for k in ('points', 'slots')])
def detector(S, which, kind):
    """Anomaly detectors, which hold a model of their own."""
    from timeseria.models import anomaly_detectors as a
    from timeseria.models.forecasters import Forecaster
    with faked():
        L = ['b', 'a'] if which == 'forecaster' else ['a']
        unit = 3600

        class Half(Forecaster):
            window = 1

            @Forecaster.fit_function
            def fit(self, series, verbose=False):
                self.data['half'] = S.real('half', 0, 1)
                self.data['window'] = 1

            @Forecaster.predict_function
            def predict(self, series, steps=1):
                return {'a': series[-1].data['a'] * self.data['half']}

        class Detector(a.ModelBasedAnomalyDetector):
            model_class = Half

        class Around(Forecaster):
            window = 1

            @Forecaster.fit_function
            def fit(self, series, target=None, with_context=False, verbose=False):
                self.data['target_data_labels'] = [target]
                self.data['context_data_labels'] = [l for l in series.data_labels() if l != target]
                self.data['half'] = S.real('half ' + target, 0, 1)
                self.data['window'] = 1

            @Forecaster.predict_function
            def predict(self, series, steps=1, context_data=None):
                l = self.data['target_data_labels'][0]
                return {l: series[-1].data[l] * self.data['half'] + sum(context_data[c] for c in self.data['context_data_labels'])}

        class Each(a.ModelBasedAnomalyDetector):
            model_class = Around

        cls = {'forecaster': a.PeriodicAverageAnomalyDetector, 'reconstructor': a.PeriodicAverageReconstructorAnomalyDetector,
               'generic': Detector, 'context': Each}[which]
        L = ['b', 'a', 'c'] if which == 'context' else L
        n = 6 if which != 'context' else 4
        kw = {'periodicity': 2} if which in ('forecaster', 'reconstructor') else {'with_context': True} if which == 'context' else {}
        fit, _ = make(S, kind, unit, n, BASE, {l: S.reals('f' + l, n, -10, 10) for l in L}, None)
        m = cls()
        m.fit(fit, error_metric=S.choice('metric', ['E', 'AE']), **kw)
        with Folder() as folder:
            loaded = roundtrip(S, m, folder)
            for x, y in [(m.models[l], loaded.models[l]) for l in L] if which == 'context' else [(m.model, loaded.model)]:
                same_model(S, 'inner model', x, y)
                S.check(y.fitted, 'inner model loaded as fitted')
            k = 5 if which != 'context' else 3
            s, _ = make(S, kind, unit, k, BASE + unit, {l: S.reals('s' + l, k, -10, 10) for l in L}, None)
            for label, use in (('apply', lambda m, s: m.apply(s, index_bounds=(0.5, 3), index_type='lin', details=['pred', 'err'])),
                               ('apply sigma', lambda m, s: m.apply(s, index_bounds=(0, '1_sigma'), index_type=lambda *x: x[0]))):
                if label == 'apply' or which == 'generic':
                    answers(S, label, use, m, loaded, s)
