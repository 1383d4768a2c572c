"""C21: the anomaly index is a bounded monotone measure of the error."""
from fractions import Fraction

from symx.api import case
from .common import *
from .p_c17 import make
from .p_c19 import state, same_state, same
from .p_c20 import faked, FakeFitter, FakeDistribution, Folder

BASE = 1500001200


class Curve:
    """Any unimodal density: only its values where it was asked for exist, and all that is known of
    them is that they rise up to the mode and fall after it."""

    def __init__(self, S, name, mode):
        self.S, self.name, self.mode = S, name, mode
        self.points = []

    def pin(self, x, y):
        S = self.S
        for x0, y0 in self.points:
            up, down = S.and_(x <= self.mode, x0 <= self.mode), S.and_(x >= self.mode, x0 >= self.mode)
            S.assume(S.all([S.implies(x == x0, y == y0),
                            S.implies(S.and_(up, x <= x0), y <= y0), S.implies(S.and_(up, x0 <= x), y0 <= y),
                            S.implies(S.and_(down, x <= x0), y >= y0), S.implies(S.and_(down, x0 <= x), y0 >= y)]))
        self.points.append((x, y))

    def __call__(self, x):
        y = self.S.real('%s_y%d' % (self.name, len(self.points)), 0, 100)
        self.pin(x, y)
        return y

    def find_x(self, y):
        x = self.S.real('%s_x%d' % (self.name, len(self.points)), 0, 100)
        self.S.assume(x >= self.mode)
        self.pin(x, y)
        return x


class world:
    """The fits and the densities stand for SciPy's, one curve for each label in the order they are fitted."""

    def __init__(self, S, modes, curve=Curve):
        self.S = S
        self.curves = [curve(S, 'c%d' % i, m) for i, m in enumerate(modes)]
        self.fits = []
        me = self

        class Fitter(FakeFitter):
            def __init__(self, values, distributions=None):
                me.fits.append((list(values), list(distributions)))
                self.i = len(me.fits) - 1

            def get_best(self):
                return {'gennorm': {'loc': modes[self.i % len(modes)], 'scale': 1.5, 'curve': self.i % len(modes)}}

        class Distribution:
            def __init__(self, dist, params):
                self.curve = me.curves[params['curve']]

            def __call__(self, x):
                return self.curve(x)

            def find_x(self, y, **kw):
                return self.curve.find_x(y)

        self.faked = faked(Fitter, Distribution)

    def __enter__(self):
        self.faked.__enter__()
        return self

    def __exit__(self, *a):
        self.faked.__exit__(*a)


class Line:
    """A plain density, when it is not the point: linear, above zero wherever asked here."""

    def __init__(self, S, name, mode):
        self.mode = mode

    def __call__(self, x):
        return (2000 - abs(x - self.mode)) / 4000


def predictor(which, offsets, shape='dict', w=1):
    """A forecaster or reconstructor whose prediction for the item at position i is that of its neighbours
    plus a given quantity (offsets[label][i]), so that any error at all can be had."""
    from timeseria.models.forecasters import Forecaster
    from timeseria.models.reconstructors import Reconstructor

    def out(values):
        if shape == 'dict':
            return {l: values[l] for l in values}
        if shape == 'lists':
            return {l: [values[l]] for l in values}
        return [dict(values)]

    if which == 'forecaster':
        class Model(Forecaster):
            window = w

            @Forecaster.fit_function
            def fit(self, series, verbose=False):
                self.data['window'] = w

            @Forecaster.predict_function
            def predict(self, series, steps=1):
                i = len(series)
                return out({l: series[-1].data[l] + series[-w].data[l] + offsets[l][i] for l in offsets})
    elif which == 'context':
        class Model(Forecaster):
            window = w

            @Forecaster.fit_function
            def fit(self, series, target=None, with_context=False, verbose=False):
                self.data['window'] = w
                self.data['target'] = target
                self.data['context_data_labels'] = [l for l in series.data_labels() if l != target]

            @Forecaster.predict_function
            def predict(self, series, steps=1, context_data=None):
                i = len(series)
                t = self.data['target']
                around = sum(context_data[l] for l in self.data['context_data_labels'])
                return out({t: series[-1].data[t] + series[-w].data[t] + around + offsets[t][i]})
    else:
        class Model(Reconstructor):
            window = w

            @Reconstructor.fit_function
            def fit(self, series, verbose=False):
                self.data['window'] = w

            @Reconstructor.predict_function
            def predict(self, series, from_i, to_i):
                assert from_i == to_i
                values = {l: series[from_i - w].data[l] + series[to_i + w].data[l] + offsets[l][from_i] for l in offsets}
                return {l: [values[l]] for l in values} if shape != 'list' else [values]
    return Model


def expected(which, rows, offsets, l, i, w=1):
    if which == 'reconstructor':
        return rows[i - w][l] + rows[i + w][l] + offsets[l][i]
    p = rows[i - 1][l] + rows[i - w][l] + offsets[l][i]
    if which == 'context':
        p = p + sum(rows[i][o] for o in rows[i] if o != l)
    return p


def error(S, metric, actual, predicted):
    e = actual - predicted
    if metric in ('PE', 'APE'):
        e = e / actual
    return abs(e) if metric in ('AE', 'APE') else e


def positions(which, n, w=1):
    """The positions where an index is computed."""
    return list(range(w + 1, n - w if which == 'reconstructor' else n))


def detector(S, which, metric='E', L=('a',), errors=None, kind='points', shape='dict', w=1, offsets=None, fit=None, **kw):
    """A detector fitted so that its model errs as given (for each label), and what to predict with later."""
    from timeseria.models.anomaly_detectors import ModelBasedAnomalyDetector
    errors = errors or {l: [1.0, -3.0] for l in L}
    k = len(errors[L[0]])
    n = k + w + 1 + (w if which == 'reconstructor' else 0)
    at = positions(which, n, w)
    rows = [{l: 2.0 for l in L} for _ in range(n)]
    offs = {l: [0.0] * n for l in L}
    for l in L:
        for j, i in enumerate(at):
            size = errors[l][j] * (2.0 if metric in ('PE', 'APE') else 1)
            offs[l][i] = 2.0 - size - expected(which, rows, {l: [0.0] * n}, l, i, w)
    m = ModelBasedAnomalyDetector(predictor(which, offs, shape, w))
    series, _ = make(S, kind, 3600, n, BASE, {l: [r[l] for r in rows] for l in L}, None)
    m.fit(series, error_metric=metric, with_context=which == 'context', **kw)
    if offsets is not None:
        for model in (m.models.values() if which == 'context' else [m.model]):
            model.__class__ = predictor(which, offsets, shape, w)
    return m


def series_for(S, which, kind, m, L, tag='', metric='E', indexes=None, w=1, lo=-20, hi=20):
    """A series to look for anomalies in: any values (a few given ones where the metric divides by them) and
    any predictions."""
    if metric in ('PE', 'APE'):
        scale = S.choice(tag + 'scale', [1.0, -4.0])
        cols = {l: [scale * (i + 1) * (1 if i % 2 else -1) for i in range(m)] for l in L}
    else:
        cols = {l: S.reals(tag + 's' + l, m, lo, hi) for l in L}
    offsets = {l: S.reals(tag + 'o' + l, m, 3 * lo, 3 * hi) for l in L}
    s, rows = make(S, kind, 3600, m, BASE + 7200, cols, indexes)
    return s, rows, offsets


def check_kept(S, label, s, out, at, w=1):
    """What is in the result is what was in the series at those positions, and not shared with it."""
    S.check(len(out) == len(at), label + ': one item for each of the others')
    S.check(type(out) is type(s), label + ': same kind of series')
    for o, i in zip(out, at):
        item = s[i]
        S.check(o is not item and o.data_indexes is not item.data_indexes and o.data is not item.data, label + ': not shared')
        S.check(type(o) is type(item), label + ': same kind of items')
        S.check(S.eq(o.start.t, item.start.t) if hasattr(o, 'start') else S.eq(o.t, item.t), label + ': same time')
        for l in item.data:
            S.check(S.eq(o.data[l], item.data[l]), label + ': same values')
        for k, v in item.data_indexes.items():
            S.check(k in o.data_indexes and S.eq(o.data_indexes[k], v), label + ': same other indexes')
        S.check(set(o.data_indexes) - set(item.data_indexes) <= {'anomaly'}, label + ': no more indexes')


INDEX = [dict(which=w, metric=m, index=i) for w, m in (('forecaster', 'E'), ('forecaster', 'AE'), ('forecaster', 'PE'), ('reconstructor', 'APE'),
                                                      ('reconstructor', 'E')) for i in ('lin', 'log')]


@case('C21', quick=[dict(k=2, **p) for p in INDEX], thorough=[dict(k=3, **p) for p in INDEX],
      covers=('below', 'above', 'within', 'not always falling'))
def index(S, which, metric, index, k):
    """Bounded, zero below, one above, never decreasing in between: for any density of the errors, any bounds."""
    mode = S.real('mode', -10, 10)
    with world(S, [mode]) as world_:
        m = k + 2 + (1 if which == 'reconstructor' else 0)
        s, rows, offsets = series_for(S, which, 'points', m, ['a'], metric=metric)
        d = detector(S, which, metric, offsets=offsets)
        lo = S.real('lower', 0, 50)
        hi = S.real('upper', 0, 50)
        S.assume(lo < hi)
        curve = world_.curves[0]
        # (where it is asked for more than once it is the same)
        ys, ye = curve(lo), curve(hi)
        S.assume(S.not_(ys == ye))
        if index == 'log':
            S.assume(S.and_(ys > 0, ye > 0))
        before = snap(s)
        out = d.apply(s, index_bounds=[lo, hi], index_type=index)
        S.check(same_snap(S, snap(s), before), 'the series is unchanged')
        at = positions(which, m)
        check_kept(S, 'items', s, out, at)
        found = []
        for o, i in zip(out, at):
            e = abs(error(S, metric, rows[i]['a'], expected(which, rows, offsets, 'a', i)))
            x = o.data_indexes['anomaly']
            S.check(S.and_(x >= 0, x <= 1), 'between zero and one')
            S.check(S.implies(e <= lo, S.eq(x, 0)), 'zero up to the lower bound')
            S.check(S.implies(e >= hi, S.eq(x, 1)), 'one from the upper bound')
            for e0, x0 in found:
                S.check(S.and_(S.implies(e0 <= e, S.le(x0, x)), S.implies(e <= e0, S.le(x, x0))), 'never decreasing with the error')
            found.append((e, x))
            S.cover('below' if bool(e <= lo) else 'above' if bool(e >= hi) else 'within')
        if bool(mode > lo):
            S.cover('not always falling')


@case('C21', quick=[dict(which=w, strategy=t) for w in ('forecaster', 'context') for t in ('min', 'max', 'avg', 'call')] +
      [dict(which='reconstructor', strategy=t) for t in ('min', 'call')] + [dict(which='forecaster', strategy='avg', n=1)],
      thorough=[dict(which=w, strategy=t, n=3) for w in ('forecaster', 'context', 'reconstructor') for t in ('min', 'max', 'avg', 'call')])
def labels(S, which, strategy, n=2):
    """The index of an item from those of its labels, each from what it should be."""
    L = ['c', 'a', 'b'][:n]
    kind = S.choice('kind', ['points', 'slots'])
    shape = S.choice('shape', ['dict', 'lists', 'list'])
    metric = S.choice('metric', ['E', 'AE'])
    modes = [0.5 * (i + 1) for i in range(n)]
    with world(S, modes, Line):
        m = 3 + (1 if which == 'reconstructor' else 0)
        s, rows, offsets = series_for(S, which, kind, m, L)
        d = detector(S, which, metric, L=sorted(L), kind=kind, shape=shape, offsets=offsets)
        asked = []

        def mine(x, y, x_start, x_end, y_start, y_end):
            asked.append((x, y, x_start, x_end, y_start, y_end, S.real('index%d' % len(asked), 0, 1)))
            return asked[-1][-1]

        combined = []

        def call(xs):
            combined.append((list(xs), S.real('combined%d' % len(combined), 0, 1)))
            return combined[-1][1]

        before = snap(s)
        out = d.apply(s, index_bounds=(-1, 1000), index_type=mine, multivariate_index_strategy=call if strategy == 'call' else strategy)
        S.check(same_snap(S, snap(s), before), 'the series is unchanged')
        at = positions(which, m)
        check_kept(S, 'items', s, out, at)
        S.check(len(asked) == n * len(at), 'one index for each label of each item')
        for j, (o, i) in enumerate(zip(out, at)):
            xs = []
            for q, l in enumerate(sorted(L)):
                # In whatever order
                e = abs(error(S, metric, rows[i][l], expected(which, rows, offsets, l, i)))
                line = Line(S, '', modes[q])
                x, y, x0, x1, y0, y1, r = asked[j * n + q]
                S.check(S.all([S.eq(x, e), S.eq(y, line(e)), S.eq(x0, -1), S.eq(x1, 1000), S.eq(y0, line(-1)), S.eq(y1, line(1000))]),
                        'from its own error and distribution')
                xs.append(r)
            got = o.data_indexes['anomaly']
            if strategy == 'avg':
                S.check(S.eq(got * n, sum(xs)), 'their average')
            elif strategy == 'call':
                S.check(S.eqd(combined[j][0], xs) and S.eq(got, combined[j][1]), 'what the strategy says')
            else:
                S.check(S.any([S.eq(got, x) for x in xs]), 'one of them')
                S.check(S.all([S.le(got, x) if strategy == 'min' else S.le(x, got) for x in xs]), 'the ' + strategy)


@case('C21', quick=[dict(which=w, w=k) for w in ('forecaster', 'reconstructor') for k in (1, 2)], covers=('computed', 'left'))
def losses(S, which, w):
    """Items lost, or with lost items in the window, are left without an index."""
    n = 2 * w + 3
    at = positions(which, n, w)
    kind = S.choice('kind', ['points', 'slots'])
    level = S.choice('level', [1.0, 0.5, 'default', 0])
    th = 1.0 if level == 'default' else level
    lost = [S.choice('lost%d' % i, [0, 1]) for i in range(n)]
    loss = []
    for i in range(n):
        if lost[i]:
            x = S.real('loss%d' % i, 0, 1)
            S.assume(x >= th)
            loss.append({'data_loss': x, 'other': 0.5})
        elif i % 3 == 0:
            loss.append(None)
        elif i % 3 == 1 and th:
            x = S.real('loss%d' % i, 0, 1)
            S.assume(x < th)
            loss.append({'data_loss': x, 'other': None})
        else:
            loss.append({'data_loss': None})
    with world(S, [0.5], Line):
        s, rows, offsets = series_for(S, which, kind, n, ['a'], indexes=loss, w=w)
        d = detector(S, which, w=w, kind=kind, offsets=offsets)
        kw = {} if level == 'default' else {'data_loss_threshold': level}
        before = snap(s)
        asked = []

        def mine(x, *rest):
            asked.append((x, S.real('index%d' % len(asked), 0, 1)))
            return asked[-1][1]

        out = d.apply(s, index_bounds=(-1, 1000), index_type=mine, **kw)
        S.check(same_snap(S, snap(s), before), 'the series is unchanged')
        check_kept(S, 'items', s, out, at)
        k = 0
        for o, i in zip(out, at):
            needed = list(range(i - w, i + 1)) + (list(range(i + 1, i + w + 1)) if which == 'reconstructor' else [])
            if any(lost[j] for j in needed):
                S.check('anomaly' not in o.data_indexes, 'not turned into an anomaly')
                S.cover('left')
            else:
                e = abs(error(S, 'E', rows[i]['a'], expected(which, rows, offsets, 'a', i, w)))
                S.check(S.and_(S.eq(asked[k][0], e), S.eq(o.data_indexes['anomaly'], asked[k][1])), 'computed from its error')
                k += 1
                S.cover('computed')
        S.check(k == len(asked), 'nothing else computed')


@case('C21', quick=[dict(which=w) for w in ('forecaster', 'reconstructor', 'context')])
def bounds(S, which):
    """The bounds with a name are what the name says, and the index with them is that with their values."""
    import statistics
    errors = S.choice('errors', [[1.0, -3.0], [-2.5, 0.5, 1.0], [4.0, 4.0]])
    metric = S.choice('metric', ['E', 'AE', 'PE', 'APE'] if which != 'context' else ['E', 'APE'])
    L = ['a', 'b'] if which == 'context' else ['a']
    got = [abs(e) if metric in ('AE', 'APE') else e for e in errors]
    sizes = [abs(e) for e in errors]
    sd = statistics.stdev(got)
    top = {'max_err': max(sizes), 'avg_err': sum(sizes) / len(sizes), '2_sigma': 2.0 * sd, '2.5_sigma': 2.5 * sd, '0.5sig': 0.5 * sd, 7.5: 7.5, 0: 0}
    names = S.choice('bounds', [('avg_err', 'max_err'), (0, 'max_err'), ('0.5sig', '2_sigma'), (0, '2.5_sigma'), ('avg_err', 7.5), ('max_err', 'adherence/4'), ('avg_err', 'adherence/2.5'), None])
    store = S.choice('store', [True, False])
    with world(S, [0.25] * len(L), Curve if names and str(names[1]).startswith('adherence/') else Line) as world_:
        d = detector(S, which, metric, L=L, errors={l: errors for l in L}, store_errors=store)
        S.check(len(world_.fits) == len(L) and all(S.eqd(f[0], got) for f in world_.fits), 'fitted on the errors')
        m = 3 + (1 if which == 'reconstructor' else 0)
        s, rows, offsets = series_for(S, which, 'points', m, L, metric=metric)
        for model in (d.models.values() if which == 'context' else [d.model]):
            model.__class__ = predictor(which, offsets)
        lo, hi = names or ('avg_err', 'max_err')
        adh = float(hi.split('/')[1]) if str(hi).startswith('adherence/') else None
        seen = []

        def mine(x, y, x_start, x_end, y_start, y_end):
            seen.append((x_start, x_end))
            return 0.5

        kw = {} if names is None else {'index_bounds': names}
        out = d.apply(s, index_type=mine, **kw)
        at = positions(which, m)
        for o, i in zip(out, at):
            each = []
            for q, l in enumerate(L):
                e = abs(error(S, metric, rows[i][l], expected(which, rows, offsets, l, i)))
                if adh:
                    curve = world_.curves[q]
                    # The density at the mode, then where it is a fraction of it
                    (xm, ym), (x1, y1) = curve.points[0], curve.points[1]
                    S.check(S.and_(S.eq(xm, curve.mode), S.eq(y1 * adh, ym)), 'where the density is that fraction of its top')
                    b = x1
                else:
                    b = top[hi]
                S.check(S.all([S.and_(S.eq(x0, top[lo]), S.any([S.eq(x1, b)] if len(L) == 1 or not adh else [True])) for x0, x1 in seen]), 'the bounds')
                each.append((e, top[lo], b))
            x = o.data_indexes['anomaly']
            S.check(S.implies(S.all([e <= b0 for e, b0, b1 in each]), S.eq(x, 0)), 'zero up to the lower bound')
            # (the lower bound goes first where they cross)
            S.check(S.implies(S.any([S.and_(e >= b1, e > b0) for e, b0, b1 in each]), S.eq(x, 1)), 'one from the upper bound')
            S.check(S.implies(S.any([S.and_(e > b0, e < b1) for e, b0, b1 in each]), S.le(0.5, x)), 'in between')


@case('C21', quick=[dict(which=w) for w in ('forecaster', 'reconstructor', 'context')])
def details(S, which):
    """The details are the prediction, the error and the density relative to its top; and the threshold."""
    L = ['b', 'a'] if which != 'reconstructor' else ['a']
    kind = S.choice('kind', ['points', 'slots'])
    wanted = S.choice('details', [True, False, ['pred'], ['err', 'adh'], []])
    threshold = S.choice('threshold', [None, 0, 0.25, 1])
    modes = [0.5 * (i + 1) for i in range(len(L))]
    with world(S, modes, Line):
        m = 3 + (1 if which == 'reconstructor' else 0)
        s, rows, offsets = series_for(S, which, kind, m, L)
        d = detector(S, which, L=sorted(L), kind=kind, offsets=offsets)
        before = snap(s)
        was = state(d)
        out = d.apply(s, index_bounds=(2, 30), index_type='lin', details=wanted, threshold=threshold)
        S.check(same_snap(S, snap(s), before), 'the series is unchanged')
        S.check(same_state(S, state(d), was), 'the model is unchanged')
        at = positions(which, m)
        check_kept(S, 'items', s, out, at)
        kinds = ['pred', 'err', 'adh'] if wanted is True else (wanted or [])
        for o, i in zip(out, at):
            S.check(set(o.data) == set(L) | {'%s_%s' % (l, k) for l in L for k in kinds}, 'only the details asked for')
            exact = []
            for q, l in enumerate(sorted(L)):
                p = expected(which, rows, offsets, l, i)
                e = abs(rows[i][l] - p)
                line = Line(S, '', modes[q])
                for k, v in (('pred', p), ('err', e), ('adh', line(e) / line(modes[q]))):
                    if k in kinds:
                        S.check(S.eq(o.data['%s_%s' % (l, k)], v), 'detail: ' + k)
                exact.append(S.ite(e <= 2, 0, S.ite(e >= 30, 1, (e - 2) / 28)))
            best = exact[0]
            for x in exact[1:]:
                best = S.ite(x > best, x, best)
            got = o.data_indexes['anomaly']
            if threshold is None:
                # (a straight line, the density being one here)
                S.check(S.eq(got, best), 'the index')
            else:
                S.check(S.implies(best >= threshold + Fraction(1, 10**6), S.eq(got, 1)), 'one over the threshold')
                S.check(S.implies(best <= threshold - Fraction(1, 10**6), S.eq(got, 0)), 'zero below the threshold')
                if threshold in (0, 1):
                    es = [abs(rows[i][l] - expected(which, rows, offsets, l, i)) for l in L]
                    exactly = S.all([e <= 2 - Fraction(1, 10**6) for e in es]) if threshold == 0 else S.any([e >= 30 + Fraction(1, 10**6) for e in es])
                    S.check(S.implies(exactly, S.eq(got, 1)), 'one at the threshold')
                S.check(S.or_(S.eq(got, 0), S.eq(got, 1)), 'one or zero')


@case('C21', quick=[dict(which=w) for w in ('forecaster', 'reconstructor', 'context')])
def preprocess(S, which):
    """Applying to a preprocessed series is the same as applying."""
    L = ['a', 'b'] if which == 'context' else ['a']
    kind = S.choice('kind', ['points', 'slots'])
    with world(S, [0.5] * len(L), Line):
        m = 4 + (1 if which == 'reconstructor' else 0)
        s, rows, offsets = series_for(S, which, kind, m, L)
        d = detector(S, which, L=L, kind=kind, offsets=offsets)
        before = snap(s)
        inplace = S.choice('inplace', [False, True])
        done = d.preprocess(s, inplace=inplace)
        S.check((done is s) == inplace, 'in place if asked')
        S.check(same_snap(S, snap(s), before) and same_snap(S, snap(done), before), 'the items are unchanged')
        kw = dict(index_bounds=(-1, 1000), index_type=lambda x, *rest: x / 1000, details=True)
        plain, _ = make(S, kind, 3600, m, BASE + 7200, {l: [r[l] for r in rows] for l in L}, None)
        a = d.apply(plain, **kw)
        b = d.apply(done, **kw)
        S.check(same_snap(S, snap(a), snap(b)), 'same result')
        # Another detector does its own
        others = {l: [x + 1 for x in offsets[l]] for l in L}
        e = detector(S, which, L=L, kind=kind, offsets=others)
        S.check(same_snap(S, snap(e.apply(plain, **kw)), snap(e.apply(done, **kw))), 'same result for another detector')


@case('C21', quick=[dict(which=w, metric=m) for w in ('forecaster', 'reconstructor', 'context') for m in ('E', 'AE', 'PE', 'APE')])
def fit(S, which, metric):
    """The distributions are fitted on the errors of the model, each label its own, wherever it can predict."""
    from timeseria.models.anomaly_detectors import ModelBasedAnomalyDetector
    L = ['a', 'b']
    kind = S.choice('kind', ['points', 'slots'])
    store = S.choice('store', [True, False])
    w = S.choice('window', [1, 2])
    n = 2 * w + 3
    with world(S, [0.5, 1.5], Line) as world_:
        s, rows, offsets = series_for(S, which, kind, n, L, metric=metric, w=w)
        d = ModelBasedAnomalyDetector(predictor(which, offsets, S.choice('shape', ['dict', 'lists', 'list']), w))
        before = snap(s)
        if S.choice('again', [False, True]):
            # Nothing remains of a previous fit
            more, _ = make(S, kind, 3600, n + 1, BASE, {l: [2.0 ** i for i in range(n + 1)] for l in L}, None)
            wider = {l: offsets[l] + [0] for l in L}
            d._model_class = predictor(which, wider, 'dict', w)
            d.fit(more, error_metric='E', with_context=which == 'context')
            d._model_class = predictor(which, offsets, 'dict', w)
            del world_.fits[:]
        d.fit(s, error_metric=metric, store_errors=store, with_context=which == 'context')
        S.check(same_snap(S, snap(s), before), 'the series is unchanged')
        S.check(len(world_.fits) == 2, 'one for each label')
        for q, l in enumerate(L):
            at = positions(which, n, w)
            ps = [expected(which, rows, offsets, l, i, w) for i in at]
            es = [error(S, metric, rows[i][l], p) for i, p in zip(at, ps)]
            S.check(len(world_.fits[q][0]) == len(es), 'an error for each position')
            S.check(S.eqd(world_.fits[q][0], es), 'the errors')
            S.check(world_.fits[q][1] == ['gennorm'], 'the distribution asked for')
            S.check(d.data['error_distributions_params'][l]['loc'] == 0.5 + q, 'its own distribution')
            import timeseria.models.anomaly_detectors as a
            S.check(S.eq(d.data['stdevs'][l], a.stdev(es)), 'their deviation')
            if store:
                S.check(S.all([S.eqd(d.data['actual_values'][l], [rows[i][l] for i in at]), S.eqd(d.data['predicted_values'][l], ps),
                               S.eqd(d.data['prediction_errors'][l], es)]), 'stored as they are')
            else:
                S.check('prediction_errors' not in d.data and 'actual_values' not in d.data, 'not stored')
        S.check(d.data['model_window'] == w and d.data['error_metric'] == metric and d.fitted, 'what it was fitted with')
        ids = [x.id for x in d.models.values()] if which == 'context' else [d.model.id]
        S.check((sorted(d.data['model_ids'].values()) if which == 'context' else [d.data['model_id']]) == sorted(ids), 'the ids of the models')


class any_density:
    """SciPy's side of a distribution: an unimodal density around its location, and the bisection (of which
    all that is known is that it wants a change of sign, and that it ends where the function is zero)."""

    def __init__(self, S, curve):
        self.S, self.curve = S, curve

    def bisect(self, f, a, b):
        S = self.S
        if bool(f(a) * f(b) > 0):
            raise ValueError('f(a) and f(b) must have different signs')
        lo, hi = (a, b) if bool(a <= b) else (b, a)
        x = S.real('root', -1000000, 1000000)
        S.assume(S.and_(lo <= x, x <= hi))
        S.assume(f(x) == 0)
        return x

    def __enter__(self):
        from timeseria import utilities
        me = self

        class Named:
            def pdf(self, x, loc, scale):
                return me.curve(x)

        class Stats:
            anydist = Named()

        class SciPy:
            stats = Stats

        class Optimize:
            bisect = brentq = brenth = ridder = staticmethod(me.bisect)
        SciPy.optimize = Optimize
        self.m = utilities
        self.before = {k: getattr(utilities, k) for k in ('optimize', 'scipy', 'stats') if hasattr(utilities, k)}
        for k in self.before:
            setattr(utilities, k, {'optimize': Optimize, 'scipy': SciPy, 'stats': Stats}[k])
        return self

    def __exit__(self, *a):
        for k in self.before:
            setattr(self.m, k, self.before[k])


@case('C21', quick=[dict(side=s) for s in ('right', 'left', None)])
def density(S, side):
    """Where a density has a given value (as for the bounds by adherence), on the side asked for, wherever it is and
    however narrow."""
    from timeseria.utilities import DistributionFunction
    loc = S.real('loc', -10000, 10000)
    scale = S.choice('scale', [1, 0.001, 2.5])
    curve = Curve(S, 'd', loc)
    sign = -1 if side == 'left' else 1
    with any_density(S, curve):
        d = DistributionFunction('anydist', {'loc': loc, 'scale': scale})
        top = d(loc)
        far = d(loc + sign * 1000 * scale)
        y = S.real('y', 0, 100)
        S.assume(S.and_(top > y, far < y))
        x = d.find_x(y) if side is None else d.find_x(y, side=side)
        S.check(x * sign >= loc * sign, 'on that side')
        S.check(abs(x - loc) <= 1000 * scale, 'within reach')
        S.check(d(x) == y, 'where the density is the one asked for')
        S.check(S.refused(lambda: d.find_x(y, side='top'), ValueError), 'no other sides')
