"""C26: the windows handed to window-based models."""
from symx.api import case
from .common import *
from .p_c17 import make
from . import zones
from .p_c14 import table

BASE = 1546300800       # 2019-01-01 00:00 UTC


class Network:
    """Stands in for the neural network: notes what it is given, answers what it is told."""

    def __init__(self, answer=None):
        self.answer = answer
        self.fits = []
        self.asked = []

    def fit(self, x, y, epochs=None, verbose=None):
        self.fits.append(([[list(i) for i in w] for w in x], [list(t) for t in y]))

    def predict(self, x, verbose=None):
        self.asked.append([[list(i) for i in w] for w in x])
        return [self.answer]


def model(window, features, answer=None):
    from timeseria.models.forecasters import LSTMForecaster
    n = Network(answer)
    return LSTMForecaster(window=window, features=list(features), keras_model=n), n


def expected_item(S, rows, k, L, features, hours, known=None):
    """The features of the k-th of the given rows (None where the value is not to be known)."""
    out = []
    if 'values' in features:
        for l in L:
            out.append(rows[k].get(l, 0.0))
    if 'diffs' in features:
        for l in L:
            a, b = (0, 1) if k == 0 else ((k - 1, k) if k == len(rows) - 1 else (k - 1, k + 1))
            if l in rows[a] and l in rows[b]:
                out.append(('diff', (rows[b][l] - rows[a][l]) / (b - a)))
            else:
                out.append(0.0)
    if 'hours' in features:
        out.append(hours[k] / 24.0)
    return out


def item_ok(S, got, exp):
    if len(got) != len(exp):
        return False
    conds = []
    for g, e in zip(got, exp):
        if isinstance(e, tuple):
            # Where nothing changes, a placeholder may be put in place of zero
            conds.append(S.or_(S.eq(g, e[1]), S.and_(e[1] == 0, S.eq(g, 1))))
        else:
            conds.append(S.eq(g, e))
    return S.all(conds)


def hours_at(S, t, tab):
    return ((t + zones.offset(t, tab)) % 86400) // 3600


def windows_ok(S, net, rows, times, window, L, targets, context, features, step, tab, use):
    X, Y = net.fits[-1]
    S.check(len(X) == len(use) and len(Y) == len(use), 'one window for each target position having a full one')
    for x, y, i in zip(X, Y, use):
        part = [dict(r) for r in rows[i - window:i]]
        if context:
            part.append({l: rows[i][l] for l in context})
        hours = [hours_at(S, t, tab) for t in times[i - window:i + (1 if context else 0)]] if 'hours' in features else None
        S.check(len(x) == len(part), 'the items of the window')
        for k in range(len(part)):
            S.check(item_ok(S, x[k], expected_item(S, part, k, L, features, hours)), 'each item in its place, each label in its column')
        S.check(S.eqs(y, [rows[i][l] for l in targets]), 'the target is the item right after')


FEATURES = [('values',), ('diffs',), ('values', 'diffs'), ('values', 'hours'), ('hours', 'diffs', 'values')]


def targeting(S, L):
    """What is targeted: everything, one label, or some of them, with the rest as context or not."""
    if len(L) == 1:
        return S.choice('target', [dict(target='all'), dict(target=L[0]), dict(target=[L[0]])]), L, None
    which = S.choice('target', ['all', 'one', 'list', 'both', 'one in context', 'list in context'])
    o = sorted(L)
    if which == 'all':
        return dict(), o, None
    if which == 'one':
        return dict(target='b'), ['b'], None
    if which == 'list':
        return dict(target=['a']), ['a'], None
    if which == 'both':
        return dict(target=['b', 'a']), ['b', 'a'], None
    t = S.choice('in context', o)
    return dict(target=t if which == 'one in context' else [t], with_context=True), [t], [l for l in o if l != t]


def growing(S, l, n):
    """Values which always grow (where nothing changes every difference is decided on its own)."""
    out = [S.real(l + '_first')]
    for x in S.reals(l, n - 1, 0.01, 10):
        out.append(out[-1] + x)
    return out


@case('C26', quick=[dict(window=w, n=n) for w, n in ((1, 2), (1, 3), (2, 3), (2, 4), (3, 5))] + [dict(window=2, n=12)] + [dict(window=2, n=4, epoch=-1200)],
      thorough=[dict(window=w, n=n) for w, n in ((1, 2), (1, 4), (2, 3), (2, 4), (2, 5), (3, 5), (3, 6), (4, 6))] + [dict(window=2, n=12)] + [dict(window=2, n=4, epoch=-1200)])
def fitted(S, window, n):
    """What the network is fitted on, with values as they are."""
    kind = S.choice('kind', ['points', 'slots'])
    L = S.choice('labels', [['a'], ['b', 'a']])
    features = S.choice('features', FEATURES)
    kw, targets, context = targeting(S, L)
    if window == 1 and not context and 'diffs' in features:
        return
    z = S.choice('zone', ['UTC', 'Europe/Rome']) if 'hours' in features else 'UTC'
    step = S.choice('step', [3600, 900])
    t0 = BASE + (S.int('hour', 0, 23) * 3600 if 'hours' in features else 0)
    cols = {l: S.reals(l, n) if 'diffs' not in features or n < 3 else growing(S, l, n) for l in L}
    s, rows = make(S, kind, step, n, t0, cols, None, tz=z)
    before = snap(s)
    m, net = model(window, features)
    m.fit(s, normalize=False, **kw)
    S.check(same_snap(S, snap(s), before), 'the series is unchanged')
    S.check(len(net.fits) == 1, 'fitted once')
    windows_ok(S, net, rows, [t0 + i * step for i in range(n)], window, sorted(L), targets, context, features, step, table(z), range(window, n))
    S.check(m.data['target_data_labels'] == targets and (m.data['context_data_labels'] or None) == context, 'targets and context')


@case('C26', quick=[dict(window=1, n=3), dict(window=2, n=4)], thorough=[dict(window=1, n=4), dict(window=2, n=5), dict(window=3, n=5)],
      covers=('refused', 'some'))
def losses(S, window, n):
    """Items with too much data loss are neither in the windows nor targeted."""
    kind = S.choice('kind', ['points', 'slots'])
    limit = S.choice('limit', ['default', 0.5, None, 0])
    cols = {l: S.reals(l, n) for l in ('b', 'a')}
    loss = S.reals('loss', n, 0, 1)
    if S.choice('none', [False, True]):
        loss[1] = None
    s, rows = make(S, kind, 3600, n, BASE, cols, [{'data_loss': x} for x in loss])
    top = {'default': 1, None: 2}.get(limit, limit)
    bad = [x is not None and bool(x >= top) for x in loss]
    use = [i for i in range(window, n) if not any(bad[i - window:i + 1])]
    m, net = model(window, ('values',))
    e = S.refused(lambda: m.fit(s, normalize=False, **({} if limit == 'default' else dict(data_loss_limit=limit))))
    if not use:
        S.cover('refused')
        S.check(e is not None and not net.fits and not m.fitted, 'nothing to fit on is refused')
        return
    S.cover('some')
    S.check(e is None, 'fitted')
    windows_ok(S, net, rows, None, window, ['a', 'b'], ['a', 'b'], None, ('values',), 3600, None, use)


def scaled(S, v, lo, hi, got):
    """Scaled between zero and one, and scaling back gives it again (a constant is just something)."""
    return S.and_(S.eq(got * (hi - lo) + lo, v), S.and_(S.le(0, got), S.le(got, 1)))


@case('C26', quick=[dict(shape=x) for x in ('plain', 'context', 'some')], thorough=[dict(shape=x, n=n) for x in ('plain', 'context', 'some') for n in (3, 4)])
def scaling(S, shape, n=3):
    """Values scaled between zero and one when fitting and predicting, and predictions scaled back."""
    kind = S.choice('kind', ['points', 'slots'])
    window = 1 if n == 3 else 2
    if S.choice('constant', [False, True]):
        c = S.real('c')
        cols = {'b': S.reals('b', n), 'a': [c] * n}
    else:
        cols = {'b': S.reals('b', n), 'a': [float(i * 3 % 5) for i in range(n)]}
    L = ['a', 'b']
    if shape == 'some':
        L, cols = ['a', 'b', 'c'], dict(c=[float(7 - i) for i in range(n)], **cols)
    s, rows = make(S, kind, 3600, n, BASE, cols, None)
    ans = {l: S.real('y' + l, -2, 2) for l in L}
    targets, context = {'plain': (L, []), 'context': (['b'], ['a'])}.get(shape) or (S.choice('some', [['b', 'c'], ['c', 'b'], ['c', 'a'], ['c']]), [])
    m, net = model(window, ('values',), [ans[l] for l in targets])
    before = snap(s)
    m.fit(s, **({'plain': {}, 'context': dict(target='b', with_context=True)}.get(shape, dict(target=targets))))
    S.check(same_snap(S, snap(s), before), 'the series is unchanged')
    lo = {l: low(S, [r[l] for r in rows]) for l in L}
    hi = {l: -low(S, [-r[l] for r in rows]) for l in L}
    X, Y = net.fits[0]

    def fine(l, v, got):
        const = S.eq(lo[l], hi[l], eps=1e-9)
        return S.or_(S.and_(const, S.le(abs(got), 1)), scaled(S, v, lo[l], hi[l], got))
    for x, y, i in zip(X, Y, range(window, n)):
        part = rows[i - window:i]
        for k, r in enumerate(part):
            S.check(S.all(fine(l, r[l], x[k][L.index(l)]) for l in L), 'scaled')
        for l in context:
            S.check(fine(l, rows[i][l], x[window][L.index(l)]), 'context scaled')
        S.check(S.all(fine(l, rows[i][l], y[j]) for j, l in enumerate(targets)), 'target scaled')
    S.check(len(X) == n - window, 'all the windows')
    kw = {'context_data': {'a': rows[0]['a']}} if context else {}
    given = dict(kw.get('context_data', {}))
    got = m.predict(s, **kw)
    S.check(same_snap(S, snap(s), before), 'the series is unchanged by predicting')
    S.check(S.eqd(given, kw.get('context_data', {})), 'the context is unchanged')
    S.check(len(net.asked) == 1 and len(net.asked[0]) == 1, 'asked once')
    x = net.asked[0][0]
    S.check(len(x) == window + (1 if context else 0), 'the last window')
    for k, r in enumerate(rows[n - window:]):
        S.check(S.all(fine(l, r[l], x[k][L.index(l)]) for l in L), 'last window scaled')
    if context:
        S.check(fine('a', rows[0]['a'], x[window][0]), 'context scaled')
    S.check(set(got) == set(targets), 'what is targeted')
    for l in targets:
        wide = hi[l] > lo[l]
        S.check(S.implies(wide, S.eq(got[l], ans[l] * (hi[l] - lo[l]) + lo[l])), 'scaled back')


def low(S, xs):
    r = xs[0]
    for x in xs[1:]:
        r = S.ite(x < r, x, r)
    return r


@case('C26', quick=[dict(window=w, n=n) for w, n in ((1, 1), (1, 3), (2, 2), (2, 4), (3, 4))] + [dict(window=2, n=12)] + [dict(window=2, n=4, epoch=-1200)],
      thorough=[dict(window=w, n=n) for w, n in ((1, 1), (1, 3), (2, 2), (2, 3), (2, 5), (3, 3), (3, 5), (4, 4), (4, 6))] + [dict(window=2, n=12)] + [dict(window=2, n=4, epoch=-1200)])
def asked(S, window, n):
    """What the network is asked: the last window, with the context following it, and nothing before."""
    kind = S.choice('kind', ['points', 'slots'])
    L = ['b', 'a']
    features = S.choice('features', FEATURES)
    with_context = S.choice('context', [False, True])
    if window == 1 and not with_context and 'diffs' in features:
        return
    z = S.choice('zone', ['UTC', 'Europe/Rome']) if 'hours' in features else 'UTC'
    t0 = BASE + (S.int('hour', 0, 23) * 3600 if 'hours' in features else 0)
    train, _ = make(S, kind, 3600, window + 1, BASE - 86400, {l: [1.0 + i for i in range(window + 1)] for l in L}, None, tz=z)
    cols = {l: S.reals(l, n) for l in L}
    s, rows = make(S, kind, 3600, n, t0, cols, None, tz=z)
    targets = ['a'] if with_context else ['a', 'b']
    ans = S.reals('y', len(targets))
    m, net = model(window, features, ans)
    m.fit(train, normalize=False, **(dict(target='a', with_context=True) if with_context else {}))
    before = snap(s)
    cb = S.real('cb')
    got = m.predict(s, **({'context_data': {'b': cb}} if with_context else {}))
    S.check(same_snap(S, snap(s), before), 'the series is unchanged')
    S.check(S.eqd(got, dict(zip(targets, ans))), 'the answer, label by label')
    part = [dict(r) for r in rows[n - window:]] + ([{'b': cb}] if with_context else [])
    hours = None
    if 'hours' in features:
        tab = table(z)
        hours = [hours_at(S, t0 + 3600 * i, tab) for i in range(n - window, n + (1 if with_context else 0))]
    x = net.asked[0][0]
    S.check(len(net.asked) == 1 and len(x) == len(part), 'the last window')
    for k in range(len(part)):
        S.check(item_ok(S, x[k], expected_item(S, part, k, ['a', 'b'], features, hours)), 'each item in its place, each label in its column')
    if with_context:
        S.check(S.refused(lambda: m.predict(s)) is not None, 'the context is required')
    else:
        S.check(S.refused(lambda: m.predict(s, context_data={'b': cb})) is not None, 'no context is expected')
    if n > 1:
        S.check(n - 1 >= window or S.refused(lambda: m.predict(s[0:n - 1], **({'context_data': {'b': cb}} if with_context else {}))) is not None,
                'not enough for a window is refused')


@case('C26', quick=[dict()])
def again(S):
    """Fitted again on other data, or in another way: as if it were the first time."""
    cols = {'a': [1.0, 5.0, 3.0]}
    s1, _ = make(S, 'points', 3600, 3, BASE, cols, None)
    v = S.reals('v', 3)
    s2, rows = make(S, 'points', 3600, 3, BASE, {'a': v}, None)
    y = S.real('y', -2, 2)
    m, net = model(1, ('values',), [y])
    m.fit(s1)
    m.fit(s2, normalize=False)
    S.check(S.eqs([w[0][0] for w in net.fits[1][0]], v[:2]), 'values as they are')
    S.check(S.eqd(m.predict(s2), {'a': y}), 'predictions as they are')
    S.check(S.eq(net.asked[-1][0][0][0], v[2]), 'the last one as it is')
    m.fit(s1)
    S.check(S.eqd(m.predict(s1), {'a': y * 4 + 1}), 'and scaled back again')
    s3, _ = make(S, 'points', 3600, 4, BASE, {'a': [-7.0, 0.5, 13.0, 2.0]}, None)
    m.fit(s3)
    S.check(S.eqd(m.predict(s3), {'a': y * 20 - 7}), 'with the scale of the last fit')
    S.check(S.eqs([w[0][0] for w in net.fits[-1][0]], [0, 0.375, 1]), 'scaled with it as well')


@case('C26', quick=[dict()])
def refused(S):
    """What cannot be fitted is refused."""
    s, _ = make(S, 'points', 3600, 3, BASE, {'a': S.reals('a', 3), 'b': S.reals('b', 3)}, None)
    m, net = model(2, ('values',))
    for kw in (dict(with_context=True), dict(target='c'), dict(target=['a', 'c']), dict(target=3), dict(minimize_error_metric='X')):
        S.check(S.refused(lambda: m.fit(s, normalize=False, **kw)) is not None, 'refused')
        S.check(not m.fitted and not net.fits, 'not fitted')
    short, _ = make(S, 'points', 3600, 2, BASE, {'a': [1.0, 2.0]}, None)
    S.check(S.refused(lambda: m.fit(short, normalize=False)) is not None, 'not enough for a window is refused')
    odd, onet = model(2, ('values', 'odd'))
    S.check(S.refused(lambda: odd.fit(s, normalize=False)) is not None and not onet.fits, 'unknown features are refused')
    multi, _ = model(2, ('values',), [1.0, 1.0])
    multi.fit(s, normalize=False)
    S.check(S.refused(lambda: multi.predict(s, steps=2)) is not None, 'one step only')


def asked_ok(S, net, at, window, rows, L, target, features, strict=True):
    """What the network was asked for the items at the given positions: the windows before them and their context only."""
    clean = []
    S.check(len(net.asked) == len(at), 'asked once for each item')
    for [x], i in zip(net.asked, at):
        part = [dict(r) for r in rows[i - window:i]] + [{l: rows[i][l] for l in L if l != target}]
        S.check(len(x) == len(part), 'the window and the context')
        for k in range(len(part)):
            ok = item_ok(S, x[k], expected_item(S, part, k, L, features, None))
            if strict:
                S.check(ok, 'each item in its place, and nothing of what is predicted')
            else:
                full = [dict(r) for r in rows[i - window:i + 1]]
                S.check(S.or_(ok, item_ok(S, x[k], expected_item(S, full, k, L, features, None))), 'each item in its place')
                clean.append(ok)
    return clean


@case('C26', quick=[dict(window=w) for w in (1, 2)], thorough=[dict(window=w, more=m) for w in (1, 2, 3) for m in (1, 2)])
def evaluated(S, window, more=1):
    """Evaluating with context: the network is not given what it has to predict."""
    kind = S.choice('kind', ['points', 'slots'])
    features = S.choice('features', [('values',), ('values', 'diffs')])
    normalize = S.choice('normalize', [False, True])
    target = S.choice('target', ['a', 'b'])
    L = ['a', 'b']
    n = window + 1 + more
    lo, hi = (-7.0, 9.0) if normalize else (0.0, 1.0)
    cols = {l: [lo + (hi - lo) * v for v in growing(S, l, n)] for l in L}
    train, _ = make(S, kind, 3600, window + 2, BASE - 86400, {l: [lo, hi] + [lo + 1] * window for l in L}, None)
    s, rows = make(S, kind, 3600, n, BASE, cols, None)
    y = S.real('y')
    m, net = model(window, features, [y])
    m.fit(train, normalize=normalize, target=target, with_context=True)
    before = snap(s)
    got = m.evaluate(s, error_metrics=['MAE'])
    S.check(same_snap(S, snap(s), before), 'the series is unchanged')
    at = list(range(window, n))
    asked_ok(S, net, at, window, [{l: (r[l] - lo) / (hi - lo) for l in L} for r in rows], L, target, features)
    S.check(set(got) == {target + '_MAE'} and S.eq(got[target + '_MAE'], sum(abs(rows[i][target] - (lo + (hi - lo) * y)) for i in at) / len(at)),
            'compared with what was to be predicted')


@case('C26', quick=[dict(window=w) for w in (1, 2)])
def detected(S, window):
    """Detecting anomalies with context: the networks are not given what they have to predict."""
    from timeseria.models.anomaly_detectors import LSTMAnomalyDetector
    from .p_c20 import faked
    features = S.choice('features', [('values',), ('values', 'diffs')])
    L = ['a', 'b']
    n = window + 3
    with faked():
        s, rows = make(S, 'points', 3600, n, BASE, {l: growing(S, l, n) for l in L}, None)
        net = Network([0.5])
        d = LSTMAnomalyDetector(window=window, features=list(features), keras_model=net)
        d.fit(s, with_context=True, error_metric='E', normalize=False)
        at = list(range(window + 1, n))
        asked, clean = list(net.asked), []
        S.check(len(asked) == 2 * len(at), 'asked once for each label of each item')
        for target in L:
            net.asked = asked[:len(at)] if target == 'a' else asked[len(at):]
            clean += asked_ok(S, net, at, window, rows, L, target, features, strict=False)
        net.asked = []
        d.apply(s, index_bounds=(100000, 200000), index_type='lin')
        asked = list(net.asked)
        S.check(len(asked) == 2 * len(at), 'asked once for each label of each item')
        for target in L:
            net.asked = asked[L.index(target)::2]
            clean += asked_ok(S, net, at, window, rows, L, target, features, strict=False)
    S.check(S.all(clean), 'nothing of what is predicted', known='detect-context')
