"""C29: guessing the sampling interval, and the validity regions from it."""
from symx.api import case
from .common import *


def exact(S, a, b):
    return S.and_(a <= b, a >= b)


def place(S, kind, n):
    """n points anywhere."""
    if kind == 'seconds':
        gaps = [S.int('g%d' % i, 1, 4000) for i in range(n - 1)]
    else:
        gaps = [S.int('g%d' % i, 1, 8000) / 4 for i in range(n - 1)]       # By quarters of a second
    t = [B + S.int('t0', 0, 100)]
    for g in gaps:
        t.append(t[-1] + g)
    return t, gaps


def count(S, gaps, x):
    return sum(S.ite(exact(S, g, x), 1, 0) for g in gaps)


def most_common(S, gaps, x):
    """Whether it is a spacing which occurs, as often as any other."""
    c = count(S, gaps, x)
    return S.and_(c >= 1, S.all(c >= count(S, gaps, g) for g in gaps))


@case('C29', quick=[dict(kind=k, n=n) for k in ('seconds', 'fractions') for n in (2, 3, 4, 5)] + [dict(kind='seconds', n=3, epoch=-1), dict(kind='seconds', n=4, epoch=0)],
      thorough=[dict(kind=k, n=n) for k in ('seconds', 'fractions') for n in (2, 3, 4, 5, 6, 7)] + [dict(kind='seconds', n=3, epoch=-1), dict(kind='seconds', n=4, epoch=0)])
def detected(S, kind, n):
    """The interval detected for points placed anywhere."""
    from timeseria.utilities import detect_sampling_interval
    t, gaps = place(S, kind, n)
    s = point_series(S, t, [{'a': S.real('a%d' % i)} for i in range(n)], [{'data_loss': S.real('l%d' % i, 0, 1)} for i in range(n)])
    how = S.choice('how', ['plain', 'confidence', 'series', 'guess'])
    if how == 'plain':
        got, c = detect_sampling_interval(s), None
    elif how == 'confidence':
        got, c = detect_sampling_interval(s, confidence=True)
    elif how == 'series':
        if S.choice('first', ['value', 'confidence']) == 'value':
            got, c = s._autodetected_sampling_interval, s._autodetected_sampling_interval_confidence
        else:
            c, got = s._autodetected_sampling_interval_confidence, s._autodetected_sampling_interval
    else:
        regular = S.all(S.eq(g, gaps[0]) for g in gaps)
        box = []
        e = S.refused(lambda: box.append(s.guess_resolution(confidence=True)), ValueError)
        if regular:
            S.check(e is not None, 'nothing to guess for a series which has a resolution')
            return
        S.check(e is None, 'guessed')
        S.check(set(box[0]) == {'value', 'confidence'}, 'value and confidence')
        u, c = box[0]['value'], box[0]['confidence']
        got = u.as_seconds()
        S.check(s.guess_resolution() == u, 'the same without the confidence')
    S.check(most_common(S, gaps, got), 'a spacing which occurs most often')
    if c is not None:
        S.check(S.and_(c >= 0, c <= 1), 'a confidence between zero and one')
        same = S.all(exact(S, g, gaps[0]) for g in gaps)
        S.check(S.implies(same, S.eq(c, 1)), 'certain if all are equal')
        S.check(S.implies(S.not_(same), c < 1), 'not certain otherwise')
        top = count(S, gaps, got)
        S.check(S.implies(S.eq(c, 0), S.any(S.and_(S.not_(exact(S, g, got)), S.eq(count(S, gaps, g), top)) for g in gaps)),
                'no confidence only if another one occurs as often')


@case('C29', quick=[dict(n=4)], thorough=[dict(n=4), dict(n=5)])
def again(S, n):
    """The guess follows the series as points are added and removed."""
    t, gaps = place(S, 'seconds', n)
    s = point_series(S, t[:-1], [{'a': 0}] * (n - 1))
    guess = lambda: s._autodetected_sampling_interval
    S.check(most_common(S, gaps[:-1], guess()), 'a spacing which occurs most often')
    box = []
    S.refused(lambda: box.append(s.guess_resolution(confidence=True)), ValueError)
    d = ts()
    s.append(d.DataTimePoint(t=t[-1], data={'a': 0}))
    S.check(most_common(S, gaps, guess()), 'with one more')
    if s.resolution == 'variable':
        S.check(most_common(S, gaps, s.guess_resolution().as_seconds()), 'guessed with one more')
        c = s.guess_resolution(confidence=True)['confidence']
        S.check(S.implies(S.eq(c, 1), S.all(exact(S, g, gaps[0]) for g in gaps)), 'certain only if all are equal')
        S.check(S.eq(c, point_series(S, t, [{'a': 0}] * n).guess_resolution(confidence=True)['confidence']), 'as confident as if they had always been there')
    s.pop(0)
    S.check(most_common(S, gaps[1:], guess()), 'with the first one removed')
    if s.resolution == 'variable':
        S.check(most_common(S, gaps[1:], s.guess_resolution().as_seconds()), 'guessed with the first one removed')


@case('C29', quick=[dict(n=22)], thorough=[dict(n=22), dict(n=30)])
def jitter(S, n):
    """Many points of which no two spacings are the same: rounded to the second, or refused."""
    from timeseria.utilities import detect_sampling_interval
    step = S.choice('step', [2, 600])
    kind = S.choice('kind', ['jitter', 'drift', 'short'])
    e = S.int('e', 1, 10) if kind == 'drift' else S.real('e', 0.001, 0.01)
    base = {'jitter': step - 0.15, 'short': 0.1, 'drift': step}[kind]
    gaps = [base + (i + 1) * e for i in range(n - 1)]
    t = [B]
    for g in gaps:
        t.append(t[-1] + g)
    s = point_series(S, t, [{'a': 0}] * n)
    box = []
    x = S.refused(lambda: box.append(detect_sampling_interval(s, confidence=True)))
    if kind == 'jitter':
        S.check(x is None, 'detected')
        S.check(S.and_(S.eq(box[0][0], step), S.eq(box[0][1], 1)), 'the spacing up to the second')
        S.check(S.eq(s.guess_resolution().as_seconds(), step), 'guessed')
    elif kind == 'drift':
        S.check(isinstance(x, ValueError), 'refused')
        S.check(isinstance(S.refused(lambda: s.guess_resolution()), ValueError), 'not guessed')
        S.check('variable resolution' in repr(s), 'still described')
    elif x is None:
        S.check(S.any(exact(S, g, box[0][0]) for g in gaps), 'one which occurs')
        S.check(S.and_(box[0][1] >= 0, box[0][1] <= 1), 'a confidence between zero and one')
    else:
        S.check(isinstance(x, ValueError), 'refused')


@case('C29', quick=[dict()])
def undefined(S):
    """No points, one point, slots: a clear error."""
    d = ts()
    t = B + S.int('t', 0, 100)
    for s in (d.TimeSeries(), point_series(S, [t], [{'a': 0}])):
        for conf in (True, False):
            S.check(isinstance(S.refused(lambda: s.guess_resolution(confidence=conf)), ValueError), 'nothing to guess from')
    s = point_series(S, [t], [{'a': 0}])
    S.check(isinstance(S.refused(lambda: s._autodetected_sampling_interval), ValueError), 'nothing to detect from')
    S.check(isinstance(S.refused(lambda: s._autodetected_sampling_interval_confidence), ValueError), 'nothing to detect from')
    S.check(isinstance(S.refused(lambda: s.resample(60)), ValueError), 'cannot be resampled')
    S.check(isinstance(S.refused(lambda: s.aggregate('1m')), ValueError), 'cannot be aggregated')
    sl = slot_series(S, t, 3600, [{'a': 0}, {'a': 1}])
    S.check(isinstance(S.refused(lambda: sl.guess_resolution()), NotImplementedError), 'slots have their own')


def regions_ok(S, s, got, h, keys, what):
    r = [got[t] for t in keys]
    for t, (a, b) in zip(keys, r):
        S.check(S.and_(a <= t, t <= b), what + ': contain their point')
        S.check(S.and_(S.le(t - h, a), S.le(b, t + h)), what + ': half the interval at most')
    for x, y in zip(r, r[1:]):
        S.check(S.le(x[1], y[0]), what + ': never overlap')


@case('C29', quick=[dict(n=n) for n in (1, 2, 3, 4)] + [dict(n=5)] + [dict(n=3, epoch=-10)], thorough=[dict(n=n) for n in range(1, 7)] + [dict(n=5)] + [dict(n=3, epoch=-10)])
def regions(S, n):
    """Validity regions of points placed anywhere, for any interval or the detected one."""
    from timeseria.utilities import _compute_validity_regions
    t, gaps = place(S, 'fractions', n)
    s = point_series(S, t, [{'a': S.real('a%d' % i)} for i in range(n)])
    before = snap(s)
    if n > 1 and S.choice('interval', ['any', 'detected']) == 'detected':
        got = _compute_validity_regions(s)
        v = s._autodetected_sampling_interval
    else:
        v = S.real('v', 0.5, 2000)
        got = _compute_validity_regions(s, sampling_interval=v)
    S.check(same_snap(S, snap(s), before), 'the series is unchanged')
    S.check(S.eqs(list(got), t), 'one for each point')
    h = v / 2
    regions_ok(S, s, got, h, t, 'regions')
    for i in range(n):
        a, b = got[t[i]]
        if i:
            far = gaps[i - 1] >= v
            S.check(S.eq(a, S.ite(far, t[i] - h, (t[i - 1] + t[i]) / 2)), 'as far back as they can')
        else:
            S.check(S.eq(a, t[0] - h), 'from half the interval before')
        if i < n - 1:
            far = gaps[i] >= v
            S.check(S.eq(b, S.ite(far, t[i] + h, (t[i] + t[i + 1]) / 2)), 'as far ahead as they can')
        else:
            S.check(S.eq(b, t[-1] + h), 'to half the interval after')


@case('C29', quick=[dict(n=n) for n in (2, 3)] + [dict(n=2, epoch=-10)], thorough=[dict(n=n) for n in (2, 3, 4)] + [dict(n=2, epoch=-10)])
def within(S, n):
    """Validity regions in a part of the time only."""
    from timeseria.utilities import _compute_validity_regions
    t, gaps = place(S, 'seconds', n)
    s = point_series(S, t, [{'a': 0} for i in range(n)])
    v = S.int('v', 1, 2000)
    cut = S.choice('cut', [True, False])
    lo = B + S.int('lo', -2000, 6000)
    hi = lo + S.int('span', 1, 6000)
    got = _compute_validity_regions(s, from_t=lo, to_t=hi, sampling_interval=v, cut=cut)
    keys = list(got)
    h = v / 2
    for x in t:
        among = S.any(exact(S, x, k) for k in keys)
        S.check(S.implies(among, S.and_(x + h > lo, x - h <= hi)), 'only points which are valid there')
        S.check(S.implies(S.and_(x + h > lo, x - h <= hi) if not cut else S.and_(x > lo, x < hi), among), 'the points which are valid there')
    S.check(S.all(x < y for x, y in zip(keys, keys[1:])), 'in order')
    if not cut:
        regions_ok(S, s, got, h, keys, 'regions')
    else:
        for k in keys:
            a, b = got[k]
            S.check(S.and_(S.le(lo, a), S.le(b, hi)), 'cut to the part')
            S.check(S.and_(S.le(k - h, a), S.le(b, k + h)), 'half the interval at most')
            S.check(S.le(a, b), 'a region')
            inside = S.and_(lo <= k, k <= hi)
            S.check(S.implies(inside, S.and_(S.le(a, k), S.le(k, b))), 'contain their point, if there')
        for x, y in zip(keys, keys[1:]):
            S.check(S.le(got[x][1], got[y][0]), 'never overlap')
