"""C10: resampling."""
from symx.api import case
from .common import *
from .trans import *
from .p_c09 import points, B0, LAYOUTS


def resample(series, unit, v=None):
    from timeseria.transformations import Resampler
    return Resampler(unit).process(series, validity=v)


def grid(S, times, u, span):
    """The multiples of the unit whose interval is within the data. The one whose interval begins exactly
    with the first observation may be there or not."""
    must, may = [], []
    for k in range(int(span // u) + 2):
        p = B0 + k * u
        a, b = p - u / 2, p + u / 2
        if b <= times[-1]:
            if a > times[0]:
                must.append(p)
            elif a == times[0]:
                may.append(p)
    return must, may


def check_grid(S, r, times, u, span, label='grid'):
    must, may = grid(S, times, u, span)
    got = [x.t for x in r]
    S.cover('points%d' % min(len(must), 2))
    if len(got) == len(must) + len(may):
        must = may + must
    S.check(len(got) == len(must), label + ': one point for every multiple of the unit')
    S.check(S.eqs(got, must), label + ': on the multiples of the unit')
    return got


@case('C10', quick=[dict(n=3, gap=18, first=9), dict(n=4, gap=9, first=9), dict(n=3, gap=18, first=9, epoch=-20)],
      thorough=[dict(n=3, gap=35, first=19), dict(n=4, gap=14, first=9), dict(n=5, gap=9, first=9), dict(n=3, gap=18, first=9, epoch=-20)],
      covers=('points0', 'points1'))
def placement(S, n, gap, first):
    """Points placed anywhere with respect to a 10s grid, with arbitrary values."""
    start = B0 + S.int('first', 0, first)
    gaps = [S.int('gap%d' % i, 1, gap) for i in range(n - 1)]
    v = S.choice('validity', [4, 10])
    s, times, vals = points(S, n, start, gaps)
    r = resample(s, '10s', v)
    got = check_grid(S, r, times, 10, first + n * gap)
    if len(r) > 1:
        S.check(str(r.resolution) == '10s', 'of the requested resolution')
    for x in r:
        S.check(set(x.data) == {'a'}, 'same labels')
        segs = segments(S, times, v, x.t - 5, x.t + 5)
        tot, w = weighted(S, segs, times, vals)
        S.check(S.eq(x.data['a'] * w, tot, 1e-4), 'a combination of the observations by the time they are valid for')


@case('C10', quick=[dict(n=9)], thorough=[dict(n=9), dict(n=13)])
def affine(S, n):
    """A signal growing linearly, or constant, sampled regularly is reproduced."""
    step = S.choice('step', [2, 3, 5, 6, 15, 30])
    u, unit = S.choice('unit', [(10, '10s'), (30, '30s'), (60, '1m')])
    S.assume(u % step == 0)
    start = B0 + step * S.choice('first', [0, 1, 2, 3])
    a, b = S.real('a', -50, 50), S.real('b', -10, 10)
    times = [start + step * i for i in range(n)]
    s = point_series(S, times, [{'x': a + b * (t - B0), 'c': a} for t in times])
    r = resample(s, unit, S.choice('validity', [None, step]))
    check_grid(S, r, times, u, n * 30 + 100)
    for x in r:
        S.check(S.eq(x.data['x'], a + b * (x.t - B0)), 'an affine signal is reproduced')
        S.check(S.eq(x.data['c'], a), 'constants stay constant')


@case('C10', quick=[dict(layout=k) for k in LAYOUTS])
def ranges(S, layout):
    """No value outside the range of the neighbouring observations, for each label on its own."""
    times = [B0 + x for x in LAYOUTS[layout]]
    n = len(times)
    xs, ys = S.reals('x', n, -50, 50), S.reals('y', n, -1000, 1000)
    s = point_series(S, times, [{'x': x, 'y': y} for x, y in zip(xs, ys)])
    v = S.choice('validity', [2, 5, 10])
    u = S.choice('u', [5, 10, 20])
    r = resample(s, '%ds' % u, v)
    check_grid(S, r, times, u, 60)
    for key, vals in (('x', xs), ('y', ys)):
        for x in r:
            a, b = x.t - u / 2, x.t + u / 2
            near = [vals[i] for i in range(n) if (times[i] >= a or (i + 1 < n and times[i + 1] > a))
                    and (times[i] < b or (i > 0 and times[i - 1] < b))]
            S.check(S.any(S.le(w, x.data[key]) for w in near), 'not below the observations')
            S.check(S.any(S.le(x.data[key], w) for w in near), 'not above the observations')
            segs = segments(S, times, v, a, b)
            tot, w = weighted(S, segs, times, vals)
            S.check(S.eq(x.data[key] * w, tot), 'weighted by validity')
            # losing an observation as a whole does not make its value count
            inside = [i for i in range(n) if a - v / 2 <= times[i] < b + v / 2]
            if inside:
                S.cover('inside')


@case('C10', quick=[dict(layout=k) for k in LAYOUTS])
def losses(S, layout):
    """What was lost of the observations counts for the losses of the resampled points only: their values are the same."""
    times = [B0 + x for x in LAYOUTS[layout]]
    xs = S.reals('x', len(times), -50, 50)
    rows = [{'a': x, 'b': -x} for x in xs]
    v = S.choice('validity', [2, 5])
    u = S.choice('u', [5, 10, 20])
    plain = resample(point_series(S, times, rows), '%ds' % u, v)
    at = S.choice('at', list(range(len(times))) + ['all'])
    much = S.choice('much', [0, 0.5, 1])
    r = resample(point_series(S, times, rows, [{'data_loss': much if at in ('all', i) else 0, 'anomaly': 1} for i in range(len(times))]), '%ds' % u, v)
    S.check(len(r) == len(plain) and all(x.t == y.t for x, y in zip(r, plain)), 'the same times')
    S.check(S.all([S.eqd(x.data, y.data) for x, y in zip(r, plain)]), 'the same values')


@case('C10', quick=[dict()])
def shifted(S):
    """Adding a constant to all the values adds it to all the resampled ones; scaling scales them."""
    d = S.real('d', -100, 100)
    k = S.choice('k', [1, 2, -3])
    times = [B0 + x for x in (0, 3, 9, 14, 31, 36, 40)]
    xs = S.reals('x', len(times), -50, 50)
    r1 = resample(point_series(S, times, [{'a': x} for x in xs]), '10s', 5)
    r2 = resample(point_series(S, times, [{'a': k * x + d} for x in xs]), '10s', 5)
    S.check(len(r1) == len(r2) == 3, 'same grid')
    for p, q in zip(r1, r2):
        S.check(S.and_(S.eq(p.t, q.t), S.eq(q.data['a'], k * p.data['a'] + d)), 'resampling is linear')


@case('C10', quick=[dict(layout=k) for k in LAYOUTS])
def uniform(S, layout):
    """With the uniform interpolator, gaps are filled half-way between their neighbours."""
    from timeseria.interpolators import UniformInterpolator
    from timeseria.transformations import Resampler
    times = [B0 + x for x in LAYOUTS[layout]]
    n = len(times)
    xs = S.reals('x', n, -50, 50)
    s = point_series(S, times, [{'a': x} for x in xs])
    v = S.choice('validity', [2, 5])
    u = S.choice('u', [5, 10])
    r = Resampler('%ds' % u, interpolator_class=UniformInterpolator).process(s, validity=v)
    check_grid(S, r, times, u, 60)
    for x in r:
        tot, w = 0, 0
        for f, t, i, at in segments(S, times, v, x.t - u / 2, x.t + u / 2):
            y = xs[i] if at is None else (xs[i] + xs[i + 1]) / 2
            tot, w = tot + y * (t - f), w + (t - f)
        S.check(S.eq(x.data['a'] * w, tot), 'a combination of the observations and of the mid values in the gaps')


@case('C10', quick=[dict(layout=k) for k in LAYOUTS] + [dict(layout='regular', epoch=-10), dict(layout='boundary', epoch=-20), dict(layout='sparse', epoch=-20), dict(layout='sparse', epoch=-30)])
def until(S, layout):
    """Asked to start or to end somewhere, the points are those of the whole series from there on, or up to there."""
    from propertime.utils import dt_from_s
    from timeseria.transformations import Resampler
    times = [B0 + x for x in LAYOUTS[layout]]
    s = point_series(S, times, [{'a': x} for x in S.reals('x', len(times), -50, 50)])
    v = S.choice('validity', [2, 5])
    whole = snap(resample(s, '10s', v))
    t = S.choice('to', [None, 10, 20, 30, 300])
    f = S.choice('from', [None, 20, 10, 0, -100, -B0])
    how = S.choice('how', ['epoch', 'datetime'])
    at = lambda x: None if x is None else B0 + x if how == 'epoch' else dt_from_s(B0 + x)
    out = []
    err = S.refused(lambda: out.extend(snap(Resampler('10s').process(s, validity=v, start=at(f), end=at(t)))))
    S.check(err is None, 'a start and an end can be given')
    rest = [x for x in whole if f is None or x[0] >= B0 + f]
    S.check(same_snap(S, [x[:3] + ({},) for x in out], [x[:3] + ({},) for x in rest[:len(out)]]), 'the same points')
    if t is None:
        S.check(len(out) == len(rest), 'all of them')
    else:
        S.check(len([x for x in rest if x[0] + 5 <= B0 + t]) <= len(out) <= len([x for x in rest if x[0] <= B0 + t]), 'up to there')
    S.check(S.refused(lambda: Resampler('10s').process(s, start=B0 + 13)) is not None and S.refused(lambda: Resampler('10s').process(s, end=B0 + 27)) is not None
            and S.refused(lambda: Resampler('10s').process(s, start='then')) is not None, 'those not on the grid are refused')


@case('C10', quick=[dict(layout=k) for k in ('regular', 'gap', 'boundary')] + [dict(layout='gap', epoch=-10)])
def reused(S, layout):
    """A resampler can be used again on any other series, whatever the first one was: nothing is carried over."""
    from timeseria.transformations import Resampler
    times = [B0 + x for x in LAYOUTS[layout]]
    first = S.choice('first', ['denser', 'another zone', 'refused', 'lost'])
    xs = S.reals('x', len(times), -50, 50)
    s = point_series(S, times, [{'a': x} for x in xs], tz='Europe/Rome')
    used, fresh = Resampler('10s'), Resampler('10s')
    ys = S.reals('y', 9, -50, 50)
    if first == 'denser':
        other = point_series(S, [times[0] + 2 * i for i in range(9)], [{'a': y, 'b': 1} for y in ys])
    elif first == 'another zone':
        other = point_series(S, [times[0] + 5 * i for i in range(9)], [{'a': y} for y in ys], tz='Asia/Kolkata')
    else:
        other = point_series(S, [times[0] + 5 * i for i in range(9)], [{'a': y} for y in ys], [{'data_loss': 0.5, 'anomaly': 1}] * 9)
    if first == 'refused':
        S.check(S.refused(lambda: used.process(other, start='then')) is not None, 'refused')
    else:
        used.process(other, force_data_loss=0.25)
    v = S.choice('validity', [None, 2])
    a, b = used.process(s, validity=v), fresh.process(s, validity=v)
    S.check(same_snap(S, snap(a), snap(b)), 'the same points as one never used')
    S.check(str(a.tz) == str(b.tz), 'on the same time zone')
    S.check(same_snap(S, snap(used.process(s, validity=v)), snap(b)), 'and again')
