"""C11: data loss."""
from symx.api import case
from .common import *
from .trans import *
from .p_c09 import points, B0, LAYOUTS


def process(series, target, u, v):
    from timeseria.transformations import Resampler, Aggregator
    if target == 'slots':
        return [(x.start.t, x.end.t, x) for x in Aggregator('%ds' % u).process(series, validity=v)]
    return [(x.t - u / 2, x.t + u / 2, x) for x in Resampler('%ds' % u).process(series, validity=v)]


def check_loss(S, items, times, v, losses=None, label='loss'):
    for a, b, x in items:
        got = x.data_loss
        S.check(got is not None, label + ': there')
        want = loss(S, segments(S, times, v, a, b), a, b, losses)
        S.check(S.eq(got, want), label + ': the fraction not covered')
        S.check(S.and_(S.le(0, got), S.le(got, 1)), label + ': between zero and one')
        if want == 1:
            S.cover('nothing')
        elif want == 0:
            S.cover('everything')
        else:
            S.cover('something')


@case('C11', quick=[dict(n=3, gap=24, target='slots'), dict(n=3, gap=24, target='points'), dict(n=4, gap=9, target='slots'),
                    dict(n=4, gap=9, target='points'), dict(n=3, gap=24, target='slots', epoch=-20), dict(n=3, gap=24, target='points', epoch=-20)],
      thorough=[dict(n=3, gap=35, target='slots'), dict(n=3, gap=35, target='points'), dict(n=4, gap=14, target='slots'),
                dict(n=4, gap=14, target='points'), dict(n=5, gap=8, target='slots'), dict(n=5, gap=8, target='points'), dict(n=3, gap=24, target='slots', epoch=-20), dict(n=3, gap=24, target='points', epoch=-20)],
      covers=('nothing', 'everything', 'something'))
def coverage(S, n, gap, target):
    """Points placed anywhere: the loss is what their validity leaves uncovered."""
    start = B0 + S.int('first', 0, 9)
    gaps = [S.int('gap%d' % i, 1, gap) for i in range(n - 1)]
    v = S.choice('validity', [4, 10])
    s, times, vals = points(S, n, start, gaps, values=[1.0, 5.0, 2.0, 7.0, 3.0, 4.0])
    check_loss(S, process(s, target, 10, v), times, v)


@case('C11', quick=[dict(target='slots'), dict(target='points'), dict(target='slots', epoch=-20), dict(target='points', epoch=-20)])
def regular(S, target):
    """Regularly sampled, nothing missing: no loss, whatever the phase and interval."""
    step = S.int('step', 1, 10)
    start = B0 + S.int('first', 0, 9)
    times = [start + step * i for i in range(7)]
    s = point_series(S, times, [{'a': 1.0 * i} for i in range(7)])
    v = step if S.bool('given') else None
    for a, b, x in process(s, target, 10, v):
        S.check(S.eq(x.data_loss, 0), 'no loss in gap-free data')
        S.cover('some')


@case('C11', quick=[dict(target='slots'), dict(target='points')], thorough=[dict(target='slots', n=9), dict(target='points', n=9)])
def less(S, target, n=7):
    """Taking an observation out never lowers the loss of any item."""
    first = S.choice('first', [0, 3, 5])
    step = S.choice('step', [3, 4, 5])
    jit = S.int('jitter', -1, 1)
    times = [B0 + first + step * i for i in range(n)]
    j = S.choice('j', [2, 3])
    times[j] = times[j] + jit
    k = S.choice('out', range(1, n - 1))
    v = step
    data = [{'a': 1.0 * i} for i in range(n)]
    full = process(point_series(S, times, data), target, 10, v)
    part = process(point_series(S, times[:k] + times[k + 1:], data[:k] + data[k + 1:]), target, 10, v)
    S.check(len(full) == len(part), 'same items')
    for (a, b, x), (a2, b2, y) in zip(full, part):
        S.check(S.and_(S.eq(a, a2), S.eq(b, b2)), 'same intervals')
        if target == 'points' or True:
            lo, hi = regions(S, times, v)
            S.check(S.le(x.data_loss, y.data_loss), 'losing an observation does not lower the loss')


@case('C11', quick=[dict(target='slots'), dict(target='points'), dict(target='slots', epoch=-20)])
def carried(S, target):
    """The losses the observations themselves carry add up over the time they are valid for."""
    step = S.choice('step', [2, 5])
    first = S.choice('first', [0, 1, 4])
    n = 9 if step == 5 else 16
    times = [B0 + first + step * i for i in range(n)]
    losses = [S.real('loss%d' % i, 0, 1) if i % 2 == 0 or i < 5 else None for i in range(n)]
    d = ts()
    s = d.TimeSeries()
    for i, t in enumerate(times):
        s.append(d.DataTimePoint(t=t, data={'a': 1.0 * i}, data_loss=losses[i]))
    check_loss(S, process(s, target, 10, step), times, step, losses, 'carried')


@case('C11', quick=[dict(layout=k) for k in LAYOUTS])
def coverage_function(S, layout):
    """The underlying computation, on arbitrary intervals."""
    from timeseria.utilities import _compute_data_loss, _compute_validity_regions
    times = [B0 + x for x in LAYOUTS[layout]]
    n = len(times)
    s = point_series(S, times, [{'a': 1.0} for _ in times])
    v = S.choice('validity', [2, 5, 10])
    for k, p in _compute_validity_regions(s, sampling_interval=v).items():
        for x in s:
            if x.t == k:
                x.valid_from, x.valid_to = p[0], p[1]
    a = B0 + S.real('from', -5, 45)
    b = a + S.real('length', 1, 30)
    got = _compute_data_loss(s, from_t=a, to_t=b, sampling_interval=v)
    want = loss(S, segments(S, times, v, a, b), a, b)
    S.check(S.eq(got * (b - a), want * (b - a), 1e-4), 'the fraction not covered')
    S.check(S.and_(S.le(0, got), S.le(got, 1)), 'between zero and one')
