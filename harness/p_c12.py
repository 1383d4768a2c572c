"""C12: transformations leave their source alone."""
from symx.api import case
from .common import *
from .trans import *
from .p_c09 import B0

def transform(s, target, v=None):
    from timeseria.transformations import Resampler, Aggregator
    from timeseria import operations
    if target == 'points':
        return Resampler('10s').process(s, validity=v)
    return Aggregator('10s', operations=[operations.avg, operations.max]).process(s, validity=v)


@case('C12', quick=[dict(target='slots', n=3, gap=13, tz='Europe/Rome'), dict(target='points', n=3, gap=13, tz='America/New_York'),
                                 dict(target='slots', n=3, gap=18, tz=None), dict(target='slots', n=3, gap=13, tz='Europe/Rome', epoch=-10)],
      thorough=[dict(target='slots', n=4, gap=13, tz='Europe/Rome'), dict(target='points', n=4, gap=13, tz=None),
                dict(target='slots', n=3, gap=35, tz='America/New_York'), dict(target='points', n=3, gap=35, tz='Europe/Rome'), dict(target='slots', n=3, gap=13, tz='Europe/Rome', epoch=-10)], covers=('items',))
def source(S, target, n, gap, tz):
    """The source is as before, gives the same results as before and can be transformed again."""
    from timeseria.operations import avg
    t = B0 + S.int('first', 0, 9)
    times = [t]
    for i in range(1, n):
        t = t + (S.int('gap%d' % i, 3, gap) if i < 4 else 5)
        times.append(t)
    data = [{'x': S.real('x%d' % i, -50, 50), 'y': 1.0 * i} for i in range(n)]
    idx = [{'q': S.real('q%d' % i, 0, 1), 'data_loss': 0.25 if i == 1 else None} for i in range(n)]
    s = point_series(S, times, data, idx, tz=tz)
    v = S.choice('validity', [4, 10])
    m0 = avg(s) if len(s) > 1 else None
    before = snap(s)
    r1 = transform(s, target, v)
    S.check(len(s) == n, 'same number of items')
    S.check(same_snap(S, before, snap(s)), 'source items unchanged')
    S.check(S.eqd(avg(s), m0), 'operations on the source give what they gave before')
    first = snap(r1)
    r2 = transform(s, target, v)
    S.check(same_snap(S, first, snap(r2)), 'transforming again gives the same')
    S.check(same_snap(S, first, snap(r1)), 'and leaves the first result alone')
    if len(r1):
        S.cover('items')
        S.check(str(r1.tz) == (tz or 'UTC'), 'result on the time zone of the source')
        for x in r1:
            S.check(str(x.tz if target == 'points' else x.start.tz) == (tz or 'UTC'), 'items on the time zone of the source')
            want = {'x', 'y'} if target == 'points' else {'x_avg', 'x_max', 'y_avg', 'y_max'}
            S.check(set(x.data) == want, 'labels of the source')
    S.check(str(s.tz) == (tz or 'UTC'), 'source on its time zone')


@case('C12', quick=[dict(target='slots'), dict(target='points'), dict(target='slots', epoch=-10), dict(target='points', epoch=-10)])
def indexes(S, target):
    """Data indexes are averaged over the observations having them."""
    offs = S.choice('layout', [[0, 5, 10, 15, 20, 25, 30, 35], [1, 4, 12, 13, 22, 29, 36], [0, 7, 9, 30, 33, 41]])
    times = [B0 + x for x in offs]
    n = len(times)
    v = 5
    none = S.choice('none', [0, 1, 2, 3, None])
    idx = [{'q': None if none is not None and i % 4 == none else S.real('q%d' % i, 0, 1), 'anomaly': 0.5, **({'mid': S.real('m%d' % i, 0, 1)} if i in (2, 3) else {})} for i in range(n)]
    s = point_series(S, times, [{'x': 1.0 * i} for i in range(n)], idx)
    r = transform(s, target, v)
    S.check(len(r) > 0, 'something')
    for x in r:
        a, b = (x.start.t, x.end.t) if target == 'slots' else (x.t - 5, x.t + 5)
        for name in ('q', 'mid'):
            tot, w = 0, 0
            for f, t, i, at in segments(S, times, v, a, b):
                if at is None and idx[i].get(name) is not None:
                    tot = tot + idx[i][name] * (t - f)
                    w = w + (t - f)
            got = x.data_indexes[name]
            if w > 0:
                S.check(S.eq(got * w, tot), 'index averaged over the observations')
                S.check(S.eq(x.data_indexes['anomaly'], 0.5), 'constant index kept')
            else:
                S.check(got is None, 'no index without observations carrying it')
                S.cover('none')
    S.check(all(set(it.data_indexes) == set(x) for it, x in zip(s, idx)), 'source indexes unchanged')
