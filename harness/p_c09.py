"""C09: aggregation."""
from symx.api import case
from .common import *
from .trans import *


def points(S, n, start, gaps, tz=None, values='sym', idx=None):
    times = [start]
    for i in range(1, n):
        times.append(times[-1] + gaps[i - 1])
    if values == 'sym':
        vals = [{'a': S.real('a%d' % i, -50, 50)} for i in range(n)]
    else:
        vals = [{'a': values[i]} for i in range(n)]
    return point_series(S, times, vals, idx, tz=tz), times, [v['a'] for v in vals]


def check_slots(S, r, times, vals, v, u, ops, label, span=100, edges=None, key='a', only=True, fill=None):
    """The slots of an aggregation are what they have to be."""
    n = len(times)
    rs = snap(r)
    if edges is None:
        # multiples of the unit
        edges = [B0 + k * u for k in range(int(span // u) + 2)]
    starts = [(a, b) for a, b in zip(edges, edges[1:]) if a >= times[0] and b <= times[-1]]
    S.check(len(rs) == len(starts), label + ': one slot per whole unit covered')
    S.cover('slots%d' % min(len(starts), 3))
    for x, (a, b) in zip(rs, starts):
        S.check(S.and_(S.eq(x[0], a), S.eq(x[1], b)), label + ': contiguous slots aligned to the unit')
        segs = segments(S, times, v, a, b)
        inside = [i for i in range(n) if times[i] >= a and times[i] < b]
        d = x[2]
        if only:
            S.check(set(d) == set(key + '_' + o for o in ops), label + ': one value per operation')
        tot, w = weighted(S, segs, times, vals, fill)
        if 'avg' in ops:
            S.check(S.eq(d[key + '_avg'] * w, tot, 1e-4), label + ': average weighted by validity')
        xs = [vals[i] for i in inside]
        S.cover('with%d' % min(len(xs), 2))
        if xs:
            for s in segs:
                if s[3] is not None and s[2] in inside and s[2] + 1 in inside:
                    xs.append(value_of(s, times, vals, fill))
                    S.cover('gap inside')
        elif w > 0 and any(o != 'avg' for o in ops):
            xs = [tot / w]
        for o in ops:
            if o == 'sum':
                s = 0
                for y in xs:
                    s = s + y
                S.check(S.eq(d[key + '_sum'], s, 1e-4), label + ': sum')
            if o in ('min', 'max'):
                m = xs[0]
                for y in xs[1:]:
                    m = S.ite(y < m if o == 'min' else y > m, y, m)
                S.check(S.eq(d[key + '_' + o], m, 1e-4), label + ': ' + o)


B0 = 1500000000      # a multiple of all the physical units used (see UNITS)
UNITS = {'10s': 10, '1m': 60}


def aggregate(series, unit, ops, v):
    from timeseria.transformations import Aggregator
    from timeseria import operations
    return Aggregator(unit, operations=[getattr(operations, o) for o in ops]).process(series, validity=v)


@case('C09', quick=[dict(n=3, gap=14, first=9), dict(n=4, gap=8, first=9), dict(n=3, gap=14, first=9, epoch=-20)],
      thorough=[dict(n=3, gap=25, first=9), dict(n=4, gap=14, first=9), dict(n=5, gap=8, first=9), dict(n=6, gap=6, first=9), dict(n=3, gap=14, first=9, epoch=-20)],
      covers=('gap inside', 'slots0', 'slots1', 'slots2', 'with0', 'with1', 'with2'))
def placement(S, n, gap, first):
    """Points placed anywhere with respect to the boundaries of 10s slots, with arbitrary values."""
    start = B0 + S.int('first', 0, first)
    gaps = [S.int('gap%d' % i, 1, gap) for i in range(n - 1)]
    v = S.choice('validity', [4, 10])
    s, times, vals = points(S, n, start, gaps)
    ops = S.choice('ops', [['avg'], ['min', 'max', 'sum']])
    r = aggregate(s, '10s', ops, v)
    check_slots(S, r, times, vals, v, 10, ops, 'aggregate', span=first + n * gap)


# 2019-03-29 23:00 UTC is midnight of March 30 in Rome, and so on; summer time starts on the 31st.
# 2019-10-25 22:00 UTC is midnight of October 26; summer time ends on the 27th
ROME = {'start': [1553900400, 1553986800, 1554069600, 1554156000, 1554242400, 1554328800],
        'end': [1572040800, 1572127200, 1572217200, 1572303600, 1572390000, 1572476400]}


@case('C09', quick=[dict(change='start', n=3), dict(change='end', n=3)],
      thorough=[dict(change='start', n=3), dict(change='end', n=3), dict(change='start', n=4), dict(change='end', n=4)],
      covers=('slots0', 'slots1', 'slots2'))
def days(S, change, n):
    """Daily slots on a time zone around a DST change: local days, 23 or 25 hours long when they have to."""
    edges = ROME[change]
    start = edges[0] - 3600 * S.choice('before', [0, 5]) + 1800 * S.int('first', 0, 48)
    gaps = [3600 * S.int('gap%d' % i, 5, 30) for i in range(n - 1)]
    s, times, vals = points(S, n, start, gaps, tz='Europe/Rome')
    ops = ['avg', 'max']
    r = aggregate(s, '1D', ops, 6 * 3600)
    check_slots(S, r, times, vals, 6 * 3600, None, ops, 'days', edges=edges)
    for x in r:
        S.check(str(x.start.tz) == 'Europe/Rome' and str(x.end.tz) == 'Europe/Rome', 'slots are on the time zone of the data')


LAYOUTS = {'regular': [0, 5, 10, 15, 20, 25, 30], 'boundary': [0, 3, 10, 20, 24, 30], 'gap': [1, 8, 12, 19, 33, 40],
           'inner': [2, 5, 8, 11, 14, 17, 20], 'sparse': [0, 9, 11, 19, 50]}


@case('C09', quick=[dict(layout=k) for k in LAYOUTS])
def labels(S, layout):
    """Several labels and operations at once: every one computed on its own, nothing out of range."""
    times = [B0 + x for x in LAYOUTS[layout]]
    n = len(times)
    xs, ys = S.reals('x', n, -50, 50), S.reals('y', n, -1000, 1000)
    s = point_series(S, times, [{'x': x, 'y': y} for x, y in zip(xs, ys)])
    ops = S.choice('ops', [['avg', 'sum'], ['min', 'max', 'avg'], ['sum', 'max']])
    v = S.choice('validity', [2, 5])
    r = aggregate(s, '10s', ops, v)
    for x in r:
        S.check(set(x.data) == set(l + '_' + o for l in 'xy' for o in ops), 'one value for each label and operation')
    for key, vals in (('x', xs), ('y', ys)):
        check_slots(S, r, times, vals, v, 10, ops, 'labels', edges=[B0 + 10 * k for k in range(7)], key=key, only=False)
        for x in r:
            a, b = x.start.t, x.end.t
            near = [vals[i] for i in range(n) if (times[i] >= a or (i + 1 < n and times[i + 1] > a))
                    and (times[i] < b or (i > 0 and times[i - 1] < b))]
            for o in ops:
                if o == 'sum':
                    continue
                S.check(S.and_(S.any(S.le(w, x.data[key + '_' + o]) for w in near),
                               S.any(S.le(x.data[key + '_' + o], w) for w in near)), o + ' stays within the observations')


@case('C09', quick=[dict(layout=k) for k in LAYOUTS])
def losses(S, layout):
    """What was lost of the observations counts for the losses of the slots only: their values are the same."""
    times = [B0 + x for x in LAYOUTS[layout]]
    xs = S.reals('x', len(times), -50, 50)
    ops = ['avg', 'min', 'max', 'sum']
    v = S.choice('validity', [2, 5])
    rows = [{'a': x} for x in xs]
    plain = aggregate(point_series(S, times, rows), '10s', ops, v)
    at = S.choice('at', list(range(len(times))) + ['all'])
    much = S.choice('much', [0, 0.5, 1])
    r = aggregate(point_series(S, times, rows, [{'data_loss': much if at in ('all', i) else 0, 'anomaly': 1} for i in range(len(times))]), '10s', ops, v)
    S.check(len(r) == len(plain), 'the same slots')
    for x, y in zip(r, plain):
        S.check(x.start == y.start and x.end == y.end, 'the same slots')
        # with no observations at all the value is worked out in more than one way
        if any(x.start.t <= t < x.end.t for t in times):
            S.check(S.eqd(x.data, y.data), 'the same values')
        else:
            S.check(S.eq(x.data['a_avg'], y.data['a_avg']), 'the same averages')


@case('C09', quick=[dict(unit='1m', u=60), dict(unit='1h', u=3600), dict(unit='15m', u=900)])
def boundaries(S, unit, u):
    """Observations exactly on, one second before or one after the boundaries."""
    base = 1500001200     # a whole hour
    marks = [base + S.choice('o%d' % i, [-1, 0, 1]) + i * u for i in range(4)]
    n = len(marks)
    vals = S.reals('x', n, -50, 50)
    s = point_series(S, marks, [{'a': x} for x in vals])
    r = aggregate(s, unit, ['min', 'max', 'avg'], u / 2)
    check_slots(S, r, marks, vals, u / 2, u, ['min', 'max', 'avg'], 'boundaries', edges=[base + u * k for k in range(-1, 5)])


@case('C09', quick=[dict(layout=k) for k in LAYOUTS] + [dict(layout='regular', epoch=-10), dict(layout='boundary', epoch=-20), dict(layout='sparse', epoch=-20), dict(layout='sparse', epoch=-30)])
def span(S, layout):
    """Asked to start or to end somewhere, the slots are those of the whole series from there on, or up to there."""
    from propertime.utils import dt_from_s
    from timeseria.transformations import Aggregator
    from timeseria import operations as o
    times = [B0 + x for x in LAYOUTS[layout]]
    xs = S.reals('x', len(times), -50, 50)
    s = point_series(S, times, [{'a': x} for x in xs], tz='Europe/Rome')
    v = S.choice('validity', [2, 5])
    whole = snap(Aggregator('10s', operations=[o.avg, o.sum]).process(s, validity=v))
    f = S.choice('from', [None, 10, 20, -30, -B0])
    t = S.choice('to', [None, 20, 30, 100])
    how = S.choice('how', ['epoch', 'datetime'])
    at = lambda x: None if x is None else B0 + x if how == 'epoch' else dt_from_s(B0 + x, tz='Europe/Rome')
    out = []
    err = S.refused(lambda: out.append(snap(Aggregator('10s', operations=[o.avg, o.sum]).process(s, validity=v, start=at(f), end=at(t)))))
    S.check(err is None, 'a start and an end can be given')
    want = [x for x in whole if (f is None or x[0] >= B0 + f) and (t is None or x[1] <= B0 + t)]
    # the losses at the very beginning are worked out anyway
    S.check(same_snap(S, [(a, b, d, {}) for a, b, d, _ in out[0]], [(a, b, d, {}) for a, b, d, _ in want]), 'the same slots')
    S.check(S.refused(lambda: Aggregator('10s').process(s, start=B0 + 13)) is not None and S.refused(lambda: Aggregator('10s').process(s, end=B0 + 27)) is not None
            and S.refused(lambda: Aggregator('10s').process(s, start='then')) is not None, 'those not on a slot are refused')


@case('C09', quick=[dict(f=f, t=t, how=how) for f in (None, -1, 1) for t in (None, 2) for how in ('epoch', 'datetime', 'utc') if f is not None or t is not None])
def midnights(S, f, t, how):
    """The same with days, months and years: what counts is the midnight of the timezone of the series."""
    from propertime.utils import dt, dt_from_s, s_from_dt
    from timeseria.transformations import Aggregator
    from timeseria import operations as o
    days = [s_from_dt(dt(2021, 3, 26 + k, tz='Europe/Rome')) for k in range(5)]
    times = []
    for a, b in zip(days, days[1:]):
        times += [a + 3600, a + (b - a) / 2, b - 3600]
    xs = S.reals('x', len(times), -50, 50)
    s = point_series(S, times, [{'a': x} for x in xs], tz='Europe/Rome')
    whole = snap(Aggregator('1D', operations=[o.avg, o.sum]).process(s, validity=30000))
    S.check([(x[0], x[1]) for x in whole] == [(days[1], days[2]), (days[2], days[3])], 'whole local days')
    day = lambda k: days[k] if k >= 0 else s_from_dt(dt(2021, 3, 25, tz='Europe/Rome'))
    at = lambda k: None if k is None else day(k) if how == 'epoch' else dt_from_s(day(k), tz='Europe/Rome' if how == 'datetime' else 'UTC')
    out = []
    err = S.refused(lambda: out.append(snap(Aggregator('1D', operations=[o.avg, o.sum]).process(s, validity=30000, start=at(f), end=at(t)))))
    S.check(err is None, 'a local midnight can be given')
    want = [x for x in whole if (f is None or x[0] >= day(f)) and (t is None or x[1] <= day(t))]
    S.check(same_snap(S, [(a, b, d, {}) for a, b, d, _ in out[0]], [(a, b, d, {}) for a, b, d, _ in want]), 'the same days')
    utc = s_from_dt(dt(2021, 3, 27, tz='UTC'))
    for x in (utc, dt(2021, 3, 27, tz='UTC')):
        S.check(S.refused(lambda: Aggregator('1D').process(s, start=x)) is not None
                and S.refused(lambda: Aggregator('1D').process(s, end=x)) is not None, 'the midnight of somewhere else is refused')


@case('C09', quick=[dict(layout=k) for k in ('gap', 'sparse', 'regular')] + [dict(layout='gap', epoch=-10)])
def fill(S, layout):
    """Where there is nothing at all the value asked for is used, and nowhere else; the losses can be set."""
    from timeseria.transformations import Aggregator
    from timeseria import operations as o
    times = [B0 + x for x in LAYOUTS[layout]]
    xs, ys = S.reals('x', len(times), -50, 50), S.reals('y', len(times), -50, 50)
    s = point_series(S, times, [{'a': x, 'b': y} for x, y in zip(xs, ys)])
    w = S.real('fill')
    force = S.choice('force', [None, 0, 0.5])
    plain = Aggregator('10s', operations=[o.avg, o.max]).process(s, validity=2)
    r = Aggregator('10s', operations=[o.avg, o.max]).process(s, validity=2, fill_with=w, force_data_loss=force)
    S.check(len(r) == len(plain), 'the same slots')
    for x, y in zip(r, plain):
        lost = S.eq(y.data_loss, 1)
        S.check(S.eqd(x.data, {k: w for k in y.data}) if lost else S.eqd(x.data, y.data), 'filled if and only if nothing is there')
        S.check(S.eq(x.data_loss, y.data_loss if force is None else force), 'data loss')


@case('C09', quick=[dict(layout='regular'), dict(layout='gap'), dict(layout='regular', epoch=0)])
def custom(S, layout):
    """Operations by name, plain functions and other series classes of data."""
    from timeseria.transformations import Aggregator
    from timeseria import operations as o
    times = [B0 + x for x in LAYOUTS[layout]]
    xs = S.reals('x', len(times), -50, 50)
    kind = S.choice('kind', ['names', 'function', 'list'])
    s = point_series(S, times, [[x, -x] if kind == 'list' else {'a': x, 'b': -x} for x in xs])
    if kind == 'function':
        zones = []

        def first(series):
            zones.extend(str(it.dt.tzinfo) for it in series)
            for it in series:
                return {'a': it.data['a']}
        s.change_tz('Europe/Rome')
        r = Aggregator('10s', operations=[first, o.min]).process(s, validity=5)
        S.check(set(zones) == {'Europe/Rome'}, 'all the observations given to the operations are on the time zone of the series')
        for x in r:
            inside = [v for t, v in zip(times, xs) if x.start.t <= t < x.end.t]
            S.check(set(x.data) == {'a_first', 'a_min', 'b_min'}, 'one value for each label given by the operations')
            if inside:
                S.check(S.eq(x.data['a_first'], inside[0]), 'computed on the observations within the slot')
    else:
        r = Aggregator('10s', operations=['avg', 'sum']).process(s, validity=5) if S.bool('names') else s.aggregate('10s', operations=['avg', 'sum'])
        q = Aggregator('10s', operations=[o.avg, o.sum]).process(s, validity=5)
        S.check(len(r) == len(q), 'the same slots')
        if layout == 'regular':
            S.check(same_snap(S, snap(r), snap(q)), 'by name or not')
        p, m = ('0', '1') if kind == 'list' else 'ab'
        for x in q:
            S.check(S.and_(S.eq(x.data[p + '_avg'], -x.data[m + '_avg']), S.eq(x.data[p + '_sum'], -x.data[m + '_sum'])), 'for each label')
    S.check(S.refused(lambda: s.aggregate('10s', operations=['none of them'])) is not None and S.refused(lambda: s.aggregate('10s', operations=[])) is not None, 'unknown operations are refused')


@case('C09', quick=[dict(layout=k) for k in ('gap', 'sparse', 'inner')])
def interpolators(S, layout):
    """The gaps are filled with what the interpolator asked for says."""
    from timeseria.transformations import Aggregator
    from timeseria.interpolators import Interpolator, UniformInterpolator
    from timeseria import operations as o
    times = [B0 + x for x in LAYOUTS[layout]]
    xs = S.reals('x', len(times), -50, 50)
    v = S.choice('validity', [2, 4])
    s = point_series(S, times, [{'a': x} for x in xs])
    given = S.reals('filler', len(times) - 1, -50, 50)
    asked = []

    class Mine(Interpolator):

        def __init__(self, series):
            pass

        def evaluate(self, at, prev_i=None, next_i=None):
            asked.append((at, prev_i, next_i))
            return {'a': given[prev_i]}
    mine = S.bool('mine')
    ops = ['avg', 'sum', 'min', 'max']
    r = Aggregator('10s', operations=[getattr(o, x) for x in ops], interpolator_class=Mine if mine else UniformInterpolator).process(s, validity=v)
    check_slots(S, r, times, xs, v, 10, ops, 'interpolators', fill=lambda i: given[i] if mine else (xs[i] + xs[i + 1]) / 2)
    for at, p, q in asked:
        S.check(q == p + 1 and times[p] < at < times[q], 'asked between two neighbours')


MONTHS = {'1M': [(2019, m) for m in range(1, 13)] + [(2020, m) for m in range(1, 13)], '1Y': [(y, 1) for y in range(2015, 2030)]}


@case('C09', quick=[dict(unit='1M'), dict(unit='1Y')])
def calendar(S, unit):
    """Months and years are those of the local calendar, as long as they are."""
    import datetime
    import pytz
    tz = S.choice('tz', ['Europe/Rome', 'America/New_York', 'UTC'])
    z = pytz.timezone(tz)
    edges = [int(z.localize(datetime.datetime(y, m, 1)).timestamp()) for y, m in MONTHS[unit]]
    at = S.choice('at', [0, 1, 8])
    step = 11 * 86400 if unit == '1M' else 130 * 86400
    start = edges[at] + S.int('first', -2, 2) * 3600
    n = 8
    times = [start + step * i for i in range(n)]
    xs = S.reals('x', n, -50, 50)
    s = point_series(S, times, [{'a': x} for x in xs], tz=tz)
    r = aggregate(s, unit, ['avg', 'sum'], step)
    check_slots(S, r, times, xs, step, None, ['avg', 'sum'], 'calendar', edges=edges)


@case('C09', quick=[dict(layout=k) for k in ('regular', 'gap', 'boundary')] + [dict(layout='regular', epoch=-20)])
def reused(S, layout):
    """An aggregator can be used again on any other series, whatever the first one was: nothing is carried over."""
    from timeseria.transformations import Aggregator
    from timeseria import operations as o
    times = [B0 + x for x in LAYOUTS[layout]]
    first = S.choice('first', ['denser', 'another zone', 'lists', 'refused', 'lost'])
    unit = S.choice('unit', ['10s', '1D'] if first == 'another zone' else ['10s'])
    if unit == '1D':
        times = [B0 + 86400 * x // 5 for x in LAYOUTS['regular']]
    xs = S.reals('x', len(times), -50, 50)
    s = point_series(S, times, [{'a': x} for x in xs], tz='Europe/Rome')
    ops = [o.avg, o.max]
    make = lambda: Aggregator(unit, operations=ops)
    used, fresh = make(), make()
    step = (times[-1] - times[0]) // 6
    ys = S.reals('y', 9, -50, 50)
    if first == 'denser':
        other = point_series(S, [times[0] + 2 * i for i in range(9)], [{'a': y, 'b': 1} for y in ys])
    elif first == 'another zone':
        other = point_series(S, [times[0] + step * i for i in range(9)], [{'a': y} for y in ys], tz='Asia/Kolkata')
    elif first == 'lists':
        other = point_series(S, [times[0] + step * i for i in range(9)], [[y, 1] for y in ys])
    else:
        other = point_series(S, [times[0] + step * i for i in range(9)], [{'a': y} for y in ys], [{'data_loss': 0.5, 'anomaly': 1}] * 9)
    if first == 'refused':
        S.check(S.refused(lambda: used.process(other, start='then')) is not None, 'refused')
    else:
        used.process(other, fill_with=7, force_data_loss=0.25)
    v = S.choice('validity', [None, 2]) if unit == '10s' else None
    a, b = used.process(s, validity=v), fresh.process(s, validity=v)
    S.check(same_snap(S, snap(a), snap(b)), 'the same slots as one never used')
    S.check(str(a.tz) == str(b.tz) and ops == [o.avg, o.max], 'on the same time zone')
    again = used.process(s, validity=v)
    S.check(same_snap(S, snap(again), snap(b)), 'and again')
