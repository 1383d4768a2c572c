"""C31: data frames. Pandas itself runs for real, with the values symbolic (times are concrete, as pandas needs them)."""
from symx.api import case
from .common import *

ZONES = ['UTC', 'Europe/Rome', 'America/New_York', 'Asia/Kolkata']
# Starts: plain, right before the European and the American DST changes, a year start (wall clock)
STARTS = [(2017, 1, 1, 0, 0, 0), (2019, 3, 30, 0, 0, 0), (2019, 11, 2, 12, 30, 0), (2019, 12, 1, 23, 59, 59)]
LABELS = [['b', 'a'], ['temperature (C)'], ['10', '9', 'x']]


def same_rows(S, df, times, values, losses, labels):
    """The frame has a row per item, with its time and its values in the columns of their labels."""
    S.check(list(df.columns) == sorted(labels) + (['data_loss'] if losses is not None else []), 'columns')
    S.check(len(df.index) == len(times), 'rows')
    labels = sorted(labels)
    for i, row in enumerate(df.itertuples(index=True, name=None)):
        S.check(row[0] == times[i], 'time of the row')
        for j, l in enumerate(labels):
            S.check(S.eq(row[1 + j], values[i][l]), 'value of the column')
        if losses is not None:
            x = row[1 + len(labels)]
            S.check(x is None or x != x if losses[i] is None else S.eq(x, losses[i]), 'data loss of the row')


def same_items(S, r, epochs, values, losses, labels, ends=None):
    S.check(len(r) == len(epochs), 'items')
    for i, it in enumerate(r):
        S.check((it.start.t if ends else it.t) == epochs[i], 'time of the item')
        if ends:
            S.check(it.end.t == ends[i], 'end of the slot')
        S.check(sorted(it.data) == sorted(labels), 'labels')
        for l in labels:
            S.check(S.eq(it.data[l], values[i][l]), 'value of the label')
        x = losses[i] if losses is not None else None
        if x is None:
            S.check(it.data_loss is None, 'no data loss')
        else:
            S.check(S.eq(it.data_loss, x), 'data loss')
        S.check([k for k in it.data_indexes if k != 'data_loss'] == [], 'no other indexes')


def content(S, n, kind):
    labels = ['0', '1'] if kind == 'list' else S.choice('labels', LABELS)
    values = [{l: S.real('v%d_%d' % (j, i), -1000, 1000) for j, l in enumerate(labels)} for i in range(n)]
    lost = S.choice('lost', ['none', 'all', 'some'])
    losses = None if lost == 'none' else [S.real('x%d' % i, 0, 1) if lost == 'all' or i == min(1, n - 1) else None for i in range(n)]
    return labels, values, losses


def give(kind, labels, v):
    return [v[l] for l in labels] if kind == 'list' else {l: v[l] for l in labels}


@case('C31', quick=[dict(n=3, kind='dict'), dict(n=1, kind='dict'), dict(n=3, kind='list'), dict(n=12, kind='dict')],
      thorough=[dict(n=n, kind=k) for n in (1, 2, 3, 4, 5) for k in ('dict', 'list')] + [dict(n=12, kind='dict')])
def points(S, n, kind):
    """Points at regular or irregular times, on any time zone and across DST changes, there and back."""
    from propertime.utils import dt, s_from_dt
    d = ts()
    zone = S.choice('zone', ZONES)
    start = s_from_dt(dt(*S.choice('start', STARTS), tz=zone))
    step = S.choice('step', [1, 60, 90, 600, 3600, 7200, 0.5, 'irregular'])
    labels, values, losses = content(S, n, kind)
    times = [start + (step * i if step != 'irregular' else i * i * 7.25) for i in range(n)]
    s = d.TimeSeries(*[d.DataTimePoint(t=t, tz=zone, data=give(kind, labels, values[i]),
                                       **({'data_loss': losses[i]} if losses is not None and losses[i] is not None else {}))
                       for i, t in enumerate(times)])
    before = snap(s)
    df = s.to_df()
    same_rows(S, df, [it.dt for it in s], values, losses, labels)
    S.check(same_snap(S, snap(s), before), 'the series is unchanged')
    r = d.TimeSeries.from_df(df)
    S.check(type(r) is d.TimeSeries and r[0].__class__ is d.DataTimePoint, 'points')
    same_items(S, r, times, values, losses, labels)
    S.check(str(r.tz) == zone, 'time zone')
    if n > 1:
        S.check(r.resolution == s.resolution, 'resolution')


UNITS = ['1D', '1W', '1M', '1Y', '1h', '1m', '10m', '1s', '2D', '3M', '2Y', '0.25s']


@case('C31', quick=[dict(n=3, asked=False), dict(n=4, asked=True)], thorough=[dict(n=n, asked=a) for n in (3, 4, 5) for a in (False, True)])
def slots(S, n, asked):
    """Slots of any unit: back as slots if of days, months or years, or if asked; points at their starts otherwise."""
    from propertime.utils import dt
    from timeseria.units import TimeUnit
    d = ts()
    zone = S.choice('zone', ZONES)
    unit = S.choice('unit', UNITS)
    start = (2017, 1, 1, 0, 0, 0) if unit[-1] in 'MY' else S.choice('start', [(2017, 1, 1, 0, 0, 0), (2019, 3, 30, 0, 0, 0), (2019, 10, 26, 0, 0, 0)])
    labels, values, losses = content(S, n, 'dict')
    s = d.TimeSeries()
    at = d.TimePoint(dt=dt(*start, tz=zone))
    for i in range(n):
        x = d.DataTimeSlot(start=at, unit=TimeUnit(unit), data=give('dict', labels, values[i]),
                           **({'data_loss': losses[i]} if losses is not None and losses[i] is not None else {}))
        s.append(x)
        at = x.end
    starts, ends = [x.start.t for x in s], [x.end.t for x in s]
    df = s.to_df()
    same_rows(S, df, [x.start.dt for x in s], values, losses, labels)
    if asked:
        r = d.TimeSeries.from_df(df, item_type=d.DataTimeSlot)
    else:
        r = d.TimeSeries.from_df(df)
    if asked or unit[-1] in 'DMY':
        S.check(r[0].__class__ is d.DataTimeSlot, 'slots')
        same_items(S, r, starts, values, losses, labels, ends)
        S.check(r.resolution == s.resolution, 'unit')
        S.check(all(x.unit == y.unit for x, y in zip(r, s)), 'unit of the slots')
    else:
        S.check(r[0].__class__ is d.DataTimePoint, 'points at the starts')
        same_items(S, r, starts, values, losses, labels)
    S.check(str(r.tz) == zone, 'time zone')


@case('C31', quick=[dict(n=3)], thorough=[dict(n=3), dict(n=5)])
def frames(S, n):
    """Frames made elsewhere: naive times are UTC, columns are taken by their own label in whatever order."""
    import pandas
    from datetime import datetime, timedelta
    d = ts()
    cols = S.choice('columns', [['a', 'b'], ['b', 'a'], ['data_loss', 'a'], ['a', 'data_loss', 'b']])
    step = S.choice('step', [60, 3600, 1800.5])
    values = [{c: S.real('v%d_%d' % (j, i), 0, 1) for j, c in enumerate(cols)} for i in range(n)]
    t0 = datetime(2019, 3, 31, 0, 30)
    index = pandas.DatetimeIndex([t0 + timedelta(seconds=step * i) for i in range(n)])
    df = pandas.DataFrame([[v[c] for c in cols] for v in values], columns=cols, index=index, dtype=object)
    r = d.TimeSeries.from_df(df)
    labels = [c for c in cols if c != 'data_loss']
    losses = [v['data_loss'] for v in values] if 'data_loss' in cols else None
    same_items(S, r, [1553992200 + step * i for i in range(n)], values, losses, labels)
    S.check(str(r.tz) == 'UTC', 'naive times are UTC')


@case('C31')
def refused(S):
    """What is not indexed by time, cannot be ordered or cannot be made of slots is refused."""
    import pandas
    d = ts()
    what = S.choice('what', ['numbers', 'unsorted', 'twice', 'slots', 'points'])
    v = [S.real('v%d' % i) for i in range(3)]
    at = dict(unsorted=['2019-01-01', '2019-01-03', '2019-01-02'], twice=['2019-01-01', '2019-01-02', '2019-01-02'],
              slots=['2019-01-01', '2019-01-03', '2019-01-04'], points=['2019-01-01', '2019-01-02', '2019-01-03'], numbers=None)[what]
    df = pandas.DataFrame({'a': v}, index=[1, 2, 3] if at is None else pandas.DatetimeIndex(at), dtype=object)
    kw = dict(slots=dict(item_type=d.DataTimeSlot), points=dict(item_type=d.DataTimePoint)).get(what, {})
    try:
        d.TimeSeries.from_df(df, **kw)
    except (TypeError, ValueError, AttributeError):
        return
    S.check(False, 'refused')
