"""C16: dictionary and JSON conversions."""
import zoneinfo
from symx.api import case
from .common import *
from .p_c14 import WINDOWS

TZ = ['UTC', 'Europe/Rome', 'America/New_York', 'Asia/Kolkata']


def rows(S, n, kind):
    if kind == 'list':
        return [[S.real('x%d' % i), S.real('y%d' % i)] for i in range(n)]
    return [{'x': S.real('x%d' % i), 'y': S.real('y%d' % i)} for i in range(n)]


def same(S, s, out, times, data, label, slots=None):
    S.check(len(out) == len(times), label + ': same number of items')
    for i, it in enumerate(out):
        S.check(S.eq(it.t, times[i]), label + ': same timestamps')
        S.check(isinstance(it.data, dict) == isinstance(data[i], dict), label + ': same kind of data')
        S.check(S.eqd(it.data, data[i]), label + ': same data')
        if slots is not None:
            S.check(S.eq(it.end.t, slots[i]), label + ': same slot ends')


@case('C16', quick=[dict(n=3, tz=z, kind=k) for z in range(4) for k in ('dict', 'list')] + [dict(n=3, tz=1, kind='dict', epoch=0)],
      thorough=[dict(n=n, tz=z, kind=k) for z in range(4) for k in ('dict', 'list') for n in (1, 2, 4)] + [dict(n=3, tz=1, kind='dict', epoch=0)])
def points(S, n, tz, kind):
    """Points at any second around a DST change, on many time zones."""
    d = ts()
    z = TZ[tz]
    lo, hi = S.choice('window', [tuple(w) for w in WINDOWS[z][:2]])
    t = lo + S.int('t', 0, hi - lo)
    times, data = [], rows(S, n, kind)
    for i in range(n):
        if i:
            t = t + S.int('gap%d' % i, 1, 7200)
        times.append(t)
    s = point_series(S, times, data, tz=S.choice('tz given', [z, zoneinfo.ZoneInfo(z)]))
    before = snap(marked(S, s))
    D = s.to_dict()
    S.check(len(D) == n, 'one key for each item')
    for (k, v), i in zip(D.items(), range(n)):
        S.check(S.eq(d.TimePoint(dt=k).t, times[i]), 'keyed by the time of the item')
        S.check(S.eqd(v, data[i]), 'with its data')
    out = d.TimeSeries.from_dict(D)
    same(S, s, out, times, data, 'dict')
    S.check(str(out.tz) == z, 'dict: on the same time zone')
    same(S, s, d.TimeSeries.from_json(s.to_json()), times, data, 'json')
    S.check(same_snap(S, snap(s), before), 'series untouched')
    S.check(str(s.tz) == z, 'series time zone untouched')


@case('C16', quick=[dict(n=3, unit='1h'), dict(n=3, unit='1D'), dict(n=2, unit='1M'), dict(n=3, unit='15m'), dict(n=25, unit='1h')],
      thorough=[dict(n=n, unit=u) for u in ('1h', '1D', '1M', '15m', '24h', '1Y', '10s') for n in (1, 2, 4)] + [dict(n=25, unit='1h')])
def slots(S, n, unit):
    """Slots, with the unit given back, around the DST changes."""
    from timeseria.units import TimeUnit
    d = ts()
    z = S.choice('tz', ['UTC', 'Europe/Rome'])
    u = TimeUnit(unit)
    if unit[-1] in 'DMY':
        p = d.TimePoint(t=S.choice('start', [1553900400, 1572040800, 1546297200]) if z == 'Europe/Rome' and unit[-1] == 'D'
                        else (1546297200 if z == 'Europe/Rome' else 1546300800), tz=z)
    else:
        p = d.TimePoint(t=S.choice('change', [1553990400, 1572130800]) - 7200 + S.int('t', 0, 14400), tz=z)
    s = d.TimeSeries()
    data = rows(S, n, 'dict')
    for i in range(n):
        it = d.DataTimeSlot(start=p, unit=u, data=dict(data[i]))
        s.append(it)
        p = it.end
    starts, ends = [x.start.t for x in s], [x.end.t for x in s]
    marked(S, s)
    D = s.to_dict()
    same(S, s, d.TimeSeries.from_dict(D, slot_unit=u), starts, data, 'dict', ends)
    same(S, s, d.TimeSeries.from_dict(D, slot_unit=unit), starts, data, 'dict, unit as text', ends)
    if unit[-1] not in 'DMY' or z == 'UTC':
        same(S, s, d.TimeSeries.from_json(s.to_json(), slot_unit=unit), starts, data, 'json', ends)


KEYS = ['int', 'float', 'str', 'datetime', 'iso']


@case('C16', quick=[dict(n=3, key=k) for k in KEYS], thorough=[dict(n=n, key=k) for k in KEYS for n in (1, 2, 3, 4)],
      covers=('refused', 'accepted'))
def keys(S, n, key):
    """Keys of any kind in any order: taken if increasing, each item with the data of its own key."""
    import datetime
    import pytz
    d = ts()
    times, D = [], {}
    vals = S.reals('v', n)
    for i in range(n):
        # Distinct keys, so that they stay distinct in the dictionary as well
        x = B + (S.choice('t%d' % i, [0, 60, 120, 59, 7200]))
        S.assume(x not in times)
        times.append(x)
        k = {'int': lambda: x, 'float': lambda: float(x), 'str': lambda: str(x),
             'datetime': lambda: d.TimePoint(t=x, tz='Europe/Rome').dt,
             'iso': lambda: d.TimePoint(t=x, tz='Europe/Rome').dt.isoformat()}[key]()
        D[k] = vals[i] if S.choice('kind%d' % i, ['scalar', 'dict']) == 'scalar' else {'value': vals[i]}
    box = []
    e = S.refused(lambda: box.append(d.TimeSeries.from_dict(D)))
    if all(times[i] < times[i + 1] for i in range(n - 1)):
        S.cover('accepted')
        S.check(e is None, 'increasing keys are accepted')
        same(S, None, box[0], times, [{'value': v} for v in vals], 'keys')
    else:
        S.cover('refused')
        S.check(e is not None, 'other orders are refused')


@case('C16', quick=[dict(n=3)], thorough=[dict(n=n) for n in (2, 3, 4)], covers=('refused', 'accepted'))
def order(S, n):
    """Numeric keys as symbols: accepted exactly when increasing."""
    d = ts()
    div = S.choice('div', [1, 4, 1000])
    times = [B + (S.int('t%d' % i, 0, 1000) if div == 1 else S.int('t%d' % i, 0, 1000) / div) for i in range(n)]
    for i in range(n):
        for j in range(i):
            S.assume(times[i] != times[j])
    vals = S.reals('v', n)
    as_json = S.choice('json', [False, True])
    if as_json:
        text = '{' + ', '.join('"%s": {"a": %s}' % (t, v) for t, v in zip(times, vals)) + '}'
        go = lambda: d.TimeSeries.from_json(text)
    else:
        go = lambda: d.TimeSeries.from_dict({t: {'a': v} for t, v in zip(times, vals)})
    box = []
    e = S.refused(lambda: box.append(go()))
    if bool(S.all(times[i] < times[i + 1] for i in range(n - 1))):
        S.cover('accepted')
        S.check(e is None, 'increasing keys are accepted')
        same(S, None, box[0], times, [{'a': v} for v in vals], 'keys')
    else:
        S.cover('refused')
        S.check(e is not None, 'other orders are refused')


@case('C16', quick=[dict()])
def fractions(S):
    """Sub-second timestamps, to the microsecond."""
    d = ts()
    us = S.int('us', 0, 999999)
    gap = S.choice('gap', [3, 4, 60])
    times = [B + us / 1000000, B + 2 + us / 1000000, B + gap + (us / 1000000 if gap == 4 else 0)]
    data = rows(S, 3, 'dict')
    z = S.choice('tz', ['UTC', 'Europe/Rome'])
    s = point_series(S, times, data, tz=z)
    same(S, s, d.TimeSeries.from_dict(s.to_dict()), times, data, 'dict')
    same(S, s, d.TimeSeries.from_json(s.to_json()), times, data, 'json')


@case('C16', quick=[dict()])
def subclass(S):
    """Made as the subclass asked for; keys which are not times are refused."""
    d = ts()

    class MySeries(d.TimeSeries):
        pass
    times = S.increasing('t', 2)
    data = rows(S, 2, 'dict')
    out = MySeries.from_dict({t: v for t, v in zip(times, data)})
    S.check(type(out) is MySeries, 'of the subclass')
    same(S, None, out, times, data, 'subclass')
    bad = S.choice('bad', [None, (1, 2), 'x', b'1', 'not a date', '2019-13-01T00:00:00'])
    S.check(S.refused(lambda: d.TimeSeries.from_dict({bad: {'a': 1}})) is not None, 'other keys are refused')
