"""C14: time unit arithmetic."""
from symx.api import case
from .common import *
from . import zones

# Two years and a half around DST changes and a leap day
T0, T1 = 1546300800, 1622505600        # 2019-01-01, 2021-06-01 UTC
TZS = ('Europe/Rome', 'America/New_York', 'Australia/Lord_Howe', 'Asia/Kolkata', 'UTC')
SPANS = {'D': 86400, 'W': 7 * 86400}


def table(tz):
    return zones.transitions(tz, T0 - 3 * 31536000, T1 + 4 * 31536000)


def month_of(S, l, first=2017, last=2025):
    """Index of the month the local time is in, and the table."""
    M = zones.months(first, last)
    k = 0
    lo, hi = 0, len(M) - 1
    while lo < hi:
        mid = (lo + hi + 1) // 2
        if l >= M[mid][0]:
            lo = mid
        else:
            hi = mid - 1
    return lo, M


def add_local(S, l, n, kind):
    """The local time n calendar units later, or None if there is no such date."""
    if kind in SPANS:
        return l + n * SPANS[kind]
    k, M = month_of(S, l)
    j = k + (n if kind == 'M' else 12 * n)
    into = l - M[k][0]
    if into >= M[j + 1][0] - M[j][0]:
        return None
    return M[j][0] + into


def expect_calendar(S, t, n, kind, tab):
    l = zones.local(t, tab)
    e = add_local(S, l, n, kind)
    if e is None:
        return None
    return zones.instants(e, tab)


def moment(S, tz, window=None):
    lo, hi = window or (T0, T1)
    return lo + S.int('t', 0, hi - lo)


# Windows around the changes, so that the quick tier looks into the edges at every second
WINDOWS = {
    'Europe/Rome': [(1553900000, 1554100000), (1572050000, 1572220000), (1580400000, 1583200000)],
    'America/New_York': [(1552200000, 1552400000), (1572700000, 1572800000)],
    'Australia/Lord_Howe': [(1554500000, 1554600000), (1570200000, 1570300000)],
    'Asia/Kolkata': [(1577700000, 1577900000)],
    'UTC': [(1577700000, 1577900000)],
}


def cal_cases(kinds, every):
    out = []
    for tz in TZS:
        for w in WINDOWS[tz]:
            for u in kinds:
                out.append(dict(tz=tz, window=list(w), unit=u))
    return out[::every]


@case('C14', quick=cal_cases(('1D', '3D', '1W', '2W', '1M', '2M', '6M', '1Y'), 1),
      thorough=cal_cases(('1D', '2D', '7D', '1W', '2W', '1M', '2M', '6M', '1Y'), 1)
      + [dict(tz=z, window=None, unit=u) for z in TZS for u in ('1D', '1W', '1M', '1Y')])
def calendar(S, tz, window, unit):
    """A calendar unit from any second: same local time of the day, week, month or year after, or refused
    where that does not exist or is ambiguous."""
    from timeseria.units import TimeUnit
    d = ts()
    tab = table(tz)
    t = moment(S, tz, window)
    u = TimeUnit(unit)
    n, kind = int(unit[:-1]), unit[-1]
    p = d.TimePoint(t=t, tz=tz)
    exp = expect_calendar(S, t, n, kind, tab)
    box = []
    e = S.refused(lambda: box.append(p + u))
    if exp is None or len(exp) != 1:
        S.cover('undefined')
        if exp is None or not exp:
            S.check(e is not None, 'a local time which does not exist is refused')
        elif e is None:
            S.check(S.any(S.eq(box[0].t, x) for x in exp), 'one of the two instants')
        return
    if e is not None and tz == 'Australia/Lord_Howe':
        # Changes by half an hour: ambiguity is told by the hour, so close to a change it may be refused as well
        l = zones.local(exp[0], tab)
        if any(len(zones.instants(l + x, tab)) != 1 for x in (-1800, 1800)):
            return
    S.check(e is None, 'defined results are not refused')
    S.check(S.eq(box[0].t, exp[0]), 'the same local time later')
    S.check(S.eq(p.t, t), 'the point itself does not move')
    S.check(str(box[0].tz) == str(p.tz), 'still on the time zone')
    # The length of the unit there, and slots
    S.check(S.eq(u.as_seconds(p.dt), exp[0] - t), 'the length in seconds')
    s = d.DataTimeSlot(start=p, unit=u, data={'a': 1})
    S.check(S.and_(S.eq(s.end.t, exp[0]), S.eq(s.length, exp[0] - t)), 'the slot ends there')
    S.check(S.eq(d.TimePoint(dt=u.shift(p.dt)).t, exp[0]), 'shifting is the same')
    S.check(S.eq(d.TimePoint(dt=p.dt + u).t, exp[0]), 'adding to a datetime is the same')
    # Minus the unit, if supported, is the start
    back = []
    if S.refused(lambda: back.append(box[0] - u)) is None:
        S.check(S.eq(back[0].t, t), 'minus the unit is the start again')


@case('C14', quick=[dict(tz=z, window=list(WINDOWS[z][i % len(WINDOWS[z])])) for i, z in enumerate(TZS)],
      thorough=[dict(tz=z, window=w) for z in TZS for w in [None] + [list(x) for x in WINDOWS[z]]])
def physical(S, tz, window):
    """A physical unit moves by exactly that many seconds, on any time zone, forth and back."""
    from timeseria.units import TimeUnit
    d = ts()
    t = moment(S, tz, window)
    sec, unit = S.choice('unit', [(1, '1s'), (60, '60s'), (60, '1m'), (900, '15m'), (3600, '1h'), (86400, '24h'),
                                  (10800, '3h'), (2700, '45m')])
    u = TimeUnit(unit)
    p = d.TimePoint(t=t, tz=tz)
    q = p + u
    S.check(S.eq(q.t, t + sec), 'exactly that many seconds')
    S.check(str(q.tz) == str(p.tz), 'still on the time zone')
    S.check(S.eq((q - u).t, t), 'adding and subtracting is the identity')
    S.check(S.eq((p - u).t, t - sec), 'subtracting goes back exactly that many seconds')
    S.check(S.eq(u.as_seconds(), sec), 'the length in seconds')
    S.check(S.eq(t + u, t + sec), 'added to an epoch')
    S.check(S.eq(t - u, t - sec), 'subtracted from an epoch')
    S.check(S.eq(d.TimePoint(dt=p.dt + u).t, t + sec), 'added to a datetime')
    S.check(S.eq(d.TimePoint(dt=p.dt - u).t, t - sec), 'subtracted from a datetime')
    k = S.choice('k', [1, 2, -1, 5])
    S.check(S.eq(d.TimePoint(dt=u.shift(p.dt, k)).t, t + k * sec), 'shifted some times')
    s = d.DataTimeSlot(start=p, unit=u, data={'a': 1})
    S.check(S.and_(S.eq(s.end.t, t + sec), S.eq(s.length, sec)), 'the slot lasts the unit')
    s2 = d.DataTimeSlot(start=s.end, unit=u, data={'a': 1})
    series = d.TimeSeries(s, s2)
    S.check(S.eq(series[1].start.t, series[0].end.t), 'consecutive slots share their boundary')
    S.check(S.eq(s.length + s2.length, s2.end.t - s.start.t), 'lengths add up')
    S.check(S.eq(d.DataTimeSlot(start=p, end=q, data={'a': 1}).unit.as_seconds(), sec), 'the unit of a slot')


@case('C14', quick=[dict(unit='1h'), dict(unit='1D')], thorough=[dict(unit=u) for u in ('1h', '1D', '1W', '1M', '24h')])
def chain(S, unit):
    """Consecutive slots built one after another across a DST change tile the time."""
    from timeseria.units import TimeUnit
    d = ts()
    tab = table('Europe/Rome')
    at = S.choice('change', [1553986800, 1572127200])      # local midnights of the days of the change
    if unit == '1h':
        t = at + 600 * S.int('t', 0, 30)
    elif unit == '1D':
        t = at - 2 * 86400 + 1800 * S.int('t', 0, 100)
    else:
        t = at - 86400 + 3600 * S.int('t', 0, 48)
    u = TimeUnit(unit)
    n = 4 if unit in ('1h', '1D') else 2
    slots = []
    p = d.TimePoint(t=t, tz='Europe/Rome')
    for i in range(n):
        try:
            s = d.DataTimeSlot(start=p, unit=u, data={'a': i})
        except ValueError:
            S.cover('refused')
            break
        slots.append(s)
        p = s.end
    series = d.TimeSeries()
    for s in slots:
        series.append(s)
    S.check(len(series) == len(slots), 'consecutive slots are accepted')
    tot = 0
    for i, s in enumerate(slots):
        if unit in ('1h', '24h'):
            S.check(S.eq(s.length, 3600 if unit == '1h' else 86400), 'physical length')
        else:
            e = expect_calendar(S, s.start.t, 1, unit[-1], tab)
            S.check(bool(e) and len(e) == 1, 'a defined end')
            S.check(S.eq(s.end.t, e[0]), 'ends on the same local time')
        tot = tot + s.length
        S.check(S.eq(s.unit.as_seconds(s.start.dt), s.length), 'length and unit agree')
    if slots:
        S.check(S.eq(tot, slots[-1].end.t - slots[0].start.t), 'the whole is the sum of the parts')
    if len(series) > 1:
        S.check(str(series.resolution) == unit, 'at the resolution of the unit')


@case('C14', quick=cal_cases(('1D', '1W', '1M', '1Y'), 1), thorough=cal_cases(('1D', '1W', '1M', '1Y'), 1)
      + [dict(tz=z, window=None, unit=u) for z in TZS for u in ('1D', '1W', '1M', '1Y')])
def rounding(S, tz, window, unit):
    """Floor, ceil and round on calendar units, from any second."""
    from timeseria.units import TimeUnit
    d = ts()
    tab = table(tz)
    t = moment(S, tz, window)
    u = TimeUnit(unit)
    p = d.TimePoint(t=t, tz=tz)
    l = zones.local(t, tab)
    if unit == '1D':
        f = l - l % 86400
        c = f + 86400
    elif unit == '1W':
        f = l - (l - 4 * 86400) % (7 * 86400)       # 1970-01-05 was a Monday
        c = f + 7 * 86400
    else:
        k, M = month_of(S, l)
        if unit == '1M':
            f, c = M[k][0], M[k + 1][0]
        else:
            j = k - (M[k][2] - 1)
            f, c = M[j][0], M[j + 12][0]
    fs, cs = zones.instants(f, tab), zones.instants(c, tab)
    if len(fs) != 1 or len(cs) != 1:
        S.cover('undefined')
        return
    got = d.TimePoint(dt=u.floor(p.dt)).t
    S.check(S.eq(got, fs[0]), 'floor is the start of the unit')
    S.check(S.le(got, t), 'floor is not after')
    got_c = d.TimePoint(dt=u.ceil(p.dt)).t
    S.check(S.or_(S.eq(got_c, cs[0]), S.and_(S.eq(t, fs[0]), S.eq(got_c, fs[0]))), 'ceil is the next start')
    r = d.TimePoint(dt=u.round(p.dt)).t
    S.check(S.or_(S.eq(r, fs[0]), S.eq(r, cs[0])), 'round is one of the two')
    S.check(S.or_(S.le(abs(r - t) * 2, cs[0] - fs[0]), S.eq(r, t)), 'round is the closest')
    S.check(S.eq(d.TimePoint(dt=u.floor(u.floor(p.dt))).t, fs[0]), 'flooring twice is flooring once')


@case('C14', quick=[dict(tz=z) for z in TZS])
def physical_rounding(S, tz):
    """Floor, ceil and round on physical units."""
    from timeseria.units import TimeUnit
    d = ts()
    t = moment(S, tz, WINDOWS[tz][0])
    sec, unit = S.choice('unit', [(1, '1s'), (10, '10s'), (60, '1m'), (900, '15m'), (3600, '1h'), (21600, '6h'), (86400, '24h')])
    u = TimeUnit(unit)
    p = d.TimePoint(t=t, tz=tz)
    f = d.TimePoint(dt=u.floor(p.dt)).t
    c = d.TimePoint(dt=u.ceil(p.dt)).t
    S.check(S.and_(S.le(f, t), f + sec > t), 'the largest start not after')
    S.check(S.or_(S.eq(c, f + sec), S.and_(S.eq(f, t), S.eq(c, t))), 'ceil is the next start')
    if tz == 'UTC' or sec <= 900 or (sec == 3600 and tz == 'Europe/Rome'):
        S.check(S.eq(f % sec, 0), 'on the multiples of the unit')
    r = d.TimePoint(dt=u.round(p.dt)).t
    S.check(S.and_(S.or_(S.eq(r, f), S.eq(r, c)), S.le(abs(r - t) * 2, sec)), 'round is the closest')


@case('C14', quick=[dict(kind=k) for k in ('int', 'real')])
def of_seconds(S, kind):
    """A unit of any number of seconds lasts exactly that."""
    from timeseria.units import TimeUnit
    d = ts()
    n = S.int('n', 1, 10 ** 9) if kind == 'int' else S.int('n', 1, 10 ** 9) + S.int('u', 1, 999999) / 1000000
    u = TimeUnit(n) if S.choice('given', ['value', 'keyword']) == 'value' else TimeUnit(value=n)
    S.check(S.eq(u.as_seconds(), n), 'the length')
    if kind == 'int':
        p = d.TimePoint(t=1546300800 + S.int('t', 0, 86400), tz='Europe/Rome')
        S.check(S.eq((p + u).t, p.t + n), 'moving by as much')


@case('C14', quick=[dict()])
def writing(S):
    """Units of the same length are the same however they are written, and adding units adds lengths."""
    from timeseria.units import TimeUnit
    d = ts()
    t = 1546300800 + S.int('t', 0, 86400)
    groups = [
        [TimeUnit('1h'), TimeUnit('60m'), TimeUnit('3600s'), TimeUnit(3600), TimeUnit(3600.0), TimeUnit(hours=1),
         TimeUnit(minutes=60), TimeUnit(seconds=3600), TimeUnit(value=3600), TimeUnit(value='1h')],
        [TimeUnit('1D'), TimeUnit(days=1)],
        [TimeUnit('2W'), TimeUnit(weeks=2)],
        [TimeUnit('1M'), TimeUnit(months=1)],
        [TimeUnit('1Y'), TimeUnit(years=1)],
        [TimeUnit('1.5s'), TimeUnit(1.5), TimeUnit(seconds=1.5)],
    ]
    p = d.TimePoint(t=t, tz='Europe/Rome')
    g = S.choice('group', range(len(groups)))
    us = groups[g]
    i = S.choice('i', range(len(us)))
    S.check(us[0] == us[i] and us[i] == us[0], 'equal')
    S.check(S.eq((p + us[0]).t, (p + us[i]).t), 'moving by the same')
    S.check(S.eq(us[0].as_seconds(p.dt), us[i].as_seconds(p.dt)), 'lasting the same')
    # Sum of units
    if g == 0:
        h = S.choice('h', [TimeUnit(x) for x in ('1h', '30m', '10s', '24h', '23h', '36h', '90m', '7200s', '100s', '1000m')])
        tot = us[i] + h
        S.check(S.eq(tot.as_seconds(), 3600 + h.as_seconds()), 'the sum lasts the sum')
        got = []
        if S.refused(lambda: got.append(p + tot), ValueError) is None:      # some of the units with more components are
            S.check(S.eq(got[0].t, t + 3600 + h.as_seconds()), 'the sum moves by the sum')
        S.check(S.eq((h + us[i]).as_seconds(), tot.as_seconds()), 'whatever the order')
    if g in (1, 2, 3, 4):
        tot = us[i] + us[0]
        S.check(S.eq((p + tot).t, ((p + us[0]) + us[0]).t), 'twice a unit is the unit twice')


@case('C14', quick=[dict(unit=u) for u in ('eighths', 'any')])
def fractional_slots(S, unit):
    """Slots between any two instants, of a fraction of a second too: the unit they have lasts as long as they do."""
    from timeseria.units import TimeUnit
    d = ts()
    l = S.choice('l', [1, 2, 3, 5, 9, 12, 100, 28801]) / 8 if unit == 'eighths' else S.int('l', 1, 90000)
    t = 1546300800 + S.int('t', 0, 86400)
    tz = S.choice('tz', ['UTC', 'Europe/Rome'])
    v = S.real('v')
    for s in (d.TimeSlot(start=d.TimePoint(t=t, tz=tz), end=d.TimePoint(t=t + l, tz=tz)),
              d.DataTimeSlot(start=d.TimePoint(t=t, tz=tz), end=d.TimePoint(t=t + l, tz=tz), data=[v])):
        S.check(S.eq(s.length, l), 'the length of the slot')
        S.check(S.eq(s.unit.as_seconds(s.start.dt), l), 'the unit lasts as long')
        S.check(S.eq((s.start + s.unit).t, t + l), 'the unit takes from the start to the end')
    s = d.DataTimeSlot(start=d.TimePoint(t=t, tz=tz), unit=TimeUnit(l), data=[v])
    S.check(S.and_(S.eq(s.end.t, t + l), S.eq(s.length, l)), 'of a unit of as many seconds')


@case('C14', quick=[dict()])
def plain(S):
    """Plain units on numbers and points."""
    from timeseria.units import Unit
    d = ts()
    a, b, c = S.real('a', -100, 100), S.real('b', -100, 100), S.real('c', 1, 100)
    u = Unit(a)
    S.check(S.and_(S.eq(u + b, a + b), S.eq(b + u, a + b)), 'sum with a number')
    S.check(S.and_(S.eq(u - b, a - b), S.eq(b - u, b - a)), 'difference with a number')
    S.check(S.and_(S.eq(u * b, a * b), S.eq(b * u, a * b)), 'product')
    S.check(S.eq(u / c, a / c), 'ratio')
    S.check(S.eq(b / Unit(c), b / c), 'ratio of a number')
    S.check(S.and_(S.eq(u + Unit(b), a + b), S.eq(u - Unit(b), a - b)), 'with another unit')
    p = d.Point(b)
    S.check(S.eq((p + u).coordinates[0], a + b), 'a point plus a unit')
    S.check(S.eq((p - u).coordinates[0], b - a), 'a point minus a unit')
    S.check(S.eq(p.coordinates[0], b), 'the point itself does not move')
    s = d.Slot(start=p, unit=Unit(c))
    S.check(S.and_(S.eq(s.end.coordinates[0], b + c), S.eq(s.length, c)), 'a slot of a unit')
    s = d.Slot(start=p, end=d.Point(b + c))
    S.check(S.and_(S.eq(s.length, c), S.eq(s.unit.value, c)), 'a slot between two points')
