"""C25: changing timezone."""
import datetime
import zoneinfo
import pytz
from symx.api import case
from .common import *
from . import zones
from .p_c14 import table, WINDOWS

ZONES = ['UTC', 'Europe/Rome', 'America/New_York', 'Asia/Kolkata', 'Australia/Lord_Howe']


def as_given(S, name, z, forms=3):
    """Time zones are given by name or as objects."""
    return S.choice(name, [z, pytz.timezone(z), zoneinfo.ZoneInfo(z)][:forms])


def on(S, x, z, what):
    """A point or slot is on this time zone."""
    S.check(str(x.tz) == z, what + ' on the time zone')
    if hasattr(x, 'start'):
        S.check(str(x.start.tz) == z, what + ' starting on the time zone')
        S.check(str(x.end.tz) == z, what + ' ending on the time zone')


def local(S, x, z, what):
    """Local time is the right one for the very same instant."""
    tab = table(z)
    off = zones.offset(x.t, tab)
    dt = x.dt
    S.check(S.eq(dt.utcoffset().total_seconds(), off), what + ': offset from UTC')
    S.check(S.eq(dt.hour * 3600 + dt.minute * 60 + dt.second, (x.t + off) % 86400), what + ': local time of the day')
    S.check(S.eq(dt.weekday(), ((x.t + off) // 86400 + 3) % 7), what + ': local day')
    S.check(S.eq(ts().TimePoint(dt=dt).t, x.t), what + ': back from the local time')


def build(S, kind, t, z, i='', step=3600, indexes=None):
    from timeseria.units import TimeUnit
    d = ts()
    ix = dict(data_indexes=dict(indexes)) if indexes else {}
    if kind == 'time point':
        return d.TimePoint(t=t, tz=z)
    if kind == 'data point':
        return d.DataTimePoint(t=t, tz=z, data={'a': S.real('a%s' % i), 'b': S.real('b%s' % i)}, **ix)
    if kind == 'time slot':
        return d.TimeSlot(start=d.TimePoint(t=t, tz=z), end=d.TimePoint(t=t + step, tz=z))
    if kind == 'data slot':
        return d.DataTimeSlot(start=d.TimePoint(t=t, tz=z), unit=TimeUnit('%ss' % step), data=[S.real('a%s' % i)], **ix)
    raise ValueError(kind)


def state(x):
    out = [x.t]
    if hasattr(x, 'start'):
        out += [x.start.t, x.end.t, x.length]
    if hasattr(x, 'data'):
        out += list(x.data.values()) if isinstance(x.data, dict) else list(x.data)
        out += list(x.data_indexes.values())
        out.append(len(x.data_indexes))
    return out


@case('C25', quick=[dict(kind=k, zone=z) for k in ('time point', 'data point', 'time slot', 'data slot') for z in (1, 2)],
      thorough=[dict(kind=k, zone=z) for k in ('time point', 'data point', 'time slot', 'data slot') for z in range(5)])
def items(S, kind, zone):
    """A point or slot moved to one time zone and then to another one, at any time around the DST changes."""
    z = ZONES[zone]
    w = S.choice('window', [tuple(x) for x in WINDOWS[z]])
    t = w[0] + 60 * S.int('t', 0, (w[1] - w[0]) // 60)
    x = build(S, kind, t, z, indexes={'data_loss': 0.25, 'mark': S.real('mark', 0, 1)})
    before = state(x)
    first = S.choice('first', [i for i in ZONES if i != z][:2])
    then = S.choice('then', [z, ZONES[(zone + 1) % 3], 'Asia/Kolkata'])
    for n, to in (('first', first), ('then', then)):
        x.change_tz(as_given(S, 'as ' + n, to))
        on(S, x, to, n)
        S.check(S.eqs(before, state(x)), n + ': same instants, data and indexes')
        local(S, x, to, n)
        c = ts().TimePoint(x.start if hasattr(x, 'start') else x)
        S.check(S.eq(c.t, x.t), n + ': the same instant for a bare copy of the point')
        on(S, c, to, n + ': bare copy of the point')
        if hasattr(x, 'start'):
            S.check(S.eq(x.end.t, t + 3600), n + ': same end')


@case('C25', quick=[dict(forward=f) for f in (True, False)])
def neighbours(S, forward):
    """Slots one after the other and sharing a point: moving one leaves the other where it is."""
    d = ts()
    t = B + S.int('t', 0, 86400)
    step = S.int('step', 1, 86400)
    a = d.DataTimeSlot(start=d.TimePoint(t=t, tz='Europe/Rome'), end=d.TimePoint(t=t + step, tz='Europe/Rome'), data=[S.real('a')])
    b = d.DataTimeSlot(start=a.end, end=d.TimePoint(t=t + 2 * step, tz='Europe/Rome'), data=[S.real('b')])
    one, other = (a, b) if forward else (b, a)
    before = state(one), state(other)
    one.change_tz('America/New_York')
    on(S, one, 'America/New_York', 'moved')
    on(S, other, 'Europe/Rome', 'neighbour')
    S.check(S.and_(S.eqs(before[0], state(one)), S.eqs(before[1], state(other))), 'nothing else changed')
    other.change_tz('Asia/Kolkata')
    on(S, one, 'America/New_York', 'moved, then')
    on(S, other, 'Asia/Kolkata', 'neighbour, then')


def fill(S, kind, n, z, zones_of=None):
    d = ts()
    s = d.TimeSeries()
    t = B + 60 * S.int('t', 0, 2000)
    gap = 60 * S.int('gap', 1, 600) if kind.endswith('point') else None
    for i in range(n):
        x = build(S, kind, t, zones_of[i] if zones_of else z, str(i), indexes={'data_loss': S.real('loss%d' % i, 0, 1)})
        s.append(x)
        if gap is not None:
            t = t + (gap if i != 1 else gap + 60 * S.int('more', 0, 10))
        else:
            t = t + 3600
    return s


@case('C25', quick=[dict(kind=k, n=n) for k in ('time point', 'data point', 'time slot', 'data slot') for n in (1, 3)],
      thorough=[dict(kind=k, n=n) for k in ('time point', 'data point', 'time slot', 'data slot') for n in (1, 2, 3, 5)])
def series(S, kind, n):
    """A series taken through two moves, each of which in place or to a copy."""
    z = S.choice('zone', ['UTC', 'Europe/Rome'])
    s = fill(S, kind, n, z)
    tz0 = str(s.tz)
    S.check(tz0 == z, 'the time zone of a series is the one of its items')
    res = str(s.resolution) if n > 1 and kind.endswith('slot') else None
    cur, curz = s, z
    for k in range(2):
        to = S.choice('to%d' % k, ['Asia/Kolkata', 'America/New_York', 'Europe/Rome'])
        form = S.choice('form%d' % k, ['change', 'copy'])
        before = [state(x) for x in cur]
        kinds = [type(x) for x in cur]
        how = cur.resolution if n > 1 else None
        labels = cur.data_labels() if kind.startswith('data') else None
        given = as_given(S, 'as%d' % k, to, 2) if not k else zoneinfo.ZoneInfo(to)
        if form == 'change':
            cur.change_tz(given)
            new = cur
        else:
            new = cur.as_tz(given)
            S.check(new is not cur, 'a copy')
            S.check(str(cur.tz) == curz, 'the original stays on its time zone')
            for x in cur:
                on(S, x, curz, 'original item')
            S.check(S.all(S.eqs(a, state(x)) for a, x in zip(before, cur)), 'the original is left as it was')
            S.check(len(cur) == n, 'the original has the same items')
        S.check(str(new.tz) == to, 'the series is on the new time zone')
        S.check(len(new) == n and [type(x) for x in new] == kinds, 'same items')
        for x in new:
            on(S, x, to, 'item')
        S.check(S.all(S.eqs(a, state(x)) for a, x in zip(before, new)), 'same instants, order, data and indexes')
        if n > 1:
            S.check(str(new.resolution) == str(how), 'same resolution')
        if labels is not None:
            S.check(new.data_labels() == labels, 'same labels')
        local(S, new[-1], to, 'last item')
        cur, curz = new, to
    # The series can go on as usual, on its new time zone
    if kind == 'data slot':
        d = ts()
        last = cur[-1]
        cur.append(d.DataTimeSlot(start=d.TimePoint(t=last.end.t, tz=curz), end=d.TimePoint(t=last.end.t + 3600, tz=curz), data=[1]))
        S.check(len(cur) == n + 1, 'goes on')
        S.check(S.refused(lambda: cur.append(d.DataTimeSlot(start=d.TimePoint(t=last.end.t + 3600, tz='Asia/Tokyo'),
                                                            end=d.TimePoint(t=last.end.t + 7200, tz='Asia/Tokyo'), data=[1]))) is not None,
                'not on another time zone')


@case('C25', quick=[dict(kind=k) for k in ('data point', 'data slot')])
def ways(S, kind):
    """The same time zone is the same however it is given, and no local time is lost."""
    from timeseria.units import TimeUnit
    d = ts()
    z = S.choice('zone', ['UTC', 'Europe/Rome'])
    w = S.choice('window', [tuple(x) for x in WINDOWS[z]])
    t = w[0] + 60 * S.int('t', 0, (w[1] - w[0]) // 60)
    given, times = [z, pytz.timezone(z), zoneinfo.ZoneInfo(z)] + ([datetime.timezone.utc] if z == 'UTC' else []), []
    s = d.TimeSeries()
    for i in range(2):
        how = S.choice('way%d' % i, given)
        kw = dict(t=t, tz=how)
        if S.choice('by datetime %d' % i, [False, True]):
            kw = dict(dt=d.TimePoint(t=t, tz=z).dt.astimezone(pytz.timezone(z) if isinstance(how, str) else how))
        if kind == 'data slot':
            s.append(d.DataTimeSlot(unit=TimeUnit('30m'), data={'a': S.real('a%d' % i)}, **kw))
        else:
            s.append(d.DataTimePoint(data={'a': S.real('a%d' % i)}, **kw))
        times.append(t)
        t = t + 1800
    S.check(str(s.tz) == z, 'on the time zone')
    for x, at in zip(s, times):
        S.check(S.eq(x.t, at), 'the same instant')
        on(S, x, z, 'item')
        local(S, x, z, 'item')
    D = s.to_dict()
    S.check(len(D) == 2, 'all of them by local time')
    for (k, v), x in zip(list(D.items()), s):
        S.check(S.and_(S.eq(d.TimePoint(dt=k).t, x.t), S.eqd(v, dict(x.data))), 'each with its data')


@case('C25', quick=[dict(n=3)], thorough=[dict(n=3), dict(n=5)])
def mixed(S, n):
    """Points on different time zones, moved all together."""
    # (Rome and Paris are on the same local time)
    zs = [S.choice('zone%d' % i, ['UTC', 'Europe/Rome', 'Europe/Paris'][:2 if i == 1 else 3]) for i in range(n)]
    s = fill(S, 'data point', n, None, zs)
    before = [state(x) for x in s]
    tz = str(s.tz)
    S.check(tz == (zs[0] if len(set(zs)) == 1 else 'UTC'), 'the common time zone, or UTC')
    one, two = S.choice('to', [('Asia/Kolkata', 'America/New_York'), ('UTC', 'Europe/Rome'), ('Europe/Rome', 'UTC')])
    c = s.as_tz(one)
    S.check([str(x.tz) for x in s] == zs and str(s.tz) == tz, 'the original stays on its time zones')
    s.change_tz(two)
    for x, to in ((c, one), (s, two)):
        S.check(str(x.tz) == to, 'the series is on the new time zone')
        for i in x:
            on(S, i, to, 'item')
        S.check(S.all(S.eqs(a, state(i)) for a, i in zip(before, x)), 'same instants, order, data and indexes')


@case('C25', quick=[dict(kind=k) for k in ('data point', 'data slot')])
def parts(S, kind):
    """Copies of parts of a series, by view or by slice, and of series with their own time zone."""
    d = ts()
    s = fill(S, kind, 4, 'Europe/Rome')
    before = [state(x) for x in s]
    how = S.choice('part', ['view', 'slice', 'duplicate', 'own'])
    if how == 'own':
        part = d.TimeSeries(*list(s), tz='Europe/Rome') if kind == 'data slot' else d.TimeSeries(*list(s), tz='Asia/Kolkata')
        lo, hi = 0, 4
        S.check(str(part.tz) == ('Europe/Rome' if kind == 'data slot' else 'Asia/Kolkata'), 'its own time zone')
    else:
        lo = S.choice('lo', [0, 1])
        hi = S.choice('hi', [3, 4])
        part = s.view(lo, hi) if how == 'view' else (s[lo:hi] if how == 'slice' else s.duplicate()[lo:hi])
    new = part.as_tz('America/New_York')
    S.check(str(new.tz) == 'America/New_York', 'the copy is on the new time zone')
    S.check(len(new) == hi - lo, 'same items')
    for x in new:
        on(S, x, 'America/New_York', 'item')
    S.check(S.all(S.eqs(a, state(i)) for a, i in zip(before[lo:hi], new)), 'same instants, order, data and indexes')
    for x in s:
        on(S, x, 'Europe/Rome', 'original item')
    S.check(S.all(S.eqs(a, state(i)) for a, i in zip(before, s)), 'the original is left as it was')
    S.check(str(s.tz) == 'Europe/Rome', 'the original stays on its time zone')


@case('C25', quick=[{}])
def empty(S):
    """Series with no items yet: what is appended next does not depend on it, and slots are expected on it."""
    d = ts()
    s = d.TimeSeries(tz='Europe/Rome') if S.choice('own', [True, False]) else d.TimeSeries()
    if S.choice('form', ['change', 'copy']) == 'change':
        s.change_tz('America/New_York')
    else:
        s = s.as_tz('America/New_York')
    S.check(str(s.tz) == 'America/New_York' and len(s) == 0, 'empty, on the new time zone')
    t = B + S.int('t', 0, 1000)
    s.append(build(S, 'data slot', t, 'America/New_York'))
    S.check(S.and_(S.eq(s[0].t, t), len(s) == 1), 'goes on')
    S.check(str(s.tz) == 'America/New_York', 'on the new time zone')
