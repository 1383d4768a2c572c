"""C24: periodicity index."""
from symx.api import case
from .common import *
from . import zones
from .p_c14 import table, WINDOWS, T0, T1, month_of

PHYS = {'1s': 1, '10s': 10, '1m': 60, '15m': 900, '30m': 1800, '1h': 3600, '6h': 21600, '24h': 86400}
TZ = ['UTC', 'Europe/Rome', 'America/New_York', 'Asia/Kolkata', 'Australia/Lord_Howe']


def index(item, resolution, p, **kw):
    from timeseria.utilities import _get_periodicity_index
    return _get_periodicity_index(item, resolution, p, **kw)


def in_range(S, i, p):
    return S.and_(i >= 0, S.and_(i < p, S.eq(i % 1, 0)))


@case('C24', quick=[dict(unit=u, tz=z) for u in PHYS for z in (0, 1)] + [dict(unit='1h', tz=1, epoch=-7200)],
      thorough=[dict(unit=u, tz=z) for u in PHYS for z in range(4)] + [dict(unit='1h', tz=1, epoch=-7200)])
def physical(S, unit, tz):
    """Three items in a row and one a full period later, any time from before the epoch on, any period."""
    from timeseria.units import TimeUnit
    d = ts()
    r = PHYS[unit]
    z = TZ[tz]
    base = S.choice('base', [-5 * r, 0, 1553990400, 1572130800])
    t = base + S.int('t', -r, 3 * r)
    p = S.int('p', 1, 12)
    p = S.concrete(p)
    u = S.choice('as', [TimeUnit(unit), r])
    kind = S.choice('kind', ['point', 'slot'])

    def item(t):
        if kind == 'point':
            return d.DataTimePoint(t=t, data={'a': 1}, tz=z)
        return d.DataTimeSlot(start=d.TimePoint(t=t, tz=z), end=d.TimePoint(t=t + r, tz=z), data={'a': 1})
    i0, i1, i2, ip = [index(item(t + k * r), u, p) for k in (0, 1, 2, p)]
    S.check(S.all(in_range(S, i, p) for i in (i0, i1, i2, ip)), 'an integer within the period')
    S.check(S.eq(i1, (i0 + 1) % p), 'advances by one')
    S.check(S.eq(i2, (i1 + 1) % p), 'advances by one again')
    S.check(S.eq(ip, i0), 'the same a full period later')
    other = d.DataTimePoint(t=t, data={'z': 5, 'y': 6}, data_loss=0.5, tz=z)
    S.check(S.eq(index(other, u, p), i0), 'depends on the time only')
    S.check(S.eq(index(other, u, p, dst_affected=False), i0), 'without DST by default')
    other = d.DataTimePoint(t=t, data={'a': 1}, tz=TZ[(tz + 2) % 4])
    S.check(S.eq(index(other, u, p), i0), 'not affected by the time zone')
    if base <= 0:
        S.check(S.eq(index(item(t), u, p, dst_affected=True), i0), 'the same with DST affecting the data, when there is none')


@case('C24', quick=[dict(tz=z) for z in (0, 1)], thorough=[dict(tz=z) for z in range(4)])
def fractions(S, tz):
    """Resolutions of fractions of a second, whose timestamps are exact only up to their precision."""
    from timeseria.units import TimeUnit
    d = ts()
    z = TZ[tz]
    r = S.choice('resolution', [0.01, 0.1, 0.2, 0.25, 0.5, 1.5])
    k = int(S.choice('base', [-2000, 0, 1553990400, 1572130800]) / r) + S.int('k', 0, 3)
    p = S.choice('p', [1, 2, 3, 7, 12])
    u = S.choice('as', [TimeUnit('%ss' % r), r])
    kw = dict(dst_affected=S.choice('dst', [False, True]))
    exact = S.number(str(r))
    noise = S.reals('noise', 3, -0.0000001, 0.0000001)
    i0, i1, ip = [index(d.DataTimePoint(t=(k + j) * exact + e, data={'a': 1}, tz=z), u, p, **kw) for j, e in zip((0, 1, p), noise)]
    S.check(S.all(in_range(S, i, p) for i in (i0, i1, ip)), 'an integer within the period')
    S.check(S.eq(i1, (i0 + 1) % p), 'advances by one')
    S.check(S.eq(ip, i0), 'the same a full period later')


def steps(S, l, unit):
    """Which calendar unit the local time is in, counted in order."""
    if unit == '1D':
        return l // 86400
    if unit == '1W':
        return l // (7 * 86400)
    k, M = month_of(S, l)
    return k if unit == '1M' else M[k][1]


@case('C24', quick=[dict(unit=u, tz=z) for u in ('1D', '1W', '1M', '1Y') for z in (0, 1)],
      thorough=[dict(unit=u, tz=z) for u in ('1D', '1W', '1M', '1Y') for z in range(4)])
def calendar(S, unit, tz):
    """Calendar resolutions: consecutive units of the calendar, also when they change length."""
    from timeseria.units import TimeUnit
    d = ts()
    z = TZ[tz]
    tab = table(z)
    u = TimeUnit(unit)
    w = S.choice('window', [tuple(x) for x in WINDOWS[z]])
    t = w[0] + 60 * S.int('t', 0, (w[1] - w[0]) // 60)
    p = S.choice('p', [1, 2, 3, 7, 12])
    a = d.TimePoint(t=t, tz=z)
    try:
        b = a + u
        c = b + u
    except ValueError:
        S.cover('undefined')
        return
    ia, ib, ic = [index(d.DataTimePoint(t=x.t, data={'a': 1}, tz=z), u, p) for x in (a, b, c)]
    S.check(S.all(in_range(S, i, p) for i in (ia, ib, ic)), 'an integer within the period')
    S.check(S.eq(ib, (ia + 1) % p), 'advances by one')
    S.check(S.eq(ic, (ib + 1) % p), 'advances by one again')
    S.check(S.implies(S.eq(steps(S, zones.local(a.t, tab), unit) % p, steps(S, zones.local(c.t, tab), unit) % p), S.eq(ia, ic)),
            'the same a number of periods later')
    slot = d.DataTimeSlot(start=a, unit=u, data={'a': 1})
    S.check(S.eq(index(slot, u, p), ia), 'slots as points')


@case('C24', quick=[dict(unit=u, tz=z) for u in ('15m', '1h') for z in (1, 2)] + [dict(unit='15m', tz=4)],
      thorough=[dict(unit=u, tz=z) for u in ('1s', '10s', '1m', '15m', '30m', '1h') for z in range(5)], covers=())
def dst(S, unit, tz):
    """With DST affecting the data: by local time, so the same time of the day has always the same index."""
    from timeseria.units import TimeUnit
    d = ts()
    z = TZ[tz]
    r = PHYS[unit]
    tab = table(z)
    u = TimeUnit(unit)
    w = S.choice('window', [tuple(x) for x in WINDOWS[z]])
    t = w[0] + S.int('t', 0, w[1] - w[0])
    day = 86400 // r
    p = S.choice('p', [day, 24, 7])
    item = lambda t: d.DataTimePoint(t=t, data={'a': 1}, tz=z)
    i0 = index(item(t), u, p, dst_affected=True)
    S.check(in_range(S, i0, p), 'an integer within the period')
    # By standard time plus the DST offset
    off = zones.offset(t, tab)
    std = min(o for f, o in tab)
    S.check(S.eq(i0, ((t + (off - std)) // r) % p), 'according to local time')
    i1 = index(item(t + r), u, p, dst_affected=True)
    same = S.eq(zones.offset(t + r, tab), off)
    S.check(S.implies(same, S.eq(i1, (i0 + 1) % p)), 'advances by one')
    for n in (1, 7, 30):
        ahead = zones.instants(zones.local(t, tab) + n * 86400, tab)
        if len(ahead) == 1:
            j = index(item(ahead[0]), u, day, dst_affected=True)
            S.check(S.eq(j, index(item(t), u, day, dst_affected=True)), 'the same at the same local time of another day')
    ip = index(item(t + p * r), u, p, dst_affected=True)
    S.check(S.implies(S.eq(zones.offset(t + p * r, tab), off), S.eq(ip, i0)), 'the same a full period later')
