"""C02: the reported resolution."""
from symx.api import case
from .common import *
from .p_c01 import history, check_resolution, ALL


def after(S, s, model, tag):
    check_resolution(S, s, [m[0] for m in model], tag)


@case('C02', quick=[dict(n0=0, k=3), dict(n0=2, k=2), dict(n0=3, k=1), dict(n0=2, k=2, epoch=0)],
      thorough=[dict(n0=0, k=4), dict(n0=1, k=3), dict(n0=2, k=3), dict(n0=3, k=2), dict(n0=4, k=2), dict(n0=2, k=2, epoch=0)])
def resolution_histories(S, n0, k):
    """The resolution after any history of edits."""
    history(S, n0, k, ALL, after)


@case('C02', quick=[dict(n=4), dict(n=3), dict(n=4, epoch=0), dict(n=9)], thorough=[dict(n=n) for n in (2, 3, 4, 5)] + [dict(n=9)] + [dict(n=4, epoch=0)])
def resolution_derived(S, n):
    """The resolution of slices, duplicates, filters, views and re-zoned copies."""
    times = S.increasing('t', n, gap_hi=90000)
    s = marked(S, point_series(S, times, [{'a': i, 'b': -i} for i in range(n)]))
    check_resolution(S, s, times, 'series')
    how = S.choice('how', ['duplicate', 'slice', 'filter', 'view', 'tz', 'slice_t', 'operation'])
    if how == 'duplicate':
        check_resolution(S, s.duplicate(), times, how)
    elif how == 'filter':
        check_resolution(S, s.filter('a'), times, how)
    elif how == 'tz':
        check_resolution(S, s.as_tz('Europe/Rome'), times, how)
    elif how == 'operation':
        check_resolution(S, s.offset(3), times, how)
    elif how == 'slice_t':
        i = S.choice('i', range(n))
        check_resolution(S, s.slice(from_t=times[i]), times[i:], how)
    else:
        i = S.choice('i', range(n))
        j = S.choice('j', range(i, n + 1))
        if how == 'view' and j - i < 2:
            j = n
            i = min(i, n - 2)
        x = s.slice(from_i=i, to_i=j) if how == 'slice' else s.view(i, j)
        check_resolution(S, x, times[i:j], how)
    # further edits of a copy keep it right, and leave the original's resolution alone
    c = s.duplicate()
    gap = S.int('gap', 1, 4000)
    c.append(ts().DataTimePoint(t=times[-1] + gap, data={'a': 1, 'b': 2}))
    check_resolution(S, c, times + [times[-1] + gap], 'duplicate and append')
    check_resolution(S, s, times, 'series afterwards')


@case('C02', quick=[dict()])
def resolution_fractional(S):
    """Sub-second and composite spacings."""
    gap = S.choice('gap', [0.0001, 0.0009765625, 0.001, 0.01, 0.03125, 0.0625, 0.05, 0.1, 0.25, 0.5, 1.0, 1.05, 1.5, 2.0, 10.01, 10.0, 20.0, 60, 60.0, 60.5, 90, 600.0, 3600.0, 3600.05, 5400, 86400, 100000.5, 6, 36, 61, 360, 600, 600.5, 601, 3600, 3601, 3660, 6000, 6060, 36000, 60060])
    base = S.choice('base', [0, 1553990400, 1572130800.5, -86400])
    d = ts()
    s = d.TimeSeries()
    for i in range(4):
        s.append(d.DataTimePoint(t=base + i * gap, data={'v': 1}))
    S.check(s.resolution != 'variable' and abs(s.resolution.as_seconds() - gap) < 1e-6, 'resolution is the spacing')


@case('C02', quick=[dict(n=3), dict(n=4)], thorough=[dict(n=n) for n in (3, 4, 5, 6)], covers=('constant', 'variable'))
def resolution_precision(S, n):
    """Spacings are compared up to the precision of the timestamps (the microsecond), and not less than that."""
    gap = S.choice('gap', [0.001, 0.1, 1, 60, 3600])
    off = S.choice('off', range(2, n))
    e = S.real('e', -0.0004, 0.0004)
    noise = S.reals('noise', n, -0.00000005, 0.00000005)
    S.assume(S.or_(abs(e) < 0.0000001, abs(e) > 0.000002))
    times = [86400 + i * gap + (e if i >= off else 0) + noise[i] for i in range(n)]
    s = point_series(S, times, [{'a': i} for i in range(n)])
    if abs(e) < 0.0000001:
        S.cover('constant')
        S.check(s.resolution != 'variable', 'constant up to the microsecond')
    else:
        S.cover('variable')
        S.check(s.resolution == 'variable', 'variable beyond it')


@case('C02', quick=[dict(n=2), dict(n=3), dict(n=25)], thorough=[dict(n=n) for n in (1, 2, 3, 4, 5)] + [dict(n=25)])
def resolution_slots(S, n):
    """The resolution of slot series is the slot unit."""
    u = S.int('unit', 1, 100000)
    s = marked(S, slot_series(S, B, u, [{'a': i, 'b': 2} for i in range(n)]))
    S.check(S.eq(s.resolution.as_seconds(), u), 'series')
    i = S.choice('i', range(n))
    j = S.choice('j', range(i + 1, n + 1))
    S.check(S.eq(s.slice(from_i=i, to_i=j).resolution.as_seconds(), u), 'slice')
    S.check(S.eq(s.view(i, j).resolution.as_seconds(), u), 'view')
    S.check(S.eq(s.duplicate().resolution.as_seconds(), u), 'duplicate')
    S.check(S.eq(s.filter('b').resolution.as_seconds(), u), 'filter')


@case('C02', quick=[dict()])
def resolution_slots_fractional(S):
    """Slots given by their start and end, of any length."""
    d = ts()
    u = S.choice('length', [0.001, 0.125, 0.25, 0.3, 0.5, 0.75, 1, 1.05, 1.25, 1.5, 2.5, 10.01, 59.5, 60, 60.25, 90.125, 3600.5, 5400, 86400.25, 100000.5])
    base = S.choice('base', [0, 1553990400, 1572130800.5])
    n = S.choice('n', [1, 2, 3])
    s = d.TimeSeries()
    for i in range(n):
        s.append(d.DataTimeSlot(start=d.TimePoint(t=base + i * u), end=d.TimePoint(t=base + (i + 1) * u), data={'v': S.real('v%d' % i)}))
    for x, label in ((s, 'series'), (s.duplicate(), 'duplicate'), (s[0:1], 'slice')):
        S.check(abs(x.resolution.as_seconds() - u) < 1e-5, label + ': resolution is the length of the slots')
        S.check(all(abs(i.unit.as_seconds() - u) < 1e-5 for i in x), label + ': so is their unit')


@case('C02', quick=[dict()])
def resolution_calendar(S):
    """Slots of calendar units carry their unit as resolution."""
    from timeseria.units import TimeUnit
    d = ts()
    unit = S.choice('unit', ['1D', '1W', '1M', '1Y', '1h', '15m', '2h', '30s'])
    tz = S.choice('tz', ['UTC', 'Europe/Rome', 'America/New_York'])
    from propertime.utils import dt
    start = d.TimePoint(dt=dt(2019, 3, 1, tz=tz))
    s = d.TimeSeries()
    u = TimeUnit(unit)
    for i in range(3):
        s.append(d.DataTimeSlot(start=start, unit=u, data={'v': 1}))
        start = start + u
    S.check(s.resolution == u and s.resolution == TimeUnit(unit), 'resolution is the unit')
    S.check(s.duplicate().resolution == u, 'duplicate')
    S.check(s[0:2].resolution == u, 'slice')
