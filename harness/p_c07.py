"""C07: differences, sums, derivatives and integrals."""
from symx.api import case
from .common import *

L = ['b', 'a', 'c']


def build(S, n, labels, kind, spacing):
    """A series with arbitrary values, equally spaced by an arbitrary interval or arbitrarily spaced."""
    names = L[:labels] if kind != 'list' else [str(i) for i in range(labels)]
    vals = [{l: S.real('v_%s_%d' % (l, i), -50, 50) for l in names} for i in range(n)]
    data = [[v[l] for l in names] for v in vals] if kind == 'list' else vals
    idx = [{'data_loss': S.real('x%d' % i, 0, 1)} for i in range(n)]
    if spacing == 'regular':
        u = S.choice('unit', [1, 10, 3600, 86400, 0.5, 2.5])
        times = [B + u * i for i in range(n)]
    else:
        u = None
        times = S.increasing('t', n, gap_hi=100)
    if kind == 'slot':
        s = slot_series(S, B, u, data, idx, tz='Europe/Rome')
    else:
        s = point_series(S, times, data, idx, tz='Europe/Rome')
    return s, vals, names, times


def value(d, label, post, kind):
    return d[int(label)] if kind == 'list' else d['%s_%s' % (label, post)]


def shape(S, r, s, before, names, post, kind, first=0):
    """The result has the timestamps and the indexes of the source, and a label per label."""
    rs = snap(r)
    S.check(len(rs) == len(before) - first, post + ': number of items')
    for x, b in zip(rs, before[first:]):
        S.check(S.eq(x[0], b[0]), post + ': same timestamps')
        if b[1] is not None:
            S.check(S.eq(x[1], b[1]), post + ': same slots')
        S.check(S.eqd(x[3], b[3]), post + ': same indexes')
        S.check(len(x[2]) == len(names) and (kind == 'list' or sorted(x[2]) == sorted('%s_%s' % (l, post) for l in names)), post + ': labels')
    S.check(str(r.tz) == str(s.tz) and all(str(it.tz) == str(s.tz) for it in r), post + ': same time zone')
    S.check(same_snap(S, snap(s), before), post + ': the source is unchanged')
    return rs


def inplace_same(S, s, before, rs, names, post, kind, refuse=False):
    """The in-place form gives the same numbers on the same items."""
    now = snap(s)
    S.check(len(now) == len(before), post + ': same items in-place')
    for x, b, r in zip(now, before, rs):
        S.check(S.eq(x[0], b[0]), post + ': same timestamps in-place')
        for l in names:
            S.check(S.eq(value(x[2], l, post, kind), value(r[2], l, post, kind)), post + ': same numbers in-place')
            if kind != 'list':
                S.check(S.eq(x[2][l], b[2][l]), post + ': values kept in-place')
        S.check(len(x[2]) == (len(names) if kind == 'list' else 2 * len(names)), post + ': no other labels in-place')


KINDS = dict(quick=[dict(n=12, labels=1, kind='point', spacing='any'), dict(n=3, labels=2, kind='point', spacing='regular'), dict(n=3, labels=2, kind='slot', spacing='regular'),
                    dict(n=3, labels=1, kind='list', spacing='regular'), dict(n=4, labels=1, kind='point', spacing='any'),
                    dict(n=3, labels=2, kind='point', spacing='any')],
             thorough=[dict(n=n, labels=l, kind=k, spacing=sp) for n in (2, 3, 4, 5, 6) for l in (1, 2) for k, sp in
                       (('point', 'regular'), ('slot', 'regular'), ('list', 'regular'), ('point', 'any'), ('list', 'any'))])


@case('C07', **KINDS)
def differences(S, n, labels, kind, spacing):
    """Differences and cumulative sums, and one undoing the other."""
    s, vals, names, times = build(S, n, labels, kind, spacing)
    before = snap(s)
    res = s.resolution
    if res == 'variable':
        S.check(S.refused(lambda: s.diff()) is not None, 'differences of a variable resolution series are refused')
        S.check(S.refused(lambda: s.csum()) is not None, 'cumulative sums of a variable resolution series are refused')
        S.check(same_snap(S, snap(s), before), 'the source is unchanged')
        return
    rs = shape(S, s.diff(), s, before, names, 'diff', kind, first=1)
    for i in range(n - 1):
        for l in names:
            S.check(S.eq(value(rs[i][2], l, 'diff', kind), vals[i + 1][l] - vals[i][l]), 'difference from the previous item')
    cs = shape(S, s.csum(), s, before, names, 'csum', kind)
    for l in names:
        tot = 0
        for i in range(n):
            tot = tot + vals[i][l]
            S.check(S.eq(value(cs[i][2], l, 'csum', kind), tot), 'running total')
    # summing the differences from the first value gives the series back
    if n >= 3:
        dl = (lambda l: l) if kind == 'list' else (lambda l: l + '_diff')
        how = S.choice('offset', ['labels', 'scalar'])
        o = {dl(l): vals[0][l] for l in names} if how == 'labels' else S.real('o', 1, 10)
        off = {l: vals[0][l] if how == 'labels' else o for l in names}
        back = snap(s.diff().csum(offset=o))
        S.check(len(back) == n, 'the offset is prepended')
        post = 'csum' if kind == 'list' else 'diff_csum'
        for i in range(n):
            S.check(S.eq(back[i][0], before[i][0]), 'same timestamps back')
            for l in names:
                S.check(S.eq(value(back[i][2], l, post, kind), vals[i][l] - vals[0][l] + off[l]), 'same values back')
    S.check(S.refused(lambda: s.diff(inplace=True)) is not None, 'in-place differences are refused')
    S.check(same_snap(S, snap(s), before), 'the source is unchanged')
    s.csum(inplace=True)
    inplace_same(S, s, before, cs, names, 'csum', kind)


@case('C07', **KINDS)
def derivatives(S, n, labels, kind, spacing):
    """Derivatives of any values at any spacing; affine signals have their slope as derivative."""
    s, vals, names, times = build(S, n, labels, kind, spacing)
    before = snap(s)
    rs = shape(S, s.derivative(), s, before, names, 'derivative', kind)

    def inc(i, l):
        return (vals[i + 1][l] - vals[i][l]) / (times[i + 1] - times[i])
    for l in names:
        for i in range(n):
            got = value(rs[i][2], l, 'derivative', kind)
            S.observe('d%d%s' % (i, l), got)
            if i == 0:
                want = inc(0, l)
            elif i == n - 1:
                want = inc(n - 2, l)
            else:
                want = (inc(i - 1, l) + inc(i, l)) / 2
            S.check(S.eq(got, want), 'mean of the increments on the two sides')
    un = shape(S, s.derivative(normalize=False), s, before, names, 'diff', kind)
    for l in names:
        for i in range(n):
            a = vals[i][l] - vals[i - 1][l] if i else None
            b = vals[i + 1][l] - vals[i][l] if i < n - 1 else None
            want = b if a is None else a if b is None else (a + b) / 2
            S.check(S.eq(value(un[i][2], l, 'diff', kind), want), 'not normalised')
    steps = snap(s.derivative(diffs=True))
    S.check(len(steps) == n - 1, 'one increment between each two items')
    for i, x in enumerate(steps):
        S.check(S.eq(x[0], before[i + 1][0]), 'increments at the second item')
        for l in names:
            S.check(S.eq(value(x[2], l, 'derivative', kind), inc(i, l)), 'increments per unit of time')
    if s.resolution != 'variable':
        S.check(same_snap(S, snap(s.derivative(normalize=False, diffs=True)), snap(s.diff())), 'increments not normalised are the differences')
    s.derivative(inplace=True)
    inplace_same(S, s, before, rs, names, 'derivative', kind)


@case('C07', **KINDS)
def integrals(S, n, labels, kind, spacing):
    """Integrating the derivative gives the signal back, whatever the values, and the derivative of an integral is the signal."""
    s, vals, names, times = build(S, n, labels, kind, spacing)
    before = snap(s)
    how = S.choice('c', ['none', 'scalar', 'labels'])
    der = s.derivative()
    dl = (lambda l: l) if kind == 'list' else (lambda l: l + '_derivative')
    cs = {l: 0 for l in names}
    kw = {}
    if how == 'scalar':
        kw['c'] = S.real('k', -10, 10)
        cs = {l: kw['c'] for l in names}
    elif how == 'labels':
        cs = {l: S.real('k' + l, -10, 10) for l in names}
        kw['c'] = {dl(l): cs[l] for l in names}
    dsnap = snap(der)
    back = shape(S, der.integral(**kw), der, dsnap, [dl(l) for l in names], 'integral', kind)
    for l in names:
        for i in range(n):
            S.check(S.eq(value(back[i][2], dl(l), 'integral', kind), vals[i][l] - vals[0][l] + cs[l]), 'integral of the derivative')
    # derivative of the integral
    it = s.integral(c=4)
    rs = shape(S, it, s, before, names, 'integral', kind)
    for l in names:
        S.check(S.eq(value(rs[0][2], l, 'integral', kind), 4), 'starts from the constant')
    il = (lambda l: l) if kind == 'list' else (lambda l: l + '_integral')
    dd = snap(it.derivative())
    for l in names:
        for i in range(n - 1):
            S.check(S.eq(value(dd[i][2], il(l), 'derivative', kind), vals[i][l]), 'derivative of the integral')
    if spacing == 'regular':
        o = S.real('o', 1, 5)
        off = {l: o for l in names} if S.choice('offset', ['scalar', 'labels']) == 'labels' else o
        ro = s.integral(offset=off)
        S.check(str(ro.tz) == str(s.tz) and all(str(it.tz) == str(s.tz) for it in ro), 'same time zone')
        ro = snap(ro)
        S.check(len(ro) == n + 1, 'the offset is prepended')
        u = times[1] - times[0]
        S.check(S.eq(ro[0][0], times[0] - u), 'one unit before')
        for i in range(n + 1):
            for l in names:
                w = o if i == 0 else value(rs[i - 1][2], l, 'integral', kind) - 4 + o
                S.check(S.eq(value(ro[i][2], l, 'integral', kind), w), 'integration starts from the offset')
    S.check(S.refused(lambda: s.integral(inplace=True, offset=2)) is not None, 'in-place with an offset is refused')
    S.check(S.refused(lambda: s.integral(c={'zz': 2})) is not None, 'a constant for another label only is refused')
    S.check(same_snap(S, snap(s), before), 'the source is unchanged')
    s.integral(inplace=True, c=4)
    inplace_same(S, s, before, rs, names, 'integral', kind)


@case('C07', quick=[dict(n=4, kind='point'), dict(n=3, kind='slot'), dict(n=25, kind='point')],
      thorough=[dict(n=n, kind=k) for n in (2, 3, 5, 6) for k in ('point', 'slot', 'list')] + [dict(n=25, kind='point')])
def affine(S, n, kind):
    """An affine signal at any spacing has its slope as derivative, and a constant one its line as integral."""
    a, b = S.real('slope', -2, 2), S.real('start', -5, 5)
    if kind == 'slot':
        u = S.choice('unit', [1, 600, 2.5])
        times = [B + u * i for i in range(n)]
        s = slot_series(S, B, u, [{'v': a * (t - B) + b} for t in times])
        k = slot_series(S, B, u, [{'v': a} for t in times])
    else:
        times = S.increasing('t', n, gap_hi=50)
        mk = (lambda v: [v]) if kind == 'list' else (lambda v: {'v': v})
        s = point_series(S, times, [mk(a * (t - B) + b) for t in times])
        k = point_series(S, times, [mk(a) for t in times])
    for x in s.derivative():
        S.check(S.eq(value(x.data, '0' if kind == 'list' else 'v', 'derivative', kind), a), 'the slope')
    for t, x in zip(times, k.integral(c=b)):
        S.check(S.eq(value(x.data, '0' if kind == 'list' else 'v', 'integral', kind), a * (t - B) + b), 'the line')


@case('C07', quick=[dict(unit=u) for u in ('1D', '1M', '1h', '15m')], thorough=[dict(unit=u) for u in ('1D', '1M', '1h', '15m', '1Y', '1W', '3M', '2D')])
def slots_stay(S, unit):
    """Slots come out as they are: same start, end and unit, also where units have no fixed length."""
    from propertime.utils import dt
    d = ts()
    u = d.TimeUnit(unit)
    tz = S.choice('tz', ['UTC', 'Europe/Rome'])
    s = d.TimeSeries()
    p = d.TimePoint(dt=dt(*{'1D': (2021, 3, 27), '1M': (2021, 2, 1)}.get(unit, (2021, 3, 28)), tz=tz))
    vals = S.reals('v', 3, -5, 5)
    for v in vals:
        s.append(d.DataTimeSlot(start=p, unit=u, data={'a': v}, data_loss=S.real('l%d' % len(s), 0, 1)))
        p = s[-1].end
    op = S.choice('op', ['derivative', 'diff', 'integral', 'csum'])
    r = {'derivative': lambda: s.derivative(), 'diff': lambda: s.diff(), 'integral': lambda: s.integral(), 'csum': lambda: s.csum()}[op]()
    S.check(len(r) == (2 if op == 'diff' else 3), 'as many items')
    for x, y in zip(r, list(s)[-len(r):]):
        S.check(x.start == y.start and x.end == y.end and x.unit == y.unit and str(x.unit) == str(y.unit) == str(u), 'same slots')
        S.check(str(x.tz) == str(y.tz) == tz, 'on the same time zone')
        S.check(S.eqd(x.data_indexes, y.data_indexes), 'same indexes')
    if op == 'diff':
        S.check(S.eqs([x.data['a_diff'] for x in r], [vals[1] - vals[0], vals[2] - vals[1]]), 'the differences')
    if op == 'csum':
        S.check(S.eqs([x.data['a_csum'] for x in r], [vals[0], vals[0] + vals[1], vals[0] + vals[1] + vals[2]]), 'the running totals')
    gaps = [y.start.t - x.start.t for x, y in zip(list(s)[:-1], list(s)[1:])]
    slopes = [(y - x) / g for x, y, g in zip(vals[:-1], vals[1:], gaps)]
    if op == 'derivative':
        want = [slopes[0], (slopes[0] + slopes[1]) / 2, slopes[1]]
        S.check(S.all([abs(x.data['a_derivative'] - w) * g < 1e-6 for x, w, g in zip(r, want, gaps + gaps[-1:])]),
                'the increments over the time that each slot takes')
    if op == 'integral':
        want = [0, vals[0] * gaps[0], vals[0] * gaps[0] + (2 * vals[1] - vals[0]) * gaps[1]]
        S.check(S.all([abs(x.data['a_integral'] - w) < 1e-6 * max(gaps) for x, w in zip(r, want)]),
                'the increments times the time that each slot takes')
    S.check(r.resolution == s.resolution == u, 'same resolution')
