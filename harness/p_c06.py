"""C06: element-wise operations."""
from symx.api import case
from .common import *

L = ['b', 'a', 'c']


def build(S, n, labels, kind):
    """A series of points, slots or points with list data, with arbitrary values; returns it with its values by label."""
    names = L[:labels] if kind != 'list' else [str(i) for i in range(labels)]
    vals = [{l: S.real('v_%s_%d' % (l, i)) for l in names} for i in range(n)]
    data = [[v[l] for l in names] for v in vals] if kind == 'list' else vals
    idx = [{'data_loss': S.real('x%d' % i, 0, 1)} for i in range(n)]
    if kind == 'slot':
        s = slot_series(S, B, 3600, data, idx, tz='Europe/Rome')
    else:
        s = point_series(S, S.increasing('t', n), data, idx, tz='Europe/Rome')
    return s, vals, names


def expected(before, values, names, kind, indexes=True):
    """The snapshot with the values replaced."""
    out = []
    for b, v in zip(before, values):
        d = [v[l] for l in names] if kind == 'list' else {l: v[l] for l in v}
        out.append((b[0], b[1], d, b[3] if indexes else {}))
    return out


def apply(S, s, fn, want, before, label):
    """Checks both forms of an operation against the expected items."""
    r = fn(s, False)
    S.check(type(r).__name__ == 'TimeSeries', label + ': a series is returned')
    S.check(same_snap(S, snap(r), want), label + ': exact values, same timestamps and indexes')
    S.check(str(r.tz) == str(s.tz) and all(str(it.tz) == str(s.tz) for it in r), label + ': same time zone')
    S.check(same_snap(S, snap(s), before), label + ': the source is unchanged')
    for it in r:
        it.data_indexes['data_loss'] = 7
    S.check(same_snap(S, snap(s), before), label + ': the source is independent of the result')
    S.check(fn(s, True) is None, label + ': nothing returned in-place')
    S.check(same_snap(S, snap(s), want), label + ': same result in-place')
    for i, it in enumerate(snap(s)):
        S.observe('r%d' % i, it[2])


SIZES = dict(quick=[dict(n=12, labels=1, kind='point'), dict(n=2, labels=2, kind='point'), dict(n=2, labels=2, kind='slot'), dict(n=2, labels=2, kind='list'), dict(n=1, labels=1, kind='point')],
             thorough=[dict(n=n, labels=l, kind=k) for n in (1, 2, 3, 4, 6) for l in (1, 2, 3) for k in ('point', 'slot', 'list')])


@case('C06', **SIZES)
def rescaling(S, n, labels, kind):
    """Rescaling by any number, or by any number per label."""
    s, vals, names = build(S, n, labels, kind)
    before = snap(s)
    how = S.choice('how', ['scalar', 'labels', 'one label', 'int'])
    if how == 'scalar':
        f = S.real('f', -20, 20)
        fs = {l: f for l in names}
    elif how == 'int':
        f = 3
        fs = {l: f for l in names}
    else:
        ls = names if how == 'labels' else names[:1]
        f = {l: S.real('f_' + l, -20, 20) for l in ls}
        fs = {l: f.get(l, 1) for l in names}
    want = expected(before, [{l: v[l] * fs[l] for l in names} for v in vals], names, kind)
    apply(S, s, lambda x, inplace: x.rescale(f, inplace=inplace), want, before, 'rescale ' + how)


@case('C06', **SIZES)
def offsetting(S, n, labels, kind):
    """Offsetting by any number, or by any number per label."""
    s, vals, names = build(S, n, labels, kind)
    before = snap(s)
    how = S.choice('how', ['scalar', 'labels', 'one label'])
    if how == 'scalar':
        f = S.real('f', -20, 20)
        fs = {l: f for l in names}
    else:
        ls = names if how == 'labels' else names[-1:]
        f = {l: S.real('f_' + l, -20, 20) for l in ls}
        fs = {l: f.get(l, 0) for l in names}
    want = expected(before, [{l: v[l] + fs[l] for l in names} for v in vals], names, kind)
    apply(S, s, lambda x, inplace: x.offset(f, inplace=inplace), want, before, 'offset ' + how)


@case('C06', quick=[dict(n=2, labels=2, kind='point'), dict(n=2, labels=1, kind='slot'), dict(n=3, labels=1, kind='list')],
      thorough=[dict(n=n, labels=l, kind=k) for n in (2, 3) for l in (1, 2) for k in ('point', 'slot', 'list')] + [dict(n=4, labels=1, kind='point')])
def normalising(S, n, labels, kind):
    """Normalising any values (not all the same) on any target range, with the range of the values or any given one as source."""
    s, vals, names = build(S, n, labels, kind)
    before = snap(s)
    how = S.choice('how', ['plain', 'range', 'source', 'both'])
    lo, hi = 0, 1
    kw = {}
    if how in ('range', 'both'):
        lo, hi = S.real('lo', -10, 10), S.real('hi', -10, 10)
        kw['range'] = [lo, hi]
    src = {}
    if how in ('source', 'both'):
        for l in names:
            a, b = S.real('src_lo_' + l, -10, 10), S.real('src_hi_' + l, -10, 10)
            S.assume(b - a >= 0.5)
            src[l] = [a, b]
        kw['source_range'] = src
    else:
        for l in names:
            xs = [v[l] for v in vals]
            a = b = xs[0]
            for x in xs[1:]:
                a = S.ite(x < a, x, a)
                b = S.ite(x > b, x, b)
            S.assume(b - a >= 0.5)
            src[l] = [a, b]

    r = s.normalize(**kw)
    rs = snap(r)
    S.check(len(rs) == n, 'as many items')
    S.check(str(r.tz) == str(s.tz) and all(str(it.tz) == str(s.tz) for it in r), 'same time zone')
    S.check(same_snap(S, snap(s), before), 'the source is unchanged')
    for i in range(n):
        S.check(S.and_(S.eq(rs[i][0], before[i][0]), S.eqd(rs[i][3], before[i][3])), 'same timestamps and indexes')
        d = dict(zip(names, rs[i][2])) if kind == 'list' else rs[i][2]
        S.check(sorted(d) == sorted(names), 'same labels')
        for l in names:
            # the linear map sending the source range onto the target one
            S.check(S.eq((d[l] - lo) * (src[l][1] - src[l][0]), (vals[i][l] - src[l][0]) * (hi - lo), 1e-4), how + ': linear map of the ranges')
    S.check(s.normalize(inplace=True, **kw) is None, 'nothing returned in-place')
    S.check(same_snap(S, snap(s), rs), how + ': same result in-place')


@case('C06', quick=[dict(n=4, labels=2, kind='point'), dict(n=3, labels=1, kind='slot'), dict(n=3, labels=2, kind='list')],
      thorough=[dict(n=n, labels=l, kind=k) for n in (1, 2, 4, 6, 8) for l in (1, 2) for k in ('point', 'slot', 'list')])
def moving_averages(S, n, labels, kind):
    """Moving averages over any window."""
    s, vals, names = build(S, n, labels, kind)
    before = snap(s)
    w = S.choice('w', range(1, n + 1))
    r = s.mavg(w)
    rs = snap(r)
    S.check(len(rs) == n - w + 1, 'one item per full window')
    S.check(str(r.tz) == str(s.tz) and all(str(it.tz) == str(s.tz) for it in r), 'same time zone')
    for i in range(len(rs)):
        e = before[i + w - 1]
        S.check(S.and_(S.eq(rs[i][0], e[0]), True if e[1] is None else S.eq(rs[i][1], e[1])), 'at the timestamp of the last item of the window')
        d = rs[i][2]
        for l in names:
            tot = 0
            for j in range(i, i + w):
                tot = tot + vals[j][l]
            x = d[int(l)] if kind == 'list' else d['%s_mavg_%d' % (l, w)]
            S.check(S.eq(x * w, tot), 'mean of the window')
        S.check(len(d) == len(names), 'no other labels')
    S.check(same_snap(S, snap(s), before), 'the source is unchanged')
    S.check(S.refused(lambda: s.mavg(0)) is not None, 'no window is refused')
    S.check(S.refused(lambda: s.mavg(w, inplace=True)) is not None, 'in-place is refused')
    S.check(same_snap(S, snap(s), before), 'the source is unchanged')


@case('C06', quick=[dict(unit=u) for u in ('1D', '1M', '1h', '24h', '15m', '1Y')])
def slots_stay(S, unit):
    """Slots come out as they are: same start, end and unit, also where units have no fixed length."""
    from propertime.utils import dt
    d = ts()
    u = d.TimeUnit(unit)
    tz = S.choice('tz', ['UTC', 'Europe/Rome'])
    s = d.TimeSeries()
    p = d.TimePoint(dt=dt(*{'1D': (2021, 3, 27), '1M': (2021, 2, 1), '1Y': (2019, 1, 1)}.get(unit, (2021, 3, 28)), tz=tz))
    vals = S.reals('v', 3, -5, 5)
    S.assume(abs(vals[0] - vals[1]) >= 0.5)
    for v in vals:
        s.append(d.DataTimeSlot(start=p, unit=u, data={'a': v}, data_loss=S.real('l%d' % len(s), 0, 1)))
        p = s[-1].end
    op = S.choice('op', ['rescale', 'offset', 'normalize', 'mavg', 'filter'])
    r = {'rescale': lambda: s.rescale(3), 'offset': lambda: s.offset(3), 'normalize': lambda: s.normalize(), 'mavg': lambda: s.mavg(2), 'filter': lambda: s.filter('a')}[op]()
    S.check(len(r) == (2 if op == 'mavg' else 3), 'as many items')
    for x, y in zip(r, list(s)[-len(r):]):
        S.check(x.start == y.start and x.end == y.end and x.unit == y.unit and str(x.unit) == str(y.unit) == str(u), 'same slots')
        S.check(str(x.tz) == str(y.tz) == tz, 'on the same time zone')
        if op != 'mavg':
            S.check(S.eqd(x.data_indexes, y.data_indexes), 'same indexes')
    S.check(r.resolution == s.resolution == u, 'same resolution')


@case('C06', quick=[dict(kind='point'), dict(kind='slot')])
def independent(S, kind):
    """Whatever is done later on the items of a result never reaches the source."""
    s, vals, names = build(S, 3, 2, kind)
    S.assume(abs(vals[0]['a'] - vals[1]['a']) >= 0.5)
    S.assume(abs(vals[0]['b'] - vals[1]['b']) >= 0.5)
    before = snap(s)
    op = S.choice('op', ['rescale', 'offset', 'normalize', 'mavg', 'filter', 'duplicate', 'derivative', 'diff', 'integral', 'csum', 'merge', 'as_tz', 'view'])
    r = {'rescale': lambda: s.rescale(3), 'offset': lambda: s.offset(3), 'normalize': lambda: s.normalize(), 'mavg': lambda: s.mavg(1), 'filter': lambda: s.filter('a'),
         'duplicate': lambda: s.duplicate(), 'derivative': lambda: s.derivative(), 'diff': lambda: s.diff(), 'integral': lambda: s.integral(), 'csum': lambda: s.csum(),
         'merge': lambda: s.merge(s.duplicate()), 'as_tz': lambda: s.as_tz('America/New_York'), 'view': lambda: s.view(0, 3).duplicate()}
    if kind == 'point' and op in ('diff', 'csum', 'merge'):
        return
    r = r[op]()
    before_r = snap(r)
    for it in r:
        for l in it.data:
            it.data[l] = 77
        it.data['more'] = 78
        it.data_indexes['data_loss'] = 0.77
        it.data_indexes['more'] = 0.78
    r.change_tz('Asia/Tokyo')
    S.check(same_snap(S, snap(s), before), op + ': values and indexes')
    S.check(all(str(it.tz) == 'Europe/Rome' for it in s) and str(s.tz) == 'Europe/Rome', op + ': time zones')
    if kind == 'slot':
        S.check(all(str(it.start.tz) == 'Europe/Rome' and str(it.end.tz) == 'Europe/Rome' for it in s), op + ': time zones of the ends')


@case('C06', quick=[dict()])
def single_value(S):
    """The helper rescaling single (non-negative) values: on the straight line from the source to the target range, and nothing outside."""
    from timeseria.utilities import rescale
    x, lo, hi, a, b = (S.real(n, -3, 100) for n in ('x', 'source_from', 'source_to', 'target_from', 'target_to'))
    S.assume(hi > lo)
    plain = S.bool('plain')
    got = []
    err = S.refused(lambda: got.append(rescale(x, lo, hi) if plain else rescale(x, lo, hi, target_from=a, target_to=b)))
    inside = S.all([x >= lo, x <= hi, x >= 0, lo >= 0])
    if not plain:
        inside = S.all([inside, a >= 0, b >= 0])
    S.check(S.iff(err is None, inside) if hasattr(S, 'iff') else (err is None) == bool(inside), 'accepted exactly within the source range, if not negative')
    if err is None:
        p, q = (0, 1) if plain else (a, b)
        S.check(S.eq((got[0] - p) * (hi - lo), (x - lo) * (q - p)), 'on the line')
