"""C08: merging."""
from symx.api import case
from .common import *


def merged(*series):
    from timeseria.operations import merge
    return merge(*series)


def make(S, name, kind, n, start, u, labels, idx, tz=None):
    vals = [{l: S.real('%s_%s%d' % (name, l, i)) for l in labels} for i in range(n)]
    ix = [{k: S.real('%s_%s%d' % (name, k, i), 0, 1) for k in idx} for i in range(n)]
    times = [start + u * i for i in range(n)]
    s = slot_series(S, start, u, vals, ix, tz=tz) if kind == 'slot' else point_series(S, times, vals, ix, tz=tz)
    return s, times, vals, ix


def expect(S, series, times, label):
    """What merging the (series, times, values, indexes) must give: one item per common timestamp."""
    out = []
    for t in times:
        at = []
        for s, ts_, vals, ix in series:
            for i in range(len(ts_)):
                if ts_[i] == t:
                    at.append((vals[i], ix[i]))
        if len(at) < len(series):
            continue
        row, irow = {}, {}
        for k, dst in ((0, row), (1, irow)):
            seen = {}
            for x in at:
                for l, v in x[k].items():
                    seen.setdefault(l, []).append(v)
            for l, vs in seen.items():
                tot = 0
                for v in vs:
                    tot = tot + v
                dst[l] = tot / len(vs)
        out.append((t, row, irow))
    return out


def compare(S, r, want, kind, u, label):
    rs = snap(r)
    S.check(len(rs) == len(want), label + ': one item per common timestamp')
    for x, w in zip(rs, want):
        S.check(S.eq(x[0], w[0]), label + ': at the common timestamps')
        S.check((x[1] is not None) == (kind == 'slot'), label + ': same kind of items')
        if kind == 'slot':
            S.check(S.eq(x[1], w[0] + u), label + ': same slots')
        S.check(S.eqd(x[2], w[1]), label + ': all labels, mean of the common ones')
        S.check(S.eqd(x[3], w[2]), label + ': likewise for the indexes')
    return rs


LABELS = {'distinct': (['b'], ['a']), 'same': (['a'], ['a']), 'mixed': (['a', 'b'], ['b', 'c'])}
IDX = {'none': ([], []), 'loss': (['data_loss'], ['data_loss']), 'mixed': (['data_loss'], ['anomaly', 'data_loss']), 'one': ([], ['anomaly'])}


@case('C08', quick=[dict(n=3, m=3, kind='point'), dict(n=2, m=3, kind='slot'), dict(n=3, m=1, kind='slot'), dict(n=2, m=3, kind='point', epoch=0), dict(n=2, m=2, kind='slot', epoch=-1), dict(n=14, m=12, kind='point')],
      thorough=[dict(n=n, m=m, kind=k) for n in (2, 3, 4) for m in (2, 3, 5) for k in ('point', 'slot')] + [dict(n=14, m=12, kind='point')] + [dict(n=2, m=3, kind='point', epoch=0), dict(n=2, m=2, kind='slot', epoch=-1)])
def two(S, n, m, kind):
    """Two series of the same resolution, at any relative alignment."""
    labels = LABELS[S.choice('labels', list(LABELS))]
    idx = IDX[S.choice('idx', list(IDX))]
    u = S.choice('unit', [1, 60])
    off = S.choice('offset', range(-m - 1, n + 2)) * u
    a = make(S, 'a', kind, n, B, u, labels[0], idx[0], tz='Europe/Rome')
    b = make(S, 'b', kind, m, B + off, u, labels[1], idx[1], tz='Europe/Rome')
    sa, sb = snap(a[0]), snap(b[0])
    want = expect(S, [a, b], a[1], 'two')
    got = []
    e = S.refused(lambda: got.append(merged(a[0], b[0])))
    if not want:
        S.check(e is not None or len(got[0]) == 0, 'nothing in common: nothing is made up')
    else:
        S.check(e is None, 'merged')
        r = compare(S, got[0], want, kind, u, 'merge')
        S.check(str(got[0].tz) == 'Europe/Rome', 'time zone kept')
        o = merged(b[0], a[0])
        S.check(same_snap(S, snap(o), r), 'the order of the arguments does not matter')
        for it in got[0]:
            it.data['zz'] = 0
            it.data_indexes['zz'] = 0
    S.check(same_snap(S, snap(a[0]), sa), 'the first is unchanged')
    S.check(same_snap(S, snap(b[0]), sb), 'the second is unchanged')


@case('C08', quick=[dict(n=(2, 3, 2), kind='point'), dict(n=(2, 2, 2), kind='slot'), dict(n=(2, 2, 2), kind='point', epoch=0)],
      thorough=[dict(n=n, kind=k) for n in ((2, 3, 4), (4, 3, 2), (3, 3, 3)) for k in ('point', 'slot')] + [dict(n=(2, 2, 2), kind='point', epoch=0)])
def three(S, n, kind):
    """Three series of the same resolution at any relative alignment, in any order."""
    u = 600
    d1 = S.choice('d1', range(-n[1], n[0] + 1))
    d2 = S.choice('d2', range(-n[2], n[0] + 1))
    a = make(S, 'a', kind, n[0], B, u, ['x'], ['data_loss'])
    b = make(S, 'b', kind, n[1], B + d1 * u, u, ['x', 'y'], ['data_loss'])
    c = make(S, 'c', kind, n[2], B + d2 * u, u, ['x', 'z'], [])
    before = [snap(q[0]) for q in (a, b, c)]
    want = expect(S, [a, b, c], a[1], 'three')
    perm = S.choice('perm', [(0, 1, 2), (2, 0, 1), (1, 2, 0), (2, 1, 0)])
    q = [(a, b, c)[i][0] for i in perm]
    got = []
    e = S.refused(lambda: got.append(merged(*q)))
    if not want:
        S.check(e is not None or len(got[0]) == 0, 'nothing in common: nothing is made up')
    else:
        S.check(e is None, 'merged')
        compare(S, got[0], want, kind, u, 'merge of three')
    for x, y in zip(before, (a, b, c)):
        S.check(same_snap(S, snap(y[0]), x), 'the sources are unchanged')


@case('C08', quick=[dict(n=3)], thorough=[dict(n=4), dict(n=5)])
def misaligned(S, n):
    """Point series of any two resolutions and any starts: merged on their common timestamps, or refused."""
    ua, ub = S.int('ua', 1, 20), S.int('ub', 1, 20)
    off = S.int('off', -30, 30)
    a = make(S, 'a', 'point', n, B, ua, ['x'], [])
    b = make(S, 'b', 'point', n, B + off, ub, ['y'], [])
    sa, sb = snap(a[0]), snap(b[0])
    got = []
    e = S.refused(lambda: got.append(merged(a[0], b[0])))
    if ua != ub:
        S.check(e is not None, 'different resolutions are refused')
        S.cover('different')
    elif e is None:
        S.cover('merged')
        want = expect(S, [a, b], a[1], 'two')
        compare(S, got[0], want, 'point', ua, 'merge')
    else:
        S.check(len(expect(S, [a, b], a[1], 'two')) == 0, 'series with common timestamps are merged')
    S.check(S.and_(same_snap(S, snap(a[0]), sa), same_snap(S, snap(b[0]), sb)), 'the sources are unchanged')


@case('C08', quick=[dict(n=3)], thorough=[dict(n=4)])
def refusals(S, n):
    """Variable resolution series, and units that differ, are refused."""
    times = S.increasing('t', n, gap_hi=20)
    a = point_series(S, times, [{'a': S.real('a%d' % i)} for i in range(n)])
    b = point_series(S, [times[0] + (times[1] - times[0]) * i for i in range(n)], [{'b': i} for i in range(n)])
    equal = True
    for i in range(2, n):
        if times[i] - times[i - 1] != times[1] - times[0]:
            equal = False
    for q in ((a, b), (b, a)):
        e = S.refused(lambda: merged(*q))
        S.check((e is None) == equal, 'merged if and only if both have the same resolution')
    sl = slot_series(S, B, 60, [{'a': 1}, {'a': 2}])
    s2 = slot_series(S, B, 120, [{'c': 1}, {'c': 2}])
    S.check(S.refused(lambda: merged(sl, s2)) is not None, 'different units are refused')
    from timeseria.datastructures import TimeSeries
    S.check(S.refused(lambda: merged(a, TimeSeries())) is not None, 'empty series are refused')


@case('C08', quick=[dict(n=3)], thorough=[dict(n=2), dict(n=4)])
def lists(S, n):
    """Series with list data: by position."""
    w = S.choice('width', [(1, 1), (2, 2), (2, 1), (1, 3)])
    kind = S.choice('kind', ['point', 'slot'])
    off = S.choice('offset', [0, 1])
    rows = [[[S.real('%s%d_%d' % (q, i, j)) for j in range(m)] for i in range(n)] for q, m in zip('ab', w)]
    build = lambda at, r: slot_series(S, at, 60, r) if kind == 'slot' else point_series(S, [at + 60 * i for i in range(n)], r)
    a, b = build(B, rows[0]), build(B + 60 * off, rows[1])
    sa, sb = snap(a), snap(b)
    r = merged(a, b)
    S.check(len(r) == n - off, 'one item per common timestamp')
    for i, it in enumerate(r):
        x, y = rows[0][i + off], rows[1][i]
        want = [(x[j] + y[j]) / 2 if j < len(x) and j < len(y) else (x[j] if j < len(x) else y[j]) for j in range(max(w))]
        S.check(S.eq(it.t, B + 60 * (off + i)), 'at the common timestamps')
        S.check(list(it.data_labels()) == [str(j) for j in range(max(w))], 'all labels')
        S.check(S.eqs([it._data_by_label(str(j)) for j in range(max(w))], want), 'mean of the common ones')
        S.check(type(it.data) is list, 'still a list')
    S.check(S.and_(same_snap(S, snap(a), sa), same_snap(S, snap(b), sb)), 'the sources are unchanged')


@case('C08', quick=[dict(u=0.25), dict(u=0.5)])
def subsecond(S, u):
    """Series with items less than one second apart are aligned on their exact timestamps."""
    off = S.int('off', -3, 3)
    a, ta, va, ia = make(S, 'x', 'point', 4, B, u, ['a'], ['data_loss'])
    b, tb, vb, ib = make(S, 'y', 'point', 4, B + off * u, u, ['a', 'b'], ['data_loss'])
    order = S.choice('order', [0, 1])
    want = expect(S, [(a, ta, va, ia), (b, tb, vb, ib)], ta, 'subsecond')
    r = merged(a, b) if order == 0 else merged(b, a)
    compare(S, r, want, 'point', u, 'subsecond')


@case('C08', quick=[dict(kind='point'), dict(kind='slot')])
def timezones(S, kind):
    """Series on different time zones are merged on their common instants, and stay on their own."""
    tzs = S.choice('tz', [('Europe/Rome', 'UTC'), ('UTC', 'America/New_York'), ('Asia/Kolkata', 'Europe/Rome')])
    u, off = 3600, S.choice('offset', range(-3, 4))
    a = make(S, 'x', kind, 3, B, u, ['a'], ['data_loss'], tz=tzs[0])
    b = make(S, 'y', kind, 3, B + off * u, u, ['a', 'b'], [], tz=tzs[1])
    before = snap(a[0]), snap(b[0])
    want = expect(S, [a, b], a[1], 'timezones')
    got = []
    e = S.refused(lambda: got.append(merged(a[0], b[0])))
    if want:
        S.check(e is None, 'merged')
        compare(S, got[0], want, kind, u, 'timezones')
        if kind == 'point':
            S.check(all(str(x.tz) in tzs for x in got[0]) and len({str(x.tz) for x in got[0]}) == 1, 'on one of the two')
    S.check(str(a[0].tz) == tzs[0] and str(b[0].tz) == tzs[1], 'the sources stay on theirs')
    S.check(S.and_(same_snap(S, snap(a[0]), before[0]), same_snap(S, snap(b[0]), before[1])), 'the sources are unchanged')
