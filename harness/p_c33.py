"""C33: plots, by what they ask the plotting library to show."""
import ast
import json
import re

from symx.api import case
from .common import *
from . import zones
from .p_c14 import table, WINDOWS, month_of
from .p_c03 import same_snap, snap

DAY = 86400
TZ = ['UTC', 'America/New_York', 'Asia/Kolkata', 'Europe/Rome']


def shown(S, s, **kw):
    """What a plot shows: the names of the columns, a row for each entry (local time, cells) and the vertical range."""
    html = s.plot(html=True, **kw)
    js = html[html.index('new Dygraph('):]
    start = js.index(',[') + 1
    end = js.index('labels:')
    data = js[start:js.rindex(',', 0, end)].strip()
    data = re.sub(r'new Date\(Date\.UTC\(([^)]*)\)\)', r'[\1]', data)
    rows = json.loads(data)
    labels = ast.literal_eval(re.search(r'labels: (\[.*?\]),', js).group(1))
    lo, hi = re.search(r'valueRange: \[([^,\]]*), ([^,\]]*)\]', js).groups()
    mark = re.findall(r'toDomCoords\(([^,]*),', js)
    num = lambda x: None if x is None else [num(y) for y in x] if isinstance(x, list) else S.number(x)
    return labels, [(num(r[0]), [num(c) for c in r[1:]]) for r in rows], S.number(lo), S.number(hi), [S.number(m) for m in mark]


def civil(S, f):
    """Seconds of a civil date given as JavaScript has it."""
    y, m = S.concrete(f[0]), S.concrete(f[1])
    import datetime
    base = (datetime.datetime(int(y), int(m) + 1, 1) - datetime.datetime(1970, 1, 1)).days * DAY
    return base + (f[2] - 1) * DAY + f[3] * 3600 + f[4] * 60 + f[5] + (f[6] / 1000 if len(f) > 6 else 0)


def close(S, a, b, digits):
    """The same number, up to the rounding of what is shown."""
    if a is None or b is None:
        return a is b
    if digits is None:
        return S.eq(a, b)
    e = 0.5 * 10 ** -digits + 1e-6
    return S.and_(S.le(a - b, e), S.le(b - a, e))


def cells(S, got, want, precise, labels):
    if len(got) != len(want):
        return False
    return S.all(close(S, g, w, None if precise else 2 if i < labels else 4) for i, (g, w) in enumerate(zip(got, want)))


def build(S, n, kind, tz='UTC', t0=None, unit=600, lost=True, names='ba'):
    t0 = B if t0 is None else t0
    data = [{l: S.real('%s%d' % (l, i), -1000, 1000) for l in names} for i in range(n)]
    idx = []
    for i in range(n):
        x = {'anomaly': S.real('x%d' % i, 0, 1)}
        how = S.choice('loss%d' % i, ['yes', 'none', 'missing']) if lost else 'yes'
        if how != 'missing':
            x['data_loss'] = S.real('l%d' % i, 0, 1) if how == 'yes' else None
        idx.append(x)
    d = ts()
    s = d.TimeSeries()
    for i in range(n):
        if kind == 'slot':
            s.append(d.DataTimeSlot(start=d.TimePoint(t=t0 + unit * i, tz=tz), end=d.TimePoint(t=t0 + unit * (i + 1), tz=tz), data=dict(data[i]), data_indexes=dict(idx[i])))
        else:
            s.append(d.DataTimePoint(t=t0 + unit * i, tz=tz, data=dict(data[i]), data_indexes=dict(idx[i])))
    return s, data, idx


def all_within(S, lo, hi, values):
    return S.all(S.and_(S.le(lo, v, 1e-6), S.le(v, hi, 1e-6)) for v in values)


LABELS = [('all', ['a', 'b']), (['b'], ['b']), (['b', 'a'], ['b', 'a'])]
INDEXES = [('all', None), (None, []), (['data_loss'], ['data_loss'])]


@case('C33', quick=[dict(n=2, kind='point'), dict(n=1, kind='slot'), dict(n=2, kind='point', epoch=-600)], thorough=[dict(n=2, kind='slot'), dict(n=3, kind='point'), dict(n=3, kind='slot'), dict(n=2, kind='point', epoch=-600)])
def values(S, n, kind):
    """One row for each item with the values asked for."""
    s, data, idx = build(S, n, kind)
    before = snap(s)
    precise = S.choice('precise', [False, True])
    which, labels = S.choice('labels', LABELS)
    ind, indexes = S.choice('indexes', INDEXES) if which == 'all' else INDEXES[0]
    if indexes is None:
        indexes = sorted({k for x in idx for k in x})
    elif not all(any(k in x for x in idx) for k in indexes):
        S.check(S.refused(lambda: s.plot(html=True, data_indexes=ind)) is not None, 'indexes which are not there are refused')
        return
    head, rows, lo, hi, _ = shown(S, s, data_labels=which, data_indexes=ind, full_precision=precise)
    S.check(head[:1 + len(labels)] == ['Timestamp'] + labels and sorted(head[1 + len(labels):]) == indexes, 'a column for each label and index')
    S.check(len(rows) == n, 'a row for each item')
    for i, (t, c) in enumerate(rows):
        S.check(S.eq(civil(S, t), B + 600 * i), 'at its time')
        want = [data[i][l] for l in labels] + [idx[i].get(x) for x in head[1 + len(labels):]]
        S.check(cells(S, c, want, precise, len(labels)), 'with its values')
    S.check(all_within(S, lo, hi, [x[l] for x in data for l in labels]), 'nothing falls out of the range shown')
    S.check(same_snap(S, snap(s), before), 'the series is unchanged')


@case('C33', quick=[dict(n=3, k=2, names='a', lost=False), dict(n=4, k=2, names='a', lost=False), dict(n=2, k=3, names='ba', lost=False), dict(n=2, k=1, names='ba', lost=False), dict(n=3, k=2, names='a', lost=True), dict(n=3, k=2, names='a', lost=False, epoch=-600)],
      thorough=[dict(n=n, k=k, names='a', lost=True) for n in (4, 5) for k in (2, 3)] + [dict(n=3, k=2, names='a', lost=False, epoch=-600)] + [dict(n=3, k=2, names='ba', lost=False)])
def aggregated(S, n, k, names, lost):
    """One row for each group of items, the last one of what is left, with their minimum, average and maximum."""
    kind = 'point' if lost else S.choice('kind', ['point', 'slot'])
    s, data, idx = build(S, n, kind, lost=lost, names=names)
    if lost:
        S.assume(S.all(data[i]['a'] == i for i in range(n)))
    before = snap(s)
    precise = True if lost else S.choice('precise', [False, True])
    head, rows, lo, hi, _ = shown(S, s, aggregate_by=k, full_precision=precise)
    indexes = head[1 + len(names):]
    groups = [range(i, min(i + k, n)) for i in range(0, n, k)]
    S.check(len(rows) == len(groups), 'a row for each group of items')
    for (t, c), g in zip(rows, groups):
        first = B + 600 * g[0]
        last = B + 600 * (g[-1] + (kind == 'slot'))
        S.check(S.eq(civil(S, t), (first + last) / 2), 'in the middle of them')
        S.check(len(c) == len(names) + len(indexes), 'a cell for each label and index')
        for j, l in enumerate(sorted(names)):
            xs = [data[i][l] for i in g]
            m = M = xs[0]
            for x in xs[1:]:
                m, M = S.ite(x < m, x, m), S.ite(x > M, x, M)
            S.check(cells(S, c[j], [m, sum(xs) / len(xs), M], precise, 3), 'minimum, average and maximum')
        for j, l in enumerate(indexes):
            xs = [idx[i][l] for i in g if idx[i].get(l) is not None]
            a = sum(xs) / len(xs) if xs else None
            S.check(cells(S, c[len(names) + j], [0 if xs else None, a, a], precise, 0), 'average index, of the items having one')
    S.check(all_within(S, lo, hi, [x[l] for x in data for l in x]), 'nothing falls out of the range shown')
    S.check(same_snap(S, snap(s), before), 'the series is unchanged')


@case('C33', quick=[dict(tz=z) for z in TZ], thorough=[dict(tz=z) for z in ('Australia/Lord_Howe', 'America/St_Johns')])
def times(S, tz):
    """Everything is at its local time, marks included."""
    import datetime
    from propertime.utils import dt_from_s
    lo, hi = S.choice('window', WINDOWS.get(tz, [(1553900000, 1554100000)]))
    t = lo + S.int('t', 0, hi - lo)
    tab = table(tz)
    m = S.choice('mark', [None, 'own', 'other'])
    frac = 0 if m else S.choice('frac', [0, 0.25])
    s, data, idx = build(S, 2, 'slot' if m == 'own' else 'point', tz, t + frac, unit=3600, lost=False, names='a')
    S.assume(S.and_(data[0]['a'] == 1, data[1]['a'] == 2))
    kw = {}
    if m:
        mz = tz if m == 'own' else S.choice('mark zone', ['America/New_York', 'UTC', 'Asia/Kolkata'])
        a = lo + S.int('m0', 0, hi - lo)
        kw['mark'] = [dt_from_s(a, tz=mz), dt_from_s(a + 7200, tz=mz)]
    _, rows, _, _, mark = shown(S, s, **kw)
    for i, (f, _) in enumerate(rows):
        S.check(S.eq(civil(S, f), zones.local(t + 3600 * i, tab) + frac), 'each item is at its local time')
    if not m:
        _, rows, _, _, _ = shown(S, s, aggregate_by=2)
        S.check(len(rows) == 1 and S.eq(civil(S, rows[0][0]), zones.local(t + 1800, tab) + frac), 'and so is a group of them')
    if m:
        S.check(S.eqs(mark, [1000 * zones.local(x, table(mz)) for x in (a, a + 7200)]), 'the mark is at its local time')


@case('C33')
def ranges(S):
    """The vertical range: of the data (also if it is all the same), or at least as asked for."""
    how = S.choice('how', ['flat', 'asked', 'two'])
    x = S.real('x', -1000, 1000)
    y = x if how == 'flat' else S.real('y', -1000, 1000)
    s = point_series(S, [B, B + 60], [{'a': x}, {'a': y}])
    kw = {}
    if how == 'asked':
        a, b = S.real('from', -1000, 1000), S.real('to', -1000, 1000)
        S.assume(a < b)
        kw['value_range'] = [a, b]
    _, _, lo, hi, _ = shown(S, s, **kw)
    S.check(all_within(S, lo, hi, [a, b] if how == 'asked' else [x, y]), 'all of it is shown')
    S.check(lo < hi, 'the range is one')
    if how == 'asked':
        e = 0.0101
        S.check(S.and_(S.le(a - lo, e * S.ite(a < 0, -a, a), 1e-6), S.le(hi - b, e * S.ite(b < 0, -b, b), 1e-6)), 'and not much more')


@case('C33')
def lists(S):
    """Data given as lists, or with a single value."""
    n = S.choice('n', [1, 2])
    values = [[S.real('v%d_%d' % (i, j)) for j in range(n)] for i in range(2)]
    s = point_series(S, [B, B + 60], values)
    head, rows, lo, hi, _ = shown(S, s, full_precision=True)
    S.check(len(head) == 1 + n and all(S.eqs(r[1], v) is True or S.eqs(r[1], v) for r, v in zip(rows, values)), 'all of the values')
    S.check(len(rows) == 2 and all_within(S, lo, hi, values[0] + values[1]), 'within the range')


@case('C33')
def refused(S):
    """What cannot be plotted is refused."""
    d = ts()
    s = point_series(S, [B, B + 60], [{'a': S.real('x')}, {'a': 1}])
    what = S.choice('what', [lambda: d.TimeSeries().plot(html=True), lambda: s.plot(html=True, data_labels=['b']), lambda: s.plot(html=True, data_labels='a'),
                             lambda: s.plot(html=True, data_indexes=['x']), lambda: s.plot(html=True, mark=['a', 'b']), lambda: s.plot(html=True, image=True),
                             lambda: s.plot(engine='other')])
    S.check(S.refused(what) is not None, 'refused')


@case('C33')
def names(S):
    """Whatever the labels and the indexes are called."""
    L = S.choice('labels', [['a,b', 'c'], ["it's", 'x'], ['"q"', 'z'], ['à', ' '], ['a\\', 'b']])
    x = S.choice('index', ['data_loss', 'x,y', "it's"])
    data = [{l: S.real('v%d_%d' % (i, j), -1000, 1000) for j, l in enumerate(L)} for i in range(2)]
    idx = [{x: S.real('x%d' % i, 0, 1)} for i in range(2)]
    s = point_series(S, [B, B + 60], data, idx)
    head, rows, lo, hi, _ = shown(S, s, full_precision=True)
    S.check(head == ['Timestamp'] + sorted(L) + [x], 'a column for each label and index')
    S.check(len(rows) == 2, 'a row for each item')
    for i, (t, c) in enumerate(rows):
        S.check(cells(S, c, [data[i][l] for l in sorted(L)] + [idx[i][x]], True, 2), 'with its values')
