"""C03: item access, slicing, filtering and selecting."""
from symx.api import case
from .common import *


def build(S, n, kind, tz=None, base=None):
    base = B if base is None else base
    """A point or slot series with arbitrary values and indexes; returns it with its expected snapshot."""
    vals = [{'a': S.real('a%d' % i), 'b': i} for i in range(n)]
    idx = [{'data_loss': S.real('x%d' % i, 0, 1)} for i in range(n)]
    if kind == 'slot':
        u = S.int('unit', 1, 5000)
        s = slot_series(S, base, u, vals, idx, tz=tz)
        exp = [(base + u * i, base + u * (i + 1), dict(vals[i]), dict(idx[i])) for i in range(n)]
    else:
        times = S.increasing('t', n, base=base)
        s = point_series(S, times, vals, idx, tz=tz)
        exp = [(times[i], None, dict(vals[i]), dict(idx[i])) for i in range(n)]
    return s, exp


def one(S, it, e):
    return same_snap(S, snap([it]), [e])


@case('C03', quick=[dict(n=3, kind='point'), dict(n=3, kind='slot'), dict(n=1, kind='point')],
      thorough=[dict(n=n, kind=k) for n in (1, 2, 3, 4, 5, 6) for k in ('point', 'slot')])
def get_by_position(S, n, kind):
    """Getting by any position, in range or not."""
    s, exp = build(S, n, kind)
    i = S.choice('i', range(-2 * n - 1, 2 * n + 2))
    for label, fn in (('get', lambda: s.get(at_i=i)), ('brackets', lambda: s[i])):
        out = []
        err = S.refused(lambda: out.append(fn()))
        if -n <= i < n:
            S.check(err is None, label + ': an item in range is returned')
            S.check(out[0] is s.contents()[i], label + ': it is the item stored there')
            S.check(one(S, out[0], exp[i]), label + ': with its content')
        else:
            S.check(err is not None, label + ': out of range positions are refused')
    S.check(same_snap(S, snap(s), exp), 'the series is unchanged')


@case('C03', quick=[dict(n=3, kind=k, base=b) for k in ('point', 'slot') for b in (B, 0, -86400)],
      thorough=[dict(n=n, kind=k, base=b) for n in (1, 2, 3, 4, 5, 6) for k in ('point', 'slot') for b in (B, 0, -86400)])
def get_by_time(S, n, kind, base):
    """Getting by any epoch or datetime."""
    from propertime.utils import dt_from_s
    s, exp = build(S, n, kind, base=base)
    t = S.intf('t', base - 100, base + 6000)
    how = S.choice('how', ['at_t', 'brackets', 'at_dt', 'brackets_dt'])
    fn = {'at_t': lambda: s.get(at_t=t), 'brackets': lambda: s[t], 'at_dt': lambda: s.get(at_dt=dt_from_s(t, tz='Europe/Rome')),
          'brackets_dt': lambda: s[dt_from_s(t)]}[how]
    out = []
    err = S.refused(lambda: out.append(fn()))
    hit = None
    for k in range(n):
        if exp[k][0] == t:
            hit = k
            break
    if hit is None:
        S.check(err is not None, how + ': a time with no item is refused')
    else:
        S.check(err is None, how + ': a time with an item is found')
        S.check(one(S, out[0], exp[hit]), how + ': it is the item there')
    S.check(same_snap(S, snap(s), exp), 'the series is unchanged')


@case('C03', quick=[dict(n=3, kind='point'), dict(n=2, kind='slot'), dict(n=1, kind='point')],
      thorough=[dict(n=n, kind=k) for n in (1, 2, 3, 4, 5) for k in ('point', 'slot')])
def slice_by_position(S, n, kind):
    """Slicing between any two positions, given or not, negative or out of range, as lists do."""
    s, exp = build(S, n, kind)
    rng = [None] + list(range(-n - 2, n + 3))
    i = S.choice('i', rng)
    j = S.choice('j', rng)
    how = S.choice('how', ['slice', 'brackets'])
    if how == 'brackets' and i is None and j is None:
        r = s[:]
    else:
        r = s.slice(from_i=i, to_i=j) if how == 'slice' else s[i:j]
    want = exp[i:j]
    S.check(type(r).__name__ == 'TimeSeries', how + ': a series is returned')
    S.check(same_snap(S, snap(r), want), how + ': exactly the requested items')
    S.check(same_snap(S, snap(s), exp), how + ': the series is unchanged')
    if want:
        S.check(r.data_labels() == ['a', 'b'], how + ': labels')


@case('C03', quick=[dict(n=3, kind=k, base=b) for k in ('point', 'slot') for b in (B, 0, -900)],
      thorough=[dict(n=n, kind=k, base=b) for n in (1, 2, 3, 4, 5) for k in ('point', 'slot') for b in (B, 0, -900)])
def slice_by_time(S, n, kind, base):
    """Slicing between any two epochs or datetimes, given or not, whatever their order."""
    from propertime.utils import dt_from_s
    s, exp = build(S, n, kind, base=base)
    which = S.choice('which', ['both', 'from', 'to'])
    how = S.choice('how', ['t', 'dt', 'brackets', 'brackets_dt'])
    f = S.intf('from', base - 50, base + 4000) if which != 'to' else None
    t = S.intf('to', base - 50, base + 4000) if which != 'from' else None
    fd = dt_from_s(f, tz='America/New_York') if f is not None else None
    td = dt_from_s(t) if t is not None else None
    r = {'t': lambda: s.slice(from_t=f, to_t=t), 'dt': lambda: s.slice(from_dt=fd, to_dt=td),
         'brackets': lambda: s[f:t], 'brackets_dt': lambda: s[fd:td]}[how]()
    want = []
    for e in exp:
        if f is not None and e[0] < f:
            continue
        if t is not None and ((e[0] >= t) if e[1] is None else (e[1] > t)):
            continue
        want.append(e)
    S.check(same_snap(S, snap(r), want), how + ': exactly the items in [from, to)')
    S.check(same_snap(S, snap(s), exp), how + ': the series is unchanged')


@case('C03', quick=[dict(n=2)], thorough=[dict(n=1), dict(n=3)])
def ambiguous_requests(S, n):
    """Contradicting or missing bounds and positions are refused."""
    from propertime.utils import dt_from_s
    s, exp = build(S, n, 'point')
    q = (S.int('t', B, B + 2000) if S.choice('epoch', ['any', 'zero']) == 'any' else 0) * 1.0
    d = dt_from_s(q)
    for label, fn in (('get nothing', lambda: s.get()), ('get i and t', lambda: s.get(at_i=0, at_t=q)),
                      ('get t and dt', lambda: s.get(at_t=q, at_dt=d)), ('get i and dt', lambda: s.get(at_i=0, at_dt=d)),
                      ('slice from i and t', lambda: s.slice(from_i=0, from_t=q)), ('slice to t and dt', lambda: s.slice(to_t=q, to_dt=d)),
                      ('slice i to t', lambda: s.slice(from_i=0, to_t=q)), ('slice t to i', lambda: s.slice(from_t=q, to_i=1)),
                      ('slice from dt to i', lambda: s.slice(from_dt=d, to_i=1)), ('get a float position', lambda: s.get(at_i=0.5)),
                      ('slice a string', lambda: s.slice(from_i='0'))):
        S.check(S.refused(fn) is not None, label + ' is refused')
    S.check(same_snap(S, snap(s), exp), 'the series is unchanged')


@case('C03', quick=[dict(n=3, kind='point'), dict(n=2, kind='slot')],
      thorough=[dict(n=n, kind=k) for n in (1, 2, 3, 4) for k in ('point', 'slot')])
def filter_labels(S, n, kind):
    """Filtering keeps every item with exactly the chosen labels."""
    L = ['b', 'a', 'c']
    vals = [{l: S.real('%s%d' % (l, i)) for l in L} for i in range(n)]
    idx = [{'data_loss': S.real('x%d' % i, 0, 1), 'anomaly': i} for i in range(n)]
    s = slot_series(S, B, 60, vals, idx) if kind == 'slot' else point_series(S, S.increasing('t', n), vals, idx)
    before = snap(s)
    keep = S.choice('keep', [('a',), ('b',), ('c', 'a'), ('a', 'b', 'c')])
    r = s[keep[0]] if len(keep) == 1 and S.choice('how', [0, 1]) else s.filter(*keep)
    S.check(same_snap(S, snap(r), [(b[0], b[1], {l: b[2][l] for l in keep}, b[3]) for b in before]), 'every item with the chosen labels')
    S.check(r.data_labels() == sorted(keep), 'labels')
    S.check(same_snap(S, snap(s), before), 'the series is unchanged')
    S.check(s.data_labels() == sorted(L), 'with its labels')
    # the filtered series is a series of its own
    for it in r:
        it.data[keep[0]] = 0
        it.data_indexes['data_loss'] = 0.5
    S.check(same_snap(S, snap(s), before), 'editing the filtered series leaves the source alone')
    S.check(S.refused(lambda: s.filter('missing')) is not None, 'a label the series does not have is refused')


@case('C03', quick=[dict(n=3, kind='point'), dict(n=2, kind='slot')],
      thorough=[dict(n=n, kind=k) for n in (1, 2, 3, 4, 5) for k in ('point', 'slot')])
def select_items(S, n, kind):
    """Selecting by value returns exactly the items carrying it, in order."""
    vals = [{'aB': S.real('a%d' % i, -5, 5), 'ab': 9, 'b': S.int('b%d' % i, 0, 2)} for i in range(n)]
    s = slot_series(S, B, 60, vals) if kind == 'slot' else point_series(S, S.increasing('t', n), vals)
    before = snap(marked(S, s))
    label, v = S.choice('query', [('aB', '1.5'), ('b', '1'), ('aB', '-2'), ('b', '2.0'), ('"b"', '0')])
    got = s.select('%s=%s' % (label, v)) if S.choice('space', [0, 1]) else s.select('%s = %s' % (label, v))
    got = [] if got is None else list(got)
    want = [i for i in range(n) if vals[i][label.strip('"')] == float(v)]
    S.check(len(got) == len(want), 'as many as carry the value')
    S.check(all(g is s.contents()[w] for g, w in zip(got, want)), 'exactly those, in order')
    S.check(same_snap(S, snap(s), before), 'the series is unchanged')
    S.check(S.refused(lambda: s.select('aB=1 and b=1')) is not None, 'unsupported conditions are refused')
    S.check(S.refused(lambda: s.select('AB=1')) is not None, 'labels the series does not have are refused')
    S.check(S.refused(lambda: s.select('aB>1')) is not None, 'unsupported clauses are refused')


@case('C03', quick=[dict(n=3)], thorough=[dict(n=n) for n in (2, 4)])
def generic_series(S, n):
    """Plain series of points in one dimension slice as lists do, with steps."""
    d = ts()
    xs = S.increasing('x', n, base=0)
    s = d.Series()
    for x in xs:
        s.append(d.DataPoint(x, data={'v': 1}))
    i = S.choice('i', [None, -n, -1, 0, 1, n, n + 1])
    j = S.choice('j', [None, -1, 0, 1, 2, n, n + 1])
    st = S.choice('step', [None, 1, 2])
    r = s[i:j:st]
    S.check(type(r) is type(s), 'a series is returned')
    S.check(S.eqs([p.coordinates[0] for p in r], xs[i:j:st]), 'exactly the requested items')
    S.check(S.eqs([p.coordinates[0] for p in s.head(2)], xs[:2]), 'head')
    S.check(S.eqs([p.coordinates[0] for p in s.tail(2)], xs[-2:]), 'tail')
    S.check(S.eqs([p.coordinates[0] for p in s.contents()], xs), 'contents')
    k = S.choice('k', range(n))
    S.check(s.index(s[k]) == k, 'the position of an item is found')


@case('C03', quick=[dict(n=3, kind='point'), dict(n=2, kind='slot')],
      thorough=[dict(n=n, kind=k) for n in (1, 2, 3, 4, 5) for k in ('point', 'slot')])
def ends(S, n, kind):
    """The first and last items, all of them, where an item is; slicing with a step is refused, not misread."""
    s, exp = build(S, n, kind)
    k = S.choice('k', range(n + 2))
    S.check(same_snap(S, snap(s.head(k)), exp[:k]), 'the first items')
    S.check(same_snap(S, snap(s.tail(k)), exp[max(0, n - k):]), 'the last items')
    S.check(same_snap(S, snap(s.head()), exp[:5]) and same_snap(S, snap(s.tail()), exp[-5:]), 'five if not said')
    S.check(same_snap(S, snap(s.contents()), exp), 'all the items')
    S.check(same_snap(S, snap(reversed(s)), exp[::-1]), 'in reverse')
    p = S.choice('p', range(n))
    S.check(s.index(s[p]) == p and s[p] in s, 'an item is where it is')
    S.check(S.refused(lambda: s.index(s[p], p + 1)) is not None, 'and not after')
    for lo, hi in ((None, None), (0, 0), (0, n), (1, None), (None, n - 1), (0, -1), (-1, None), (-n, 1), (None, 0), (0, n + 2)):
        there = p in range(n)[slice(lo, hi)]
        box = []
        err = S.refused(lambda: box.append(s.index(s[p], lo, hi)))
        S.check((err is None) == there and box == ([p] if there else []), 'found within the bounds asked for only')
    step = S.choice('step', [2, -1, 1])
    a, b = S.choice('bounds', [(None, None), (0, n), (0.0, None)])
    err = S.refused(lambda: s[a:b:step])
    S.check((err is not None) == (step != 1), 'steps are refused')
    S.check(same_snap(S, snap(s), exp), 'the series is unchanged')


@case('C03', quick=[dict(n=3)], thorough=[dict(n=4)])
def subsecond(S, n):
    """The same with items less than one second apart: times are not to be rounded."""
    t, times = S.int('t0', 0, 8), []
    for i in range(n):
        times.append(B + t / 4)
        t = t + S.int('g%d' % i, 1, 5)
    s = point_series(S, times, [{'a': i} for i in range(n)])
    exp = [(x, None, {'a': i}, {}) for i, x in enumerate(times)]
    q = B + S.int('q', -1, 20) / 4
    how = S.choice('how', ['get', 'brackets', 'from', 'to', 'slice', 'from datetime', 'to datetime', 'datetimes'])
    if 'datetime' in how:
        from propertime.utils import dt_from_s
        to = q + 0.5
        r = {'from datetime': lambda: s[dt_from_s(q):], 'to datetime': lambda: s[:dt_from_s(q)], 'datetimes': lambda: s[dt_from_s(q):dt_from_s(to)]}[how]()
        want = [e for e in exp if (how == 'to datetime' or e[0] >= q) and (how == 'from datetime' or e[0] < (q if how == 'to datetime' else to))]
        S.check(same_snap(S, snap(r), want), 'exactly the items in [from, to)')
    elif how in ('get', 'brackets'):
        out = []
        err = S.refused(lambda: out.append(s.get(at_t=q) if how == 'get' else s[q]))
        hits = [e for e in exp if e[0] == q]
        if hits:
            S.check(err is None, 'a time with an item is found')
            S.check(one(S, out[0], hits[0]), 'it is the item there')
        else:
            S.check(err is not None, 'a time with no item is refused')
    else:
        to = q + 0.5
        r = {'from': lambda: s.slice(from_t=q), 'to': lambda: s.slice(to_t=q), 'slice': lambda: s[q:to]}[how]()
        want = [e for e in exp if (how == 'to' or e[0] >= q) and (how == 'from' or e[0] < (q if how == 'to' else to))]
        S.check(same_snap(S, snap(r), want), 'exactly the items in [from, to)')
