"""C04: series views."""
from symx.api import case
from .common import *
from .p_c03 import build, one


def bounds(S, n):
    rng = [None] + list(range(-n - 2, n + 3))
    return S.choice('i', rng), S.choice('j', rng)


def outcome(fn):
    try:
        return ('ok', fn())
    except Exception as e:
        return ('refused', None)


@case('C04', quick=[dict(n=3, kind='point'), dict(n=3, kind='slot'), dict(n=1, kind='point')],
      thorough=[dict(n=n, kind=k) for n in (1, 2, 3, 4, 5) for k in ('point', 'slot')])
def items(S, n, kind):
    """Length, positions, iteration and nested iteration of any view."""
    s, exp = build(S, n, kind)
    i, j = bounds(S, n)
    v = s.view(i, j)
    want = exp[i:j]
    m = len(want)
    S.check(len(v) == m, 'length')
    S.check(same_snap(S, snap(v), want), 'iteration gives the items of the slice')
    S.check(same_snap(S, snap(v.contents()), want), 'contents')
    leaks = []
    for p in range(-n - 2, n + 3):
        for label, get in (('brackets', lambda: v[p]), ('get', lambda: v.get(at_i=p))):
            out, it = outcome(get)
            if -m <= p < m:
                S.check(out == 'ok', label + ': positions within the view are answered')
                S.check(one(S, it, want[p]), label + ': with the item of the slice')
            elif m:
                S.check(out == 'refused', label + ': positions outside the view are refused')
            else:
                leaks.append(out != 'refused')
    pairs = [(a.data['b'], b.data['b']) for a in v for b in v]
    S.check(pairs == [(a[2]['b'], b[2]['b']) for a in want for b in want], 'nested iteration')
    S.check(same_snap(S, snap(s), exp), 'the series is unchanged')
    S.check(not any(leaks), 'an empty view refuses every position', known='empty-view')


@case('C04', quick=[dict(n=3, kind='point'), dict(n=2, kind='slot')],
      thorough=[dict(n=n, kind=k) for n in (1, 2, 3, 4) for k in ('point', 'slot')])
def subslices(S, n, kind):
    """Slicing a view by any two positions, and viewing a view."""
    s, exp = build(S, n, kind)
    i, j = bounds(S, n)
    want = exp[i:j]
    if not want:
        return
    v = s.view(i, j)
    a = S.choice('a', [None] + list(range(-n - 1, n + 2)))
    b = S.choice('b', [None] + list(range(-n - 1, n + 2)))
    S.check(same_snap(S, snap(v[a:b]), want[a:b]), 'brackets')
    S.check(same_snap(S, snap(v.slice(from_i=a, to_i=b)), want[a:b]), 'slice')
    S.check(same_snap(S, snap(v.view(a, b)), want[a:b]), 'view of the view')
    for label, make in (('duplicate', lambda: v.duplicate()), ('materialised', lambda: v.materialize()), ('of the view of the view', lambda: v.view(a, b).duplicate())):
        out, copy = outcome(make)
        if out != 'ok' or (label == 'of the view of the view' and not want[a:b]):
            continue
        S.check(same_snap(S, snap(copy), want[a:b] if label == 'of the view of the view' else want), label + ': the same items')
        for item in copy:
            item.data['b'] = -5
            item.data_indexes['other'] = 0.5
        S.check(same_snap(S, snap(s), exp), label + ': of its own')
    S.check(same_snap(S, snap(s), exp), 'the series is unchanged')


@case('C04', quick=[dict(n=3, kind='point'), dict(n=2, kind='slot'), dict(n=2, kind='point', base=0), dict(n=2, kind='slot', base=0), dict(n=5, kind='point')],
      thorough=[dict(n=n, kind=k, base=b) for n in (1, 2, 3, 4) for k in ('point', 'slot') for b in (B, 0)] + [dict(n=5, kind='point')])
def by_time(S, n, kind, base=None):
    """Getting and slicing a view by any time never reaches beyond it."""
    base = B if base is None else base
    s, exp = build(S, n, kind, base=base)
    i = S.choice('i', range(n))
    j = S.choice('j', range(i + 1, n + 1))
    want = exp[i:j]
    v = s.view(i, j)
    t = S.intf('t', base - 100, base + 6000)
    out, it = outcome(lambda: v.get(at_t=t))
    hit = None
    for k, e in enumerate(want):
        if e[0] == t:
            hit = k
    S.check((out == 'ok') == (hit is not None), 'only the times in the view are answered')
    if hit is not None:
        S.check(one(S, it, want[hit]), 'with their item')
    u = S.intf('u', base - 100, base + 6000)
    got = v.slice(from_t=t, to_t=u)
    w = []
    for e in want:
        if e[0] < t:
            continue
        if (e[0] >= u) if e[1] is None else (e[1] > u):
            continue
        w.append(e)
    S.check(same_snap(S, snap(got), w), 'slicing by time')
    S.check(same_snap(S, snap(s), exp), 'the series is unchanged')


OPS = {'min': lambda s: s.min(), 'max': lambda s: s.max(), 'avg': lambda s: s.avg(), 'sum': lambda s: s.sum(),
       'min_a': lambda s: s.min(data_label='a'), 'derivative': lambda s: s.derivative(), 'diff': lambda s: s.diff(),
       'integral': lambda s: s.integral(c=3), 'csum': lambda s: s.csum(), 'normalize': lambda s: s.normalize(source_range={'a': [-1, 9], 'b': [0, 5]}),
       'rescale': lambda s: s.rescale(2), 'offset': lambda s: s.offset({'a': 3}), 'mavg': lambda s: s.mavg(2), 'filter': lambda s: s.filter('a'),
       'duplicate': lambda s: s.duplicate(), 'labels': lambda s: s.data_labels(), 'resolution': lambda s: s.resolution, 'select': lambda s: s.select('b=1'),
       'head': lambda s: s.head(2), 'tail': lambda s: s.tail(2), 'bool': lambda s: bool(s), 'indexes': lambda s: s._all_data_indexes(),
       'type': lambda s: s.item_type.__name__, 'dict': lambda s: s.to_dict()}


@case('C04', quick=[dict(n=3, kind='point'), dict(n=3, kind='slot')],
      thorough=[dict(n=n, kind=k) for n in (2, 4, 5) for k in ('point', 'slot')])
def operations(S, n, kind):
    """Every operation on a view gives what it gives on the slice."""
    s, exp = build(S, n, kind)
    i = S.choice('i', range(n))
    j = S.choice('j', range(i + 1, n + 1))
    op = S.choice('op', list(OPS))
    a, b = s.view(i, j), s.slice(from_i=i, to_i=j)
    if op in ('resolution', 'integral') and j - i < 2 and kind == 'point':
        return   # a view on a single point reports the resolution of the underlying series (see C02)
    ra, rb = outcome(lambda: OPS[op](a)), outcome(lambda: OPS[op](b))
    S.check(ra[0] == rb[0], op + ': answered on the view if it is on the slice')
    if ra[0] == 'ok':
        x, y = ra[1], rb[1]
        if hasattr(y, 'item_type') or (isinstance(y, list) and y and hasattr(y[0], 'data')):
            S.check(same_snap(S, snap(x), snap(y)), op + ': same items')
        elif isinstance(y, dict) and y and not hasattr(list(y.values())[0], 'keys'):
            S.check(S.eqd(x, y), op + ': same values')
        elif isinstance(y, dict):
            S.check(S.all(S.eqd(x[k], y[k]) for k in y) if list(x) == list(y) else False, op + ': same values')
        elif isinstance(y, (list, str, bool)) or y is None:
            S.check(x == y, op + ': same answer')
        elif op == 'resolution':
            S.check(S.eq(x.as_seconds(), y.as_seconds()), op + ': same answer')
        else:
            S.check(S.eq(x, y), op + ': same value')
    S.check(same_snap(S, snap(s), exp), op + ': the series is unchanged')


@case('C04', quick=[dict(n=3, kind='point'), dict(n=2, kind='slot')],
      thorough=[dict(n=n, kind=k) for n in (1, 2, 3, 4) for k in ('point', 'slot')])
def lookups(S, n, kind):
    """Membership, positions of items, reverse iteration and equality are those of the slice."""
    s, exp = build(S, n, kind)
    i, j = bounds(S, n)
    want = exp[i:j]
    a, b = slice(i, j).indices(n)[:2]
    v, w = s.view(i, j), s.slice(from_i=i, to_i=j)
    if not want:
        S.check(len(list(reversed(v))) == 0 and not any(it in v for it in s), 'nothing in an empty view')
        return
    S.check(same_snap(S, snap(reversed(v)), want[::-1]), 'reverse iteration')
    for k in range(n):
        inside = a <= k < b
        S.check((s[k] in v) == inside, 'membership')
        if inside:
            S.check(v.index(s[k]) == k - a, 'position of an item')
        else:
            S.check(S.refused(lambda: v.index(s[k])) is not None, 'position of an item which is not there')
    S.check(v == w and w == v and not v != w, 'equal to the slice')
    for lo, hi in ((0, 0), (0, b - a), (1, None), (None, b - a - 1), (0, -1), (-1, None), (None, 0)):
        for p in {0, b - a - 1}:
            box, ref = [], []
            S.check((S.refused(lambda: box.append(v.index(s[a + p], lo, hi))) is None) == (S.refused(lambda: ref.append(w.index(w[p], lo, hi))) is None) and box == ref,
                    'position of an item within bounds')
    c = S.choice('c', range(n))
    u = s.view(c, n)
    S.check((v == u) == (a == c and b == n), 'equal to another view of the same items only')
    S.check((v != u) == (not (a == c and b == n)), 'different from another view of other items')
    S.check(not v == 3 and v != None, 'not equal to anything else')
    S.check(S.refused(lambda: v[0:len(want):2]) is not None, 'steps are refused')
    S.check(same_snap(S, snap(s), exp), 'the series is unchanged')


EDITS = ['append', 'rename', 'offset', 'value', 'index', 'remove label', 'insert', 'pop']


@case('C04', quick=[dict(n=3, kind='point'), dict(n=3, kind='slot')], thorough=[dict(n=n, kind=k) for n in (2, 4) for k in ('point', 'slot')])
def live(S, n, kind):
    """When the series is edited the views of it, whatever was asked of them, are the slices of it as it is."""
    d = ts()
    s, exp = build(S, n, kind)
    i = S.choice('i', range(n))
    j = S.choice('j', range(i + 1, n + 1))
    v = s.view(i, j)
    len(v), v.data_labels(), v.resolution, snap(v), v.min(), v.sum(), v._all_data_indexes(), v[0], v[-1], v.tz, v.item_type
    edit = S.choice('edit', EDITS)
    if edit == 'append':
        last = s[n - 1]
        data = {'a': S.real('more'), 'b': 7}
        s.append(d.DataTimeSlot(start=last.end, end=d.TimePoint(t=last.end.t + (last.end.t - last.start.t)), data=data) if kind == 'slot' else d.DataTimePoint(t=last.t + S.int('gap', 1, 1000), data=data))
    elif edit == 'rename':
        s.rename_data_label('a', 'z')
    elif edit == 'offset':
        s.offset(S.real('by'), inplace=True)
    elif edit == 'value':
        s[i].data['a'] = S.real('other')
    elif edit == 'index':
        s[i].data_indexes['new'] = 0.5
    elif edit == 'insert':
        first = s[0]
        data = {'a': S.real('more'), 'b': 7}
        s.insert(0, d.DataTimeSlot(start=d.TimePoint(t=first.start.t - (first.end.t - first.start.t)), end=first.start, data=data) if kind == 'slot' else d.DataTimePoint(t=first.t - S.int('gap', 1, 1000), data=data))
    elif edit == 'pop':
        if j == n:
            return
        s.pop(0)
    else:
        s.remove_data_label('a')
    w = s.slice(from_i=i, to_i=j)
    S.check(len(v) == len(w), 'length')
    S.check(same_snap(S, snap(v), snap(w)), 'items')
    S.check(v.data_labels() == w.data_labels(), 'labels')
    S.check(sorted(v._all_data_indexes()) == sorted(w._all_data_indexes()), 'indexes')
    for op in (lambda x: x.min(), lambda x: x.max(), lambda x: x.sum(), lambda x: x.avg()):
        S.check(S.eqd(op(v), op(w)), 'operations')
    S.check(v == w, 'equal')
    if j - i > 1:
        x, y = v.resolution, w.resolution
        S.check(isinstance(x, str) == isinstance(y, str) and (x == y if isinstance(x, str) else S.eq(x.as_seconds(), y.as_seconds())), 'resolution')
