"""C05: scalar operations."""
from symx.api import case
from .common import *


@case('C05', quick=[dict(n=3, labels=2, kind='point'), dict(n=3, labels=1, kind='slot'), dict(n=4, labels=1, kind='point'), dict(n=3, labels=1, kind='point', epoch=-60)],
      thorough=[dict(n=n, labels=l, kind=k) for n in (1, 2, 3, 4, 5) for l in (1, 2, 3) for k in ('point', 'slot', 'list')] + [dict(n=3, labels=1, kind='point', epoch=-60)])
def scalars(S, n, labels, kind):
    """min, max, sum and avg of n items with arbitrary values on arbitrary labels."""
    L = ['b', 'a', 'c'][:labels]
    vals = [{l: S.real('v_%s_%d' % (l, i)) for l in L} for i in range(n)]
    times = S.increasing('t', n)
    if kind == 'slot':
        s = slot_series(S, B, 60, vals)
    else:
        s = point_series(S, times, vals)
    before = snap(marked(S, s))
    mn, mx, sm, av = s.min(), s.max(), s.sum(), s.avg()
    for l in L:
        xs = [v[l] for v in vals]
        S.check(S.all(mn[l] <= x for x in xs), 'min is a lower bound')
        S.check(S.any(mn[l] == x for x in xs), 'min is attained')
        S.check(S.all(mx[l] >= x for x in xs), 'max is an upper bound')
        S.check(S.any(mx[l] == x for x in xs), 'max is attained')
        tot = 0
        for x in xs:
            tot = tot + x
        S.check(S.eq(sm[l], tot), 'sum is the total')
        S.check(S.eq(av[l] * n, tot), 'avg is the mean')
        S.check(S.eq(s.min(data_label=l), mn[l]), 'min of one label')
        S.check(S.eq(s.max(data_label=l), mx[l]), 'max of one label')
        S.check(S.eq(s.sum(data_label=l), sm[l]), 'sum of one label')
        S.check(S.eq(s.avg(data_label=l), av[l]), 'avg of one label')
        S.observe('r' + l, [mn[l], mx[l], sm[l], av[l]])
    S.check(set(mn) == set(L) and set(mx) == set(L) and set(sm) == set(L) and set(av) == set(L), 'all labels answered')
    S.check(same_snap(S, snap(s), before), 'source untouched')


@case('C05', quick=[dict(n=3, kind='point'), dict(n=2, kind='slot'), dict(n=3, kind='list')],
      thorough=[dict(n=n, kind=k) for n in (1, 2, 4) for k in ('point', 'slot', 'list')])
def weights(S, n, kind):
    """Where the items carry a weight the average is the weighted one, whatever the weights add up to; the sum does not look at them."""
    L = ['b', 'a'] if kind != 'list' else ['0', '1']
    vals = [{l: S.real('v_%s_%d' % (l, i)) for l in L} for i in range(n)]
    data = [[v[l] for l in L] for v in vals] if kind == 'list' else vals
    s = slot_series(S, B, 60, data) if kind == 'slot' else point_series(S, S.increasing('t', n), data)
    before = snap(marked(S, s))
    w = [S.choice('w%d' % i, [0, 0.125, 0.5, 0.9375, 1, 3]) for i in range(n)]
    if not sum(w):
        return
    for it, x in zip(s, w):
        it.weight = x
    av, sm = s.avg(), s.sum()
    for l in L:
        tot = 0
        for v, x in zip(vals, w):
            tot = tot + v[l] * x
        S.check(S.eq(av[l] * sum(w), tot), 'the weighted mean')
        S.check(S.eq(s.avg(data_label=l), av[l]), 'of one label')
        xs = [v[l] for v in vals]
        tot = 0
        for x in xs:
            tot = tot + x
        S.check(S.eq(sm[l], tot), 'sum is of the values')
    S.check(same_snap(S, snap(s), before), 'source untouched')


@case('C05', quick=[dict(n=3), dict(n=1)], thorough=[dict(n=n) for n in (2, 4, 5)])
def lists(S, n):
    """The same on list data, the labels being the positions; labels which are not there and empty series are refused."""
    d = ts()
    vals = [S.reals('v%d_' % i, 3) for i in range(n)]
    s = marked(S, point_series(S, S.increasing('t', n), [list(v) for v in vals]))
    mn, mx, sm, av = s.min(), s.max(), s.sum(), s.avg()
    for k in range(3):
        xs = [v[k] for v in vals]
        tot = 0
        for x in xs:
            tot = tot + x
        l = str(k)
        S.check(S.and_(S.all(mn[l] <= x for x in xs), S.any(mn[l] == x for x in xs)), 'min')
        S.check(S.and_(S.all(mx[l] >= x for x in xs), S.any(mx[l] == x for x in xs)), 'max')
        S.check(S.and_(S.eq(sm[l], tot), S.eq(av[l] * n, tot)), 'sum and avg')
        for op, r in (('min', mn), ('max', mx), ('sum', sm), ('avg', av)):
            S.check(S.eq(getattr(s, op)(data_label=l), r[l]), op + ' of one label')
    for r in (mn, mx, sm, av):
        S.check(sorted(r) == ['0', '1', '2'], 'all labels answered')
    for op in ('min', 'max', 'sum', 'avg'):
        S.check(S.refused(lambda: getattr(s, op)(data_label='3')) is not None, 'labels which are not there are refused')
        S.check(S.refused(lambda: getattr(d.TimeSeries(), op)()) is not None, 'empty series are refused')


@case('C05', quick=[dict(how=h) for h in ('value', 'offset', 'append', 'pop', 'label')])
def again(S, how):
    """Asked again after the series has changed: the answers are those of the series as it is."""
    d = ts()
    n = 3
    kind = S.choice('kind', ['point', 'slot'])
    xs, x = S.reals('v', n), S.real('x')
    rows = [{'a': v, 'b': 0.5} for v in xs]
    s = slot_series(S, B, 60, rows) if kind == 'slot' else point_series(S, [B + 60 * i for i in range(n)], rows)
    view = S.choice('view', [False, True])
    q = s.view(0, n) if view else s
    first = [q.min(), q.max(), q.sum(), q.avg()]
    S.check(S.eq(first[2]['a'], xs[0] + xs[1] + xs[2]), 'sum')
    label = 'a'
    if how == 'value':
        s[1].data['a'] = x
        xs[1] = x
    elif how == 'offset':
        s.offset(x, inplace=True)
        xs = [v + x for v in xs]
    elif how == 'append':
        it = d.DataTimeSlot(start=d.TimePoint(t=B + 180), end=d.TimePoint(t=B + 240), data={'a': x, 'b': 0.5}) if kind == 'slot' else d.DataTimePoint(t=B + 180, data={'a': x, 'b': 0.5})
        s.append(it)
        if not view:
            xs.append(x)
    elif how == 'pop':
        if view:
            return
        s.pop()
        xs.pop()
    else:
        s.rename_data_label('a', 'z')
        label = 'z'
    mn, mx, sm, av = q.min(), q.max(), q.sum(), q.avg()
    tot = 0
    for v in xs:
        tot = tot + v
    for r in (mn, mx, sm, av):
        S.check(set(r) == {label, 'b'}, 'the labels as they are')
    S.check(S.and_(S.all(mn[label] <= v for v in xs), S.any(mn[label] == v for v in xs)), 'min')
    S.check(S.and_(S.all(mx[label] >= v for v in xs), S.any(mx[label] == v for v in xs)), 'max')
    S.check(S.and_(S.eq(sm[label], tot), S.eq(av[label] * len(xs), tot)), 'sum and avg')
    S.check(S.eq(q.max(data_label=label), mx[label]), 'of one label')


@case('C05')
def odd_labels(S):
    """Labels of any name, also those which look like nothing."""
    L = ['', '0', 'None', ' a']
    n = 2
    vals = [{l: S.real('v_%d_%d' % (k, i)) for k, l in enumerate(L)} for i in range(n)]
    s = point_series(S, [B, B + 60], vals)
    for op in ('min', 'max', 'sum', 'avg'):
        r = getattr(s, op)()
        S.check(set(r) == set(L), 'all labels answered')
        for l in L:
            S.check(S.eq(getattr(s, op)(data_label=l), r[l]), op + ' of one label')
            S.check(S.eq(r[l] * (2 if op == 'avg' else 1), {'min': S.ite(vals[0][l] < vals[1][l], vals[0][l], vals[1][l]), 'max': S.ite(vals[0][l] > vals[1][l], vals[0][l], vals[1][l])}.get(op, vals[0][l] + vals[1][l])), op)
