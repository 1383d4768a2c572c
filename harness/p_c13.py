"""C13: interpolators."""
from symx.api import case
from .common import *


def interpolator(kind, s):
    from timeseria.interpolators import LinearInterpolator, UniformInterpolator
    return {'linear': LinearInterpolator, 'uniform': UniformInterpolator}[kind](s)


def build(S, n, labels, data, tz=None, whole=True):
    if whole:
        times = S.increasing('t', n, base=B, gap_hi=500)
    else:
        times = [S.real('t%d' % i, 0, 10000) for i in range(n)]
        for i in range(n - 1):
            S.assume(times[i] < times[i + 1])
    L = ['b', 'a', 'c'][:labels]
    cols = [S.reals(l, n) for l in L]
    if data == 'dict':
        rows = [{l: cols[j][i] for j, l in enumerate(L)} for i in range(n)]
    else:
        rows = [[c[i] for c in cols] for i in range(n)]
    s = marked(S, point_series(S, times, rows, tz=tz))
    return s, times, rows


def check_value(S, kind, got, times, rows, p, q, at, label):
    keys = list(rows[0]) if isinstance(rows[0], dict) else range(len(rows[0]))
    if isinstance(rows[0], dict):
        S.check(set(got) == set(keys), label + ': every label')
    else:
        S.check(len(got) == len(keys), label + ': every label')
    for k in keys:
        a, b = rows[p][k], rows[q][k]
        if kind == 'linear':
            S.check(S.eq((got[k] - a) * (times[q] - times[p]), (b - a) * (at - times[p]), 1e-3),
                    label + ': on the straight line')
        else:
            S.check(S.eq(got[k] * 2, a + b), label + ': the mid value')
        S.check(S.or_(S.and_(S.le(a, got[k]), S.le(got[k], b)), S.and_(S.le(b, got[k]), S.le(got[k], a))),
                label + ': between the neighbours')


KINDS = ('linear', 'uniform')


@case('C13', quick=[dict(kind=k, n=4, data=d) for k in KINDS for d in ('dict', 'list')] + [dict(kind='uniform', n=7, data='dict')] + [dict(kind=KINDS[0], n=3, data='dict', epoch=0), dict(kind=KINDS[1], n=3, data='dict', epoch=-60)],
      thorough=[dict(kind=k, n=n, data=d) for k in KINDS for n in (2, 3, 4, 6) for d in ('dict', 'list')] + [dict(kind='uniform', n=7, data='dict')] + [dict(kind=KINDS[0], n=3, data='dict', epoch=0), dict(kind=KINDS[1], n=3, data='dict', epoch=-60)],
      covers=('inside', 'outside'))
def given(S, kind, n, data):
    """Any two neighbours given, any time asked for."""
    s, times, rows = build(S, n, 2, data)
    before = snap(s)
    p = S.choice('p', range(n - 1))
    q = p + S.choice('gap', range(1, n - p))
    at = B + S.real('at', -100, 2000)
    it = interpolator(kind, s)
    box = []
    e = S.refused(lambda: box.append(it.evaluate(at, prev_i=p, next_i=q)))
    if bool(S.and_(at > times[p], at < times[q])):
        S.cover('inside')
        S.check(e is None, 'given: answered between the neighbours')
        check_value(S, kind, box[0], times, rows, p, q, at, 'given')
        S.observe('r', sorted(box[0].items()) if data == 'dict' else list(box[0]))
    elif bool(S.or_(at < times[p], at > times[q])):
        S.cover('outside')
        S.check(e is not None, 'given: refused outside the neighbours')
    S.check(same_snap(S, snap(s), before), 'series untouched')


@case('C13', quick=[dict(kind=k, n=n, data=d) for k in KINDS for n in (2, 4) for d in ('dict', 'list')] + [dict(kind='linear', n=12, data='dict')] + [dict(kind=KINDS[0], n=3, data='dict', epoch=0), dict(kind=KINDS[1], n=3, data='dict', epoch=0), dict(kind=KINDS[0], n=3, data='dict', epoch=-60), dict(kind=KINDS[1], n=3, data='dict', epoch=-60)],
      thorough=[dict(kind=k, n=n, data=d) for k in KINDS for n in (1, 2, 3, 4, 6, 8) for d in ('dict', 'list')] + [dict(kind='linear', n=12, data='dict')] + [dict(kind=KINDS[0], n=3, data='dict', epoch=0), dict(kind=KINDS[1], n=3, data='dict', epoch=0), dict(kind=KINDS[0], n=3, data='dict', epoch=-60), dict(kind=KINDS[1], n=3, data='dict', epoch=-60)],
      covers=('outside',))
def lookup(S, kind, n, data):
    """The neighbours looked up by the interpolator."""
    s, times, rows = build(S, n, 2, data)
    before = snap(s)
    at = B + S.real('at', -100, 4000)
    it = interpolator(kind, s)
    if n > 2 and data == 'dict':
        # Whatever was asked before
        it.evaluate((times[-2] + times[-1]) / 2)
    box = []
    e = S.refused(lambda: box.append(it.evaluate(at)))
    where = None
    for i in range(n):
        if bool(at == times[i]):
            where = i
    if where is not None:
        if box and kind == 'linear':
            S.check(S.eqd(box[0], rows[where]), 'lookup: the value of the observation itself')
        if where < n - 1:
            S.check(e is None, 'lookup: answered on an observation within the series')
        if box and kind == 'uniform':
            # Which of the two segments an observation belongs to is not said
            sides = [(i, i + 1) for i in (where - 1, where) if 0 <= i < n - 1]
            keys = list(rows[0]) if data == 'dict' else range(len(rows[0]))
            S.check(S.any(S.all(S.eq(box[0][k] * 2, rows[i][k] + rows[j][k]) for k in keys) for i, j in sides),
                    'lookup: the mid value of one of the two segments')
    elif bool(S.or_(at < times[0], at > times[-1])):
        S.cover('outside')
        S.check(e is not None, 'lookup: refused outside the series')
    else:
        S.check(e is None, 'lookup: answered within the series')
        for i in range(n - 1):
            if bool(S.and_(at > times[i], at < times[i + 1])):
                check_value(S, kind, box[0], times, rows, i, i + 1, at, 'lookup')
                # Giving the same neighbours gives the same value
                S.check(S.eqd(it.evaluate(at, prev_i=i, next_i=i + 1), box[0]), 'lookup: as with the neighbours given')
                break
    S.check(same_snap(S, snap(s), before), 'series untouched')


@case('C13', quick=[dict(kind=k) for k in KINDS] + [dict(kind=KINDS[0], epoch=-60), dict(kind=KINDS[1], epoch=-60)])
def halves(S, kind):
    """Only one of the two neighbours is refused, even when it is the first item."""
    s, times, rows = build(S, 3, 1, 'dict')
    at = times[0] + (times[1] - times[0]) / 2
    it = interpolator(kind, s)
    which = S.choice('which', ['prev', 'next'])
    i = S.choice('i', range(3))
    e = S.refused(lambda: it.evaluate(at, **({'prev_i': i} if which == 'prev' else {'next_i': i})))
    S.check(e is not None, 'half given neighbours are refused')
    # The given neighbours are honoured, whatever their position
    p = S.choice('p', [0, 1])
    mid = (times[p] + times[p + 1]) / 2
    a, b = rows[p]['b'], rows[p + 1]['b']
    S.check(S.eq(it.evaluate(mid, prev_i=p, next_i=p + 1)['b'] * 2, a + b), 'mid value at the middle')
    wide = it.evaluate(times[1], prev_i=0, next_i=2)
    check_value(S, kind, wide, times, rows, 0, 2, times[1], 'across an item')
