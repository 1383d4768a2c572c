"""C17: reconstructors."""
from symx.api import case
from .common import *

BASE = 1500001200


def make(S, kind, unit, n, t0, cols, indexes, tz=None, data='dict'):
    """A series of n items at a fixed spacing."""
    L = list(cols)
    if data == 'dict':
        rows = [{l: cols[l][i] for l in L} for i in range(n)]
    else:
        rows = [[cols[l][i] for l in L] for i in range(n)]
    if kind == 'points':
        return point_series(S, [t0 + i * unit for i in range(n)], rows, indexes=indexes, tz=tz), rows
    return slot_series(S, t0, unit, rows, indexes=indexes, tz=tz), rows


def get(row, l, L):
    return row[l] if isinstance(row, dict) else row[L.index(l)]


def gaps(missing):
    out = []
    for i, m in enumerate(missing):
        if m and (i == 0 or not missing[i - 1]):
            out.append([i, i])
        elif m:
            out[-1][1] = i
    return out


def check_rest(S, label, before, after, missing):
    """Everything but the missing data (and the flags) is as it was, the flags are right."""
    S.check(len(before) == len(after), label + ': number of items')
    for i, (b, a) in enumerate(zip(before, after)):
        S.check(S.eq(b[0], a[0]) if b[1] is None else S.and_(S.eq(b[0], a[0]), S.eq(b[1], a[1])), label + ': timestamps')
        ix = dict(a[3])
        flag = ix.pop('data_reconstructed', None)
        S.check(flag == (1 if missing[i] else 0), label + ': flagged exactly if reconstructed')
        b3 = dict(b[3])
        b3.pop('data_reconstructed', None)
        S.check(S.eqd(b3, ix), label + ': other indexes')
        if not missing[i]:
            S.check(S.eqd(b[2], a[2]), label + ': other values')


def losses(S, n, missing, how):
    """Data indexes: fully missing where asked, else less than that or nothing at all."""
    out = []
    for i in range(n):
        if missing[i]:
            out.append({'data_loss': 1, 'extra': 0.25})
        elif how == 'none' and i % 2:
            out.append(None)
        elif how == 'None':
            out.append({'data_loss': None, 'data_reconstructed': 1})
        else:
            # (flagged already, when reconstructing on top of a reconstruction)
            out.append({'data_loss': S.real('loss%d' % i, 0, 0.999), 'extra': 0.5, 'data_reconstructed': (i + 1) % 2})
    return out


ALL = [dict(kind=k, data=d) for k, d in (('points', 'dict'), ('slots', 'dict'), ('points', 'list'))]


@case('C17', quick=[dict(n=5, **x) for x in ALL], thorough=[dict(n=n, **x) for n in (3, 5, 7) for x in ALL],
      covers=('reconstructed', 'two gaps'))
def linear(S, n, kind, data):
    """Any pattern of gaps between the first and the last item."""
    from timeseria.models.reconstructors import LinearInterpolationReconstructor
    unit = S.choice('unit', [1, 900, 3600])
    t0 = S.choice('t0', [-2 * unit, BASE])
    missing = [False] + [bool(S.bool('m%d' % i)) for i in range(1, n - 1)] + [False]
    cols = {l: S.reals(l, n) for l in ('b', 'a')}
    how = S.choice('indexes', ['all', 'none', 'None'])
    s, rows = make(S, kind, unit, n, t0, cols, losses(S, n, missing, how), data=data, tz=S.choice('tz', ['UTC', 'Europe/Rome']))
    before = snap(s)
    model = LinearInterpolationReconstructor()
    if S.choice('used before', [False, True]):
        # The same reconstructor can be used on more than one series
        o, _ = make(S, kind, unit, 3, t0 + 5 * unit, {l: [7, 8, 90] for l in ('b', 'a')}, losses(S, 3, [0, 1, 0], 'None'), data=data)
        model.apply(o)
    inplace = S.choice('inplace', [False, True])
    r = model.apply(s, inplace=inplace)
    if inplace:
        S.check(r is None, 'in-place returns nothing')
        r = s
    else:
        S.check(same_snap(S, snap(s), before), 'the source is untouched')
        S.check(r is not s, 'a new series')
    after = snap(r)
    check_rest(S, 'linear', before, after, missing)
    S.check(str(r.tz) == str(s.tz) and str(r.resolution) == str(s.resolution), 'timezone and resolution kept')
    g = gaps(missing)
    if len(g) > 1:
        S.cover('two gaps')
    for p, q in g:
        S.cover('reconstructed')
        p, q = p - 1, q + 1
        for i in range(p + 1, q):
            S.check(len(after[i][2]) == len(rows[i]), 'every label')
            for k in (rows[i].keys() if data == 'dict' else range(2)):
                a, b, v = rows[p][k], rows[q][k], after[i][2][k]
                S.check(S.eq((v - a) * (q - p), (b - a) * (i - p), 1e-3), 'on the straight line between the surrounding items')
    S.observe('r', after)


@case('C17', quick=[dict(n=4, side=s, kind=k) for s in ('first', 'last') for k in ('points', 'slots')] + [dict(n=4, side='first', kind='points', epoch=-3600), dict(n=4, side='last', kind='points', epoch=-7200)],
      covers=())
def open_gaps(S, n, side, kind):
    """Gaps missing one of the surrounding items are refused, or at least nothing observed is altered."""
    from timeseria.models.reconstructors import LinearInterpolationReconstructor, PeriodicAverageReconstructor
    missing = [bool(S.bool('m%d' % i)) for i in range(n)]
    S.assume(missing[0] if side == 'first' else missing[-1])
    cols = {'a': S.reals('a', n)}
    s, rows = make(S, kind, 3600, n, BASE, cols, losses(S, n, missing, 'all'))
    before = snap(s)
    box = []
    model = LinearInterpolationReconstructor()
    if S.choice('model', ['linear', 'periodic']) == 'periodic':
        fit, _ = make(S, kind, 3600, 6, BASE, {'a': [1, 2, 3, 1, 2, 3]}, None)
        model = PeriodicAverageReconstructor()
        model.fit(fit, periodicity=3)
    e = S.refused(lambda: box.append(model.apply(s)))
    S.check(same_snap(S, snap(s), before), 'the source is untouched')
    S.check(e is not None, 'a gap open on one side cannot be reconstructed')
    S.check(S.refused(lambda: model.apply(s, inplace=True)) is not None, 'nor in-place')
    S.check(same_snap(S, snap(s), before), 'a refusal leaves the series as it was')


@case('C17', quick=[dict(kind=k, p=p, n=p + 3) for k in ('points', 'slots') for p in (2, 3)] + [dict(kind='points', p=3, n=6, epoch=-7200), dict(kind='slots', p=2, n=5, epoch=-3600)],
      thorough=[dict(kind=k, p=p, n=p + m) for k in ('points', 'slots') for p in (1, 2, 3, 4) for m in (3, 4)] + [dict(kind='points', p=3, n=6, epoch=-7200), dict(kind='slots', p=2, n=5, epoch=-3600)],
      covers=('reconstructed',))
def periodic(S, kind, p, n):
    """A periodic signal, fitted with missing items too, and one shifted on another level with gaps."""
    from timeseria.models.reconstructors import PeriodicAverageReconstructor
    unit = S.choice('unit', [900, 3600])
    base = BASE
    v = S.reals('v', p)
    nf = 2 * p + 1
    junk = S.choice('missing in the fit', [None, 0, p])
    cols = {'a': [S.real('junk', -1000, 1000) if i == junk else v[i % p] for i in range(nf)]}
    idx = [{'data_loss': 1 if i == junk else 0} for i in range(nf)]
    fit, _ = make(S, kind, unit, nf, base, cols, idx)
    fb = snap(fit)
    dst = S.choice('dst', [False, True])
    model = PeriodicAverageReconstructor()
    if kind == 'slots':
        # Nothing remains of a previous fit
        other, _ = make(S, kind, 60, 7, base, {'c': [1.0, 5.0, -3.0, 2.0, 0.0, 9.0, 4.0]}, None)
        model.fit(other, periodicity=p + 1)
    model.fit(fit, periodicity=p, dst_affected=dst)
    S.check(same_snap(S, snap(fit), fb), 'fitting leaves the series untouched')
    # Another stretch of the signal, at another level
    first = S.choice('first', [0, 1, -1, 5 * p - 1])
    level = S.real('level', -50, 50)
    missing = [False] + [bool(S.bool('m%d' % i)) for i in range(1, n - 1)] + [False]
    x = {'a': [S.real('x%d' % i) if missing[i] else v[(i + first) % p] + level for i in range(n)]}
    s, rows = make(S, kind, unit, n, base + first * unit, x, losses(S, n, missing, S.choice('indexes', ['all', 'None'])))
    before = snap(s)
    r = model.apply(s)
    after = snap(r)
    S.check(same_snap(S, snap(s), before), 'the source is untouched')
    check_rest(S, 'periodic', before, after, missing)
    for i in range(n):
        if missing[i]:
            S.cover('reconstructed')
            S.check(S.eq(after[i][2]['a'], v[(i + first) % p] + level), 'the periodic signal is reproduced')
    S.check(model.apply(s, inplace=True) is None, 'in-place returns nothing')
    S.check(same_snap(S, snap(s), after), 'in-place gives the same')


@case('C17', quick=[dict(kind=k, p=p) for k in ('points', 'slots') for p in (2, 3)],
      thorough=[dict(kind=k, p=p) for k in ('points', 'slots') for p in (2, 3, 4)], covers=('reconstructed',))
def periodic_any(S, kind, p):
    """Any data: the averages of the observations at the same position of the period, at the level of the surroundings."""
    from timeseria.models.reconstructors import PeriodicAverageReconstructor
    unit = 3600
    base = BASE
    nf = 2 * p
    cols = {'a': S.reals('f', nf)}
    limit = S.choice('limit', ['default', 0.4, None, 0])
    top = {'default': 1, None: 2}.get(limit, limit)
    loss = [S.choice('fit loss', [None, 0.4, 1] if limit != 0 else [None, 0, 1]) if i == 1 else (None if limit == 0 else 0) for i in range(nf)]
    fit, _ = make(S, kind, unit, nf, base, cols, [{'data_loss': l} if l is not None else None for l in loss])
    model = PeriodicAverageReconstructor()
    model.fit(fit, periodicity=p, **({} if limit == 'default' else dict(data_loss_limit=limit)))
    avg = []
    for k in range(p):
        xs = [cols['a'][i] for i in range(nf) if i % p == k and not (loss[i] is not None and loss[i] >= top)]
        avg.append(sum(xs) / len(xs))
    n = 4
    first = S.choice('first', range(p))
    missing = [False] + [bool(S.bool('m%d' % i)) for i in range(1, n - 1)] + [False]
    x = {'a': S.reals('x', n)}
    s, rows = make(S, kind, unit, n, base + first * unit, x, losses(S, n, missing, 'None'))
    before = snap(s)
    r = model.apply(s)
    after = snap(r)
    check_rest(S, 'any', before, after, missing)
    for a, b in gaps(missing):
        S.cover('reconstructed')
        off = ((x['a'][a - 1] - avg[(first + a - 1) % p]) + (x['a'][b + 1] - avg[(first + b + 1) % p])) / 2
        for i in range(a, b + 1):
            S.check(S.eq(after[i][2]['a'], avg[(first + i) % p] + off), 'average plus the offset of the surroundings')


@case('C17', quick=[dict(form=f, kind=k) for f in ('dict', 'list') for k in ('points', 'slots')], covers=('reconstructed',))
def generic(S, form, kind):
    """Any reconstructor model, any threshold on the data loss."""
    from timeseria.models.reconstructors import Reconstructor
    n = 4
    unit = 3600
    pred = {l: S.reals('p' + l, n) for l in ('b', 'a')}
    calls = []

    class Mine(Reconstructor):
        @Reconstructor.predict_function
        def predict(self, series, from_i, to_i):
            calls.append((from_i, to_i))
            if form == 'dict':
                return {l: [pred[l][i] for i in range(from_i, to_i + 1)] for l in pred}
            return [{l: pred[l][i] for l in pred} for i in range(from_i, to_i + 1)]

    cols = {l: S.reals(l, n) for l in ('b', 'a')}
    loss = [S.choice('no loss', [True, False]) if i == 2 else False for i in range(n)]
    loss = [None if x else S.real('loss%d' % i, 0, 1) for i, x in enumerate(loss)]
    s, rows = make(S, kind, unit, n, BASE, cols, [{'data_loss': l} for l in loss])
    before = snap(s)
    if S.choice('threshold given', [False, True]):
        th = S.real('threshold', 0.1, 1)
        kw = dict(data_loss_threshold=th)
    else:
        th, kw = 1, {}
    missing = [l is not None and bool(l >= th) for l in loss]
    r = Mine().apply(s, **kw)
    after = snap(r)
    S.check(same_snap(S, snap(s), before), 'the source is untouched')
    check_rest(S, 'generic', before, after, missing)
    S.check(calls == [tuple(g) for g in gaps(missing)], 'each gap is reconstructed as a whole')
    for i in range(n):
        if missing[i]:
            S.cover('reconstructed')
            S.check(S.eqd(after[i][2], {l: pred[l][i] for l in pred}), 'the values predicted for that item')
