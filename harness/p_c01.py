"""C01: ordering and succession under histories of edits; C02 shares the driver."""
from symx.api import case
from .common import *

LO, HI = 1, 60


def resolution_of(times):
    """The documented resolution of points at these times: None, a gap, or 'variable' (decided by forking)."""
    if len(times) < 2:
        return None
    gap = times[1] - times[0]
    for a, b in zip(times[1:], times[2:]):
        if (b - a) != gap:
            return 'variable'
    return gap


def check_resolution(S, series, times, label):
    exp = resolution_of(times)
    got = series.resolution
    if exp is None:
        S.check(got is None, label + ': resolution undefined with fewer than two points')
    elif isinstance(exp, str):
        S.check(isinstance(got, str) and got == 'variable', label + ': resolution is variable when spacings differ')
    else:
        S.check(got is not None and not isinstance(got, str), label + ': resolution is defined when spacings are equal')
        S.check(S.eq(got.as_seconds(), exp), label + ': resolution is the common spacing')


def history(S, n0, k, kinds, after):
    """A history of k edits on a point series with n0 points; `after` checks the state after each."""
    d = ts()
    s = d.TimeSeries()
    model = []

    losses = {}

    def item(t, v):
        if v not in losses:
            losses[v] = S.real('loss%d' % v, 0, 1)
        return d.DataTimePoint(t=t, data={'v': v}, data_loss=losses[v])

    t = B
    for i in range(n0):
        t = t + S.int('gap%d' % i, 1, 9)
        s.append(item(t, i))
        model.append((t, i))
    for j in range(k):
        kind = S.choice('op%d' % j, kinds)
        tag = 'edit %d (%s)' % (j, kind)
        times = [m[0] for m in model]
        if kind == 'append':
            t = B + S.int('t%d' % j, 0, 30)
            ok = not times or (t > times[-1])
            if ok:
                ok = True
            err = S.refused(lambda: s.append(item(t, 100 + j)))
            S.check((err is None) == bool(ok), tag + ': accepted exactly when in order')
            if err is None:
                model.append((t, 100 + j))
        elif kind == 'insert':
            t = B + S.int('t%d' % j, 0, 30)
            pos = S.choice('i%d' % j, range(len(model) + 1))
            ok = (pos == 0 or bool(t > times[pos - 1])) and (pos == len(model) or bool(times[pos] > t))
            err = S.refused(lambda: s.insert(pos, item(t, 100 + j)))
            S.check((err is None) == ok, tag + ': accepted exactly when in order')
            if err is None:
                model.insert(pos, (t, 100 + j))
        elif kind == 'remove':
            if not model:
                continue
            pos = S.choice('i%d' % j, range(len(model)))
            s.remove(item(*model[pos]))
            model.pop(pos)
        elif kind == 'pop':
            pos = S.choice('i%d' % j, list(range(len(model))) + [None])
            if not model:
                S.check(S.refused(lambda: s.pop()) is not None, tag + ': popping from an empty series is refused')
                continue
            got = s.pop() if pos is None else s.pop(pos)
            exp = model.pop() if pos is None else model.pop(pos)
            S.check(S.eq(got.t, exp[0]), tag + ': pops the right item')
        elif kind == 'clear':
            s.clear()
            model = []
        after(S, s, model, tag)
    return s, model


def state_ok(S, s, model, tag):
    S.check(len(s) == len(model), tag + ': number of items')
    S.check(S.all(S.eq(it.t, m[0]) for it, m in zip(s, model)), tag + ': timestamps')
    S.check(S.all(it.data['v'] == m[1] for it, m in zip(s, model)), tag + ': data')
    S.check(S.all(a[0] < b[0] for a, b in zip(model, model[1:])), tag + ': strictly increasing')


ALL = ('append', 'insert', 'remove', 'pop', 'clear')


@case('C01', quick=[dict(n0=0, k=3), dict(n0=1, k=2), dict(n0=2, k=2), dict(n0=3, k=2), dict(n0=1, k=2, epoch=0), dict(n0=2, k=2, epoch=-60)],
      thorough=[dict(n0=0, k=4), dict(n0=1, k=3), dict(n0=2, k=3), dict(n0=4, k=2), dict(n0=5, k=2), dict(n0=1, k=2, epoch=0), dict(n0=2, k=2, epoch=-60)])
def point_histories(S, n0, k):
    """Any history of edits on points: accepted exactly when the order is kept, refused without effect."""
    history(S, n0, k, ALL, state_ok)


def slot_of(d, start, unit, data, tz=None, **more):
    from timeseria.units import TimeUnit
    return d.DataTimeSlot(start=d.TimePoint(t=start, tz=tz), end=d.TimePoint(t=start + unit, tz=tz), data=data, **more)


@case('C01', quick=[dict(n0=1, k=2), dict(n0=2, k=2), dict(n0=0, k=2), dict(n0=1, k=2, epoch=0)],
      thorough=[dict(n0=0, k=4), dict(n0=2, k=3), dict(n0=3, k=3), dict(n0=1, k=2, epoch=0)])
def slot_histories(S, n0, k):
    """Any history of edits on slots: contiguous and of one unit, refusals without effect."""
    d = ts()
    s = d.TimeSeries()
    model = []
    u0 = S.choice('unit', [60, 600, 3600])
    t = B
    for i in range(n0):
        s.append(slot_of(d, t, u0, {'v': i}, data_loss=S.real('loss%d' % i, 0, 1)))
        model.append((t, t + u0, i))
        t = t + u0
    for j in range(k):
        kind = S.choice('op%d' % j, ('append', 'insert', 'remove', 'pop', 'clear'))
        tag = 'edit %d (%s)' % (j, kind)
        if kind in ('append', 'insert'):
            start = B + 60 * S.int('t%d' % j, -61, 250)
            u = S.choice('u%d' % j, [u0, 1800])
            new = slot_of(d, start, u, {'v': 100 + j}, data_loss=S.real('loss%d' % (100 + j), 0, 1))
            same_unit = not model or u == model[0][1] - model[0][0]
            if kind == 'append':
                pos = len(model)
                err = S.refused(lambda: s.append(new))
            else:
                pos = S.choice('i%d' % j, range(len(model) + 1))
                err = S.refused(lambda: s.insert(pos, new))
            ok = same_unit and (pos == 0 or bool(S.eq(model[pos - 1][1], start))) and \
                (pos == len(model) or bool(S.eq(model[pos][0], start + u)))
            S.check((err is None) == bool(ok), tag + ': accepted exactly when in succession and of the same unit')
            if err is None:
                model.insert(pos, (start, start + u, 100 + j))
        elif kind == 'remove':
            if not model:
                continue
            pos = S.choice('i%d' % j, range(len(model)))
            it = s[pos]
            err = S.refused(lambda: s.remove(it))
            if err is None:
                model.pop(pos)
        elif kind == 'pop':
            pos = S.choice('i%d' % j, list(range(len(model))) + [None])
            if not model:
                continue
            err = S.refused(lambda: s.pop() if pos is None else s.pop(pos))
            if pos is None:
                S.check(err is None, tag + ': the last slot can be popped')
            if err is None:
                model.pop() if pos is None else model.pop(pos)
        else:
            s.clear()
            model = []
        S.check(len(s) == len(model), tag + ': number of items')
        S.check(S.all(S.and_(S.eq(it.start.t, m[0]), S.eq(it.end.t, m[1])) for it, m in zip(s, model)), tag + ': intervals')
        S.check(S.all(it.data['v'] == m[2] for it, m in zip(s, model)), tag + ': data')
        S.check(S.all(S.eq(a[1], b[0]) for a, b in zip(model, model[1:])), tag + ': contiguous')
        S.check(S.all(S.eq(a[1] - a[0], model[0][1] - model[0][0]) for a in model), tag + ': one unit')
        if model:
            S.check(S.eq(s.resolution.as_seconds(), model[0][1] - model[0][0]), tag + ': resolution is the slot unit')


@case('C01', quick=[dict(how='append'), dict(how='insert')], thorough=[dict(how='append'), dict(how='insert')])
def compatible_items(S, how):
    """Items of another type or with other labels are refused without effect, wherever they are put."""
    d = ts()
    n = S.choice('n', [1, 2])
    kind = S.choice('kind', ['point', 'slot', 'list'])
    times = [B + 600 * i for i in range(n)]
    if kind == 'slot':
        s = slot_series(S, B, 600, [{'a': i, 'b': i} for i in range(n)])
    elif kind == 'list':
        s = point_series(S, times, [[i, i] for i in range(n)])
    else:
        s = point_series(S, times, [{'a': i, 'b': i} for i in range(n)])
    before = snap(s)
    pos = n if how == 'append' else S.choice('pos', [0, n])
    t = B + 600 * n if pos == n else B - 600
    new = S.choice('new', ['good', 'labels', 'fewer', 'more', 'type', 'container', 'tz', 'foreign', 'reordered'])
    data = {'reordered': {'b': 6, 'a': 5}, 'good': {'a': 5, 'b': 6}, 'labels': {'a': 5, 'c': 6}, 'fewer': {'a': 5}, 'more': {'a': 5, 'b': 6, 'c': 7},
            'container': [5, 6]}.get(new, {'a': 5, 'b': 6})
    if kind == 'list':
        data = {'good': [5, 6], 'labels': [5, 6, 7], 'fewer': [5], 'more': [5, 6, 7], 'container': {'0': 5, '1': 6}}.get(new, [5, 6])
    as_slot = (kind == 'slot') != (new == 'type')
    if new == 'foreign':
        item = S.choice('f', [None, 3, 'x'])
    elif as_slot:
        item = slot_of(d, t, 600, data, tz='Europe/Rome' if new == 'tz' else None)
    else:
        item = d.DataTimePoint(t=t, data=data, tz='Europe/Rome' if new == 'tz' else None)
    err = S.refused(lambda: s.append(item) if how == 'append' else s.insert(pos, item))
    if kind != 'list':
        S.check(item.data_labels() == ['a', 'b'] if new in ('good', 'reordered') else True, 'the labels of an item, sorted')
    if new in ('good', 'reordered') or (new == 'tz' and not as_slot):
        S.check(kind == 'list' or s.data_labels() == ['a', 'b'], 'the labels of the series, sorted')
        S.check(err is None, 'a compatible item is accepted')
        S.check(len(s) == n + 1, 'and stored')
        S.check(S.eqd(dict(enumerate(s[pos if pos == 0 else n].data)) if kind == 'list' else dict(s[pos if pos == 0 else n].data),
                      dict(enumerate(data)) if kind == 'list' else data), 'where asked')
    else:
        S.check(err is not None, 'an incompatible item is refused')
        S.check(same_snap(S, snap(s), before), 'without effect')
        # and a compatible item is still accepted afterwards
        s.append(slot_of(d, B + 600 * n, 600, {'a': 1, 'b': 1}) if kind == 'slot' else
                 d.DataTimePoint(t=B + 600 * n, data=[1, 1] if kind == 'list' else {'a': 1, 'b': 1}))
        S.check(len(s) == n + 1, 'the next compatible item is accepted')
        S.check(S.eq(s.resolution.as_seconds(), 600), 'and the resolution is right')


@case('C01', quick=[dict(kind=k, n=n) for k in ('point', 'slot') for n in (0, 1, 3)] + [dict(kind='point', n=12)] + [dict(kind='point', n=3, epoch=0)], thorough=[dict(kind=k, n=n) for k in ('point', 'slot') for n in (2, 4, 5)] + [dict(kind='point', n=12)] + [dict(kind='point', n=3, epoch=0)])
def insert_positions(S, kind, n):
    """Inserting at any position, also counted from the end or beyond the ends (as in lists): accepted exactly when in order."""
    d = ts()
    u = 60
    times = S.increasing('t', n, gap_hi=40) if kind == 'point' else [B + u * i for i in range(n)]

    def item(t, v):
        return d.DataTimePoint(t=t, data={'v': v}) if kind == 'point' else slot_of(d, t, u, {'v': v})
    s = d.TimeSeries()
    model = []
    for i, t in enumerate(times):
        s.append(item(t, i))
        model.append((t, i))
    pos = S.choice('pos', range(-n - 2, n + 3))
    t = B + (S.int('at', -5, 130) if kind == 'point' else u * S.choice('at', range(-1, n + 2)))
    want = list(model)
    want.insert(pos, (t, 'new'))
    ok = all(bool(a[0] < b[0] if kind == 'point' else S.eq(a[0] + u, b[0], 0)) for a, b in zip(want, want[1:]))
    err = S.refused(lambda: s.insert(pos, item(t, 'new')))
    S.check((err is None) == ok, 'inserted exactly if in order')
    if err is not None:
        want = model
    S.check(len(s) == len(want), 'number of items')
    S.check(S.all(S.and_(S.eq(it.t, m[0]), it.data['v'] == m[1]) for it, m in zip(s, want)), 'items')
    if kind == 'point':
        check_resolution(S, s, [m[0] for m in want], 'after')


@case('C01', quick=[dict(where='append'), dict(where='insert')])
def nearby_slots(S, where):
    """Slots starting just before or after the end of the previous one: gaps and overlaps are refused, however small."""
    d = ts()
    u = S.choice('unit', [1, 10, 3600])
    gap = S.real('gap', -3, 3)
    a = slot_of(d, B, u, {'v': 1})
    start = B + u + gap
    b = d.DataTimeSlot(start=d.TimePoint(t=start), end=d.TimePoint(t=start + u), data={'v': 2})
    if where == 'append':
        s = d.TimeSeries(a)
        err = S.refused(lambda: s.append(b))
    else:
        s = d.TimeSeries(b)
        err = S.refused(lambda: s.insert(0, a))
    if bool(gap == 0):
        S.check(err is None, 'in succession')
    elif bool(abs(gap) >= 0.001):
        S.check(err is not None, 'not in succession')
        S.check(len(s) == 1, 'without effect')


@case('C01', quick=[dict(n=8)], thorough=[dict(n=20)])
def rounded_slots(S, n):
    """Slots of a fraction of a second which follow one another up to the machine rounding of their ends are in succession."""
    d = ts()
    from timeseria.units import TimeUnit
    base = S.choice('base', [0, 1600000000, -5.0, 1700000000.3])
    f = S.choice('length', [0.1, 0.25, 0.3, 0.7, 1.1])
    how = S.choice('how', ['unit', 'end', 'text', 'backwards'])
    v = S.real('v')

    def slot(i):
        start = d.TimePoint(t=base + f * i)
        if how == 'unit':
            return d.DataTimeSlot(start=start, unit=TimeUnit(f), data={'v': v + i})
        if how == 'text':
            return d.DataTimeSlot(start=start, unit=TimeUnit('%ss' % f), data={'v': v + i})
        return d.DataTimeSlot(start=start, end=d.TimePoint(t=base + f * i + f), data={'v': v + i})
    s = d.TimeSeries()
    for i in range(n):
        if how == 'backwards':
            err = S.refused(lambda: s.insert(0, slot(n - 1 - i)))
        else:
            err = S.refused(lambda: s.append(slot(i)))
        S.check(err is None, 'accepted')
    S.check(len(s) == n and S.all(S.eq(s[i].data['v'], v + i) for i in range(n)), 'in order')
    err = S.refused(lambda: s.append(slot(n + 1)))
    S.check(err is not None and len(s) == n, 'a missing slot is not a rounding')


@case('C01', quick=[dict(kind='point', n=3), dict(kind='slot', n=3)], thorough=[dict(kind=k, n=n) for k in ('point', 'slot') for n in (1, 2, 4)])
def in_place(S, kind, n):
    """Replacing and deleting by position, and extending with the operators: either the order is kept, or it is refused without effect."""
    d = ts()
    u = 60
    if kind == 'point':
        times = S.increasing('t', n, gap_hi=40)
    else:
        times = [B + u * i for i in range(n)]

    def item(t, v):
        return d.DataTimePoint(t=t, data={'v': v}) if kind == 'point' else slot_of(d, t, u, {'v': v})
    s = d.TimeSeries()
    model = []
    for i, t in enumerate(times):
        s.append(item(t, i))
        model.append((t, i))
    what = S.choice('what', ['set', 'del', 'delslice', 'iadd', 'imul', 'setslice', 'extend'])
    want = list(model)
    ok = None
    if what in ('set', 'iadd', 'extend'):
        t = B + (S.int('at', -5, 130) if kind == 'point' else u * S.choice('at', range(-1, n + 2)))
    if what == 'set':
        i = S.choice('i', range(-n - 1, n + 1))
        err = S.refused(lambda: s.__setitem__(i, item(t, 'new')))
        ok = -n <= i < n
        if ok:
            i = i % n
            want[i] = (t, 'new')
            for a, b in ((i - 1, i), (i, i + 1)):
                if a >= 0 and b < n:
                    ok = ok and bool((want[a][0] < want[b][0]) if kind == 'point' else S.eq(want[a][0] + u, want[b][0], 0))
        S.check((err is None) == ok, 'replaced exactly if in order')
    elif what == 'del':
        i = S.choice('i', range(-n - 1, n + 1))
        err = S.refused(lambda: s.__delitem__(i))
        ok = -n <= i < n and (kind == 'point' or i % n in (0, n - 1))
        if ok:
            del want[i]
        S.check((err is None) == ok, 'deleted exactly if it leaves no hole')
    elif what == 'delslice':
        i = S.choice('i', range(n + 1))
        j = S.choice('j', range(i, n + 1))
        err = S.refused(lambda: s.__delitem__(slice(i, j)))
        if err is None:
            del want[i:j]
    elif what in ('iadd', 'extend'):
        new = [item(t, 'new'), item(t + u, 'more')]
        want += [(t, 'new'), (t + u, 'more')]
        box = []
        if what == 'iadd':
            err = S.refused(lambda: box.append(s.__iadd__(new)))
            S.check(err is not None or box[0] is s, 'in place')
        else:
            err = S.refused(lambda: s.extend(new))
        ok = bool(t > times[-1] if kind == 'point' else S.eq(t, times[-1] + u, 0))
        if what == 'iadd':
            S.check((err is None) == ok, 'extended exactly if in order')
        elif not ok:
            S.check(err is not None, 'refused')
    elif what == 'imul':
        err = S.refused(lambda: s.__imul__(2))
        S.check(err is not None, 'repeating is refused')
    else:
        err = S.refused(lambda: s.__setitem__(slice(0, 1), [item(times[-1] + u, 'new')]))
        if err is None:
            want[0:1] = [(times[-1] + u, 'new')]
            S.check(n == 1, 'replaced out of order')
    if err is not None:
        want = model
    S.check(len(s) == len(want), 'number of items')
    S.check(S.all(S.and_(S.eq(it.t, m[0]), it.data['v'] == m[1]) for it, m in zip(s, want)), 'items')
    if kind == 'point':
        check_resolution(S, s, [m[0] for m in want], 'after')
    # and the series goes on as usual
    if want:
        t = want[-1][0] + u
        s.append(item(t, 9))
        S.check(S.eq(s[-1].t, t), 'the next item is accepted')
        if kind == 'point':
            check_resolution(S, s, [m[0] for m in want] + [t], 'after going on')


KINDS = ['P', 'TP', 'DP', 'DTP', 'S', 'TS', 'DS', 'DTS']


def an_item(d, kind, i):
    t = B + 600 * i
    P = d.TimePoint if 'T' in kind else d.Point
    at = (lambda x: P(t=x)) if 'T' in kind else (lambda x: P(x))
    data = {'data': {'a': i}} if 'D' in kind else {}
    if kind.endswith('P'):
        cls = {'P': d.Point, 'TP': d.TimePoint, 'DP': d.DataPoint, 'DTP': d.DataTimePoint}[kind]
        return cls(t=t, **data) if 'T' in kind else cls(t, **data)
    cls = {'S': d.Slot, 'TS': d.TimeSlot, 'DS': d.DataSlot, 'DTS': d.DataTimeSlot}[kind]
    return cls(start=at(t), end=at(t + 600), **data)


@case('C01', quick=[dict(how='append'), dict(how='insert'), dict(how='replace')])
def kinds(S, how):
    """A series accepts items of the kind of those it holds (or of a richer one), and nothing else."""
    d = ts()
    a = S.choice('held', KINDS)
    b = S.choice('new', KINDS)
    cls = S.choice('series', ['Series', 'TimeSeries'])
    if cls == 'TimeSeries' and 'T' not in a:
        S.check(S.refused(lambda: d.TimeSeries(an_item(d, a, 0))) is not None, 'a time series holds time points or time slots')
        return
    s = getattr(d, cls)(an_item(d, a, 1), an_item(d, a, 2))
    held = list(s)
    n = {'append': 3, 'insert': 0, 'replace': 2}[how]
    x = an_item(d, b, n)

    def do():
        if how == 'append':
            s.append(x)
        elif how == 'insert':
            s.insert(0, x)
        else:
            s[1] = x
    err = S.refused(do)
    if a == b:
        S.check(err is None, 'an item of the same kind is accepted')
    if ('T' in a and 'T' not in b) or ('D' in a and 'D' not in b) or a[-1] != b[-1]:
        S.check(err is not None, 'an item of another kind is refused')
        S.check(len(s) == 2 and s[0] is held[0] and s[1] is held[1], 'without effect')
        S.check(s.item_type is held[0].__class__, 'the type of the items is still the one')
    if err is None:
        S.check(isinstance(x, held[0].__class__), 'only items the series is made of')
        S.check(any(y is x for y in s), 'stored')


@case('C01', quick=[dict(how='append'), dict(how='insert')])
def units_mix(S, how):
    """A slot of another unit is refused even where it happens to last as long."""
    d = ts()
    from propertime.utils import dt
    u, w, start, prev = S.choice('units', [('1D', '24h', (2021, 1, 5), (2021, 1, 4)), ('24h', '1D', (2021, 1, 5), (2021, 1, 4)), ('1M', '31D', (2021, 1, 1), (2020, 12, 1)),
                                           ('31D', '1M', (2021, 1, 1), (2020, 12, 1)), ('1Y', '365D', (2022, 1, 1), (2021, 1, 1)), ('1W', '7D', (2021, 1, 4), (2020, 12, 28)),
                                           ('24h', '1440m', (2021, 1, 4), (2021, 1, 3)), ('1D', '1D', (2021, 1, 4), (2021, 1, 3)), ('24h', '12h', (2021, 1, 4), (2021, 1, 3, 12))])
    tz = S.choice('tz', ['UTC', 'Europe/Rome'])
    a = d.DataTimeSlot(start=d.TimePoint(dt=dt(*start, tz=tz)), unit=d.TimeUnit(u), data={'v': 1})
    b = d.DataTimeSlot(start=a.end, unit=d.TimeUnit(w), data={'v': 2})
    before = d.DataTimeSlot(start=d.TimePoint(dt=dt(*prev, tz=tz)), unit=d.TimeUnit(w), data={'v': 2})
    S.check(before.end == a.start, 'in succession')
    s = d.TimeSeries(a)
    err = S.refused(lambda: s.append(b) if how == 'append' else s.insert(0, before))
    if (u, w) in (('24h', '1440m'), ('1D', '1D')):
        S.check(err is None and len(s) == 2, 'the same unit is accepted')
    else:
        S.check(err is not None, 'another unit is refused')
        S.check(len(s) == 1 and s.resolution == d.TimeUnit(u), 'without effect')


@case('C01', quick=[dict(how='append'), dict(how='insert'), dict(how='replace')])
def any_data(S, how):
    """The kind of data is that of the items already there, whatever their values (zeros, nothing at all)."""
    d = ts()
    forms = ['number', 'list', 'dict', 'no values', 'no labels', 'text']

    def data(form, x):
        return {'number': x, 'list': [x], 'dict': {'a': x}, 'no values': [], 'no labels': {}, 'text': 'on'}[form]

    n = S.choice('n', [1, 2])
    mine, other = S.choice('mine', forms), S.choice('other', forms)
    slots = S.choice('slots', [False, True])

    def item(i, x):
        if slots:
            return slot_of(d, B + 600 * i, 600, x)
        return d.DataTimePoint(t=B + 600 * i, data=x)
    x = [S.real('x%d' % i) for i in range(n)]
    y = S.real('y')
    s = d.TimeSeries()
    for i in range(n):
        s.append(item(i, data(mine, x[i])))
    pos = {'append': n, 'insert': 0, 'replace': n - 1}[how]
    new = item({'append': n, 'insert': -1, 'replace': n - 1}[how], data(other, y))
    before = [(it.t, it.data) for it in s]
    err = S.refused(lambda: s.append(new) if how == 'append' else s.insert(0, new) if how == 'insert' else s.__setitem__(pos, new))
    alone = how == 'replace' and n == 1
    if mine == other:
        S.check(err is None, 'the same kind of data is accepted')
        S.check(len(s) == n + (how != 'replace') and s[pos] is new, 'where asked')
    elif not alone:
        S.check(err is not None, 'another kind of data is refused')
        now = [(it.t, it.data) for it in s]
        S.check(len(now) == n and all(S.concrete(a[0]) == S.concrete(b[0]) and a[1] is b[1] for a, b in zip(now, before)), 'without effect')
    if mine in ('dict', 'no labels') and not alone:
        S.check(s.data_labels() == (['a'] if mine == 'dict' else []), 'the labels')
