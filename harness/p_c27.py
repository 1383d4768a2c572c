"""C27: equality and ordering."""
import datetime
from symx.api import case
from .common import *

KINDS = ('point', 'time point', 'data point', 'data time point')
SLOTS = ('slot', 'time slot', 'data slot', 'data time slot')


class Foreign:
    pass


def foreign():
    from timeseria.units import Unit, TimeUnit
    d = ts()
    return [None, 'a', 7.5, object(), Foreign, Foreign(), [1, 2], (1,), {'a': 1}, set(), datetime.datetime(2020, 1, 1),
            slice(1, 2), len, d.TimeSeries(), Unit(987654), TimeUnit('1D')]


def point(S, kind, name, tz='UTC'):
    d = ts()
    c = S.real(name, -50, 50)
    data = {'a': S.real(name + 'x', -1, 1)} if kind.startswith('data') else None
    if kind == 'point':
        return d.Point(c), [c], None
    if kind == 'time point':
        return d.TimePoint(t=c, tz=tz), [c], None
    if kind == 'data point':
        return d.DataPoint(c, data=data), [c], data
    return d.DataTimePoint(t=c, data=data, tz=tz), [c], data


def agrees(S, got, expected, what):
    """A plain truth value, the expected one."""
    S.check(S.eq(1 if got else 0, S.ite(expected, 1, 0)), what)


def same_data(S, a, b):
    if a is None or b is None:
        return True         # Points and slots without data only have coordinates to compare
    if set(a) != set(b) if isinstance(a, dict) and isinstance(b, dict) else type(a) is not type(b) or len(a) != len(b):
        return False
    if isinstance(a, dict):
        return S.all(exact(S, a[k], b[k]) for k in a)
    return S.all(exact(S, x, y) for x, y in zip(a, b))


def exact(S, a, b):
    return S.and_(a <= b, a >= b)


@case('C27', quick=[dict(a=a, b=b) for a in KINDS for b in KINDS])
def points(S, a, b):
    """Any two points of any kind, on any time zones."""
    x, cx, dx = point(S, a, 'x')
    y, cy, dy = point(S, b, 'y', 'Europe/Rome')
    expected = S.and_(exact(S, cx[0], cy[0]), same_data(S, dx, dy))
    agrees(S, x == y, expected, 'equal when coordinates and data are')
    agrees(S, y == x, expected, 'the other way around')
    agrees(S, x != y, S.not_(expected), 'not equal otherwise')
    S.check(x == x and y == y, 'equal to itself')
    S.check(not (x != x), 'not different from itself')


@case('C27', quick=[dict(dims=2), dict(dims=3)])
def coordinates(S, dims):
    """Points of more dimensions, with data or without."""
    d = ts()
    cx, cy = S.reals('x', dims), S.reals('y', dims)
    da, db = [S.real('da', -1, 1)], [S.real('db', -1, 1)]
    expected = S.all(exact(S, a, b) for a, b in zip(cx, cy))
    x, y = d.Point(*cx), d.Point(*cy)
    agrees(S, x == y, expected, 'equal when all the coordinates are')
    agrees(S, y == x, expected, 'the other way around')
    dx, dy = d.DataPoint(*cx, data=da), d.DataPoint(*cy, data=db)
    both = S.and_(expected, exact(S, da[0], db[0]))
    agrees(S, dx == dy, both, 'equal when the data is as well')
    agrees(S, dy == dx, both, 'the other way around, with data')
    less = d.Point(*cx[:-1])
    S.check(not (less == x) and not (x == less) and less != x, 'not equal with less dimensions')
    S.check(x == d.Point(*cx), 'written again')
    S.check(S.refused(lambda: x > y) is not None and S.refused(lambda: x < y) is not None, 'not ordered')


@case('C27', quick=[dict(kind=k) for k in KINDS])
def order(S, kind):
    """Three points at any time: exactly one of before, after and at the same time; sorting sorts."""
    pts = [point(S, kind, n, z) for n, z in (('x', 'UTC'), ('y', 'Europe/Rome'), ('z', 'UTC'))]
    for i in range(3):
        for j in range(3):
            (x, (cx,), _), (y, (cy,), _) = pts[i], pts[j]
            agrees(S, x > y, cx > cy, 'after')
            agrees(S, x < y, cx < cy, 'before')
            S.check(not (bool(x > y) and bool(x < y)), 'never both')
            S.check(bool(x > y) or bool(x < y) or bool(exact(S, cx, cy)), 'one or the other, unless at the same time')
            S.check(not (bool(x > y) and bool(y > x)), 'never both ways')
    r = sorted(x for x, _, _ in pts)
    S.check(S.and_(r[0].coordinates[0] <= r[1].coordinates[0], r[1].coordinates[0] <= r[2].coordinates[0]), 'sorted')
    S.check(sorted(id(x) for x in r) == sorted(id(x) for x, _, _ in pts), 'sorted the same points')
    m = max(x for x, _, _ in pts)
    S.check(S.all(m.coordinates[0] >= c for _, (c,), _ in pts), 'the latest')


def slot(S, kind, name, tz='UTC', form='dict'):
    from timeseria.units import TimeUnit
    d = ts()
    c, l = S.real(name, -50, 50), S.real(name + 'l', 1, 50)
    e = c + l
    data = None
    if kind.startswith('data'):
        v = S.real(name + 'v', -1, 1)
        data = {'a': v} if form == 'dict' else [v]
    P = d.TimePoint if 'time' in kind else d.Point
    kw = dict(tz=tz) if 'time' in kind else {}
    args = dict(start=P(c, **kw), end=P(e, **kw))
    if data is not None:
        args['data'] = data
    cls = {'slot': d.Slot, 'time slot': d.TimeSlot, 'data slot': d.DataSlot, 'data time slot': d.DataTimeSlot}[kind]
    return cls(**args), (c, e), data


@case('C27', quick=[dict(a=a, b=b) for a in SLOTS for b in SLOTS])
def slots(S, a, b):
    """Any two slots of any kind, anywhere and of any length."""
    x, (sx, ex), dx = slot(S, a, 'x')
    y, (sy, ey), dy = slot(S, b, 'y', 'Europe/Rome', S.choice('form', ['dict', 'list']))
    expected = S.all([exact(S, sx, sy), exact(S, ex, ey), same_data(S, dx, dy)])
    agrees(S, x == y, expected, 'equal when start, end and data are')
    agrees(S, y == x, expected, 'the other way around')
    agrees(S, x != y, S.not_(expected), 'not equal otherwise')
    S.check(x == x and y == y, 'equal to itself')
    S.check(S.implies(expected, S.eq(x.length, y.length)), 'equal slots last the same')


@case('C27', quick=[dict()])
def units_of_slots(S):
    """Slots given by their unit or by their end."""
    from timeseria.units import TimeUnit
    d = ts()
    u, sec = S.choice('unit', [('1h', 3600), ('60m', 3600), ('3600s', 3600), ('24h', 86400), ('15m', 900)])
    t = B + S.int('t', 0, 100000)
    l = S.int('l', 1, 100000)
    v = S.real('v')
    for a, b in ((d.TimeSlot(start=d.TimePoint(t), unit=TimeUnit(u)), d.TimeSlot(start=d.TimePoint(t), end=d.TimePoint(t + l))),
                 (d.DataTimeSlot(start=d.TimePoint(t), unit=TimeUnit(u), data=[v]),
                  d.DataTimeSlot(start=d.TimePoint(t), end=d.TimePoint(t + l), data=[v]))):
        agrees(S, a == b, S.eq(l, sec), 'equal when lasting the same')
        agrees(S, b == a, S.eq(l, sec), 'the other way around')


@case('C27', quick=[dict(kind=k) for k in KINDS + SLOTS])
def unrelated(S, kind):
    """Against unrelated objects, and points against slots."""
    d = ts()
    x = (point if kind in KINDS else slot)(S, kind, 'x')[0]
    v = S.real('v', -50, 50)
    others = foreign()
    if kind in KINDS:
        others += [slot(S, k, 'o' + k)[0] for k in SLOTS] + [d.Point(v, v), v]
    else:
        others += [point(S, k, 'o' + k)[0] for k in KINDS] + [d.Point(v, v), v]
    for o in others:
        S.check((x == o) is False, 'not equal to an unrelated object')
        S.check((o == x) is False, 'the other way around')
        S.check((x != o) is True and (o != x) is True, 'different from an unrelated object')
    S.check(x not in others and others.count(x) == 0, 'not among unrelated objects')
    S.check(x in others + [x], 'found in a list')


@case('C27', quick=[dict()])
def plain_units(S):
    """Plain units: the same as their value."""
    from timeseria.units import Unit, TimeUnit
    a, b = S.real('a'), S.real('b')
    same = exact(S, a, b)
    agrees(S, Unit(a) == Unit(b), same, 'equal when the values are')
    agrees(S, Unit(b) == Unit(a), same, 'the other way around')
    agrees(S, Unit(a) != Unit(b), S.not_(same), 'not equal otherwise')
    agrees(S, Unit(a) == b, same, 'equal to the value')
    agrees(S, b == Unit(a), same, 'the value equal to it')
    u = Unit(a)
    S.check(u == u and not (u != u) and u == Unit(a), 'equal to itself')
    S.check(Unit([1, 2]) == Unit([1, 2]) and Unit([1, 2]) != Unit([1, 3]) and Unit([1, 2]) != Unit(1), 'of more dimensions')
    d = ts()
    for o in [None, 'a', object(), Foreign, Foreign(), [1, 2], {'a': 1}, datetime.datetime(2020, 1, 1), d.TimeSeries(), TimeUnit('1D'),
              d.Point(a), d.TimePoint(a), d.DataTimePoint(a, data=[1]), d.Slot(d.Point(a), d.Point(a + 1)), d.Point(a, b)]:
        S.check((u == o) is False and (o == u) is False and (u != o) is True and (o != u) is True, 'not equal to an unrelated object')


@case('C27', quick=[dict(other=o) for o in ('unit', 'number', 'plain')])
def physical(S, other):
    """Physical time units of any hours, minutes and seconds."""
    from timeseria.units import Unit, TimeUnit
    h, m, s = S.int('h', 0, 48), S.int('m', 0, 3000), S.int('s', 0, 180000)
    tot = 3600 * h + 60 * m + s
    S.assume(tot > 0)
    u = TimeUnit(hours=h, minutes=m, seconds=s)
    S.check(u == u and not (u != u), 'equal to itself')
    S.check(S.eq(u.as_seconds(), tot), 'lasts its components')
    if other == 'unit':
        h2, m2, s2 = S.int('h2', 0, 48), S.int('m2', 0, 3000), S.int('s2', 0, 180000)
        tot2 = 3600 * h2 + 60 * m2 + s2
        S.assume(tot2 > 0)
        v = TimeUnit(hours=h2, minutes=m2, seconds=s2)
    else:
        tot2 = S.int('n', 1, 500000)
        v = tot2 if other == 'number' else Unit(tot2)
    same = S.eq(tot, tot2)
    agrees(S, u == v, same, 'equal when lasting the same')
    agrees(S, v == u, same, 'the other way around')
    agrees(S, u != v, S.not_(same), 'not equal otherwise')


@case('C27', quick=[dict()])
def calendar(S):
    """Calendar time units: never the same as physical ones, nor as each other when written the same way with other numbers."""
    from timeseria.units import Unit, TimeUnit
    d = ts()
    names = ['years', 'months', 'weeks', 'days']
    ka, kb = S.choice('ka', names), S.choice('kb', names)
    a, b = S.int('a', 1, 40), S.int('b', 1, 40)
    h = S.int('h', 0, 2000)
    u, v, w = TimeUnit(**{ka: a}), TimeUnit(**{kb: b}), TimeUnit(hours=h + 1)
    if ka == kb:
        agrees(S, u == v, S.eq(a, b), 'equal when of the same number')
        agrees(S, v == u, S.eq(a, b), 'the other way around')
    else:
        agrees(S, u == v, bool(v == u), 'symmetric')
        if {ka, kb} & {'years', 'months'} and {ka, kb} & {'days', 'weeks'}:
            S.check(not (u == v), 'months and days are never the same')
    S.check(u == u and not (u != u), 'equal to itself')
    S.check(not (u == w) and not (w == u) and u != w, 'never the same as a physical one')
    S.check(not (u == h) and not (h == u), 'never the same as a number')
    S.check(not (u == Unit(h)) and not (Unit(h) == u), 'never the same as a plain unit')
    for x in (u, w):
        for o in [None, 'a', object(), Foreign, Foreign(), [1, 2], {'a': 1}, datetime.datetime(2020, 1, 1), d.TimeSeries(),
                  d.Point(h), d.TimePoint(h), d.DataTimePoint(h, data=[1]), d.Slot(d.Point(h), d.Point(h + 1))]:
            S.check((x == o) is False and (o == x) is False and (x != o) is True and (o != x) is True, 'not equal to an unrelated object')


@case('C27', quick=[dict()])
def written(S):
    """The same physical length as a string, a number, or components; joined forms too."""
    from timeseria.units import Unit, TimeUnit
    n = S.choice('n', [1, 2, 3, 12, 24, 36, 90])
    forms = [TimeUnit('%dh' % n), TimeUnit('%dm' % (60 * n)), TimeUnit('%ds' % (3600 * n)), TimeUnit(3600 * n), TimeUnit(3600.0 * n),
             TimeUnit(hours=n), TimeUnit(minutes=60 * n), TimeUnit(seconds=3600 * n), TimeUnit('%dh_60m' % (n - 1)) if n > 1 else TimeUnit('60m'),
             TimeUnit('%dm_60s' % (60 * n - 1)), 3600 * n, 3600.0 * n, Unit(3600 * n)]
    i, j = S.choice('i', range(len(forms))), S.choice('j', range(len(forms)))
    S.check(bool(forms[i] == forms[j]) and bool(forms[j] == forms[i]) and not (forms[i] != forms[j]), 'all the same')
    other = TimeUnit('%ds' % (3600 * n + 1))
    S.check(not (forms[i] == other) and not (other == forms[i]), 'different from a longer one')
    S.check(TimeUnit('24h') != TimeUnit('1D') and TimeUnit('1D') != TimeUnit('24h'), '24 hours are not a day')


@case('C27', quick=[dict(kind='point'), dict(kind='slot')])
def data_shapes(S, kind):
    """Items with data of any labels or of any number of values: equal only if all of it is the same."""
    d = ts()
    shapes = {'a': ['a'], 'b': ['b'], 'ab': ['a', 'b'], 'ba': ['b', 'a'], 'abc': ['a', 'b', 'c'], '1': 1, '2': 2, '3': 3}
    f, g = S.choice('first', list(shapes)), S.choice('second', list(shapes))
    v = {l: S.real('v' + l, -1, 1) for l in 'abc'}
    w = {l: S.real('w' + l, -1, 1) for l in 'abc'}

    def item(shape, v, t):
        q = shapes[shape]
        data = {l: v[l] for l in q} if isinstance(q, list) else [v[l] for l in 'abc'[:q]]
        if kind == 'point':
            return d.DataTimePoint(t=t, data=data)
        return d.DataTimeSlot(start=d.TimePoint(t), end=d.TimePoint(t + 60), data=data)
    x, y = item(f, v, B), item(g, w, B + S.choice('at', [0, 60]))
    expected = S.and_(x.t == y.t if kind == 'point' else x.start.t == y.start.t, same_data(S, x.data, y.data))
    agrees(S, x == y, expected, 'equal when coordinates and all the data are')
    agrees(S, y == x, expected, 'the other way around')
    agrees(S, x != y, S.not_(expected), 'not equal otherwise')
    S.check(item(f, v, B) == x and x == item(f, v, B), 'built again')
