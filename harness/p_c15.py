"""C15: saving and loading."""
import os
import shutil
import tempfile
from symx.api import case
from .common import *
from .zones import transitions


class Scratch:
    """A scratch directory, removed whatever happens."""
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='symx_')
        return os.path.join(self.d, 'series.csv')

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def by_label(it):
    x = it.data
    return dict(x) if isinstance(x, dict) else {str(i): v for i, v in enumerate(x)}


def indexes(it):
    return {k: v for k, v in it.data_indexes.items() if v is not None}


def same_series(S, a, b, label):
    """b is what a was stored as."""
    S.check(len(a) == len(b), label + ': same number of items')
    if len(a):
        S.check(list(a.data_labels()) == list(b.data_labels()), label + ': same labels')
        S.check(str(a.tz) == str(b.tz), label + ': same time zone')
        S.check(str(a.resolution) == str(b.resolution), label + ': same resolution')
        S.check(a.item_type.__name__ == b.item_type.__name__, label + ': same item type')
    for x, y in zip(a, b):
        S.check(S.eq(x.t, y.t), label + ': same timestamps')
        if hasattr(x, 'end'):
            S.check(S.eq(x.end.t, y.end.t), label + ': same slot ends')
            S.check(str(x.unit) == str(y.unit), label + ': same units')
        S.check(str(x.tz) == str(y.tz), label + ': items on the time zone')
        S.check(S.eqd(by_label(x), by_label(y)), label + ': same values')
        S.check(S.eqd(indexes(x), indexes(y)), label + ': same data indexes')


def roundtrip(S, s, label='loaded', cls=None, **kw):
    d = ts()
    before = snap(s)
    with Scratch() as f:
        s.save(f)
        out = (cls or d.TimeSeries).load(f)
    S.check(same_snap(S, snap(s), before), label + ': the stored series is untouched')
    same_series(S, s, out, label)
    return out


LABELS = [['a'], ['b', 'a'], ['c', 'a', 'b'], ['timestamp', 'x'], ['nd'], ['epoch', 'null'], ['temp\u00e9rature \u00b0C', 'x'],
          ['1', '0'], ['A b', 'a_b'], ['value', 'data_loss'], ['time', 'date']]


def make_points(S, n, labels, idx, tz, kind='dict'):
    d = ts()
    s = d.TimeSeries()
    t = B + S.int('t0', 0, 100000)
    for i in range(n):
        if i:
            t = t + S.int('gap%d' % i, 1, 100000)
        data = {l: S.real('v%d_%s' % (i, j), -1000, 1000) for j, l in enumerate(labels)}
        if kind == 'list':
            data = list(data.values())
        ix = {}
        for k in idx:
            m = S.choice('has_%s%d' % (k, i), ['set', 'none', 'missing'])
            if m == 'set':
                ix[k] = S.real('%s%d' % (k, i), 0, 1)
            elif m == 'none':
                ix[k] = None
        s.append(d.DataTimePoint(t=t, data=data, data_indexes=ix, tz=tz))
    return s


@case('C15', quick=[dict(n=3, labels=k) for k in range(len(LABELS))] + [dict(n=3, labels=0, epoch=-100)] + [dict(n=1, labels=1), dict(n=2, labels=2), dict(n=5, labels=0)],
      thorough=[dict(n=n, labels=k) for k in range(len(LABELS)) for n in (1, 2, 4, 5)] + [dict(n=3, labels=0, epoch=-100)])
def points(S, n, labels):
    """Points at any time with any value, on many labels, on some time zone."""
    tz = S.choice('tz', ['UTC', 'Europe/Rome', 'America/New_York'])
    roundtrip(S, make_points(S, n, LABELS[labels], [], tz))


@case('C15', quick=[dict(n=2, kind='dict', idx=['data_loss']), dict(n=2, kind='list', idx=[]), dict(n=2, kind='list', idx=['anomaly']),
                    dict(n=3, kind='dict', idx=['custom']), dict(n=2, kind='dict', idx=['data_reconstructed', 'custom']), dict(n=1, kind='dict', idx=['zz', 'forecast', 'custom'])],
      thorough=[dict(n=n, kind=k, idx=i) for n in (1, 2, 3) for k in ('dict', 'list')
                for i in (['data_loss'], ['anomaly', 'data_loss'], ['custom', 'data_reconstructed'])])
def with_indexes(S, n, kind, idx):
    """Data indexes, set or not on each item."""
    roundtrip(S, make_points(S, n, ['b', 'a'], idx, 'Europe/Rome', kind))


UNITS = ['1h', '15m', '10s', '1D', '1M', '24h', '1Y', '1m', '30m', '2h']


@case('C15', quick=[dict(n=3, unit=u) for u in UNITS] + [dict(n=25, unit='1h')] + [dict(n=1, unit='1h'), dict(n=1, unit='1D'), dict(n=2, unit='1M'), dict(n=1, unit='1800s'), dict(n=2, unit='3600s')],
      thorough=[dict(n=n, unit=u) for u in UNITS + ['1W', '7D', '90s'] for n in (1, 2, 4)] + [dict(n=25, unit='1h')])
def slots(S, n, unit):
    """Slots of any unit, also across DST changes."""
    from timeseria.units import TimeUnit
    d = ts()
    tz = S.choice('tz', ['UTC', 'Europe/Rome'])
    u = TimeUnit(unit)
    if unit[-1] in 'DWMY':
        # Local midnights, the last three days before a DST change
        y = S.choice('start', [1553900400, 1572040800, 1546297200]) if tz == 'Europe/Rome' else S.choice('start', [1553904000, 1546300800])
        t = y if unit[-1] != 'M' and unit[-1] != 'Y' else (1546297200 if tz == 'Europe/Rome' else 1546300800)
    else:
        t = 1553990400 - 7200 + S.int('t0', 0, 20000)
    s = d.TimeSeries()
    p = d.TimePoint(t=t, tz=tz)
    for i in range(n):
        it = d.DataTimeSlot(start=p, unit=u, data={'a': S.real('a%d' % i), 'b': S.real('b%d' % i)},
                            data_loss=S.real('loss%d' % i, 0, 1))
        s.append(it)
        p = it.end
    roundtrip(S, s)


@case('C15', quick=[dict(index=False), dict(index=True)])
def fractions(S, index):
    """Values and indexes are not rounded, timestamps neither, and signs are kept."""
    d = ts()
    t = [S.real('t0', -1000, 1000), S.real('t1', 2000, 3000), S.real('t2', 4000, 5000)]
    s = d.TimeSeries()
    for i in range(3):
        s.append(d.DataTimePoint(t=t[i], data={'a': S.real('a%d' % i, -1, 1), 'b': S.real('b%d' % i, -10 ** 9, 10 ** 9)},
                                 data_indexes={'x': S.real('x%d' % i, 0, 1)} if index else None))
    with Scratch() as f:
        s.save(f)
        out = d.TimeSeries.load(f)
    S.check(len(out) == 3, 'same number of items')
    for x, y in zip(s, out):
        S.check(S.and_(x.t == y.t, S.and_(x.data['a'] == y.data['a'], x.data['b'] == y.data['b'])), 'exactly the same')
        if index:
            S.check(x.data_indexes['x'] == y.data_indexes['x'], 'exactly the same index')


@case('C15', quick=[dict(), dict(epoch=0)])
def overwriting(S):
    """An existing file is left alone unless asked to overwrite it, then holds just the new series."""
    d = ts()
    a = make_points(S, 3, ['a'], [], 'UTC')
    b = d.TimeSeries()
    for i in range(2):
        b.append(d.DataTimePoint(t=B + 60 * i, data={'x': S.real('x%d' % i), 'y': S.real('y%d' % i)}, tz='Europe/Rome'))
    how = S.choice('how', ['save', 'to_csv', 'put'])
    with Scratch() as f:
        def store(s, **kw):
            if how == 'put':
                from timeseria.storages import CSVFileStorage
                CSVFileStorage(f).put(s, **kw)
            else:
                getattr(s, how)(f, **kw)
        store(a)
        text = open(f).read()
        for kw in ({}, {'overwrite': False}):
            S.check(S.refused(lambda: store(b, **kw)) is not None, 'overwriting is refused')
            S.check(open(f).read() == text, 'and the file left alone')
        same_series(S, a, d.TimeSeries.load(f), 'first')
        store(b, overwrite=True)
        same_series(S, b, d.TimeSeries.load(f), 'overwritten')


@case('C15', quick=[dict()])
def subclass(S):
    """Loading as a subclass gives one."""
    d = ts()

    class MySeries(d.TimeSeries):
        pass
    s = MySeries()
    for i in range(3):
        s.append(d.DataTimePoint(t=B + 60 * i, data={'x': S.real('x%d' % i)}, tz='Europe/Rome'))
    out = roundtrip(S, s, cls=MySeries)
    S.check(type(out) is MySeries, 'of the subclass')
    with Scratch() as f:
        s.to_csv(f)
        back = MySeries.from_csv(f, tz='Europe/Rome')
    S.check(type(back) is MySeries, 'from CSV of the subclass')
    same_series(S, s, back, 'from CSV')


BAD = ['', 'x', 'nan', '--', '1.2.3', 'None', 'NA']


@case('C15', quick=[dict(n=3, cols=2)], thorough=[dict(n=n, cols=c) for n in (2, 3, 5) for c in (1, 2, 3)],
      covers=('reported', 'skipped'))
def bad_rows(S, n, cols):
    """A row that cannot be parsed is reported, or left out if so requested: the others do not move."""
    from timeseria.storages import CSVFileStorage
    d = ts()
    bad = S.choice('bad', range(n))
    what = S.choice('what', BAD)
    kind = S.choice('kind', ['timestamp', 'value', 'short'])
    col = S.choice('col', range(cols)) if kind != 'timestamp' else 0
    skip = S.choice('skip', [False, True])
    if kind == 'timestamp' and (bad == 0 or what in ('',)):
        # The very first timestamp sets the format
        S.assume(what not in ('',) and bad != 0)
    labels = ['a', 'b', 'c'][:cols]
    t = [B + 60 * i + S.int('j%d' % i, 0, 30) for i in range(n)]
    v = [[S.real('v%d_%d' % (i, j)) for j in range(cols)] for i in range(n)]
    with Scratch() as f:
        with open(f, 'w') as o:
            o.write('# comment\nepoch,%s\n' % ','.join(labels))
            for i in range(n):
                row = [str(t[i])] + [str(x) for x in v[i]]
                if i == bad:
                    if kind == 'timestamp':
                        row[0] = what
                    elif kind == 'value':
                        row[1 + col] = what
                    else:
                        row = row[:1 + col]
                if len(row) == 1:
                    row.append('')
                o.write(','.join(row) + '\n')
        st = CSVFileStorage(f, skip_errors=skip, series_type='points')
        box = []
        e = S.refused(lambda: box.append(st.get()))
    if not skip:
        S.cover('reported')
        S.check(e is not None, 'the row is reported')
    else:
        if n == 1:
            return
        S.cover('skipped')
        S.check(e is None, 'the others are loaded')
        rest = [i for i in range(n) if i != bad]
        S.check(len(box[0]) == len(rest), 'all the others and only them')
        for i, it in zip(rest, box[0]):
            S.check(S.and_(S.eq(it.t, t[i]), S.eqd(dict(it.data), dict(zip(labels, v[i])))), 'each with its own values')


@case('C15', quick=[dict()])
def columns(S):
    """Foreign files: the timestamp anywhere, some columns unlabeled or unused, labels asked for in any order."""
    from timeseria.storages import CSVFileStorage
    d = ts()
    header = ['timestamp', 'a', 'b', 'c']
    empty = S.choice('empty', [False, True])
    if empty:
        header[1] = ''
    order = S.choice('order', [[0, 1, 2, 3], [1, 0, 2, 3], [3, 2, 1, 0], [2, 3, 0, 1]])
    sep = S.choice('sep', [',', ';', '\t'])
    S.assume(not (empty and sep == ';' and order[0] == 1))      # would be a comment
    want = S.choice('want', ['all', ['b'], ['c', 'b'], ['b', 'c']])
    n = 3
    t = [B + 60 * i + S.int('j%d' % i, 0, 30) for i in range(n)]
    v = [[S.real('v%d_%d' % (i, j)) for j in range(3)] for i in range(n)]
    with Scratch() as f:
        with open(f, 'w') as o:
            o.write(sep.join(header[k] for k in order) + '\n')
            for i in range(n):
                row = [str(t[i])] + [str(x) for x in v[i]]
                o.write(sep.join(row[k] for k in order) + '\n')
        s = CSVFileStorage(f, separator=sep, timestamp_column='timestamp', data_labels=want, series_type='points').get()
    S.check(len(s) == n, 'every row')
    keys = [x for x in header[1:] if x] if want == 'all' else want
    for i, it in enumerate(s):
        S.check(S.eq(it.t, t[i]), 'the right timestamp')
        S.check(set(it.data) == set(keys), 'the columns asked for')
        for k in keys:
            S.check(S.eq(it.data[k], v[i][header.index(k) - 1]), 'each from its own column')


@case('C15', quick=[dict()])
def sorting(S):
    """Unordered rows are refused, or sorted if requested, each with its own values."""
    from timeseria.storages import CSVFileStorage
    n = 3
    t = [B + S.int('t%d' % i, 0, 1000) / 4 for i in range(n)]
    v = [S.real('v%d' % i) for i in range(n)]
    srt = S.choice('sort', [False, True])
    with Scratch() as f:
        with open(f, 'w') as o:
            o.write('epoch,a\n')
            for i in range(n):
                o.write('%s,%s\n' % (t[i], v[i]))
        box = []
        e = S.refused(lambda: box.append(CSVFileStorage(f, sort=srt, series_type='points').get()))
    up = S.all(t[i] < t[i + 1] for i in range(n - 1))
    dist = S.all(t[i] != t[j] for i in range(n) for j in range(i))
    if bool(up if not srt else dist):
        S.check(e is None, 'accepted')
        S.check(len(box[0]) == n, 'every row')
        for it in box[0]:
            S.check(S.any(S.and_(S.eq(it.t, t[i]), S.eq(it.data['a'], v[i])) for i in range(n)), 'with its own value')
        for x, y in zip(box[0], box[0][1:]):
            S.check(x.t < y.t, 'in order')
    else:
        S.check(e is not None, 'refused')


@case('C15', quick=[dict(n=4)], thorough=[dict(n=6)])
def limits(S, n):
    """Asking for some rows only gives the first ones of the file, asking for some columns only gives those."""
    from timeseria.storages import CSVFileStorage
    header = S.choice('header', [True, False])
    kind = S.choice('type', ['points', 'slots'])
    limit = S.choice('limit', [None] + list(range(1, n + 2)))
    v = [[S.real('v%d_%d' % (i, j)) for j in range(2)] for i in range(n)]
    with Scratch() as f:
        with open(f, 'w') as o:
            o.write('# something\n')
            if header:
                o.write('epoch,a,b\n')
            for i in range(n):
                o.write('%d,%s,%s\n' % (86400 * i, v[i][0], v[i][1]))
                if i == 1:
                    o.write('# a comment in between\n')
        s = CSVFileStorage(f, series_type=kind).get(limit=limit, **(dict(force_slots=True, force_slot_unit='1D') if kind == 'slots' else {}))
    k = n if limit is None else min(limit, n)
    S.check(len(s) == k, 'the rows asked for')
    for i, it in enumerate(s):
        S.check(S.eq(it.t if kind == 'points' else it.start.t, 86400 * i), 'the first ones')
        S.check(S.eqd(dict(it.data), {'a': v[i][0], 'b': v[i][1]}) if header else S.eqs(list(it.data), v[i]), 'with their values')


@case('C15', quick=[dict()])
def timestamps(S):
    """Naive timestamps are on the time zone asked for, aware ones keep their instant."""
    from timeseria.storages import CSVFileStorage
    tz, off = S.choice('tz', [('UTC', 0), ('Europe/Rome', 3600), ('America/New_York', -18000)])
    fmt = S.choice('fmt', ['iso', 'isoz', 'custom', 'split'])
    h = S.choice('h', [0, 7, 23])
    v = S.reals('v', 3)
    with Scratch() as f:
        with open(f, 'w') as o:
            o.write('date,time,a\n' if fmt == 'split' else 'timestamp,a\n')
            for i in range(3):
                if fmt == 'split':
                    o.write('2019-01-%02d,%02d:30,%s\n' % (i + 1, h, v[i]))
                elif fmt == 'custom':
                    o.write('%02d/01/2019 %02d.30,%s\n' % (i + 1, h, v[i]))
                elif fmt == 'iso':
                    o.write('2019-01-%02dT%02d:30:00,%s\n' % (i + 1, h, v[i]))
                else:
                    o.write('2019-01-%02dT%02d:30:00+02:00,%s\n' % (i + 1, h, v[i]))
        kw = {'custom': dict(timestamp_format='%d/%m/%Y %H.%M'),
              'split': dict(date_column='date', date_format='%Y-%m-%d', time_column='time', time_format='%H:%M')}.get(fmt, {})
        s = CSVFileStorage(f, tz=tz, series_type='points', **kw).get()
    S.check(len(s) == 3 and str(s.tz) == tz, 'on the time zone')
    for i, it in enumerate(s):
        exp = 1546300800 + 86400 * i + h * 3600 + 1800
        exp -= {'isoz': 7200, 'iso': 0}.get(fmt, off)
        if fmt == 'iso':
            # Naive ISO 8601 is taken either as UTC or on the time zone
            S.check(it.t in (exp, exp - off), 'the right instant')
            S.check(it.t - s[0].t == 86400 * i, 'the right spacing')
        else:
            S.check(S.eq(it.t, exp), 'the right instant')
        S.check(S.eq(it.data['a'], v[i]), 'the right value')


@case('C15', quick=[dict(header=True), dict(header=False)])
def positions(S, header):
    """The columns of the time can be anywhere, and asked for by name or by position: the others are the data, in order."""
    from timeseria.storages import CSVFileStorage
    parts = S.choice('parts', [('date', 'time'), ('date',), ('timestamp',)])
    where = S.choice('order', [(0, 1, 2, 3), (2, 0, 1, 3), (3, 2, 1, 0), (1, 3, 0, 2)])
    names = sorted(list(parts) + ['a', 'b', 'c'][:4 - len(parts)], key=lambda x: where[(list(parts) + ['a', 'b', 'c']).index(x)])
    by_name = header and S.bool('by name')
    n = 3
    v = [{x: S.real('%s%d' % (x, i)) for x in names if x not in parts} for i in range(n)]
    with Scratch() as f:
        with open(f, 'w') as o:
            if header:
                o.write(','.join(names) + '\n')
            for i in range(n):
                cells = dict(v[i], date='2019-01-%02d' % (i + 1), time='%02d:30' % (7 + i), timestamp='2019-01-%02d 12.00' % (i + 1))
                o.write(','.join(str(cells[x]) for x in names) + '\n')
        kw = {x + '_column': x if by_name else names.index(x) for x in parts}
        kw.update({x + '_format': {'date': '%Y-%m-%d', 'time': '%H:%M', 'timestamp': '%Y-%m-%d %H.%M'}[x] for x in parts})
        s = CSVFileStorage(f, series_type='points', **kw).get()
    S.check(len(s) == n, 'all the rows')
    for i, it in enumerate(s):
        at = 1546300800 + 86400 * i + {('date', 'time'): 3600 * (7 + i) + 1800, ('date',): 0, ('timestamp',): 43200}[parts]
        S.check(S.eq(it.t, at), 'the right instant')
        S.check(S.eqd(dict(it.data), v[i]) if header else S.eqs(list(it.data), list(v[i].values())), 'the other columns, in order')


@case('C15', quick=[dict()])
def forced(S):
    """The time zone and the type of the items asked for when getting prevail on those of the storage: naive times are on that time zone, instants stay."""
    from timeseria.storages import CSVFileStorage
    d = ts()
    own = S.choice('own', ['UTC', 'Europe/Rome'])
    tz, off = S.choice('forced', [(None, None), ('UTC', 0), ('Europe/Rome', 3600), ('America/New_York', -18000)])
    if tz is None:
        off = 3600 if own == 'Europe/Rome' else 0
    kind = S.choice('kind', [None, 'points', 'slots'])
    naive = S.bool('naive')
    n = 4
    v = S.reals('v', n)
    with Scratch() as f:
        with open(f, 'w') as o:
            o.write('date,a\n' if naive else 'epoch,a\n')
            for i in range(n):
                o.write('%s,%s\n' % ('2019-01-%02d' % (i + 1) if naive else str(1546300800 - off + 86400 * i), v[i]))
        st = CSVFileStorage(f, tz=own, **(dict(date_column='date', date_format='%Y-%m-%d') if naive else {}))
        kw = {} if tz is None else dict(force_tz=tz)
        if kind:
            kw['force_' + kind] = True
        s = st.get(**kw)
        both = S.refused(lambda: st.get(force_points=True, force_slots=True))
    S.check(both is not None, 'points and slots at once are refused')
    S.check(len(s) == n and str(s.tz) == (tz or own), 'on the time zone')
    S.check(all(isinstance(x, d.DataTimePoint if kind == 'points' else d.DataTimeSlot) for x in s), 'as asked for, or slots as they are days')
    for i, it in enumerate(s):
        t = it.t if kind == 'points' else it.start.t
        S.check(S.eq(t, 1546300800 - off + 86400 * i), 'the right instant')
        S.check(S.eq(it.data['a'], v[i]), 'the right value')
        if kind != 'points':
            S.check(S.eq(it.end.t, 1546300800 - off + 86400 * (i + 1)), 'for one day')


@case('C15', quick=[dict(unit='1h', n=4, idx=True), dict(unit='1D', n=4, idx=True), dict(unit='1D', n=5, idx=False)],
      thorough=[dict(unit=u, n=n, idx=i) for u in ('1h', '15m', '1D', '1M') for n in (4, 5, 6) for i in (True, False)])
def missing_rows(S, unit, n, idx):
    """Slots with some of the rows missing from the file: those in between are made up on the line and flagged as lost, the others are as they were."""
    from timeseria.units import TimeUnit
    d = ts()
    tz = S.choice('tz', ['UTC', 'Europe/Rome'])
    kind = S.choice('data', ['dict', 'list'])
    u = TimeUnit(unit)
    p = d.TimePoint(t=1553814000 if tz == 'Europe/Rome' else 1553817600, tz=tz)     # two days before a DST change
    if unit == '1M':
        p = d.TimePoint(t=1546297200 if tz == 'Europe/Rome' else 1546300800, tz=tz)
    s = d.TimeSeries()
    for i in range(n):
        row = {'a': S.real('a%d' % i), 'b': S.real('b%d' % i)}
        s.append(d.DataTimeSlot(start=p, unit=u, data=row if kind == 'dict' else list(row.values()),
                                data_indexes={'data_loss': S.real('l%d' % i, 0, 1), 'x': S.real('x%d' % i, 0, 1)} if idx else None))
        p = s[-1].end
    gone = [i for i in range(1, n - 1) if S.choice('gone%d' % i, [False, True])]
    if not gone or len(gone) == n - 2 and n < 4:
        return
    with Scratch() as f:
        s.save(f)
        lines = open(f).read().split('\n')
        at = [k for k, l in enumerate(lines) if l and l.split(',')[0].replace('.', '').isdigit()]
        S.check(len(at) == n, 'one row per item')
        open(f, 'w').write('\n'.join(l for k, l in enumerate(lines) if k not in [at[i] for i in gone]))
        out = d.TimeSeries.load(f)
    S.check(len(out) == n, 'all the slots')
    left = [i for i in range(n) if i not in gone]
    for i, (x, y) in enumerate(zip(s, out)):
        S.check(S.and_(S.eq(x.start.t, y.start.t), S.eq(x.end.t, y.end.t)), 'same slots')
        X, Y = by_label(x), by_label(y)
        if i not in gone:
            S.check(S.eqd(X, Y), 'values of the rows')
            S.check(S.eqd(indexes(x), indexes(y)), 'indexes of the rows')
        else:
            S.check(y.data_loss == 1, 'made up ones are flagged as lost')
            lo, hi = max(k for k in left if k < i), min(k for k in left if k > i)
            A, Z = by_label(s[lo]), by_label(s[hi])
            S.check(S.eqd({l: A[l] + (Z[l] - A[l]) * (i - lo) / (hi - lo) for l in X}, Y), 'on the line between the neighbours')


ODD = ['a,b', 'a\nb', 'a\rb', ' a', 'a ', '"a"', "'a'", '"a', "a'", 'a"b', '', '__x', '_x', '#a', ';a', 'nan', 'None', '2020-01-01T00:00:00Z', '5', 'a;b', 'a\tb', 'a  b', '\u00e9']


@case('C15', quick=[dict(what='label'), dict(what='index')])
def odd_names(S, what):
    """Labels and indexes with odd names come back as they are, or are refused leaving no file behind."""
    import os
    d = ts()
    name = S.choice('name', ODD)
    tz = S.choice('tz', ['UTC', 'Europe/Rome'])
    s = d.TimeSeries()
    for i in range(2):
        x = S.real('x%d' % i, 0, 1)
        s.append(d.DataTimePoint(t=B + 60 * i, data={name if what == 'label' else 'a': x, 'z': 2.5},
                                 data_indexes={name if what == 'index' else 'data_loss': x}, tz=tz))
    with Scratch() as f:
        err = S.refused(lambda: s.save(f))
        if err is not None:
            S.cover('refused')
            S.check(not os.path.exists(f), 'refused without leaving a file behind')
            S.check(name not in ('_x', '5', 'a;b', '\u00e9', 'nan', 'None'), 'plain names are accepted')
        else:
            S.cover('stored')
            out = []
            e = S.refused(lambda: out.append(d.TimeSeries.load(f)))
            S.check(e is None, 'what has been stored can be loaded')
            same_series(S, s, out[0], 'loaded')


SETTINGS = [dict(), dict(separator=';'), dict(separator='\t'), dict(comment_chars=['%']), dict(encoding='utf-16'), dict(encoding='latin-1'),
            dict(timestamp_column='time'), dict(timestamp_column=1), dict(timestamp_format='iso8601'), dict(timestamp_format='%Y'),
            dict(date_column='d', date_format='%Y'), dict(time_column=2, time_format='%H'), dict(sort=True), dict(skip_errors=True),
            dict(data_type=dict)]


@case('C15', quick=[dict(n=3)], thorough=[dict(n=5)])
def settings(S, n):
    """What a storage stores it gives back, whatever its settings for other files are."""
    from timeseria.storages import CSVFileStorage
    kw = S.choice('settings', SETTINGS)
    label = S.choice('label', ['x', 'citt\u00e0', 'temp\u00e9rature \u00b0C'])
    times = S.increasing('t', n, gap_hi=3600)
    s = point_series(S, times, [{label: S.real('x%d' % i)} for i in range(n)], [{'q': S.real('q%d' % i, 0, 1)} for i in range(n)])
    with Scratch() as f:
        st = CSVFileStorage(f, **kw)
        st.put(s)
        same_series(S, s, st.get(), 'got back')
        same_series(S, s, st.get(), 'got back again')
        st.put(s, overwrite=True)
        same_series(S, s, st.get(), 'stored again')


FIRST = {'epoch': ('epoch,x\n%d,1\n%d,2\n', 'utf-8'), 'iso': ('time,x\n2019-01-01T00:00:00+00:00,1\n2019-01-01T01:00:00+00:00,2\n', 'utf-8'),
         'latin': ('timestamp,citt\u00e0\n0,1\n60,2\n', 'latin-1'), 'no header': ('0,1,2\n60,3,4\n', 'utf-8'),
         'labels': ('a,timestamp,b\n1,2019-01-01T00:00:00Z,2\n3,2019-01-01T00:10:00Z,4\n', 'utf-8')}


@case('C15', quick=[dict()])
def replaced(S):
    """A storage which has read a file of others gives back what is stored in its place."""
    from timeseria.storages import CSVFileStorage
    text, enc = FIRST[S.choice('first', list(FIRST))]
    label = S.choice('label', ['x', 'citt\u00e0'])
    times = S.increasing('t', 3, gap_hi=3600)
    s = point_series(S, times, [{label: S.real('x%d' % i), 'z': S.real('z%d' % i)} for i in range(3)])
    with Scratch() as f:
        with open(f, 'w', encoding=enc) as o:
            o.write(text.replace('%d', '0', 1).replace('%d', '60', 1))
        st = CSVFileStorage(f)
        how = S.choice('how', ['all', 'column'])
        st.get(**({} if how == 'all' else {'filter_data_labels': [1 if text[0] != 'a' else 2]}))
        st.put(s, overwrite=True)
        same_series(S, s, st.get(), 'stored in its place')


@case('C15', quick=[dict()])
def twice(S):
    """Reading a file of others again, after some of its columns only, gives all of it."""
    from timeseria.storages import CSVFileStorage
    v = [[S.real('v%d_%d' % (i, j)) for j in range(2)] for i in range(3)]
    header = S.choice('header', [True, False])
    with Scratch() as f:
        with open(f, 'w') as o:
            if header:
                o.write('epoch,a,b\n')
            for i in range(3):
                o.write('%d,%s,%s\n' % (60 * i, v[i][0], v[i][1]))
        st = CSVFileStorage(f)
        cols = S.choice('columns', [[1], [2], [2, 1]] + ([['b'], ['b', 'a']] if header else []))
        part = st.get(filter_data_labels=cols)
        names = ['a', 'b']
        for i, it in enumerate(part):
            want = [v[i][names.index(c) if isinstance(c, str) else c - 1] for c in cols]
            S.check(S.eqs(list(it.data.values()) if isinstance(it.data, dict) else list(it.data), want), 'the columns asked for')
        for i, it in enumerate(st.get()):
            S.check(S.eqd(dict(it.data) if header else list(it.data), dict(zip(names, v[i])) if header else v[i]), 'then all of them')


@case('C15', quick=[dict(n=5)], thorough=[dict(n=6), dict(n=7)], covers=('reported', 'left out', 'filled'))
def foreign_slots(S, n):
    """Daily rows of others, some missing and one out of place: filled on the line, and reported or left out."""
    from timeseria.storages import CSVFileStorage
    D = 86400
    header = S.choice('header', [True, False])
    skip = S.choice('skip', [False, True])
    v = [[S.real('v%d_%d' % (i, j)) for j in range(2)] for i in range(n)]
    w = [S.real('w0'), S.real('w1')]
    gone = [i for i in range(2, n - 1) if S.choice('gone%d' % i, [False, True])]
    bad = S.choice('bad', [None] + list(range(1, n)))             # after this row
    shift = S.choice('shift', [0, D // 2, -D // 2, 3600] + ([3 * D // 2] if bad + 1 in gone else [])) if bad is not None else 0
    rows = []
    for i in range(n):
        if i not in gone:
            rows.append((17000 * D + i * D, v[i], i))
            if i == bad:
                rows.append((17000 * D + i * D + shift, w, None))
    bad = any(r[2] is None for r in rows)
    with Scratch() as f:
        with open(f, 'w') as o:
            if header:
                o.write('epoch,a,b\n')
            for t, q, _ in rows:
                o.write('%d,%s,%s\n' % (t, q[0], q[1]))
        box = []
        e = S.refused(lambda: box.append(CSVFileStorage(f, skip_errors=skip, series_type='slots').get(force_slots=True, force_slot_unit='1D')))
    if bad and not skip:
        S.cover('reported')
        S.check(e is not None, 'reported')
        return
    S.check(e is None, 'loaded')
    if bad:
        S.cover('left out')
    out = box[0]
    S.check(len(out) == n, 'all the days')
    left = [i for i in range(n) if i not in gone]
    for i, it in enumerate(out):
        S.check(S.and_(S.eq(it.start.t, 17000 * D + i * D), S.eq(it.length, D)), 'each on its day')
        x = list(it.data.values()) if header else list(it.data)
        S.check((type(it.data) is dict) == header, 'by label if there are labels')
        if i in gone:
            S.cover('filled')
            lo, hi = max(k for k in left if k < i), min(k for k in left if k > i)
            S.check(S.eqs(x, [v[lo][j] + (v[hi][j] - v[lo][j]) * (i - lo) / (hi - lo) for j in range(2)]), 'on the line between the neighbours')
            S.check(it.data_loss == 1, 'flagged as lost')
        else:
            S.check(S.eqs(x, v[i]), 'with its values')
            S.check(it.data_loss is None, 'not flagged')


@case('C15', quick=[dict(what=w) for w in ('value', 'index', 'tz')])
def odd_values(S, what):
    """What cannot be read back is refused, without leaving a file behind."""
    import os
    import pytz
    d = ts()
    x = S.real('x')
    odd = S.choice('odd', [None, 'x', '1,5', True, False, float('nan'), 'nd', [1], {}]) if what != 'tz' else 1.5
    tz = S.choice('tz', [pytz.FixedOffset(60), pytz.FixedOffset(-330)]) if what == 'tz' else 'UTC'
    pos, kind = S.choice('pos', [0, 1]), S.choice('kind', ['dict', 'list'])
    s = d.TimeSeries()
    for i in range(2):
        row = {'a': odd if i == pos and what == 'value' else x, 'z': 2.5}
        s.append(d.DataTimePoint(t=B + 60 * i, data=row if kind == 'dict' else list(row.values()),
                                 data_indexes={'q': odd if i == pos and what == 'index' else 0.5}, tz=tz))
    with Scratch() as f:
        e = S.refused(lambda: s.save(f))
        if what == 'index' and odd is None:
            S.check(e is None, 'an index which is not set is fine')
            same_series(S, s, d.TimeSeries.load(f), 'loaded')
        else:
            S.check(e is not None and not os.path.exists(f), 'refused without leaving a file behind')
