"""Builders shared by the harnesses."""
B = 1500000000      # base epoch of the symbolic timestamps (2017-07-14 02:40:00 UTC)


def ts():
    import timeseria.datastructures as d
    return d


def point_series(S, times, data, indexes=None, tz=None):
    d = ts()
    s = d.TimeSeries()
    for i, t in enumerate(times):
        kw = {}
        if indexes is not None and indexes[i] is not None:
            kw['data_indexes'] = dict(indexes[i])
        if tz is not None:
            kw['tz'] = tz
        s.append(d.DataTimePoint(t=t, data=dict(data[i]) if isinstance(data[i], dict) else list(data[i]), **kw))
    return s


def slot_series(S, start, unit_s, data, indexes=None, tz=None):
    from timeseria.units import TimeUnit
    d = ts()
    s = d.TimeSeries()
    t = start
    for i, x in enumerate(data):
        kw = {}
        if indexes is not None and indexes[i] is not None:
            kw['data_indexes'] = dict(indexes[i])
        s.append(d.DataTimeSlot(start=d.TimePoint(t=t, tz=tz), end=d.TimePoint(t=t + unit_s, tz=tz),
                                data=dict(x) if isinstance(x, dict) else list(x), **kw))
        t = t + unit_s
    return s


def marked(S, series, names=('data_loss', 'anomaly', 'forecast')):
    """The series with any indexes on its items, none of which is to matter for what is checked."""
    for i, it in enumerate(series):
        for name in names:
            it.data_indexes[name] = S.real('%s of %d' % (name, i), 0, 1)
    return series


def snap(series):
    """Everything observable of a series' items."""
    out = []
    for it in series:
        if hasattr(it, 'start'):
            out.append((it.start.t, it.end.t, _d(it), dict(it.data_indexes)))
        else:
            out.append((it.t, None, _d(it), dict(it.data_indexes)))
    return out


def _d(it):
    x = it.data
    return dict(x) if isinstance(x, dict) else list(x)


def same_snap(S, a, b):
    """Two snapshots hold the same timestamps, data and indexes."""
    if len(a) != len(b):
        return False
    conds = []
    for x, y in zip(a, b):
        conds.append(S.eq(x[0], y[0]))
        if (x[1] is None) != (y[1] is None):
            return False
        if x[1] is not None:
            conds.append(S.eq(x[1], y[1]))
        conds.append(S.eqd(x[2], y[2]))
        conds.append(S.eqd(x[3], y[3]))
    return S.all(conds)
