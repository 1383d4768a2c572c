"""Independent account of local time: offsets straight from the time zone database, as tables."""
import datetime
import pytz


def transitions(tz, t0, t1):
    """[(from, offset)] covering [t0, t1], in epoch seconds."""
    z = pytz.timezone(tz)
    off = lambda t: int(datetime.datetime.fromtimestamp(t, pytz.utc).astimezone(z).utcoffset().total_seconds())
    out = [(None, off(t0))]
    for u in getattr(z, '_utc_transition_times', []):
        if u.year < 1971:
            continue
        e = int((u - datetime.datetime(1970, 1, 1)).total_seconds())
        if t0 < e <= t1 and off(e) != out[-1][1]:
            out.append((e, off(e)))
    return out


def offset(t, table):
    """Offset from UTC at t (forks on the regime)."""
    r = table[0][1]
    for f, o in table[1:]:
        if t >= f:
            r = o
    return r


def local(t, table):
    return t + offset(t, table)


def instants(l, table):
    """All the instants having local time l (none: nonexistent, two: ambiguous)."""
    out = []
    for i, (f, o) in enumerate(table):
        t = l - o
        if f is not None and t < f:
            continue
        if i + 1 < len(table) and t >= table[i + 1][0]:
            continue
        out.append(t)
    return out


def months(y0, y1):
    """[(local seconds of the start, year, month)]"""
    e = datetime.datetime(1970, 1, 1)
    return [(int((datetime.datetime(y, m, 1) - e).total_seconds()), y, m) for y in range(y0, y1) for m in range(1, 13)]
