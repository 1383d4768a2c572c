"""An independent account of what transforming a point series must give, on symbolic or concrete numbers."""
from .common import *


def regions(S, times, v):
    """Validity: half the interval on each side, shared half-way with closer neighbours."""
    n = len(times)
    lo = [t - v / 2 for t in times]
    hi = [t + v / 2 for t in times]
    for i in range(n - 1):
        mid = (times[i] + times[i + 1]) / 2
        if times[i + 1] - times[i] < v:
            hi[i] = mid
            lo[i + 1] = mid
    return lo, hi


def segments(S, times, v, a, b):
    """What fills the interval [a, b): (from, to, i, None) is the part observation i is valid for,
    (from, to, i, t) a gap after observation i, filled with the value interpolated at t."""
    lo, hi = regions(S, times, v)
    out = []
    for i in range(len(times)):
        f = a if lo[i] < a else lo[i]
        t = b if hi[i] > b else hi[i]
        if t > f:
            out.append((f, t, i, None))
        if i + 1 < len(times) and lo[i + 1] > hi[i]:
            f = a if hi[i] < a else hi[i]
            t = b if lo[i + 1] > b else lo[i + 1]
            if t > f:
                out.append((f, t, i, f + (t - f) / 2))
    return out


def value_of(seg, times, vals, fill=None):
    f, t, i, at = seg
    if at is None:
        return vals[i]
    if fill is not None:
        return fill(i)
    return vals[i] + (vals[i + 1] - vals[i]) * ((at - times[i]) / (times[i + 1] - times[i]))


def weighted(S, segs, times, vals, fill=None):
    tot, w = 0, 0
    for s in segs:
        tot = tot + value_of(s, times, vals, fill) * (s[1] - s[0])
        w = w + (s[1] - s[0])
    return tot, w


def loss(S, segs, a, b, losses=None):
    """Fraction of [a, b) not covered by the observations, plus what the observations themselves miss."""
    cov = 0
    for f, t, i, at in segs:
        if at is None:
            cov = cov + (t - f) * (1 if losses is None or losses[i] is None else 1 - losses[i])
    return 1 - cov / (b - a)


def whole_units(first, last, u, aligned):
    """The whole units within the data."""
    out = []
    a = aligned
    while a + u <= last:
        out.append(a)
        a = a + u
    return out
