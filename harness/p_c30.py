"""C30: periodicity detection, over any spectrum."""
import types

from symx.api import case
from .common import *


class Bin:
    """A bin of the spectrum: all that the detection may look at is its intensity."""

    def __init__(self, m):
        self.m = m

    def __abs__(self):
        return self.m


class spectrum:
    """The Fourier transform and the search for the local maxima stand for those of NumPy and SciPy: the first
    is given by its intensities (any, mirrored as those of real signals are), the second by its definition."""

    def __init__(self, S, values, half):
        from timeseria import utilities as u
        self.u, self.S, self.values, self.half = u, S, values, half

    def fft(self, y, n=None, **kw):
        S = self.S
        y = list(y)
        S.check(len(y) == len(self.values) and S.eqs(y, self.values), 'the signal is all of the values, in order')
        h = self.half
        return [Bin(h[min(k, len(y) - k)]) for k in range(len(y))]

    def rfft(self, y, n=None, **kw):
        return self.fft(y)[:len(y) // 2 + 1]

    def find_peaks(self, x, height=None, **kw):
        x = list(x)
        out, i = [], 1
        while i < len(x) - 1:
            if x[i - 1] < x[i]:
                j = i + 1
                while j < len(x) - 1 and x[j] == x[i]:
                    j += 1
                if x[j] < x[i]:
                    out.append((i + j - 1) // 2)
                i = j
            else:
                i += 1
        return out, {}

    def __enter__(self):
        u = self.u
        self.old = u.fft, u.find_peaks
        u.fft = types.SimpleNamespace(fft=self.fft, rfft=self.rfft)
        u.find_peaks = self.find_peaks

    def __exit__(self, *a):
        self.u.fft, self.u.find_peaks = self.old


def series(S, n, kind, label='a'):
    values = [S.real('v%d' % i) for i in range(n)]
    data = [{label: v} for v in values]
    return marked(S, point_series(S, [B + 600 * i for i in range(n)], data) if kind == 'point' else slot_series(S, B, 600, data)), values


def expected(S, n, peaks):
    """The positions of the peaks by intensity, and the one which makes the periodicity."""
    order = []
    for k, m in peaks:
        at = 0
        while at < len(order) and order[at][1] > m:
            at += 1
        order.insert(at, (k, m))
    for i, (k, m) in enumerate(order):
        if i + 2 < len(order):
            (k1, m1), (_, m2) = order[i + 1], order[i + 2]
            # long-term ones leave the place to much shorter ones which are nearly as strong
            if k1 > 10 * k and k < 10 and (m - m1) * 3 < m1 - m2:
                continue
        return k


def distinct(S, ms):
    S.assume(S.all(S.not_(S.eq(a, b, 0)) for i, a in enumerate(ms) for b in ms[:i]))


@case('C30', quick=[dict(n=60, k=1), dict(n=60, k=2), dict(n=60, k=3), dict(n=61, k=3), dict(n=300, k=2, where=[3, 9, 10, 12, 95, 125, 140]), dict(n=300, k=3, where=[3, 9, 12, 125, 140])], thorough=[dict(n=60, k=4), dict(n=97, k=3), dict(n=240, k=3)])
def peaks(S, n, k, where=None):
    """Signals made of up to a few harmonics of any intensity, level and phase."""
    at = sorted({S.choice('at%d' % i, where or [1, 2, 4, 6, 11, 13, 25] if k < 4 else [1, 2, 13, 25]) for i in range(k)})
    if len(at) < k or any(b - a < 2 for a, b in zip(at, at[1:])):
        return
    ms = [S.real('m%d' % i, 1, 1000) for i in range(k)]
    distinct(S, ms)
    level = S.real('level', 0, 1000)
    if 1 in at:
        S.assume(level < ms[0])
    half = [0] * (n // 2 + 1)
    half[0] = level
    for i, m in zip(at, ms):
        half[i] = m
    s, values = series(S, n, S.choice('kind', ['point', 'slot']))
    before = snap(s)
    from timeseria.utilities import detect_periodicity
    with spectrum(S, values, half):
        p = detect_periodicity(s)
        S.check(p == round(n / expected(S, n, list(zip(at, ms)))), 'the period of the strongest harmonic')
        S.check(type(p) is int, 'a number of items')
    S.check(same_snap(S, snap(s), before), 'the series is unchanged')


@case('C30', quick=[dict(n=n) for n in (8, 9)], thorough=[dict(n=n) for n in (10, 11, 12, 13)])
def any_spectrum(S, n):
    """Short series with any spectrum: the period is always that of a peak, the strongest as they are all short."""
    from timeseria.utilities import detect_periodicity
    half = [S.real('m%d' % i, 0, 1000) for i in range(n // 2 + 1)]
    distinct(S, half)
    s, values = series(S, n, 'point')
    top = None
    for i in range(1, round(n / 2) - 1):
        if half[i] > half[i - 1] and half[i] > half[i + 1] and (top is None or half[i] > half[top]):
            top = i
    with spectrum(S, values, half):
        out = []
        err = S.refused(lambda: out.append(detect_periodicity(s)))
    S.check((err is None) == (top is not None), 'refused when there is no periodicity at all')
    if top is not None:
        S.check(out[0] == round(n / top), 'the period of the strongest peak')


@case('C30')
def many_labels(S):
    """More than one label is refused, and so is what is not a time series."""
    from timeseria.utilities import detect_periodicity
    s = point_series(S, [B + 600 * i for i in range(4)], [{'a': S.real('a%d' % i), 'b': S.real('b%d' % i)} for i in range(4)])
    what = S.choice('what', ['labels', 'list', 'item'])
    err = S.refused(lambda: detect_periodicity({'labels': s, 'list': [1, 2, 3], 'item': s[0]}[what]))
    S.check(err is not None, 'refused')
