"""C22: marked anomaly events are exactly the persistent runs of anomalies."""
import itertools

from symx.api import case
from .common import *
from .p_c17 import make

BASE = 1500001200
NONE = 'none'
MISSING = 'missing'


def holes(n, most):
    return [c for k in range(most + 1) for c in itertools.combinations(range(n), k)]


def runs(flags, gap, persistence):
    """The items in an event, from the flags of the anomalous ones: from the definition, not the way the code goes."""
    at = [i for i, f in enumerate(flags) if f]
    events = []
    for i in at:
        if events and i - events[-1][-1] - 1 <= gap:
            events[-1].append(i)
        else:
            events.append([i])
    out = set()
    for e in events:
        if e[-1] - e[0] + 1 >= persistence:
            out |= set(range(e[0], e[-1] + 1))
    return [1 if i in out else 0 for i in range(len(flags))]


def build(S, kind, n, index, tag=''):
    s, _ = make(S, kind, 3600, n, BASE, {l: S.reals(tag + l, n) for l in ('a', 'b')}, None)
    for i, item in enumerate(s):
        item.data_indexes['data_loss'] = S.real(tag + 'loss%d' % i, 0, 1)
        if index[i] is not MISSING:
            item.data_indexes['anomaly'] = index[i]
    return s


def marked(S, before, index, out, flags, replace):
    S.check(len(out) == len(flags), 'one item each')
    for i, item in enumerate(out):
        t0, t1, data, idx = before[i]
        S.check(S.eq(item.start.t if t1 is not None else item.t, t0), 'same time')
        S.check(S.eqd(dict(item.data), data), 'same data')
        want = dict(idx)
        want['anomaly' if replace else 'anomaly_event'] = flags[i]
        got = dict(item.data_indexes)
        S.check(set(got) == set(want), 'nothing but the event index changes')
        for k in want:
            if want[k] is None:
                S.check(got[k] is None, 'index %s as it was' % k)
            else:
                S.check(got[k] is not None and S.eq(got[k], want[k]), 'index %s' % k)


@case('C22', quick=[dict(kind=k, gap=g, n=n) for k, n in (('points', 6), ('slots', 4)) for g in (0, 1, 2, 3)] + [dict(kind='points', gap=1, n=6, epoch=0), dict(kind='points', gap=2, n=6, epoch=-1800), dict(kind='slots', gap=1, n=4, epoch=0)],
      thorough=[dict(kind=k, gap=g, n=n) for k, n in (('points', 8), ('points', 9), ('slots', 6)) for g in (0, 1, 2, 3, 4)] + [dict(kind='points', gap=1, n=6, epoch=0), dict(kind='points', gap=2, n=6, epoch=-1800), dict(kind='slots', gap=1, n=4, epoch=0)],
      covers=('an event', 'a gap bridged', 'two events', 'discarded'))
def events(S, kind, gap, n):
    """Every pattern of anomalous items: the comparisons with the threshold are what forks."""
    from timeseria.models.anomaly_detectors import AnomalyDetector
    level = S.real('threshold')
    index = S.reals('index', n)
    persistence = S.choice('persistence', [1, 2, 3, 4])
    replace = S.choice('replace', [False, True])
    s = build(S, kind, n, index)
    before = snap(s)
    inplace = S.choice('inplace', [False, True])
    out = AnomalyDetector.mark_events(s, index_treshold=level, min_persistence=persistence, max_gap=gap,
                                      replace_index=replace, inplace=inplace)
    flags = runs([bool(x >= level) for x in index], gap, persistence)
    marked(S, before, index, out, flags, replace)
    if inplace:
        S.check(out is s, 'the series itself')
    else:
        S.check(out is not s, 'another series')
        S.check(same_snap(S, snap(s), before), 'the series is unchanged')
    S.check(type(out) is type(s) and out.resolution == s.resolution, 'same kind of series')
    if any(flags):
        S.cover('an event')
    if any(f and not bool(x >= level) for f, x in zip(flags, index)):
        S.cover('a gap bridged')
    if ''.join(map(str, flags)).strip('0').count('0'):
        S.cover('two events')
    if not any(flags) and any(bool(x >= level) for x in index):
        S.cover('discarded')


@case('C22', quick=[dict(gap=g, n=5) for g in (0, 1, 2)], thorough=[dict(gap=g, n=7) for g in (0, 1, 2, 3)])
def without(S, gap, n):
    """Items without an index, which detectors leave where they could not predict."""
    from timeseria.models.anomaly_detectors import AnomalyDetector
    where = S.choice('where', [c for c in holes(n, 2) if c])
    what = S.choice('what', [NONE, MISSING])
    index = [(None if what == NONE else MISSING) if i in where else S.real('index%d' % i) for i in range(n)]
    persistence = S.choice('persistence', [1, 2, 3])
    replace = S.choice('replace', [False, True])
    s = build(S, 'points', n, index)
    before = snap(s)
    out = AnomalyDetector.mark_events(s, min_persistence=persistence, max_gap=gap, replace_index=replace)
    flags = runs([x is not None and x is not MISSING and bool(x >= 1) for x in index], gap, persistence)
    marked(S, before, index, out, flags, replace)
    S.check(same_snap(S, snap(s), before), 'the series is unchanged')


@case('C22', quick=[dict()])
def defaults(S):
    """Nothing but the series given: threshold 1, gap and persistence of two; and already marked series."""
    from timeseria.models.anomaly_detectors import AnomalyDetector
    n = 5
    index = S.reals('index', n, 0, 1)
    s = build(S, 'points', n, index)
    if S.choice('again', [False, True]):
        for i, item in enumerate(s):
            item.data_indexes['anomaly_event'] = S.real('old%d' % i)
    before = snap(s)
    out = AnomalyDetector.mark_events(s)
    flags = runs([bool(x >= 1) for x in index], 2, 2)
    marked(S, before, index, out, flags, False)
    S.check(same_snap(S, snap(s), before), 'the series is unchanged')
    # Fewer items than anything
    for k in (1, 2):
        few = build(S, 'points', k, index[:k], 'few%d_' % k)
        before = snap(few)
        out = AnomalyDetector.mark_events(few)
        marked(S, before, index[:k], out, runs([bool(x >= 1) for x in index[:k]], 2, 2), False)
