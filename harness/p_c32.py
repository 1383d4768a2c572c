"""C32: editing labels and indexes in place."""
from symx.api import case
from .common import *

L = ['b', 'a', 'ab']  # (one is part of another)


@case('C32', quick=[dict(n=2, k=3, kind='point'), dict(n=2, k=2, kind='slot'), dict(n=1, k=2, kind='point'), dict(n=2, k=2, kind='point', epoch=-600)],
      thorough=[dict(n=2, k=4, kind='point'), dict(n=3, k=3, kind='point'), dict(n=3, k=3, kind='slot'), dict(n=1, k=3, kind='slot'), dict(n=2, k=2, kind='point', epoch=-600)])
def edits(S, n, k, kind):
    """Any history of renaming and removing labels and indexes, between items coming and going."""
    d = ts()
    data = [{l: S.real('%s%d' % (l, i)) for l in L} for i in range(n)]
    idx = [{'data_loss': S.real('x%d' % i, 0, 1), 'anomaly': S.real('y%d' % i, 0, 1)} if i != 1 else {'anomaly': None} for i in range(n)]

    def item(i, x, ix):
        if kind == 'slot':
            return d.DataTimeSlot(start=d.TimePoint(t=B + 600 * i), end=d.TimePoint(t=B + 600 * (i + 1)), data=dict(x), data_indexes=dict(ix))
        return d.DataTimePoint(t=B + 600 * i, data=dict(x), data_indexes=dict(ix))

    s = d.TimeSeries(*[item(i, data[i], idx[i]) for i in range(n)])
    model = [[B + 600 * i, dict(data[i]), dict(idx[i])] for i in range(n)]
    labels = list(L)
    last = n
    copy = s.duplicate()
    original = snap(s)
    for j in range(k):
        op = S.choice('op%d' % j, ['rename', 'remove', 'index', 'loss', 'first', 'last', 'append'])
        before = snap(s)
        err = None
        if op == 'rename':
            old, new = S.choice('what%d' % j, [('a', 'd'), ('d', 'a'), ('b', 'b'), ('b', 'a'), ('x', 'b'), ('ab', 'a_avg'), ('b', 'ab')])
            err = S.refused(lambda: s.rename_data_label(old, new))
            if model:
                S.check((err is None) == (old in labels and (new not in labels or new == old)), 'renaming is accepted when it can be done')
                if err is None:
                    for m in model:
                        m[1][new] = m[1].pop(old)
                    labels = [new if l == old else l for l in labels]
        elif op == 'remove':
            old = S.choice('what%d' % j, ['b', 'd', 'x'])
            err = S.refused(lambda: s.remove_data_label(old))
            if err is None:
                for m in model:
                    m[1].pop(old, None)
                if model:
                    labels = [l for l in labels if l != old]
            else:
                S.check(old not in labels, 'a label of the series can be removed')
        elif op in ('index', 'loss'):
            what = 'data_loss' if op == 'loss' else S.choice('what%d' % j, ['anomaly', 'data_loss', 'x'])
            err = S.refused(s.remove_data_loss) if op == 'loss' else S.refused(lambda: s.remove_data_index(what))
            S.check(err is None, 'indexes can be removed, if any')
            for m in model:
                m[2].pop(what, None)
        elif op in ('first', 'last'):
            if not model:
                continue
            s.pop(0 if op == 'first' else -1)
            model.pop(0 if op == 'first' else -1)
            if op == 'last':
                last -= 1
        else:
            x = {l: S.real('new_%s_%d' % (l, j)) for l in labels}
            wrong = {('other ' + l if l == labels[0] else l): 1 for l in labels}
            if model:
                S.check(S.refused(lambda: s.append(item(last, wrong, {}))) is not None, 'items with other labels are refused')
                if sorted(labels) != sorted(L):
                    S.check(S.refused(lambda: s.append(item(last, {l: 1 for l in L}, {}))) is not None, 'and so are those with the labels of before')
            s.append(item(last, x, {}))
            model.append([B + 600 * last, dict(x), {}])
            last += 1
        now = snap(s)
        if err is not None:
            S.check(same_snap(S, now, before), op + ': refused without effect')
        S.check(len(now) == len(model), op + ': same number of items')
        for a, m in zip(now, model):
            S.check(S.and_(S.eq(a[0], m[0]), S.eqd(a[2], m[1])), op + ': every item has its values under the right labels')
            S.check(S.eqd(a[3], m[2]), op + ': every item has its indexes')
        if model:
            S.check(s.data_labels() == sorted(labels), op + ': labels of the series')
            l = sorted(labels)[0]
            S.check(S.eq(s.sum(data_label=l), sum(m[1][l] for m in model)), op + ': the series works with its labels')
    S.check(same_snap(S, snap(copy), original) and copy.data_labels() == sorted(L), 'duplicates are left as they are')


@case('C32', quick=[dict(n=3)], thorough=[dict(n=1), dict(n=4)])
def derived(S, n):
    """Labels added in place by operations, with the items coming and going."""
    d = ts()
    s = point_series(S, [B + 60 * i for i in range(n + 1)], [{'a': S.real('a%d' % i), 'b': S.real('b%d' % i)} for i in range(n + 1)])
    op = S.choice('op', ['derivative', 'csum'])
    if S.choice('pop', [False, True]):
        s.pop(0)
    if len(s) < 2:
        return
    if op == 'derivative':
        s.derivative(inplace=True)
    else:
        s.csum(inplace=True)
    labels = s.data_labels()
    S.check(all(sorted(it.data) == labels for it in s), 'the same labels on every item')
    before = snap(s)
    t = s[-1].t + 60
    S.check(S.refused(lambda: s.append(d.DataTimePoint(t=t, data={'a': 1, 'b': 2}))) is not None, 'items without the new labels are refused')
    S.check(same_snap(S, snap(s), before), 'without effect')
    s.append(d.DataTimePoint(t=t, data={l: 1 for l in labels}))
    S.check(len(s) == len(before) + 1 and s.data_labels() == labels, 'items with them are accepted')


@case('C32')
def nothing_to_edit(S):
    """Series without data, with list data or with no items."""
    d = ts()
    what = S.choice('what', ['empty', 'no data', 'list'])
    s = d.TimeSeries()
    if what == 'no data':
        s = d.TimeSeries(d.TimePoint(t=B), d.TimePoint(t=B + 60))
    elif what == 'list':
        s = point_series(S, [B, B + 60], [[S.real('a'), 1], [S.real('b'), 2]])
    edit = S.choice('edit', [lambda: s.rename_data_label('0', 'a'), lambda: s.remove_data_label('0'), lambda: s.remove_data_index('x'), lambda: s.remove_data_loss()])
    err = S.refused(edit)
    S.check((err is None) == (what == 'empty' or what == 'list' and edit.__code__.co_names[-1] in ('remove_data_index', 'remove_data_loss')), 'refused')
    S.check(len(s) == (0 if what == 'empty' else 2), 'no items gained or lost')
    if what == 'list':
        S.check(all(len(it.data) == 2 for it in s), 'nor values')


@case('C32')
def all_labels(S):
    """Removing every label leaves a series without labels, to which only items without labels can be added."""
    d = ts()
    n = S.choice('n', [1, 2])
    labels = S.choice('labels', [['a'], ['a', 'b']])
    s = point_series(S, [B + 60 * i for i in range(n)], [{l: S.real('%s%d' % (l, i)) for l in labels} for i in range(n)])
    for l in labels:
        s.remove_data_label(l)
    S.check(s.data_labels() == [] and all(it.data == {} for it in s), 'no labels left')
    t = B + 60 * n
    how = S.choice('how', ['append', 'insert'])

    def add(data):
        x = d.DataTimePoint(t=t if how == 'append' else B - 60, data=data)
        return S.refused(lambda: s.append(x) if how == 'append' else s.insert(0, x))
    S.check(add({'a': S.real('new')}) is not None and len(s) == n, 'items with the labels of before are refused')
    S.check(add([1]) is not None and len(s) == n, 'and so are those with other data')
    S.check(add({}) is None and len(s) == n + 1, 'items without labels are accepted')
    S.check(S.refused(lambda: s.rename_data_label('a', 'b'), KeyError) and S.refused(lambda: s.remove_data_label('a')) is None, 'nothing to edit')


@case('C32', quick=[dict(kind='point'), dict(kind='slot')])
def same_indexes(S, kind):
    """Items given the same dictionary of indexes do not share them: editing those of one is nothing to the others, nor to the caller."""
    d = ts()
    given = {'anomaly': S.real('anomaly', 0, 1), 'mine': S.real('mine', 0, 1)}
    kept = dict(given)
    losses = [S.real('loss%d' % i, 0, 1) for i in range(4)]
    with_loss = S.choice('with loss', [False, True])

    def item(i):
        kw = dict(data={'a': 1.0 * i}, data_indexes=given)
        if with_loss:
            kw['data_loss'] = losses[i]
        if kind == 'slot':
            return d.DataTimeSlot(start=d.TimePoint(t=B + 600 * i), end=d.TimePoint(t=B + 600 * (i + 1)), **kw)
        return d.DataTimePoint(t=B + 600 * i, **kw)
    s = d.TimeSeries(item(0), item(1))
    other = d.TimeSeries(item(2), item(3))

    def right(series, first, names):
        for i, it in enumerate(series):
            S.check(sorted(it.data_indexes) == sorted(names), 'the indexes of the item')
            for name in names:
                S.check(S.eq(it.data_indexes[name], losses[first + i] if name == 'data_loss' else kept[name]), 'the values of the indexes')
    names = ['anomaly', 'mine'] + (['data_loss'] if with_loss else [])
    right(s, 0, names)
    right(other, 2, names)
    what = S.choice('what', ['remove', 'loss', 'set', 'set loss', 'caller'])
    if what == 'remove':
        s.remove_data_index('mine')
        right(s, 0, [x for x in names if x != 'mine'])
    elif what == 'loss':
        s.remove_data_loss()
        right(s, 0, ['anomaly', 'mine'])
    elif what == 'set':
        s[0].data_indexes['mine'] = 2
        S.check(S.eq(s[1].data_indexes['mine'], kept['mine']), 'the next item')
    elif what == 'set loss':
        s[0].data_indexes['data_loss'] = 2
        S.check(('data_loss' in s[1].data_indexes) == with_loss, 'the next item')
    else:
        given['mine'] = 2
        right(s, 0, names)
        given['mine'] = kept['mine']
    right(other, 2, names)
    S.check(sorted(given) == sorted(kept) and S.all(S.eq(given[k], kept[k]) for k in kept), 'the dictionary given')
