"""Runs every harness of one property, in parallel, and writes the evidence."""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import pkgutil
import sys
import time

from . import api, core, explore, loader

HERE = explore.HERE


def module_of(prop):
    """The harness module(s) holding the cases of a property."""
    return 'p_' + prop.lower()


def load_known(prop):
    out = []
    path = os.path.join(HERE, 'known_findings.jsonl')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line and not line.startswith('#') and not line.startswith('fixed:'):
                k = json.loads(line)
                if k['property'] == prop:
                    out.append(k)
    return out


def _task(args):
    prop, module, cname, params, prefixes, slice_s, cfg = args
    try:
        c = explore.find_case(prop, cname)
        r = explore.explore(c, module, params, prefixes, slice_s, cfg)
    except BaseException as e:  # an error of the machinery itself
        import traceback
        return dict(case=cname, params=params, error='%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:]))
    return r


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--case')
    ap.add_argument('--replay')
    ap.add_argument('--debug', action='store_true')
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('SYMX_JOBS', '8')))
    ap.add_argument('--budget', type=float)
    ap.add_argument('--verbose', '-v', action='store_true')
    a = ap.parse_args(argv)
    prop, tier = a.prop, a.tier
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    module = module_of(prop)
    if a.replay:
        return replay(prop, module, a.replay)
    loader.install(True)
    importlib.import_module('harness.' + module)
    cases = api.CASES.get(prop, [])
    if a.case:
        cases = [c for c in cases if c.name == a.case]
    if not cases:
        print('no cases for', prop)
        return 2
    budget = a.budget or (300 if tier == 'quick' else 780)
    cfg = dict(seed=seed, query_timeout_ms=10000 if tier == 'quick' else 30000, path_timeout=45, max_violations=3,
               validate=12, validate_p=0.05, debug=a.debug, known=[k['id'] for k in load_known(prop)])
    known = load_known(prop)

    jobs = []
    for c in cases:
        for i, p in enumerate(c.quick if tier == 'quick' else c.thorough):
            jobs.append((c, p))
    agg = {}
    for i, (c, p) in enumerate(jobs):
        agg[i] = dict(case=c.name, params=p, paths=0, completed=0, aborted=0, timeouts=0, incomplete=0, checked=0,
                      violations=[], spurious=[], validated=0, mismatches=[], covers=set(), samples=[], stats={},
                      functions=set(), truncated=0, errors=[], wall=0.0, depth=0)
    deadline = t0 + budget
    nworkers = max(1, a.jobs)
    pool = mp.get_context('fork').Pool(nworkers)
    queue = [(i, [[]]) for i in range(len(jobs))]
    queue.reverse()
    running = []
    stop = set()
    first = os.environ.get('SYMX_FIRST')      # stop at the first violation (mutation campaigns)
    try:
        while queue or running:
            now = time.time()
            while queue and len(running) < nworkers and now < deadline:
                i, prefixes = queue.pop()
                if i in stop:
                    continue
                c, p = jobs[i]
                sl = min(4.0 if queue or len(running) < nworkers - 1 else 8.0, max(0.5, deadline - now))
                running.append((i, now, pool.apply_async(_task, ((prop, module, c.name, p, prefixes, sl, cfg),))))
            if now >= deadline:
                for i, prefixes in queue:
                    agg[i]['truncated'] += len(prefixes)
                queue = []
                if now > deadline + 75:
                    # a path that does not come back: give it up
                    for i, st, r in running:
                        agg[i]['truncated'] += 1
                    running = []
                    break
            time.sleep(0.01)
            nxt = []
            for i, st, r in running:
                if not r.ready():
                    nxt.append((i, st, r))
                    continue
                res = r.get()
                g = agg[i]
                g['wall'] += time.time() - st
                if 'error' in res:
                    g['errors'].append(res['error'])
                    continue
                for k in ('paths', 'completed', 'aborted', 'timeouts', 'incomplete', 'checked', 'validated'):
                    g[k] += res[k]
                g['depth'] = max(g['depth'], res['depth'])
                for k in ('violations', 'spurious', 'mismatches', 'samples'):
                    g[k] += res[k]
                g['covers'] |= res['covers']
                g['functions'] |= set(res['functions'])
                for k, v in res['stats'].items():
                    if isinstance(v, dict):
                        d = g['stats'].setdefault(k, {})
                        for kk, vv in v.items():
                            d[kk] = d.get(kk, 0) + vv
                    else:
                        g['stats'][k] = g['stats'].get(k, 0) + v
                if sum(1 for v in g['violations'] if v.get('known') not in cfg['known']) >= cfg['max_violations']:
                    stop.add(i)
                    continue
                pend = res['pending']
                if pend:
                    # spread what is left over the workers
                    n = min(len(pend), max(1, nworkers - len(queue)))
                    # (behind the others, so that all the cases have their share of the time)
                    for k in range(n):
                        queue.insert(0, (i, pend[k::n]))
            running = nxt
            if first and any(v.get('known') not in cfg['known'] for g in agg.values() for v in g['violations']):
                break
    finally:
        pool.terminate()
    return report(prop, tier, seed, t0, cases, jobs, agg, known, a)


def report(prop, tier, seed, t0, cases, jobs, agg, known, a):
    tot = lambda k: sum(g[k] for g in agg.values())
    st = lambda k: sum(g['stats'].get(k, 0) for g in agg.values())
    rc = 0
    nviol = 0
    open_known = {k['id']: k for k in known}
    seen_known = {}
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    reported = set()
    for i, g in agg.items():
        for v in g['violations']:
            if v.get('known') in open_known:
                seen_known.setdefault(v['known'], v)
                continue
            key = (g['case'], v['label'])
            if key in reported:
                continue
            reported.add(key)
            nviol += 1
            path = os.path.join(HERE, 'replays', '%s_%s_%d.json' % (prop, g['case'], nviol))
            with open(path, 'w') as f:
                json.dump(dict(property=prop, case=g['case'], params=g['params'], inputs=v['inputs'], label=v['label'],
                               detail=v.get('detail'),
                               how='cd /verif && ./check.py %s --replay %s' % (prop, path)), f, indent=1)
            print('VIOLATION property=%s replay=%s' % (prop, path))
            print('   case=%s: %s %s inputs=%s' % (g['case'], v['label'], v.get('detail') or '',
                                                 json.dumps(v['inputs'])[:600]))
            rc = 1
    for kid, k in open_known.items():
        if kid in seen_known:
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    problems, soft = [], []     # no answer at all; single inconclusive candidates
    for i, g in agg.items():
        who = '%s%s' % (g['case'], json.dumps(g['params']))
        for e in g['errors']:
            problems.append('ERROR in %s: %s' % (who, e))
        for s in g['spurious'][:2]:
            soft.append('SPURIOUS candidate in %s: %s' % (who, json.dumps(s)[:900]))
        if len(g['mismatches']) > g['validated'] and g['mismatches']:
            soft.append('ENCODING MISMATCH in %s: %s' % (who, g['mismatches'][0]))
        if not g['completed'] and not g['violations'] and not g['truncated']:
            problems.append('VACUOUS: no completed path in %s' % who)
    bycase = {}
    for g in agg.values():
        bycase.setdefault(g['case'], set()).update(g['covers'])
    missing = {c.name: sorted(set(c.covers) - bycase.get(c.name, set())) for c in cases
               if set(c.covers) - bycase.get(c.name, set())}
    truncated = {'%s%s' % (g['case'], json.dumps(g['params'])): g['truncated'] for g in agg.values() if g['truncated']}
    inconclusive = st('assert_unknown') + tot('timeouts') + tot_len(agg, 'spurious')
    functions = sorted(set().union(*[g['functions'] for g in agg.values()]) if agg else [])
    samples = []
    for g in agg.values():
        samples += g['samples'][:1]
    exhaustive = not truncated and not inconclusive and not tot('incomplete') and not st('pins')
    per_case = [dict(case=g['case'], bounds=g['params'], paths=g['paths'], proved_paths=g['completed'],
                     infeasible=g['aborted'], assertions=g['checked'], queries=g['stats'].get('queries', 0),
                     solver_s=round(g['stats'].get('solver_s', 0), 2), max_decisions=g['depth'],
                     concretised_paths=g['incomplete'], unexplored_prefixes=g['truncated'], validated=g['validated'],
                     reached=sorted(g['covers'])) for g in agg.values()]
    docs = {c.name: (c.fn.__doc__ or '').strip() for c in cases}
    evidence = dict(property=prop, tier=tier, seed=seed, level='model_checking', coverage=dict(
        states=tot('paths'), transitions=st('branches'), traces_validated_against_impl=tot('validated'),
        samples=samples[:12] or [dict(note='no path sampled')],
        exhaustive=exhaustive,
        explanation='states: distinct feasible paths of the real code decided by the solver (each stands for all inputs '
                    'satisfying its path condition); transitions: branch decisions on symbolic conditions; '
                    'traces_validated_against_impl: paths of which one concrete instance was run on the unmodified code '
                    'and observed to agree with the encoding.',
        functions_encoded=functions, harnesses=docs, bounds_and_results=per_case,
        assertions_proved=tot('checked'), assertions_settled_by_normal_forms=st('assert_plain'),
        branches_settled_by_intervals=st('local'), queries=st('queries'), queries_unsat=st('unsat'), queries_sat=st('sat'),
        queries_unknown=st('unknown'), solver_s=round(st('solver_s'), 2), forks=st('forks'),
        infeasible_paths=tot('aborted'), inconclusive=inconclusive, concretised_paths=tot('incomplete'),
        concretisation_sites=merge_sites(agg), unexplored=truncated, cover_labels_missing=missing,
        encoding_mismatches=tot_len(agg, 'mismatches'), problems=(problems + soft)[:10],
        known_findings_seen=sorted(seen_known)),
        assumptions=['floats are exact reals (no rounding, no overflow, no nan/inf inputs)',
                     'logging is disabled; json/math/sklearn metric helpers and datetime are replaced by symbolic stubs listed in DESIGN.md',
                     'nothing is claimed outside the stated bounds'],
        wall_s=round(time.time() - t0, 2), violations=nviol)
    if not a.case:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
            json.dump(evidence, f, indent=1, default=str)
    print('%s %s: %d paths (%d proved, %d infeasible), %d assertions, %d queries (%.1fs solver), %d validated, '
          '%d concretised, %d inconclusive, unexplored=%s, wall %.1fs' %
          (prop, tier, tot('paths'), tot('completed'), tot('aborted'), tot('checked'), st('queries'), st('solver_s'),
           tot('validated'), tot('incomplete'), inconclusive, truncated or 0, time.time() - t0))
    if missing:
        print('not reached:', missing)
    if a.verbose:
        for p in per_case:
            print('  ', json.dumps(p))
        print('   pins', merge_sites(agg))
        for g in agg.values():
            for m in g['mismatches'][:2]:
                print('   mismatch', g['case'], m)
    for p in problems + soft:
        print(p)
    if rc == 0 and problems:
        rc = 2
    return rc


def tot_len(agg, k):
    return sum(len(g[k]) for g in agg.values())


def merge_sites(agg):
    d = {}
    for g in agg.values():
        for k, v in g['stats'].get('pin_sites', {}).items():
            d[str(k)] = d.get(str(k), 0) + v
    return d


def replay(prop, module, path):
    with open(path) as f:
        r = json.load(f)
    res = explore.REPLAYER.run(module, prop, r['case'], r['params'], r['inputs'])
    explore.REPLAYER.close()
    print(json.dumps(res, indent=1))
    if res['outcome'] in ('violated', 'exception', 'timeout'):
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    return 0
