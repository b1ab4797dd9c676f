#!/usr/bin/env python3-vt
"""Runs the check of one property:  python3-vt check.py C10 [--tier quick|thorough] [--case NAME]

exit 0  every obligation that could be decided holds (undecided parts are listed as INCONCLUSIVE and in the evidence)
exit 1  VIOLATION: the solver found a counterexample and it was reproduced on the real code
exit 2  the check could not decide anything
"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(5000)
sys.dont_write_bytecode = True

KNOWN = os.path.join(HERE, 'known_findings.jsonl')
EVIDENCE = os.environ.get('SYMX_EVIDENCE') or os.path.join(HERE, 'evidence')


def known_for(prop):
    res = []
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for line in f:
                line = line.strip()
                if not line.startswith('{'):
                    continue
                d = json.loads(line)
                if d.get('property') == prop and d.get('status') == 'known':
                    res.append(d)
    return res


def worker(prop, case, opts, q):
    try:
        from symx import symenv
        r = symenv.run_case(prop, case['fn'], case, opts)
        q.put((case['name'], dict(r)))
    except BaseException as e:
        q.put((case['name'], {'case': case['name'], 'crash': ''.join(traceback.format_exception(e))[-1500:]}))


def run_cases(prop, cases, opts, jobs):
    results = {}
    todo = list(cases)
    running = {}
    hit = False
    t_end = time.time() + opts['total_budget']
    while (todo and not hit) or running:
        while todo and len(running) < jobs and not hit:
            c = todo.pop(0)
            q = mp.Queue()
            p = mp.Process(target=worker, args=(prop, c, opts, q))
            p.start()
            running[c['name']] = (p, q, time.time(), c)
        time.sleep(0.03)
        for n in list(running):
            p, q, t0, c = running[n]
            r = None
            if not q.empty():
                try:
                    r = q.get(timeout=2)[1]
                except Exception as e:
                    r = {'case': n, 'crash': repr(e)}
                p.join(5)
            elif not p.is_alive():
                time.sleep(0.05)
                r = q.get()[1] if not q.empty() else {'case': n, 'crash': 'worker ended (exit %s)' % p.exitcode}
            elif time.time() - t0 > c.get('budget', opts['case_budget']) * 1.5 + 60 or time.time() > t_end:
                r = {'case': n, 'crash': 'time limit'}
            elif hit:
                r = {'case': n, 'crash': 'stopped: a violation was found in another case'}
            if r is not None:
                if p.is_alive():
                    p.terminate()
                results[n] = r
                del running[n]
                if r.get('violation'):
                    hit = True
    for c in todo:
        results.setdefault(c['name'], {'case': c['name'], 'crash': 'not started: a violation was found in another case'})
    return [results[c['name']] for c in cases]


def open_ended(r):
    """a case that ran out of solver time"""
    if r.get('crash'):
        return r['crash'] == 'time limit'
    return bool(r['undecided']) or any('budget' in n for n in r['notes'])


def again(prop, cases, opts, jobs, rs, t0):
    """cases whose queries timed out get a second run on a machine that is idle now, with more time per query"""
    left = opts['total_budget'] - (time.time() - t0) - 30
    names = [r['case'] for r in rs if open_ended(r)]
    if not names or left < 60 or any(r.get('violation') for r in rs):
        return rs
    o = dict(opts, ob_ms=3 * opts.get('ob_ms', 8000), ob_fresh_ms=3 * opts.get('ob_fresh_ms', 12000),
             total_budget=left)
    sel = [dict(c, budget=left) for c in cases if c['name'] in names]
    new = {r['case']: r for r in run_cases(prop, sel, o, max(1, jobs // 2))}

    def better(r):
        n = new.get(r['case'])
        if n is None or n.get('crash'):
            return r
        if r.get('crash') or n.get('violation') or not open_ended(n):
            return n
        return n if n['undecided'] < r['undecided'] else r
    return [better(r) for r in rs]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--case')
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 4))
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    prop = a.property
    tier = a.tier
    t0 = time.time()
    mod = importlib.import_module('props.' + prop.lower())
    cases = mod.cases(tier)
    if a.case:
        cases = [c for c in cases if c['name'] == a.case]
    assert len(set(c['name'] for c in cases)) == len(cases)
    opts = dict(getattr(mod, 'OPTS', {}))
    opts.setdefault('case_budget', 300 if tier == 'quick' else 900)
    for c in cases:
        c['budget'] = max(c.get('budget', 0), opts['case_budget'])
    opts['total_budget'] = 780 if tier == 'quick' else 6 * 3600
    opts['tier'] = tier
    known = known_for(prop)
    opts['known_labels'] = {(d['case'], d['label']): d for d in known}
    rs = run_cases(prop, cases, opts, a.jobs)
    rs = again(prop, cases, opts, a.jobs, rs, t0)

    rdir = os.path.join(EVIDENCE, 'replay')
    os.makedirs(rdir, exist_ok=True)
    viol = None
    tot = dict(paths=0, obligations=0, discharged=0, undecided=0, queries=0, solver_s=0.0, sat=0, unsat=0,
               unknown=0, fork_unknown=0)
    funcs, labels, notes, samples = set(), {}, [], []
    reached = tried = 0
    for r in rs:
        if r.get('crash'):
            notes.append('%s: %s' % (r['case'], r['crash']))
            continue
        for k in tot:
            tot[k] += r.get(k, 0)
        funcs.update(r['functions'])
        for l, n in r['labels'].items():
            labels[l] = labels.get(l, 0) + n
        for n in r['notes']:
            notes.append('%s: %s' % (r['case'], n))
        for u in r['unconfirmed']:
            notes.append('%s: counterexample not reproduced: %s' % (r['case'], json.dumps(u, default=str)[:600]))
        for b in r['witness']['bad']:
            notes.append('%s: witness differs: %s' % (r['case'], json.dumps({k: v for k, v in b.items() if k != 'inputs'}, default=str)[:600]))
        tried += r['witness']['tried']
        reached += r['witness']['reached']
        if r['samples'] and len(samples) < 5:
            samples.append({'case': r['case'], 'inputs': r['samples'][0]})
        for d in r.get('known', []):
            print('KNOWN-FINDING: property=%s %s' % (prop, d))
        if r['violation'] and viol is None:
            viol = r['violation']
    incomplete = [r['case'] for r in rs if r.get('crash') or not r['complete'] or r['undecided']]
    if a.v:
        for r in rs:
            if r.get('crash'):
                print(r['case'], 'CRASH', r['crash'])
            else:
                print('%-40s paths %4d (+%d) obl %5d/%d und %d q %d %.1fs wall %.1fs %s' % (
                    r['case'], r['paths'], r['aborted'], r['discharged'], r['obligations'], r['undecided'],
                    r['queries'], r['solver_s'], r['wall'], '' if r['complete'] else 'INCOMPLETE'))
    for n in notes[:12]:
        print('INCONCLUSIVE ' + n[:500])
    path = None
    if viol:
        path = os.path.join(rdir, '%s.json' % prop)
        with open(path, 'w') as f:
            json.dump({'property': prop, 'case': viol['case'], 'inputs': viol['inputs'],
                       'label': viol['label'], 'failed': viol['failed'], 'detail': viol['detail']}, f, indent=1,
                      default=str)
    ev = {
        'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': 'model_checking',
        'coverage': {
            'states': tot['paths'],
            'transitions': tot['queries'],
            'traces_validated_against_impl': reached,
            'samples': samples or [{'none': 'no witness in this run'}],
            'explanation': 'states: symbolic paths of the real source explored to the end; transitions: solver '
                           'queries; traces_validated_against_impl: solver models run on the real code with '
                           'ordinary floats, all properties re-checked and values compared',
            'functions_encoded': sorted(funcs),
            'bounds': getattr(mod, 'BOUNDS', ''),
            'obligations': tot['obligations'], 'discharged': tot['discharged'], 'undecided': tot['undecided'],
            'queries': tot['queries'], 'sat': tot['sat'], 'unsat': tot['unsat'], 'unknown': tot['unknown'],
            'solver_s': round(tot['solver_s'], 3),
            'cases': [{k: r.get(k) for k in ('case', 'paths', 'obligations', 'discharged', 'undecided',
                                             'complete', 'queries')} for r in rs],
            'obligation_labels': labels,
            'witnesses_tried': tried,
            'inconclusive': notes[:40],
            'exhaustive': not incomplete,
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': 1 if viol else 0,
    }
    with open(os.path.join(EVIDENCE, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s %s: %d cases, %d paths, %d/%d obligations discharged, %d undecided, %d queries, solver %.1f s, '
          '%d/%d witnesses replayed, %.1f s' % (prop, tier, len(rs), tot['paths'], tot['discharged'],
                                               tot['obligations'], tot['undecided'], tot['queries'],
                                               tot['solver_s'], reached, tried, time.time() - t0))
    if viol:
        print('counterexample in case %s, %s: %s' % (viol['case'], viol['failed'],
                                                     json.dumps(viol['detail'], default=str)[:800]))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if tot['discharged'] == 0:
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
