#!/opt/venv/bin/python
"""check.py PROPERTY [--tier quick|thorough] [--only HARNESS]
   check.py --replay FILE"""
import argparse
import importlib
import json
import os
import sys
import time

os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
os.environ.setdefault('MPLBACKEND', 'Agg')
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if VT not in sys.path:
    sys.path.append(VT)

from engine import harness as H                        # noqa: E402
from engine import checks_util as U                    # noqa: E402


def load_checks():
    d = os.path.join(HERE, 'checks')
    for f in sorted(os.listdir(d)):
        if f.endswith('.py') and not f.startswith('_'):
            importlib.import_module('checks.' + f[:-3])


def replay(path):
    v = json.load(open(path))
    hd = U.HARNESS[v['harness']]
    st, h, det = H.run_real(hd.fn, v['cfg'], v['values'], v['choices'])
    print(json.dumps(dict(status=st, detail=str(det)[:2000]), indent=1))
    return 1 if st == 'fail' else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--replay')
    ap.add_argument('--trace', action='store_true')
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--budget', type=float)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    load_checks()
    if a.replay:
        return replay(a.replay)
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    prop = a.prop
    if prop not in U.PROPS:
        print('unknown property', prop)
        return 2
    opts = dict(seed=seed, trace=a.trace)
    if a.tier == 'thorough':
        opts.update(goal_ms=120000, branch_ms=15000, budget=3000, pins=6,
                    validate=6, max_paths=20000)
    else:
        opts.update(budget=400)
    if a.budget:
        opts.update(budget=a.budget, nofallback=True)
    jobs = []
    for hn in U.PROPS[prop]:
        if a.only and a.only not in hn:
            continue
        hd = U.HARNESS[hn]
        cfgs = hd.quick if a.tier == 'quick' else hd.thorough
        for c in cfgs:
            jobs.append((prop, hn, c, opts))
    from engine import pool
    results = pool.run(jobs, min(a.jobs, max(1, len(jobs))),
                       820 if a.tier == 'quick' else 6 * 3600)
    return finish(prop, a.tier, seed, results, t0, a.v)


def finish(prop, tier, seed, results, t0, verbose):
    kf = H.known_findings(prop)
    viols, incon, errors, known = [], [], [], {}
    tot = {}
    for r in results:
        for v in r['violations']:
            k = H.match_known(v, kf)
            if k is not None:
                known[k['id']] = k
            else:
                viols.append(v)
        incon += r['inconclusive']
        if r.get('error'):
            errors.append('%s %s: %s\n%s' % (r['harness'], r['cfg'],
                                             r['error'], r.get('trace', '')))
        for k, v in r.get('stats', {}).items():
            tot[k] = tot.get(k, 0) + v
        if verbose:
            print('%-40s %-28s %-8s paths=%s goals=%s z3=%s val=%s/%s %.1fs %s' % (
                r['harness'], r['cfg'], r['mode'],
                r.get('stats', {}).get('paths'),
                r.get('stats', {}).get('goals'),
                r.get('stats', {}).get('goal_queries'), r['validated'],
                r['mismatches'], r.get('wall', 0), r.get('fallback', '')))
            for s in r['samples']:
                if isinstance(s, str):
                    print('    ', s)
            for s in r.get('notes', []):
                print('    note', s)
    for k in known.values():
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    fns, bounds, assumes = [], [], []
    for hn in sorted({r['harness'] for r in results}):
        hd = U.HARNESS[hn]
        fns += [f for f in hd.functions if f not in fns]
        bounds.append('%s: %s' % (hn, hd.bounds))
        assumes += [x for x in hd.assumes if x not in assumes]
    samples = []
    for r in results:
        for s in r['samples'][:1]:
            samples.append(dict(harness=r['harness'], case=s))
    evd = dict(
        property=prop, tier=tier, seed=seed, level='other',
        coverage=dict(
            explanation='Symbolic execution of the functions listed, from '
            'their current source in /repo, over solver-decided paths; each '
            'assertion is an SMT query (z3) over all values of the symbolic '
            'inputs within the bounds; counterexamples are replayed on the '
            'unmodified package.  Reals stand for floats.',
            functions_encoded=fns, bounds=bounds,
            harness_configurations=len(results),
            paths_explored=int(tot.get('paths', 0)),
            paths_infeasible=int(tot.get('aborted', 0)),
            branch_queries=int(tot.get('branch_queries', 0)),
            assertions=int(tot.get('goals', 0)),
            solver_queries=int(tot.get('goal_queries', 0)),
            discharged=int(tot.get('discharged', 0)),
            identities_by_ring_normalisation=int(
                tot.get('ring_identities', 0)),
            identities_reconfirmed_by_z3=int(tot.get('z3_cross', 0)),
            nontrivial_unsat=int(tot.get('z3_proved_nontrivial', 0)),
            solver_time_s=round(tot.get('goal_time', 0) + tot.get(
                'branch_time', 0), 3),
            traces_validated_against_impl=sum(r['validated']
                                              for r in results),
            encoder_mismatches=sum(r['mismatches'] for r in results),
            pinned_fallbacks=[
                '%s %s: %s' % (r['harness'], r['cfg'], r.get('fallback'))
                for r in results if r['mode'] == 'pinned'],
            inconclusive=incon[:20], errors=[e[:600] for e in errors[:20]],
            samples=samples[:8]),
        assumptions=['floats are modelled as exact reals (decimal literals '
                     'as rationals); replay uses floats with tolerances',
                     'divisors are non-zero and linear systems non-singular'
                     ] + assumes,
        wall_s=round(time.time() - t0, 2), violations=len(viols))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(evd, f, indent=1, default=str)
    if viols:
        os.makedirs(os.path.join(HERE, 'evidence', 'replay'), exist_ok=True)
        for i, v in enumerate(viols[:5]):
            p = os.path.join(HERE, 'evidence', 'replay', '%s_%d.json' % (
                prop, i))
            json.dump(v, open(p, 'w'), indent=1, default=str)
            print('  %s %s: %s' % (v['harness'], v['label'], v['observed'][:2]))
            print('VIOLATION property=%s replay=%s' % (prop, p))
        return 1
    for e in errors:
        print('ERROR', e)
    for e in incon[:10]:
        print('INCONCLUSIVE', e)
    mm = sum(r['mismatches'] for r in results)
    if mm:
        print('ENCODER-MISMATCH', mm)
    if not tot.get('discharged', 0):
        print('%s: nothing could be decided' % prop)
        return 2
    if errors or incon or mm:
        print('%s: %d configurations without an answer (recorded in the '
              'evidence as inconclusive); nothing decided was violated' % (
                  prop, len(errors) + len(incon) + mm))
    print('%s held: %d configurations, %d paths, %d assertions, %d solver '
          'queries, %.1f s' % (prop, len(results), tot.get('paths', 0),
                               tot.get('goals', 0),
                               tot.get('goal_queries', 0), time.time() - t0))
    return 0


if __name__ == '__main__':
    sys.exit(main())
