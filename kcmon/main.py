"""run.sh PROPERTY [--tier quick|thorough] [--seed N] [--family F] [--index I]
                   [--replay FILE] [--scale X] [--procs N] [-v]

Decides one property on /repo's current working tree.
"""
import argparse
import importlib
import json
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from kcmon import boot, core  # noqa: E402


def main():
    t0 = time.time()
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--family')
    ap.add_argument('--index', type=int)
    ap.add_argument('--replay')
    ap.add_argument('--scale', type=float, default=1.)
    ap.add_argument('--procs', type=int, default=int(os.environ.get('KCMON_PROCS', '6')))
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    prop = a.prop
    if a.tier not in ('quick', 'thorough'):
        a.tier = 'quick'
    if a.replay:
        r = json.load(open(a.replay))
        a.seed, a.tier, a.family, a.index = r['seed'], r['tier'], r['family'], r['index']

    boot.scratch()
    boot.boot()
    mod = importlib.import_module('kcmon.props.' + prop.lower())
    fams = []
    for name, fn, nq, nt in mod.FAMILIES:
        n = nq if a.tier == 'quick' else nt
        if n > 0:
            fams.append((name, fn, max(1, int(round(n * a.scale)))))
    if a.family is not None:
        fams = [(n, f, k) for n, f, k in fams if n == a.family]
        if a.index is not None:
            (name, fn, k), = fams
            res = core.run_case(prop, a.seed, a.tier, name, fn, a.index)
            print(json.dumps(res, indent=1))
            if res['verdict'] == 'violated':
                print('VIOLATION property={} replay={}'.format(
                    prop, a.replay or '{}:{}:{}'.format(a.seed, name, a.index)))
                return 1
            return 0 if res['verdict'] == 'held' else 2

    budget = float(os.environ.get('KCMON_BUDGET', '600' if a.tier == 'quick' else '780'))
    results, njobs, badworkers = core.run_all(prop, a.seed, a.tier, fams, a.procs, budget)

    held = [r for r in results if r['verdict'] == 'held']
    viol = [r for r in results if r['verdict'] == 'violated']
    errs = [r for r in results if r['verdict'] == 'error']
    skipped = [r for r in results if r['verdict'] == 'skipped']
    events, byfam = {}, {}
    for r in held + viol:
        for k, v in r['events'].items():
            events[k] = events.get(k, 0) + v
        byfam[r['family']] = byfam.get(r['family'], 0) + 1
    decisions = sum(r['decisions'] for r in held + viol)
    keys = set(r['key'] for r in held + viol if r['key'])
    known = []
    for r in held + viol:
        for k in r['known']:
            if k not in known:
                known.append(k)

    if a.v:
        for r in sorted(held, key=lambda r: -r['wall'])[:8]:
            print('  {:.2f}s {} {} {}'.format(r['wall'], r['family'], r['index'], r['notes']))
    fam_wall = {}
    for r in held + viol:
        fam_wall[r['family']] = fam_wall.get(r['family'], 0.) + r['wall']

    for k in sorted(known):
        print('KNOWN-FINDING: property={} {}'.format(prop, k))
    rdir = os.path.join(boot.VERIF, 'replays')
    seen = set()
    for r in viol:
        sig = (r['family'], r['what'])
        if sig in seen:
            continue
        seen.add(sig)
        if len(seen) > 8:
            break
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '{}-{}-{}-{}.json'.format(prop, r['family'], a.seed, r['index']))
        with open(path, 'w') as fp:
            json.dump(dict(property=prop, seed=a.seed, tier=a.tier, family=r['family'],
                           index=r['index'], what=r['what'], data=r['data'],
                           notes=r['notes']), fp, indent=1)
        print('  {} case {}: {}'.format(r['family'], r['index'], r['what']))
        print('VIOLATION property={} replay={}'.format(prop, path))

    rng = sorted(held, key=lambda r: (r['index'], r['family']))
    samples = [dict(family=r['family'], index=r['index'], decisions=r['decisions'],
                    observed=r['events'], case=r['notes']) for r in rng if r['key']][:6]
    inconclusive = []
    if errs:
        inconclusive.append('{} harness errors, first: {}'.format(len(errs), errs[0]['what']))
    if badworkers:
        inconclusive.append('{} workers died'.format(badworkers))
    notrun = njobs - len(held) - len(viol) - len(errs)
    if skipped or len(results) < njobs:
        print('  {} of {} cases not run for lack of time'.format(notrun, njobs))
    if notrun > 0.4 * njobs:
        inconclusive.append('{} of {} cases not run'.format(
            notrun, njobs))
    if a.family is None and a.scale >= 1.:
        for k, v in getattr(mod, 'MIN_EVENTS', {}).items():
            if events.get(k, 0) < v:
                inconclusive.append('observed {} {} < {}'.format(events.get(k, 0), k, v))
    if decisions == 0:
        inconclusive.append('nothing decided')

    ev = dict(property=prop, tier=a.tier, seed=a.seed,
              level=getattr(mod, 'LEVEL', 'exploration'),
              coverage=dict(evaluations=len(held) + len(viol),
                            distinct_nontrivial=len(keys),
                            rule=mod.RULE, samples=samples,
                            oracle_decisions=decisions,
                            observed_events=events,
                            cases_by_family=byfam,
                            cases_not_run=notrun,
                            known_findings_observed=known),
              assumptions=getattr(mod, 'ASSUMPTIONS', []),
              wall_s=round(time.time() - t0, 2),
              violations=len(viol))
    if inconclusive:
        ev['coverage']['inconclusive'] = inconclusive
    os.makedirs(os.path.join(boot.VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(boot.VERIF, 'evidence', prop + '.json'), 'w') as fp:
        json.dump(ev, fp, indent=1)
        fp.write('\n')

    print('{} {} seed={}: {} cases, {} decisions, {} violated, {} distinct, {:.1f} s; {}'.format(
        prop, a.tier, a.seed, len(held) + len(viol), decisions, len(viol), len(keys),
        time.time() - t0, ' '.join('{}={}'.format(k, v) for k, v in sorted(events.items()))))
    if a.v:
        print('  wall by family:', {k: round(v, 1) for k, v in fam_wall.items()})
    if viol:
        return 1
    if inconclusive:
        for t in inconclusive:
            print('INCONCLUSIVE: ' + t)
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
