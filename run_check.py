#!/usr/bin/env python
"""run_check.py <PROPERTY> [--tier quick|thorough] [--replay FILE] [--seed N] [--scale X]

Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.  Exit 2: harness error.
"""
import argparse
import importlib
import json
import os
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')


def load_target():
    """Import rdtools from the working tree of /repo (never an installed copy)."""
    sys.path.insert(0, REPO)
    warnings.simplefilter('ignore')
    from vlib import tempdata
    tempdata.install()
    import rdtools
    import rdtools.soiling  # noqa: F401
    import rdtools.availability  # noqa: F401
    if not os.path.realpath(rdtools.__file__).startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError(f'rdtools imported from {rdtools.__file__}, not from {REPO}')


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=None)
    ap.add_argument('--replay')
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--facet')
    args = ap.parse_args()
    seed = args.seed if args.seed is not None else int(os.environ.get('VERIF_SEED') or 1)
    t0 = time.time()

    from vlib import deps
    deps.ensure()
    from vlib import core, findings
    core.patch_rng()
    load_target()
    mod = importlib.import_module(f'vlib.props.{args.prop.lower()}')
    facets = mod.FACETS
    if args.facet:
        facets = [f for f in facets if f.name == args.facet]

    if args.replay:
        with open(args.replay) as f:
            rep = json.load(f)
        facet = {f.name: f for f in mod.FACETS}[rep['facet']]
        verdict, msg, ctx = core.run_case(facet, rep['case'])
        print(f'replay {rep["facet"]}: {verdict} {msg}')
        if verdict == 'violation':
            print(f'VIOLATION property={args.prop} replay={args.replay}')
            return 1
        return 0

    for f in facets:
        if args.scale != 1.0:
            f.quick = max(1, int(f.quick * args.scale))
            f.thorough = max(1, int(f.thorough * args.scale))
    budget = getattr(mod, 'BUDGET', {}).get(args.tier, 200 if args.tier == 'quick' else 3000)
    stats, violations, errors = core.run_property(args.prop, facets, args.tier, seed, budget)

    wall = time.time() - t0
    cov = dict(
        evaluations=sum(s['evaluations'] for s in stats.values()),
        distinct_nontrivial=sum(len(s['nontrivial']) for s in stats.values()),
        rule=getattr(mod, 'RULE', '') + ' || ' + ' | '.join(
            f'{f.name}: {f.rule}' for f in facets),
        samples=[dict(facet=k, case=c) for k, s in stats.items() for c in s['samples'][:1]],
        facets={k: dict(evaluations=s['evaluations'], distinct_nontrivial=len(s['nontrivial']),
                        labels=dict(sorted(s['labels'].items())), discarded=s['discards'],
                        timed_out=s['timeouts'], workers_cut_short=s['cut_short'],
                        matched_known_findings=s['known'])
                for k, s in stats.items()},
        workers=core.N_WORKERS,
    )
    ev = dict(property=args.prop, tier=args.tier if args.tier in ('quick', 'thorough') else 'quick',
              seed=seed, level='exploration', coverage=cov, wall_s=round(wall, 2),
              violations=len(violations), assumptions=getattr(mod, 'ASSUMPTIONS', []))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', f'{args.prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=core._jdefault)

    for k, s in stats.items():
        print(f'{args.prop}/{k}: {s["evaluations"]} cases, {len(s["nontrivial"])} distinct '
              f'non-trivial, {s["discards"]} discarded, {s["timeouts"]} timed out'
              + (f', {s["cut_short"]} workers cut short' if s['cut_short'] else '')
              + f'; labels {dict(sorted(s["labels"].items()))}')
    for e in findings.known_for(args.prop):
        print(f'KNOWN-FINDING: property={args.prop} {e["what"]}')

    if violations:
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        violations.sort(key=lambda v: len(json.dumps(v['case'])))
        v = violations[0]
        path = os.path.join(HERE, 'replays', f'{args.prop}-{v["facet"]}.json')
        facet = {f.name: f for f in facets}[v['facet']]
        try:
            verdict, msg, _ = core.run_case(facet, v['case'])
        except Exception as e:                                # replay must never mask the finding
            verdict, msg = 'error', str(e)
        v['reproduces_alone'] = verdict == 'violation'
        v['property'] = args.prop
        v['replay_cmd'] = f'bash /verif/check.sh {args.prop} --replay {path}'
        with open(path, 'w') as f:
            json.dump(v, f, indent=1)
        print(f'{args.prop}/{v["facet"]}: {v["msg"]}')
        print('minimal case: ' + json.dumps(v['case'])[:1500])
        if not v['reproduces_alone']:
            print('note: did not fail again when run alone in a fresh process: '
                  'history-dependent failure')
        print(f'VIOLATION property={args.prop} replay={path}')
        return 1
    if errors:
        print('HARNESS ERROR', *errors, sep='\n', file=sys.stderr)
        return 2
    print(f'OK {args.prop} tier={args.tier} seed={seed} {wall:.1f}s')
    return 0


if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
