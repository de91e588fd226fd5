#!/usr/bin/env python3
"""Decide one property: python check.py C01 [--tier quick|thorough] [--replay FILE]

Exit 0: no violation found within the bounds.  Exit 1 and a VIOLATION line: a solver counterexample
that also fails on the real code.
"""
import os
import sys

os.environ.setdefault('PYTHONDONTWRITEBYTECODE', '1')
os.environ.setdefault('MPLBACKEND', 'Agg')
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
sys.dont_write_bytecode = True
PY = '/opt/venv/bin/python'
if os.path.realpath(sys.prefix) != '/opt/venv' and os.path.exists(PY) and not os.environ.get('SYMX_REEXEC'):
    os.environ['SYMX_REEXEC'] = '1'
    os.execv(PY, [PY, '-B'] + sys.argv)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')

import argparse                    # noqa: E402
import hashlib                     # noqa: E402
import importlib                   # noqa: E402
import json                        # noqa: E402
import warnings                    # noqa: E402
import time                        # noqa: E402


warnings.simplefilter('ignore')


def known_findings(prop):
    """lines 'finding: property=<id> key=<key> <text>' of known_findings.txt (others are ignored)"""
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p, encoding='utf-8'):
            if line.startswith('finding:') and f'property={prop} ' in line:
                parts = line.split()
                key = next((w[4:] for w in parts if w.startswith('key=')), None)
                text = line.split(f'key={key}', 1)[1].strip() if key else line.strip()
                out.append((key, text))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--selftest', action='store_true')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--budget', type=float)
    ap.add_argument('--case', type=int, help='explore only one case (development)')
    ap.add_argument('--verbose', action='store_true')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    os.chdir(HERE)
    if a.selftest:
        import z3
        import numpy
        import scipy
        print('z3', z3.get_version_string(), 'numpy', numpy.__version__, 'scipy', scipy.__version__)
        return 0
    if not os.path.isdir(os.path.join(os.environ.get('PYOWC_REPO', '/repo'), 'pyowc')):
        print('no code to check')
        return 2
    h = importlib.import_module('props.' + a.prop.lower())
    from symx import explore, harness as hz
    t0 = time.time()

    if a.replay:
        d = hz.unjson(json.load(open(a.replay)))
        st, failed, _ = hz.run_concrete(h, d['case'], d['inputs'])
        print(st, failed)
        return 1 if st == 'fail' else 0

    budget = a.budget or (max(240, getattr(h, 'QUICK_S', 150)) if a.tier == 'quick' else getattr(h, 'THOROUGH_S', 600))
    opts = dict(seed=seed, budget=budget, fork_timeout=getattr(h, 'FORK_MS', 1500),
                check_timeout=getattr(h, 'CHECK_MS', 15000))
    if a.case is not None:
        cs = list(h.cases(a.tier))
        h.cases = lambda tier: [cs[a.case]]
    # known findings: show that each still fails on the real code (concrete demonstration)
    kf = getattr(h, 'KNOWN', {})
    kf_seen = []
    for key, text in known_findings(a.prop):
        if key in kf:
            st, failed, _ = hz.run_concrete(h, kf[key]['case'], kf[key]['inputs'])
            if st == 'fail':
                print(f'KNOWN-FINDING: property={a.prop} {text}')
                kf_seen.append(key)
    tot = explore.explore(h, a.tier, opts)
    st = tot['stats']
    viol = tot['violations']
    wall = time.time() - t0
    rc = 0
    os.makedirs(os.path.join(HERE, 'evidence', 'replay'), exist_ok=True)
    if viol:
        v = viol[0]
        key = hashlib.sha1(json.dumps(hz.jsonable([v['label'], v['case']]), sort_keys=True).encode()).hexdigest()[:10]
        path = os.path.join(HERE, 'evidence', 'replay', f'{a.prop}-{key}.json')
        hz.dump(path, v)
        print(f"counterexample: {v['label']} {v['note']} case={v['case']}")
        print(f'VIOLATION property={a.prop} replay={path}')
        rc = 1
    incon = st.get('unknown_checks', 0) + len(tot['unrepro']) + tot['status'].get('unsupported', 0) + \
        tot['status'].get('tainted', 0)
    complete = tot['complete_cases'] == tot['cases'] and not incon
    ev = dict(
        property=a.prop, tier=a.tier if a.tier in ('quick', 'thorough') else 'quick', seed=seed,
        level='model_checking', wall_s=round(wall, 2), violations=len(viol),
        assumptions=list(getattr(h, 'ASSUMES', [])) + COMMON,
        coverage=dict(
            states=tot['paths'], transitions=st.get('forks', 0),
            traces_validated_against_impl=tot['validated'],
            samples=tot['samples'] or [dict(case=c) for c in tot['case_list'][:2]],
            exhaustive=bool(complete and not st.get('pinned_paths', 0)),
            bounds=getattr(h, 'BOUNDS', ''),
            functions_encoded={k: sorted(v) for k, v in sorted(tot['executed'].items())},
            queries=st.get('queries', 0), queries_discharged=st.get('discharged', 0),
            queries_unknown=st.get('unknown_checks', 0),
            solver_calls=st.get('solver_calls', 0),
            solver_s=round(st.get('solver_s', 0.0) + st.get('check_s', 0.0), 2),
            cases=tot['cases'], cases_exhausted=tot['complete_cases'], open_prefixes=tot['open_prefixes'],
            path_status=tot['status'], paths_reaching_assertion=tot['reached_paths'],
            vacuous_cases=len(tot['vacuous_cases']), pinned_paths=st.get('pinned_paths', 0),
            encoding_mismatches=len(tot['mismatches']), unreproduced_counterexamples=len(tot['unrepro']),
            notes=dict(sorted(tot['notes'].items(), key=lambda kv: -kv[1])[:20]),
            path_model_replays=st.get('path_model_replays', 0), known_findings_seen=kf_seen))
    if tot['mismatches']:
        ev['coverage']['mismatch_examples'] = tot['mismatches'][:2]
    if tot['unrepro']:
        ev['coverage']['unreproduced_examples'] = tot['unrepro'][:3]
    hz.dump(os.path.join(HERE, 'evidence', f'{a.prop}.json'), ev)
    print(f"{a.prop} {a.tier}: cases {tot['complete_cases']}/{tot['cases']} paths {tot['paths']} "
          f"queries {st.get('queries', 0)} discharged {st.get('discharged', 0)} unknown {st.get('unknown_checks', 0)} "
          f"solver {ev['coverage']['solver_s']}s validated {tot['validated']} mismatches {len(tot['mismatches'])} "
          f"unreproduced {len(tot['unrepro'])} vacuous {len(tot['vacuous_cases'])} wall {wall:.1f}s status {tot['status']}")
    if a.verbose:
        for n, c in ev['coverage']['notes'].items():
            print('  note', c, n)
        for m in tot['mismatches'][:3]:
            print('  mismatch', str(m)[:1500])
        for m in tot['unrepro'][:3]:
            print('  unreproduced', str(m)[:1500])
        if viol:
            print('  ', str(viol[0])[:3000])
    return rc


COMMON = [
    'floating-point numbers are modelled as exact reals with a NaN flag; rounding is outside the claim',
    'numpy, scipy, gsw and file access are replaced by models; encodings are validated per run by replaying path '
    'models on the real code (traces_validated_against_impl)',
    'paths, cases or queries not finished within the time budget are counted (open_prefixes, queries_unknown) and '
    'are not part of the claim',
]

if __name__ == '__main__':
    RC = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(RC)        # do not wait for threads of the worker pool
