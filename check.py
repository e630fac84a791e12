#!/opt/veriftools/pyvenv/bin/python
"""check.py <property> [--tier quick|thorough] [--case SUBSTR] [-v]

Decides one property by symbolic execution of /repo's current source (see DESIGN.md).
"""
import argparse
import importlib
import json
import os
import re
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, VERIF)


def load_known(pid):
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p, encoding='utf-8'):
            m = re.match(r'known: property=(\S+) id=(\S+) (.*)', line)
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3).strip()
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--case')
    ap.add_argument('--soft', type=float)
    ap.add_argument('-j', type=int, default=min(8, os.cpu_count() or 8))
    ap.add_argument('-v', action='count', default=0)
    a = ap.parse_args()
    pid, tier = a.prop, a.tier
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    module = pid.lower()
    known = load_known(pid)
    evdir = os.path.join(VERIF, 'evidence')
    rdir = os.path.join(evdir, 'replays')
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(pid + '-'):
            os.unlink(os.path.join(rdir, f))

    from symx import boot, runner, sx_sym
    boot.boot()
    sx_sym.TIER = tier
    try:
        mod = importlib.import_module('props.' + module)
    except Exception as e:       # the tree cannot be encoded at all
        print(f'INCONCLUSIVE: cannot load the harness of {pid}: {type(e).__name__}: {e}')
        with open(os.path.join(evdir, pid + '.json'), 'w') as f:
            json.dump({'property': pid, 'tier': tier, 'seed': seed, 'level': 'other', 'wall_s': round(time.time() - t0, 2), 'violations': 0,
                       'coverage': {'explanation': f'nothing explored: {type(e).__name__}: {e}'}}, f, indent=1)
        return 0
    boot.snapshot()
    soft = a.soft or (480 if tier == 'quick' else 2400)
    rep, wall = runner.explore(pid, module, tier, seed, known, only=a.case, soft_s=soft, workers=a.j, replay_dir=rdir, verbose=a.v)

    meta = sx_sym.CASES
    incon = []
    cases = []
    tot = {'paths': 0, 'checks': 0, 'queries': 0, 'replays': 0, 'solver_s': 0.0, 'unsupported': 0}
    for n, c in sorted(rep.cases.items()):
        missing = [r for r in meta[n]['reach'] if r not in c['reached']]
        done = c['paths'].get('done', 0)
        cases.append({'case': n, 'paths': dict(c['paths']), 'assertions': c['checks'], 'queries': c['queries'],
                      'solver_s': round(c['solver_s'], 2), 'replayed_on_real_code': c['replays'], 'reached': sorted(c['reached']),
                      'unreached': missing, 'partial': dict(c['why'].most_common(8)), 'notes': sorted(c['notes']),
                      'unexplored_prefixes': rep.unexplored.get(n, 0), 'bounds': meta[n].get('bounds', '')})
        tot['paths'] += done
        tot['unsupported'] += c['paths'].get('unsupported', 0) + c['paths'].get('budget', 0)
        for k in ('checks', 'queries', 'replays', 'solver_s'):
            tot[k] += c[k]
        if missing and not rep.violation:
            incon.append(f'{n}: not reached: {missing}')
        if c['notes']:
            incon.append(f'{n}: {sorted(c["notes"])}')
    if a.v:
        for c in cases:
            print(' ', c['case'], c['paths'], 'checks', c['assertions'], 'q', c['queries'], f"{c['solver_s']}s", 'unexpl', c['unexplored_prefixes'],
                  'UNREACHED ' + str(c['unreached']) if c['unreached'] else '', c['partial'] or '', c['notes'] or '')
        for m in rep.mismatches[:6 if a.v < 2 else 20]:
            print('  MISMATCH', m['req']['case'], m['label'], json.dumps(m['req']['witness'])[:300], m['detail'][:1200])
    if rep.spurious:
        incon.append(f'{rep.nspurious} symbolic counterexample(s) did not reproduce on the real code')
    if rep.mismatches:
        incon.append(f'{len(rep.mismatches)} encoding mismatch(es)')
    if rep.unexplored:
        incon.append('unexplored prefixes: ' + str(dict(rep.unexplored)))
    if tot['unsupported']:
        incon.append(f"{tot['unsupported']} path(s) only partly encoded")

    doc = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': 'Symbolic execution of the current source of /repo (functions_encoded), one SMT query per feasible branch side '
                           'and per assertion; every completed path was also replayed with a model of its path condition on the real code '
                           'and its observations compared (replays). ' + (mod.__doc__ or '').strip(),
            'technique': 'bounded symbolic execution of the Python source, z3 ' + __import__('z3').get_version_string(),
            'source_digest': boot.source_digest(),
            'functions_encoded': sorted(f for f in rep.funcs if f.startswith(('soapfish', 'iso8601'))),
            'bounds': getattr(mod, 'BOUNDS', ''),
            'outside_bounds': getattr(mod, 'OUTSIDE', ''),
            'paths_completed': tot['paths'], 'paths_partly_encoded': tot['unsupported'], 'assertions': tot['checks'], 'queries_discharged': tot['queries'],
            'solver_seconds': round(tot['solver_s'], 2), 'replays': tot['replays'], 'exhausted': not rep.unexplored and not rep.timed_out,
            'cases': cases, 'samples': rep.samples[:12], 'known_findings_seen': rep.knowns,
            'spurious_counterexamples': rep.spurious[:10], 'encoding_mismatches': rep.mismatches[:10], 'inconclusive': incon,
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])) + [
            'symx models of re, datetime, lxml trees, dict/set/str/int and of decimal literals (validated by replaying every completed path on the real code)',
            'z3 and CPython are correct'],
        'wall_s': round(time.time() - t0, 2),
        'violations': 0,
    }
    if rep.violation:
        v = rep.violation
        doc['violations'] = 1
        doc['coverage']['counterexamples'] = [{'label': v['label'], 'case': v['case'], 'replay': v['replay'], 'witness': v['witness'], 'detail': v['detail'][-1500:]}]
    os.makedirs(evdir, exist_ok=True)
    with open(os.path.join(evdir, pid + '.json'), 'w') as f:
        json.dump(doc, f, indent=1, sort_keys=True, default=str)

    for k in sorted(rep.knowns):
        print(f'KNOWN-FINDING: property={pid} {known.get(k, k)}')
    if rep.violation:
        v = rep.violation
        print(f"{pid}: {v['case']}: {v['label']}")
        print('  witness: ' + json.dumps(v['witness'])[:1500])
        print(f"VIOLATION property={pid} replay={v['replay']}")
        return 1
    for i in incon:
        print('INCONCLUSIVE:', i)
    print(f"{pid} {tier}: held; {tot['paths']} paths, {tot['checks']} assertions, {tot['queries']} queries, "
          f"{tot['solver_s']:.1f}s solver, {tot['replays']} replays, {doc['wall_s']}s")
    return 0


if __name__ == '__main__':
    sys.exit(main())
