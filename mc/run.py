"""
Runs the check of one property.

    run.py <property> [quick|thorough]
    run.py <property> --replay <file>

Exit status 0: the property held on everything explored (known findings are reported as
KNOWN-FINDING lines). Exit status 1 and a VIOLATION line: the property is broken.
"""
import importlib
import json
import os
import sys
import time

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import core


def load_known():
    """Lines 'known: property=<id> key=<key> <description>' of the known findings file"""
    known = {}
    with open(os.path.join(core.VERIF, 'known_findings.txt'), encoding='utf8') as f:
        for line in f:
            if line.startswith('known:'):
                parts = line[len('known:'):].strip().split(' ', 2)
                prop = parts[0].split('=', 1)[1]
                key = parts[1].split('=', 1)[1]
                known.setdefault(prop, {})[key] = parts[2].strip()
    return known


def main():
    prop = sys.argv[1]
    start = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    replay_file = None
    if len(sys.argv) > 2:
        if sys.argv[2] == '--replay':
            replay_file = sys.argv[3]
        else:
            tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1'))

    try:
        mod = importlib.import_module(f'checks.{prop.lower()}')
    except Exception:
        # The code under test cannot even be imported
        import traceback
        msg = traceback.format_exc()
        if 'checks' in msg and 'pyfileconf' not in msg:
            raise
        return report(prop, tier, seed, start, 'exploration', {
            'evaluations': 1, 'distinct_nontrivial': 1, 'rule': 'importing the package', 'samples': ['import pyfileconf']
        }, [{'system': 'import', 'ops': [], 'message': msg}], [])

    if replay_file:
        with open(replay_file, encoding='utf8') as f:
            rec = json.load(f)
        systems = {s.name: s for t in ('quick', 'thorough') for s in mod.systems(t)}
        if rec['system'].startswith('known:'):
            out = core.run_in_child(lambda: mod.KNOWN[rec['system'][6:]]())
            print(out)
            return 1 if out.get('result') or out.get('error') else 0
        step, msg = core.replay(systems[rec['system']], rec['ops'])
        print('step', step, 'of', len(rec['ops']))
        print(msg)
        return 1 if step is not None else 0

    budget = 600 if tier == 'quick' else 5400
    only = os.environ.get('PFC_SYSTEM')
    systems = mod.systems(tier)
    if only:
        systems = [s for s in systems if only in s.name]
    res = core.explore(systems, start + budget)
    if res['errors'] and not res['violations']:
        print('the check itself failed:', res['errors'][0])
        return 2

    violations = []
    if res['violations']:
        shortest = min(res['violations'], key=lambda v: len(v['ops']))
        make = lambda: [s for s in mod.systems(tier) if s.name == shortest['system']][0]
        ops, msg = core.minimize(make, shortest['ops'])
        rec = dict(shortest, ops=ops)
        if msg is not None:
            rec['message'] = msg
        else:
            rec['note'] = 'did not fail again when replayed on its own'
        violations.append(rec)

    findings = []
    known = load_known().get(prop, {})
    for key, func in getattr(mod, 'KNOWN', {}).items():
        out = core.run_in_child(func)
        problem = out.get('error') or out['result']
        if problem:
            if key in known and not out.get('error'):
                findings.append(f'{known[key]}')
            else:
                violations.append({'system': 'known:' + key, 'ops': [], 'message': problem})

    level = getattr(mod, 'LEVEL', 'model_checking')
    per_system = {}
    if level == 'model_checking':
        coverage = {
            'states': res['states'],
            'transitions': res['transitions'],
            'traces_validated_against_impl': res['checks'],
            'operations_executed': res['operations'],
            'exhaustive': not res['truncated'],
        }
    else:
        coverage = {
            'evaluations': res['checks'],
            'distinct_nontrivial': res['nontrivial'],
            'rule': mod.RULE,
            'exhaustive': not res['truncated'],
        }
    coverage['samples'] = res['samples'] or [{'system': s.name, 'ops': []} for s in systems[:1]]
    coverage['bounds'] = [
        {'system': s.name, 'depth': s.depth, 'note': getattr(s, 'note', '')} for s in systems
    ][:60]
    return report(prop, tier, seed, start, level, coverage, violations, findings, getattr(mod, 'ASSUMPTIONS', []))


def report(prop, tier, seed, start, level, coverage, violations, findings, assumptions=()):
    os.makedirs(os.path.join(core.VERIF, 'evidence'), exist_ok=True)
    wall = round(time.time() - start, 2)
    evidence = {
        'property': prop,
        'tier': tier if tier in ('quick', 'thorough') else 'quick',
        'seed': seed,
        'level': level,
        'coverage': coverage,
        'assumptions': list(assumptions),
        'wall_s': wall,
        'violations': len(violations),
    }
    with open(os.path.join(core.VERIF, 'evidence', f'{prop}.json'), 'w', encoding='utf8') as f:
        json.dump(evidence, f, indent=1, default=repr)
        f.write('\n')
    for finding in findings:
        print(f'KNOWN-FINDING: property={prop} {finding}')
    for v in violations:
        path = os.path.join(core.VERIF, 'evidence', f'{prop}.replay.json')
        with open(path, 'w', encoding='utf8') as f:
            json.dump(dict(v, property=prop), f, indent=1)
        print(f'VIOLATION property={prop} replay=evidence/{prop}.replay.json')
        print(json.dumps(v['ops']))
        msg = v['message']
        print(msg if len(msg) < 2500 else msg[:1000] + ' [...] ' + msg[-1500:])
        break
    if not violations:
        print(f'{prop}: held. ' + ', '.join(
            f'{k}={v}' for k, v in coverage.items() if isinstance(v, (int, bool))
        ) + f', wall={wall}s')
    return 1 if violations else 0


if __name__ == '__main__':
    sys.exit(main())
