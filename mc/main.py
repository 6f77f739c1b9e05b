"""check <property> [--tier quick|thorough] | check --replay FILE"""

import argparse
import importlib
import json
import os
import re
import shutil
import signal
import sys

from mc import engine, sut

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.environ.get('MC_EVIDENCE', os.path.join(HERE, 'evidence'))
FINDINGS = os.path.join(HERE, 'known_findings.txt')
GROUPS = {'C': 'catalogue', 'D': 'declustering', 'E': 'values', 'F': 'faults',
          'G': 'geometry', 'J': 'values', 'K': 'purity', 'L': 'storage',
          'M': 'maxmag', 'N': 'nrml', 'P': 'filtering', 'R': 'recurrence',
          'S': 'completeness', 'V': 'reports', 'W': 'workflow',
          'L02': 'recovery'}


def known_findings(prop):
    """The recorded findings of a property: {identifier: what fails}."""
    known = {}
    with open(FINDINGS) as source:
        for line in source:
            match = re.match(r'known: property=(\S+) id=(\S+) (.*)', line)
            if match and match.group(1) == prop:
                known[match.group(2)] = match.group(3).strip()
    return known


def load(prop):
    """The check of a property."""
    module = importlib.import_module('mc.checks.' + (
        GROUPS.get(prop) or GROUPS[prop[0]]))
    return module.CHECKS[prop]


def main():
    """Run one check."""
    parser = argparse.ArgumentParser()
    parser.add_argument('property', nargs='?')
    parser.add_argument('--tier', choices=('quick', 'thorough'),
                        default=os.environ.get('VERIF_TIER') or 'quick')
    parser.add_argument('--workers', type=int,
                        default=min(8, os.cpu_count() or 1))
    parser.add_argument('--replay')
    args = parser.parse_args()
    try:
        seed = int(os.environ.get('VERIF_SEED') or 0)
    except ValueError:
        seed = 0
    start = engine.now()
    if args.replay:
        return replay(args.replay)
    prop, tier = args.property, args.tier
    replays = os.path.join(EVIDENCE, 'replay')
    os.makedirs(replays, exist_ok=True)
    for name in os.listdir(replays):
        if name.startswith(prop + '-'):
            os.remove(os.path.join(replays, name))
    sut.load()
    check = load(prop)
    known = known_findings(prop)
    scenarios = check['scenarios'](tier)
    results = engine.explore_all(scenarios, tier, known, args.workers)

    violations, findings, parts, samples = [], {}, {}, []
    for (name, _, budget), result in zip(scenarios, results):
        for broken in result['violations']:
            violations.append((name, broken))
        for ident, message in result['findings'].items():
            findings.setdefault(ident, message)
        parts[name] = {
            'states': result['nodes'], 'transitions': result['calls'],
            'traces': result['traces'],
            'distinct_outcomes': len(result['outcomes']),
            'deviation_budget': budget, 'exhausted': result['complete']}
        samples += [dict(case, scenario=name)
                    for case in result['samples'][:2]]
    coverage = {
        'states': sum(r['nodes'] for r in results),
        'transitions': sum(r['calls'] for r in results),
        'traces_validated_against_impl': sum(r['traces'] for r in results),
        'distinct_outcomes': sum(len(r['outcomes']) for r in results),
        'exhaustive': all(r['complete'] for r in results),
        'samples': samples[:8],
        'rule': 'states: distinct nodes of the choice trees (one per distinct '
                'sequence of choices); transitions: operations of the real '
                'code executed; traces: complete paths executed on the real '
                'code whose observations agreed with the reference model',
        'bounds': check['bounds'][tier],
        'scenarios': parts,
        'known_findings_seen': findings,
    }
    engine.write_json(os.path.join(EVIDENCE, prop + '.json'), {
        'property': prop, 'tier': tier, 'seed': seed,
        'level': 'model_checking', 'coverage': coverage,
        'assumptions': check['assumptions'],
        'violations': len(violations),
        'wall_s': round(engine.now() - start, 3)})
    print('%s %s: %d states, %d transitions, %d traces, %d outcomes, %.1f s' % (
        prop, tier, coverage['states'], coverage['transitions'],
        coverage['traces_validated_against_impl'],
        coverage['distinct_outcomes'], engine.now() - start))
    for ident in sorted(findings):
        print('KNOWN-FINDING: property=%s %s' % (prop, known[ident]))
    for number, (name, broken) in enumerate(violations[:5]):
        path = os.path.join(replays, '%s-%d.json' % (prop, number))
        engine.write_json(path, dict(
            broken, property=prop, tier=tier, scenario=name))
        print('%s: %s' % (name, engine.clip(broken['message'])))
        print('VIOLATION property=%s replay=%s' % (prop, path))
    if not violations and not coverage['traces_validated_against_impl']:
        sys.stderr.write('nothing was explored\n')
        return 4
    return 1 if violations else 0


def replay(path):
    """Execute one recorded path again."""
    with open(path) as source:
        record = json.load(source)
    sut.load()
    check = load(record['property'])
    signal.signal(signal.SIGALRM, engine._alarm)
    for name, function, budget in check['scenarios'](record['tier']):
        if name == record['scenario']:
            if record['message'].startswith('the code under test'):
                # takes the process down: in one of its own
                if engine._dies((name, function, budget), record['tier'],
                                record['path']):
                    print(record['message'])
                    print('VIOLATION property=%s replay=%s' % (
                        record['property'], path))
                    return 1
                print('the property holds on this path')
                return 0
            run = engine.Run(record['path'], budget, record['tier'])
            broken = engine._execute(function, run)
            print(json.dumps(engine._describe(run), indent=1, default=repr))
            if not broken and run.findings:
                listed = known_findings(record['property'])
                broken = '; '.join(m for i, m in run.findings
                                   if i not in listed) or None
            print(broken or 'the property holds on this path')
            if broken:
                print('VIOLATION property=%s replay=%s' % (
                    record['property'], path))
                return 1
            return 0
    sys.stderr.write('no scenario %s\n' % record['scenario'])
    return 4


if __name__ == '__main__':
    sys.exit(main())
