#!/usr/bin/env python3
"""Decide one property: python3 check.py ID (exit 0: holds, 1: violated)."""

import importlib
import json
import os
import re
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
warnings.simplefilter('ignore')

from sa.project import Project, AnalysisError

def known_findings(pid):
    """Findings recorded as genuine defects: rule|function|construct."""
    known = {}
    path = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line.strip())
            if m and m.group(1) == pid:
                known[m.group(2)] = m.group(3)
    return known

def slug(text):
    return re.sub(r'\s+', '_', text)

def main():
    pid = sys.argv[1]
    root = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_REPO',
        '/repo')
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
        root = '/repo' if root.startswith('--') else root
    t0 = time.time()
    module = importlib.import_module('sa.props.' + pid.lower())
    try:
        result = module.run(root, tier)
    except (AnalysisError, SyntaxError) as e:
        print('ERROR: %s' % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2

    known = known_findings(pid)
    status = 0
    violations = 0
    out = os.path.join(HERE, 'evidence')
    os.makedirs(out, exist_ok=True)

    for f in sorted(result['findings'], key=lambda f: (f['rule'], f['func'],
            f['construct'])):
        key = slug('%s|%s|%s' % (f['rule'], f['func'], f['construct']))
        if key in known:
            print('KNOWN-FINDING: property=%s %s' % (pid, known[key]))
            continue
        violations += 1
        status = 1
        name = 'replay-%s-%d.json' % (pid, violations)
        with open(os.path.join(out, name), 'w') as data:
            json.dump(dict(property=pid, key=key, rerun='python3 check.py %s'
                % pid, **f), data, indent=1)
        print('%s: %s' % (key, f['message']))
        print('VIOLATION property=%s replay=evidence/%s' % (pid, name))

    coverage = dict(result['coverage'])
    with open(os.path.join(out, pid + '.json'), 'w') as data:
        json.dump(dict(property=pid, tier='thorough' if tier == 'thorough'
            else 'quick', seed=int(os.environ.get('VERIF_SEED', '1') or 1),
            level='other', coverage=coverage, assumptions=result.get(
            'assumptions', []), wall_s=round(time.time() - t0, 2),
            violations=violations), data, indent=1)
    print('%s: %s, %d finding(s) [%.1f s]' % (pid, 'violated' if status else
        'holds', len(result['findings']), time.time() - t0))
    return status

if __name__ == '__main__':
    sys.exit(main())
