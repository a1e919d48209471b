"""Shared parts of the engine-based checks."""

from ..engine import analyse

ASSUMPTIONS = [
    'all processes call a public routine with equal arguments, except '
        'communicators',
    'NumPy/SciPy calls are deterministic, do not communicate, and modify only '
        'the arguments they are documented to modify',
    'loops that contain collective operations run at least once',
    'branch conditions that do not depend on the process are equal on all '
        'processes',
    ]

def engine_findings(t, rules):
    out = []
    for (rule, func, construct), message in sorted(t['findings'].items()):
        if rule in rules:
            out.append(dict(rule=rule, func=func, construct=construct,
                message=message))
    return out

def base_coverage(t, explanation, **more):
    c = dict(explanation=explanation, modules=t['modules'],
        routines=t['functions'], calling_contexts=len(t['entries']),
        routine_exits_checked=t['returns'])
    c.update(more)
    if t['errors']:
        c['not_analysed'] = sorted(map(str, t['errors']))
    return c
