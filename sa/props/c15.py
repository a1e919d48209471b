"""C15: matrices are stored in the units stated by the flags of the model."""

from ..units import check

def run(root, tier):
    findings, info = check(root)
    return dict(findings=findings,
        coverage=dict(routines=len(info['routines']), walks=info['walks'],
            obligations=dict(sorted(info['checked'].items())),
            analysed=info['routines'],
            rule='for each setting of the flags, arrays in models, files, and '
            'arguments have the powers of Rydberg energy and masses that '
            'belong to the setting'),
        assumptions=[
            'formulas of other modules are not followed',
            'values that depend on an undecided condition are not judged if '
            'the powers differ',
            ])
