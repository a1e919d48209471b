from ..sumrules import check

def run(root, tier):
    findings, info = check(root)
    return dict(findings=findings, assumptions=['force constants are '
        'symmetric on input (the same in opposite directions)'],
        coverage=dict(explanation='The routines that correct force constants, '
        'effective charges and coupling are extracted from the sources by '
        'substitution for unknown data (and unknown masses) on fixed small '
        'lattices. The sums of the resulting terms have to vanish identically '
        '(identity testing of terms, no code is run).', **info))
