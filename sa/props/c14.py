from ..constants import check

def run(root, tier):
    findings, info = check(root)
    return dict(findings=findings, assumptions=['CODATA 2014, 2018 and 2022 '
        'recommended values are the reference'], coverage=dict(explanation=
        'Module-level constant expressions are folded across modules without '
        'importing them; exact constants must equal the SI definition, '
        'measured ones a CODATA edition, derived ones the value that follows '
        'from the base constants, and repeated literals the constant.',
        **info))
