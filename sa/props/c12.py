from ..masks import energies

def run(root, tier):
    findings, info = energies(root)
    return dict(findings=findings, coverage=dict(info, explanation='every '
        'masked division and masked assignment: masks as formulas over '
        '"divisor exceeds tolerance", branch values compared as rational '
        'functions of generic occupations'))
