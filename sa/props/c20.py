from ..cells import check

def run(root, tier):
    findings, info = check(root)
    return dict(findings=findings, assumptions=['all real-space data are '
        'nonzero and independent of each other'], coverage=dict(
        explanation='The methods that map models onto supercells and back, '
        'reorder or shift their basis, merge repeated lattice vectors or '
        'symmetrize them are extracted from the sources by substitution, for '
        'a set of lattice vectors, eight supercells (diagonal, skewed and '
        'left-handed) and unknown data. The terms found for each matrix '
        'element are compared with those of the original model for the '
        'corresponding cells (identity testing of terms, no code is run).',
        **info))
