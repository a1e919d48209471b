from ..polar import check

def run(root, tier):
    findings, info = check(root)
    return dict(findings=findings, assumptions=[],
        coverage=dict(explanation='The long-range parts of the dynamical '
        'matrix and of the electron-phonon coupling are extracted from the '
        'sources by substitution, with unknown Born charges, quadrupoles, '
        'positions and masses; lattice vectors, dielectric tensor and momenta '
        'are constants that are propagated. The resulting terms are compared '
        'to the sums over reciprocal lattice vectors of the literature '
        '(identity testing of terms, no code is run).', **info))
