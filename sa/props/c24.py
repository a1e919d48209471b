from ..zones import check

def run(root, tier):
    findings, info = check(root)
    return dict(findings=findings, assumptions=[],
        coverage=dict(explanation='The functions that find equivalent and '
        'irreducible mesh points, symmetries of data, shortest lattice '
        'vectors, paths through and pictures of the Brillouin zone are '
        'extracted from the sources by substitution; data are unknown, the '
        'sizes of meshes are constants that are propagated. The resulting '
        'terms are compared to the point group, the Wigner-Seitz '
        'construction, straight lines and barycentric interpolation (identity '
        'testing of terms, no code is run).', **info))
