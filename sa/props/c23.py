from ..meshes import check

def run(root, tier):
    findings, info = check(root)
    return dict(findings=findings, assumptions=[],
        coverage=dict(explanation='The functions that interpolate data on and '
        'integrate over meshes are extracted from the sources by substitution '
        'for unknown data; conditions that depend on the data are decided for '
        'the case of a given ordering (generic and degenerate). The resulting '
        'terms are compared to barycentric and Fourier interpolation and to '
        'integrals over isolines of triangles (identity testing of terms, no '
        'code is run).', **info))
