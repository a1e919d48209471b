from ..response import check

def run(root, tier):
    findings, info = check(root)
    return dict(findings=findings, assumptions=['q points are multiples of '
        'the mesh spacing (of any sign and magnitude)'],
        coverage=dict(explanation='The functions that calculate '
        'susceptibilities, self-energies and diagrams are extracted from the '
        'sources by substitution for unknown energies, couplings, '
        'eigenvectors, and temperatures on small meshes. The resulting terms '
        'are compared to the sums that define the quantities, for generic and '
        'degenerate energies (identity testing of terms, no code is run).',
        **info))
