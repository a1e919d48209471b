from ..models import check

def run(root, tier):
    findings, info = check(root)
    return dict(findings=findings, assumptions=['a time-reversal-symmetric '
        'gauge, in which matrices at opposite momenta are complex conjugates, '
        'is the convention of all built-in models'], coverage=dict(
        explanation='The elements of the model matrices are extracted from '
        'the sources by substitution as terms in unknown momenta (and unknown '
        'data for general models) and compared with what Hermiticity, '
        'periodicity, time reversal, sum rules and Fourier series require '
        '(identity testing of terms, no code is run). The data of a generic '
        'model transformed from a mesh, with a Wigner-Seitz table of fixed '
        'lattice vectors and degeneracies, are summed again and compared with '
        'the input.', **info))
