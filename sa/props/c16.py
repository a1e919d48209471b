from ..options import check

def run(root, tier):
    findings, info = check(root)
    return dict(findings=findings, assumptions=['the documented values are '
        'those listed in sa/options.py: broadening names of PWscf plus '
        'Lorentzian and Heaviside, Bravais-lattice indices of PWscf, lattice '
        'angles of 60, 90, and 120 degrees'], coverage=dict(explanation=
        'Constant propagation with path splitting through each routine for '
        'every documented value: the value must select an alternative, every '
        'variable read afterwards must be defined, no dictionary lacks it and '
        'not all paths may end in an error or without result.', **info))
