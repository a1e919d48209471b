from ..lattices import check

def run(root, tier):
    findings, info = check(root)
    return dict(findings=findings, assumptions=['INPUT_PW of Quantum ESPRESSO '
        'defines the lattice vectors; special points as in the cited '
        'compilation'], coverage=dict(explanation='Formulas for lattice '
        'vectors, reciprocal vectors, volumes, supercell vectors, rotations '
        'and distances are extracted as terms over the unknown lattice '
        'parameters by constant propagation and compared with the definitions '
        'by identity testing of the terms; tables of special points are '
        'compared entry by entry.', **info))
