from ..smearing import check

def run(root, tier):
    findings, info = check(root)
    return dict(findings=findings, assumptions=['the definitions of the '
        'broadening functions are those of PWscf and of the docstrings; sums '
        'over Matsubara frequencies are compared term by term for a few '
        'terms, Methfessel-Paxton functions up to fourth order'], coverage=
        dict(explanation='The formula of each broadening function is extracted '
        'from its definition by substitution, with the argument and the '
        'parameters as unknowns, and differentiated symbolically; derivatives '
        'and documented definitions are compared as functions (identity '
        'testing of the terms), including the ranges where exponentials would '
        'overflow and complex arguments.', **info))
