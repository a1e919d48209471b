from ..momenta import momenta

def run(root, tier):
    findings, info = momenta(root)
    return dict(findings=findings, coverage=dict(info, explanation='period '
        'typing: every rounded momentum, every reduction modulo a number of '
        'mesh points, and every use as index, shift, or slice'))
