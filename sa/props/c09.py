from ..stale import check

def run(root, tier):
    findings, info = check(root)
    return dict(findings=findings, coverage=dict(info, explanation='every '
        'write to an attribute of a model followed along all ways through '
        'every public routine (called routines expanded), against '
        'dependencies read off the evaluating and preparing routines'))
