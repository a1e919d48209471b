from ..transforms import check
from .. import cells

def run(root, tier):
    findings, info = check(root)
    # order of per-atom data decided by substitution of definitions (C20)
    more, data = cells.check(root)
    known = {f['func'] for f in findings}
    findings = findings + [f for f in more if 'attribute' in f['message']
        and f['func'] not in known]
    return dict(findings=findings, coverage=dict(info, explanation='every '
        'public routine that returns a new model followed along all ways '
        '(called routines expanded); attributes set on the result compared '
        'with the settings of the constructor and with what other routines '
        'read; positions of matrix blocks, order of per-atom data, sign of '
        'shifts, and axes of reorderings compared among each other; per-atom '
        'data of transformed models evaluated for unknown data',
        attributes=data.get('identities')))
