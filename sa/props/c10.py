from .. import roundtrip
from ..formats import PAIRS, run_pair

def run(root, tier):
    program = roundtrip.Program(root)
    findings, unresolved = [], []
    runs = elements = judged = 0
    limit = 64 if tier == 'quick' else 1024
    for pair in PAIRS:
        out = run_pair(program, pair, limit)
        runs += out['runs']
        elements += out['elements']
        judged += out['runs'] > 0 or bool(out['findings'])
        unresolved.extend(sorted(set(out['unresolved'])))
        seen = set()
        for stage, message, path in out['findings']:
            construct = '%s: %s' % (pair.name, message.split(':')[0])
            if construct in seen:
                continue
            seen.add(construct)
            findings.append(dict(rule='round-trip', func=pair.read
                if stage == 'read' else pair.write, construct=construct,
                message='%s -> %s: %s' % (pair.write, pair.read, message)))
    return dict(findings=findings, assumptions=['fields are wide enough for '
        'the numbers written to them', 'regular expressions which parse '
        'Fortran namelists are summarized by a model',
        'cases of the writer which are not understood are not judged'],
        coverage=dict(explanation='The text produced by each writer is '
            'summarized as a tree of literals, formatted terms, and repeated '
            'records; the reader is evaluated abstractly on this tree, and '
            'what it stores is compared with the arguments of the writer '
            'element by element for unknown indices.',
            pairs=len(PAIRS), pairs_judged=judged, paths=runs,
            elements_compared=elements, unresolved=unresolved))
