from .common import *

def run(root, tier):
    t = analyse(root, tier)
    samples = []
    for (func, text, where), es in sorted(t['effects'].items()):
        samples.append('%s %s: %s, %d path(s), confined to one process: %s'
            % (where, func, text, len(es), all(e['single'] for e in es)))
    return dict(findings=engine_findings(t, {'file-writer'}),
        assumptions=ASSUMPTIONS, coverage=base_coverage(t,
        'Effect analysis: every call that creates, overwrites, appends to or '
        'deletes a file (including external commands) must be reached only '
        'under a condition that selects one process of the world or of the '
        'communicator handed in, or with a file name that differs between '
        'processes.', file_effect_sites=len(t['effects']),
        paths_to_file_effects=sum(map(len, t['effects'].values())),
        samples=samples[:40]))
