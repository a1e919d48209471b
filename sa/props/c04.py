from .common import *
from .. import partition

def run(root, tier):
    t = analyse(root, tier)
    own, info = partition.shared(root)
    return dict(findings=engine_findings(t, {'shared-exclusive',
        'shared-sync'}) + [f for f in engine_findings(t, {'result-taint'})
        if 'rank:images(' in f['message']] + own, assumptions=ASSUMPTIONS, coverage=base_coverage(t,
        'Ownership/typestate analysis of arrays in node-shared memory: each '
        'write must be under a condition selecting one process per node (or '
        'one process at all); written content is pending until a barrier that '
        'covers the node; pending content must not be used by all processes '
        'or handed out; content that '
        'is written on one node must be broadcast among the nodes.', shared_allocation_sites=len(t['shared_sites']),
        communicators=info,
        samples=t_samples(t)))

def t_samples(t):
    return sorted(t['shared_sites'])[:20]
