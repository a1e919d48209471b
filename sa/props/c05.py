from .common import *
from .. import partition

def run(root, tier):
    t = analyse(root, tier)
    status = {}
    samples = []
    for (func, where), gs in sorted(t['gathers'].items()):
        for g in gs:
            for s in g['status'] or ['no counts']:
                status[s] = status.get(s, 0) + 1
        samples.append('%s %s: %s' % (where, func, '; '.join(sorted({s
            for g in gs for s in g['status']}))))
    own, info = partition.check(root)
    return dict(findings=engine_findings(t, {'gather-count', 'dist-index',
        'dist-robin', 'dist-range',
        'dist-rank', 'collect-replicated',
        'collect-root-only'}) + own,
        assumptions=ASSUMPTIONS, coverage=base_coverage(t,
        'Symbolic extents: the counts of every collecting or scattering '
        'operation are compared, as polynomials over the extents, with the '
        'sizes of the local and global buffers, their data types and the '
        'communicator the items were distributed over; local buffers must be '
        'addressed by local and global arrays by global item numbers; strided '
        'loops must use rank and size of the same communicator. The partition '
        'routine itself is checked symbolically.',
        collecting_sites=len(t['gathers']), comparisons=status,
        distribution_sites=len(t['dist_sites']), partition=info,
        samples=samples[:50]))
