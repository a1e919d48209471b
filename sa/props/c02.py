from .common import *

def run(root, tier):
    t = analyse(root, tier)
    n = [e for e in t['entries']]
    return dict(findings=engine_findings(t, {'result-taint', 'bcast-uninit', 'bcast-extent',
        'result-uninit'}),
        assumptions=ASSUMPTIONS, coverage=base_coverage(t,
        'Interprocedural taint analysis: every value that only some processes '
        'read, computed, received or drew at random is tracked until a '
        'collective operation replicates it; at every routine exit with '
        'broadcasting on, the result, the attributes of the object and of '
        'returned objects, and modified arguments must be untainted.',
        broadcast_sites=len({e for e in t['events']
            if 'cast' in e[0] or e[0].startswith(('all', 'All'))}),
        samples=['%s with %s on %s' % e for e in sorted(n)[:20]]))
