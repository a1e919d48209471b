from .common import *

def run(root, tier):
    t = analyse(root, tier)
    sites = sorted({'%s %s on %s' % (w, op, c) for op, c, w, f in t['events']})
    return dict(findings=engine_findings(t, {'collective-mismatch',
        'comm-scope'}), assumptions=ASSUMPTIONS, coverage=base_coverage(t,
        'Interprocedural taint analysis of rank dependence; the trees of '
        'collective operations of both sides of every process-dependent '
        'branch, loop, early exit and handler are compared, for every routine '
        'and calling context (flags, sub-communicator).',
        process_dependent_conditions_compared=t['div_checks'],
        collective_call_sites=len(sites), samples=sites[:20]))
