"""Runs the SPMD analysis over the whole package, in parallel."""

import multiprocessing
import os
import sys
import time

from .project import Project, AnalysisError
from . import spmd

_driver = None

def _init(root, tier):
    global _driver
    sys.setrecursionlimit(20000)
    import warnings
    warnings.simplefilter('ignore')
    spmd.TIER = tier
    _driver = spmd.Driver(Project(root))

def plain(r):
    """Findings and counts as plain data."""
    return dict(
        findings=[(k, m) for k, m in r.findings.items()],
        effects=[(k, [dict(what=e['what'], single=bool(e['single']),
            gtaint=sorted(e['gtaint']), ntaint=sorted(e['ntaint']),
            only=sorted(map(str, e['only']))) for e in es])
            for k, es in r.effects.items()],
        gathers=[(k, [dict(op=g['op'], comm=g['comm'], status=[
            s.split(':')[0] for s in g['status']]) for g in gs])
            for k, gs in r.gathers.items()],
        muts=[(k, (m[3], m[4], m[5])) for k, m in r.muts.items()],
        commcalls=[(c[0], c[1], c[2], c[4], c[5]) for c in
            r.commcalls.values()],
        events=[(e[0], e[1].name, e[2], e[3]) for e in r.events.values()],
        entries=[(q, str(fl), c) for q, fl, c, dt in r.entries],
        div_checks=r.div_checks, returns=r.returns, errors=r.errors,
        dist_sites=sorted(map(str, r.dist_sites)),
        shared_sites=sorted(map(str, r.shared_sites)),
        robin=sorted(map(str, getattr(r, 'robin', 0))) if not isinstance(
            getattr(r, 'robin', 0), int) else getattr(r, 'robin', 0))

def _work(qualname):
    d = _driver
    d.run = spmd.Run(d.project)
    d.exact = qualname
    try:
        d.go(qualname)
    except AnalysisError as e:
        d.run.errors.append((qualname, repr(e)))
        d.I.active.clear()
    p = plain(d.run)
    p['entries'] = p['entries']
    return p

def analyse(root, tier='quick', processes=None):
    t0 = time.time()
    sys.setrecursionlimit(20000)
    spmd.TIER = tier
    project = Project(root)
    names = sorted({f.qualname for f in spmd.Driver(project).entries()})
    heavy = ('md.', 'diagrams.', 'elph.', 'dispersion.', 'ph.', 'el')
    names.sort(key=lambda n: not n.startswith(heavy))
    n = processes or min(8, os.cpu_count() or 1)
    total = dict(findings={}, effects={}, gathers={}, muts={}, commcalls=set(),
        events=set(), entries=[], div_checks=0, returns=0, errors=[],
        dist_sites=set(), shared_sites=set(), robin=0)
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(n, _init, (root, tier)) as pool:
        for p in pool.imap_unordered(_work, names, chunksize=1):
            for k, m in p['findings']:
                if k not in total['findings'] or m < total['findings'][k]:
                    total['findings'][k] = m
            for what in 'effects', 'gathers':
                for k, v in p[what]:
                    total[what].setdefault(k, []).extend(v)
            for k, m in p['muts']:
                total['muts'].setdefault(k, m)
            for what in 'commcalls', 'events', 'dist_sites', 'shared_sites':
                total[what] |= set(p[what])
            total['entries'] += p['entries']
            total['errors'] += p['errors']
            for what in 'div_checks', 'returns':
                total[what] += p[what]
            if isinstance(p['robin'], int):
                total['robin'] += p['robin']
    # a routine that writes a file on all processes is a primitive, for whose
    # use the callers are responsible (and analysed), if some caller passes a
    # file name that differs between processes
    primitives = {k[0] for k, es in total['effects'].items()
        if any(e['ntaint'] for e in es)}
    for k in list(total['findings']):
        if k[0] == 'file-writer-own':
            m = total['findings'].pop(k)
            if k[1] not in primitives:
                total['findings'].setdefault(('file-writer', *k[1:]), m)
    total['wall'] = time.time() - t0
    total['functions'] = len(names)
    total['modules'] = len(project.modules)
    return total
