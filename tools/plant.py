#!/usr/bin/env python3
"""Make and verify planted bugs: plant.py SPEC.py ... (development aid).

A spec defines ID, PROP, EDITS, NEEDS, BREAKS, DEMO, NP (0: serial) and
optionally FILES. Everything is verified in a scratch copy of /repo.
"""
import json, os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
ENV = '''export HOME=/root PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR=/tmp
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1
export OMPI_MCA_btl=self,vader OMPI_MCA_btl_vader_single_copy_mechanism=none
export OMPI_MCA_pml=ob1 OMPI_MCA_plm=isolated
export OMPI_MCA_hwloc_base_binding_policy=none
export OMPI_MCA_rmaps_base_oversubscribe=1 OMPI_MCA_mpi_yield_when_idle=1
'''

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE,
        stderr=subprocess.STDOUT, **kw)

def demo_text(np_):
    run = '%s "$HERE/demo.py"' % PY
    if np_:
        run = 'mpirun -n %d %s' % (np_, run)
    return ('#!/bin/bash\n# Run in the repository; works in a scratch folder '
        'of its own.\nHERE=$(cd "$(dirname "$0")" && pwd)\nREPO=$PWD\n'
        + ENV + 'WORK=$(mktemp -d) || exit 1\ntrap \'rm -rf "$WORK"\' EXIT\n'
        'export TMPDIR=$WORK PYTHONPATH=$REPO\ncd "$WORK" || exit 1\n'
        'timeout -k 5 100 ' + run + ' < /dev/null\n')

def main():
    ok = True
    for path in sys.argv[1:]:
        ns = {}
        exec(open(path).read(), ns)
        ok = plant(ns) and ok
    sys.exit(not ok)

def plant(ns):
    i = ns['ID']
    d = os.path.join(VERIF, 'seeded', i)
    work = tempfile.mkdtemp(prefix='plant-', dir='/tmp')
    repo = work + '/repo'
    try:
        sh('cp -a /repo %s' % repo)
        sh('git -C %s checkout -q -- .' % repo)
        for f, old, new in ns['EDITS']:
            s = open('%s/%s' % (repo, f)).read()
            if s.count(old) != 1:
                print(i, 'EDIT DOES NOT APPLY', f, s.count(old), repr(old))
                return False
            open('%s/%s' % (repo, f), 'w').write(s.replace(old, new))
        patch = sh('git -C %s diff' % repo).stdout
        # lines removed must be lines of the original repository
        base = sh('git -C /repo rev-list --max-parents=0 HEAD').stdout.strip()
        blame_bad = []
        for f, old, new in ns['EDITS']:
            orig = sh('git -C /repo show %s:%s' % (base, f)).stdout
            ol = orig.splitlines()
            for l in sh('git -C %s diff -U0 -- %s' % (repo, f)).stdout \
                    .splitlines():
                if l.startswith('-') and not l.startswith('---') \
                        and l[1:] not in ol:
                    blame_bad.append(l)
        if blame_bad:
            print(i, 'WARNING: changes lines of fixes', blame_bad)
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(patch)
        open(d + '/demo.py', 'w').write(ns['DEMO'])
        open(d + '/demo.sh', 'w').write(demo_text(ns.get('NP', 0)))
        os.chmod(d + '/demo.sh', 0o755)
        for name, text in ns.get('FILES', {}).items():
            open(d + '/' + name, 'w').write(text)
        json.dump(dict(property=ns['PROP'], needs=ns['NEEDS'],
            what_it_breaks=ns['BREAKS']), open(d + '/meta.json', 'w'),
            indent=1)
        a = sh('bash %s/demo.sh' % d, cwd='/repo', timeout=280)
        b = sh('bash %s/demo.sh' % d, cwd=repo, timeout=280)
        t = open('/opt/vp/test.sh').read().replace('cd /repo', 'cd ' + repo) \
            .replace('PYTHONPATH=/opt/vp/plugin', 'PYTHONPATH=%s:/opt/vp/plugin'
            % repo)
        open(work + '/test.sh', 'w').write(t)
        stable = json.load(open('/opt/vp/BASELINE.json'))
        sh('bash %s/test.sh %s/out.json' % (work, work))
        res = json.load(open(work + '/out.json'))
        failed = [x for x in stable_list(stable) if x not in res['passed']]
        c = sh('python3 %s/check.py %s %s' % (VERIF, ns['PROP'], repo))
        caught = c.returncode == 1
        good = a.returncode == 0 and b.returncode != 0 and not failed
        print('%-28s %s clean=%d bug=%d tests-failed=%d %s' % (i, ns['PROP'],
            a.returncode, b.returncode, len(failed),
            'CAUGHT' if caught else 'MISSED (%d)' % c.returncode),
            '' if good else '*** NOT VALID', flush=True)
        if not good:
            print(a.stdout[-1500:] if a.returncode else '',
                b.stdout[-1500:] if not b.returncode else '', failed[:5])
        if not caught:
            print(c.stdout[-300:])
        elif '-v' in os.environ.get('PLANT', ''):
            print(c.stdout[-1000:])
        return good
    finally:
        shutil.rmtree(work, ignore_errors=True)

def stable_list(b):
    if isinstance(b, dict):
        for k in ('stable', 'tests', 'passed', 'stable_tests'):
            if k in b:
                return b[k]
    return b

main()
