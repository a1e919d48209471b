#!/usr/bin/env python3
"""Runs the check of its property against each planted bug (on scratch copies)
and writes the table at the end of DESIGN.md."""
import concurrent.futures, importlib, json, os, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)

def one(name):
    meta = json.load(open('%s/seeded/%s/meta.json' % (here, name)))
    with tempfile.TemporaryDirectory() as d:
        shutil.copytree('/repo/elphmod', d + '/elphmod')
        subprocess.run(['patch', '-s', '-p1', '-i', '%s/seeded/%s/patch.diff'
            % (here, name)], cwd=d, check=True)
        r = subprocess.run([sys.executable, '-W', 'ignore', '-c', '''
import sys, importlib
sys.path.insert(0, %r)
m = importlib.import_module('sa.props.' + sys.argv[1])
f = m.run(sys.argv[2], 'quick')['findings']
print('; '.join(sorted(set('%%s in %%s' %% (x.get('rule'), x.get('func')) for x in f))[:2]))
''' % here, meta['property'].lower(), d], capture_output=True, text=True)
        return name, meta['property'], r.stdout.strip() or 'MISSED ' + \
            r.stderr[-200:]

names = sorted(os.listdir(here + '/seeded'))
with concurrent.futures.ThreadPoolExecutor(7) as pool:
    rows = sorted(pool.map(one, names), key=lambda x: (x[1], x[0]))
mark = '## Planted bugs and the checks that catch them'
s = open(here + '/DESIGN.md').read().split(mark)[0].rstrip('\n')
s += '\n\n%s\n\nEach bug breaks the property named and is reported by its ' \
    'check (rule and place of\nthe finding), written by `tools/mkseeded.py`.' \
    '\n\n| Bug | Property | Reported as |\n|-|-|-|\n' % mark
for r in rows:
    s += '| %s | %s | %s |\n' % r
    if 'MISSED' in r[2] or not r[2]:
        print(r)
open(here + '/DESIGN.md', 'w').write(s)
