"""Record names and signatures of the libraries elphmod uses (like a type stub).

Run by hand with an interpreter that has them: /opt/venv/bin/python tools/mklibs.py
The checks only read the resulting table sa/data/libs.json.
"""

import importlib
import inspect
import json
import os

MODULES = '''numpy numpy.linalg numpy.fft numpy.random numpy.testing numpy.ma
scipy.sparse scipy.sparse.linalg scipy.special scipy.linalg scipy.optimize
scipy.interpolate scipy.signal scipy.spatial scipy.integrate
math cmath os os.path sys re time shutil copy collections glob pickle itertools functools
json random warnings subprocess xml.etree.ElementTree
matplotlib matplotlib.pyplot PIL.Image'''.split()

def signature(f):
    try:
        s = inspect.signature(f)
    except (ValueError, TypeError):
        return None
    pos, kw, req, var, varkw, posonly = [], [], [], False, False, []
    for p in s.parameters.values():
        if p.kind == p.VAR_POSITIONAL:
            var = True
        elif p.kind == p.VAR_KEYWORD:
            varkw = True
        else:
            if p.kind == p.KEYWORD_ONLY:
                kw.append(p.name)
            else:
                pos.append(p.name)
                if p.kind == p.POSITIONAL_ONLY:
                    posonly.append(p.name)
            if p.default is p.empty:
                req.append(p.name)
    return dict(pos=pos, kw=kw, req=req, var=var, varkw=varkw, posonly=posonly)

out = {}

for name in MODULES:
    module = importlib.import_module(name)
    entry = {}
    names = set(dir(module))
    if hasattr(module, '__all__'):
        names |= set(module.__all__)
    for attr in sorted(names):
        if attr.startswith('__'):
            continue
        try:
            value = getattr(module, attr)
        except Exception:
            continue
        sub = '%s.%s' % (name, attr)
        if inspect.ismodule(value):
            entry[attr] = 'module'
        elif inspect.isroutine(value) or type(value).__name__ in (
                'ufunc', '_ArrayFunctionDispatcher', 'vectorize'):
            entry[attr] = signature(value) or 'function'
        elif inspect.isclass(value):
            entry[attr] = 'class'
        else:
            entry[attr] = 'value'
    out[name] = entry

import numpy
a = numpy.zeros(2)
out['<ndarray>'] = {attr: 'value' for attr in dir(a)
    if not attr.startswith('__')}

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'sa',
        'data', 'libs.json'), 'w') as data:
    json.dump(out, data, indent=0, sort_keys=True)
