"""Evaluation of constant expressions and comparison with CODATA (C14)."""

import ast
import math

from .project import Project, Module, Func

class Unknown(Exception):
    pass

FUNCS = dict(sqrt=math.sqrt, exp=math.exp, log=math.log, sin=math.sin,
    cos=math.cos, tan=math.tan, float=float, int=int, abs=abs, round=round,
    square=lambda x: x * x, arctan=math.atan, atan=math.atan, prod=math.prod,
    pow=pow, float64=float, deg2rad=math.radians, radians=math.radians,
    reciprocal=lambda x: 1 / x, multiply=lambda x, y: x * y,
    divide=lambda x, y: x / y, power=pow)

class Evaluator:
    """Constant folding across modules."""
    def __init__(self, project):
        self.project = project
        self.cache = {}

    def name(self, module, name, depth=0):
        key = (module.name, name)
        if key in self.cache:
            value = self.cache[key]
            if value is None:
                raise Unknown
            return value
        self.cache[key] = None
        values = module.globals.get(name)
        if not values:
            if name in module.imports:
                value = self.dotted(module.imports[name], depth + 1)
            else:
                raise Unknown
        else:
            value = None
            for i, v in enumerate(values):
                if isinstance(v, ast.AugAssign):
                    if value is None:
                        raise Unknown
                    value = self.binop(v.op, value, self.eval(module, v.value,
                        {}, depth))
                else:
                    value = self.eval(module, v, {}, depth)
        self.cache[key] = value
        return value

    def dotted(self, dotted, depth=0):
        if depth > 50:
            raise Unknown
        if dotted in ('numpy.pi', 'math.pi', 'scipy.pi', 'cmath.pi'):
            return math.pi
        if dotted in ('numpy.e', 'math.e'):
            return math.e
        base, _, attr = dotted.rpartition('.')
        owner = self.project.resolve(base) if base else None
        if isinstance(owner, Module):
            return self.name(owner, attr, depth)
        raise Unknown

    def binop(self, op, a, b):
        try:
            if isinstance(op, ast.Add):
                return a + b
            if isinstance(op, ast.Sub):
                return a - b
            if isinstance(op, ast.Mult):
                return a * b
            if isinstance(op, ast.Div):
                return a / b
            if isinstance(op, ast.FloorDiv):
                return a // b
            if isinstance(op, ast.Pow):
                return a ** b
        except (ZeroDivisionError, OverflowError, ValueError):
            pass
        raise Unknown

    def eval(self, module, e, env, depth=0):
        if depth > 50:
            raise Unknown
        if isinstance(e, ast.Constant):
            if isinstance(e.value, (int, float)) and not isinstance(e.value,
                    bool):
                return e.value
            raise Unknown
        if isinstance(e, ast.UnaryOp):
            v = self.eval(module, e.operand, env, depth + 1)
            if isinstance(e.op, ast.USub):
                return -v
            if isinstance(e.op, ast.UAdd):
                return v
            raise Unknown
        if isinstance(e, ast.BinOp):
            return self.binop(e.op, self.eval(module, e.left, env, depth + 1),
                self.eval(module, e.right, env, depth + 1))
        if isinstance(e, ast.Name):
            if e.id in env:
                return env[e.id]
            return self.name(module, e.id, depth + 1)
        if isinstance(e, ast.Attribute):
            chain = []
            n = e
            while isinstance(n, ast.Attribute):
                chain.append(n.attr)
                n = n.value
            if isinstance(n, ast.Name) and n.id in module.imports:
                chain.append(module.imports[n.id])
                return self.dotted('.'.join(reversed(chain)), depth + 1)
            raise Unknown
        if isinstance(e, ast.Call) and not e.keywords:
            f = e.func
            args = [self.eval(module, x, env, depth + 1) for x in e.args]
            name = f.attr if isinstance(f, ast.Attribute) else getattr(f, 'id',
                None)
            if isinstance(f, ast.Name) and f.id in module.functions:
                fn = module.functions[f.id].node
                body = [s for s in fn.body if not (isinstance(s, ast.Expr)
                    and isinstance(s.value, ast.Constant))]
                if len(body) == 1 and isinstance(body[0], ast.Return):
                    names = [a.arg for a in fn.args.args]
                    inner = dict(zip(names, args))
                    for a, d in zip(names[len(names)
                            - len(fn.args.defaults):], fn.args.defaults):
                        if a not in inner:
                            inner[a] = self.eval(module, d, {}, depth + 1)
                    return self.eval(module, body[0].value, inner, depth + 1)
                raise Unknown
            if name in FUNCS:
                try:
                    return FUNCS[name](*args)
                except Exception:
                    raise Unknown
        raise Unknown

# CODATA recommended values: exact ones and editions 2014, 2018, 2022
EXACT = {
    'cSI': (299792458.0, 'speed of light'),
    'eVSI': (1.602176634e-19, 'elementary charge'),
    'hSI': (6.62607015e-34, 'Planck constant'),
    'kBSI': (1.380649e-23, 'Boltzmann constant'),
    'NA': (6.02214076e23, 'Avogadro constant'),
}

MEASURED = {
    'meSI': ((9.10938356e-31, 9.1093837015e-31, 9.1093837139e-31),
        'electron mass'),
    'eps0': ((8.854187817620389e-12, 8.8541878128e-12, 8.8541878188e-12),
        'vacuum permittivity'),
    'Ry': ((13.605693009, 13.605693122994, 13.605693122990),
        'Rydberg energy in eV'),
    'a0': ((0.52917721067, 0.529177210903, 0.529177210544),
        'Bohr radius in angstrom'),
}

def derived(c):
    """Relations between constants: name -> (value, rel. tolerance, formula)"""
    out = []
    def rel(names, target, formula, tol=1e-12):
        if target in c and all(n in c for n in names):
            try:
                out.append((target, formula(*[c[n] for n in names]), tol,
                    names))
            except ZeroDivisionError:
                pass
    pi = math.pi
    rel(['hSI'], 'hbarSI', lambda h: h / (2 * pi))
    rel(['NA'], 'uSI', lambda n: 1e-3 / n)
    rel(['Ry'], 'Ha', lambda r: 2 * r)
    rel(['hSI', 'cSI', 'eVSI'], 'cmm1', lambda h, c_, e: 100 * h * c_ / e)
    rel(['kBSI', 'eVSI'], 'kB', lambda k, e: k / e)
    rel(['uSI', 'meSI'], 'uRy', lambda u, m: u / (2 * m))
    rel(['eVSI', 'hbarSI'], 'ohmRy', lambda e, h: e ** 2 / (2 * h))
    rel(['ohmRy', 'a0'], 'ohmmRy', lambda o, a: o * 1e10 / a)
    # measured constants among each other
    rel(['eVSI', 'eps0', 'a0'], 'Ry', lambda e, eps, a: e / (8 * pi * eps * a
        * 1e-10), 3e-9)
    rel(['hSI', 'meSI', 'a0', 'eVSI'], 'Ry', lambda h, m, a, e: (h / (2 * pi))
        ** 2 / (2 * m * (a * 1e-10) ** 2) / e, 3e-9)
    return out

# absolute values of derived constants, in case base constants are renamed
ABSOLUTE = {
    'hbarSI': 1.0545718176461565e-34, 'Ha': 27.211386245988,
    'cmm1': 1.2398419843320026e-4, 'kB': 8.617333262145179e-5,
    'uSI': 1.66053906717e-27, 'uRy': 911.444242, 'ohmRy': 1.217067e-4,
    'ohmmRy': 1.217067e-4 * 1e10 / 0.529177210903,
}

# newton per metre in Rydberg units: Ry -> J, bohr -> m
def npm(c):
    return (1e-10 * c['a0']) ** 2 / (c['eVSI'] * c['Ry'])

def check(root):
    project = Project(root)
    ev = Evaluator(project)
    misc = project.module('misc')
    findings, done, unknown = [], [], []
    values = {}

    def add(rule, construct, message, func='misc'):
        findings.append(dict(rule=rule, func=func, construct=construct,
            message=message))

    for name in list(EXACT) + list(MEASURED) + ['hbarSI', 'uSI', 'Ha', 'cmm1',
            'kB', 'uRy', 'ohmRy', 'ohmmRy']:
        if name not in misc.globals and name not in misc.imports:
            continue
        try:
            values[name] = ev.name(misc, name)
        except Unknown:
            unknown.append(name)

    def off(a, b):
        return abs(a - b) / abs(b)

    for name, (value, what) in EXACT.items():
        if name in values:
            done.append(name)
            if off(values[name], value) > 1e-12:
                add('exact-constant', name, '%s is %r, but the %s is exactly '
                    '%r' % (name, values[name], what, value))

    for name, (editions, what) in MEASURED.items():
        if name in values:
            done.append(name)
            if min(off(values[name], v) for v in editions) > 5e-12:
                add('measured-constant', name, '%s is %r, but the CODATA '
                    'values of the %s are %s' % (name, values[name], what,
                    ', '.join(map(str, editions))))

    for name, value in ABSOLUTE.items():
        if name in values:
            done.append(name)
            if off(values[name], value) > 1e-6:
                add('derived-constant', name, '%s is %r, expected %r' % (name,
                    values[name], value))

    good = dict(values)
    for name in {f['construct'] for f in findings}:
        good.pop(name, None)

    for name, value, tol, names in derived(good):
        done.append('%s from %s' % (name, ', '.join(names)))
        if off(values[name], value) > tol:
            add('inconsistent-constant', name, '%s is %r, but %r follows from '
                '%s' % (name, values[name], value, ', '.join(names)))

    # other module-level constants
    known = dict(values)
    reference = dict({k: v[0] for k, v in EXACT.items()}, **{k: v[0][1]
        for k, v in MEASURED.items()}, **ABSOLUTE)
    for m in project.modules.values():
        for name in m.globals:
            if m is misc and name in known:
                continue
            try:
                value = ev.name(m, name)
            except (Unknown, RecursionError):
                continue
            where = m.short
            if name == 'Npm' and all(n in reference for n in ('a0', 'eVSI',
                    'Ry')):
                done.append('%s.%s' % (where, name))
                if off(value, npm(reference)) > 1e-6:
                    add('derived-constant', name, '%s.%s is %r, but one newton '
                        'per metre is %r Ry/bohr^2' % (where, name, value,
                        npm(reference)), where)
            if name == 'deg' and off(value, math.pi / 180) > 1e-12:
                add('derived-constant', name, '%s.%s is %r, but one degree is '
                    'pi/180' % (where, name, value), where)

    # literals that repeat a constant with other digits
    literals = 0
    for m in project.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Constant) and isinstance(n.value, float):
                if m is misc and inside_definition(n, known):
                    continue
                text = ast.get_source_segment(m.source, n) or ''
                digits = len(text.lower().split('e')[0].replace('.', '')
                    .lstrip('0'))
                if digits < 5:
                    continue
                literals += 1
                for name, value in reference.items():
                    d = off(n.value, value)
                    if d < 2e-3 and d > 2 * 10.0 ** (1 - digits):
                        add('deviating-literal', text, 'literal %s at %s '
                            'deviates from the constant %s (%r)' % (text,
                            m.where(n), name, value), m.short)

    return findings, dict(constants=sorted(set(done)), undecided=unknown,
        literals_compared=literals)

def inside_definition(n, known):
    p = n
    while hasattr(p, 'parent'):
        p = p.parent
        if isinstance(p, ast.Assign) and any(isinstance(t, ast.Name)
                and t.id in known for t in p.targets):
            return True
    return False
