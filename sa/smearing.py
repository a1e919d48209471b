"""Broadening functions (C18): delta functions, their derivatives, entropies.

Formulas are extracted as terms (`terms.py`), differentiated, and compared as
functions of the unknown argument.
"""

import ast
import cmath
import math

from .project import Project
from .terms import (Formulas, Undecided, Raised, T, Arr, Masked, Fn, sym,
    array, value, derivative, choose, simple, own)

POINTS = (-2.3, -1.1, -.37, -.04, .013, .21, .9, 1.7, 2.6)
WIDE = (-7.3, -6.2, -4.4, 4.7, 5.9, 7.9)
FAR = 1e9

# documented definitions: f(x)
DEFINED = {
    'bose_einstein': lambda x: 1 / (exp(x) - 1),
    'fermi_dirac': lambda x: 1 / (exp(x) + 1),
    'gauss': lambda x: math.erfc(x) / 2,
    'marzari_vanderbilt': lambda x: math.erfc(x + math.sqrt(.5)) / 2
        + math.exp(-(x + math.sqrt(.5)) ** 2) / math.sqrt(2 * math.pi),
    'lorentz': lambda x: .5 - math.atan(x / math.pi) / math.pi,
    'heaviside': lambda x: .5 - .5 * ((x > 0) - (x < 0)),
}

# accept complex arguments
COMPLEX = 'bose_einstein', 'fermi_dirac', 'double_fermi_dirac'
PLANE = (.3 + .7j, -.8 + .4j, -1.9 - 1.2j, 2.2 - .5j, 6.1 + .9j, -5.7 + .6j)

def exp(x):
    return cmath.exp(complex(min(x.real, 700.0), x.imag)) if isinstance(x,
        complex) else math.exp(min(x, 700.0))

def hermite(n, x):
    a, b = 1.0, 2 * x
    for i in range(1, n + 1):
        a, b = b, 2 * x * b - 2 * i * a
    return a

def methfessel(N, x):
    return math.erfc(x) / 2 + sum((-1) ** n / (math.sqrt(math.pi)
        * math.factorial(n) * 4 ** n) * hermite(2 * n - 1, x)
        for n in range(1, N + 1)) * math.exp(-x * x)

# parameters stored as attributes of the functions and their values
NUMBERS = {'methfessel_paxton': [('order', n) for n in (1, 2, 3, 4)]}

class Smearing:
    def __init__(self, root):
        self.project = Project(root)
        self.findings = {}
        self.undecided = []
        self.done = {}

    def report(self, rule, func, construct, message):
        self.findings.setdefault((rule, func, construct), dict(rule=rule,
            func=func, construct=construct, message=message))

    def count(self, what, n=1):
        self.done[what] = self.done.get(what, 0) + n

    def formula(self, f, x, extra):
        """Cases of f(x) for an array with the unknown as only element."""
        def call():
            v = self.forms.call(f, [Arr([x], (1,))], dict(extra))
            if isinstance(v, Masked):
                raise Undecided('selection')
            v = array(v) if not isinstance(v, Arr) else v
            if len(v.idx) != 1:
                raise Undecided('shape of result')
            return v.items()[0]
        return self.forms.cases(call)

    def at(self, cases, point, dirs=None):
        v = choose(cases, point)
        if v is Raised:
            raise Undecided('exception')
        if dirs:
            return derivative(v, point, dirs)
        return value(v, point)

    def run(self):
        self.forms = Formulas(self.project)
        env = self.forms.module('elphmod.occupations')
        if env is None:
            return
        x = sym('x')
        names = [n for n, v in env.names.items() if isinstance(v, Fn) and (
            n in DEFINED or 'delta' in v.attrs or 'delta_prime' in v.attrs
            or 'entropy' in v.attrs)]
        for name in names:
            f = env.names[name]
            settings = NUMBERS.get(name, [None])
            for setting in settings:
                self.forms.overrides = {}
                numbers = [a for a, v in f.attrs.items() if isinstance(v,
                    float)]
                symbols = {}
                for a in numbers:
                    symbols[a] = 1.7
                    self.forms.overrides[name, a] = sym(a)
                if setting:
                    self.forms.overrides[(name, setting[0])] = setting[1]
                self.family(name, f, x, symbols, setting)

    def family(self, name, f, x, symbols, setting):
        suffix = '' if not setting else ', %s=%d' % setting
        terms, counts = {}, []
        sums = False
        for what, g in [('f', f)] + [(a, f.attrs[a]) for a in ('delta',
                'delta_prime', 'entropy') if isinstance(f.attrs.get(a), Fn)]:
            extra = {}
            a = g.node.args
            for arg, d in zip(a.args[len(a.args) - len(a.defaults):],
                    a.defaults):
                if isinstance(d, ast.Constant) and isinstance(d.value, int) \
                        and d.value > 20:
                    extra[arg.arg] = 5 # length of sum
                    sums = True
                    if g is f:
                        counts.append(arg.arg)
            try:
                cases = self.formula(g, x, extra)
                if all(v is Raised for _, v in cases):
                    continue
                terms[what] = g, cases
            except Undecided as e:
                self.undecided.append('%s%s: %s' % (g.name, suffix, e))
        def each(what, points, want, message, rule, tol=1e-7):
            g, cases = terms[what]
            bad = None
            for p in points:
                try:
                    got = self.at(cases, dict(symbols, x=p))
                    ref = want(p)
                except (Undecided, OverflowError, ZeroDivisionError,
                        ValueError, TypeError) as e:
                    self.undecided.append('%s%s at %s: %s' % (g.name, suffix,
                        show(p), e))
                    continue
                self.count('identities')
                if isinstance(got, complex) or isinstance(ref, complex):
                    ok = abs(got - ref) <= tol * max(abs(ref), 1e-3)
                elif got != got and ref == ref:
                    ok = False
                elif ref != ref or abs(ref) == math.inf:
                    continue
                else:
                    ok = abs(got - ref) <= tol * max(abs(ref), 1e-3)
                if not ok:
                    bad = p, got, ref
                    break
            if bad:
                self.report(rule, 'occupations.' + g.name, '%s%s' % (what,
                    suffix), '%s: %s instead of %s at x = %s%s' % (
                    (message,) + tuple(map(show, (bad[1], bad[2], bad[0])))
                    + (suffix,)))
        near = POINTS + WIDE
        if name in COMPLEX:
            near += PLANE
        def slope(what, sign):
            g, cases = terms[what]
            return lambda p: sign * self.at(cases, dict(symbols, x=p),
                {'x': 1.0})
        if name in DEFINED and 'f' in terms:
            each('f', near + (() if name == 'bose_einstein' else (0.0,)) + (
                -800.0, 800.0), DEFINED[name], '%s does not have the documented '
                'values' % name, 'definition')
        if name == 'methfessel_paxton' and 'f' in terms and setting:
            each('f', near, lambda p: methfessel(setting[1], p), 'step '
                'function does not have the documented values', 'definition')
        if 'f' in terms and 'delta' in terms:
            each('delta', near, slope('f', -1), 'not the negative derivative '
                'of the step function', 'delta')
        if 'delta' in terms and 'delta_prime' in terms:
            each('delta_prime', near, slope('delta', 1), 'not the derivative '
                'of the delta function', 'delta-prime')
        if 'entropy' in terms and 'delta' in terms:
            # S' = -x D
            g, cases = terms['entropy']
            d = terms['delta'][1]
            for p in near:
                try:
                    got = self.at(cases, dict(symbols, x=p), {'x': 1.0})
                    ref = -p * self.at(d, dict(symbols, x=p))
                except Undecided as e:
                    self.undecided.append('%s%s: %s' % (g.name, suffix, e))
                    continue
                self.count('identities')
                if not abs(got - ref) <= 1e-7 * max(abs(ref), 1e-3):
                    self.report('entropy', 'occupations.' + g.name, 'entropy'
                        + suffix, 'derivative of the entropy is %s but the '
                        'argument times the delta function is %s at x = %s%s'
                        % (show(got), show(-ref), show(p), suffix))
                    break
            if not sums:
                each('entropy', (-FAR, FAR, -800.0, 800.0, -40.0, 40.0),
                    lambda p: 0.0, 'entropy does not vanish far from the '
                    'Fermi level', 'limit', 1e-4)
        if sums and 'f' in terms and name == 'fermi_dirac_matsubara':
            # long but finite sum
            try:
                terms['f'] = f, self.formula(f, x, dict.fromkeys(counts, 300))
                each('f', POINTS, DEFINED['fermi_dirac'], 'sum over Matsubara '
                    'frequencies does not approach the Fermi function',
                    'definition', 1e-2)
            except Undecided as e:
                self.undecided.append('%s: %s' % (name, e))
        if name == 'heaviside' and 'delta' in terms:
            try:
                v = self.at(terms['delta'][1], {'x': 0.0})
                self.count('identities')
                if v != math.inf:
                    self.report('delta', 'occupations.heaviside_delta',
                        'delta', 'delta function is not infinite at the step')
            except Undecided as e:
                self.undecided.append('%s: %s' % (name, e))
        if sums or name == 'bose_einstein':
            return
        if 'f' in terms:
            each('f', (-FAR, FAR), lambda p: float(p < 0), 'step function '
                'does not go from one to zero', 'limit', 1e-5)
        for what in 'delta', 'delta_prime':
            if what in terms:
                each(what, (-FAR, FAR, -800.0, 800.0), lambda p: 0.0,
                    'does not vanish far from the Fermi level', 'limit', 1e-2)

def show(x):
    return '%.6g%+.6gj' % (x.real, x.imag) if isinstance(x, complex) \
        else '%.6g' % x

def check(root):
    s = Smearing(root)
    s.run()
    return list(s.findings.values()), dict(comparisons=s.done,
        undecided=sorted(set(s.undecided)))
