"""Lattice conventions (C17): formulas for lattice and reciprocal vectors,
volumes, supercells, and tables of special points.

The formulas each routine returns are extracted by constant propagation
(`constprop.py`) as terms over the unknown lattice parameters. They are compared
with the documented ones by identity testing of the terms.
"""

import math
import random

from .constprop import (Interpreter, Seq, Map, Ref, Term, TOP, Top, Budget,
    Unknown, option, is_num, table, value, depth)
from .options import Options, IBRAV, forms, sym
from .project import AnalysisError

A0 = 0.529177210903

def expected(ibrav, A, b, c, cb, ca, cg):
    """Primitive vectors of PWscf (INPUT_PW: ibrav) for conventional constants.

    `cb`, `ca`, and `cg` are celldm(4), celldm(5), and celldm(6) as needed.
    """
    s = math.sqrt
    if ibrav == 1:
        return [[A, 0, 0], [0, A, 0], [0, 0, A]]
    if ibrav == 2:
        return [[-A / 2, 0, A / 2], [0, A / 2, A / 2], [-A / 2, A / 2, 0]]
    if ibrav == 3:
        return [[A / 2, A / 2, A / 2], [-A / 2, A / 2, A / 2],
            [-A / 2, -A / 2, A / 2]]
    if ibrav == -3:
        return [[-A / 2, A / 2, A / 2], [A / 2, -A / 2, A / 2],
            [A / 2, A / 2, -A / 2]]
    if ibrav == 4:
        return [[A, 0, 0], [-A / 2, A * s(3) / 2, 0], [0, 0, c]]
    if ibrav in (5, -5):
        tx, ty, tz = s((1 - cb) / 2), s((1 - cb) / 6), s((1 + 2 * cb) / 3)
        if ibrav == 5:
            return [[A * tx, -A * ty, A * tz], [0, 2 * A * ty, A * tz],
                [-A * tx, -A * ty, A * tz]]
        u, v = tz - 2 * s(2) * ty, tz + s(2) * ty
        f = A / s(3)
        return [[f * u, f * v, f * v], [f * v, f * u, f * v],
            [f * v, f * v, f * u]]
    if ibrav == 6:
        return [[A, 0, 0], [0, A, 0], [0, 0, c]]
    if ibrav == 7:
        return [[A / 2, -A / 2, c / 2], [A / 2, A / 2, c / 2],
            [-A / 2, -A / 2, c / 2]]
    if ibrav == 8:
        return [[A, 0, 0], [0, b, 0], [0, 0, c]]
    if ibrav == 9:
        return [[A / 2, b / 2, 0], [-A / 2, b / 2, 0], [0, 0, c]]
    if ibrav == -9:
        return [[A / 2, -b / 2, 0], [A / 2, b / 2, 0], [0, 0, c]]
    if ibrav == 91:
        return [[A, 0, 0], [0, b / 2, -c / 2], [0, b / 2, c / 2]]
    if ibrav == 10:
        return [[A / 2, 0, c / 2], [A / 2, b / 2, 0], [0, b / 2, c / 2]]
    if ibrav == 11:
        return [[A / 2, b / 2, c / 2], [-A / 2, b / 2, c / 2],
            [-A / 2, -b / 2, c / 2]]
    if ibrav == 12:
        return [[A, 0, 0], [b * cb, b * s(1 - cb ** 2), 0], [0, 0, c]]
    if ibrav == -12:
        return [[A, 0, 0], [0, b, 0], [c * ca, 0, c * s(1 - ca ** 2)]]
    if ibrav == 13:
        return [[A / 2, 0, -c / 2], [b * cb, b * s(1 - cb ** 2), 0],
            [A / 2, 0, c / 2]]
    if ibrav == -13:
        return [[A / 2, b / 2, 0], [-A / 2, b / 2, 0], [c * ca, 0,
            c * s(1 - ca ** 2)]]
    if ibrav == 14:
        sg = s(1 - cg ** 2)
        return [[A, 0, 0], [b * cg, b * sg, 0], [c * ca, c * (cb - ca * cg)
            / sg, c * s(1 + 2 * cb * ca * cg - cb ** 2 - ca ** 2 - cg ** 2)
            / sg]]

# special points in crystal coordinates of the primitive vectors above
POINTS = {
    1: dict(M=(0, .5, .5), R=(.5, .5, .5), X=(0, 0, .5)),
    2: dict(X=(0, .5, .5), L=(.5, .5, .5), W=(.25, .75, .5),
        U=(.25, .625, .625), K=(.375, .75, .375)),
    3: dict(H=(.5, .5, .5), P=(.75, .25, -.25), N=(.5, .5, 0)),
    -3: dict(H=(.5, .5, -.5), P=(.25, .25, .25), N=(.5, 0, 0)),
    4: dict(A=(0, 0, .5), M=(0, .5, 0), L=(0, .5, .5), K=(1 / 3, 1 / 3, 0),
        H=(1 / 3, 1 / 3, .5)),
    6: dict(X=(.5, 0, 0), M=(.5, .5, 0), Z=(0, 0, .5), R=(.5, 0, .5),
        A=(.5, .5, .5)),
    7: dict(X=(.25, .25, -.25), M=(0, .5, -.5), Z=(.25, .25, .25),
        R=(.5, .5, 0), A=(.25, .75, -.25)),
    8: dict(X=(.5, 0, 0), Y=(0, .5, 0), Z=(0, 0, .5), S=(.5, .5, 0),
        T=(0, .5, .5), U=(.5, 0, .5), R=(.5, .5, .5)),
    9: dict(Y=(.5, -.5, 0), y=(.5, .5, 0), Z=(0, 0, .5), T=(.5, -.5, .5),
        t=(.5, .5, .5), S=(.5, 0, 0), R=(.5, 0, .5)),
    -9: dict(Y=(.5, .5, 0), y=(-.5, .5, 0), Z=(0, 0, .5), T=(.5, .5, .5),
        t=(-.5, .5, .5), S=(0, .5, 0), R=(0, .5, .5)),
    12: dict(B=(-.5, 0, 0), Y=(0, .5, 0), Z=(0, 0, .5), D=(-.5, .5, 0),
        C=(0, .5, .5), A=(-.5, 0, .5), E=(-.5, .5, .5)),
    -12: dict(B=(-.5, 0, 0), Y=(0, .5, 0), Z=(0, 0, .5), D=(-.5, .5, 0),
        C=(0, .5, .5), A=(-.5, 0, .5), E=(-.5, .5, .5)),
}

def close(a, b):
    if isinstance(a, list) != isinstance(b, list):
        return False
    if isinstance(a, list):
        return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    return abs(a - b) < 1e-8 * max(1, abs(a), abs(b))

class Lattices(Options):
    def returned(self, name, args, construct):
        f = self.project.function('bravais.' + name)
        if f is None:
            raise AnalysisError('bravais.%s not found' % name)
        known = {x.arg for x in f.args.args}
        if not {k for k in args if not k.startswith('*')} <= known:
            self.undecided.append('signature of ' + name)
            return f, []
        it = Interpreter(self.project, inline=4)
        try:
            outs = it.function(f, args)
        except (Budget, RecursionError):
            self.undecided.append('%s(%s)' % (name, construct))
            return f, []
        return f, outs

    def compare(self, name, args, construct, symbols, formula, what):
        """All returned values equal the documented formula."""
        f, outs = self.returned(name, args, construct)
        values = [o.value for o in outs if o.kind in ('return', 'end')]
        rng = random.Random(1)
        decided = False
        for v in values:
            for _ in range(3):
                p = {s: rng.uniform(*r) for s, r in symbols.items()}
                try:
                    got = table(v, p)
                except Unknown as e:
                    if v is None:
                        return
                    self.undecided.append('%s(%s): %s' % (name, construct, e))
                    break
                decided = True
                ok, text = formula(p, got)
                if not ok:
                    self.report('lattice-formula', f.qualname, construct,
                        '%s for %s: %s' % (what, construct, text))
                    break
        if decided:
            self.count(what)

    def primitives(self):
        for ibrav in IBRAV:
            for form in forms(ibrav):
                conv = 'a' in form
                construct = 'ibrav=%d%s%s%s' % (ibrav, '' if conv
                    else ', celldm', ', bohr' if form['bohr'] else '', ', '
                    + form['cell_units'] if 'cell_units' in form else '')
                symbols = dict(a=(1, 3), b=(1, 3), c=(1, 3), cosbc=(-.3, .3),
                    cosac=(-.3, .3), cosab=(-.3, .3), celldm1=(1, 3),
                    celldm2=(1, 3), celldm3=(1, 3), celldm4=(-.3, .3),
                    celldm5=(-.3, .3), celldm6=(-.3, .3))
                for i in range(3):
                    for j in range(3):
                        symbols['r%d%d' % (i, j)] = -2, 2
                symbols['misc.a0'] = A0, A0
                def formula(p, got, ibrav=ibrav, form=form, conv=conv):
                    bohr = form['bohr']
                    if conv:
                        u = 1 / A0 if bohr else 1
                        A, b, c = p['a'] * u, p['b'] * u, p['c'] * u
                        if ibrav == 14:
                            cos = p['cosbc'], p['cosac'], p['cosab']
                        elif ibrav in (-12, -13):
                            cos = 0, p['cosac'], 0
                        else:
                            cos = p['cosab'], 0, 0
                    else:
                        A = p['celldm1'] * (1 if bohr else A0)
                        b, c = A * p['celldm2'], A * p['celldm3']
                        cos = p['celldm4'], p['celldm5'], p['celldm6']
                    if ibrav == 0:
                        u = {'alat': A, 'bohr': 1 if bohr else A0,
                            'angstrom': 1 / A0 if bohr else 1}[form[
                            'cell_units']]
                        want = [[p['r%d%d' % (i, j)] * u for j in range(3)]
                            for i in range(3)]
                    else:
                        want = expected(ibrav, A, b, c, *cos)
                    return close(got, want), 'vectors %s instead of %s' % (
                        show(got), show(want))
                self.compare('primitives', dict(form, ibrav=option(ibrav)),
                    construct, symbols, formula, 'lattice vectors')

    def geometry(self):
        vec = lambda n, d: Seq([sym('%s%d' % (n, i)) for i in range(d)],
            'array')
        for d in 2, 3:
            names = ['a%d' % (i + 1) for i in range(d)]
            symbols = {'%s%d' % (n, i): (-2, 2) for n in names
                for i in range(d)}
            def dual(p, got, d=d, names=names):
                if not isinstance(got, list) or len(got) != d or any(not
                        isinstance(b, list) or len(b) != d for b in got):
                    return False, 'wrong number of vectors'
                ok = all(close(sum(x * p['%s%d' % (n, k)] for k, x in
                    enumerate(b)), float(i == j)) for i, n in enumerate(names)
                    for j, b in enumerate(got))
                return ok, 'not dual to the lattice vectors'
            args = {n: vec(n, d) for n in names}
            if d == 2:
                args['a3'] = None
            self.compare('reciprocals', args, '%d vectors' % d, symbols, dual,
                'reciprocal vectors')
            def vol(p, got, d=d, names=names):
                m = [[p['%s%d' % (n, i)] for i in range(d)] for n in names]
                if d == 2:
                    det = m[0][0] * m[1][1] - m[0][1] * m[1][0]
                else:
                    det = sum(m[0][i] * (m[1][(i + 1) % 3] * m[2][(i + 2) % 3]
                        - m[1][(i + 2) % 3] * m[2][(i + 1) % 3])
                        for i in range(3))
                return close(got, abs(det)), 'not the modulus of the ' \
                    'determinant'
            self.compare('volume', args, '%d vectors' % d, symbols, vol,
                'volume')
            # translations
        for two in True, False:
            for angle in 60, 90, 120:
                def trans(p, got, angle=angle, two=two):
                    t0, t1 = (math.radians(p['angle0'] + x) for x in (0,
                        angle))
                    want = [[math.cos(t), math.sin(t)] + ([] if two else [0])
                        for t in (t0, t1)]
                    return close(got, want), 'vectors %s instead of %s' % (
                        show(got), show(want))
                self.compare('translations', dict(angle=angle, angle0=sym(
                    'angle0'), two_dimensional=two), 'angle=%d%s' % (angle,
                    '' if two else ' in three dimensions'), dict(angle0=(-180,
                    180)), trans, 'translation vectors')
        for angle, sign in ((60, 1), (90, 0), (120, -1)):
            def dist(p, got, sign=sign):
                return close(got, p['k1'] ** 2 + p['k2'] ** 2 + sign * p['k1']
                    * p['k2']), 'wrong distance'
            self.compare('squared_distance', dict(k1=sym('k1'), k2=sym('k2'),
                angle=angle), 'angle=%d' % angle, dict(k1=(-5, 5), k2=(-5,
                5)), dist, 'squared distance')
        for two in True, False:
            def rot(p, got, two=two):
                x, y, t = p['v0'], p['v1'], p['angle']
                want = [x * math.cos(t) - y * math.sin(t), x * math.sin(t)
                    + y * math.cos(t)] + ([] if two else [p['v2']])
                return close(got, want), 'not an anti-clockwise rotation'
            self.compare('rotate', dict(vector=vec('v', 2 if two else 3),
                angle=sym('angle'), two_dimensional=two), 'two dimensions'
                if two else 'three dimensions', dict(v0=(-2, 2), v1=(-2, 2),
                v2=(-2, 2), angle=(-3, 3)), rot, 'rotation')

    def supercells(self):
        f = self.project.function('bravais.supercell')
        for scalar in True, False:
            names = 'N1', 'N2', 'N3'
            if scalar:
                args = {n: sym(n) for n in names}
                symbols = {n: (1, 5) for n in names}
            else:
                args = {n: Seq([sym('%s%d' % (n, i)) for i in range(3)],
                    'tuple') for n in names}
                symbols = {'%s%d' % (n, i): (-3, 3) for n in names
                    for i in range(3)}
            f, outs = self.returned('supercell', args, 'scalars' if scalar
                else 'vectors')
            for o in outs:
                v = o.value
                if o.kind != 'return' or not isinstance(v, Seq) \
                        or len(v.items) < 3:
                    continue
                rng = random.Random(1)
                for _ in range(4):
                    p = {s: rng.uniform(*r) for s, r in symbols.items()}
                    n = [[p[x] if i == j else 0 for j in range(3)] for i, x in
                        enumerate(names)] if scalar else [[p['%s%d' % (x, j)]
                        for j in range(3)] for x in names]
                    try:
                        N, vecs, B = (table(x, p) for x in v.items[:3])
                    except Unknown:
                        self.undecided.append('supercell')
                        break
                    det = sum(n[0][i] * (n[1][(i + 1) % 3] * n[2][(i + 2) % 3]
                        - n[1][(i + 2) % 3] * n[2][(i + 1) % 3])
                        for i in range(3))
                    construct = 'scalars' if scalar else 'vectors'
                    self.count('supercell vectors')
                    if not close(N, abs(det)):
                        self.report('lattice-formula', f.qualname, construct
                            + ': N', 'number of unit cells is not the modulus '
                            'of the determinant')
                    if not close(vecs, [list(map(float, x)) for x in n]):
                        self.report('lattice-formula', f.qualname, construct
                            + ': a', 'supercell vectors are not those given')
                    if not all(close(sum(x * y for x, y in zip(a, b)),
                            abs(det) * (i == j)) for i, a in enumerate(n)
                            for j, b in enumerate(B)):
                        self.report('lattice-formula', f.qualname, construct
                            + ': B', 'reciprocal supercell vectors are not '
                            'dual to the supercell vectors times the number '
                            'of unit cells')

    def points(self):
        f = self.project.function('bravais.path')
        if f is None:
            raise AnalysisError('bravais.path not found')
        if f.args.kwarg is None or f.args.args[0].arg != 'points':
            self.undecided.append('signature of path')
            return
        for ibrav, points in POINTS.items():
            labels = dict(points, G=(0, 0, 0))
            it = Interpreter(self.project, inline=1)
            try:
                outs = it.function(f, {'points': Seq(list(labels), 'list'),
                    '**': Map({'ibrav': option(ibrav)}), 'recvec': TOP,
                    'N': TOP, 'moveG': TOP, 'qe': TOP})
            except (Budget, RecursionError):
                self.undecided.append('path, ibrav=%d' % ibrav)
                continue
            lost = {k for n, k in it.missing if k in labels}
            for k in sorted(lost):
                self.report('missing-point', f.qualname, 'ibrav=%d: %s' % (
                    ibrav, k), 'no special point %s for Bravais lattice %d' % (
                    k, ibrav))
            if lost:
                continue
            found = []
            for o in outs:
                for v in (o.env or {}).values():
                    if isinstance(v, Seq) and len(v.items) == len(labels) \
                            and depth(v) == 2:
                        try:
                            t = table(v, {})
                        except Unknown:
                            continue
                        if all(len(x) == 3 for x in t):
                            found.append(t)
            if not found:
                self.undecided.append('path, ibrav=%d' % ibrav)
                continue
            self.count('special points', len(labels))
            want = [list(map(float, x)) for x in labels.values()]
            if not any(close(t, want) for t in found):
                for i, k in enumerate(labels):
                    if not close(found[0][i], want[i]):
                        self.report('special-point', f.qualname, 'ibrav=%d: %s'
                            % (ibrav, k), 'special point %s of Bravais lattice'
                            ' %d is %s instead of %s' % (k, ibrav, show(
                            found[0][i]), show(want[i])))

def show(x):
    if isinstance(x, list):
        return '[%s]' % ', '.join(map(show, x))
    return '%.4g' % x

def check(root):
    o = Lattices(root)
    o.primitives()
    o.geometry()
    o.supercells()
    o.points()
    return list(o.findings.values()), dict(formulas_compared=o.done,
        undecided=sorted(set(o.undecided)))
