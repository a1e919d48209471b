"""Symmetries of model matrices and Fourier conventions (C19)."""

import ast
import cmath
import math
import random

from .project import Project, Func
from .terms import (Formulas, Undecided, Raised, T, Arr, Fn, Obj, sym, array,
    jet, simple, nest, TOP, Comm)

ELECTRONS = 'hamiltonian', 'coulomb_interaction'

class Models:
    def __init__(self, root):
        self.project = Project(root)
        self.findings = {}
        self.undecided = []
        self.done = {}
        self.forms = Formulas(self.project)

    def report(self, rule, func, construct, message):
        self.findings.setdefault((rule, func, construct), dict(rule=rule,
            func=func, construct=construct, message=message))

    def count(self, what, n=1):
        self.done[what] = self.done.get(what, 0) + n

    # --- matrices as functions of momenta ---

    def matrix(self, f, names):
        """Shape and terms of a matrix for unknown momenta."""
        args = [x.arg for x in f.node.args.args]
        if f.bound is not None:
            args = args[1:]
        if not set(names) <= set(args):
            raise Undecided('arguments of %s' % f.name)
        cases = self.forms.cases(lambda: self.forms.call(f, [], {n: sym(n)
            for n in names}))
        cases = [(p, v) for p, v in cases if v is not Raised]
        if len(cases) != 1:
            raise Undecided('cases of %s' % f.name)
        return nest(cases[0][1])

    def at(self, m, point, dirs=None):
        shape, items = m
        memo = {}
        vals = [jet(x, point, dirs or {}, memo) for x in items]
        return shape, [v[1 if dirs else 0] for v in vals]

    def points(self, names, n=4):
        rng = random.Random(3)
        return [{x: rng.uniform(-3, 3) for x in names} for _ in range(n)]

    def judge(self, what, f, m, points, pairs, message):
        """pairs(point) yields pairs of equal numbers with their position."""
        where = self.where(f)
        for p in points:
            try:
                for label, a, b, scale in pairs(p):
                    if not abs(a - b) <= 1e-9 * max(abs(a), abs(b), scale):
                        self.report(what, where, label, '%s: %s instead of '
                            '%s (element %s)' % (message, show(a), show(b),
                            label))
                        return
            except (Undecided, ArithmeticError) as e:
                self.undecided.append('%s, %s: %s' % (where, what, e))
                return
        self.count(what)

    def where(self, f):
        return f.module.short + '.' + (f.bound.cls.name + '.' if f.bound
            is not None and f.bound.cls is not None else '') + f.name

    def hermitian(self, f, m, names):
        shape = m[0]
        if len(shape) != 2 or shape[0] != shape[1]:
            return
        n = shape[0]
        def pairs(p):
            v = self.at(m, p)[1]
            scale = max(map(abs, v))
            for i in range(n):
                for j in range(i + 1):
                    yield '%d,%d' % (i, j), v[i * n + j], conj(v[j * n + i]), \
                        scale
        self.judge('hermitian', f, m, self.points(names), pairs, 'matrix is '
            'not Hermitian')

    def periodic(self, f, m, names):
        def pairs(p):
            v = self.at(m, p)[1]
            scale = max(map(abs, v))
            for n in names:
                w = self.at(m, dict(p, **{n: p[n] + 2 * math.pi}))[1]
                for i, (a, b) in enumerate(zip(w, v)):
                    yield '%s: %d' % (n, i), a, b, scale
        self.judge('periodic', f, m, self.points(names, 2), pairs, 'matrix '
            'changes with full period of momentum')

    def reality(self, f, m, names):
        def pairs(p):
            v = self.at(m, p)[1]
            w = self.at(m, {n: -x for n, x in p.items()})[1]
            scale = max(map(abs, v))
            for i, (a, b) in enumerate(zip(w, v)):
                yield str(i), a, conj(b), scale
        self.judge('time-reversal', f, m, self.points(names), pairs, 'matrix '
            'of opposite momentum is not the complex conjugate')

    SYMMETRIES = {
        4: (('rotation by 120 degrees', lambda x, y, z: (y, -x - y, z)),
            ('reflection', lambda x, y, z: (y, x, z))),
        8: (('reflection', lambda x, y, z: (-x, y, z)),),
        }

    def rotations(self, f, m, mat, letters):
        """Invariants of matrices for momenta related by symmetry."""
        lattices = {k.value.value for n in ast.walk(m.tree) if isinstance(n,
            ast.Call) for k in n.keywords if k.arg == 'ibrav' and isinstance(
            k.value, ast.Constant)}
        if len(lattices) != 1:
            return
        ops = self.SYMMETRIES.get(lattices.pop(), ())
        names = [x + i for x in letters for i in '123']
        shape = mat[0]
        def invariants(p):
            v = self.at(mat, p)[1]
            norm = math.sqrt(sum(abs(x) ** 2 for x in v))
            if len(shape) == 3:
                return norm, [norm]
            n = shape[0]
            a = [v[i * n:(i + 1) * n] for i in range(n)]
            b, out = a, []
            for i in range(n):
                out.append(sum(b[j][j] for j in range(n)) / norm ** (i + 1))
                b = [[sum(b[j][l] * a[l][c] for l in range(n))
                    for c in range(n)] for j in range(n)]
            return norm, [norm] + out
        def pairs(p):
            norm, v = invariants(p)
            for label, op in ops:
                o = dict(p)
                for x in letters:
                    o.update(zip((x + i for i in '123'), op(*(p[x + i]
                        for i in '123'))))
                other, w = invariants(o)
                for i, (a, b) in enumerate(zip(w, v)):
                    yield '%s, %d' % (label, i), a, b, norm if not i else 1.0
        self.judge('lattice-symmetry', f, mat, self.points(names, 3), pairs,
            'spectrum changes under symmetry operation of the lattice')

    def mirror(self, f, m, env, mat):
        """Reflection of the crystal in the horizontal plane."""
        r = env.names.get('r')
        n = mat[0][0] // 3
        if not isinstance(r, Arr) or r.shape != (n, 3) or not all(isinstance(x,
                float) for x in r.items()):
            return
        pos = [x.items() for x in r.rows()]
        mean = sum(p[2] for p in pos) / n
        perm = []
        for p in pos:
            image = p[0], p[1], 2 * mean - p[2]
            near = [j for j, o in enumerate(pos) if all(abs(a - b) < 1e-6
                for a, b in zip(image, o))]
            if len(near) != 1:
                return
            perm += near
        sign = [1, 1, -1]
        def pairs(p):
            v = self.at(mat, p)[1]
            w = self.at(mat, dict(p, q3=-p['q3']))[1]
            scale = max(map(abs, v))
            for i in range(3 * n):
                for j in range(3 * n):
                    k = 3 * perm[i // 3] + i % 3
                    l = 3 * perm[j // 3] + j % 3
                    yield '%d,%d' % (i, j), w[k * 3 * n + l] * sign[i % 3] \
                        * sign[j % 3], v[i * 3 * n + j], scale
        self.judge('lattice-symmetry', f, mat, self.points(('q1', 'q2', 'q3'),
            2), pairs, 'force constants change under reflection of the '
            'crystal')

    def masses(self, m, env, size):
        """Atomic masses passed to the mass-spring model of a module."""
        f = m.functions.get('create')
        if f is None:
            raise Undecided('masses')
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call):
                for k in n.keywords:
                    if k.arg == 'amass':
                        v = self.forms.eval(k.value, env, m)
                        v = list(array(v).items())
                        if len(v) * 3 == size and all(isinstance(x, float)
                                for x in v):
                            return v
        raise Undecided('masses')

    def built_in(self, name, m):
        env = self.forms.module(name)
        get = lambda n: env.names[n] if isinstance(env.names.get(n), Fn) \
            else None
        q = ['q1', 'q2', 'q3']
        k = ['k1', 'k2', 'k3']
        for n, names in (('hamiltonian', k), ('dynamical_matrix', q),
                ('coulomb_interaction', q)):
            f = get(n)
            if f is None:
                continue
            try:
                mat = self.matrix(f, names)
            except Undecided as e:
                self.undecided.append('%s.%s: %s' % (m.short, n, e))
                continue
            self.hermitian(f, mat, names)
            self.periodic(f, mat, names)
            self.reality(f, mat, names)
            self.rotations(f, m, mat, names[0][0])
            if n == 'dynamical_matrix':
                self.mirror(f, m, env, mat)
                try:
                    mass = self.masses(m, env, mat[0][0])
                except Undecided as e:
                    self.undecided.append('%s: %s' % (m.short, e))
                    continue
                self.acoustic(f, mat, mass)
        f = get('coupling')
        if f is not None:
            try:
                mat = self.matrix(f, q + k)
                if len(mat[0]) == 3:
                    self.coupling(f, mat, q, k)
                    self.periodic(f, mat, q + k)
                    self.rotations(f, m, mat, 'qk')
                    mass = self.masses(m, env, mat[0][0])
                    self.translation(f, mat, mass, q, k)
            except Undecided as e:
                self.undecided.append('%s.coupling: %s' % (m.short, e))
        f, g = get('derivative'), get('hopping')
        if f is not None and g is not None:
            self.slope(f, g, env)

    def acoustic(self, f, m, mass):
        n = m[0][0]
        def pairs(p):
            v = self.at(m, dict(q1=0.0, q2=0.0, q3=0.0))[1]
            for i in range(n):
                for y in range(3):
                    terms = [math.sqrt(mass[a] * mass[i // 3]) * v[i * n
                        + 3 * a + y] for a in range(n // 3)]
                    yield '%d,%s' % (i, 'xyz'[y]), sum(terms), 0.0, max(map(
                        abs, v)) * max(mass)
        self.judge('sum-rule', f, m, [{}], pairs, 'force constants violate the '
            'acoustic sum rule')

    def coupling(self, f, m, q, k):
        x, a, b = m[0]
        def pairs(p):
            v = self.at(m, p)[1]
            o = {n: -p[n] for n in q}
            o.update({kk: p[kk] + p[qq] for qq, kk in zip(q, k)})
            w = self.at(m, o)[1]
            scale = max(map(abs, v))
            for i in range(x):
                for r in range(a):
                    for c in range(b):
                        yield '%d,%d,%d' % (i, r, c), v[(i * a + r) * b + c], \
                            conj(w[(i * a + c) * b + r]), scale
        self.judge('coupling-hermitian', f, m, self.points(q + k), pairs,
            'coupling is not the adjoint of that for opposite momentum '
            'transfer')

    def translation(self, f, m, mass, q, k):
        x, a, b = m[0]
        def pairs(p):
            v = self.at(m, dict(p, q1=0.0, q2=0.0, q3=0.0))[1]
            scale = max(map(abs, self.at(m, p)[1])) * math.sqrt(max(mass))
            for y in range(3):
                for r in range(a):
                    for c in range(b):
                        yield '%s,%d,%d' % ('xyz'[y], r, c), sum(math.sqrt(
                            mass[n]) * v[((3 * n + y) * a + r) * b + c]
                            for n in range(x // 3)), 0.0, scale
        self.judge('translation', f, m, self.points(q + k), pairs, 'rigid '
            'translation couples to electrons')

    def slope(self, f, g, env):
        """Derivative of the hopping with respect to the bond angle."""
        try:
            t0 = env.names.get('t0')
            a = env.names.get('a')
            if not isinstance(t0, Arr) or not isinstance(a, float):
                return
            if len(f.node.args.args) != 2 or len(g.node.args.args) != 2:
                return
            one = lambda h: [v for p, v in self.forms.cases(lambda:
                self.forms.call(h, [t0.copy(), sym('phi')])) if not p]
            d, h = one(f), one(g)
            if len(d) != 1 or len(h) != 1:
                return
            d, h = nest(d[0]), nest(h[0])
            if d[0] != (2,) + h[0]:
                return
        except Undecided as e:
            self.undecided.append('derivative: %s' % e)
            return
        n = len(h[1])
        def pairs(p):
            v = self.at(d, p)[1]
            w = self.at(h, p, {'phi': 1.0})[1]
            scale = max(map(abs, v))
            s, c = math.sin(p['phi']), math.cos(p['phi'])
            for i in range(n):
                yield str(i), -s * v[i] + c * v[n + i], w[i] / a, scale
        self.judge('hopping-derivative', f, d, [dict(phi=x) for x in (-2.2,
            .4, 1.9)], pairs, 'tangential derivative of the hopping is not '
            'that of the hopping rotated to the bond')

    # --- Bloch sums of general models ---

    CELLS = (0, 0, 0), (1, 0, 0), (-1, 0, 0), (0, 1, -1), (0, -1, 1)

    def bloch(self):
        for short, name, names, settings in (
                ('el', 'H', ('k1', 'k2', 'k3'), {}),
                ('ph', 'D', ('q1', 'q2', 'q3'), dict(lr=False)),
                ('elel', 'W', ('q1', 'q2', 'q3'), {})):
            m = self.project.modules.get('elphmod.' + short)
            cls = m.classes.get('Model') if m is not None else None
            f = cls.methods.get(name) if cls is not None else None
            if f is None:
                continue
            self.forms.module(m.name)
            n, nr = 2, len(self.CELLS)
            data = Arr([sym('d%d' % i) for i in range(nr * n * n)], (nr, n,
                n))
            point = self.data(n)
            def fresh():
                return Obj(cls, dict(settings, data=data.copy(), R=Arr([x
                    for c in self.CELLS for x in c], (nr, 3)), size=n))
            def bound(method):
                return Fn(method.node, m, self.forms.modules[m.name],
                    method.name, bound=fresh())
            try:
                mat = self.matrix(bound(f), names)
            except Undecided as e:
                self.undecided.append('%s.Model.%s: %s' % (short, name, e))
                continue
            if mat[0] != (n, n):
                continue
            fun = bound(f)
            pts = [dict(point, **p) for p in self.points(names)]
            def pairs(p):
                v = self.at(mat, p)[1]
                w = [0] * (n * n)
                for c, cell in enumerate(self.CELLS):
                    ph = cmath.exp(1j * sum(x * p[k] for x, k in zip(cell,
                        names)))
                    for i in range(n * n):
                        w[i] += p['d%d' % (c * n * n + i)] * ph
                for i in range(n * n):
                    yield '%d,%d' % divmod(i, n), v[i], w[i], 1.0
            self.judge('bloch-sum', fun, mat, pts, pairs, 'not the Fourier sum '
                'of the data with positive sign')
            g = cls.methods.get('v') if short == 'el' else None
            if g is not None:
                try:
                    vel = self.matrix(bound(g), names)
                except Undecided as e:
                    self.undecided.append('%s.Model.v: %s' % (short, e))
                    continue
                if vel[0] != (3, n, n):
                    continue
                def pairs(p):
                    v = self.at(vel, p)[1]
                    for x, k in enumerate(names):
                        w = self.at(mat, p, {k: 1.0})[1]
                        for i in range(n * n):
                            yield '%s: %d,%d' % ((k,) + divmod(i, n)), v[x * n
                                * n + i], w[i], 1.0
                self.judge('velocity', bound(g), vel, pts, pairs, 'velocity is '
                    'not the derivative of the Hamiltonian')

    def coupling_model(self):
        m = self.project.modules.get('elphmod.elph')
        cls = m.classes.get('Model') if m is not None else None
        f = cls.methods.get('g') if cls is not None else None
        if f is None:
            return
        env = self.forms.module(m.name)
        q, k = ['q1', 'q2', 'q3'], ['k1', 'k2', 'k3']
        n, x, cells = 2, 3, self.CELLS[:3]
        nr = len(cells)
        size = nr * x * nr * n * n
        R = [y for c in cells for y in c]
        obj = Obj(cls, dict(data=Arr([sym('d%d' % i) for i in range(size)],
            (nr, x, nr, n, n)), Rg=Arr(list(R), (nr, 3)), Rk=Arr(list(R), (nr,
            3)), q=None, gq=Arr([0.0] * (x * nr * n * n), (x, nr, n, n)),
            ph=Obj(None, dict(lr=False, size=x)), el=Obj(None, dict(size=n))))
        fun = Fn(f.node, m, env, 'g', bound=obj)
        try:
            cases = self.forms.cases(lambda: self.forms.call(fun, [], dict({y:
                sym(y) for y in q + k}, comm=Comm())))
            if len(cases) != 1 or cases[0][1] is Raised:
                raise Undecided('cases')
            mat = nest(cases[0][1])
            if mat[0] != (x, n, n):
                raise Undecided('shape')
        except Undecided as e:
            self.undecided.append('elph.Model.g: %s' % e)
            return
        rng = random.Random(5)
        point = {'d%d' % i: complex(rng.uniform(-1, 1), rng.uniform(-1, 1))
            for i in range(size)}
        def pairs(p):
            v = self.at(mat, p)[1]
            dot = lambda c, names: sum(y * p[z] for y, z in zip(c, names))
            for u in range(x):
                for i in range(n * n):
                    w = sum(p['d%d' % ((((a * x + u) * nr + b) * n * n) + i)]
                        * cmath.exp(1j * (dot(cells[a], q) + dot(cells[b], k)))
                        for a in range(nr) for b in range(nr))
                    yield '%d,%d' % (u, i), v[u * n * n + i], w, 1.0
        self.judge('bloch-sum', fun, mat, [dict(point, **y) for y in
            self.points(q + k, 2)], pairs, 'not the Fourier sum of the data '
            'with positive signs')

    def data(self, n):
        rng = random.Random(5)
        point = {}
        for c, cell in enumerate(self.CELLS):
            for i in range(n * n):
                point['d%d' % (c * n * n + i)] = complex(rng.uniform(-1, 1),
                    rng.uniform(-1, 1))
        return point

    def run(self):
        for name, m in sorted(self.project.modules.items()):
            if '.models.' in name:
                self.built_in(name, m)
        self.bloch()
        self.coupling_model()

def conj(x):
    return x.conjugate() if isinstance(x, complex) else x

def show(x):
    if isinstance(x, complex):
        return '%.6g%+.6gj' % (x.real, x.imag)
    return '%.6g' % x

def check(root):
    from . import inverse
    m = Models(root)
    m.run()
    findings, info = inverse.check(root)
    m.done.update(info['identities'])
    return list(m.findings.values()) + findings, dict(identities=m.done,
        undecided=sorted(set(m.undecided + info['undecided'])))
