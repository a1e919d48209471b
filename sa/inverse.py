"""Transforms from meshes of momenta to real space (C19)."""

import cmath
import itertools
import math

from .cells import Cells
from .terms import (Undecided, Raised, T, Arr, Fn, Obj, Comm, sym, array,
    apply, nest)

class Inverse(Cells):
    def __init__(self, root):
        Cells.__init__(self, root)
        self.forms.stubs['bravais', 'wigner'] = self.wigner

    def wigner(self, nr1, nr2, nr3, at, tau, tau2=None, eps=None, sgn=1,
            nsc=2):
        """Lattice vectors of a generic cell with degeneracies."""
        n1 = nest(tau)[0][0]
        n2 = nest(tau if tau2 is None else tau2)[0][0]
        deg = {}
        for i in range(n1):
            for j in range(n2):
                for m in itertools.product(range(nr1), range(nr2),
                        range(nr3)):
                    copies = [m]
                    # bonds in opposite directions have opposite vectors
                    if 1 in m and (i + j) % 2 == 0:
                        copies = [m, tuple(x - n * (x == 1) for x, n in
                            zip(m, (nr1, nr2, nr3)))]
                    elif nr1 > 1 and m[0] == nr1 - 1 and i != j:
                        copies = [(-1,) + m[1:]]
                    for R in copies:
                        deg.setdefault(R, {})[i, j] = len(copies)
        keys = sorted(deg)
        return (Arr([x for R in keys for x in R], (len(keys), 3)),
            Arr([deg[R].get((i, j), 0) for R in keys for i in range(n1)
                for j in range(n2)], (len(keys), n1, n2)),
            Arr([1.0] * (len(keys) * n1 * n2), (len(keys), n1, n2)))

    def phase(self, m, R, mesh):
        return cmath.exp(2j * math.pi * sum(a * b / n for a, b, n in zip(m, R,
            mesh)))

    def mesh_data(self, prefix, n, mesh):
        """Matrices on a mesh as Fourier sums of unknown data."""
        pts = list(itertools.product(*map(range, mesh)))
        x = {m: [sym('%s%s_%d' % (prefix, '_'.join(map(str, m)), i))
            for i in range(n * n)] for m in pts}
        out = []
        for k in pts:
            ph = {m: self.phase(k, m, mesh) for m in pts}
            for i in range(n * n):
                s = 0
                for m in pts:
                    s = apply('+', s, apply('*', ph[m], x[m][i]))
                out.append(s)
        return Arr(out, mesh + (n, n))

    def matrix_transform(self, short, name, make, call, n, letter, factor,
            mesh):
        """call(obj, data) -> arguments; factor(point, i, j) of elements."""
        f = self.project.function('%s.%s' % (short, name))
        if f is None:
            return
        env = self.forms.module(f.module.name)
        data = self.mesh_data(letter, n, mesh)
        def run():
            obj = make()
            args, kwargs = call(obj, data.copy())
            self.forms.call(Fn(f.node, f.module, env, f.name), [obj] + args,
                kwargs)
            return obj
        self.forms.steps = 0
        out = [v for p, v in self.forms.cases(run) if v is not Raised]
        where = f.qualname
        for obj in out:
            point, memo = self.point(), {}
            m, got = self.matrices(obj, point, memo)
            if m != n:
                raise Undecided('size')
            shape, want = self.numbers(data, point, memo)
            weights = obj.attrs.get('divide_ndegen', True)
            atoms = 3 if short == 'ph' else 1
            for b, k in enumerate(itertools.product(*map(range, mesh))):
                for i in range(n):
                    for j in range(n):
                        s = 0
                        for R, M in got.items():
                            z = M[i * n + j]
                            if not weights:
                                d = self.degeneracy(n // atoms, R, i // atoms,
                                    j // atoms, mesh)
                                if not d:
                                    continue
                                z = z / d
                            s += z * self.phase(k, R, mesh)
                        w = want[(b * n + i) * n + j] * factor(point, i, j)
                        if not abs(s - w) <= 1e-8 * max(1, abs(w)):
                            self.report('inverse', where, 'transform',
                                'Fourier sum of the real-space data does not '
                                'reproduce the original matrices (element '
                                '%d,%d at mesh point %s)' % (i, j, k))
                            return
            self.count('transforms to real space')

    def degeneracy(self, n, R, i, j, mesh):
        irvec, deg, _ = self.wigner(*mesh, None, Arr([0.0] * n * 3, (n, 3)))
        for k, r in enumerate(irvec.rows()):
            if tuple(r.items()) == R:
                return deg.get(k, i, j)
        return 0

    def transforms(self):
        one = lambda point, i, j: 1
        for divide in True, False:
            for ry in False, True:
                self.attempt('el', 'k2r', lambda: self.el(size=None,
                    data=None, R=None, divide_ndegen=divide, rydberg=ry),
                    lambda obj, H: ([H, self.values('a', 3, 3), self.values(
                    'r', 2, 3)], dict(rydberg=ry)), 2, 't', one,
                    (3, 3, 1) if ry else (1, 3, 3))
        self.attempt('elel', 'q2r', lambda: self.elel(size=2, data=None,
            R=None), lambda obj, W: ([W, self.values('a', 3, 3), self.values(
            'r', 2, 3)], {}), 2, 'u', one, (3, 2, 3))
        for divide, given, mass in ((True, True, True), (False, True, True),
                (True, False, False), (True, True, False), (True, False,
                True)):
            def factor(point, i, j):
                f = math.sqrt(point['m%d' % (i // 3)] * point['m%d' % (j
                    // 3)])
                return f ** (given - mass)
            self.attempt('ph', 'q2r', lambda: self.ph(data=None, R=None,
                divide_ndegen=divide, divide_mass=mass), lambda obj, D: ([],
                dict(D_full=D, divide_mass=given)), 6, 'c', factor, (3, 1, 2)
                if given else (1, 3, 1))
        try:
            for nq, nk in (((3, 1, 1), (1, 3, 1)), ((1, 3, 1), (1, 1, 3)), ((1,
                    1, 3), (3, 1, 1))):
                self.coupling_transform(nq, nk)
        except Undecided as e:
            self.undecided.append('elph.q2r: %s' % e)

    def attempt(self, short, name, *args):
        try:
            self.matrix_transform(short, name, *args)
        except Undecided as e:
            self.undecided.append('%s.%s: %s' % (short, name, e))

    def coupling_transform(self, nq, nk):
        f = self.project.function('elph.q2r')
        if f is None:
            return
        env = self.forms.module(f.module.name)
        qs = list(itertools.product(*map(range, nq)))
        ks = list(itertools.product(*map(range, nk)))
        elements = list(itertools.product(range(3), range(2), range(2)))
        x = {(q, k, e): sym('g' + '_'.join(map(str, q + k + e))) for q in qs
            for k in ks for e in elements}
        items = {}
        for q in qs:
            for k in ks:
                for e in elements:
                    s = 0
                    for Q in qs:
                        for K in ks:
                            s = apply('+', s, apply('*', self.phase(q, Q, nq)
                                * self.phase(k, K, nk), x[Q, K, e]))
                    items[q, k, e] = s
        data = Arr([items[q, k, (n, a, b)] for q in qs for n in range(3)
            for k in ks for a in range(2) for b in range(2)], (len(qs), 3)
            + nk + (2, 2))
        def run():
            obj = self.elph()
            self.forms.call(Fn(f.node, f.module, env, f.name), [obj, nq, nk,
                data.copy()], dict(r=self.values('r', 2, 3)))
            return obj
        self.forms.steps = 0
        for obj in [v for p, v in self.forms.cases(run) if v is not Raised]:
            point, memo = self.point(), {}
            got = self.coupling_table(obj, point, memo)
            for q in qs:
                for k in ks:
                    for e in elements:
                        s = sum(b[e] * self.phase(q, G, nq) * self.phase(k, K,
                            nk) for (G, K), b in got.items())
                        w = self.numbers(items[q, k, e], point, memo)[1][0]
                        if not abs(s - w) <= 1e-8 * max(1, abs(w)):
                            self.report('inverse', f.qualname, 'transform',
                                'Fourier sum of the real-space data does not '
                                'reproduce the original coupling (element %s)'
                                % (e,))
                            return
            self.count('transforms to real space')

def check(root):
    c = Inverse(root)
    c.transforms()
    return list(c.findings.values()), dict(identities=c.done, undecided=sorted(
        set(c.undecided)))
