"""Response functions and diagrams (C22)."""

import cmath
import itertools
import math
import random

from .cells import Cells
from .terms import (Undecided, Raised, Arr, Fn, sym, array, nest, jet)

NB = 2          # bands and orbitals
NX = 2          # modes

def fd(x):
    return 1 / (math.exp(x) + 1)

def fd1(x):
    return .25 / math.cosh(x / 2) ** 2

def fd2(x):
    return -fd1(x) * math.tanh(x / 2)

def gs(x):
    return .5 * math.erfc(x)

def gs1(x):
    return math.exp(-x * x) / math.sqrt(math.pi)

class Response(Cells):
    def __init__(self, root):
        Cells.__init__(self, root)
        self.forms.generic = False
        self.forms.letters = 'gGUWV'
        self.func = None

    # --- numbers for the unknowns ---

    def point(self, seed=7, same=()):
        rng = random.Random(seed)
        class Point(dict):
            def __contains__(self, key):
                return not key.startswith('?')
            def __missing__(self, key):
                if key.startswith('?'):
                    raise Undecided('uninitialised')
                z = rng.uniform(.3, 2)
                if key[0] == 'e':
                    z = rng.choice((-1, 1)) * z
                if key[0] in 'gGUWV':
                    z = complex(z, rng.uniform(-2, 2))
                self[key] = z
                return z
        p = Point()
        for group in same:
            for name in group:
                p[name] = p[group[0]]
        return p

    # --- calls ---

    def invoke(self, name, args, kwargs={}, then=None):
        """Terms returned by a function (or the function it returns)."""
        f = self.project.function('diagrams.' + name)
        if f is None:
            raise Undecided('no ' + name)
        self.func = f.qualname
        env = self.forms.module(f.module.name)
        def run():
            copy = lambda x: x.copy() if isinstance(x, Arr) else x
            v = self.forms.call(Fn(f.node, f.module, env, f.name), [copy(a)
                for a in args], {k: copy(a) for k, a in kwargs.items()})
            if then is not None:
                if not isinstance(v, Fn):
                    raise Undecided('no function returned')
                v = self.forms.call(v, list(then), {})
            return v
        self.forms.steps = 0
        self.forms.misused = False
        out = self.forms.cases(run)
        if len(out) == 1 and out[0][1] is Raised and self.forms.misused \
                is True:
            self.report('sequence', self.func, name, 'fails for sequence of '
                'tuples because it is indexed like an array')
        if len(out) != 1 or out[0][1] is Raised:
            raise Undecided('cases')
        return out[0][1]

    def compare(self, label, value, want, points, real=False):
        """Terms and expected numbers at the given points."""
        for p in points:
            memo = {}
            shape, got = self.numbers(value, p, memo)
            expected = want(p)
            if not isinstance(expected, list):
                expected = [expected]
            if len(got) != len(expected):
                self.report('shape', self.func, label, 'result has %d instead '
                    'of %d elements' % (len(got), len(expected)))
                return
            scale = max([1e-6] + [abs(x) for x in expected])
            for i, (x, y) in enumerate(zip(got, expected)):
                if real and isinstance(x, complex):
                    x = x.real
                if not abs(x - y) <= 1e-7 * scale:
                    self.report('definition', self.func, label, 'element %d '
                        'is not the sum that defines it (%s)' % (i, label))
                    return
        self.count('definition')

    # --- meshes ---

    def mesh(self, nk):
        return list(itertools.product(*map(range, nk)))

    def fold(self, k, q, nk):
        return tuple((a + b) % n for a, b, n in zip(k, q, nk))

    def momentum(self, q, nk, shift=0):
        return tuple(2 * math.pi * a / n + 2 * math.pi * shift for a, n in
            zip(q, nk))

    def qpoints(self, qs, nk):
        return [self.momentum(q, nk, (0, 1, -1)[i % 3]) for i, q in
            enumerate(qs)]

    def name(self, letter, *where):
        return letter + '_'.join(map(str, where))

    def v(self, p, letter, *where):
        return p[self.name(letter, *where)]

    def energies(self, nk):
        return self.values('e', *nk, NB)

    def quotient(self, p, k, n, kq, m, f=fd, d=fd1):
        """Difference quotient of occupations."""
        a, b = self.v(p, 'e', *k, n), self.v(p, 'e', *kq, m)
        kT = p['kT']
        if abs(a - b) < 1e-9:
            return -d(a / kT) / kT
        return (f(a / kT) - f(b / kT)) / (a - b)

    def points(self, nk, q):
        """Generic point and point with degeneracies."""
        ks = self.mesh(nk)
        same = []
        k = ks[-1]
        kq = self.fold(k, q, nk)
        if k != kq:
            same.append([self.name('e', *k, 0), self.name('e', *kq, 1)])
        else:
            same.append([self.name('e', *k, 0), self.name('e', *k, 1)])
        return [self.point(3), self.point(5, same)]

    # --- functions ---

    def susceptibility(self):
        nk = 3, 3
        e = self.values('e', *nk)
        for q in (0, 0), (1, 0), (1, 2), (0, 2):
            for shift in 0, 1:
                v = self.invoke('susceptibility', [e], dict(kT=sym('kT'),
                    eta=sym('h')), self.momentum(q, nk, shift))
                def want(p):
                    s = 0
                    for k in self.mesh(nk):
                        a = self.v(p, 'e', *k)
                        b = self.v(p, 'e', *self.fold(k, q, nk))
                        if q == (0, 0):
                            s -= fd1(a / p['kT']) / p['kT']
                        else:
                            s += (fd(b / p['kT']) - fd(a / p['kT'])) * (b - a
                                ) / ((b - a) ** 2 + p['h'] ** 2)
                    return 2 * s / 9
                self.compare('chi', v, want, [self.point(1)])

    def matsubara(self, p, nmats, e1, e2):
        s = 0
        for n in range(nmats):
            nu = (2 * n + 1) * math.pi * p['kT']
            D = -2j * p['hh'] * math.atan(2 * p['hw'] / nu)
            s += (1 / (1j * nu - e1 - D) / (1j * nu - e2 - D)).real + 1 \
                / nu ** 2
        return 4 * p['kT'] * s - .5 / p['kT']

    def susceptibility2(self):
        nk = 2, 2
        e = self.values('e', *nk)
        for q in (1, 0), (1, 1), (0, 1):
            v = self.invoke('susceptibility2', [e], dict(kT=sym('kT'), nmats=3,
                hyb_width=sym('hw'), hyb_height=sym('hh')), self.momentum(q,
                nk))
            self.compare('chi', v, lambda p: sum(self.matsubara(p, 3, self.v(p,
                'e', *k), self.v(p, 'e', *self.fold(k, q, nk))) for k in
                self.mesh(nk)) / 4, [self.point(2)], real=True)

    def phonon_self_energy2(self):
        nk = 2, 2
        e = self.values('e', *nk)
        qs = [(1, 0), (0, 1), (1, 1)]
        v = self.invoke('phonon_self_energy2', [self.qpoints(qs, nk), e, self.values('x', len(qs), NX, *nk)], dict(
            kT=sym('kT'), nmats=3, hyb_width=sym('hw'), hyb_height=sym('hh')))
        self.compare('Pi', v, lambda p: [sum(self.matsubara(p, 3, self.v(p,
            'e', *k), self.v(p, 'e', *self.fold(k, q, nk))) * self.v(p, 'x',
            iq, x, *k) for k in self.mesh(nk)) / 4 for iq, q in enumerate(qs)
            for x in range(NX)], [self.point(2)], real=True)

    def polarization(self):
        for nk, qs in ((3, 2), [(0, 0), (1, 1), (2, 0)]), ((2, 1, 2), [(1, 0,
                1)]):
            e = self.energies(nk)
            U = self.values('U', *nk, NB, NB)
            ks = self.mesh(nk)
            inside = {(k, n): (sum(k) + n) % 3 != 0 for k in ks for n in
                range(NB)}
            subspace = Arr([inside[k, n] for k in ks for n in range(NB)], nk
                + (NB,))
            for q in qs:
                for sub in None, subspace:
                    if q == (2, 0) and sub is not None:
                        continue
                    v = self.invoke('polarization', [e, U], dict(kT=sym('kT'),
                        subspace=sub), self.momentum(q, nk, 1))
                    def want(p):
                        out = []
                        for a in range(NB):
                            for b in range(NB):
                                s = 0
                                for k in ks:
                                    kq = self.fold(k, q, nk)
                                    for m, n in itertools.product(range(NB),
                                            repeat=2):
                                        if sub is not None and inside[k, n] \
                                                and inside[kq, m]:
                                            continue
                                        u = [self.v(p, 'U', *x) for x in (kq
                                            + (a, m), k + (a, n), kq + (b, m),
                                            k + (b, n))]
                                        s += (u[0] * u[1].conjugate()
                                            * self.quotient(p, k, n, kq, m)
                                            * u[2].conjugate() * u[3])
                                out.append(2 * s / len(ks))
                        return out
                    self.compare('cRPA' if sub is not None else 'Pi', v, want,
                        self.points(nk, q))

    def self_energy(self, nk, qs, options):
        e = self.energies(nk)
        ks = self.mesh(nk)
        nq = len(qs)
        kwargs = dict(kT=sym('kT'))
        omega = options.get('omega')
        f, d = fd, fd1
        if 'occupations' in options:
            kwargs['occupations'] = options['occupations']
            f, d = gs, gs1
        if omega is not None:
            kwargs['omega'] = sym('V0') if omega == 0 else array([sym('V%d'
                % i) for i in range(omega)])
        freqs = 1 if not omega else omega
        matrix = 'g' in options
        if matrix:
            kwargs['g'] = self.values('g', nq, NX, *nk, NB, NB)
            if 'G' in options:
                kwargs['G'] = self.values('G', nq, NX, *nk, NB, NB)
            for x in 'symmetrize', 'diagonal':
                if x in options:
                    kwargs[x] = options[x]
            if 'U' in options:
                kwargs['U'] = self.values('x', NB, NB)
        elif 'g2' in options:
            kwargs['g2'] = self.values('y', nq, NX, *nk, NB, NB)
        if 'Delta' in options:
            kwargs['Delta'] = sym('w')
            kwargs['Delta_kT'] = sym('kD')
            kwargs['Delta_diff'] = options['Delta']
        if 'fluctuations' in options:
            kwargs['fluctuations'] = True
        self.forms.generic = True
        try:
            v = self.invoke('phonon_self_energy', [self.qpoints(qs, nk), e],
                kwargs)
        finally:
            self.forms.generic = False
        if 'fluctuations' in options:
            if not isinstance(v, (tuple, list)) or len(v) != 2:
                raise Undecided('result')
            v = v[1]
        label = ','.join(sorted(options))

        def bubble(p, w, k, n, kq, m):
            if omega is None:
                z = self.quotient(p, k, n, kq, m, f, d)
            else:
                a, b = self.v(p, 'e', *k, n), self.v(p, 'e', *kq, m)
                z = (f(a / p['kT']) - f(b / p['kT'])) / (a - b + p['V%d' % w])
            if 'Delta' in options:
                T, D = [], []
                for x in (kq, m), (k, n):
                    y = self.v(p, 'e', *x[0], x[1])
                    y1 = (y - p['w']) / p['kD']
                    y2 = (-y - p['w']) / p['kD']
                    T.append(2 - gs(y1) - gs(y2))
                    D.append(-(gs1(y1) + gs1(y2)) / p['kD'])
                z *= T[0] * D[1] + T[1] * D[0] if options['Delta'] else T[0] \
                    * T[1]
            return z

        def weight(p, iq, nu, k, m, n):
            w = k + (m, n)
            if not matrix:
                return self.v(p, 'y', iq, nu[0], *w) if 'g2' in options else 1
            if options.get('diagonal') and nu[0] != nu[1]:
                return 0
            g = [self.v(p, 'g', iq, x, *w) for x in nu]
            if 'G' not in options:
                return g[0].conjugate() * g[1]
            G = [self.v(p, 'G', iq, x, *w) for x in nu]
            z = g[0].conjugate() * G[1]
            if options.get('symmetrize', True):
                z = (z + G[0].conjugate() * g[1]) / 2
            return z

        def want(p):
            modes = list(itertools.product(range(NX), repeat=2)) if matrix \
                else [(x,) for x in range(NX if 'g2' in options else 1)]
            out = []
            pairs = list(itertools.product(range(NB), repeat=2))
            for iq, q in enumerate(qs):
                for nu in modes:
                    for w in range(freqs):
                        t = [weight(p, iq, nu, k, m, n) * bubble(p, w, k, n,
                            self.fold(k, q, nk), m) for k in ks for m, n in
                            pairs]
                        if 'fluctuations' in options:
                            out.extend(2 * x for x in t)
                            continue
                        s = 2 * sum(t) / len(ks)
                        if 'U' in options:
                            for m, n in pairs:
                                b = [bubble(p, w, k, n, self.fold(k, q, nk), m)
                                    for k in ks]
                                c = 2 * sum(b) / len(ks)
                                right = 'G' if 'G' in options else 'g'
                                L = 2 / len(ks) * sum(self.v(p, 'g', iq, nu[0],
                                    *k, m, n).conjugate() * x for k, x in
                                    zip(ks, b))
                                R = 2 / len(ks) * sum(self.v(p, right, iq,
                                    nu[1], *k, m, n) * x for k, x in zip(ks,
                                    b))
                                u = self.v(p, 'x', m, n)
                                s += L * u / (1 - c * u) * R
                        out.append(s)
            return out
        self.compare(label or 'Pi', v, want, self.points(nk, qs[-1])
            if omega is None else [self.point(3)])

    def phonon_self_energy(self):
        nk = 3, 2
        qs = [(0, 0), (1, 1)]
        for options in ({}, dict(g2=1), dict(g=1), dict(g=1, G=1),
                dict(g=1, G=1, symmetrize=False), dict(g=1, diagonal=True),
                dict(g2=1, omega=0), dict(g=1, omega=2), dict(g2=1,
                Delta=False), dict(g2=1, Delta=True), dict(g=1, U=1),
                dict(g=1, G=1, U=1, symmetrize=False), dict(g2=1,
                fluctuations=1), dict(g=1, fluctuations=1), dict(g2=1,
                occupations='gauss')):
            self.attempt(self.self_energy, nk, qs, options)
        self.attempt(self.self_energy, (2, 1, 2), [(1, 0, 1)], dict(g=1))
        self.attempt(self.self_energy, nk, [(0, 0)], dict(g2=1))

    def fermi_shift(self):
        nk = 3, 2
        ks = self.mesh(nk)
        v = self.invoke('phonon_self_energy_fermi_shift', [self.energies(nk),
            self.values('x', NX, *nk, NB, NB)], dict(kT=sym('kT')))
        def want(p):
            d = {(k, n): fd1(self.v(p, 'e', *k, n) / p['kT']) / p['kT'] for k
                in ks for n in range(NB)}
            D = sum(d.values())
            g = [sum(self.v(p, 'x', x, *k, n, n) * y for (k, n), y in
                d.items()) for x in range(NX)]
            return [2 / len(ks) * a * b / D for a in g for b in g]
        self.compare('shift', v, want, [self.point(4)])

    def bubbles(self, p, q, nk, bands=NB):
        return {(k, m, n): self.quotient(p, k, n, self.fold(k, q, nk), m)
            for k in self.mesh(nk) for m in range(bands) for n in range(bands)}

    def interaction(self, p, dd, iq, a, b, c, d):
        if dd:
            return self.v(p, 'W', iq, a, c) if a == b and c == d else 0
        return self.v(p, 'W', iq, a, b, c, d)

    def renormalize_band(self):
        nk = 2, 1
        ks = self.mesh(nk)
        qs = [(1, 0), (0, 0)]
        orb = range(NB)
        for dd, sub in (True, None), (False, None), (True, 1):
            W = self.values('W', len(qs), *[NB] * (2 if dd else 4))
            v = self.invoke('renormalize_coupling_band', [self.qpoints(qs, nk),
                self.energies(nk), self.values('g', len(qs), NX, *nk, NB, NB),
                W, self.values('U', *nk, NB, NB)], dict(kT=sym('kT'),
                nbnd_sub=sub, status=False))
            def want(p):
                out = []
                for iq, q in enumerate(qs):
                    L = self.bubbles(p, q, nk, sub or NB)
                    U = lambda k, a, m: self.v(p, 'U', *k, a, m)
                    for x in range(NX):
                        P = {(c, d): 2 / len(ks) * sum(U(self.fold(k, q, nk),
                            c, m) * U(k, d, n).conjugate() * y * self.v(p, 'g',
                            iq, x, *k, m, n) for (k, m, n), y in L.items())
                            for c in orb for d in orb}
                        D = {(a, b): sum(self.interaction(p, dd, iq, a, b, c,
                            d) * P[c, d] for c, d in P) for a in orb for b in
                            orb}
                        for k in ks:
                            for m in range(NB):
                                for n in range(NB):
                                    out.append(self.v(p, 'g', iq, x, *k, m, n)
                                        + sum(U(self.fold(k, q, nk), a,
                                        m).conjugate() * U(k, b, n) * D[a, b]
                                        for a, b in D))
                return out
            self.compare('dd=%s,sub=%s' % (dd, sub), v, want, self.points(nk,
                qs[0]))

    def orbital(self, name):
        nk = 2, 1
        ks = self.mesh(nk)
        qs = [(1, 0), (0, 0)]
        orb = range(NB)
        for dd in True, False:
            W = self.values('W', len(qs), *[NB] * (2 if dd else 4))
            args = [self.qpoints(qs, nk), self.energies(nk), self.values('g',
                len(qs), NX, *nk, NB, NB)]
            if name == 'Pi_g':
                v = self.invoke(name, args + [self.values('U', *nk, NB, NB)],
                    dict(kT=sym('kT'), dd=dd, status=False))
            else:
                v = self.invoke(name, args + [W, self.values('U', *nk, NB,
                    NB)], dict(kT=sym('kT'), status=False))
            def want(p):
                out = []
                U = lambda k, a, m: self.v(p, 'U', *k, a, m)
                for iq, q in enumerate(qs):
                    L = self.bubbles(p, q, nk)
                    for x in range(NX):
                        B = {(k, m, n): sum(U(self.fold(k, q, nk), a,
                            m).conjugate() * U(k, b, n) * self.v(p, 'g', iq, x,
                            *k, a, b) for a in orb for b in orb) for k, m, n
                            in L}
                        P = {(c, d): 2 / len(ks) * sum(U(self.fold(k, q, nk),
                            c, m) * U(k, d, n).conjugate() * y * B[k, m, n]
                            for (k, m, n), y in L.items()) for c in orb for d
                            in orb}
                        if name == 'Pi_g':
                            out.extend(P[c, d] for c in orb for d in orb if not
                                dd or c == d)
                            continue
                        D = {(a, b): sum(self.interaction(p, dd, iq, a, b, c,
                            d) * P[c, d] for c, d in P) for a in orb for b in
                            orb}
                        out.extend(self.v(p, 'g', iq, x, *k, a, b) + D[a, b]
                            for k in ks for a in orb for b in orb)
                return out
            self.compare('dd=%s' % dd, v, want, self.points(nk, qs[0]))

    def double_average(self):
        nk = 3, 2
        ks = self.mesh(nk)
        qs = [(0, 0), (2, 1)]
        for given in True, False:
            kwargs = dict(kT=sym('kT'))
            if given:
                kwargs['g2'] = self.values('y', len(qs), NX, *nk, NB, NB)
            v = self.invoke('double_fermi_surface_average', [self.qpoints(qs,
                nk), self.energies(nk)], kwargs)
            if not isinstance(v, (tuple, list)) or len(v) != 2:
                raise Undecided('result')
            def d2(p, q):
                d = lambda k, n: fd1(self.v(p, 'e', *k, n) / p['kT']) / p['kT']
                return {k + (m, n): d(self.fold(k, q, nk), m) * d(k, n) for k
                    in ks for m in range(NB) for n in range(NB)}
            self.compare('enumerator', v[0], lambda p: [sum((self.v(p, 'y', iq,
                x, *w) if given else 1) * y for w, y in d2(p, q).items()) for
                iq, q in enumerate(qs) for x in range(NX if given else 1)],
                [self.point(6)])
            self.compare('denominator', v[1], lambda p: [sum(d2(p, q).values())
                for q in qs], [self.point(6)])

    def grand_potential(self):
        nk = 3, 2
        for occ in 'fd', 'gauss':
            v = self.invoke('grand_potential', [self.energies(nk)], dict(
                kT=sym('kT'), occupations=occ))
            def want(p):
                s = 0
                for k in self.mesh(nk):
                    for n in range(NB):
                        x = self.v(p, 'e', *k, n) / p['kT']
                        if occ == 'fd':
                            s -= max(-x, 0) + math.log1p(math.exp(-abs(x)))
                        else:
                            s += x * gs(x) - gs1(x) / 2
                return 2 * p['kT'] * s / 6
            deep = self.point(9)
            deep['e0_0_0'] = -900 * deep['kT']
            deep['e1_0_0'] = 900 * deep['kT']
            self.compare(occ, v, want, [self.point(8), deep])

    def first_order(self):
        nk = 3, 2
        ks = self.mesh(nk)
        for orbital in False, True:
            kwargs = dict(kT=sym('kT'))
            if orbital:
                kwargs['U'] = self.values('U', *nk, NB, NB)
            v = self.invoke('first_order', [self.energies(nk), self.values('g',
                NX, *nk, NB, NB)], kwargs)
            def want(p):
                out = []
                for x in range(NX):
                    s = 0
                    for k in ks:
                        for n in range(NB):
                            if orbital:
                                g = sum(self.v(p, 'U', *k, a, n).conjugate()
                                    * self.v(p, 'g', x, *k, a, b) * self.v(p,
                                    'U', *k, b, n) for a in range(NB) for b in
                                    range(NB))
                            else:
                                g = self.v(p, 'g', x, *k, n, n)
                            s += fd(self.v(p, 'e', *k, n) / p['kT']) * g
                    out.append(2 * s / len(ks))
                return out
            self.compare('orbital' if orbital else 'band', v, want,
                [self.point(9)])

    def divided(self, e, kT):
        """Second divided difference of the Fermi function."""
        a, b, c = e
        f = lambda x: fd(x / kT)
        same = [abs(x - y) < 1e-9 for x, y in ((b, c), (c, a), (a, b))]
        if all(same):
            return -.5 * fd2(a / kT) / kT ** 2
        if same[0]:
            a, b, c = b, c, a
        elif same[1]:
            a, b, c = c, a, b
        if any(same):
            return (-fd1(a / kT) / kT - (f(a) - f(c)) / (a - c)) / (a - c)
        return ((f(a) - f(b)) / (a - b) - (f(a) - f(c)) / (a - c)) / (b - c)

    def triangle(self):
        nk = 3, 2
        ks = self.mesh(nk)
        for q, Q, fluct in ((1, 0), (2, 1), False), ((0, 1), (1, 0), True):
            v = self.invoke('triangle', [self.momentum(q, nk), self.momentum(Q,
                nk), self.energies(nk)] + [self.values(x, *nk, NB, NB) for x
                in ('gq', 'gQ', 'gd')], dict(kT=sym('kT'), fluctuations=fluct))
            if fluct:
                if not isinstance(v, (tuple, list)) or len(v) != 2:
                    raise Undecided('result')
                v = v[1]
            def want(p):
                out = []
                for k in ks:
                    kq, kQ = self.fold(k, q, nk), self.fold(k, Q, nk)
                    for a, b, c in itertools.product(range(NB), repeat=3):
                        w = [self.v(p, 'e', *x) for x in (k + (a,), kq + (b,),
                            kQ + (c,))]
                        out.append(4 * self.divided(w, p['kT']) * self.v(p,
                            'gq', *k, b, a).conjugate() * self.v(p, 'gQ', *k,
                            c, a) * self.v(p, 'gd', *kQ, b, c))
                return out if fluct else sum(out) / len(ks)
            k = ks[3]
            names = [self.name('e', *x) for x in (k + (0,), self.fold(k, q, nk)
                + (1,), self.fold(k, Q, nk) + (0,))]
            for i, same in enumerate(((), names, names[:2], names[1:],
                    names[::2])):
                self.compare('triangle', v, want, [self.point(20 + i, [same]
                    if same else [])])

    def fan_migdal(self):
        nq = 3, 2
        ks = [(1, 1), (0, 0)]
        v = self.invoke('fan_migdal_self_energy', [self.qpoints(ks, nq),
            self.energies(nq), self.values('w', *nq, NX), self.values('y', *nq,
            NX, len(ks), NB, NB), array([sym('V0'), sym('V1')])], dict(
            kT=sym('kT')))
        def want(p):
            out = []
            for ik, k in enumerate(ks):
                for n in range(NB):
                    for i in range(2):
                        s = 0
                        for q in self.mesh(nq):
                            for x in range(NX):
                                w = self.v(p, 'w', *q, x)
                                N = 1 / (math.exp(w / p['kT']) - 1)
                                for m in range(NB):
                                    e = self.v(p, 'e', *self.fold(k, q, nq), m)
                                    f = fd(e / p['kT'])
                                    z = p['V%d' % i] - e
                                    s += self.v(p, 'y', *q, x, ik, m, n) * (
                                        (f + N) / (z + w) + (1 - f + N) / (z
                                        - w))
                        out.append(s / 6)
            return out
        self.compare('Sigma', v, want, [self.point(10)])

    def conductivity(self):
        nk, nd, omega = (2, 1), 2, [-.5, -.25, 0.0, .25, .5]
        nw = len(omega)
        for dc in False, True:
            v = self.invoke('green_kubo_conductivity', [self.values('x', *nk,
                NB, nd), self.values('y', *nk, NB, nw), array(omega)], dict(
                kT=sym('kT'), dc_only=dc))
            def want(p):
                out = []
                f = [fd(x / p['kT']) for x in omega]
                d = [fd1(x / p['kT']) / p['kT'] for x in omega]
                for i in range(2, 3) if dc else range(nw):
                    for a in range(nd):
                        for b in range(nd):
                            s = 0
                            for j in range(nw):
                                l = j + i - 2
                                if not 0 <= l < nw:
                                    continue
                                z = d[j] if i == 2 else (f[j] - f[l]) \
                                    / omega[i]
                                dw = .125 if dc and j in (0, 4) else .25
                                for k in self.mesh(nk):
                                    for n in range(NB):
                                        s += (z * dw * self.v(p, 'x', *k, n,
                                            a) * self.v(p, 'x', *k, n, b)
                                            * self.v(p, 'y', *k, n, j)
                                            * self.v(p, 'y', *k, n, l))
                            out.append(4 * math.pi / 2 * s)
                return out
            self.compare('static' if dc else 'dynamic', v, want,
                [self.point(11)])

    def attempt(self, f, *args):
        try:
            f(*args)
        except (Undecided, Raised, ArithmeticError, AttributeError,
                LookupError, TypeError, ValueError, RecursionError) as e:
            self.undecided.append('%s%s: %s: %s' % (f.__name__, args[-1:],
                type(e).__name__, e))

    def run(self):
        for f in (self.susceptibility, self.susceptibility2,
                self.polarization, self.phonon_self_energy, self.fermi_shift,
                self.phonon_self_energy2, self.renormalize_band,
                self.double_average, self.grand_potential, self.first_order,
                self.triangle, self.fan_migdal, self.conductivity):
            self.attempt(f)
        for name in 'Pi_g', 'renormalize_coupling_orbital':
            self.attempt(self.orbital, name)

def check(root):
    c = Response(root)
    c.run()
    return list(c.findings.values()), dict(identities=c.done, undecided=sorted(
        set(c.undecided)))
