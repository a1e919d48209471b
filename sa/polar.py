"""Long-range terms of polar crystals (C25)."""

import cmath
import itertools
import math
import random

from .models import Models, show
from .terms import Undecided, Raised, Fn, Obj, Arr, Comm, sym, nest, jet

NAT = 2
SIZE = 3 * NAT
CASES = [
    # layered?, thickness, perpendicular?, quadrupoles?, masses?
    (False, None, False, True, True),
    (False, None, False, False, False),
    (True, None, False, True, False),
    (True, None, False, False, True),
    (True, 7.0, False, True, True),
    (True, 7.0, True, True, True),
    (True, 7.0, True, False, False),
    ]
A = (2.1, 0.0, 0.0), (-0.4, 1.7, 0.0), (0.3, 0.2, 1.9)
LAYER = (2.1, 0.0, 0.0), (-0.9, 1.8, 0.0), (0.0, 0.0, 9.0)
EPS = (5.0, 0.3, 0.2), (0.3, 6.0, -0.4), (0.2, -0.4, 4.0)
ALPHA = 0.3
MOMENTA = (0.0, 0.0, 0.0), (0.9, -0.5, 0.7), (-0.3, 1.1, 0.0)

def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2],
        a[0] * b[1] - a[1] * b[0]]

def dot(a, b):
    return sum(x * y for x, y in zip(a, b))

def norm(a):
    return math.sqrt(dot(a, a))

def form(K, M, n=3):
    return sum(K[i] * M[i][j] * K[j] for i in range(n) for j in range(n))

class Reference:
    """Sums as defined in the literature."""
    def __init__(self, case, p):
        self.layer, self.L, self.perp, self.quad, self.mass = case
        self.a = LAYER if self.layer else A
        volume = abs(dot(self.a[0], cross(self.a[1], self.a[2])))
        sign = dot(self.a[0], cross(self.a[1], self.a[2]))
        self.b = [[2 * math.pi * x / sign for x in cross(self.a[(i + 1) % 3],
            self.a[(i + 2) % 3])] for i in range(3)]
        self.scale = 4 * ALPHA * (2 * math.pi / norm(self.a[0])) ** 2
        if self.layer:
            height = self.a[2][2]
            self.pre = 4 * math.pi / norm(cross(self.a[0], self.a[1]))
            self.r = [[(EPS[i][j] - (i == j)) * height / 2 for j in range(3)]
                for i in range(3)]
        else:
            self.pre = 8 * math.pi / volume
        m = range(-5, 6)
        self.G = [[sum(n[i] * self.b[i][x] for i in range(3)) for x in
            range(3)] for n in itertools.product(m, m, (0,) if self.layer
            else m)]
        self.p = p
        self.Z = [[[p['z%d%d%d' % (n, i, j)] for j in range(3)] for i in
            range(3)] for n in range(NAT)]
        self.Q = [[[[p['q%d%d%d%d' % (n, u, i, j)] for j in range(3)] for i in
            range(3)] for u in range(3)] for n in range(NAT)]
        self.tau = [[p['t%d%d' % (n, i)] for i in range(3)]
            for n in range(NAT)]
        self.M = [p['m%d' % n] for n in range(NAT)]

    def terms(self, q, perp, mass):
        for G in self.G:
            K = [G[x] + sum(q[i] * self.b[i][x] / (2 * math.pi) for i in
                range(3)) for x in range(3)]
            k2 = dot(K, K)
            e2 = k2 if self.layer else form(K, EPS)
            if e2 < 1e-10 or e2 / self.scale > 50:
                continue
            k = math.sqrt(k2)
            phase = [cmath.exp(-1j * dot(K, t)) / (math.sqrt(m) if mass
                else 1) for t, m in zip(self.tau, self.M)]
            if self.layer and self.L is not None:
                f = 1 - math.tanh(k * self.L / 2)
                factor = self.pre * f / k / (1 + f / k * form(K, self.r, 2))
            elif self.layer:
                factor = self.pre * math.exp(-e2 / self.scale) / (k + form(K,
                    self.r, 2))
            else:
                factor = self.pre * math.exp(-e2 / self.scale) / e2
            v = []
            for n in range(NAT):
                for u in range(3):
                    d = 1j * sum(K[e] * self.Z[n][e][u] for e in range(3))
                    if self.quad:
                        d += form(K, self.Q[n][u]) / 2
                        if self.L is not None:
                            d -= k2 * self.Q[n][u][2][2] / 2
                    v.append(d * phase[n])
            yield factor, v
            if perp and self.L is not None:
                factor = -self.pre * f / k / (1 - f * k * self.r[2][2])
                v = []
                for n in range(NAT):
                    for u in range(3):
                        d = 1j * k * self.Z[n][2][u]
                        if self.quad:
                            d += k * sum(self.Q[n][u][2][y] * K[y] for y in
                                range(2))
                        v.append(d * phase[n])
                yield factor, v

    def matrix(self, q, mass=None):
        D = [[0j] * SIZE for i in range(SIZE)]
        for factor, v in self.terms(q, self.perp, self.mass if mass is None
                else mass):
            for i in range(SIZE):
                for j in range(SIZE):
                    D[i][j] += factor * v[i].conjugate() * v[j]
        return D

    def full(self, q):
        D = self.matrix(q)
        at0 = self.matrix((0.0, 0.0, 0.0), False)
        for a in range(NAT):
            for b in range(NAT):
                for x in range(3):
                    for y in range(3):
                        D[3 * a + x][3 * a + y] -= at0[3 * a + x][3 * b + y] \
                            / (self.M[a] if self.mass else 1)
        return [x for row in D for x in row]

    def coupling(self, q):
        g = [0j] * SIZE
        for factor, v in self.terms(q, False, self.mass):
            for i in range(SIZE):
                g[i] += factor * v[i]
        return g

class Polar(Models):
    def classes(self):
        out = {}
        for short in 'ph', 'elph':
            m = self.project.modules.get('elphmod.' + short)
            cls = m.classes.get('Model') if m is not None else None
            if cls is None:
                raise Undecided('no %s.Model' % short)
            out[short] = m, cls, self.forms.module(m.name)
        return out

    def method(self, which, name, obj):
        m, cls, env = self.known[which]
        f = cls.methods.get(name)
        if f is None:
            raise Undecided('no method %s' % name)
        return Fn(f.node, m, env, name, bound=obj)

    def value(self, fun, *args, **kwargs):
        cases = self.forms.cases(lambda: self.forms.call(fun, list(args),
            kwargs))
        cases = [(p, v) for p, v in cases if v is not Raised]
        if len(cases) != 1:
            raise Undecided('cases of %s' % fun.name)
        return cases[0][1]

    def model(self, case):
        layer, L, perp, quad, mass = case
        r3 = range(3)
        flat = lambda rows: Arr([float(x) for row in rows for x in row],
            (3, 3))
        new = lambda name, shape: Arr([sym(name + ''.join(map(str, i)))
            for i in itertools.product(*map(range, shape))], shape)
        return Obj(self.known['ph'][1], dict(a=flat(LAYER if layer else A),
            eps=flat(EPS), alpha=ALPHA, lr=True, lr2d=layer, L=L, perp=perp,
            Z=new('z', (NAT, 3, 3)), Q=new('q', (NAT, 3, 3, 3)) if quad
            else None, r=new('t', (NAT, 3)), M=new('m', (NAT,)),
            divide_mass=mass, nat=NAT, size=SIZE, data=Arr([0.0] * SIZE ** 2,
            (1, SIZE, SIZE)), R=Arr([0, 0, 0], (1, 3))))

    def point(self):
        rng = random.Random(7)
        p = {}
        for n in range(NAT):
            p['m%d' % n] = rng.uniform(1, 3)
            for i in range(3):
                p['t%d%d' % (n, i)] = rng.uniform(-1, 1)
                for j in range(3):
                    p['z%d%d%d' % (n, i, j)] = rng.uniform(-1, 1)
                    for u in range(3):
                        p['q%d%d%d%d' % (n, u, i, j)] = rng.uniform(-1, 1)
        return p

    def one(self, case):
        p = self.point()
        ref = Reference(case, p)
        ph = self.model(case)
        label = ('layer' if case[0] else 'crystal') + (' of finite thickness'
            if case[1] else '') + (', perpendicular fields' if case[2]
            else '') + (', quadrupoles' if case[3] else '') + (', masses'
            if case[4] else '')
        prepare = self.method('ph', 'prepare_long_range', ph)
        self.value(prepare)
        if case[0] and case[4]:
            self.value(prepare) # as after changing settings
            label += ', prepared again'
        for q in MOMENTA if not case[0] else [x[:2] + (0.0,) for x in
                MOMENTA]:
            fun = self.method('ph', 'D', ph)
            self.compare('dynamical-matrix', fun, self.value(fun, *q), p,
                ref.full(q), '%s at %s' % (label, q), (SIZE, SIZE), 'long-'
                'range part of the dynamical matrix')
            if 'g_lr' not in self.known['elph'][1].methods:
                continue
            obj = Obj(self.known['elph'][1], dict(ph=ph))
            fun = self.method('elph', 'g_lr', obj)
            self.compare('coupling', fun, self.value(fun, *q), p,
                ref.coupling(q), '%s at %s' % (label, q), (SIZE,), 'long-'
                'range part of the coupling')

    def total(self, case):
        """Long-range coupling is added to the short-range one."""
        p = self.point()
        ref = Reference(case, p)
        ph = self.model(case)
        self.value(self.method('ph', 'prepare_long_range', ph))
        n, cells = 2, ((1, 0, 0), (0, 0, 0))
        size = 2 * SIZE * 2 * n * n
        rng = random.Random(3)
        p.update(('d%d' % i, rng.uniform(-1, 1)) for i in range(size))
        R = [x for c in cells for x in c]
        q, k = MOMENTA[1], (0.4, -1.1, 2.2)
        obj = Obj(self.known['elph'][1], dict(data=Arr([sym('d%d' % i) for i
            in range(size)], (2, SIZE, 2, n, n)), Rg=Arr(list(R), (2, 3)),
            Rk=Arr(list(R), (2, 3)), q=None, gq=Arr([0.0] * (SIZE * 2 * n * n),
            (SIZE, 2, n, n)), ph=ph, el=Obj(None, dict(size=n)), Rk0=1))
        fun = self.method('elph', 'g', obj)
        want = []
        lr = ref.coupling(q)
        for x in range(SIZE):
            for i in range(n * n):
                want.append(sum(p['d%d' % (((a * SIZE + x) * 2 + b) * n * n
                    + i)] * cmath.exp(1j * (dot(cells[a], q) + dot(cells[b],
                    k))) for a in range(2) for b in range(2))
                    + (lr[x] if i % (n + 1) == 0 else 0))
        names = dict(zip(('q1', 'q2', 'q3', 'k1', 'k2', 'k3'), q + k))
        self.compare('total-coupling', fun, self.value(fun, comm=Comm(),
            **names), p, want, 'total', (SIZE, n, n), 'sum of short- and '
            'long-range coupling')

    def compare(self, what, fun, got, p, want, label, shape, message):
        s, items = nest(got)
        if tuple(s) != shape:
            self.report(what, self.where(fun), 'shape', '%s has shape %s '
                'instead of %s' % (message, tuple(s), shape))
            return
        memo = {}
        vals = [jet(x, p, {}, memo)[0] for x in items]
        top = max(map(abs, want)) or 1.0
        for i, (a, b) in enumerate(zip(vals, want)):
            if not abs(a - b) <= 1e-7 * top:
                self.report(what, self.where(fun), label.split(' at ')[0],
                    '%s is %s instead of %s (%s, element %d)' % (message,
                    show(a), show(b), label, i))
                return
        self.count(what)

    def run(self):
        try:
            self.known = self.classes()
        except Undecided as e:
            self.undecided.append(str(e))
            return
        for case in CASES:
            for f in (self.one,) + ((self.total,) if case is CASES[0]
                    else ()):
                self.forms.steps = 0
                try:
                    f(case)
                except (Undecided, ArithmeticError) as e:
                    self.undecided.append('%s %s: %s' % (f.__name__, case, e))

def check(root):
    c = Polar(root)
    c.run()
    return list(c.findings.values()), dict(identities=c.done, undecided=sorted(
        set(c.undecided)))
