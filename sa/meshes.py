"""Interpolation and integration on meshes (C23)."""

import cmath
import itertools
import math
import random

from .cells import Cells
from .terms import (Undecided, Raised, Arr, Fn, sym, array, nest, jet)

class Point(dict):
    """Numbers for the unknowns, some of which are given."""
    def __init__(self, seed, given=()):
        dict.__init__(self, given)
        self.rng = random.Random(seed)

    def __contains__(self, key):
        return not key.startswith('?')

    def __missing__(self, key):
        if key.startswith('?'):
            raise Undecided('uninitialised')
        z = self.rng.uniform(.5, 2)
        if key[0] == 'z':
            z = complex(z, self.rng.uniform(-2, 2))
        self[key] = z
        return z

# --- references ---

def corners(x, y, angle):
    """Corners of the cell around a point and their barycentric weights."""
    n, m = math.floor(x), math.floor(y)
    a, b = x - n, y - m
    if angle == 90:
        w = {(0, 0): (1 - a) * (1 - b), (1, 0): a * (1 - b), (0, 1): (1 - a)
            * b, (1, 1): a * b}
    elif angle == 60:
        w = {(1, 1): a + b - 1, (1, 0): 1 - b, (0, 1): 1 - a} if a + b > 1 \
            else {(0, 0): 1 - a - b, (1, 0): a, (0, 1): b}
    else:
        w = {(0, 0): 1 - a, (1, 1): b, (1, 0): a - b} if a > b else {
            (0, 0): 1 - b, (1, 1): a, (0, 1): b - a}
    return {(n + i, m + j): c for (i, j), c in w.items()}

def nearest(values, period):
    """Representatives within the shortest distance of each other."""
    best = None
    for shift in itertools.product((-1, 0, 1), repeat=len(values) - 1):
        v = [values[0]] + [x + s * period for x, s in zip(values[1:], shift)]
        d = max(v) - min(v)
        if best is None or d < best[0]:
            best = d, v
    return best[1]

def images(n, m, N, angle):
    """Shortest vectors equivalent to a mesh point."""
    c = round(2 * math.cos(math.radians(angle)))
    out = {}
    for i, j in itertools.product(range(-2, 3), repeat=2):
        x, y = n + i * N, m + j * N
        out.setdefault(x * x + c * x * y + y * y, []).append((x, y))
    return out[min(out)]

def triangles(N):
    for i, j, k in itertools.product(range(N), range(N), range(2)):
        yield [(i + k, j + k), (i + 1, j), (i, j + 1)]

def slice_triangle(e, f, E):
    """Integral of delta(e - E) f over triangle of unit area."""
    (A, a), (B, b), (C, c) = sorted(zip(e, f), key=lambda x: x[0])
    if not A <= E <= C or A == C:
        return 0.0
    if A == B == E:
        return (1 / (C - E)) * (a + b) / 2
    if B == C == E:
        return (1 / (E - A)) * (b + c) / 2
    mix = lambda P, p, Q, q: p + (q - p) * (E - P) / (Q - P)
    if E <= B:
        return 2 * (E - A) / (B - A) / (C - A) * .5 * (mix(A, a, B, b) + mix(
            A, a, C, c))
    return 2 * (C - E) / (C - A) / (C - B) * .5 * (mix(A, a, C, c) + mix(B, b,
        C, c))

class Meshes(Cells):
    def __init__(self, root):
        Cells.__init__(self, root)
        self.forms.generic = False
        self.forms.letters = 'z'

    def invoke(self, name, args, kwargs={}, then=None, point=None, ends=None,
            keep=None):
        """Result of a function (or of the function it returns)."""
        f = self.project.function(name)
        if f is None:
            raise Undecided('no ' + name)
        self.func = f.qualname
        env = self.forms.module(f.module.name)
        self.forms.point = point
        self.forms.memo = {}
        def run():
            copy = lambda x: x.copy() if isinstance(x, Arr) and x is not keep \
                else x
            v = self.forms.call(Fn(f.node, f.module, env, f.name), [copy(a)
                for a in args], {k: copy(a) for k, a in kwargs.items()})
            if ends is not None:
                return ends(v)
            if then is not None:
                return [self.forms.call(v, list(t), {}) for t in then]
            return v
        self.forms.steps = 0
        self.forms.misused = False
        try:
            out = self.forms.cases(run)
        except Undecided:
            if self.forms.misused == 'unhashable':
                self.report('type', self.func, 'set', 'fails because an array '
                    'is added to a set')
            if self.forms.misused == 'range':
                self.report('type', self.func, 'index', 'fails because an '
                    'index is out of range')
            raise
        finally:
            self.forms.point = None
        if len(out) != 1 or out[0][1] is Raised:
            raise Undecided('cases')
        return out[0][1]

    def compare(self, rule, label, value, want, point, real=False):
        memo = {}
        shape, got = self.numbers(value, point, memo)
        if len(got) != len(want):
            self.report('shape', self.func, label, 'result has %d instead of '
                '%d elements' % (len(got), len(want)))
            return
        scale = max([abs(x) for x in want if abs(x) < 1e300] + [1e-12])
        for i, (x, y) in enumerate(zip(got, want)):
            if real and isinstance(x, complex):
                x = x.real
            if x == y:
                continue
            if not abs(x - y) <= 1e-7 * scale:
                self.report(rule, self.func, label, 'value %d is %s instead '
                    'of %s for data of order one (%s)' % (i, short(x),
                    short(y), label))
                return
        self.count(rule)

    # --- linear interpolation ---

    places1 = [0.0, 1, 0.25, 2.5, 3.75, -0.25, -4.5, 7.125]
    places2 = [(0, 0), (1, 2), (0.25, 0.5), (0.75, 0.5), (1.5, 0.25),
        (1.5, 2.875), (2.75, 2.5), (-0.25, -0.125), (-3.5, 5.25), (0.5, -1.75),
        (6.875, -0.75), (1.25, 1.25), (2.5, 1.5)]

    def get(self, point, name, w, shape):
        return point[name + '_'.join(str(i % n) for i, n in zip(w, shape))]

    def linear_1d(self, N):
        p = Point(1)
        v = self.invoke('bravais.linear_interpolation', [self.values('x', N)],
            dict(axes=0), [(x,) for x in self.places1], p)
        want = [sum((1 - abs(x - n)) * self.get(p, 'x', (n,), (N,)) for n in
            (math.floor(x), math.floor(x) + 1)) for x in self.places1]
        self.compare('interpolation', 'one axis', array(v), want, p)

    def linear_2d(self, angle):
        for shape in (3, 3), (2, 4):
            p = Point(2)
            v = self.invoke('bravais.linear_interpolation', [self.values('x',
                *shape)], dict(angle=angle), self.places2, p)
            want = [sum(c * self.get(p, 'x', w, shape) for w, c in corners(x,
                y, angle).items()) for x, y in self.places2]
            self.compare('interpolation', '%d deg.' % angle, array(v), want, p)

    def linear_axes(self, angle, axes):
        shape = 3, 2, 4
        rest = [i for i in range(3) if i not in axes][0]
        p = Point(3)
        for polar in False, True:
            if polar:
                for w in itertools.product(*map(range, shape)):
                    p['z%d_%d_%d' % w] = cmath.rect(p['r%d_%d_%d' % w], 3.1
                        + .1 * math.sin(w[0] + 2 * w[1] + 5 * w[2]))
            name = 'z' if polar else 'x'
            def value(x, y, k):
                new = [0, 0, 0]
                new[rest] = k
                u, c = [], []
                for (i, j), weight in corners(x, y, angle).items():
                    new[axes[0]], new[axes[1]] = i, j
                    u.append(self.get(p, name, new, shape))
                    c.append(weight)
                if not polar:
                    return sum(i * j for i, j in zip(u, c))
                phi = nearest([cmath.phase(z) for z in u], 2 * math.pi)
                return cmath.rect(sum(abs(i) * j for i, j in zip(u, c)), sum(
                    i * j for i, j in zip(phi, c)))
            label = 'axes %s%s' % (axes, ', polar' if polar else '')
            data = self.values(name, *shape)
            v = self.invoke('bravais.linear_interpolation', [data], dict(
                angle=angle, axes=axes, polar=polar), self.places2, p)
            self.compare('interpolation', label, array(v), [value(x, y, k) for
                x, y in self.places2 for k in range(shape[rest])], p)
            v = self.invoke('bravais.resize', [data, (2, 3)], dict(angle=angle,
                axes=axes, polar=polar), point=p)
            new = list(shape)
            new[axes[0]], new[axes[1]] = 2, 3
            self.compare('resize', label, v, [value(w[axes[0]] * shape[axes[
                0]] / 2, w[axes[1]] * shape[axes[1]] / 3, w[rest]) for w in
                itertools.product(*map(range, new))], p)

    def linear_period(self, angle):
        period = 2.0
        shape = 3, 3
        given = {'x%d_%d' % w: [.9, -.8, .7, -.95, -.6, .85, .75, -.7, .99][
            3 * w[0] + w[1]] for w in itertools.product(range(3), repeat=2)}
        p = Point(4, given)
        v = self.invoke('bravais.linear_interpolation', [self.values('x',
            *shape)], dict(angle=angle, period=period), self.places2, p)
        got = self.numbers(array(v), p, {})[1]
        for x, (a, b) in zip(got, self.places2):
            c = corners(a, b, angle)
            u = nearest([self.get(p, 'x', w, shape) for w in c], period)
            y = sum(f * g for f, g in zip(c.values(), u))
            d = (x - y) / period
            if abs(d - round(d)) > 1e-7:
                self.report('interpolation', self.func, 'period', 'values '
                    'interpolated on periodic axis do not lie between the '
                    'closest representatives')
                return
        self.count('interpolation')

    def linear_polar(self, angle):
        shape = 3, 3
        p = Point(5)
        for w in itertools.product(range(3), repeat=2):
            p['z%d_%d' % w] = cmath.rect(p['r%d_%d' % w], .9 * math.sin(3 * w[
                0] + w[1]))
        v = self.invoke('bravais.linear_interpolation', [self.values('z',
            *shape)], dict(angle=angle, polar=True), self.places2, p)
        want = []
        for a, b in self.places2:
            r = phi = 0
            for w, c in corners(a, b, angle).items():
                z = self.get(p, 'z', w, shape)
                r += c * abs(z)
                phi += c * cmath.phase(z)
            want.append(cmath.rect(r, phi))
        self.compare('interpolation', 'polar', array(v), want, p)

    # --- resizing ---

    def resize(self, angle, periodic, kind):
        old, new = (3, 2), (2, 5)
        if kind == 'int':
            data = array([[7, 2], [4, 9], [1, 12]])
            p = Point(6, {'x%d_%d' % (i, j): [[7, 2], [4, 9], [1, 12]][i][j]
                for i in range(3) for j in range(2)})
            name = 'x'
        else:
            name = dict(float='x', complex='z')[kind]
            data = self.values(name, *old)
            p = Point(6)
        v = self.invoke('bravais.resize', [data, new], dict(angle=angle,
            periodic=periodic), point=p)
        want = []
        for i, j in itertools.product(*map(range, new)):
            f = [a / b if periodic else (a - 1) / (b - 1) for a, b in zip(old,
                new)]
            want.append(sum(c * self.get(p, name, w, old) for w, c in corners(
                i * f[0], j * f[1], angle).items() if c))
        self.compare('resize', '%s data, %s' % (dict(int='integer', float=
            'real', complex='complex')[kind], 'periodic' if periodic else
            'open'), v, want, p)

    def resize_1d(self, periodic):
        p = Point(7)
        v = self.invoke('bravais.resize', [self.values('x', 3, 2), 4], dict(
            axes=0, periodic=periodic), point=p)
        want = []
        for i in range(4):
            x = i * (3 / 4 if periodic else 2 / 3)
            for l in range(2):
                n = math.floor(x)
                want.append((n + 1 - x) * self.get(p, 'x', (n, l), (3, 2)) + (
                    x - n) * self.get(p, 'x', (n + 1, l), (3, 2)))
        self.compare('resize', 'one axis', v, want, p)

    # --- Fourier interpolation ---

    def fourier(self, N, angle, sign, scale=1.0):
        p = Point(8)
        for w in itertools.product(range(N), repeat=2):
            p['x%d_%d' % w] *= scale
        at = list(itertools.product(range(N), repeat=2)) + [(.25, .5), (-1.75,
            .375), (N + .5, N - .25)]
        v = self.invoke('bravais.Fourier_interpolation', [self.values('x', N,
            N)], dict(angle=angle, sign=sign), at, p)
        want = []
        for k in at:
            s = 0
            for n, m in itertools.product(range(N), repeat=2):
                c = sum(cmath.exp(sign * 2j * math.pi / N * (n * i + m * j))
                    * p['x%d_%d' % (i, j)] for i, j in itertools.product(
                    range(N), repeat=2)) / N ** 2
                near = images(n, m, N, 180 - angle)
                for x, y in near:
                    s += c * cmath.exp(-sign * 2j * math.pi / N * (x * k[0] + y
                        * k[1])) / len(near)
            want.append(s.real)
        self.compare('Fourier', 'small data' if scale < 1 else '%d deg., '
            'sign %+d' % (angle, sign), array(v), want, p, real=True)

    # --- integrals ---

    def energies(self, N, case):
        rng = random.Random(9)
        p = Point(9)
        for i, w in enumerate(itertools.product(range(N), repeat=2)):
            p['x%d_%d' % w] = [rng.uniform(-1, 1), round(rng.uniform(-1, 1)),
                (i * 5) % 4 / 2 - 1][case]
        return p

    def hexagonal(self, name, case):
        N = 3
        p = self.energies(N, case)
        at = [-2.0, -.8, -.5, -.3, .1, .3, .75, 2.0]
        if case == 0:
            at += [p['x0_0'], p['x1_2'], p['x2_2']]
        else:
            at += [-1.0, 1.0, 0.0]
        args = [self.values('x', N, N)]
        if name == 'hexa2F':
            args.append(self.values('y', N, N))
        for window in {}, dict(minimum=-.6), dict(maximum=.5), dict(minimum=
                -.6, maximum=.5):
            v = self.invoke('dos.' + name, args, window, [(E,) for E in at], p)
            got = self.numbers(array(v), p, {})[1]
            for x, E in zip(got, at):
                if not window.get('minimum', -9) <= E <= window.get('maximum',
                        9):
                    continue
                y, flat = 0, False
                for t in triangles(N):
                    e = [self.get(p, 'x', w, (N, N)) for w in t]
                    f = [self.get(p, 'y', w, (N, N)) if name == 'hexa2F' else
                        1.0 for w in t]
                    flat = flat or e[0] == e[1] == e[2] == E
                    y += slice_triangle(e, f, E) / (2 * N * N)
                    # edges on isoline are shared by two triangles
                if flat:
                    y = float('inf')
                if x != y and not abs(x - y) <= 1e-7 * max(1, abs(y)):
                    self.report('integral', self.func, ', '.join(sorted(
                        window)) or 'all energies', 'is not the integral over '
                        'the isoline of the linearly interpolated data (%s)'
                        % ['generic energies', 'degenerate energies',
                        'degenerate energies'][case])
                    return
            self.count('integral')

    def double_delta(self, case):
        N = 4
        rng = random.Random(3)
        p = Point(11)
        for i, j in itertools.product(range(N), repeat=2):
            if case == 0:
                p['x%d_%d' % (i, j)] = rng.uniform(-1, 1)
                p['y%d_%d' % (i, j)] = rng.uniform(-1, 1)
            else:
                p['x%d_%d' % (i, j)] = (0.0, 1.0, 0.0, -1.0)[i]
                p['y%d_%d' % (i, j)] = ((1.0, 1.0, -1.0, -1.0),
                    (0.0, 1.5, 0.0, -1.0))[case - 1][j]
        for f in False, True:
            at = [0.0] if case else [0.0, .25, -.125]
            vs = self.invoke('dos.double_delta', [self.values('x', N, N),
                self.values('y', N, N)] + ([self.values('f', N, N)] if f else
                []), {}, [(z,) for z in at], p)
            for v, z in zip(vs, at):
                self.intersections(N, v, z, p, f, case)

    def intersections(self, N, v, z, p, f, case):
        if not isinstance(v, dict):
            raise Undecided('result')
        memo = {}
        got = [([jet(x, p, {}, memo)[0] for x in k], jet(w, p, {}, memo)[0])
            for k, w in v.items()]
        want = []
        for t in triangles(N):
            x, y, g = [[self.get(p, n, w, (N, N)) for w in t] for n in 'xyf']
            if not f:
                g = [1.0] * 3
            cross = lambda a, b, c, d: a * d - b * c
            w = cross(x[1] - x[0], x[2] - x[0], y[1] - y[0], y[2] - y[0])
            if abs(w) < 1e-12:
                continue
            V = cross(z - x[0], x[2] - x[0], z - y[0], y[2] - y[0]) / w
            W = cross(x[1] - x[0], z - x[0], y[1] - y[0], z - y[0]) / w
            c = 1 - V - W, V, W
            if min(c) < -1e-9:
                continue
            want.append(([sum(a * b[i] for a, b in zip(c, t)) for i in
                range(2)], sum(a * b for a, b in zip(c, g)) / abs(w) / N ** 2))
        def group(points):
            groups = []
            for k, w in points:
                for g in groups:
                    if all(abs((a - b + N / 2) % N - N / 2) < 1e-6 for a, b in
                            zip(k, g[0])):
                        g[1].append(w)
                        break
                else:
                    groups.append((k, [w]))
            return groups
        want = group(want)
        label = 'generic' if not case else 'mesh points'
        if len(got) != len(group(got)):
            self.report('intersections', self.func, label, 'yields points '
                'that are equivalent to each other (counted more than once)')
            return
        if len(got) != len(want):
            self.report('intersections', self.func, label, 'yields %d instead '
                'of %d intersections' % (len(got), len(want)))
            return
        for k, ws in want:
            for q, w in got:
                if all(abs((a - b + N / 2) % N - N / 2) < 1e-6 for a, b in
                        zip(k, q)):
                    if not min(ws) - 1e-7 <= w <= max(ws) + 1e-7 or abs(w
                            - sum(ws) / len(ws)) > 1e-6:
                        self.report('weights', self.func, label, 'weight of '
                            'intersection is not the inverse Jacobian')
                        return
                    break
            else:
                self.report('intersections', self.func, label, 'point is '
                    'not on both isolines')
                return
        self.count('intersections')

    # --- isolines ---

    def isoline(self, case):
        N = 4
        p = Point(12)
        rng = random.Random(5)
        for i, j in itertools.product(range(N), repeat=2):
            p['x%d_%d' % (i, j)] = [rng.uniform(-1, 1), float(i in (1, 2)) +
                (j in (1, 2)) - 1][case]
        at = [-.25, .5] if case == 0 else [0.0, .5]
        vs = self.invoke('dos.isoline', [self.values('x', N, N)], {}, [(E,) for
            E in at], p)
        for v, E in zip(vs, at):
            if not isinstance(v, list):
                raise Undecided('result')
            n = 0
            for line in v:
                shape, flat = self.numbers(line, p, {})
                for a, b in zip(flat[::2], flat[1::2]):
                    n += 1
                    e = sum(c * self.get(p, 'x', w, (N, N)) for w, c in
                        corners(a * N, b * N, 60).items() if c)
                    if abs(e - E) > 1e-7 and self.inside(a, b):
                        self.report('isoline', self.func, 'generic' if not case
                            else 'mesh points', 'point of isoline has '
                            'different value of interpolated data')
                        return
            if not n:
                self.report('isoline', self.func, 'generic' if not case else
                    'mesh points', 'no isoline found')
                return
            self.count('isoline')

    def inside(self, a, b):
        """Away from the boundary of the Brillouin zone?"""
        return max(abs(a - b), abs(2 * a + b), abs(a + 2 * b)) < .999

    def attempt(self, f, *args):
        try:
            f(*args)
        except (Undecided, Raised, ArithmeticError, AttributeError,
                LookupError, TypeError, ValueError, RecursionError) as e:
            self.undecided.append('%s%s: %s: %s' % (f.__name__, args,
                type(e).__name__, e))

    def run(self):
        for N in 3, 2:
            self.attempt(self.linear_1d, N)
        for angle in 60, 90, 120:
            for f in (self.linear_2d, self.linear_period,
                    self.linear_polar):
                self.attempt(f, angle)
            for axes in (2, 0), (1, 2), (1, 0):
                self.attempt(self.linear_axes, angle, axes)
            for periodic in True, False:
                for kind in 'float', 'complex', 'int':
                    self.attempt(self.resize, angle, periodic, kind)
        for periodic in True, False:
            self.attempt(self.resize_1d, periodic)
        for N in 2, 3:
            for angle in 60, 90, 120:
                for sign in -1, 1:
                    self.attempt(self.fourier, N, angle, sign)
        self.attempt(self.fourier, 2, 60, -1, 1e-8)
        for case in range(3):
            for name in 'hexDOS', 'hexa2F':
                self.attempt(self.hexagonal, name, case)
        for case in range(3):
            self.attempt(self.double_delta, case)
        for case in range(2):
            self.attempt(self.isoline, case)

def short(x):
    return '%.4g' % x if not isinstance(x, complex) else '%.4g%+.4gi' % (
        x.real, x.imag)

def check(root):
    c = Meshes(root)
    c.run()
    return list(c.findings.values()), dict(identities=c.done, undecided=sorted(
        set(c.undecided)))
