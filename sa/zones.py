"""Symmetries and geometry of meshes and Brillouin zones (C24)."""

import itertools
import math
import random

from .meshes import Meshes, Point, nearest
from .terms import (Undecided, Raised, Arr, Fn, T, sym, array, nest, jet)

def norm2(v, angle):
    c = round(2 * math.cos(math.radians(angle)))
    return v[0] * v[0] + v[1] * v[1] + c * v[0] * v[1]

def turn(v, angle, n):
    """Rotate by n sixths (fourths) of a full turn."""
    x, y = v
    for _ in range(n):
        x, y = {60: (-y, x + y), 90: (-y, x), 120: (x - y, x)}[angle]
    return x, y

def group(angle):
    """All rotations and reflections as functions."""
    for n in range(4 if angle == 90 else 6):
        for mirror in False, True:
            yield lambda v, n=n, m=mirror: turn(v[::-1] if m else v, angle, n)

def orbit(v, N, angle):
    return {tuple(x % N for x in g(v)) for g in group(angle)}

def shortest(v, N, angle, shift=(0, 0)):
    out = {}
    for i, j in itertools.product(range(-3, 4), repeat=2):
        x = v[0] % N + i * N, v[1] % N + j * N
        d = norm2((x[0] - shift[0], x[1] - shift[1]), angle)
        out.setdefault(round(d, 9), set()).add(x)
    return out[min(out)]

def vectors(angle, angle0=0.0):
    """Lattice vectors and reciprocal ones (without factor 2 pi)."""
    p, q = math.radians(angle0), math.radians(angle0 + angle)
    a, b = (math.cos(p), math.sin(p)), (math.cos(q), math.sin(q))
    d = a[0] * b[1] - a[1] * b[0]
    return a, b, (b[1] / d, -b[0] / d), (-a[1] / d, a[0] / d)

def zone(angle, angle0=0.0):
    """Corners of the Brillouin zone."""
    a, b, c, d = vectors(angle, angle0)
    G = [(i * c[0] + j * d[0], i * c[1] + j * d[1]) for i, j in
        itertools.product((-1, 0, 1), repeat=2) if i or j]
    out = []
    for g, h in itertools.combinations(G, 2):
        D = g[0] * h[1] - g[1] * h[0]
        if abs(D) < 1e-9:
            continue
        u, v = (g[0] ** 2 + g[1] ** 2) / 2, (h[0] ** 2 + h[1] ** 2) / 2
        x = (u * h[1] - v * g[1]) / D, (v * g[0] - u * h[0]) / D
        if all(x[0] * k[0] + x[1] * k[1] < (k[0] ** 2 + k[1] ** 2) / 2 + 1e-9
                for k in G) and not any(math.dist(x, y) < 1e-9 for y in out):
            out.append(x)
    return out

class Zones(Meshes):

    def invoke(self, *args, **kwargs):
        try:
            return Meshes.invoke(self, *args, **kwargs)
        except Undecided as e:
            if str(e).startswith(('symbol ?', 'uninitialised')):
                raise Unset
            raise

    def numbers(self, v, point, memo):
        try:
            return Meshes.numbers(self, v, point, memo)
        except Undecided as e:
            if str(e).startswith(('symbol ?', 'uninitialised')):
                raise Unset
            raise

    def expect(self, rule, label, good, message):
        if not good:
            self.report(rule, self.func, label, message)
            raise Found
        self.count(rule)

    def plain(self, v, p=None):
        """Plain numbers."""
        if isinstance(v, Arr):
            return [self.plain(x, p) for x in v.rows()] if v.shape else \
                self.plain(v.items()[0], p)
        if isinstance(v, (list, tuple)):
            return [self.plain(x, p) for x in v]
        if isinstance(v, T):
            try:
                return jet(v, p if p is not None else Point(0), {}, {})[0]
            except Undecided as e:
                if str(e).startswith(('symbol ?', 'uninitialised')):
                    raise Unset
                raise
        return v

    # --- equivalent points ---

    def images(self, angle):
        for N in 1, 2, 3, 4, 5, 6:
            for v in itertools.product(range(N), repeat=2):
                w = self.invoke('bravais.images', [v[0], v[1], N], dict(
                    angle=angle))
                self.expect('equivalent points', '%d deg.' % angle, set(map(
                    tuple, w)) == orbit(v, N, angle), 'points equivalent to '
                    '%d, %d on %d x %d mesh are not those of the point group '
                    'of the lattice' % (v + (N, N)))

    def irreducibles(self, angle):
        for N in 1, 2, 3, 4, 5, 6:
            w = self.invoke('bravais.irreducibles', [N], dict(angle=angle))
            want = {min(orbit(v, N, angle)) for v in itertools.product(range(
                N), repeat=2)}
            self.expect('irreducible points', '%d deg.' % angle, set(map(tuple,
                w)) == want, 'irreducible points of %d x %d mesh are not the '
                'first ones of all equivalent ones' % (N, N))

    def distance(self, angle):
        v = self.invoke('bravais.squared_distance', [sym('x'), sym('y')], dict(
            angle=angle))
        for i in range(3):
            p = Point(i)
            x, y = jet(v, p, {}, {})[0], norm2((p['x'], p['y']), angle)
            self.expect('distance', '%d deg.' % angle, abs(x - y) < 1e-9,
                'is not the squared length of the lattice vector')

    def voronoi(self, angle):
        for N in 1, 2, 3, 4, 5, 6:
            for v in itertools.product(range(-1, N + 1), repeat=2):
                w = self.invoke('bravais.to_Voronoi', [v[0], v[1], N], dict(
                    angle=angle))
                self.expect('shortest vectors', '%d deg.' % angle, set(map(
                    tuple, w)) == shortest(v, N, angle), 'shortest vectors '
                    'equivalent to %d, %d on %d x %d mesh not found' % (v + (N,
                    N)))
        for N, shift in (1, (.5, .25)), (2, (.5, .5)), (2, (.25, .75)), (3, (.5, 0)), (4, (.25, .5)), (5, (-.25, .125)):
            for v in itertools.product(range(N), repeat=2):
                w = self.invoke('bravais.to_Voronoi', [v[0], v[1], N], dict(
                    angle=angle, dk1=shift[0], dk2=shift[1], epsilon=1e-9))
                self.expect('shortest vectors', '%d deg., shift' % angle, set(
                    map(tuple, w)) == shortest(v, N, angle, shift), 'shortest '
                    'vectors with respect to shifted origin not found')

    def wigner_2d(self, angle):
        for N in 1, 2, 3, 4:
            w = self.plain(self.invoke('bravais.wigner_2d', [N], dict(angle=
                angle)))
            want = sorted((x, len(s)) for v in itertools.product(range(N),
                repeat=2) for s in [shortest(v, N, angle)] for x in s)
            self.expect('Wigner-Seitz cell', '%d deg.' % angle, len(w) == 3 and
                len(w[0]) == len(want) and all(tuple(a) == x and b == n and
                abs(c * c - norm2(x, angle)) < 1e-9 for a, b, c, (x, n) in zip(
                *w, want)), 'lattice vectors, degeneracies and lengths are '
                'not those of the Wigner-Seitz cell')

    def wigner(self, case):
        at, tau, sgn, nr = [
            ([[1.0, 0, 0], [0, 1, 0], [0, 0, 1]], [[0.0, 0, 0]], 1, (2, 2, 1)),
            ([[1.0, 0, 0], [-.5, .75 ** .5, 0], [0, 0, 5.0]], [[0.0, 0, 0],
                [.5, .75 ** .5 / 3, .125]], 1, (2, 3, 1)),
            ([[1.0, .25, 0], [.125, 1.25, 0], [0, .25, 1.5]], [[0.0, 0, 0],
                [.25, .5, .125]], -1, (1, 3, 2))][case]
        nt = len(tau)
        v = self.invoke('bravais.wigner', list(nr) + [array(at), array(tau)],
            dict(sgn=sgn))
        R, d, l = [self.plain(x) for x in v]
        self.expect('Wigner-Seitz cell', 'bonds', len(set(map(tuple, R))) ==
            len(R), 'lattice vectors are repeated')
        got = {(tuple(x), i, j): (d[n][i][j], l[n][i][j]) for n, x in
            enumerate(R) for i in range(nt) for j in range(nt) if d[n][i][j]}
        want = {}
        for m in itertools.product(*map(range, nr)):
            for i, j in itertools.product(range(nt), repeat=2):
                out = {}
                for M in itertools.product(range(-3, 4), repeat=3):
                    x = tuple(sgn * (a + b * n) for a, b, n in zip(m, M, nr))
                    r = [tau[j][c] - tau[i][c] + sum(x[k] * at[k][c] for k in
                        range(3)) for c in range(3)]
                    out.setdefault(round(math.hypot(*r), 7), []).append(x)
                for x in out[min(out)]:
                    want[x, i, j] = len(out[min(out)]), min(out)
        self.expect('Wigner-Seitz cell', 'bonds', set(got) == set(want) and
            all(got[k][0] == want[k][0] and abs(got[k][1] - want[k][1]) < 1e-6
            for k in want), 'lattice vectors, degeneracies and lengths are '
            'not those of the shortest bonds')

    # --- symmetries of data ---

    def symmetric(self, N, angle, keep=None):
        """Data with the symmetry of the lattice (or some of it)."""
        p = Point(31)
        for v in itertools.product(range(N), repeat=2):
            w = min(tuple(x % N for x in g(v)) for g in keep or group(angle))
            p['x%d_%d' % v] = 1.0 + w[0] * 3.25 + w[1] * .375
        return p

    def operation(self, reflect, degrees, angle, v):
        """Mesh point to which a point is rotated and reflected."""
        a, b, c, d = vectors(180 - angle)
        k = v[0] * c[0] + v[1] * d[0], v[0] * c[1] + v[1] * d[1]
        f = math.radians(degrees)
        k = (math.cos(f) * k[0] - math.sin(f) * k[1], math.sin(f) * k[0]
            + math.cos(f) * k[1])
        if reflect:
            k = -k[0], k[1]
        return (round(k[0] * a[0] + k[1] * a[1]), round(k[0] * b[0] + k[1]
            * b[1]))

    def symmetries(self, angle):
        n = 4 if angle == 90 else 6
        half = [lambda v: v, lambda v: turn(v, angle, n // 2)]
        third = [lambda v, i=i: turn(v, angle, i * n // (2 if angle == 90 else
            3)) for i in range(2 if angle == 90 else 3)]
        for N, keep in (1, None), (2, None), (3, None), (4, half), (4, third):
            p = self.symmetric(N, angle, keep)
            for unity in True, False:
                v = self.invoke('bravais.symmetries', [self.values('x', N, N)],
                    dict(angle=angle, unity=unity), point=p, ends=list)
                got = {}
                for (reflect, degrees), image in v:
                    got[bool(reflect), degrees % 360] = self.plain(image)
                want = {}
                for reflect in False, True:
                    for i in range(n):
                        degrees = i * 360 // n
                        m = [[[x % N for x in self.operation(reflect, degrees,
                            angle, (i, j))] for j in range(N)] for i in
                            range(N)]
                        if all(p['x%d_%d' % (i, j)] == p['x%d_%d' % tuple(m[i][
                                j])] for i in range(N) for j in range(N)):
                            want[reflect, degrees] = m
                if not unity:
                    del want[False, 0]
                self.expect('symmetries', '%d deg.' % angle, got == want,
                    'symmetries found in data on %d x %d mesh are not those '
                    'of the data' % (N, N))

    def complete(self, angle):
        N = 4
        p = self.symmetric(N, angle)
        data = self.values('x', N, N)
        keep = {min(orbit(v, N, angle)) for v in itertools.product(range(N),
            repeat=2)}
        for i, j in itertools.product(range(N), repeat=2):
            if (i, j) not in keep:
                data.buf[data.idx[i * N + j]] = float('nan')
        v = self.invoke('bravais.complete', [data], dict(angle=angle), point=p,
            keep=data)
        shape, got = self.numbers(data, p, {})
        self.expect('completion', '%d deg.' % angle, all(abs(x - p['x%d_%d'
            % w]) < 1e-9 for x, w in zip(got, itertools.product(range(N),
            repeat=2))), 'missing data are not those at equivalent points')

    def complete_k(self):
        nq, nk = 3, 2
        irr = sorted({min(orbit(v, nq, 60)) for v in itertools.product(range(
            nq), repeat=2)})
        p = Point(33)
        v = self.invoke('bravais.complete_k', [self.values('x', len(irr), nk,
            nk), nq], point=p)
        shape, got = self.numbers(v, p, {})
        if list(shape) != [nq, nq, nk, nk]:
            raise Undecided('shape')
        get = lambda Q, K: got[((Q[0] % nq * nq + Q[1] % nq) * nk + K[0] % nk)
            * nk + K[1] % nk]
        ks = list(itertools.product(range(nk), repeat=2))
        for Q in itertools.product(range(nq), repeat=2):
            self.expect('completion', 'two momenta', any(tuple(x % nq for x in
                g(q)) == Q and all(abs(get(Q, g(k)) - p['x%d_%d_%d' % (i, *k)])
                < 1e-9 for k in ks) for g in group(60) for i, q in enumerate(
                irr)), 'no symmetry maps known data onto data completed for '
                'equivalent q point')

    def stack(self):
        for case, (x, period) in enumerate(([(.25, .5, .875), 1.0], [(3.0, 5.0,
                9.0, 12.0), 10.0], [(-.75, 6.0), 2.0], [(.9, .1), 1.0])):
            p = Point(34, {'x%d' % i: v for i, v in enumerate(x)})
            v = self.invoke('bravais.stack', [sym('x%d' % i) for i in
                range(len(x))], dict(period=period), point=p)
            got = self.plain(v, p)
            want = nearest([a % period for a in x], period)
            self.expect('stacking', 'period', len(got) == len(x) and all(abs((a
                - b) / period - round((a - b) / period)) < 1e-9 for a, b in
                zip(got, x)), 'points are not shifted by full periods')
            self.expect('stacking', 'period', max(got) - min(got) < max(want)
                - min(want) + 1e-9, 'points are not as close as possible')

    # --- paths and outlines ---

    def path(self, case):
        qe, moveG = [(False, 0), (True, 0), (False, .25), (True, .5), (False, 0)][case]
        points = [[0.0, 0, 0], [.5, 0, 0], [.25, .375, .5], [0.0, 0, 0], [0.0,
            .5, .25], [0.0, 0, 0]]
        b = [[.5, .25, 0], [.125, .75, .25], [0, .25, .5]]
        N = 1 if case == 4 else 6
        v = self.invoke('bravais.path', [array(points)], dict(N=N, recvec=array(
            b), qe=qe, moveG=moveG))
        k, x, corners = [self.plain(a) for a in v[:3]]
        tau = 2 * math.pi
        cart = lambda q: [sum(q[i] * b[i][j] for i in range(3)) for j in
            range(3)]
        self.expect('path', 'corners', len(corners) == len(points) and
            corners[0] == 0 and corners[-1] == len(k) - 1 and len(x) == len(k),
            'indices of corners do not match points')
        s = 0.0
        for i, q in enumerate(points):
            self.expect('path', 'distance', abs(x[corners[i]] - s) < 1e-9,
                'distance at corner is not length of path')
            if any(q):
                self.expect('path', 'corners', math.dist(k[corners[i]], [a
                    * tau for a in q]) < 1e-9, 'corners are not the points '
                    'given')
            if i + 1 < len(points):
                s += math.dist(cart(q), cart(points[i + 1]))
        for i in range(len(points) - 1):
            m, n = corners[i], corners[i + 1]
            dx = math.dist(cart(points[i]), cart(points[i + 1]))
            steps = max(1, round(N * dx))
            first = m + (1 if moveG and i and not any(points[i]) else 0)
            self.expect('path', 'points', n - first == steps, 'number of '
                'points between corners does not follow from N')
            for j in range(first, n + 1):
                t = (j - first) / steps
                for end in points[i], points[i + 1]:
                    pass
                want = [tau * ((1 - t) * a + t * c) for a, c in zip(points[i],
                    points[i + 1])]
                if moveG and j == first and not any(points[i]):
                    want = [moveG * tau / steps * c for c in points[i + 1]]
                if moveG and j == n and not any(points[i + 1]):
                    want = [moveG * tau / steps * c for c in points[i]]
                self.expect('path', 'points', math.dist(k[j], want) < 1e-9,
                    'points are not on straight line between corners')
                self.expect('path', 'distance', abs(x[j] - x[first] - t * dx) <
                    1e-9, 'distance is not the length of the path')
        if qe:
            q = self.plain(v[3]['k_points'])
            self.expect('path', 'input', v[3]['nks'] == len(corners) and
                v[3]['ktyp'] == 'crystal_b' and all(math.dist([tau * a for a in
                y[:3]], k[c]) < 1e-9 for y, c in zip(q, corners)) and all(y[3]
                == d - c for y, c, d in zip(q, corners, corners[1:])), 'path '
                'in input format is not the same path')

    def gmkg(self, angle):
        tau = 2 * math.pi
        a, b, c, d = vectors(180 - angle)
        for N, mesh, straight, lift in itertools.product((12, 7), (False,
                True), (False, True), (False, True)):
            v = self.invoke('bravais.GMKG', [N], dict(corner_indices=True, mesh
                =mesh, angle=angle, straight=straight, lift_degen=lift))
            k, x, corners = [self.plain(y) for y in v]
            label = '%d deg.' % angle
            frac = [[y / tau for y in q] for q in k]
            cart = lambda q: [q[0] * c[i] + q[1] * d[i] for i in range(2)]
            at = [frac[i] for i in corners]
            K = max(math.hypot(*y) for y in zone(180 - angle))
            M = min(math.hypot(*cart(y)) for y in ((.5, 0), (0, .5), (.5, .5)))
            length = [math.hypot(*cart(y)) for y in at]
            self.expect('path', label, all(abs(u - w) < 1e-8 for u, w in zip(
                length, (0, M, K, 0))), 'corners are not G, M, K, G')
            for y in at[1], at[2]:
                self.expect('path', label, all(math.hypot(*cart((y[0] + i, y[1]
                    + j))) > math.hypot(*cart(y)) - 1e-8 for i, j in
                    itertools.product((-1, 0, 1), repeat=2)), 'corners are '
                    'not on the boundary of the Brillouin zone')
            # before K on segment from M
            scale = x[corners[1]] / M
            for i in range(len(k) - 1):
                if i == corners[2] - 1:
                    end = [2 * u - w for u, w in zip(frac[i], frac[i - 1])] \
                        if i - 1 >= corners[1] else None
                    if end is None:
                        continue
                    shift = [round(u - w) for u, w in zip(end, at[2])]
                    step = [u - w - s for u, w, s in zip(end, at[2], shift)]
                    self.expect('path', label, math.hypot(*cart(step)) < 1e-8,
                        'path is not continuous at K')
                    if straight:
                        nxt = [u - w for u, w in zip(cart(frac[i + 2]), cart(
                            frac[i + 1]))]
                        prv = [u - w for u, w in zip(cart(frac[i]), cart(frac[i
                            - 1]))]
                        self.expect('path', label, abs(nxt[0] * prv[1] - nxt[1]
                            * prv[0]) < 1e-8 and nxt[0] * prv[0] + nxt[1]
                            * prv[1] > 0, 'path is not straight at K')
                    continue
                self.expect('path', label, abs(math.dist(cart(frac[i]), cart(
                    frac[i + 1])) * scale - x[i + 1] + x[i]) < 1e-7, 'distance '
                    'is not the length of the path')
            if mesh and N % 6 == 0:
                self.expect('path', label, all(abs(y * N - round(y * N)) < 1e-7
                    for q in frac for y in q), 'path leaves points of mesh')

    def outline(self, angle):
        for angle0 in 0, 20, 45:
            v = self.plain(self.invoke('bravais.BZ', [], dict(angle=angle,
                angle0=angle0)))
            want = zone(angle, angle0)
            self.expect('zone', '%d deg.' % angle, len(v) == len(want) + 1 and
                math.dist(v[0], v[-1]) < 1e-9 and all(min(math.dist(x, y) for
                y in v) < 1e-9 for x in want), 'outline is not that of the '
                'Brillouin zone')
            side = min(math.dist(want[0], x) for x in want[1:])
            self.expect('zone', '%d deg.' % angle, all(math.dist(x, y) < side
                + 1e-9 for x, y in zip(v, v[1:])), 'corners are not in order')

    def picture(self, angle):
        for angle0 in 0, 20, 45:
            corners = zone(angle, angle0)
            v = self.invoke('plot.toBZ', [], dict(points=40, angle=angle,
                angle0=angle0, return_only_k=True))
            v = [self.plain(x) for x in v]
            label = '%d deg.' % angle
            want = [max(x[i] for x in corners) for i in range(2)]
            self.expect('picture', label, abs(v[0] - want[0]) < 1e-9 and abs(
                v[1] - want[1]) < 1e-9, 'range is not that of the Brillouin '
                'zone (first lattice vector at %d deg.)' % angle0)

    def image(self, angle):
        for angle0 in 0, 20:
            self.shown(angle, angle0)

    def shown(self, angle, angle0):
        a, b, c, d = vectors(angle, angle0)
        N = 3
        p = Point(35)
        kwargs = dict(points=9, angle=angle, angle0=angle0, return_k=True,
            outside=-7.0)
        v = self.invoke('plot.toBZ', [self.values('x', 2, N, N)], kwargs,
            point=p)
        kx, ky, img = [self.plain(x, p) for x in v[2:]]
        self.expect('picture', '%d deg.' % angle, len(img) == len(ky) and len(
            img[0]) == len(kx) and abs(sum(kx)) + abs(sum(ky)) < 1e-6 and kx[0]
            < kx[-1] and ky[0] > ky[-1], 'points of image are not centred '
            'from left to right and top to bottom')
        G = [(i * c[0] + j * d[0], i * c[1] + j * d[1]) for i, j in
            itertools.product((-1, 0, 1), repeat=2) if i or j]
        from .meshes import corners
        for i, y in enumerate(ky):
            for j, x in enumerate(kx):
                gap = min((g[0] ** 2 + g[1] ** 2) / 2 - x * g[0] - y * g[1]
                    for g in G)
                if abs(gap) < 1e-6:
                    continue
                if gap < 0:
                    want = -7.0
                else:
                    f = (math.degrees(math.atan2(y, x)) - angle0) % 360
                    want = sum(w * p['x%d_%d_%d' % (int(f // 180), m % N, n
                        % N)] for (m, n), w in corners((x * a[0] + y * a[1])
                        * N, (x * b[0] + y * b[1]) * N, 60).items())
                self.expect('picture', '%d deg.' % angle, abs(img[i][j] - want)
                    < 1e-6, 'image does not show the data on the Brillouin '
                    'zone')

    def mesh(self):
        for n in (3,), (2, 3), (2, 1, 4):
            for flat in False, True:
                v = self.invoke('bravais.mesh', list(n), dict(flat=flat))
                shape = [6 if len(n) == 2 else 8 if len(n) == 3 else 3, len(n)
                    ] if flat else list(n) + [len(n)]
                want = [2 * math.pi * i / m for w in itertools.product(*map(
                    range, n)) for i, m in zip(w, n)]
                s, got = self.numbers(v, Point(0), {})
                self.expect('mesh', 'uniform', list(s) == shape and all(abs(x -
                    y) < 1e-9 for x, y in zip(got, want)), 'points are not '
                    'those of the uniform mesh')

    def coordinates(self):
        a = [self.values(x, 3) for x in 'abc']
        p = Point(36)
        x = self.values('x', 2, 3)
        v = self.invoke('bravais.crystal_to_cartesian', [x] + a, point=p)
        at = [[p['%s%d' % (n, i)] for i in range(3)] for n in 'abc']
        self.compare('coordinates', 'Cartesian', v, [sum(p['x%d_%d' % (n, i)]
            * at[i][j] for i in range(3)) for n in range(2) for j in range(3)],
            p)
        y = self.invoke('bravais.cartesian_to_crystal', [v] + a, point=p)
        self.compare('coordinates', 'crystal', y, [p['x%d_%d' % w] for w in
            itertools.product(range(2), range(3))], p)
        z = self.invoke('bravais.crystal_to_cartesian', [self.values('x', 2, 2)
            ] + [self.values(n, 2) for n in 'ab'], point=p)
        self.compare('coordinates', 'Cartesian', z, [sum(p['x%d_%d' % (n, i)]
            * at[i][j] for i in range(2)) for n in range(2) for j in range(2)],
            p)

    def between(self):
        A, B = (.5, .25, .125), (.5, 1.25, 2.125)
        for A, B in (A, B), ((0.0, 0, 0), (0.0, 0, .5)), ((0.0, 0, 0), (.5, 0,
                0)):
            for t in -.5, -.01, 0, .25, .5, .75, 1, 1.01, 1.5:
                x = [a + t * (b - a) for a, b in zip(A, B)]
                v = self.invoke('bravais.point_on_path', [array(x), array(A),
                    array(B)])
                self.expect('point on path', 'line', bool(v) == (0 <= t <= 1),
                    'point on line between end points is not recognised or '
                    'point beyond is')
            v = self.invoke('bravais.point_on_path', [array([.25, .375, .5]),
                array(A), array(B)])
            self.expect('point on path', 'line', not v, 'point besides path '
                'is taken for point on path')

    def attempt(self, f, *args):
        self.func = None
        try:
            Meshes.attempt(self, f, *args)
        except Found:
            pass
        except Unset:
            self.report('uninitialised', self.func, f.__name__, 'elements of '
                'the result are never set')

    def run(self):
        for angle in 60, 90, 120:
            for f in (self.images, self.irreducibles, self.distance,
                    self.voronoi, self.wigner_2d, self.outline, self.picture,
                    self.image):
                self.attempt(f, angle)
        for angle in 60, 90, 120:
            self.attempt(self.symmetries, angle)
            self.attempt(self.complete, angle)
        for angle in 60, 120:
            self.attempt(self.gmkg, angle)
        for case in range(3):
            self.attempt(self.wigner, case)
        for case in range(5):
            self.attempt(self.path, case)
        for f in (self.complete_k, self.stack, self.mesh, self.coordinates,
                self.between):
            self.attempt(f)

class Unset(Exception):
    pass

class Found(Exception):
    pass

def check(root):
    c = Zones(root)
    c.run()
    return list(c.findings.values()), dict(identities=c.done, undecided=sorted(
        set(c.undecided)))
