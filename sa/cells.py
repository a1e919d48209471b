"""Models of supercells, reordered and shifted models (C20)."""

import itertools
import random

from .project import Project
from .terms import (Formulas, Undecided, Raised, T, Arr, Fn, Obj, Cls, Comm,
    Dummy, sym, array, jet, nest)

R0 = (0, 0, 0), (1, 0, 0), (-1, 1, 0), (0, -2, 1)

SUPERCELLS = (
    (2, 1, 1), (1, 2, 1), (1, 1, 2),
    ((1, 1, 0), (-1, 1, 0), 1),
    ((1, 0, 0), (2, 2, 0), (0, 1, 1)),
    ((0, 2, 0), (1, 0, 0), (0, 0, 1)),      # left-handed
    ((1, 0, -1), (0, -1, 0), (1, 1, 1)),
    ((-1, 0, 0), (-1, -2, 0), 1),
    )

class Cells:
    def __init__(self, root):
        self.project = Project(root)
        self.forms = f = Formulas(self.project)
        f.MAXSTEPS = 3000000
        f.classes = f.generic = True
        f.stubs = {
            ('MPI', 'info'): self.info,
            ('MPI', 'shared_array'): self.shared_array,
            ('misc', 'get_sparse_array'): lambda: self.sparse,
            ('misc', 'StatusBar'): lambda *a, **k: Dummy(),
            }
        self.findings = {}
        self.undecided = []
        self.done = {}

    # --- stand-ins ---

    def info(self, *args, **kwargs):
        if kwargs.get('error'):
            raise Raised

    def shared_array(self, shape, dtype=None, **kwargs):
        shape = (shape,) if isinstance(shape, int) else tuple(array(
            shape).items())
        n = 1
        for s in shape:
            n *= s
        return Comm(), Comm(), Arr([T('sym', '?') for _ in range(n)], shape)

    def sparse(self, a):
        return a.copy() if isinstance(a, Arr) else Arr([0.0] * (a[0] * a[1]),
            a)

    # --- models ---

    def cls(self, short):
        m = self.project.modules.get('elphmod.' + short)
        c = m.classes.get('Model') if m is not None else None
        if c is None:
            raise Undecided('no model in ' + short)
        self.forms.module(m.name)
        return c

    def values(self, prefix, *shape):
        return Arr([sym('%s%s' % (prefix, '_'.join(map(str, w)))) for w in
            itertools.product(*map(range, shape))], shape)

    def vectors(self, cells=R0):
        return Arr([x for c in cells for x in c], (len(cells), 3))

    def el(self, **more):
        a = dict(R=self.vectors(), data=self.values('t', len(R0), 3, 3),
            size=3, cells=[(0, 0, 0)], nk=None, divide_ndegen=True,
            rydberg=False)
        a.update(more)
        return Obj(self.cls('el'), a)

    def ph(self, **more):
        a = dict(R=self.vectors(), data=self.values('c', len(R0), 6, 6),
            size=6, nat=2, cells=[(0, 0, 0)], nq=None, divide_ndegen=True,
            divide_mass=True, M=self.values('m', 2), a=self.values('a', 3, 3),
            r=self.values('r', 2, 3), atom_order=['A', 'B'], lr=False,
            lr2d=False, L=None, perp=True, eps=None, alpha=None, Z=None,
            Q=None, D0=None, q0=None)
        a.update(more)
        return Obj(self.cls('ph'), a)

    def elel(self, **more):
        a = dict(R=self.vectors(), data=self.values('u', len(R0), 3, 3),
            size=3, cells=[(0, 0, 0)])
        a.update(more)
        return Obj(self.cls('elel'), a)

    def elph(self):
        rg, rk = R0[:3], R0[1:4]
        el = self.el(data=self.values('t', len(R0), 2, 2), size=2)
        ph = self.ph(data=self.values('c', len(R0), 3, 3), size=3, nat=1,
            M=self.values('m', 1), r=self.values('r', 1, 3), atom_order=['A'])
        return Obj(self.cls('elph'), dict(el=el, ph=ph, Rg=self.vectors(rg),
            Rk=self.vectors(rk), data=self.values('g', len(rg), 3, len(rk), 2,
            2), cells=[(0, 0, 0)], divide_mass=True, divide_ndegen=True,
            dk=None, dg=None, q=None, g0=None, node=Comm(), images=Comm(),
            gq=self.values('?', 3, 3, 2, 2), Rk0=None))

    # --- results ---

    def run_method(self, make, name, *args, **kwargs):
        """Object before, object after and returned value for each case."""
        def call():
            obj = make()
            f = obj.cls.methods.get(name)
            if f is None:
                raise Undecided('no %s' % name)
            g = Fn(f.node, f.module, self.forms.module(f.module.name), name,
                bound=obj)
            return obj, self.forms.call(g, list(args), dict(kwargs))
        self.forms.steps = 0
        cases = self.forms.cases(call)
        out = [v for p, v in cases if v is not Raised]
        if not out:
            raise Undecided('nothing but errors')
        return out

    def numbers(self, v, point, memo):
        shape, items = nest(v)
        return shape, [jet(x, point, {}, memo)[0] for x in items]

    def point(self, seed=7):
        rng = random.Random(seed)
        class Point(dict):
            def __contains__(self, key):
                return not key.startswith('?')
            def __missing__(self, key):
                if key.startswith('?'):
                    raise Undecided('uninitialised')
                z = rng.uniform(.5, 2)
                if key[0] in 'tug':
                    z = complex(z, rng.uniform(.5, 2))
                self[key] = z
                return z
        return Point()

    def table(self, obj, point, memo, vectors=('R',)):
        """Matrices by lattice vector (as numbers at a point)."""
        Rs = []
        for x in vectors:
            shape, items = nest(obj.attrs[x])
            if len(shape) != 2 or shape[1] != 3 or not all(isinstance(y,
                    (int, float)) and y == int(y) for y in items):
                raise Undecided('lattice vectors')
            Rs.append([tuple(map(int, items[3 * i:3 * i + 3])) for i in
                range(shape[0])])
        shape, vals = self.numbers(obj.attrs['data'], point, memo)
        return Rs, shape, vals

    def where(self, f, name):
        return f.cls.module.short + '.' + f.cls.name + '.' + name

    def report(self, rule, func, construct, message):
        self.findings.setdefault((rule, func, construct), dict(rule=rule,
            func=func, construct=construct, message=message))

    def count(self, what, n=1):
        self.done[what] = self.done.get(what, 0) + n

    def matrices(self, obj, point, memo):
        """Dictionary of sums over repeated lattice vectors."""
        (Rs,), shape, v = self.table(obj, point, memo)
        if len(shape) != 3 or shape[0] != len(Rs) or shape[1] != shape[2]:
            raise Undecided('shape')
        n = shape[1]
        out = {}
        for i, R in enumerate(Rs):
            block = v[i * n * n:(i + 1) * n * n]
            out[R] = [x + y for x, y in zip(out[R], block)] if R in out \
                else block
        return n, out

    def same(self, rule, where, label, got, want, scale=1.0):
        """Compare dictionaries of matrices (absent ones are zero)."""
        for k in sorted(set(got) | set(want)):
            a, b = got.get(k), want.get(k)
            n = len(a or b)
            for i in range(n):
                x = a[i] if a else 0.0
                y = b[i] if b else 0.0
                if not abs(x - y) <= 1e-9 * max(abs(x), abs(y), scale):
                    self.report(rule, where, label, 'matrix element %s of '
                        'lattice vector %s does not match that of the original '
                        'model (%s)' % (i, k, label))
                    return
        self.count(rule)

    # --- supercells ---

    def cell_list(self, obj, N):
        cells = [tuple(int(x) for x in nest(c)[1]) for c in self.forms.iterate(
            obj.attrs['cells'])]
        det = (N[0][0] * (N[1][1] * N[2][2] - N[1][2] * N[2][1])
            - N[0][1] * (N[1][0] * N[2][2] - N[1][2] * N[2][0])
            + N[0][2] * (N[1][0] * N[2][1] - N[1][1] * N[2][0]))
        return cells, abs(det)

    def full(self, args):
        return [tuple(n) if isinstance(n, tuple) else tuple(n * (i
            == j) for j in range(3)) for i, n in enumerate(args)]

    def expected(self, original, n, cells, N, want_R):
        """Matrices of the supercell from those of the primitive cell."""
        out = {}
        for R in want_R:
            m = len(cells) * n
            M = [0.0] * (m * m)
            some = False
            for i, c in enumerate(cells):
                for j, d in enumerate(cells):
                    r = tuple(sum(R[x] * N[x][y] for x in range(3)) + d[y]
                        - c[y] for y in range(3))
                    b = original.get(r)
                    if b:
                        some = True
                        for p in range(n):
                            for q in range(n):
                                M[(i * n + p) * m + j * n + q] = b[p * n + q]
            if some:
                out[R] = M
        return out

    def candidates(self, cells):
        return list(itertools.product(range(-4, 5), repeat=3))

    def supercells(self, short, make):
        for args in SUPERCELLS:
            N = self.full(args)
            try:
                where = None
                for obj, new in self.run_method(make, 'supercell', *args):
                    where = self.where(obj, 'supercell')
                    if not isinstance(new, Obj):
                        raise Undecided('result')
                    point, memo = self.point(), {}
                    cells, count = self.cell_list(new, N)
                    if len(cells) != count:
                        self.report('supercell', where, 'cells', 'supercell '
                            'has %d instead of %d unit cells' % (len(cells),
                            count))
                        continue
                    n, original = self.matrices(obj, point, memo)
                    m, got = self.matrices(new, point, memo)
                    want = self.expected(original, n, cells, N,
                        self.candidates(cells))
                    if m != n * count:
                        raise Undecided('size')
                    self.same('supercell', where, 'supercell', got, want)
                    self.companions(short, obj, new, cells, N, point, memo,
                        where)
                    if 'unit_cell' in obj.cls.methods:
                        self.back(obj, new, n, original, point, memo)
            except Undecided as e:
                self.undecided.append('%s.Model.supercell %s: %s' % (short,
                    args, e))

    def companions(self, short, obj, new, cells, N, point, memo, where):
        if short != 'ph':
            return
        def get(o, name):
            return self.numbers(o.attrs[name], point, memo)[1]
        a = get(obj, 'a')
        r = get(obj, 'r')
        M = get(obj, 'M')
        extra = []
        if obj.attrs['Z'] is not None:
            extra = [('Z', get(obj, 'Z') * len(cells)), ('Q', get(obj, 'Q')
                * len(cells)), ('a', [sum(N[i][j] * a[3 * j + x] for j in
                range(3)) for i in range(3) for x in range(3)])]
        want_r = [r[3 * na + x] + sum(c[i] * a[3 * i + x] for i in range(3))
            for c in cells for na in range(2) for x in range(3)]
        for name, want in ('r', want_r), ('M', M * len(cells)), *extra:
            got = get(new, name)
            if len(got) != len(want) or any(abs(x - y) > 1e-9 for x, y in zip(
                    got, want)):
                self.report('supercell', where, name, 'attribute %s of the '
                    'supercell does not match its unit cells' % name)
                return
        self.count('attributes of supercells')

    def back(self, obj, new, n, original, point, memo):
        where = self.where(obj, 'unit_cell')
        for big, small in self.run_method(lambda: new, 'unit_cell'):
            if not isinstance(small, Obj):
                raise Undecided('result')
            k, got = self.matrices(small, point, memo)
            if k != n:
                raise Undecided('size')
            self.same('unit-cell', where, 'unit cell', got, original)
            if 'a' in obj.attrs:
                for name in 'a', 'r', 'M', 'Z', 'Q', 'alpha':
                    if obj.attrs[name] is None:
                        continue
                    x = self.numbers(obj.attrs[name], point, memo)[1]
                    y = self.numbers(small.attrs[name], point, memo)[1]
                    if len(x) != len(y) or any(abs(p - q) > 1e-9 for p, q in
                            zip(x, y)):
                        self.report('unit-cell', where, name, 'attribute %s is '
                            'not that of the primitive cell' % name)
                        return

    def sparse_cells(self, short, make, name):
        """Sparse matrices are the real parts of sums over all vectors."""
        for args in SUPERCELLS[0], SUPERCELLS[3]:
            try:
                for (obj, a), (_, b) in zip(self.run_method(make, 'supercell',
                        *args), self.run_method(make, 'supercell', *args,
                        sparse=True)):
                    where = self.where(obj, 'supercell')
                    point, memo = self.point(), {}
                    n, full = self.matrices(a, point, memo)
                    want = [sum(x).real for x in zip(*full.values())]
                    shape, got = self.numbers(b.attrs[name], point, memo)
                    if len(got) != len(want) or any(abs(x - y) > 1e-9 for x, y
                            in zip(got, want)):
                        self.report('sparse', where, name, 'sparse matrix is '
                            'not the sum of the matrices for all lattice '
                            'vectors')
                        return
                    self.count('sparse')
            except (Undecided, KeyError) as e:
                self.undecided.append('%s.Model.supercell, sparse: %s' % (
                    short, e))

    def accessors(self):
        """Matrices for given lattice vectors."""
        for short, make, name in ('el', self.el, 't'), ('ph', self.ph, 'C'), (
                'elel', self.elel, 'WR'):
            for R in R0 + ((0, 1, 0), (2, 0, 0)):
                try:
                    for obj, v in self.run_method(make, name, *R):
                        where = self.where(obj, name)
                        point, memo = self.point(), {}
                        n, t = self.matrices(obj, point, memo)
                        shape, got = self.numbers(v, point, memo)
                        want = t.get(R, [0.0] * (n * n))
                        if len(got) != len(want) or any(abs(x - y) > 1e-9
                                for x, y in zip(got, want)):
                            self.report('element', where, name, 'not the '
                                'matrix of the given lattice vector')
                            break
                        self.count('element')
                except Undecided as e:
                    self.undecided.append('%s.Model.%s: %s' % (short, name, e))
        try:
            for G in R0[0], R0[2], (5, 0, 0):
                for K in R0[1], R0[3], (0, 0, 0):
                    for obj, v in self.run_method(self.elph, 'gR', *(G + K)):
                        where = self.where(obj, 'gR')
                        point, memo = self.point(), {}
                        t = self.coupling_table(obj, point, memo).get((G, K),
                            {})
                        shape, got = self.numbers(v, point, memo)
                        want = [t.get(w, 0.0) for w in itertools.product(range(
                            3), range(2), range(2))]
                        if len(got) != len(want) or any(abs(x - y) > 1e-9
                                for x, y in zip(got, want)):
                            self.report('element', where, 'gR', 'not the '
                                'matrix of the given lattice vectors')
                        self.count('element')
        except Undecided as e:
            self.undecided.append('elph.Model.gR: %s' % e)

    # --- coupling ---

    def coupling(self):
        for args in SUPERCELLS[:1] + SUPERCELLS[3:4] + SUPERCELLS[5:6]:
            N = self.full(args)
            try:
                for obj, new in self.run_method(self.elph, 'supercell', *args):
                    where = self.where(obj, 'supercell')
                    point, memo = self.point(), {}
                    cells, count = self.cell_list(new, N)
                    old = self.coupling_table(obj, point, memo)
                    got = self.coupling_table(new, point, memo)
                    want = {}
                    nc = len(cells)
                    for (G, K), b in old.items():
                        for i, c in enumerate(cells):
                            RG, l = self.reduce(G, c, cells, N)
                            RK, j = self.reduce(K, c, cells, N)
                            M = want.setdefault((RG, RK), {})
                            for (x, p, q), v in b.items():
                                M[l * 3 + x, i * 2 + p, j * 2 + q] = v
                    for key in sorted(set(got) | set(want)):
                        a, b = got.get(key, {}), want.get(key, {})
                        for y in sorted(set(a) | set(b)):
                            u, v = a.get(y, 0.0), b.get(y, 0.0)
                            if abs(u - v) > 1e-9:
                                self.report('supercell', where, 'coupling',
                                    'element %s for lattice vectors %s does '
                                    'not match that of the original model' % (
                                    y, key))
                                return
                    self.count('supercell')
            except Undecided as e:
                self.undecided.append('elph.Model.supercell %s: %s' % (args,
                    e))

    def reduce(self, R, c, cells, N):
        """Supercell vector and cell index of R + c."""
        v = [R[y] + c[y] for y in range(3)]
        for j, d in enumerate(cells):
            w = [v[y] - d[y] for y in range(3)]
            for S in itertools.product(range(-6, 7), repeat=3):
                if all(sum(S[x] * N[x][y] for x in range(3)) == w[y]
                        for y in range(3)):
                    return S, j
        raise Undecided('cell')

    def coupling_table(self, obj, point, memo):
        (G, K), shape, v = self.table(obj, point, memo, ('Rg', 'Rk'))
        if len(shape) != 5 or shape[0] != len(G) or shape[2] != len(K):
            raise Undecided('shape')
        out = {}
        for n, w in enumerate(itertools.product(*map(range, shape))):
            g, x, k, a, b = w
            M = out.setdefault((G[g], K[k]), {})
            M[x, a, b] = M.get((x, a, b), 0.0) + v[n]
        return out

    # --- changes in place ---

    def in_place(self, short, make, name, args, rule, want, kwargs={}):
        """want(original matrices, n) -> expected matrices."""
        try:
            for obj, _ in self.run_method(make, name, *args, **kwargs):
                where = self.where(obj, name)
                point, memo = self.point(), {}
                n, original = self.matrices(make(), point, memo)
                m, got = self.matrices(obj, point, memo)
                if m != n:
                    raise Undecided('size')
                self.same(rule, where, name, got, want(original, n))
                yield obj, point, memo, where
        except Undecided as e:
            self.undecided.append('%s.Model.%s: %s' % (short, name, e))

    def transformations(self):
        def adjoint(t, n):
            out = {}
            for R, b in t.items():
                out.setdefault(R, [0.0] * (n * n))
                m = tuple(-x for x in R)
                out.setdefault(m, [0.0] * (n * n))
                for p in range(n):
                    for q in range(n):
                        out[R][p * n + q] += b[p * n + q] / 2
                        c = b[p * n + q]
                        out[m][q * n + p] += (c.conjugate() if isinstance(c,
                            complex) else c) / 2
            return out
        def reorder(order):
            def f(t, n):
                return {R: [b[p * n + q] for p in order for q in order]
                    for R, b in t.items()}
            return f
        def shift(orbitals, S):
            def f(t, n):
                out = {}
                for R, b in t.items():
                    for p in range(n):
                        for q in range(n):
                            k = (p in orbitals) - (q in orbitals)
                            T = tuple(x + k * y for x, y in zip(R, S))
                            M = out.setdefault(T, [0.0] * (n * n))
                            M[p * n + q] += b[p * n + q]
                return {k: v for k, v in out.items() if any(v)}
            return f
        repeated = R0 + (R0[1],)
        doubled = lambda make, letter, n: lambda: make(R=self.vectors(
            repeated), data=self.values(letter, len(repeated), n, n))
        for short, make, letter, n in (('el', self.el, 't', 3), ('ph',
                self.ph, 'c', 6), ('elel', self.elel, 'u', 3)):
            list(self.in_place(short, doubled(make, letter, n), 'standardize',
                (), 'standardize', lambda t, n: t))
            if short != 'elel':
                list(self.in_place(short, doubled(make, letter, n),
                    'standardize', (), 'symmetrize', adjoint, dict(
                    symmetrize=True)))
        list(self.in_place('el', self.el, 'order_orbitals', (2, 0, 1),
            'reorder', reorder((2, 0, 1))))
        for s, S in (slice(0, 1), (1, 0, 0)), (slice(1, 3), (-1, 2, 1)):
            list(self.in_place('el', self.el, 'shift_orbitals', (s, S),
                'shift', shift(range(3)[s], S)))
        for obj, point, memo, where in self.in_place('ph', self.ph,
                'order_atoms', (1, 0), 'reorder', reorder((3, 4, 5, 0, 1,
                2))):
            self.attrs(obj, point, memo, where, lambda r, a: r[3:] + r[:3],
                lambda M: M[::-1])
        for s, S in (slice(0, 1), (1, 0, 0)), (slice(1, 2), (-1, 2, 1)):
            atoms = range(2)[s]
            for obj, point, memo, where in self.in_place('ph', self.ph,
                    'shift_atoms', (s, S), 'shift', shift([3 * i + x for i in
                    atoms for x in range(3)], S)):
                self.attrs(obj, point, memo, where, lambda r, a: [r[i] + (i
                    // 3 in atoms) * sum(S[x] * a[3 * x + i % 3] for x in
                    range(3)) for i in range(6)], lambda M: M)

    def attrs(self, obj, point, memo, where, r, M):
        base = self.ph()
        get = lambda o, name: self.numbers(o.attrs[name], point, memo)[1]
        for name, want in ('r', r(get(base, 'r'), get(base, 'a'))), ('M', M(
                get(base, 'M'))), ('a', get(base, 'a')):
            got = get(obj, name)
            if len(got) != len(want) or any(abs(x - y) > 1e-9 for x, y in zip(
                    got, want)):
                self.report('companion', where, name, 'attribute %s is not '
                    'transformed together with the data' % name)
                return
        self.count('attributes transformed')

    def adjoint_coupling(self):
        for sym_ in False, True:
            try:
                for obj, _ in self.run_method(self.elph, 'standardize',
                        symmetrize=sym_):
                    where = self.where(obj, 'standardize')
                    point, memo = self.point(), {}
                    old = self.coupling_table(self.elph(), point, memo)
                    got = self.coupling_table(obj, point, memo)
                    want = {}
                    def add(G, K, key, v):
                        M = want.setdefault((G, K), {})
                        M[key] = M.get(key, 0.0) + v
                    for (G, K), b in old.items():
                        for (x, p, q), v in b.items():
                            if not sym_:
                                add(G, K, (x, p, q), v)
                                continue
                            add(G, K, (x, p, q), v / 2)
                            add(tuple(g - k for g, k in zip(G, K)), tuple(-k
                                for k in K), (x, q, p), v.conjugate() / 2)
                    bad = None
                    for key in sorted(set(got) | set(want)):
                        a, b = got.get(key, {}), want.get(key, {})
                        for y in sorted(set(a) | set(b)):
                            if abs(a.get(y, 0.0) - b.get(y, 0.0)) > 1e-9:
                                bad = bad or (y, key)
                    if bad:
                        self.report('symmetrize' if sym_ else 'standardize',
                            where, 'coupling', 'element %s for lattice vectors '
                            '%s does not match' % bad)
                    else:
                        self.count('symmetrize' if sym_ else 'standardize')
            except Undecided as e:
                self.undecided.append('elph.Model.standardize: %s' % e)

    def polar(self):
        return self.ph(Z=self.values('z', 2, 3, 3), Q=self.values('q', 2, 3, 3,
            3), alpha=sym('alpha'))

    def run(self):
        for f, args in (
                (self.supercells, ('el', self.el)),
                (self.supercells, ('ph', self.polar)),
                (self.sparse_cells, ('el', self.el, 'Hs')),
                (self.sparse_cells, ('ph', self.ph, 'Ds')),
                (self.accessors, ()),
                (self.supercells, ('ph', self.ph)),
                (self.supercells, ('elel', self.elel)),
                (self.coupling, ()),
                (self.transformations, ()),
                (self.adjoint_coupling, ())):
            try:
                f(*args)
            except (Undecided, Raised, ArithmeticError, AttributeError,
                    LookupError, TypeError, ValueError, RecursionError) as e:
                self.undecided.append('%s %s: %s: %s' % (f.__name__, args[:1],
                    type(e).__name__, e))

def check(root):
    c = Cells(root)
    c.run()
    return list(c.findings.values()), dict(identities=c.done, undecided=sorted(
        set(c.undecided)))
