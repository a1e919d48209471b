"""Sum rules enforced by corrections (C21)."""

import itertools
import math
import operator

from .cells import Cells
from .terms import (Undecided, Raised, Arr, Fn, sym, apply, nest)

A = (2.0, 0.25, 0.0), (-0.5, 1.75, 0.0), (0.125, 0.5, 3.0)
TAU = (0.25, 0.5, 0.125), (1.0, 0.75, 0.625)
VECTORS = ((0, 0, 0), (1, 0, 0), (-1, 0, 0)), ((0, 1, 1), (0, 0, 0), (0, -1,
    -1))

class SumRules(Cells):
    def apply(self, short, name, args, kwargs={}):
        """Results of a function, with the arguments after the call."""
        f = self.project.function('%s.%s' % (short, name))
        if f is None:
            raise Undecided('no %s.%s' % (short, name))
        env = self.forms.module(f.module.name)
        def run():
            a = args()
            return a, self.forms.call(Fn(f.node, f.module, env, f.name), a,
                dict(kwargs))
        self.forms.steps = 0
        out = [v for p, v in self.forms.cases(run) if v is not Raised]
        if not out:
            raise Undecided('nothing but errors')
        return f.qualname, out

    def vanish(self, rule, where, construct, sums, scale, message):
        self.count(rule)
        for s in sums:
            if not abs(s) <= 1e-9 * scale:
                self.report(rule, where, construct, message)
                return

    def symmetric(self, R, n):
        """Unknown force constants, equal for opposite bonds."""
        out = []
        for r in R:
            for i in range(n):
                for j in range(n):
                    m = tuple(-x for x in r)
                    k = min((r, i, j), (m, j, i))
                    out.append(sym('c%s_%d_%d' % ('_'.join(map(str, k[0])),
                        k[1], k[2])))
        return Arr(out, (len(R), n, n))

    def force_constants(self):
        for nat, R, mass, which in ((1, VECTORS[0], True, (True, True)), (1,
                VECTORS[1], False, (False, True)), (2, VECTORS[0], True,
                (True, False)), (2, VECTORS[1], False, (True, True))):
            n = 3 * nat
            def args():
                return [self.ph(R=self.vectors(R), data=self.symmetric(R, n),
                    size=n, nat=nat, divide_mass=mass, M=self.values('m',
                    nat), a=Arr([x for v in A for x in v], (3, 3)), r=Arr([x
                    for v in TAU[:nat] for x in v], (nat, 3)))]
            where, out = self.apply('ph', 'sum_rule_correction', args, dict(
                asr=which[0], rsr=which[1], report=False))
            for (ph,), _ in out:
                self.check_constants(where, ph, nat, R, mass, which)

    def check_constants(self, where, ph, nat, R, mass, which):
        point, memo = self.point(), {}
        n, D = self.matrices(ph, point, memo)
        if n != 3 * nat or set(D) - set(R):
            raise Undecided('shape')
        m = self.numbers(ph.attrs['M'], point, memo)[1]
        C = {}
        for r, d in D.items():
            for i in range(n):
                for j in range(n):
                    C[r, i, j] = d[i * n + j] * (math.sqrt(m[i // 3] * m[j
                        // 3]) if mass else 1.0)
        pos = {(r, l): [sum(r[i] * A[i][x] for i in range(3)) + TAU[l][x]
            for x in range(3)] for r in R for l in range(nat)}
        for (r, i, j), c in C.items():
            if abs(c - C[tuple(-x for x in r), j, i]) > 1e-9:
                self.report('symmetric', where, 'symmetry', 'corrected force '
                    'constants are not the same in opposite directions')
                break
        self.count('symmetric')
        old = self.numbers(self.symmetric(R, n), point, memo)[1]
        keys = [(r, i, j) for r in R for i in range(n) for j in range(n)]
        before = {}
        for v, (r, i, j) in zip(old, keys):
            before[r, i, j] = v * (math.sqrt(m[i // 3] * m[j // 3]) if mass
                else 1.0)
        sites = list(itertools.product(R, range(nat)))
        if which[0]:
            self.vanish('translation', where, 'acoustic sum rule', [sum(C[r, i,
                3 * l + y] for r, l in sites) for i in range(n) for y in
                range(3)], 1, 'forces remain when the crystal is displaced as '
                'a whole')
        if which[1]:
            self.vanish('rotation', where, 'rotation sum rule', [sum(C[r, i, 3
                * l + y] * pos[r, l][x] - C[r, i, 3 * l + x] * pos[r, l][y]
                for r, l in sites) for i in range(n) for x in range(3) for y
                in range(x)], 10, 'forces remain when the crystal is rotated '
                'as a whole')
        want = self.projection(before, keys, sites, pos, which, n)
        self.vanish('projection', where, 'correction', [C[k] - want[k] for k
            in keys], 10, 'force constants change more than the sum rules '
            'require')

    def projection(self, C, keys, sites, pos, which, n):
        """Closest symmetric force constants that fulfil the sum rules."""
        c = []
        for i in range(n):
            for x in range(3):
                if which[0]:
                    c.append({(r, i, 3 * l + x): 1.0 for r, l in sites})
                for y in range(x):
                    if which[1]:
                        v = {}
                        for r, l in sites:
                            v[r, i, 3 * l + y] = pos[r, l][x]
                            v[r, i, 3 * l + x] = -pos[r, l][y]
                        c.append(v)
        basis = []
        for v in c:
            u = [v.get((r, i, j), 0.0) + v.get((tuple(-x for x in r), j, i),
                0.0) for r, i, j in keys]
            size = sum(x * x for x in u)
            for _ in range(2):
                for b in basis:
                    s = sum(map(operator.mul, u, b))
                    u = [x - s * y for x, y in zip(u, b)]
            norm = sum(x * x for x in u)
            if norm > 1e-9 * size:
                norm = math.sqrt(norm)
                basis.append([x / norm for x in u])
        u = [C[k] for k in keys]
        for b in basis:
            s = sum(map(operator.mul, u, b))
            u = [x - s * y for x, y in zip(u, b)]
        return dict(zip(keys, u))

    def simple(self):
        shape = 3, 2, 2, 2, 1, 3
        nat, nr = 2, (2, 1, 3)
        where, out = self.apply('ph', 'asr', lambda: [self.values('f', nat,
            nat, *nr, 3, 3)])
        for (phid,), _ in out:
            point, memo = self.point(), {}
            shape, v = self.numbers(phid, point, memo)
            if shape != (nat, nat) + nr + (3, 3):
                raise Undecided('shape')
            _, old = self.numbers(self.values('f', *shape), point, memo)
            keys = list(itertools.product(*map(range, shape)))
            new = dict(zip(keys, v))
            sums = {}
            for k, x in new.items():
                s = k[0], k[5], k[6]
                sums[s] = sums.get(s, 0) + x
            self.vanish('translation', where, 'acoustic sum rule',
                sums.values(), 10, 'forces remain when the crystal is '
                'displaced as a whole')
            for k, x, y in zip(keys, v, old):
                if (k[0] != k[1] or any(k[2:5])) and abs(x - y) > 1e-9:
                    self.report('on-site', where, 'acoustic sum rule',
                        'force constants between different atoms change')
                    break
            self.count('on-site')

    def charges(self):
        where, out = self.apply('ph', 'zasr', lambda: [self.values('z', 3, 3,
            3)])
        for (Z,), _ in out:
            point, memo = self.point(), {}
            shape, v = self.numbers(Z, point, memo)
            if shape != (3, 3, 3):
                raise Undecided('shape')
            _, old = self.numbers(self.values('z', *shape), point, memo)
            self.vanish('charge', where, 'charge neutrality', [v[i] + v[9 + i]
                + v[18 + i] for i in range(9)], 1, 'Born effective charges '
                'do not add up to zero')
            d = [x - y for x, y in zip(v, old)]
            self.vanish('charge', where, 'uniform', [d[i] - d[9 * k + i] for
                i in range(9) for k in range(3)], 1, 'correction of the '
                'charges differs between atoms')

    def coupling_sum(self):
        for mass in True, False:
            def make():
                g = self.elph()
                g.attrs['ph'] = self.ph(data=None, size=6, nat=2,
                    divide_mass=mass)
                g.attrs['data'] = self.values('g', 3, 6, 3, 2, 2)
                g.attrs['divide_mass'] = mass
                return g
            for obj, _ in self.run_method(make, 'asr', report=False):
                where = self.where(obj, 'asr')
                point, memo = self.point(), {}
                t = self.coupling_table(obj, point, memo)
                old = self.coupling_table(make(), point, memo)
                m = self.numbers(obj.attrs['ph'].attrs['M'], point, memo)[1]
                sums = {}
                for (G, K), b in t.items():
                    for (x, p, q), v in b.items():
                        k = K, x % 3, p, q
                        sums[k] = sums.get(k, 0) + v * (math.sqrt(m[x // 3])
                            if mass else 1.0)
                self.vanish('translation', where, 'acoustic sum rule',
                    sums.values(), 10, 'electrons couple to displacements of '
                    'the crystal as a whole')

    def unchanged(self):
        """Coupling that fulfils the sum rule stays as it is."""
        for mass in True, False:
            def make():
                g = self.elph()
                g.attrs['ph'] = self.ph(data=None, size=6, nat=2,
                    divide_mass=mass)
                d = self.values('g', 3, 6, 3, 2, 2)
                M = [sym('m0'), sym('m1')]
                root = [apply('sqrt', x) if mass else 1 for x in M]
                for x, k, p, q in itertools.product(range(3), range(3),
                        range(2), range(2)):
                    s = 0
                    for r, na in itertools.product(range(3), range(2)):
                        if (r, na) != (2, 1):
                            s = apply('+', s, apply('*', d.get(r, 3 * na + x,
                                k, p, q), root[na]))
                    s = apply('/', s, root[1])
                    w = (((2 * 6 + 3 + x) * 3 + k) * 2 + p) * 2 + q
                    d.buf[d.idx[w]] = apply('*', -1, s)
                g.attrs['data'] = d
                g.attrs['divide_mass'] = mass
                return g
            for obj, _ in self.run_method(make, 'asr', report=False):
                where = self.where(obj, 'asr')
                point, memo = self.point(), {}
                new = self.coupling_table(obj, point, memo)
                old = self.coupling_table(make(), point, memo)
                self.vanish('unchanged', where, 'acoustic sum rule', [new[
                    k].get(x, 0.0) - y for k, b in old.items() for x, y in
                    b.items()], 10, 'coupling that fulfils the sum rule '
                    'changes')

    def run(self):
        for f in (self.force_constants, self.simple, self.charges,
                self.coupling_sum, self.unchanged):
            try:
                f()
            except (Undecided, Raised, ArithmeticError, AttributeError,
                    LookupError, TypeError, ValueError, RecursionError) as e:
                self.undecided.append('%s: %s: %s' % (f.__name__, type(e
                    ).__name__, e))

def check(root):
    c = SumRules(root)
    c.run()
    return list(c.findings.values()), dict(identities=c.done, undecided=sorted(
        set(c.undecided)))
