"""Polynomials with rational coefficients over opaque atoms."""

from fractions import Fraction

class Poly:
    __slots__ = ('terms', '_hash')

    def __init__(self, terms=None):
        self.terms = {m: c for m, c in (terms or {}).items() if c}
        self._hash = None

    @staticmethod
    def const(c):
        return Poly({(): Fraction(c)})

    @staticmethod
    def atom(*a):
        return Poly({((a, 1),): Fraction(1)})

    def __eq__(self, other):
        return isinstance(other, Poly) and self.terms == other.terms

    def __hash__(self):
        if self._hash is None:
            self._hash = hash(frozenset(self.terms.items()))
        return self._hash

    def __add__(self, other):
        t = dict(self.terms)
        for m, c in other.terms.items():
            t[m] = t.get(m, 0) + c
        return Poly(t)

    def __neg__(self):
        return Poly({m: -c for m, c in self.terms.items()})

    def __sub__(self, other):
        return self + -other

    def __mul__(self, other):
        t = {}
        for m1, c1 in self.terms.items():
            for m2, c2 in other.terms.items():
                m = mono_mul(m1, m2)
                t[m] = t.get(m, 0) + c1 * c2
        return Poly(t)

    def __pow__(self, n):
        if n < 0:
            return self.inverse() ** -n
        p = Poly.const(1)
        for _ in range(n):
            p = p * self
        return p

    def inverse(self):
        """Inverse of a monomial, else None-like opaque."""
        if len(self.terms) == 1:
            (m, c), = self.terms.items()
            return Poly({tuple((a, -e) for a, e in m): 1 / c})
        return Poly.atom('inv', self)

    def is_const(self):
        return not self.terms or list(self.terms) == [()]

    def value(self):
        if not self.terms:
            return Fraction(0)
        if list(self.terms) == [()]:
            return self.terms[()]
        return None

    def atoms(self):
        return {a for m in self.terms for a, _ in m}

    def subs(self, atom, poly):
        result = Poly()
        for m, c in self.terms.items():
            p = Poly({(): c})
            for a, e in m:
                if a == atom:
                    p = p * poly ** e
                else:
                    p = p * Poly({((a, e),): Fraction(1)})
            result = result + p
        return result

    def __repr__(self):
        if not self.terms:
            return '0'
        out = []
        for m, c in sorted(self.terms.items(), key=repr):
            factors = [show_atom(a) + ('' if e == 1 else '^%s' % e)
                for a, e in m]
            if c != 1 or not factors:
                factors.insert(0, str(c))
            out.append('*'.join(factors))
        return ' + '.join(out)

def mono_mul(m1, m2):
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e), key=repr))

def show_atom(a):
    if isinstance(a, tuple) and a:
        return '%s(%s)' % (a[0], ','.join(show_atom(x) for x in a[1:])) \
            if len(a) > 1 else str(a[0])
    return str(a)
