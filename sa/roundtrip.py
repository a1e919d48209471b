"""Composition of file writers with file readers.

The text written by a routine is summarized as a tree of literal text, formatted
values, and loops over records.  The corresponding reading routine is evaluated
abstractly on this tree: a loop that reads records is paired with the loop that
writes them, and each word yields the term which has been written in its place.
What the reader stores is then compared with what was passed to the writer,
element by element for unknown indices.  Neither routine is executed.
"""

import ast
import warnings
import os
import re
from fractions import Fraction

from .poly import Poly

class Unresolved(Exception):
    """Construct that is not understood; the pair of routines is not judged."""

class Mismatch(Exception):
    """Writer and reader definitely disagree."""

class PyExc(Exception):
    """Exception raised in the analysed program."""

class Return(Exception):
    def __init__(self, value):
        self.value = value

class Break(Exception):
    pass

class Continue(Exception):
    pass

# --- terms -------------------------------------------------------------------

ONE = Poly.const(1)
ZERO = Poly.const(0)
IMAG = Poly.atom('I')

def const(p):
    """Number if polynomial is constant."""
    if isinstance(p, Poly):
        if not p.terms:
            return Fraction(0)
        if len(p.terms) == 1 and () in p.terms:
            return p.terms[()]
    return None

def integer(p):
    c = const(p)
    if c is not None and c.denominator == 1:
        return int(c)
    return None

def single(p):
    """Atom if polynomial is a single atom."""
    if isinstance(p, Poly) and len(p.terms) == 1:
        (m, c), = p.terms.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return None

def atoms(p):
    return {a for m in p.terms for a, _ in m}

def deep(a):
    """All atoms nested in atom."""
    yield a
    for x in a:
        for y in nested(x):
            yield y

def nested(x):
    if isinstance(x, Poly):
        for a in atoms(x):
            for y in deep(a):
                yield y
    elif isinstance(x, tuple):
        for y in x:
            for z in nested(y):
                yield z

def all_atoms(p):
    return {y for a in atoms(p) for y in deep(a)}

class Slice:
    def __init__(self, lo, hi, step=None):
        self.lo, self.hi, self.step = lo, hi, step

    def key(self):
        return ('slice', freeze(self.lo), freeze(self.hi), freeze(self.step))

def freeze(v):
    """Hashable representation of value."""
    if isinstance(v, (Poly, str, bool, bytes)) or v is None:
        return v
    if isinstance(v, (int, float, Fraction)):
        return Poly.const(Fraction(str(v)))
    if isinstance(v, (tuple, list)):
        return tuple(freeze(x) for x in v)
    if isinstance(v, (Slice, Sym, StrV, Arr, Mod)):
        return v.key()
    return ('object', id(v))

class Sym:
    """Opaque object."""
    def __init__(self, k):
        self.k = k

    def key(self):
        return ('sym', self.k)

class Mod:
    """Module or attribute of external module."""
    def __init__(self, path):
        self.path = path

    def key(self):
        return ('mod', self.path)

class Obj:
    """Object with known attributes."""
    def __init__(self, attrs, name='self'):
        self.attrs = attrs
        self.name = name

class Func:
    def __init__(self, node, frame, module, bound=None):
        self.node, self.frame, self.module = node, frame, module
        self.bound = bound

class Bound:
    def __init__(self, value, name):
        self.value, self.name = value, name

class Cond:
    """Undecided condition."""
    def __init__(self, k, positive=True):
        self.k, self.positive = k, positive

class StrV:
    """String with unknown parts."""
    def __init__(self, parts):
        out = []
        for p in parts:
            if p[0] == 'lit':
                if not p[1]:
                    continue
                if out and out[-1][0] == 'lit':
                    out[-1] = ('lit', out[-1][1] + p[1])
                    continue
            out.append(p)
        self.parts = out

    def key(self):
        return ('strv', tuple((p[0],) + tuple(freeze(x) for x in p[1:])
            for p in self.parts))

def simple(s, padded=False):
    """Plain string, term, or string with unknown parts."""
    if isinstance(s, StrV):
        if not s.parts:
            return ''
        if len(s.parts) == 1:
            if s.parts[0][0] == 'lit':
                return s.parts[0][1]
            if s.parts[0][0] == 'fld' and not (padded
                    and width(s.parts[0][1])):
                return s.parts[0][2]
    return s

def parts(s):
    if isinstance(s, str):
        return [('lit', s)] if s else []
    if isinstance(s, StrV):
        return list(s.parts)
    return [('fld', '%s', s)]

# --- arrays ------------------------------------------------------------------

class Arr:
    """Array given by function of indices."""
    def __init__(self, dims, fn, k=None):
        self.dims = dims
        self.fn = fn
        self.k = k

    def key(self):
        return ('arr', self.k if self.k is not None else id(self))

    def elem(self, idx):
        return self.fn(tuple(idx))

    def shape(self, n):
        if self.dims is None:
            raise Unresolved('shape of array')
        return self.dims[n]

class Target(Arr):
    """Array, list or dictionary filled by assignments."""
    serial = 0

    def __init__(self, dims, default=None, kind='array'):
        Target.serial += 1
        self.k = ('target', Target.serial)
        self.dims = dims
        self.default = default
        self.kind = kind
        self.stores = []
        self.count = ZERO
        self.level = 0

    def elem(self, idx):
        for pattern, value in reversed(self.stores):
            binding = match(pattern, idx)
            if binding is None:
                continue
            if binding is False:
                raise Unresolved('index of element')
            bound, rest, extra = binding
            value = substitute(value, bound)
            rest = extra + list(rest)
            if rest:
                value = index(value, rest)
            return value
        if self.default is not None:
            return self.default
        raise KeyError

def match(pattern, idx):
    """Match index with indices of assignment; loop variables are bound.

    Yields bound loop variables, remaining indices, and indices into slices.
    """
    bound = {}
    extra = []
    if len(pattern) > len(idx):
        return None
    for p, i in zip(pattern, idx):
        if isinstance(p, Slice):
            if isinstance(i, Slice):
                return False
            lo = substitute(p.lo, bound) if p.lo is not None else ZERO
            if isinstance(lo, Poly):
                free = [a for a in atoms(lo) if a[0] == 'lv']
                if free:
                    if len(free) > 1 or p.hi is None:
                        return False
                    width = integer(p.hi - p.lo)
                    if width is None:
                        return False
                    coef, rest = linear(lo, free[0])
                    for off in range(width):
                        q = divide(i - rest - Poly.const(off), coef)
                        if q is not None:
                            bound[free[0]] = q
                            extra.append(Poly.const(off))
                            break
                    else:
                        return None
                    continue
            off = i - lo
            c = integer(off)
            if c is not None and c < 0:
                return None
            if p.hi is not None:
                hi = substitute(p.hi, bound)
                c = integer(i - hi)
                if c is not None and c >= 0:
                    return None
            extra.append(off)
            continue
        if isinstance(p, str) or isinstance(i, str):
            if p == i:
                continue
            if isinstance(p, Poly) and single(p) and single(p)[0] == 'lv':
                return False
            if isinstance(p, str) and isinstance(i, str):
                return None
            return False
        if isinstance(i, Slice):
            return False
        p = substitute(p, bound)
        if p == i:
            continue
        free = [a for a in atoms(p) if a[0] == 'lv']
        if not free:
            if const(p - i) is not None:
                return None
            if const(p) is not None or all(a[0] == 'free' for a in atoms(p - i)):
                # element of known index does not cover unknown index
                return None
            return False
        if len(free) > 1 or any(b in all_atoms(p) and b not in atoms(p)
                for b in free):
            return False
        coef, rest = linear(p, free[0])
        if coef is None:
            return False
        q = divide(i - rest, coef)
        if q is None:
            return None
        if not fits(free[0], q):
            return None
        bound[free[0]] = q
    return bound, idx[len(pattern):], extra

EXTENT = {}
SCALE = {}

def fits(lv, q):
    """May loop variable assume this value?"""
    c = integer(q)
    return c is None or c >= 0

def linear(p, a):
    """Split p = coef * a + rest with constant coefficient."""
    coef = Fraction(0)
    rest = {}
    for m, c in p.terms.items():
        if any(b == a for b, _ in m):
            if m != ((a, 1),):
                return None, None
            coef += c
        else:
            if any(y == a for b, _ in m for y in deep(b)):
                return None, None
            rest[m] = c
    return coef, Poly(rest)

def divide(p, c):
    """Exact quotient of integer polynomials."""
    if not c:
        return None
    q = Poly({m: Fraction(x) / c for m, x in p.terms.items()})
    if any(x.denominator != 1 for x in q.terms.values()):
        return None
    return q

def substitute(v, mapping):
    """Replace loop variables in value."""
    if not mapping or v is None or isinstance(v, (str, bool, bytes)):
        return v
    if isinstance(v, Poly):
        if not any(a in mapping for a in all_atoms(v)):
            return v
        total = ZERO
        for m, c in v.terms.items():
            term = Poly.const(c)
            for a, e in m:
                b = sub_atom(a, mapping)
                if e < 0:
                    b = inverse(b)
                    e = -e
                term = term * b ** e
            total = total + term
        return total
    if isinstance(v, tuple):
        return tuple(substitute(x, mapping) for x in v)
    if isinstance(v, StrV):
        return StrV([(p[0],) + tuple(p[1:2]) + tuple(substitute(x, mapping)
            for x in p[2:]) if p[0] != 'iloop' else p for p in v.parts])
    if isinstance(v, Slice):
        return Slice(substitute(v.lo, mapping), substitute(v.hi, mapping),
            v.step)
    if isinstance(v, Sym):
        return Sym(sub_key(v.k, mapping))
    if isinstance(v, Arr):
        if isinstance(v, Target) and not v.stores:
            return v
        return Arr(v.dims and [substitute(d, mapping) for d in v.dims],
            lambda idx: substitute(v.elem(idx), mapping),
            ('sub', v.key(), tuple(sorted(((a, p) for a, p
                in mapping.items()), key=repr))))
    return v

def contained(p, q):
    """Is one product of dimensions a factor of the other?"""
    if p == q or len(p.terms) != 1 or len(q.terms) != 1:
        return False
    (a, _), = p.terms.items()
    (b, _), = q.terms.items()
    b = dict(b)
    return bool(a) and all(b.get(x, 0) >= e for x, e in a)

def sub_key(k, mapping):
    if isinstance(k, Poly):
        return substitute(k, mapping)
    if isinstance(k, tuple):
        return tuple(sub_key(x, mapping) for x in k)
    return k

def sub_atom(a, mapping):
    if a in mapping:
        return mapping[a]
    if a[0] == 'el':
        return mk_el(a[1], tuple(sub_key(x, mapping) for x in a[2]))
    if a[0] == 'flat':
        return mk_flat(a[1], substitute(a[2], mapping))
    if a[0] in ('re', 'im'):
        p = substitute(Poly({((a[1], 1),): Fraction(1)}), mapping)
        b = single(p)
        return Poly.atom(a[0], b) if b else Poly.atom('fn', a[0], p)
    a = tuple(sub_key(x, mapping) for x in a)
    if a[0] == 'fn' and a[1] in ('FloorDiv', 'Mod') and integer(a[3]):
        q = quotient(a[2], a[3])
        if q is not None:
            return q[a[1] == 'Mod']
    return Poly({((a, 1),): Fraction(1)})

def inverse(p):
    q = p.inverse()
    return q if q is not None else Poly.atom('fn', 'inverse', p)

COLUMNS = {}
SYMMETRIC = {}

def mk_el(k, idx):
    """Element of array with name k."""
    if k in SYMMETRIC:
        i, j = SYMMETRIC[k]
        if len(idx) > max(i, j):
            idx = list(idx)
            if repr(idx[i]) > repr(idx[j]):
                idx[i], idx[j] = idx[j], idx[i]
            idx = tuple(idx)
    if k in COLUMNS and len(idx) == 1:
        number, arrays = COLUMNS[k]
        a = single(idx[0])
        if a and a[0] == 'fn' and a[1] == 'position' \
                and COLUMNS.get(a[2], (None, None))[1] is arrays:
            b = single(a[3])
            other = COLUMNS[a[2]][0]
            if b and b[0] == 'el' and b[1] == arrays[other]:
                return mk_el(arrays[number], b[2])
    return Poly.atom('el', k, tuple(idx))

FLAT = {}

def mk_flat(k, i):
    """Element of flattened array."""
    v = FLAT[k]
    a = single(i)
    if a is None or a[0] != 'lv':
        idx = []
        rest = i
        for d in reversed(v.dims[1:]):
            q = quotient(rest, to_poly(d))
            if q is None:
                break
            rest, r = q
            idx.append(r)
        else:
            idx.append(rest)
            return to_poly(value_of(index(v, idx[::-1])))
    return Poly.atom('flat', k, i)

def to_poly(v):
    if isinstance(v, Poly):
        return v
    if isinstance(v, bool):
        return Poly.const(int(v))
    if isinstance(v, (int, Fraction)):
        return Poly.const(v)
    if isinstance(v, float):
        return Poly.const(Fraction(repr(v)))
    if isinstance(v, complex):
        return to_poly(v.real) + to_poly(v.imag) * IMAG
    if isinstance(v, Sym):
        if isinstance(v.k, tuple) and v.k and v.k[0] == 'el':
            return mk_el(v.k[1], v.k[2])
        return Poly.atom('sym', v.k)
    if isinstance(v, Mod):
        return Poly.atom('const', v.path)
    if isinstance(v, Arr) and v.dims is not None and not v.dims:
        return to_poly(v.elem(()))
    raise Unresolved('number expected')

def base(name, dims):
    """Array passed to writer."""
    return Arr([to_poly(d) if not isinstance(d, str) else Poly.atom('dim', d)
        for d in dims], lambda idx: mk_el(name, idx), name)

def part(which, p):
    """Real or imaginary part of term which is linear in array elements."""
    p = to_poly(p)
    out = ZERO
    for m, c in p.terms.items():
        els = [a for a, e in m if a[0] == 'el' and e == 1]
        imag = [e for a, e in m if a == ('I',)]
        rest = {tuple((a, e) for a, e in m if a not in els
            and a != ('I',)): c}
        if len(els) > 1 or imag and imag != [1]:
            raise Unresolved('real or imaginary part')
        if els:
            w = which
            sign = 1
            if imag:
                w = 'im' if which == 're' else 're'
                sign = -1 if which == 're' else 1
            out = out + Poly(rest) * Poly.atom(w, els[0]) * Poly.const(sign)
        elif bool(imag) == (which == 'im'):
            out = out + Poly(rest)
    return out

def expand(p):
    """Express array elements by real and imaginary parts."""
    out = ZERO
    for m, c in p.terms.items():
        term = Poly.const(c)
        for a, e in m:
            if a[0] == 'el' and e == 1:
                term = term * (Poly.atom('re', a) + IMAG * Poly.atom('im', a))
            else:
                term = term * Poly({((a, e),): Fraction(1)})
        out = out + term
    return out

class Pos:
    """Position in string with unknown parts."""
    def __init__(self, number, offset):
        self.number, self.offset = number, offset

def index_string(v, i):
    """Character or part of string."""
    if isinstance(i, Slice):
        if i.step is not None:
            raise Unresolved('part of string')
        ps = parts(v)
        lo, hi = i.lo, i.hi
        if isinstance(hi, Pos):
            ps = ps[:hi.number] + [('lit', ps[hi.number][1][:hi.offset])]
            hi = None
        if isinstance(lo, Pos):
            raise Unresolved('part of string')
        lo = integer(lo) if lo is not None else None
        hi = integer(hi) if hi is not None else None
        if i.lo is not None and lo is None or isinstance(i.hi, Poly) \
                and hi is None:
            raise Unresolved('part of string')
        if isinstance(v, str) and not isinstance(i.hi, Pos):
            return v[lo:hi]
        n = lo or 0
        if n < 0:
            raise Unresolved('part of string')
        if hi is not None:
            if hi < 0:
                n2 = -hi
                while n2 and ps and ps[-1][0] == 'lit':
                    k = min(n2, len(ps[-1][1]))
                    ps[-1] = ('lit', ps[-1][1][:-k])
                    n2 -= k
                    if not ps[-1][1]:
                        ps.pop()
                if n2:
                    raise Unresolved('part of string')
                hi = None
        while n and ps and ps[0][0] == 'lit':
            k = min(n, len(ps[0][1]))
            ps[0] = ('lit', ps[0][1][k:])
            n -= k
            if hi is not None:
                hi -= k
            if not ps[0][1]:
                ps.pop(0)
        if n:
            raise Unresolved('part of string')
        if hi is not None:
            out = []
            for p in ps:
                if p[0] == 'lit':
                    out.append(('lit', p[1][:hi]))
                    hi -= min(hi, len(p[1]))
                else:
                    out.append(('fld', p[1], Poly.atom('fn', 'start',
                        Poly.const(hi), to_poly(value_of(p[2])))))
                    hi = 0
                if not hi:
                    break
            ps = out
        return simple(StrV(ps))
    if isinstance(v, str) and integer(i) is not None:
        try:
            return v[integer(i)]
        except IndexError:
            raise PyExc('IndexError')
    raise Unresolved('character of string')

def index(v, items):
    """Subscript with list of terms, slices, strings, ... as indices."""
    if isinstance(v, (str, StrV)):
        return index_string(v, items[0])

    if isinstance(v, (tuple, list)):
        i = items[0]
        if isinstance(i, Slice):
            lo = integer(i.lo) if i.lo is not None else None
            hi = integer(i.hi) if i.hi is not None else None
            step = integer(i.step) if i.step is not None else None
            if (lo is None and i.lo is not None or hi is None
                    and i.hi is not None or step is None
                    and i.step is not None):
                raise Unresolved('slice of sequence')
            return tuple(v[lo:hi:step])
        c = integer(i) if isinstance(i, Poly) else None
        if c is None:
            if all(isinstance(x, (Poly, Sym)) for x in v) and len(set(
                    freeze(x) for x in v)) == 1:
                c = 0
            else:
                raise Unresolved('index of sequence')
        if not -len(v) <= c < len(v):
            raise PyExc('IndexError')
        return index(v[c], items[1:]) if len(items) > 1 else v[c]

    if isinstance(v, Sym):
        for i in items:
            if not isinstance(i, (Poly, str)):
                return Sym(('item', v.k, tuple(freeze(x) for x in items)))
        k = v.k
        if isinstance(k, tuple) and k and k[0] == 'el':
            return Sym(('el', k[1], k[2] + tuple(items)))
        return Sym(('el', k, tuple(items)))

    if isinstance(v, Poly):
        a = single(v)
        if a and a[0] == 'el' and all(isinstance(i, (Poly, str))
                for i in items):
            return mk_el(a[1], a[2] + tuple(items))
        raise Unresolved('index of number')

    if not isinstance(v, Arr):
        raise Unresolved('index')

    items = [i.elem(()) if isinstance(i, Arr) and i.dims == [] else i
        for i in items]

    # boolean masks, index arrays:

    for n, i in enumerate(items):
        if isinstance(i, Arr):
            if len(items) > 1 or i.dims is None or len(i.dims) != 1:
                raise Unresolved('index array')
            return Arr([i.dims[0]] + list(v.dims[1:]) if v.dims else None,
                lambda idx: value_of(index(v, [value_of(i.elem(idx[:1]))]
                    + list(idx[1:]))))
        if isinstance(i, (Cond, bool)):
            raise Unresolved('mask')

    if any(i is None for i in items) or any(i is Ellipsis for i in items):
        if v.dims is None:
            raise Unresolved('ellipsis or new axis')
        used = sum(i is not None and i is not Ellipsis for i in items)
        if Ellipsis in items:
            n = items.index(Ellipsis)
            items = (items[:n] + [Slice(None, None)] * (len(v.dims) - used)
                + items[n + 1:])
        if any(i is None for i in items):
            inner = index(v, [i for i in items if i is not None])
            where = []
            n = 0
            for i in items:
                if i is None:
                    where.append(n)
                    n += 1
                elif isinstance(i, Slice):
                    n += 1
            dims = list(inner.dims) if isinstance(inner, Arr) else []
            for n in where:
                dims.insert(n, ONE)
            return Arr(dims, lambda idx: value_of(index(inner, [i for n, i
                in enumerate(idx) if n not in where])
                if len(idx) > len(where) else inner))

    if isinstance(v, Target) and v.kind != 'array':
        if len(items) >= 1 and not isinstance(items[0], Slice):
            for pattern, value in reversed(v.stores):
                if len(pattern) == 1:
                    found = match(pattern, items[:1])
                    if found and not found[0] and not found[2]:
                        # same index
                        if len(items) > 1:
                            return index(value, items[1:])
                        return value
            if v.kind == 'list' and integer(items[0]) == -1:
                last = getattr(v, 'last', None)
                if last is None:
                    raise Unresolved('last element of list')
                return index(v, [last] + list(items[1:]))
            if v.kind == 'dict' and isinstance(items[0], str) and all(
                    isinstance(p[0], str) for p, _ in v.stores):
                if not any(p[0] == items[0] for p, _ in v.stores):
                    raise PyExc('KeyError')

    if v.dims is not None and len(items) == len(v.dims) and not any(
            isinstance(i, Slice) for i in items):
        items = [wrap_index(i, d) for i, d in zip(items, v.dims)]
        try:
            return v.elem(tuple(items))
        except KeyError:
            if isinstance(v, Target):
                return Ref(v, items)
            raise

    ref = Ref(v, items)
    if ref.dims is None and (ref.root.kind == 'list' if isinstance(ref.root,
            Target) else isinstance(ref.root.k, tuple) and ref.root.k
            and ref.root.k[0] == 'sub') and not any(isinstance(i, (Slice, str))
                or i is None or i is Ellipsis for i in ref.items):
        try:
            value = ref.root.elem(tuple(ref.items))
        except (KeyError, Unresolved, PyExc):
            return ref
        if isinstance(value, (Poly, Sym, StrV, str)):
            return value
    return ref

def wrap_index(i, d):
    c = integer(i) if isinstance(i, Poly) else None
    if c is not None and c < 0:
        return to_poly(d) + i if d is not None else i
    return i

def frozen(v):
    """Current value of array that may be modified later."""
    if isinstance(v, Target) and v.kind == 'array':
        t = Target(v.dims, v.default, v.kind)
        t.stores = list(v.stores)
        t.count = v.count
        return t
    if isinstance(v, Ref) and isinstance(v.root, Target) \
            and v.root.kind == 'array':
        return Ref(frozen(v.root), v.items)
    return v

class Ref(Arr):
    """View on array: fixed indices and slices."""
    def __init__(self, v, items):
        if isinstance(v, Ref):
            self.root, self.items = v.compose(items)
        else:
            self.root, self.items = v, list(items)
            if v.dims is not None:
                self.items = [i if isinstance(i, Slice) or d is None
                    else wrap_index(i, d) for i, d in zip(self.items, v.dims)]
        d = self.root.dims
        if d is None:
            self.dims = None
        else:
            items = self.items + [Slice(None, None)] * (len(d)
                - len(self.items))
            self.dims = [extent(i, n) for i, n in zip(items, d)
                if isinstance(i, Slice)]
        self.k = ('ref', self.root.key(), tuple(freeze(i)
            for i in self.items))

    def compose(self, items):
        items = list(items)
        out = []
        for n, i in enumerate(self.items):
            if isinstance(i, Slice) and items:
                j = items.pop(0)
                dim = self.root.dims[n] if self.root.dims is not None else None
                out.append(combine(i, j, dim))
            else:
                out.append(i)
        return self.root, out + items

    def elem(self, idx):
        root, items = self.compose(idx)
        if any(isinstance(i, Slice) for i in items):
            raise Unresolved('element of slice')
        return root.elem(tuple(items)) if not isinstance(root, Target) else \
            target_elem(root, items)

def target_elem(t, items):
    return t.elem(tuple(items))

def extent(s, n):
    """Length of slice of axis with length n."""
    if s.step is not None and const(s.step) not in (1, -1):
        raise Unresolved('step')
    lo = s.lo if s.lo is not None else ZERO
    if s.hi is None:
        if n is None:
            return None
        hi = n
    else:
        hi = s.hi
        c = integer(hi)
        if c is not None and c < 0:
            if n is None:
                return None
            hi = n + hi
    if s.step is not None and const(s.step) == -1:
        if s.lo is not None or s.hi is not None:
            raise Unresolved('step')
        return n
    if n is not None and integer(n) is not None and integer(hi) is not None:
        hi = Poly.const(min(integer(n), integer(hi)))
    return hi - lo

def combine(s, j, dim):
    """Index j into slice s."""
    back = s.step is not None and const(s.step) == -1
    lo = s.lo if s.lo is not None else ZERO
    if isinstance(j, Slice):
        if s.lo is None and s.hi is None and s.step is None:
            return j
        if j.lo is None and j.hi is None and j.step is None:
            return s
        if back or j.step is not None:
            raise Unresolved('nested slices')
        return Slice(lo + (j.lo if j.lo is not None else ZERO),
            lo + j.hi if j.hi is not None else s.hi)
    if isinstance(j, str):
        raise Unresolved('string as index')
    if back:
        if dim is None:
            raise Unresolved('reversed axis')
        return to_poly(dim) - ONE - j
    c = integer(j)
    if c is not None and c < 0:
        if s.hi is None and dim is not None:
            return to_poly(dim) + j
        if s.hi is not None:
            return s.hi + j
    return lo + j

def value_of(v):
    """Element in a form that can be compared and calculated with."""
    if isinstance(v, Sym):
        return to_poly(v)
    if isinstance(v, Arr) and v.dims == []:
        try:
            return value_of(v.elem(()))
        except KeyError:
            return Poly.atom('undefined', v.key())
    return v

def transposed(v, axes=None):
    if v.dims is None:
        raise Unresolved('transpose')
    n = len(v.dims)
    axes = list(range(n))[::-1] if axes is None else [a % n for a in axes]
    if sorted(axes) != list(range(n)):
        raise Unresolved('transpose')
    inv = [axes.index(a) for a in range(n)]
    return Arr([v.dims[a] for a in axes],
        lambda idx: value_of(index(v, [idx[i] for i in inv])),
        ('transposed', v.key(), tuple(axes)))

class Flat:
    """Elements of array in C order."""
    def __init__(self, v):
        self.v = v

def product(dims):
    p = ONE
    for d in dims:
        p = p * to_poly(d)
    return p

def reshape(v, dims):
    """Reshape array or flattened array."""
    dims = [to_poly(d) for d in dims]
    if isinstance(v, Flat):
        src = v.v
        if src.dims is not None and -1 in [integer(d) for d in dims]:
            raise Unresolved('reshape')
        if src.dims == dims:
            return src
        return reshape(src, dims)
    if isinstance(v, Arr) and v.dims is not None:
        if v.dims == dims:
            return v
        # axes are split or merged
        minus = [n for n, d in enumerate(dims) if integer(d) == -1]
        if minus:
            if len(minus) > 1:
                raise Unresolved('reshape')
            rest = product(d for n, d in enumerate(dims) if n not in minus)
            p = product(v.dims)
            q = p * inverse(rest)
            dims[minus[0]] = q
            if v.dims == dims:
                return v
        groups = []
        i = j = 0
        while i < len(v.dims) or j < len(dims):
            a, b = i, j
            i += 1
            j += 1
            if i > len(v.dims) or j > len(dims):
                raise Unresolved('reshape')
            while product(v.dims[a:i]) != product(dims[b:j]):
                p, q = product(v.dims[a:i]), product(dims[b:j])
                r = p * inverse(q)
                if len(r.terms) == 1 and all(e > 0 for m in r.terms
                        for _, e in m) and list(r.terms.values())[0] >= 1:
                    j += 1
                else:
                    i += 1
                if i > len(v.dims) or j > len(dims):
                    raise Unresolved('reshape')
            groups.append((range(a, i), range(b, j)))

        def fn(idx):
            old = [None] * len(v.dims)
            for src, dst in groups:
                flat = ZERO
                for n in dst:
                    flat = flat * to_poly(dims[n]) + idx[n]
                if len(src) == 1:
                    old[src[0]] = flat
                else:
                    # split by extents
                    for n in reversed(src[1:]):
                        d = to_poly(v.dims[n])
                        q = quotient(flat, d)
                        if q is None and integer(d) is not None:
                            q = (Poly.atom('fn', 'FloorDiv', flat, d),
                                Poly.atom('fn', 'Mod', flat, d))
                        if q is None:
                            raise Unresolved('reshape')
                        flat, old[n] = q
                    old[src[0]] = flat
            return value_of(index(v, old))
        return Arr(dims, fn, ('reshape', v.key(), tuple(dims)))
    raise Unresolved('reshape')

def quotient(p, d):
    """Quotient and remainder with respect to dimension."""
    c = integer(d)
    quo, rem = ZERO, ZERO
    if c is not None:
        for m, x in p.terms.items():
            if m and x.denominator == 1 and x % c == 0:
                quo = quo + Poly({m: x / c})
            else:
                rem = rem + Poly({m: x})
        r = integer(rem)
        if r is not None:
            return quo + Poly.const(r // c), Poly.const(r % c)
        return None
    a = single(d)
    if a is None:
        return None
    for m, x in p.terms.items():
        if any(b == a and e > 0 for b, e in m):
            quo = quo + Poly({m: x}) * inverse(d)
        else:
            rem = rem + Poly({m: x})
    return quo, rem

# --- text --------------------------------------------------------------------

class Line:
    def __init__(self, ps):
        self.parts = StrV(ps).parts

    def blank(self):
        return all(p[0] == 'lit' and not p[1].strip() for p in self.parts)

    def literal(self):
        return all(p[0] == 'lit' for p in self.parts)

class Loop:
    def __init__(self, lv, ext, nodes):
        self.lv, self.ext, self.nodes = lv, ext, nodes

class Stream:
    """Values wrapped to several lines."""
    def __init__(self, lv, ext, ps):
        self.lv, self.ext, self.parts = lv, ext, StrV(ps).parts

def ends_with_newline(items):
    if not items:
        return False
    if items[-1][0] == 'nl':
        return True
    return items[-1][0] == 'loop' and (ends_with_newline(items[-1][3])
        or items[-1][3] and items[-1][3][-1][0] == 'wrap')

def has_newline(items):
    return any(i[0] == 'nl' or i[0] == 'loop' and has_newline(i[3])
        for i in items)

def rotate(items):
    """Move newline from start to end of loop."""
    if items and items[0][0] == 'nl':
        return items[1:] + [('nl',)]
    if len(items) == 1 and items[0][0] == 'loop':
        return [items[0][:3] + (rotate(items[0][3]),)]
    raise Unresolved('newlines in loop')

def build(items):
    """Group text into lines."""
    nodes = []
    cur = []
    items = list(items)
    while items:
        i = items.pop(0)
        if i[0] == 'nl':
            nodes.append(Line(cur))
            cur = []
        elif i[0] == 'wrap':
            raise Unresolved('conditional newline')
        elif i[0] == 'loop':
            body = i[3]
            wraps = [j for j in body if j[0] == 'wrap']
            if wraps:
                ps = [j for j in body if j[0] != 'wrap']
                if has_newline(ps) or cur or body[-1][0] != 'wrap' \
                        or len(wraps) > 1:
                    raise Unresolved('conditional newline')
                nodes.append(Stream(i[1], i[2], inline(ps)))
                if not wraps[0][1]:
                    if items and items[0][0] == 'nl':
                        items.pop(0)
                    else:
                        raise Mismatch('the last values are not terminated by '
                            'the end of a line')
            elif not has_newline(body):
                cur.append(('iloop', i[1], i[2], inline(body)))
            elif ends_with_newline(body):
                if cur:
                    raise Unresolved('line before loop')
                nodes.append(Loop(i[1], i[2], build(body)))
            else:
                body = rotate(body)
                if not items or items[0][0] != 'nl':
                    raise Unresolved('newline after loop')
                items.pop(0)
                nodes.append(Line(cur))
                cur = []
                nodes.append(Loop(i[1], i[2], build(body)))
        else:
            cur.append(i)
    if cur:
        nodes.append(Line(cur))
    return nodes

class Data:
    """Binary content of array."""
    def __init__(self, v):
        self.v = v

def binary(items):
    """Arrays in binary file."""
    out = []
    for i in items:
        if i[0] == 'loop':
            out.append(Loop(i[1], i[2], binary(i[3])))
        elif i[0] == 'data':
            out.append(Data(i[1]))
        else:
            raise Unresolved('content of binary file')
    return out

def inline(items):
    return [('iloop', i[1], i[2], inline(i[3])) if i[0] == 'loop' else i
        for i in items]

class TokSeq:
    """Words of a line with a repeated part."""
    def __init__(self, segments):
        self.segments = segments

    def array(self):
        if len(self.segments) == 1 and self.segments[0][0] == 'rep':
            _, lv, ext, toks = self.segments[0]
            if len(toks) == 1:
                value = toks[0]
                return Arr([ext], lambda idx: value_of(substitute(value,
                    {lv: idx[0]})))
        raise Unresolved('words of line')

    def item(self, i):
        seq = self.segments if i >= 0 else self.segments[::-1]
        n = i if i >= 0 else -1 - i
        for s in seq:
            if s[0] == 'rep':
                raise Unresolved('word of line')
            if n == 0:
                return s[1]
            n -= 1
        raise PyExc('IndexError')

    def slice(self, lo, hi):
        segs = self.segments
        a = 0
        if lo is not None:
            if lo < 0:
                raise Unresolved('words of line')
            for n in range(lo):
                if n >= len(segs) or segs[n][0] == 'rep':
                    raise Unresolved('words of line')
            a = lo
        b = len(segs)
        if hi is not None:
            if hi >= 0:
                for n in range(hi):
                    if n < len(segs) and segs[n][0] == 'rep':
                        raise Unresolved('words of line')
                b = min(b, hi)
            else:
                for n in range(-hi):
                    if segs[b - 1][0] == 'rep':
                        raise Unresolved('words of line')
                    b -= 1
        segs = segs[a:b]
        if all(s[0] == 'tok' for s in segs):
            return tuple(s[1] for s in segs)
        return TokSeq(segs)

def width(fmt):
    return bool(re.match(r'%[-+ 0#]*[\d\0]', fmt))

def words(s):
    """Split string with unknown parts at white space."""
    segs = []
    cur = []

    def flush():
        if cur:
            segs.append(('tok', simple(StrV(cur))))
            del cur[:]

    last = None
    for p in parts(s):
        if p[0] == 'lit':
            pieces = re.split(r'(\s+)', p[1])
            for piece in pieces:
                if not piece:
                    continue
                if piece.isspace():
                    flush()
                else:
                    cur.append(('lit', piece))
        elif p[0] == 'fld':
            if last is not None and width(p[1]) and (last[0] == 'fld'
                    or not p[1].startswith('%-')):
                flush()
            cur.append(p)
        elif p[0] == 'iloop':
            flush()
            inner = words(StrV(p[3]))
            toks = inner if isinstance(inner, tuple) else None
            if toks is None:
                raise Unresolved('nested repetition in line')
            segs.append(('rep', p[1], p[2], toks))
        else:
            raise Unresolved('part of line')
        last = p
    flush()
    if all(x[0] == 'tok' for x in segs):
        return tuple(x[1] for x in segs)
    return TokSeq(segs)

def split_at(s, sep, maximum=None):
    out = [[]]
    for p in parts(s):
        if p[0] == 'lit':
            text = p[1]
            while sep in text and (maximum is None or len(out) <= maximum):
                a, text = text.split(sep, 1)
                out[-1].append(('lit', a))
                out.append([])
            out[-1].append(('lit', text))
        else:
            out[-1].append(p)
    return tuple(simple(StrV(x)) for x in out)

CONVERSION = re.compile(r'%(?:\((\w+)\))?[-+ 0#]*(?:\d+|\0)?'
    r'(?:\.(?:\d+|\0))?[diouxXeEfFgGcrsa%]')

def percent(fmt, args):
    """Old-style string formatting."""
    text = ''
    for p in parts(fmt):
        if p[0] == 'lit':
            text += p[1]
        elif p[0] == 'fld':
            text += '\0'
        else:
            raise Unresolved('format')
    conv = [m for m in CONVERSION.finditer(text) if m.group()[-1] != '%']
    if isinstance(args, TupleOf):
        args = [value_of(index(args.v, [Poly.const(n)]))
            for n in range(len(conv))]
    elif not isinstance(args, tuple):
        args = [args]
    args = list(args)
    if len(args) != len(conv) and '\0' not in CONVERSION.sub('', text):
        raise Mismatch('%d values are given for %d fields of the format'
            % (len(args), len(conv)))
    out = []
    pos = 0
    for m in CONVERSION.finditer(text):
        out.append(('lit', text[pos:m.start()]))
        pos = m.end()
        if m.group()[-1] == '%':
            out.append(('lit', '%'))
            continue
        if m.group(1):
            raise Unresolved('format')
        out.extend(field(m.group(), args.pop(0)))
    out.append(('lit', text[pos:]))
    if any(p[0] == 'lit' and '\0' in p[1] for p in out):
        raise Unresolved('format')
    return simple(StrV(out), True)

def field(fmt, v):
    """Parts of formatted value."""
    v = value_of(v)
    if isinstance(v, str):
        if fmt[-1] == 'r':
            v = repr(v)
        return [('lit', (fmt if '\0' not in fmt else '%s') % v
            if fmt[-1] in 'rs' else v)]
    if isinstance(v, StrV):
        return v.parts if not width(fmt) else [('lit', ' ')] + v.parts
    if isinstance(v, bool) or v is None:
        return [('lit', str(v))]
    clean = re.sub('\0', '', fmt)
    if isinstance(v, Poly) and integer(v) is not None and fmt[-1] in 'dirs':
        return [('lit', (clean[:-1] + 'd') % integer(v))]
    if isinstance(v, Poly) and const(v) is not None:
        try:
            return [('lit', clean % float(const(v)))]
        except (TypeError, ValueError):
            raise Unresolved('format')
    if fmt[-1] == 'r' and isinstance(v, Poly) and plain(v) != v:
        return [('lit', 'np.float64('), ('fld', '%r', plain(v)), ('lit', ')')]
    if isinstance(v, (Poly, Sym, Arr)):
        return [('fld', fmt, v)]
    if isinstance(v, tuple) and fmt in ('%s', '%r') and v:
        out = [('lit', '[')]
        for n, x in enumerate(v):
            out.extend([('lit', ', ')] * (n > 0) + field('%r', x))
        return out + [('lit', ']')]
    raise Unresolved('formatted value')

def plain(v):
    """Python number that corresponds to NumPy scalar."""
    a = single(v) if isinstance(v, Poly) else None
    if a and a[0] == 'el' and isinstance(a[1], str) and a[1].startswith(
            'numpy '):
        return mk_el('input ' + a[1][6:], a[2])
    return v

STRINGS = {'input ' + key for key in ('prefix outdir fildyn fildvscf flfrc '
    'flfrq fldos fleig flvec asr zasr title pseudo_dir calculation '
    'occupations smearing assume_isolated diagonalization startingpot '
    'startingwfc dvscf_dir').split()}
PATHS = {'input ' + key for key in ('outdir fildyn fildvscf flfrc flfrq fldos '
    'fleig flvec pseudo_dir dvscf_dir').split()}

class TupleOf:
    def __init__(self, v):
        self.v = v

class FileW:
    def __init__(self, name):
        self.name = name
        self.items = []
        self.content = None
        self.nodes = None

    def write(self, s):
        for p in parts(s):
            if p[0] == 'lit':
                pieces = p[1].split('\n')
                for n, piece in enumerate(pieces):
                    if n:
                        self.items.append(('nl',))
                    if piece:
                        self.items.append(('lit', piece))
            elif p[0] == 'iloop':
                self.items.append(('loop', p[1], p[2], [q for q in p[3]]))
            else:
                self.items.append(p)

class FileR:
    def __init__(self, source, mapping):
        if source.nodes is None:
            source.nodes = binary(source.items) if getattr(source, 'binary',
                False) else build(source.items)
        self.source = source
        self.mapping = mapping
        self.stack = [[source.nodes, 0, None]]

    def copy_state(self):
        return [list(s) for s in self.stack]

    def peek(self):
        nodes, pos, _ = self.stack[-1]
        return nodes[pos] if pos < len(nodes) else None

    def advance(self):
        self.stack[-1][1] += 1

    def line(self):
        """Next line."""
        node = self.peek()
        if node is None:
            if len(self.stack) > 1:
                raise Mismatch('more lines are read per record than written')
            raise PyExc('StopIteration')
        if isinstance(node, Loop):
            raise Unresolved('single line of repeated record')
        self.advance()
        return self.bind(node)

    def bind(self, node):
        if isinstance(node, Stream):
            return StrV([('iloop', node.lv, self.map(node.ext),
                self.map_parts(node.parts))])
        return StrV(self.map_parts(node.parts))

    def map(self, v):
        return substitute(v, self.mapping)

    def map_parts(self, ps):
        return [('iloop', p[1], self.map(p[2]), self.map_parts(p[3]))
            if p[0] == 'iloop' else (p[0],) + tuple(p[1:2]) + tuple(self.map(x)
                for x in p[2:]) for p in ps]

class Lines:
    """List of all lines of a file."""
    def __init__(self, fr, start=0):
        self.fr, self.start = fr, start
        self.current = None
        self.previous = None

class Items:
    """Iterable with known function for elements."""
    def __init__(self, ext, fn):
        self.ext, self.fn = ext, fn

# --- evaluation --------------------------------------------------------------

class Module:
    def __init__(self, name, tree):
        self.name = name
        self.functions = {}
        self.classes = {}
        self.imports = {}
        self.constants = {}
        for node in tree.body:
            if isinstance(node, ast.FunctionDef):
                self.functions[node.name] = node
            elif isinstance(node, ast.ClassDef):
                self.classes[node.name] = {n.name: n for n in node.body
                    if isinstance(n, ast.FunctionDef)}
            elif isinstance(node, ast.Import):
                for a in node.names:
                    self.imports[a.asname or a.name.split('.')[0]] = (a.name
                        if a.asname else a.name.split('.')[0])
            elif isinstance(node, ast.ImportFrom):
                for a in node.names:
                    self.imports[a.asname or a.name] = '%s%s.%s' % (
                        'elphmod.' if node.level else '', node.module or '',
                        a.name)
            elif isinstance(node, ast.Assign) and len(node.targets) == 1 \
                    and isinstance(node.targets[0], ast.Name):
                self.constants[node.targets[0].id] = node.value

class Program:
    def __init__(self, root):
        self.modules = {}
        folder = os.path.join(root, 'elphmod')
        for f in sorted(os.listdir(folder)):
            if f.endswith('.py'):
                with open(os.path.join(folder, f)) as data, \
                        warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    self.modules[f[:-3]] = Module(f[:-3],
                        ast.parse(data.read()))

    def function(self, path):
        """Find 'module.function' or 'module.Class.method'."""
        ps = path.split('.')
        module = self.modules.get(ps[0])
        if module is None:
            return None
        if len(ps) == 2:
            node = module.functions.get(ps[1])
        else:
            node = module.classes.get(ps[1], {}).get(ps[2])
        return node and Func(node, None, module)

class Frame:
    def __init__(self, vars, parent=None):
        self.vars = vars
        self.parent = parent

    def find(self, name):
        f = self
        while f is not None:
            if name in f.vars:
                return f
            f = f.parent

IDENTITY = {'array', 'asarray', 'ascontiguousarray', 'asfortranarray', 'copy',
    'float', 'int', 'complex', 'float64', 'int32', 'int64', 'complex128',
    'round', 'rint', 'around', 'squeeze', 'list', 'asanyarray', 'real_if_close',
    'double', 'intc', 'floor', 'tuple'}

BUILTINS = {'len', 'range', 'enumerate', 'zip', 'open', 'next', 'map', 'list',
    'tuple', 'float', 'int', 'complex', 'print', 'isinstance', 'hasattr', 'sum',
    'str', 'set', 'sorted', 'dict', 'round', 'abs', 'bool', 'max', 'min',
    'reversed', 'iter', 'slice', 'getattr', 'filter', 'any', 'all', 'repr',
    'bytes', 'frozenset'}

EXCEPTIONS = {'ValueError', 'IndexError', 'KeyError', 'FileNotFoundError',
    'StopIteration', 'AttributeError', 'TypeError', 'Exception', 'IOError',
    'OSError', 'RuntimeError', 'EOFError'}

class Machine:
    def __init__(self, program, oracle, files=(), mode='write'):
        self.program = program
        self.oracle = oracle
        self.files = list(files)
        self.mode = mode
        self.writers = []
        self.readers = []
        self.loops = []
        self.depth = 0
        self.strings = set()
        self.steps = 0
        self.module = None
        self.counter = 0
        self.frames = []

    def fresh(self, ext):
        self.counter += 1
        lv = ('lv', self.mode, self.counter)
        EXTENT[lv] = ext
        return lv

    # --- calls ---

    def call(self, f, args, kwargs):
        if self.depth > 25:
            raise Unresolved('recursion')
        node = f.node
        vars = {}
        args = list(args)
        if f.bound is not None:
            args.insert(0, f.bound)
        a = node.args
        names = [x.arg for x in getattr(a, 'posonlyargs', []) + a.args]
        for n, v in zip(names, args):
            vars[n] = v
        if len(args) > len(names):
            if a.vararg is None:
                raise Unresolved('arguments of %s' % getattr(node, 'name', ''))
            vars[a.vararg.arg] = tuple(args[len(names):])
        elif a.vararg is not None:
            vars[a.vararg.arg] = ()
        extra = {}
        kwonly = [x.arg for x in a.kwonlyargs]
        for k, v in kwargs.items():
            if k in names or k in kwonly:
                vars[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                raise Unresolved('keyword argument %s' % k)
        if a.kwarg is not None:
            d = Target(None, kind='dict')
            for k, v in extra.items():
                d.stores.append(((k,), v))
            vars[a.kwarg.arg] = d
        frame = Frame(vars, f.frame)
        old = self.module
        self.module = f.module
        self.depth += 1
        self.frames.append(frame)
        try:
            for n, d in zip(names[len(names) - len(a.defaults):], a.defaults):
                if n not in vars:
                    vars[n] = self.ev(d, Frame({}, f.frame))
            for n, d in zip(kwonly, a.kw_defaults):
                if n not in vars and d is not None:
                    vars[n] = self.ev(d, Frame({}, f.frame))
            for n in names + kwonly:
                if n not in vars:
                    raise Unresolved('argument %s' % n)
            if isinstance(node, ast.Lambda):
                return self.ev(node.body, frame)
            if any(isinstance(n, (ast.Yield, ast.YieldFrom))
                    for n in ast.walk(node)):
                raise Unresolved('generator function')
            try:
                self.block(prepare(node.body), frame)
            except Return as r:
                return r.value
            return None
        finally:
            self.module = old
            self.depth -= 1
            self.frames.pop()

    # --- statements ---

    def block(self, body, env):
        for s in body:
            self.stmt(s, env)

    def stmt(self, s, env):
        self.steps += 1
        if self.steps > 200000:
            raise Unresolved('size of routine')
        f = getattr(self, 'do_' + type(s).__name__, None)
        if f is None:
            raise Unresolved(type(s).__name__)
        f(s, env)

    def do_Expr(self, s, env):
        if not isinstance(s.value, ast.Constant):
            self.ev(s.value, env)

    def do_Pass(self, s, env):
        pass

    do_Global = do_Nonlocal = do_Assert = do_Pass

    def do_Import(self, s, env):
        for a in s.names:
            env.vars[a.asname or a.name.split('.')[0]] = Mod(a.name if a.asname
                else a.name.split('.')[0])

    def do_ImportFrom(self, s, env):
        for a in s.names:
            env.vars[a.asname or a.name] = Mod('%s.%s' % (s.module, a.name))

    def do_FunctionDef(self, s, env):
        env.vars[s.name] = Func(s, env, self.module)

    def do_Return(self, s, env):
        raise Return(self.ev(s.value, env) if s.value is not None else None)

    def do_Break(self, s, env):
        raise Break

    def do_Continue(self, s, env):
        raise Continue

    def do_Raise(self, s, env):
        raise PyExc('raised')

    def do_Delete(self, s, env):
        pass

    def do_With(self, s, env):
        for i in s.items:
            v = self.ev(i.context_expr, env)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v, env)
        self.block(s.body, env)

    def do_Try(self, s, env):
        try:
            self.block(s.body, env)
        except PyExc as e:
            for h in s.handlers:
                names = [n.id for n in ast.walk(h.type)
                    if isinstance(n, ast.Name)] if h.type is not None else None
                if names is None or str(e) in names or 'Exception' in names:
                    self.block(h.body, env)
                    break
            else:
                raise
        else:
            self.block(s.orelse, env)
        self.block(s.finalbody, env)

    def do_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def do_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env)

    def do_AugAssign(self, s, env):
        load = ast.copy_location(ast.fix_missing_locations(
            as_load(s.target)), s)
        old = self.ev(load, env)
        v = self.ev(s.value, env)
        if isinstance(s.op, ast.Add) and isinstance(old, Target) \
                and old.kind == 'list':
            self.extend(old, v)
            return
        new = self.binop(s.op, old, v)
        if isinstance(s.target, ast.Name) and isinstance(old, Ref) \
                and isinstance(old.root, Target):
            self.store(old, [], new)
            return
        self.assign(s.target, new, env)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env.vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.unpack(v, len(t.elts), any(isinstance(e, ast.Starred)
                for e in t.elts))
            if vs is None:
                raise Unresolved('starred assignment')
            for e, x in zip(t.elts, vs):
                self.assign(e, x, env)
        elif isinstance(t, ast.Subscript):
            target = self.ev(t.value, env)
            self.store(target, self.indices(t.slice, env), v)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            if isinstance(o, Obj):
                o.attrs[t.attr] = v
        else:
            raise Unresolved('assignment')

    def unpack(self, v, n, starred=False):
        if starred:
            return None
        if isinstance(v, tuple):
            if len(v) != n:
                raise PyExc('ValueError')
            return list(v)
        if isinstance(v, TokSeq):
            return [v.item(i) for i in range(n)]
        if isinstance(v, TupleOf):
            v = v.v
        if isinstance(v, Target) and v.kind == 'list' \
                and integer(v.count) == n:
            return [index(v, [Poly.const(i)]) for i in range(n)]
        if isinstance(v, Arr):
            if v.dims is not None and v.dims and integer(v.dims[0]) not in (
                    None, n):
                raise PyExc('ValueError')
            return [value_of(index(v, [Poly.const(i)])) for i in range(n)]
        if isinstance(v, (Sym, Poly)):
            return [value_of(index(v, [Poly.const(i)])) for i in range(n)]
        raise Unresolved('unpacking')

    def store(self, target, items, v):
        """Assign element or slice."""
        if isinstance(v, TokSeq):
            v = v.array()
        if isinstance(target, Ref):
            root, items = target.compose(items)
            return self.store(root, items, v)
        if isinstance(target, Target):
            if target.kind == 'list' and isinstance(items[0], Poly):
                c = integer(items[0])
                if c is not None and c < 0:
                    items = [target.count + items[0]] + list(items[1:])
            out = []
            for n, i in enumerate(items):
                if isinstance(i, Arr):
                    if len(items) == 1:
                        self.store_mask(target, i, v)
                        return
                    raise Unresolved('index array')
                if i is None or isinstance(i, Cond):
                    raise Unresolved('index')
                out.append(i)
            if any(i is Ellipsis for i in out):
                if target.dims is None:
                    raise Unresolved('ellipsis')
                n = out.index(Ellipsis)
                out[n:n + 1] = [Slice(None, None)] * (len(target.dims)
                    - len(out) + 1)
            if any(isinstance(i, Slice) and i.step is not None
                    and const(i.step) != 1 for i in out):
                slices = [i for i in out if isinstance(i, Slice)]
                if not isinstance(v, Arr) or v.dims is None \
                        or len(v.dims) != len(slices) or any(i.step is not None
                        and (const(i.step) != -1 or i.lo is not None
                        or i.hi is not None) for i in slices):
                    raise Unresolved('step')
                v = index(v, slices)
                out = [Slice(None, None) if isinstance(i, Slice)
                    and i.step is not None else i for i in out]
            if target.kind == 'array':
                out = [wrap_index(i, target.dims[n]
                    if target.dims is not None and n < len(target.dims)
                    else None) for n, i in enumerate(out)]
            target.stores.append((tuple(out), v))
        elif isinstance(target, (Sym, Arr)):
            # array which is shared by writer and reader
            raise Unresolved('assignment to argument')
        else:
            raise Unresolved('assignment to element')

    def store_mask(self, target, i, v):
        raise Unresolved('index array')

    def indices(self, node, env):
        if isinstance(node, ast.Tuple):
            return [self.one_index(e, env) for e in node.elts]
        v = self.one_index(node, env)
        if isinstance(v, tuple):
            return list(v)
        return [v]

    def one_index(self, node, env):
        if isinstance(node, ast.Slice):
            return Slice(*[self.number(self.ev(x, env)) if x is not None
                else None for x in (node.lower, node.upper, node.step)])
        v = self.ev(node, env)
        return self.as_index(v)

    def number(self, v, optional=False):
        if v is None:
            return None
        if isinstance(v, Pos):
            return v
        return to_poly(v)

    # --- branches ---

    def truth(self, v):
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, str):
            return bool(v)
        if isinstance(v, tuple):
            return bool(v)
        if isinstance(v, TokSeq):
            return True
        if isinstance(v, StrV):
            return True
        if isinstance(v, Poly):
            c = const(v)
            if c is not None:
                return bool(c)
            a = single(v)
            if a and a[0] == 'dim' or self.mode == 'read' and self.data(v):
                return True
            return self.decide(('truth', v))
        if isinstance(v, Cond):
            return self.decide(v.k) == v.positive
        if isinstance(v, (Sym, Mod)):
            return self.decide(('truth', to_poly(v)))
        if isinstance(v, Target):
            return bool(v.stores)
        return True

    def decide(self, k):
        if self.special_condition(k) is not None:
            return self.special_condition(k)
        return self.oracle.decide(k)

    def special_condition(self, k):
        if k[0] == 'truth' and isinstance(k[1], Poly):
            a = single(k[1])
            if a and a[0] == 'el' and a[1] in NONZERO:
                return True
        # setting is available:
        if k[0] == 'in' and isinstance(k[1], str) and isinstance(k[2], tuple) \
                and k[2][0] == 'sym' and not isinstance(k[2][1], tuple):
            return True
        return None

    def do_If(self, s, env):
        v = self.ev(s.test, env)
        if self.depends(v):
            if not s.orelse and self.newline_only(s.body, env):
                self.emit(('wrap', self.at_end(s.test, env)))
                return
        if self.truth(v):
            self.block(prepare(s.body), env)
        else:
            self.block(prepare(s.orelse), env)

    def depends(self, v):
        """Does condition depend on running index?"""
        if not isinstance(v, Cond):
            return False
        return any(a[0] == 'lv' for a in nested(v.k))

    def newline_only(self, body, env):
        for s in body:
            if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Call)):
                return False
            f = s.value.func
            if isinstance(f, ast.Name) and f.id == 'print':
                if s.value.args:
                    return False
            elif not (isinstance(f, ast.Attribute) and f.attr == 'write'
                    and len(s.value.args) == 1
                    and self.ev(s.value.args[0], env) == '\n'):
                return False
        return len(body) == 1

    def at_end(self, test, env):
        """Does condition hold for the last element?"""
        lv, ext = self.loops[-1]
        for n in ast.walk(test):
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(
                    n.ops[0], (ast.Eq, ast.GtE, ast.LtE)):
                try:
                    a = to_poly(self.ev(n.left, env))
                    b = to_poly(self.ev(n.comparators[0], env))
                except Unresolved:
                    continue
                if not any(x == lv for x in all_atoms(a - b)):
                    continue
                d = substitute(a - b, {lv: ext - ONE})
                if not d.terms:
                    return True
            elif isinstance(n, ast.Compare):
                raise Unresolved('condition of line break')
        # 'not n % columns' is true for the last element only by chance
        return False

    # --- loops ---

    def emit(self, item):
        if not self.writers:
            raise Unresolved('no file')
        self.writers[-1].items.append(item)

    def do_While(self, s, env):
        if s.orelse:
            raise Unresolved('else of loop')
        fr = self.reads(s.body, env)
        if fr is None:
            fr = self.reads([ast.Expr(s.test)], env)
        if fr is None:
            if self.mode == 'write':
                raise Unresolved('while loop')
            # loops that prepare storage
            for n in ast.walk(s):
                if isinstance(n, (ast.Return, ast.Break)):
                    raise Unresolved('while loop')
            return
        for _ in range(60):
            test = self.ev(s.test, env)
            if isinstance(test, Cond):
                node = fr.peek()
                if isinstance(node, Stream):
                    self.check_count(s.test, node, env, fr)
                    try:
                        self.block(prepare(s.body), env)
                    except Continue:
                        pass
                    except Break:
                        pass
                    return
                if node is None and len(fr.stack) == 1:
                    return
                if not isinstance(node, (Loop, Line)):
                    raise Unresolved('while loop')
            elif not self.truth(test):
                return
            elif isinstance(fr.peek(), Stream):
                self.check_count(s.test, fr.peek(), env, fr)
            node = self.skip_blank(fr, s.body, env)
            try:
                if isinstance(node, Loop):
                    self.enter(fr, node, None, None, s.body, env, None)
                else:
                    self.block(prepare(s.body), env)
            except Break:
                return
            except Continue:
                continue
        raise Unresolved('while loop')

    def check_count(self, test, node, env, fr):
        """Compare number of values written and read."""
        if isinstance(test, ast.Compare) and len(test.ops) == 1:
            sides = []
            for x in (test.left, test.comparators[0]):
                try:
                    sides.append(self.ev(x, env))
                except Unresolved:
                    return
            for x in sides:
                try:
                    x = to_poly(x)
                except Unresolved:
                    continue
                if isinstance(test.ops[0], (ast.LtE, ast.GtE)):
                    x = x + ONE
                self.compare_extents(x, fr.map(node.ext))

    def compare_extents(self, n, ext):
        """Mismatch if numbers of records are definitely different."""
        if n is None or ext is None:
            return
        d = n - ext
        if not d.terms:
            return
        dims = [a for p in (n, ext) for a in atoms(p)]
        if const(n) is not None and const(ext) is None or const(n) is None \
                and const(ext) is not None:
            return
        if not all(a[0] == 'dim' for a in dims):
            return
        raise Mismatch('%s records are read but %s are written'
            % (show(n), show(ext)))

    def do_For(self, s, env):
        if s.orelse:
            raise Unresolved('else of loop')
        it = self.ev(s.iter, env)
        if isinstance(it, Flat) and self.known(it) is None:
            it = Product([self.bi_range(d) for d in it.v.dims], it.v, False)
        if isinstance(it, Product):
            return self.nested(it, s, env)
        self.loop(it, lambda v: self.assign(s.target, v, env), s.body, env)

    def nested(self, it, s, env):
        """Replace loop over product by nested loops."""
        stack = list(s.body)
        while stack:
            n = stack.pop()
            if isinstance(n, ast.Break):
                raise Unresolved('break in loop')
            if not isinstance(n, (ast.For, ast.While, ast.FunctionDef)):
                stack.extend(ast.iter_child_nodes(n))
        self.counter += 1
        names = ['$%d_%d' % (self.counter, n) for n in range(len(it.factors))]
        for name, f in zip(names, it.factors):
            env.vars[name + 's'] = f
        load, save = ast.Load(), ast.Store()
        tup = lambda: ast.Tuple([ast.Name(x, load) for x in names], load)
        value = tup()
        if it.array is not None:
            env.vars['$%d' % self.counter] = it.array
            value = ast.Subscript(ast.Name('$%d' % self.counter, load), tup(),
                load)
            if it.number:
                value = ast.Tuple([tup(), value], load)
        body = [ast.Assign([s.target], value)] + s.body
        for name in reversed(names):
            body = [ast.For(ast.Name(name, save), ast.Name(name + 's', load),
                body, [])]
        self.block([ast.fix_missing_locations(ast.copy_location(x, s))
            for x in body], env)

    def loop(self, it, bind, body, env):
        if isinstance(it, FileR):
            return self.each_line(it, bind, body, env)
        if isinstance(it, Lines):
            return self.each_line(it, bind, body, env)
        if isinstance(it, LineNumbers):
            return self.each_line(it, bind, body, env)
        seq = self.known(it)
        fr = self.reads(body, env)
        if seq is not None:
            if fr is not None and len(seq) > 1:
                node = self.skip_blank(fr, body, env)
                if isinstance(node, Loop) and (node.ext is None or
                        fr.map(node.ext) == Poly.const(len(seq))):
                    items = self.items(it)
                    return self.paired(fr, items, bind, body, env)
            for v in seq:
                bind(v)
                try:
                    self.block(prepare(body), env)
                except Break:
                    return
                except Continue:
                    continue
            return
        items = self.items(it)
        if fr is not None:
            return self.paired(fr, items, bind, body, env)
        if items.ext is not None and not items.ext.terms:
            return
        lv = items.lv if isinstance(items, MultiIndex) else self.fresh(
            items.ext)
        self.symbolic(lv, items.ext, items.fn, bind, body, env)

    def symbolic(self, lv, ext, fn, bind, body, env, pre=None, post=None):
        """Evaluate loop body for unknown iteration."""
        def run():
            if pre is not None:
                pre()
            if bind is not None:
                bind(fn(Poly({((lv, 1),): Fraction(1)})))
            marks = [len(w.items) for w in self.writers]
            self.loops.append((lv, ext))
            try:
                self.block(prepare(body), env)
            except Continue:
                pass
            except Break:
                raise Unresolved('break in loop')
            finally:
                self.loops.pop()
            for w, m in zip(self.writers, marks):
                new = w.items[m:]
                if new:
                    w.items[m:] = [('loop', lv, ext, new)]
            if post is not None:
                post()

        self.inductive(lv, ext, body, env, run)

    def inductive(self, lv, ext, body, env, run, number=None):
        """Treat counters in loop."""
        names = {n.target.id for b in body for n in ast.walk(b)
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name)}
        names |= {t.id for b in body for n in ast.walk(b)
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.BinOp)
            for t in n.targets if isinstance(t, ast.Name)
            and any(isinstance(x, ast.Name) and x.id == t.id
                for x in ast.walk(n.value))}
        counters = {}
        for name in names:
            f = env.find(name)
            if f is not None and isinstance(f.vars[name], Poly):
                counters[name] = f
        if counters:
            init = {name: f.vars[name] for name, f in counters.items()}
            marks = {name: ('lv', 'count', self.mode, self.counter, name)
                for name in counters}
            saved = self.snapshot()
            for name, f in counters.items():
                f.vars[name] = Poly.atom(*marks[name])
            run()
            step = {}
            for name, f in counters.items():
                v = f.vars[name]
                d = v - Poly.atom(*marks[name]) if isinstance(v, Poly) else None
                if d is not None and not any(a == marks[name]
                        or a == lv for a in all_atoms(d)):
                    step[name] = d
                else:
                    step[name] = None
            self.restore(saved)
            for name, f in counters.items():
                if step[name] is None:
                    f.vars[name] = Sym(('running', name))
                else:
                    f.vars[name] = init[name] + step[name] * (number
                        if number is not None else Poly.atom(*lv))
            run()
            for name, f in counters.items():
                if step[name] is None:
                    f.vars[name] = Sym(('final', name))
                elif ext is not None:
                    f.vars[name] = init[name] + step[name] * ext
        else:
            run()

    def snapshot(self):
        targets = []
        seen = set()

        def visit(v):
            if id(v) in seen:
                return
            seen.add(id(v))
            if isinstance(v, Target):
                targets.append((v, list(v.stores), v.count))
                for _, x in v.stores:
                    visit(x)
            elif isinstance(v, Ref):
                visit(v.root)
            elif isinstance(v, tuple):
                for x in v:
                    visit(x)
            elif isinstance(v, Func) and v.frame is not None:
                frame(v.frame)
            elif isinstance(v, Obj):
                for x in v.attrs.values():
                    visit(x)

        frames = []

        def frame(f):
            while f is not None:
                if id(f) in seen:
                    return
                seen.add(id(f))
                frames.append((f, dict(f.vars)))
                for x in list(f.vars.values()):
                    visit(x)
                f = f.parent

        for f in self.frames:
            frame(f)
        return (targets, frames, [(w, list(w.items)) for w in self.writers],
            [(r, r.copy_state()) for r in self.readers], list(self.writers))

    def restore(self, saved):
        targets, frames, writers, readers, opened = saved
        for v, stores, count in targets:
            v.stores[:] = stores
            v.count = count
        for f, vars in frames:
            f.vars.clear()
            f.vars.update(vars)
        for w, items in writers:
            w.items[:] = items
        for r, stack in readers:
            r.stack[:] = [list(x) for x in stack]
        self.writers[:] = opened

    # --- reading ---

    def reads(self, body, env, seen=None):
        """File which is read by statements."""
        seen = set() if seen is None else seen
        bound = set()
        for b in body:
            for n in ast.walk(b):
                if isinstance(n, ast.With):
                    for i in n.items:
                        if isinstance(i.optional_vars, ast.Name):
                            bound.add(i.optional_vars.id)
        for b in body:
            for n in ast.walk(b):
                if isinstance(n, ast.Name) and n.id not in bound:
                    f = env.find(n.id)
                    v = f.vars[n.id] if f is not None else None
                    if isinstance(v, FileR):
                        return v
                    if isinstance(v, Func) and v.frame is not None \
                            and id(v.node) not in seen:
                        seen.add(id(v.node))
                        inner = v.node.body
                        fr = self.reads(inner if isinstance(inner, list)
                            else [ast.Expr(inner)], Frame({}, v.frame), seen)
                        if fr is not None:
                            return fr
        return None

    def read_style(self, body, env, depth=0):
        """Are blank or all lines skipped before the first record is read?"""
        if depth > 5:
            return None
        for n in in_order(body):
            if not isinstance(n, ast.Call):
                continue
            if isinstance(n.func, ast.Name):
                if n.func.id == 'next':
                    return 'strict'
                f = env.find(n.func.id)
                v = f.vars[n.func.id] if f is not None else None
                if isinstance(v, Func) and v.frame is not None and isinstance(
                        v.node, ast.FunctionDef):
                    inner = Frame({}, v.frame)
                    if self.reads(v.node.body, inner) is None:
                        continue
                    for m in ast.walk(v.node):
                        if isinstance(m, ast.For) and any(isinstance(r,
                                ast.Return) for r in ast.walk(m)):
                            if any(isinstance(c, ast.Compare) and isinstance(
                                    c.ops[0], ast.In) for c in ast.walk(m)):
                                return 'scan'
                            return 'blank'
                        if isinstance(m, ast.While):
                            return 'blank'
                    return self.read_style(v.node.body, inner, depth + 1)
            elif isinstance(n.func, ast.Attribute) \
                    and n.func.attr == 'readline':
                return 'strict'
        return None

    def skip_blank(self, fr, body, env):
        """Skip lines that reader skips before next record."""
        style = self.read_style(body, env)
        if style in ('blank', 'scan'):
            nodes, pos, _ = fr.stack[-1]
            n = pos
            while n < len(nodes) and isinstance(nodes[n], Line) and (
                    nodes[n].blank() if style == 'blank'
                    else nodes[n].literal()):
                n += 1
            if n < len(nodes) and isinstance(nodes[n], Loop):
                fr.stack[-1][1] = n
        return fr.peek()

    def paired(self, fr, items, bind, body, env):
        """Pair loop of reader with loop of writer."""
        n = items.ext
        if n is not None and not n.terms:
            return
        node = self.skip_blank(fr, body, env)
        if not isinstance(node, Loop):
            self.unread(fr, n, body, env)
            raise Unresolved('loop over records')
        chain = [node]
        total = fr.map(node.ext)
        first = total
        while n is not None and total is not None and n != total and len(
                chain[-1].nodes) == 1 and isinstance(chain[-1].nodes[0], Loop):
            chain.append(chain[-1].nodes[0])
            total = total * fr.map(chain[-1].ext)
        if n != total:
            chain = chain[:1]
            if n is not None and first is not None and (contained(n, first)
                    or contained(first, n)):
                raise Unresolved('loops over records')
            self.compare_extents(n, first)
        number = ZERO
        for c in chain:
            number = number * (fr.map(c.ext) if fr.map(c.ext) is not None
                else ZERO) + Poly.atom(*c.lv)
        self.enter(fr, node, items.fn, bind, body, env, number, chain)

    def unread(self, fr, n, body, env):
        """Mismatch if lines before records are read as records."""
        nodes, pos, _ = fr.stack[-1]
        start = pos
        while pos < len(nodes) and isinstance(nodes[pos], Line):
            pos += 1
        if start < pos < len(nodes) and n is not None and fr.map(
                nodes[pos].ext) == n and all(a[0] in ('dim', 'el')
                for a in atoms(n)) and self.read_style(body, env) == 'strict':
            raise Mismatch('a line before the records is read as record')

    def enter(self, fr, node, fn, bind, body, env, number, chain=None):
        """Evaluate loop body on representative record."""
        chain = chain or [node]
        style = self.read_style(body, env)

        def run():
            for c in chain:
                fr.stack.append([c.nodes, 0, c])
                self.loops.append((c.lv, fr.map(c.ext)))
                EXTENT[c.lv] = fr.map(c.ext)
            if bind is not None:
                bind(fn(number))
            try:
                self.block(prepare(body), env)
            except Continue:
                pass
            node = fr.peek()
            while isinstance(node, Line) and (style == 'blank' and node.blank()
                    or style == 'scan'):
                fr.advance()
                node = fr.peek()
            if node is not None:
                if isinstance(node, Line) and not node.blank():
                    raise Mismatch('a line of each record is not read')
                raise Unresolved('end of record')
            for c in chain:
                fr.stack.pop()
                self.loops.pop()

        self.inductive(chain[-1].lv, EXTENT.get(chain[-1].lv)
            if len(chain) == 1 else None, body, env, run, number)
        fr.advance()

    def each_line(self, it, bind, body, env):
        """Loop over all lines of a file."""
        lines = it.lines if isinstance(it, LineNumbers) else it
        if isinstance(lines, Lines):
            fr = FileR(lines.fr.source, lines.fr.mapping)
            start = it.start
            for _ in range(start):
                if not isinstance(fr.peek(), Line):
                    raise Unresolved('header of file')
                fr.advance()
            lines.previous = None
        else:
            fr = lines
        self.lines_of(fr, it, lines, bind, body, env)

    def lines_of(self, fr, it, lines, bind, body, env):
        depth = len(fr.stack)
        while True:
            node = fr.peek()
            if node is None:
                return
            if isinstance(node, Loop):
                def run():
                    fr.stack.append([node.nodes, 0, node])
                    self.loops.append((node.lv, fr.map(node.ext)))
                    EXTENT[node.lv] = fr.map(node.ext)
                    try:
                        self.lines_of(fr, it, lines, bind, body, env)
                    except Return:
                        raise Unresolved('end of reading within records')
                    self.loops.pop()
                    fr.stack.pop()
                try:
                    self.inductive(node.lv, fr.map(node.ext), body, env, run)
                except Break:
                    if isinstance(lines, Lines):
                        return
                    raise Unresolved('end of reading within records')
                fr.advance()
                if isinstance(lines, Lines):
                    lines.previous = None
                continue
            line = fr.line()
            if isinstance(lines, Lines):
                lines.current = line
            bind(LineNumber(lines, 0) if isinstance(it, LineNumbers) else line)
            try:
                self.block(prepare(body), env)
            except Continue:
                pass
            except Break:
                if depth > 1:
                    raise
                return
            if isinstance(lines, Lines):
                lines.previous = line
            if len(fr.stack) != depth:
                raise Unresolved('position in file')

    # --- sequences ---

    def known(self, it):
        """Elements of sequence of known length."""
        if isinstance(it, tuple):
            return list(it)
        if isinstance(it, str):
            return list(it)
        if isinstance(it, TupleOf):
            it = it.v
        if isinstance(it, Items):
            n = integer(it.ext) if it.ext is not None else None
            if n is not None and n <= 40:
                return [it.fn(Poly.const(i)) for i in range(max(0, n))]
            return None
        if isinstance(it, Target) and it.kind == 'list' and it.dims is None:
            if all(integer(p[0]) is not None for p, _ in it.stores
                    if isinstance(p[0], Poly)) and all(len(p) == 1 and
                    isinstance(p[0], Poly) for p, _ in it.stores):
                return [v for _, v in it.stores]
            return None
        if isinstance(it, Target) and it.kind == 'dict':
            keys = []
            for p, _ in it.stores:
                if not isinstance(p[0], str):
                    return None
                if p[0] not in keys:
                    keys.append(p[0])
            return keys
        if isinstance(it, Flat):
            try:
                n = integer(product(it.v.dims))
            except Unresolved:
                return None
            if n is None or n > 40:
                return None
            out = [it.v]
            for _ in it.v.dims:
                out = [value_of(index(v, [Poly.const(i)])) for v in out
                    for i in range(integer(v.dims[0]))]
            return out
        if isinstance(it, Arr) and it.dims:
            n = integer(it.dims[0]) if it.dims[0] is not None else None
            if n is not None and n <= 40:
                return [value_of(index(it, [Poly.const(i)])) for i in range(n)]
        return None

    def items(self, it):
        if isinstance(it, Items):
            return it
        if isinstance(it, TupleOf):
            it = it.v
        if isinstance(it, TokSeq):
            it = it.array()
        if isinstance(it, tuple):
            return Items(Poly.const(len(it)), lambda i: index(it, [i]))
        if isinstance(it, Flat):
            k = it.v.key()
            FLAT[k] = it.v
            return Items(product(it.v.dims), lambda i: mk_flat(k, i))
        if isinstance(it, NdIter):
            return MultiIndex(self, it)
        if isinstance(it, Arr):
            if isinstance(it, Target) and it.kind == 'list' \
                    and it.dims is None:
                ext = getattr(it, 'after', it.count)
            elif it.dims is None:
                ext = Poly.atom('len', it.key())
            else:
                ext = it.dims[0]
            return Items(ext, lambda i: value_of(index(it, [i])))
        if isinstance(it, (Sym, Poly)):
            return Items(Poly.atom('len', freeze(it)), lambda i: index(it, [i]))
        raise Unresolved('iteration')

    def length(self, v):
        if isinstance(v, (str, tuple)):
            return Poly.const(len(v))
        if isinstance(v, TokSeq):
            return Poly.atom('len', id(v))
        if isinstance(v, LineNumbers) or isinstance(v, Lines):
            return Poly.atom('lines')
        if isinstance(v, (Sym, Poly)):
            return Poly.atom('len', freeze(v))
        if isinstance(v, Items):
            if v.ext is None:
                raise Unresolved('length')
            return v.ext
        if isinstance(v, Target) and v.kind != 'array':
            if v.dims is not None:
                return to_poly(v.dims[0])
            if v.kind == 'dict':
                return Poly.const(len(set(p[0] for p, _ in v.stores
                    if isinstance(p[0], str))))
            if len(self.loops) == v.level:
                return getattr(v, 'after', v.count)
            return Poly.atom('len', v.key())
        if isinstance(v, Arr):
            if v.dims is None or v.dims[0] is None:
                return Poly.atom('len', v.key())
            return to_poly(v.dims[0])
        if isinstance(v, TupleOf):
            return self.length(v.v)
        if isinstance(v, StrV):
            return Poly.atom('len', v.key())
        raise Unresolved('length')

    def append(self, t, v):
        if not isinstance(t, Target) or t.kind != 'list':
            raise Unresolved('append')
        base = t.count
        inner = self.loops[t.level:]
        if inner:
            i = ZERO
            total = ONE
            for lv, ext in inner:
                if ext is None:
                    if len(inner) > 1:
                        raise Unresolved('append in nested loops')
                    ext = Poly.atom('number', lv)
                i = i * ext + Poly.atom(*lv)
                total = total * ext
            t.last = base + i
            t.after = base + total
        else:
            base = getattr(t, 'after', base)
            t.last = base
            t.count = t.after = base + ONE
        t.stores.append(((t.last,), v))

    def extend(self, t, v):
        seq = self.known(v)
        if seq is not None:
            for x in seq:
                self.append(t, x)
            return
        items = self.items(v)
        if len(self.loops) != t.level or items.ext is None:
            raise Unresolved('extend')
        base = getattr(t, 'after', t.count)
        t.stores.append(((Slice(base, base + items.ext),), Arr([items.ext],
            lambda idx: value_of(items.fn(idx[0])) if len(idx) == 1
            else index(items.fn(idx[0]), list(idx[1:])))))
        t.count = t.after = base + items.ext
        t.last = None

    # --- expressions ---

    def ev(self, n, env):
        self.steps += 1
        if self.steps > 400000:
            raise Unresolved('size of routine')
        f = getattr(self, 'ev_' + type(n).__name__, None)
        if f is None:
            raise Unresolved(type(n).__name__)
        return f(n, env)

    def ev_Constant(self, n, env):
        v = n.value
        if isinstance(v, (str, bool, bytes)) or v is None or v is Ellipsis:
            return v
        return to_poly(v)

    def ev_Name(self, n, env):
        f = env.find(n.id)
        if f is not None:
            return f.vars[n.id]
        m = self.module
        if n.id in m.functions:
            return Func(m.functions[n.id], None, m)
        if n.id in m.imports:
            return self.resolve(m.imports[n.id])
        if n.id in m.constants:
            try:
                return self.ev(m.constants[n.id], Frame({}))
            except Unresolved:
                return Mod('elphmod.%s.%s' % (m.name, n.id))
        if n.id in BUILTINS or n.id in EXCEPTIONS:
            return Builtin(n.id)
        if n.id in m.classes:
            return Mod('elphmod.%s.%s' % (m.name, n.id))
        raise PyExc('NameError')

    def resolve(self, path):
        ps = path.split('.')
        if ps[0] == 'elphmod' and len(ps) == 3:
            f = self.program.function('.'.join(ps[1:]))
            if f is not None:
                return f
            if ps[2] == 'comm':
                return Mod('comm')
        return Mod(path)

    def ev_Attribute(self, n, env):
        v = self.ev(n.value, env)
        return self.attribute(v, n.attr)

    def attribute(self, v, name):
        if isinstance(v, Mod):
            if v.path == 'comm' or v.path.endswith('.comm'):
                if name == 'rank':
                    return ZERO
                return Bound(Mod('comm'), name)
            return self.resolve('%s.%s' % (v.path, name))
        if isinstance(v, Obj):
            if name in v.attrs:
                return v.attrs[name]
            return Sym(('attr', v.name, name))
        if isinstance(v, (StrV, str, FileR, FileW, tuple, TokSeq, Func, Lines)):
            return Bound(v, name)
        if isinstance(v, NdIter):
            if name == 'multi_index':
                return v.index
            raise Unresolved('iterator')
        if isinstance(v, Flat):
            if name == 'size':
                return product(v.v.dims)
            if name == 'shape':
                return (product(v.v.dims),)
            if name in ('reshape', 'copy', 'astype', 'tolist', 'ravel'):
                return Bound(v, name)
            raise Unresolved('flat array')
        if isinstance(v, TupleOf):
            v = v.v
        if isinstance(v, Poly):
            if name in ('real', 'imag'):
                return part('re' if name == 'real' else 'im', v)
            if name == 'T':
                return v
            return Bound(v, name)
        if isinstance(v, Arr):
            if name in ('shape', 'size', 'ndim', 'T', 'flat'):
                if v.dims is None:
                    raise Unresolved(name + ' of array')
                if name == 'shape':
                    return tuple(v.dims)
                if name == 'size':
                    return product(v.dims)
                if name == 'ndim':
                    return Poly.const(len(v.dims))
                if name == 'flat':
                    return Flat(v)
                return transposed(v)
            if name in ('real', 'imag'):
                w = 're' if name == 'real' else 'im'
                return Arr(v.dims, lambda idx: part(w, value_of(index(v,
                    list(idx)))), (w, v.key()))
            return Bound(v, name)
        if isinstance(v, Sym):
            if name in METHODS:
                return Bound(v, name)
            return Sym(('attr', v.k, name))
        return Bound(v, name)

    def ev_Subscript(self, n, env):
        v = self.ev(n.value, env)
        items = self.indices(n.slice, env)
        if isinstance(n.slice, ast.Tuple) and not n.slice.elts:
            return v
        if isinstance(v, TokSeq):
            i = items[0]
            if isinstance(i, Slice):
                return v.slice(self.small(i.lo), self.small(i.hi))
            c = integer(i)
            if c is None:
                raise Unresolved('word of line')
            return v.item(c)
        if isinstance(v, (Poly, Sym)) and len(items) == 1 and isinstance(
                items[0], Slice) and not isinstance(v, Arr):
            i = items[0]
            if i.lo is None and i.hi is None and i.step is None:
                return v
            lo = self.small(i.lo) or 0
            hi = self.small(i.hi)
            if hi is not None and i.step is None and hi > lo >= 0 \
                    and isinstance(v, Sym):
                return tuple(index(v, [Poly.const(c)]) for c in range(lo, hi))
            return Sym(('part', freeze(v), i.key()))
        if isinstance(v, Lines):
            if isinstance(items[0], LineNumber):
                if items[0].offset == 0:
                    return v.current
                if items[0].offset == -1 and v.previous is not None:
                    return v.previous
                return Sym(('line', items[0].offset))
            if isinstance(items[0], Slice) and items[0].hi is None:
                return Lines(v.fr, v.start + (self.small(items[0].lo) or 0))
            raise Unresolved('lines of file')
        if isinstance(v, Target) and v.kind == 'dict':
            items = [x for x in items]
        if isinstance(v, Dict):
            return v.get(items[0], self)
        if isinstance(v, (FileR, FileW, Func, Builtin, Mod, Obj)):
            raise Unresolved('subscript')
        if isinstance(v, TupleOf):
            v = v.v
        return index(v, items)

    def small(self, v):
        if v is None:
            return None
        c = integer(v) if isinstance(v, Poly) else None
        if c is None:
            raise Unresolved('bounds of slice')
        return c

    def as_index(self, v):
        if v is None or v is Ellipsis or isinstance(v, (str, Slice, Arr, Cond,
                bool, Pos, LineNumber, StrV)):
            return v
        if isinstance(v, tuple):
            return tuple(self.as_index(x) for x in v)
        if isinstance(v, Mod) and v.path.endswith('newaxis'):
            return None
        return to_poly(v)

    def ev_Tuple(self, n, env):
        out = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                seq = self.known(self.ev(e.value, env))
                if seq is None:
                    raise Unresolved('starred expression')
                out.extend(seq)
            else:
                out.append(self.ev(e, env))
        return tuple(out)

    def ev_List(self, n, env):
        if not n.elts:
            t = Target(None, kind='list')
            t.level = len(self.loops)
            return t
        return self.ev_Tuple(n, env)

    ev_Set = ev_Tuple

    def ev_Dict(self, n, env):
        if n.keys:
            return Dict([(self.ev(k, env), self.ev(v, env))
                for k, v in zip(n.keys, n.values)])
        return Target(None, kind='dict')

    def ev_IfExp(self, n, env):
        return self.ev(n.body if self.truth(self.ev(n.test, env))
            else n.orelse, env)

    def ev_Lambda(self, n, env):
        return Func(n, env, self.module)

    def ev_Starred(self, n, env):
        raise Unresolved('starred expression')

    def ev_BoolOp(self, n, env):
        v = None
        for x in n.values:
            v = self.ev(x, env)
            if x is n.values[-1]:
                return v
            if self.depends(v):
                return Cond(('bool',) + tuple(nested(v.k)))
            if self.truth(v) != isinstance(n.op, ast.And):
                return v
        return v

    def ev_UnaryOp(self, n, env):
        v = self.ev(n.operand, env)
        if isinstance(n.op, ast.Not):
            if isinstance(v, Cond):
                return Cond(v.k, not v.positive)
            if isinstance(v, Poly) and const(v) is None and any(a[0] == 'lv'
                    for a in all_atoms(v)):
                return Cond(('truth', v), False)
            return not self.truth(v)
        if isinstance(n.op, ast.USub):
            return self.binop(ast.Mult(), to_poly(-1), v)
        if isinstance(n.op, ast.UAdd):
            return v
        return Sym(('inverted', freeze(v)))

    def ev_BinOp(self, n, env):
        a = self.ev(n.left, env)
        b = self.ev(n.right, env)
        if isinstance(n.op, ast.Mult) and isinstance(n.left, ast.List):
            return self.repeat(a, b)
        if isinstance(n.op, ast.Mult) and isinstance(n.right, ast.List):
            return self.repeat(b, a)
        return self.binop(n.op, a, b)

    def repeat(self, a, n):
        n = to_poly(n)
        if integer(n) is not None:
            return tuple(a) * integer(n)
        if isinstance(a, tuple) and len(a) == 1:
            return Target([n], a[0], 'list')
        raise Unresolved('repeated list')

    def binop(self, op, a, b):
        if isinstance(op, ast.Mod) and isinstance(a, (str, StrV)):
            return percent(a, b)
        if isinstance(op, ast.Mod) and isinstance(a, Sym) and (isinstance(b,
                tuple) or a.k in self.strings):
            return Sym(('format', a.k, freeze(b)))
        if isinstance(a, (str, StrV)) or isinstance(b, (str, StrV)):
            if isinstance(op, ast.Add):
                return simple(StrV(parts(a) + parts(b)))
            if isinstance(op, ast.Mult):
                s, k = (a, b) if isinstance(a, (str, StrV)) else (b, a)
                c = integer(to_poly(k))
                if c is not None:
                    return simple(StrV(parts(s) * c))
            if isinstance(b, (str, StrV)) and isinstance(op, ast.Mod):
                return Sym(('format', freeze(a), freeze(b)))
            raise Unresolved('operation on strings')
        if isinstance(a, LineNumber) and isinstance(b, Poly) and isinstance(op,
                (ast.Add, ast.Sub)) and integer(b) is not None:
            return LineNumber(a.lines, a.offset + integer(b) * (1
                if isinstance(op, ast.Add) else -1))
        if isinstance(op, (ast.Add, ast.Mult)) and isinstance(a, tuple) \
                and isinstance(b, tuple) and isinstance(op, ast.Add):
            return a + b
        if isinstance(a, tuple) and isinstance(op, ast.Mult) and isinstance(b,
                Poly) and integer(b) is not None:
            return a * integer(b)
        if isinstance(a, tuple) and isinstance(b, Arr):
            return self.elementwise(op, self.as_array(a), b)
        if isinstance(a, Arr) and isinstance(b, tuple):
            return self.elementwise(op, a, self.as_array(b))
        if isinstance(a, Arr) or isinstance(b, Arr):
            return self.elementwise(op, a, b)
        if isinstance(a, tuple):
            a = self.as_array(a)
            return self.elementwise(op, a, b)
        if not isinstance(a, Cond) and not isinstance(b, Cond) and (isinstance(
                a, bool) or isinstance(b, bool) or isinstance(a, (Poly, Sym,
                Mod)) or isinstance(b, (Poly, Sym, Mod))):
            return self.arith(op, to_poly(a), to_poly(b))
        if isinstance(a, Cond) or isinstance(b, Cond):
            return Sym(('op', type(op).__name__, freeze(a), freeze(b)))
        raise Unresolved('operation')

    def as_array(self, v):
        """Array from nested sequence."""
        if isinstance(v, TupleOf):
            return v.v
        if isinstance(v, TokSeq):
            return v.array()
        if isinstance(v, tuple):
            if not v:
                return Arr([ZERO], lambda idx: ZERO)
            inner = [self.as_array(x) if isinstance(x, (tuple, Arr)) else x
                for x in v]
            if any(isinstance(x, Arr) for x in inner):
                if not all(isinstance(x, Arr) for x in inner):
                    raise Unresolved('sequence')
                dims = inner[0].dims
                dims = None if dims is None else [Poly.const(len(v))] + list(
                    dims)
            else:
                dims = [Poly.const(len(v))]

            def fn(idx):
                c = integer(idx[0])
                if c is None:
                    raise Unresolved('index of sequence')
                x = inner[c]
                return value_of(index(x, list(idx[1:]))) if len(idx) > 1 \
                    else value_of(x)
            return Arr(dims, fn, ('stack', tuple(freeze(x) for x in v)))
        return v

    def elementwise(self, op, a, b):
        """Operation on arrays with broadcasting."""
        a, b = frozen(value_of(a)), frozen(value_of(b))
        da = a.dims if isinstance(a, Arr) else []
        db = b.dims if isinstance(b, Arr) else []
        if da is None or db is None:
            if da is None and not db or db is None and not da:
                dims = None
            else:
                raise Unresolved('shape of array')
        else:
            dims = list(da if len(da) >= len(db) else db)
            short = db if len(da) >= len(db) else da
            for n in range(1, len(short) + 1):
                if integer(dims[-n]) == 1:
                    dims[-n] = short[-n]

        def pick(x, d, idx):
            if not isinstance(x, Arr):
                return to_poly(x)
            if d is None:
                return to_poly(value_of(index(x, list(idx))))
            idx = list(idx)[len(idx) - len(d):]
            idx = [ZERO if e is not None and integer(e) == 1 else i
                for i, e in zip(idx, d)]
            return to_poly(value_of(index(x, idx)))

        def fn(idx):
            return self.arith(op, pick(a, da, idx), pick(b, db, idx))
        return Arr(dims, fn, (type(op).__name__, freeze(a), freeze(b)))

    def arith(self, op, a, b):
        if isinstance(op, ast.Add):
            return a + b
        if isinstance(op, ast.Sub):
            return a - b
        if isinstance(op, ast.Mult):
            return a * b
        if isinstance(op, ast.Div):
            return a * inverse(b)
        if isinstance(op, ast.Pow):
            c = const(b)
            if c is not None and c.denominator == 1 and abs(c) < 10:
                return a ** int(c) if c >= 0 else inverse(a) ** int(-c)
            if c == Fraction(1, 2):
                return Poly.atom('fn', 'sqrt', a)
        if isinstance(op, (ast.Mod, ast.FloorDiv)):
            x, y = const(a), const(b)
            if x is not None and y:
                return Poly.const(x % y if isinstance(op, ast.Mod) else x // y)
            if integer(b):
                q = quotient(a, b)
                if q is not None:
                    return q[isinstance(op, ast.Mod)]
            lv = single(a)
            if lv and lv[0] == 'lv' and EXTENT.get(lv) is not None \
                    and EXTENT[lv] == b:
                return a if isinstance(op, ast.Mod) else ZERO
        return Poly.atom('fn', type(op).__name__, a, b)

    def ev_Compare(self, n, env):
        left = self.ev(n.left, env)
        result = True
        for op, c in zip(n.ops, n.comparators):
            right = self.ev(c, env)
            v = self.compare(op, left, right)
            if len(n.ops) == 1:
                return v
            if self.truth(v) is False:
                return False
            left = right
        return result

    def compare(self, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)):
            same = a is None if b is None else (b is None if a is None
                else None)
            if isinstance(a, bool) and isinstance(b, bool):
                same = a == b
            if same is None:
                return Cond(('is', freeze(a), freeze(b)), isinstance(op,
                    ast.Is))
            return same == isinstance(op, ast.Is)
        if isinstance(op, (ast.Eq, ast.NotEq)):
            v = self.equal(a, b)
            if isinstance(v, Cond):
                return Cond(v.k, isinstance(op, ast.Eq))
            return v == isinstance(op, ast.Eq)
        if isinstance(op, (ast.In, ast.NotIn)):
            v = self.contains(a, b)
            if isinstance(v, Cond):
                return Cond(v.k, v.positive == isinstance(op, ast.In))
            return v == isinstance(op, ast.In)
        try:
            d = to_poly(a) - to_poly(b)
        except Unresolved:
            return Cond(('compare', freeze(a), freeze(b)))
        c = const(d)
        if c is not None:
            return {ast.Lt: c < 0, ast.LtE: c <= 0, ast.Gt: c > 0,
                ast.GtE: c >= 0}[type(op)]

        def nonneg(p):
            low = sum((x for m, x in p.terms.items() if m and all(a[0] == 'dim'
                for a, _ in m)), Fraction(0)) + p.terms.get((), Fraction(0))
            return all(x > 0 and all(a[0] in ('dim', 'lv') for a, _ in m)
                for m, x in p.terms.items() if m) and low >= 0
        if isinstance(op, (ast.Lt, ast.GtE)):
            if nonneg(d):
                return isinstance(op, ast.GtE)
            if nonneg(-d - ONE):
                return isinstance(op, ast.Lt)
        else:
            if nonneg(-d):
                return isinstance(op, ast.LtE)
            if nonneg(d - ONE):
                return isinstance(op, ast.Gt)
        strict = isinstance(op, (ast.Lt, ast.GtE))
        return Cond(('less', d, strict), isinstance(op, (ast.Lt, ast.LtE)))

    def equal(self, a, b):
        a, b = value_of(a), value_of(b)
        text = (str, StrV)
        if a is None or b is None:
            return a is b
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if isinstance(a, text) or isinstance(b, text):
            x, y = (a, b) if isinstance(a, str) else (b, a)
            if isinstance(x, str):
                if isinstance(y, Poly) and const(y) is None or isinstance(y,
                        StrV):
                    if isinstance(y, StrV) or self.data(y):
                        # data is not mistaken for keyword
                        return False
                    return Cond(('equal', x, y))
            if isinstance(a, StrV) and isinstance(b, StrV) \
                    and a.key() == b.key():
                return True
            return False
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            vs = [self.equal(x, y) for x, y in zip(a, b)]
            if all(v is True for v in vs):
                return True
            if any(v is False for v in vs):
                return False
            return Cond(('equal', freeze(a), freeze(b)))
        try:
            d = to_poly(a) - to_poly(b)
        except Unresolved:
            return Cond(('equal', freeze(a), freeze(b)))
        c = const(d)
        if c is not None:
            return c == 0
        return Cond(('equal', d))

    def data(self, p):
        """Is this an element of the data that are written?"""
        found = False
        for a in atoms(p):
            if a[0] == 'el':
                if a[2] and isinstance(a[2][-1], str):
                    return False
                found = True
            elif a[0] in ('dim', 're', 'im'):
                found = True
            elif a[0] not in ('lv', 'I', 'const') and not (a[0] == 'sym'
                    and isinstance(a[1], tuple)):
                return False
        return found

    def contains(self, a, b):
        if isinstance(b, Dict):
            b = tuple(k for k, _ in b.pairs)
        if isinstance(b, tuple):
            vs = [self.equal(a, x) for x in b]
            if any(v is True for v in vs):
                return True
            if all(v is False for v in vs):
                return False
            return Cond(('in', freeze(a), freeze(b)))
        if isinstance(b, TokSeq):
            for s in b.segments:
                if s[0] == 'tok' and self.equal(a, s[1]) is True:
                    return True
            return False
        if isinstance(b, bytes):
            return False
        if isinstance(b, str) and isinstance(a, str):
            return a in b
        if isinstance(b, StrV) and isinstance(a, str):
            if a == '/' and any(p[0] == 'fld' and isinstance(p[2], Poly)
                    and single(p[2]) and single(p[2])[0] == 'el'
                    and single(p[2])[1] in PATHS for p in b.parts):
                return Cond(('in', a, freeze(b)))
            return any(p[0] == 'lit' and a in p[1] for p in b.parts)
        if isinstance(b, Target) and b.kind == 'dict':
            if isinstance(a, str) and all(isinstance(p[0], str)
                    for p, _ in b.stores):
                return any(p[0] == a for p, _ in b.stores)
        if isinstance(b, Binary):
            return False
        if isinstance(b, Obj):
            return isinstance(a, str) and a in b.attrs
        return Cond(('in', freeze(a), freeze(value_of(b))))

    def ev_JoinedStr(self, n, env):
        out = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                out.append(('lit', v.value))
            else:
                spec = ''
                if v.format_spec is not None:
                    spec = self.ev(v.format_spec, env)
                    if not isinstance(spec, str):
                        raise Unresolved('format')
                out.extend(self.new_field(spec, self.ev(v.value, env)))
        return simple(StrV(out))

    def new_field(self, spec, v):
        m = re.match(r'(?:.?([<>=^]))?([-+ 0]*)(\d*)(?:\.(\d+))?([a-zA-Z]?)$',
            spec)
        if not m:
            raise Unresolved('format')
        return field('%' + (m.group(3) or '') + ('.' + m.group(4)
            if m.group(4) else '') + (m.group(5) or 's'), v)

    def comprehension(self, n, env):
        t = Target(None, kind='list')
        t.level = len(self.loops)
        body = [ast.Expr(ast.Call(ast.Attribute(ast.Name('.list', ast.Load()),
            'append', ast.Load()), [n.elt], []))]
        for g in reversed(n.generators):
            for test in reversed(g.ifs):
                body = [ast.If(test, body, [])]
            body = [ast.For(g.target, g.iter, body, [])]
        for b in body:
            ast.copy_location(b, n)
            ast.fix_missing_locations(b)
        frame = Frame({'.list': t}, env)
        self.frames.append(frame)
        try:
            self.block(body, frame)
        finally:
            self.frames.pop()
        seq = self.known(t)
        if seq is not None:
            return tuple(seq)
        return t

    def ev_ListComp(self, n, env):
        return self.comprehension(n, env)

    ev_GeneratorExp = ev_SetComp = ev_ListComp

    def ev_DictComp(self, n, env):
        raise Unresolved('dictionary')

    def ev_NamedExpr(self, n, env):
        v = self.ev(n.value, env)
        self.assign(n.target, v, env)
        return v

    # --- calls ---

    def ev_Call(self, n, env):
        if isinstance(n.func, ast.Attribute) and n.func.attr == 'join' \
                and len(n.args) == 1 and isinstance(n.args[0],
                    ast.GeneratorExp):
            g = n.args[0]
            if len(g.generators) == 1 and isinstance(g.elt, ast.Name) \
                    and isinstance(g.generators[0].target, ast.Name) \
                    and g.generators[0].target.id == g.elt.id:
                v = self.ev(g.generators[0].iter, env)
                if isinstance(v, (Poly, Sym, StrV)):
                    return v
        f = self.ev(n.func, env)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, env)
                seq = self.known(v)
                if seq is None:
                    if isinstance(v, Sym):
                        seq = [Sym(('starred', v.k))]
                    else:
                        raise Unresolved('starred argument')
                args.extend(seq)
            else:
                args.append(self.ev(a, env))
        kwargs = {}
        for k in n.keywords:
            if k.arg is None:
                v = self.ev(k.value, env)
                if isinstance(v, Target) and v.kind == 'dict' and all(
                        isinstance(p[0], str) for p, _ in v.stores):
                    for p, x in v.stores:
                        kwargs[p[0]] = x
                    continue
                raise Unresolved('keyword arguments')
            kwargs[k.arg] = self.ev(k.value, env)
        return self.apply(f, args, kwargs)

    def apply(self, f, args, kwargs):
        if isinstance(f, Func):
            g = getattr(self, 'fn_%s_%s' % (f.module.name, getattr(f.node,
                'name', '')), None) if f.frame is None else None
            if g is not None:
                return g(*args, **kwargs)
            return self.call(f, args, kwargs)
        if isinstance(f, Builtin):
            g = getattr(self, 'bi_' + f.name, None)
            if g is None:
                raise Unresolved(f.name)
            return g(*args, **kwargs)
        if isinstance(f, Bound):
            return self.method(f.value, f.name, args, kwargs)
        if isinstance(f, Mod):
            return self.external(f.path, args, kwargs)
        if isinstance(f, Sym):
            return Sym(('call', f.k, freeze(tuple(args))))
        raise Unresolved('call')

    # builtins:

    def bi_len(self, v):
        return self.length(v)

    def bi_range(self, *a):
        if len(a) == 1 and not isinstance(a[0], Sym):
            n = to_poly(a[0])
            if any(x[0] == 'lines' for x in all_atoms(n)):
                return LineNumbers(self.lines, 0)
            return Items(n, lambda i: i)
        a = [to_poly(x) for x in a]
        if len(a) == 1:
            return Items(a[0], lambda i: i)
        lo, hi = a[:2]
        step = integer(a[2]) if len(a) > 2 else 1
        if any(x[0] == 'lines' for x in all_atoms(hi)):
            return LineNumbers(self.lines, integer(lo) or 0)
        if step not in (1, -1):
            raise Unresolved('range')
        n = (hi - lo) * Poly.const(step)
        return Items(n, lambda i: lo + Poly.const(step) * i)

    def bi_enumerate(self, it, start=0):
        start = to_poly(start)
        seq = self.known(it)
        if seq is not None and not isinstance(it, Items):
            return tuple((start + Poly.const(n), x) for n, x in enumerate(seq))
        items = self.items(it)
        if isinstance(items, MultiIndex):
            raise Unresolved('enumeration')
        return Items(items.ext, lambda i: (start + i, items.fn(i)))

    def bi_zip(self, *its, **kw):
        seqs = [self.known(it) for it in its]
        if all(s is not None for s in seqs):
            return tuple(zip(*seqs))
        if len(its) == 1 and isinstance(its[0], Sym) and isinstance(its[0].k,
                tuple) and its[0].k[0] == 'starred':
            # columns of sorted set of tuples
            k = its[0].k[1]
            arrays = UNIQUE.get(k)
            if arrays is None:
                raise Unresolved('zip')
            out = []
            for n in range(len(arrays)):
                name = ('column', k, n)
                COLUMNS[name] = n, arrays
                out.append(Arr([Poly.atom('dim', ('unique', k))],
                    lambda idx, name=name: mk_el(name, idx), name))
            return tuple(out)
        items = [self.items(it) for it in its]
        ext = next((i.ext for i in items if i.ext is not None), None)
        z = Items(ext, lambda i: tuple(x.fn(i) for x in items))
        z.columns = its
        return z

    def bi_set(self, it=()):
        if hasattr(it, 'columns') and all(isinstance(c, Arr)
                and c.k is not None for c in it.columns):
            k = ('unique',) + tuple(c.k for c in it.columns)
            UNIQUE[k] = tuple(c.k for c in it.columns)
            return Sym(k)
        return Sym(('set', freeze(it)))

    bi_frozenset = bi_set

    def bi_sorted(self, it, key=None, reverse=False):
        if isinstance(it, Sym):
            return it
        raise Unresolved('sorted')

    def bi_reversed(self, it):
        seq = self.known(it)
        if seq is not None:
            return tuple(seq[::-1])
        items = self.items(it)
        return Items(items.ext, lambda i: items.fn(items.ext - ONE - i))

    def bi_open(self, name, mode='r', **kw):
        if isinstance(mode, str) and ('w' in mode or 'a' in mode):
            f = FileW(name)
            f.binary = 'b' in mode
            f.loops = list(self.loops)
            self.writers.append(f)
            return f
        return self.reader(name, mode)

    def reader(self, name, mode='r'):
        for f in self.files:
            if f.content is not None or getattr(f, 'binary', False) and not (
                    isinstance(mode, str) and 'b' in mode):
                continue
            mapping = unify(f.name, name)
            if mapping is not None:
                r = FileR(f, mapping)
                self.readers.append(r)
                return r
        raise PyExc('FileNotFoundError')

    def bi_next(self, it, *default):
        if isinstance(it, FileR):
            try:
                return it.line()
            except PyExc:
                if default:
                    return default[0]
                raise Mismatch('more lines are read than written')
        raise Unresolved('next')

    def bi_iter(self, it):
        return it

    def bi_map(self, f, *its):
        if len(its) > 1:
            seqs = [self.known(it) for it in its]
            if any(s is None for s in seqs):
                raise Unresolved('map')
            return tuple(self.apply(f, list(x), {}) for x in zip(*seqs))
        it = its[0]
        if isinstance(it, TokSeq):
            return TokSeq([(s[0], self.apply(f, [s[1]], {}))
                if s[0] == 'tok' else s[:3] + (tuple(self.apply(f, [x], {})
                    for x in s[3]),) for s in it.segments])
        seq = self.known(it)
        if seq is not None:
            return tuple(self.apply(f, [x], {}) for x in seq)
        items = self.items(it)
        return Items(items.ext, lambda i: self.apply(f, [items.fn(i)], {}))

    def bi_filter(self, f, it):
        seq = self.known(it)
        if seq is None:
            raise Unresolved('filter')
        return tuple(x for x in seq if self.truth(x if f is None
            else self.apply(f, [x], {})))

    def bi_list(self, it=None):
        if it is None:
            t = Target(None, kind='list')
            t.level = len(self.loops)
            return t
        if isinstance(it, (TokSeq, Target)):
            return it
        if isinstance(it, FileR):
            return self.lines_list(it)
        seq = self.known(it)
        if seq is not None:
            return tuple(seq)
        if isinstance(it, Items):
            items = it
            return Arr([items.ext], lambda idx: value_of(index(items.fn(
                idx[0]), list(idx[1:])) if len(idx) > 1 else items.fn(idx[0])))
        return it

    def bi_tuple(self, it=()):
        if isinstance(it, (Arr, Sym, Flat)) and self.known(it) is None:
            return TupleOf(it)
        return self.bi_list(it) if it != () else ()

    def bi_dict(self, *a, **kw):
        t = Target(None, kind='dict')
        if a:
            if isinstance(a[0], Target) and a[0].kind == 'dict':
                t.stores = list(a[0].stores)
            else:
                raise Unresolved('dict')
        for k, v in kw.items():
            t.stores.append(((k,), v))
        return t

    def bi_float(self, v=0):
        v = value_of(v)
        if isinstance(v, StrV):
            v = strip(v)
            if isinstance(v, StrV):
                raise PyExc('ValueError')
        if isinstance(v, str):
            try:
                return to_poly(float(v)) if v.strip().lower() not in ('nan',
                    'inf', '-inf') else Sym(v)
            except ValueError:
                raise PyExc('ValueError')
        return v if isinstance(v, Arr) else plain(to_poly(v))

    def bi_int(self, v=0, base=10):
        v = value_of(v)
        if isinstance(v, str):
            try:
                return to_poly(int(v))
            except ValueError:
                raise PyExc('ValueError')
        return self.bi_float(v)

    def bi_round(self, v, n=None):
        return self.bi_float(v)

    def bi_bool(self, v=False):
        return v if isinstance(v, Cond) else self.truth(v)

    def bi_complex(self, a=0, b=0):
        return self.bi_float(a) + IMAG * self.bi_float(b)

    def bi_str(self, v=''):
        if isinstance(v, (str, StrV)):
            return v
        return simple(StrV(field('%s', v)))

    def bi_repr(self, v):
        return simple(StrV(field('%r', v)))

    def bi_print(self, *args, **kw):
        f = kw.get('file')
        if f is None:
            return
        if not isinstance(f, FileW):
            raise Unresolved('print')
        sep = kw.get('sep', ' ')
        out = []
        for n, a in enumerate(args):
            if n:
                out.extend(parts(sep))
            out.extend(parts(a) if isinstance(a, (str, StrV))
                else field('%s', a))
        f.write(StrV(out + parts(kw.get('end', '\n'))))

    def bi_isinstance(self, v, t):
        names = [x.name if isinstance(x, Builtin) else x.path.split('.')[-1]
            if isinstance(x, Mod) else '?' for x in (t if isinstance(t, tuple)
                else (t,))]
        if isinstance(v, tuple):
            return 'tuple' in names or 'list' in names and not getattr(self,
                'exact', False)
        if isinstance(v, (str, StrV)):
            return 'str' in names
        if isinstance(v, Target):
            return {'list': 'list', 'dict': 'dict', 'array': 'ndarray'}[
                v.kind] in names
        if isinstance(v, Arr):
            return 'ndarray' in names
        if isinstance(v, Poly):
            if plain(v) != v:
                if {'generic', 'number'} & set(names):
                    return True
                if {'floating', 'integer', 'bool_', 'float', 'int', 'bool'} \
                        & set(names):
                    return Cond(('isinstance', freeze(v), tuple(names)))
                return False
            if any(a[0] == 'el' for a in atoms(v)):
                return False
            return 'int' in names or 'float' in names
        if isinstance(v, Sym):
            return False
        return Cond(('isinstance', freeze(v), tuple(names)))

    def bi_hasattr(self, v, name):
        if isinstance(v, (tuple, Arr)):
            return name in ('__len__', '__iter__', '__getitem__', 'shape')
        if isinstance(v, Items):
            return True
        if isinstance(v, Poly):
            return False
        return Cond(('hasattr', freeze(v), name))

    def bi_getattr(self, v, name, *d):
        return self.attribute(v, name)

    def bi_sum(self, it, *a):
        seq = self.known(it)
        if seq is None:
            raise Unresolved('sum')
        t = ZERO
        for x in seq:
            t = t + to_poly(value_of(x))
        return t

    def bi_abs(self, v):
        return Poly.atom('fn', 'abs', to_poly(v))

    def bi_max(self, *a, **kw):
        return Sym(('max', freeze(a)))

    def bi_min(self, *a, **kw):
        return Sym(('min', freeze(a)))

    def bi_slice(self, *a):
        a = [self.number(x) for x in a]
        if len(a) == 1:
            return Slice(None, a[0])
        return Slice(*a[:3])

    def lines_list(self, fr):
        self.lines = Lines(fr)
        return self.lines

    # methods:

    def method(self, v, name, args, kwargs):
        if isinstance(v, Mod):
            if name in ('bcast', 'allreduce', 'reduce', 'gather', 'scatter'):
                return args[0]
            if name in ('Allgatherv', 'Gatherv', 'Allgather', 'Scatterv'):
                a = args[0][0] if isinstance(args[0], tuple) else args[0]
                b = args[1][0] if isinstance(args[1], tuple) else args[1]
                if isinstance(b, Target):
                    src = a
                    if name == 'Scatterv':
                        # every process performs the same steps on its share
                        b.stores.append(((Slice(None, None),), src))
                    elif isinstance(a, Target):
                        b.stores = a.stores
                return None
            return None
        if isinstance(v, FileW):
            if name == 'write':
                a = args[0]
                if isinstance(a, (Sym, Arr)):
                    raise Unresolved('text')
                v.write(a)
                return None
            if name == 'writelines':
                seq = self.known(args[0])
                if seq is None:
                    raise Unresolved('writelines')
                for x in seq:
                    v.write(x)
                return None
            if name in ('close', 'flush', '__enter__'):
                return v
            raise Unresolved('file.' + name)
        if isinstance(v, FileR):
            if name == 'readline':
                return self.bi_next(v)
            if name == 'readlines':
                return self.lines_list(v)
            if name == 'read':
                return Binary()
            if name == 'close':
                return None
            raise Unresolved('file.' + name)
        if isinstance(v, (str, StrV)):
            return self.string_method(v, name, args, kwargs)
        if isinstance(v, (Poly, Sym)) and name in ('strip', 'lower', 'upper',
                'rstrip', 'lstrip', 'rjust', 'ljust', 'title', 'copy', 'item',
                'astype', 'conj', 'conjugate', 'tolist'):
            if name in ('conj', 'conjugate'):
                raise Unresolved('conj')
            return plain(v) if name in ('item', 'tolist') else v
        if isinstance(v, Sym):
            if name == 'split':
                return (value_of(v),)
            if name == 'items':
                k = v.k
                ext = Poly.atom('len', v.key())
                return Items(ext, lambda i: (mk_el(('keys', k), (i,)),
                    mk_el(('values', k), (i,))))
            if name == 'get' and args and isinstance(args[0], str):
                return index(v, [args[0]])
            if name == 'reshape':
                return v
            return Sym(('method', v.k, name, freeze(tuple(args))))
        if isinstance(v, Poly):
            if name == 'split':
                return (v,)
            if name == 'startswith' or name == 'endswith':
                return False if self.data(v) else Cond((name, v, freeze(
                    tuple(args))))
            if name == 'lower':
                return v
            raise Unresolved('method ' + name)
        if isinstance(v, Target) and v.kind == 'list':
            if name == 'append':
                return self.append(v, args[0])
            if name == 'extend':
                return self.extend(v, args[0])
            if name == 'index':
                raise Unresolved('index')
        if isinstance(v, Target) and v.kind == 'dict':
            if name == 'get':
                if self.contains(args[0], v) is False:
                    return args[1] if len(args) > 1 else None
                return index(v, [args[0]])
            if name == 'update':
                for a in args:
                    if isinstance(a, Target):
                        v.stores.extend(a.stores)
                    else:
                        raise Unresolved('update')
                for k, x in kwargs.items():
                    v.stores.append(((k,), x))
                return None
            if name in ('keys', 'values', 'items'):
                seq = self.known(v)
                if seq is None:
                    raise Unresolved('dictionary')
                return tuple(k if name == 'keys' else index(v, [k])
                    if name == 'values' else (k, index(v, [k])) for k in seq)
            if name == 'setdefault':
                if self.contains(args[0], v) is False:
                    v.stores.append(((args[0],), args[1]))
                return index(v, [args[0]])
            raise Unresolved('dict.' + name)
        if isinstance(v, tuple):
            if name == 'index':
                for n, x in enumerate(v):
                    if self.equal(x, args[0]) is True:
                        return Poly.const(n)
            if name == 'copy':
                return v
            raise Unresolved('tuple.' + name)
        if isinstance(v, TokSeq):
            raise Unresolved('words of line')
        if isinstance(v, Flat):
            if name == 'reshape':
                dims = args[0] if len(args) == 1 and isinstance(args[0], (tuple,
                    Arr)) else tuple(args)
                if kwargs:
                    if kwargs.get('order') != 'F' or len(kwargs) > 1:
                        raise Unresolved('reshape')
                    return transposed(reshape(v, self.dims_of(dims)[::-1]))
                return reshape(v, self.dims_of(dims))
            return v
        if isinstance(v, Arr):
            return self.array_method(v, name, args, kwargs)
        raise Unresolved('method ' + name)

    def string_method(self, v, name, args, kwargs):
        if name == 'join':
            it = args[0]
            if isinstance(it, TokSeq):
                raise Unresolved('join')
            seq = self.known(it)
            out = []
            if seq is not None:
                for n, x in enumerate(seq):
                    if n:
                        out.extend(parts(v))
                    out.extend(parts(x))
                return simple(StrV(out))
            if isinstance(it, Target) and len(it.stores) == 1:
                (i,), x = it.stores[0]
                lv = single(i)
                if lv and lv[0] == 'lv':
                    return StrV([('iloop', lv, it.after, StrV(parts(x)
                        + parts(v)).parts)])
            raise Unresolved('join')
        if name in ('strip', 'lstrip', 'rstrip'):
            chars = args[0] if args else None
            if chars is not None and not isinstance(chars, str):
                raise Unresolved('strip')
            return strip(v, chars, name)
        if name in ('lower', 'upper'):
            return simple(StrV([('lit', getattr(p[1], name)())
                if p[0] == 'lit' else p for p in parts(v)]))
        if name == 'split':
            sep = args[0] if args else kwargs.get('sep')
            m = args[1] if len(args) > 1 else kwargs.get('maxsplit')
            if sep is None:
                if m is not None:
                    raise Unresolved('split')
                return words(v)
            if not isinstance(sep, str):
                raise Unresolved('split')
            return split_at(v, sep, integer(m) if m is not None else None)
        if name in ('startswith', 'endswith'):
            ps = parts(v)
            if not isinstance(args[0], str):
                raise Unresolved(name)
            if not ps:
                return False
            p = ps[0] if name == 'startswith' else ps[-1]
            if p[0] == 'lit' and (len(p[1]) >= len(args[0]) or len(ps) == 1):
                return getattr(p[1], name)(args[0])
            if p[0] == 'fld' or p[0] == 'iloop':
                return False
            raise Unresolved(name)
        if name in ('index', 'find'):
            if isinstance(args[0], str):
                if isinstance(v, str):
                    if args[0] in v:
                        return Poly.const(v.index(args[0]))
                    raise PyExc('ValueError')
                for n, p in enumerate(parts(v)):
                    if p[0] == 'lit' and args[0] in p[1]:
                        return Pos(n, p[1].index(args[0]))
                raise PyExc('ValueError')
        if name == 'replace' and all(isinstance(a, str) for a in args[:2]):
            return simple(StrV([('lit', p[1].replace(*args[:2]))
                if p[0] == 'lit' else p for p in parts(v)]))
        if name == 'format' and isinstance(v, str):
            out = []
            pos = auto = 0
            for m in re.finditer(r'\{\{|\}\}|\{(\d*|\w+)(?::([^}]*))?\}', v):
                out.append(('lit', v[pos:m.start()]))
                pos = m.end()
                if m.group() in ('{{', '}}'):
                    out.append(('lit', m.group()[0]))
                    continue
                k = m.group(1)
                if k and not k.isdigit():
                    x = kwargs[k]
                else:
                    x = args[int(k) if k else auto]
                    auto += 1
                out.extend(self.new_field(m.group(2) or '', x))
            out.append(('lit', v[pos:]))
            if any(p[0] == 'lit' and ('{' in p[1] or '}' in p[1]) for p in out
                    if p[1] not in '{}'):
                raise Unresolved('format')
            return simple(StrV(out))
        if isinstance(v, str) and all(isinstance(a, str) for a in args) \
                and name in ('isdigit', 'isalpha', 'count', 'isspace'):
            r = getattr(v, name)(*args)
            return r if isinstance(r, bool) else Poly.const(r)
        raise Unresolved('str.' + name)

    def array_method(self, v, name, args, kwargs):
        if name in ('copy', 'astype', 'tolist', 'view', 'item'):
            return v
        if name == 'reshape':
            dims = args[0] if len(args) == 1 and isinstance(args[0], (tuple,
                Arr)) else tuple(args)
            if kwargs:
                raise Unresolved('order')
            return reshape(v, self.dims_of(dims))
        if name == 'transpose':
            if not args:
                return transposed(v)
            axes = args[0] if len(args) == 1 and isinstance(args[0], tuple) \
                else tuple(args)
            return transposed(v, [self.small(a) for a in axes])
        if name == 'swapaxes':
            axes = list(range(len(v.dims)))
            a, b = [self.small(x) for x in args]
            axes[a], axes[b] = axes[b], axes[a]
            return transposed(v, axes)
        if name in ('ravel', 'flatten'):
            order = kwargs.get('order', args[0] if args else 'C')
            if order not in ('C', 'F'):
                raise Unresolved('order')
            if v.dims is None:
                raise Unresolved('ravel')
            return Flat(v if order == 'C' else transposed(v))
        if name == 'index' and v.k in COLUMNS:
            return Poly.atom('fn', 'position', v.k, to_poly(value_of(args[0])))
        if name == 'prod':
            return self.np_prod(v)
        if name in ('conj', 'conjugate'):
            raise Unresolved('conj')
        if name == 'dot':
            return self.np_dot(v, args[0])
        if name == 'tofile':
            f = args[0]
            if isinstance(f, FileW):
                f.items.append(('data', v))
                return None
        raise Unresolved('array.' + name)

    def dims_of(self, dims):
        seq = self.known(dims)
        if seq is None:
            return [to_poly(value_of(dims))]
        return [to_poly(value_of(d)) for d in seq]

    # external functions:

    def external(self, path, args, kwargs):
        ps = path.split('.')
        name = ps[-1]
        if ps[0] in ('numpy', 'np'):
            g = getattr(self, 'np_' + name, None)
            if g is not None:
                return g(*args, **kwargs)
            if name in IDENTITY:
                return self.np_array(*args, **kwargs)
            return Sym(('call', path, freeze(tuple(args))))
        if path.startswith('elphmod.'):
            for prefix in ('numpy',):
                pass
            if name in ('shared_array', 'info', 'StatusBar'):
                g = getattr(self, 'fn_MPI_' + name, None)
                if g is not None:
                    return g(*args, **kwargs)
            return Sym(('call', path, freeze(tuple(args))))
        if path == 'itertools.product':
            repeat = integer(kwargs.get('repeat', ONE))
            if not args or not repeat:
                raise Unresolved('product')
            return Product(list(args) * repeat)
        if path == 'time.strftime' and args and isinstance(args[0], str):
            ps = []
            for n, t in enumerate(re.split('%[a-zA-Z]', args[0])):
                if n:
                    ps.append(('fld', '%s', Sym(('time', str(n)))))
                ps.append(('lit', t))
            return StrV(ps)
        for a in args:
            if isinstance(a, (FileR, FileW)):
                raise Unresolved(path)
        return Sym(('call', path, freeze(tuple(args))))

    def np_array(self, v, *a, **kw):
        v = self.as_array(v)
        if isinstance(v, Items):
            v = self.bi_list(v)
            v = self.as_array(v)
        if isinstance(v, Target) and v.kind == 'list' and v.stores and all(
                isinstance(x, (Arr, tuple)) for _, x in v.stores):
            return v
        return v

    def new_array(self, shape, default):
        dims = self.dims_of(shape)
        return Target(dims, default)

    def np_empty(self, shape, *a, **kw):
        return self.new_array(shape, None)

    def np_zeros(self, shape, *a, **kw):
        return self.new_array(shape, ZERO)

    def np_ones(self, shape, *a, **kw):
        return self.new_array(shape, ONE)

    def np_full(self, shape, v, *a, **kw):
        return self.new_array(shape, to_poly(v))

    def np_zeros_like(self, v, *a, **kw):
        return Target(list(v.dims), ZERO)

    def np_empty_like(self, v, *a, **kw):
        return Target(list(v.dims), None)

    def np_ones_like(self, v, *a, **kw):
        return Target(list(v.dims), ONE)

    def np_arange(self, *a, **kw):
        return self.bi_list(self.bi_range(*a))

    def np_prod(self, v, *a, **kw):
        seq = self.known(v)
        if seq is None:
            return Sym(('prod', freeze(v)))
        return product([to_poly(value_of(x)) for x in seq])

    def np_reshape(self, v, shape, **kw):
        if kw:
            order = kw.get('order', 'C')
            if order == 'F':
                dims = self.dims_of(shape)[::-1]
                return transposed(reshape(transposed(v) if isinstance(v, Arr)
                    and len(v.dims) > 1 else v, dims))
            raise Unresolved('order')
        return reshape(v, self.dims_of(shape))

    def np_ravel(self, v, order='C'):
        return self.array_method(v, 'ravel', [order], {})

    def np_transpose(self, v, axes=None):
        v = self.as_array(v)
        return transposed(v, None if axes is None else [self.small(a)
            for a in axes])

    def np_swapaxes(self, v, a, b):
        return self.array_method(v, 'swapaxes', [a, b], {})

    def np_lexsort(self, v, *a, **kw):
        n = v.dims[-1] if isinstance(v, Arr) and v.dims else None
        k = ('permutation', 'lexsort', freeze(v))
        return Arr([n], lambda idx: mk_el(k, idx), k)

    def np_argsort(self, v, *a, **kw):
        n = v.dims[-1] if isinstance(v, Arr) and v.dims else None
        k = ('permutation', 'argsort', freeze(v))
        return Arr([n], lambda idx: mk_el(k, idx), k)

    def np_nditer(self, v, *a, **kw):
        return NdIter(v)

    def np_ndenumerate(self, v):
        v = self.as_array(v)
        if not isinstance(v, Arr) or not v.dims:
            raise Unresolved('ndenumerate')
        return Product([self.bi_range(d) for d in v.dims], v, True)

    def np_ndindex(self, *a):
        if len(a) == 1 and not isinstance(a[0], Poly):
            a = self.known(a[0])
        if not a:
            raise Unresolved('ndindex')
        return Product([self.bi_range(n) for n in a])

    def np_iscomplexobj(self, v):
        return Cond(('complex', freeze(v)))

    def np_sqrt(self, v):
        v = value_of(v)
        if isinstance(v, Arr):
            return Arr(v.dims, lambda idx: Poly.atom('fn', 'sqrt',
                to_poly(value_of(index(v, list(idx))))))
        return Poly.atom('fn', 'sqrt', to_poly(v))

    def np_dot(self, a, b):
        a, b = self.as_array(a), self.as_array(b)
        da, db = a.dims, b.dims
        if da is None or db is None or len(da) != 1 or len(db) != 1 \
                or integer(da[0]) is None or integer(db[0]) is None:
            raise Unresolved('dot')
        total = ZERO
        for n in range(min(integer(da[0]), integer(db[0]))):
            total = total + to_poly(index(a, [Poly.const(n)])) * to_poly(
                index(b, [Poly.const(n)]))
        return reciprocal(total)

    np_inner = np_dot

    def np_concatenate(self, *a, **kw):
        raise Unresolved('concatenate')

    def np_save(self, name, v, *a, **kw):
        f = FileW(name)
        f.content = v
        self.writers.append(f)
        if self.loops:
            raise Unresolved('save in loop')

    def np_load(self, name, *a, **kw):
        for f in self.files:
            if f.content is not None:
                return f.content
        raise PyExc('FileNotFoundError')

    def np_loadtxt(self, *a, **kw):
        raise Unresolved('loadtxt')

    np_savetxt = np_genfromtxt = np_memmap = np_loadtxt

    def np_fromfile(self, fr, dtype=None, count=None, **kw):
        if not isinstance(fr, FileR) or kw:
            raise Unresolved('fromfile')
        if count is not None and integer(to_poly(value_of(count))) == -1:
            count = None
        node = fr.peek()
        if node is None:
            return Arr([ZERO], lambda idx: ZERO, ('empty',))
        lvs = []
        dims = []
        while isinstance(node, Loop) and len(node.nodes) == 1:
            lvs.append(node.lv)
            dims.append(fr.map(node.ext))
            node = node.nodes[0]
        if not isinstance(node, Data):
            raise Unresolved('fromfile')
        v = node.v
        if not isinstance(v, Arr) or v.dims is None or None in dims:
            raise Unresolved('fromfile')
        n = len(lvs)
        dims = dims + [fr.map(d) for d in v.dims]
        total = product(dims)
        if count is None:
            raise Unresolved('fromfile')
        count = to_poly(value_of(count))
        if count != total:
            r = count * inverse(total)
            if len(count.terms) == len(total.terms) == 1 and {a[0] for a
                    in all_atoms(r)} <= {'dim'}:
                raise Mismatch('%s binary numbers are read at a time but the '
                    'file consists of blocks of %s' % (show(count),
                    show(total)))
            raise Unresolved('fromfile')
        fr.advance()
        return Flat(Arr(dims, lambda idx: value_of(substitute(fr.map(value_of(
            index(v, list(idx[n:])) if len(idx) > n else v)),
            dict(zip(lvs, idx)))), ('binary', v.key())))

    # functions of the package:

    def fn_MPI_shared_array(self, shape, *a, **kw):
        return (Mod('comm'), Mod('comm'), self.new_array(shape, None))

    def fn_MPI_info(self, *a, **kw):
        return None

    def fn_MPI_distribute(self, n, *a, **kw):
        v = Sym(('sizes', freeze(n)))
        return (v, Sym(('bounds', freeze(n)))) if kw.get('bounds') else v

    def fn_misc_vector_index(self, *a, **kw):
        return Sym(('vector_index', freeze(a)))

    def fn_bravais_translations(self, angle=120, angle0=0, *a, **kw):
        k = ('translation', freeze(angle), freeze(angle0))
        return tuple(Arr([Poly.const(2)], lambda idx, n=n: mk_el(k + (n,),
            idx), k + (n,)) for n in (1, 2))

    def fn_bravais_reciprocals(self, *vectors):
        out = []
        for n, v in enumerate(vectors):
            k = ('reciprocal', tuple(freeze(x) for x in vectors), n)
            out.append(Arr(list(v.dims), lambda idx, k=k: mk_el(k, idx), k))
            RECIPROCAL[k] = v.key()[1], [x.key()[1] for x in vectors]
        return tuple(out)

    def fn_bravais_primitives(self, *a, **kw):
        return Sym(('primitives', freeze(a)))

    def fn_misc_read_input_data(self, name, *a, **kw):
        """Settings in Fortran namelists."""
        fr = self.reader(name)
        data = Target(None, kind='dict')
        inside = [False]

        def visit(nodes):
            for node in nodes:
                if isinstance(node, Loop):
                    visit(node.nodes)
                    continue
                if isinstance(node, Stream):
                    continue
                text = strip(fr.bind(node))
                if isinstance(text, str) and text.startswith('&'):
                    inside[0] = True
                    continue
                if isinstance(text, str) and text.startswith('/'):
                    inside[0] = False
                    continue
                if not inside[0] or text == '':
                    continue
                if isinstance(text, StrV):
                    for p, q in zip(text.parts, text.parts[1:]):
                        a = single(q[2]) if q[0] == 'fld' and isinstance(q[2],
                            Poly) else None
                        if a and a[0] == 'el' and a[1] in STRINGS and q[1][
                                -1] != 'r' and p[0] == 'lit' and not p[1] \
                                .endswith(("'", '"')):
                            raise Mismatch('%s: string is written without '
                                'quotation marks' % a[1].split()[-1])
                sides = split_at(text, '=', 1)
                if len(sides) != 2:
                    raise Mismatch('a line of the namelist has no equals sign')
                key, value = sides
                value = strip(value)
                key = strip(key)
                n = None
                if isinstance(key, StrV):
                    ps = key.parts
                    if len(ps) == 3 and ps[0][0] == 'lit' and ps[0][1][-1] \
                            == '(' and ps[1][0] == 'fld' and ps[2] == ('lit',
                            ')'):
                        key = ps[0][1][:-1].strip()
                        n = to_poly(ps[1][2]) - ONE
                    else:
                        raise Unresolved('namelist')
                elif isinstance(key, str) and key.endswith(')'):
                    key, n = key[:-1].split('(')
                    n = to_poly(int(n)) - ONE
                if not isinstance(key, str):
                    raise Unresolved('namelist')
                key = key.lower()
                if n is not None:
                    if not any(p[0] == key for p, _ in data.stores):
                        data.stores.append(((key,), Target(None, kind='list')))
                    index(data, [key]).stores.append(((n,), value))
                else:
                    if isinstance(value, str):
                        value = literal(value)
                    data.stores.append(((key,), value))
        visit(fr.source.nodes)
        return data

    def fn_misc_read_namelists(self, *a, **kw):
        raise Unresolved('namelists')

def as_load(t):
    t = ast.parse(ast.unparse(t), mode='eval').body
    return t

def in_order(body):
    """Nodes in order of evaluation (roughly)."""
    for b in body if isinstance(body, list) else [body]:
        for n in ast.iter_child_nodes(b):
            for m in in_order(n):
                yield m
        yield b

PREPARED = {}

def prepare(body):
    """Move initial reading of loop with reading at end of body into loop."""
    k = id(body)
    if k in PREPARED and PREPARED[k][0] is body:
        return PREPARED[k][1]
    out = list(body)
    n = 0
    while n < len(out):
        s = out[n]
        if isinstance(s, ast.While) and s.body and isinstance(s.body[-1],
                ast.Assign) and not s.orelse and not any(isinstance(x,
                    ast.Continue) for x in ast.walk(s)):
            last = ast.dump(s.body[-1])
            for m in range(n - 1, -1, -1):
                if ast.dump(out[m]) == last and 'next' in last or \
                        ast.dump(out[m]) == last and 'readline' in last:
                    head = out[m]
                    loop = ast.While(ast.Constant(True), [head, ast.If(
                        ast.UnaryOp(ast.Not(), s.test), [ast.Break()], [])]
                        + s.body[:-1], [])
                    ast.copy_location(loop, s)
                    ast.fix_missing_locations(loop)
                    out[n] = loop
                    del out[m]
                    n -= 1
                    break
        n += 1
    PREPARED[k] = (body, out)
    return out

class LineNumbers:
    def __init__(self, lines, start):
        self.lines, self.start = lines, start

class LineNumber:
    def __init__(self, lines, offset):
        self.lines, self.offset = lines, offset

class NdIter:
    def __init__(self, v):
        self.v = v
        self.index = None

class Product:
    """Iteration over all combinations of elements."""
    def __init__(self, factors, array=None, number=False):
        self.factors, self.array, self.number = factors, array, number

class MultiIndex(Items):
    """Iteration over all elements of array."""
    def __init__(self, machine, it):
        self.it = it
        self.ext = product(it.v.dims)
        self.lv = machine.fresh(self.ext)
        self.number = machine.counter

    def fn(self, i):
        self.it.index = tuple(Poly({((('lv', 'multi', self.number, n), 1),):
            Fraction(1)}) for n in range(len(self.it.v.dims)))
        return value_of(index(self.it.v, list(self.it.index)))

class Builtin:
    def __init__(self, name):
        self.name = name

def show(p):
    """Readable form of term."""
    def atom(a):
        if a[0] == 'lv':
            return 'i%s' % '_'.join(str(x) for x in a[2:])
        if a[0] == 'dim':
            return str(a[1])
        if a[0] == 'free':
            return a[1]
        if a[0] == 'el':
            return '%s[%s]' % (show(a[1]), ', '.join(show(x) for x in a[2]))
        if a[0] in ('re', 'im'):
            return '%s(%s)' % (a[0].capitalize(), atom(a[1]))
        if a[0] in ('sym', 'const'):
            return show(a[1])
        if a[0] == 'I':
            return 'i'
        return '%s(%s)' % (a[0], ', '.join(show(x) for x in a[1:]))
    if isinstance(p, Poly):
        out = []
        for m, c in sorted(p.terms.items(), key=repr):
            f = [atom(a) + ('^%d' % e if e != 1 else '') for a, e in m]
            if c != 1 or not f:
                f.insert(0, str(c))
            out.append('*'.join(f))
        return ' + '.join(out) or '0'
    if isinstance(p, tuple):
        return '.'.join(show(x) for x in p)
    return str(p)

UNIQUE = {}
NONZERO = {'proj', 'wdata', 'celldm'}
RECIPROCAL = {}

METHODS = {'items', 'keys', 'values', 'get', 'lower', 'upper', 'strip',
    'rstrip', 'split', 'index', 'copy', 'astype', 'reshape', 'tolist', 'format',
    'item', 'dot', 'append', 'startswith', 'endswith', 'sum'}

class Binary:
    """Content of file."""

class Dict:
    """Dictionary display."""
    def __init__(self, pairs):
        self.pairs = pairs

    def get(self, k, machine):
        for x, v in self.pairs:
            if machine.equal(x, k) is True:
                return v
        raise Unresolved('key of dictionary')

def literal(s):
    try:
        return to_poly(int(s))
    except ValueError:
        try:
            return to_poly(float(s))
        except ValueError:
            return {'True': True, 'False': False}.get(s, s.strip('\'"'))

def strip(v, chars=None, how='strip'):
    ps = parts(v)
    while how != 'rstrip' and ps and ps[0][0] == 'lit':
        t = ps[0][1].lstrip(chars)
        if t:
            ps[0] = ('lit', t)
            break
        ps.pop(0)
    while how != 'lstrip' and ps and ps[-1][0] == 'lit':
        t = ps[-1][1].rstrip(chars)
        if t:
            ps[-1] = ('lit', t)
            break
        ps.pop()
    return simple(StrV(ps))

def reciprocal(p):
    """Use orthogonality of lattice and reciprocal lattice vectors."""
    for _ in range(20):
        out = ZERO
        changed = False
        for m, c in p.terms.items():
            hit = None
            for a, e in m:
                if a[0] == 'el' and a[1] in RECIPROCAL and e == 1 \
                        and a[2] == (ZERO,):
                    for b, f in m:
                        if b[0] == 'el' and f == 1 and b[2] == (ZERO,) \
                                and b[1] in RECIPROCAL[a[1]][1]:
                            hit = a, b
            if hit is None:
                out = out + Poly({m: c})
                continue
            changed = True
            a, b = hit
            rest = Poly({tuple((x, e) for x, e in m if x not in (a, b)): c})
            delta = ONE if RECIPROCAL[a[1]][0] == b[1] else ZERO
            out = out + rest * (delta - mk_el(a[1], (ONE,)) * mk_el(b[1],
                (ONE,)))
        p = out
        if not changed:
            break
    return p

def unify(written, read):
    """Bind loop variables in name of written file to those of reader."""
    a, b = freeze(written), freeze(read)
    mapping = {}

    def visit(x, y):
        if isinstance(x, Poly) and isinstance(y, Poly):
            x = substitute(x, mapping)
            if x == y:
                return True
            free = [v for v in atoms(x) if v[0] == 'lv' and v[1] == 'write']
            if len(free) == 1:
                coef, rest = linear(x, free[0])
                if coef:
                    q = divide(y - rest, coef)
                    if q is not None:
                        mapping[free[0]] = q
                        return True
            return False
        if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
            return all(visit(i, j) for i, j in zip(x, y))
        return x == y
    return mapping if visit(a, b) else None
