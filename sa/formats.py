"""Pairs of routines that write and read the same files (C10)."""

import hashlib
import itertools
import math
from fractions import Fraction

from . import roundtrip as rt
from .poly import Poly
from .roundtrip import (Arr, Items, Cond, Machine, Mismatch, Obj, PyExc, StrV,
    Sym, Target, Unresolved, all_atoms, atoms, base, expand, freeze,
    index, integer, mk_el, show, single, to_poly, value_of, ONE, ZERO)

class Oracle:
    """Decide conditions in all possible ways (depth first)."""
    def __init__(self, path):
        self.path = list(path)
        self.known = {}
        self.taken = []

    def decide(self, k):
        k = freeze(k)
        if k in self.known:
            return self.known[k]
        n = len(self.taken)
        v = self.path[n] if n < len(self.path) else True
        self.taken.append((k, v))
        self.known[k] = v
        return v

    def following(self):
        path = [v for _, v in self.taken]
        while path and not path[-1]:
            path.pop()
        if not path:
            return None
        path[-1] = False
        return path

def dim(d):
    return Poly.atom('dim', d) if isinstance(d, str) else to_poly(d)

def free(name):
    return Poly.atom('free', name)

def kinds(p):
    return {a[0] for a in all_atoms(p)}

class Undecided(Exception):
    """Term without known meaning."""

class Valuation:
    """Random valuation of indices, dimensions, and data to compare terms."""
    PRIMES = 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53

    def __init__(self, seed, real):
        self.seed, self.real = seed, real
        self.dims = {}

    def number(self, *key):
        text = repr((self.seed, key)).encode()
        return int.from_bytes(hashlib.sha256(text).digest()[:4], 'big')

    def positive(self, *key):
        return 0.5 + self.number(*key) / 2 ** 32

    def poly(self, p):
        total = Fraction(0)
        for m, c in p.terms.items():
            term = c
            for a, e in m:
                v = self.atom(a)
                if not isinstance(v, (Fraction, int)):
                    term = term + 0.0 if isinstance(term, Fraction) else term
                if not v and e < 0:
                    raise Undecided
                term = term * v ** e
            total = total + term
        return total

    def whole(self, p):
        v = self.poly(to_poly(p))
        if not isinstance(v, (Fraction, int)) or Fraction(v).denominator != 1:
            raise Undecided
        return int(v)

    def key(self, k):
        if isinstance(k, Poly):
            v = self.poly(k)
            return int(v) if isinstance(v, Fraction) and v.denominator == 1 \
                else v
        if isinstance(k, tuple):
            return tuple(self.key(x) for x in k)
        return k

    def element(self, a):
        k, idx = a[1], tuple(self.key(i) for i in a[2])
        if k in rt.COLUMNS:
            n, arrays = rt.COLUMNS[k]
            return 'column', arrays, n, idx
        for arrays in rt.UNIQUE.values():
            if k in arrays and len(idx) == 1:
                return ('column', arrays, arrays.index(k), (self.number('type',
                    arrays, idx) % 4,))
        return 'el', k, idx

    def atom(self, a):
        kind = a[0]
        if kind == 'free':
            return Fraction(1 + self.number(a) % 5)
        if kind == 'dim':
            if a not in self.dims:
                self.dims[a] = Fraction(self.PRIMES[len(self.dims)
                    % len(self.PRIMES)])
            return self.dims[a]
        if kind == 'I':
            return 1j
        if kind == 'el':
            key = self.element(a)
            v = self.positive(key)
            return v if self.real else complex(v, self.positive(key, 'im'))
        if kind in ('re', 'im') and a[1][0] == 'el' and not self.real:
            v = self.atom(a[1])
            return v.real if kind == 're' else v.imag
        if a == ('const', 'numpy.pi'):
            return math.pi
        if kind == 'const':
            return self.positive(a)
        if kind == 'sym' and isinstance(a[1], tuple) and a[1][:2] == ('call',
                'numpy.linalg.norm'):
            return self.positive(repr(a))
        if kind == 'fn':
            if a[1] in ('FloorDiv', 'Mod'):
                x, y = self.whole(a[2]), self.whole(a[3])
                if not y:
                    raise Undecided
                return Fraction(x // y if a[1] == 'FloorDiv' else x % y)
            if a[1] == 'sqrt':
                v = self.poly(a[2])
                if isinstance(v, complex) or v < 0:
                    raise Undecided
                return math.sqrt(v)
            if a[1] == 'inverse':
                v = self.poly(a[2])
                if not v:
                    raise Undecided
                return 1 / v
            if a[1] == 'position' and a[2] in rt.COLUMNS:
                n, arrays = rt.COLUMNS[a[2]]
                b = single(a[3])
                if b and b[0] == 'el' and b[1] == arrays[n]:
                    return Fraction(self.element(b)[3][0])
        raise Undecided

def differ(got, want):
    """Are terms certainly different?"""
    real = not {'re', 'im', 'I'} & (kinds(got) | kinds(want))
    for seed in range(3):
        v = Valuation(seed, real)
        try:
            x, y = v.poly(want), v.poly(got)
        except (Undecided, OverflowError):
            return False
        if abs(x - y) <= 1e-6 * (abs(x) + abs(y)):
            return False
    return True

class Comparison:
    """Compare what is read with what has been written."""
    def __init__(self):
        self.rows = {}
        self.checked = 0

    def element(self, got, want, what):
        self.checked += 1
        got = complete(value_of(got))
        want = value_of(want)
        if isinstance(want, (str, StrV)) or isinstance(got, (str, StrV)):
            if freeze(got) != freeze(want):
                raise Mismatch('%s: "%s" is written but "%s" is read' % (what,
                    text(want), text(got)))
            return
        got = to_poly(got)
        want = to_poly(want)
        if got == want or not rt.reciprocal(expand(got) - expand(want)).terms:
            return
        self.judge(got, want, what)

    def judge(self, got, want, what):
        if single(got) and single(got)[0] == 'undefined':
            raise Mismatch('%s: %s is written but not read' % (what,
                show(want)))
        a = single(got)
        if a and a[:2] == ('fn', 'start') and a[3] == want and integer(a[2]) \
                is not None and integer(a[2]) < 3:
            raise Mismatch('%s: only the first %d letters are read' % (what,
                integer(a[2])))
        bad = {'sym', 'undefined', 'fn', 'flat', 'mod', 'truth', 'lv'} & kinds(got)
        if bad and not differ(got, want):
            raise Unresolved('%s: %s instead of %s' % (what, show(got),
                show(want)))
        raise Mismatch('%s: %s is written but %s is read in its place'
            % (what, show(want), show(got)))

    def array(self, got, name, dims, what, rows=False, want=None):
        """Compare array elements for all indices."""
        if got is None:
            raise Mismatch('%s: written but not read' % what)
        self.shape(got, dims, what)
        for idx in enumerate_indices(dims):
            try:
                g = value_of(index(got, list(idx)))
            except KeyError:
                g = Poly.atom('undefined', what)
            w = want(idx) if want is not None else mk_el(name, tuple(idx))
            if rows:
                self.row(g, w, idx, what)
            else:
                self.element(g, w, what)

    def shape(self, got, dims, what):
        if not isinstance(got, Arr) or not isinstance(got.dims, list) \
                or len(got.dims) != len(dims):
            return
        for n, (x, d) in enumerate(zip(got.dims, dims)):
            y = product_dim(d) if isinstance(d, str) else d
            y = dim(y) if isinstance(y, str) else to_poly(y)
            if isinstance(x, Poly) and x != y and all(a[0] == 'dim'
                    for a in atoms(x) | atoms(y)):
                raise Mismatch('%s: axis %d has length %s but is read with '
                    'length %s' % (what, n, show(y), show(x)))

    def row(self, got, want, idx, what):
        """Compare up to permutation of the records."""
        got = to_poly(got)
        r = single(idx[0])
        found = {a for a in all_atoms(got) if is_permutation(a, idx[0])}
        if len(found) == 1:
            f, = found
            if self.rows.setdefault('order', f) != f:
                raise Mismatch('%s: records are ordered differently than those '
                    'of other data of the same file' % what)
            want = rt.substitute(want, {r: Poly({((f, 1),): Fraction(1)})})
        elif self.rows.setdefault('order', r) != r:
            raise Mismatch('%s: records are ordered differently than those '
                'of other data of the same file' % what)
        self.element(got, want, what)

def complete(v):
    """Element of nested lists of unknown depth."""
    if isinstance(v, rt.Ref) and isinstance(v.root, Target) and v.dims is None \
            and not any(isinstance(i, rt.Slice) for i in v.items) \
            and v.root.kind != 'dict' and not any(len(p) > len(v.items)
                for p, _ in v.root.stores):
        try:
            return complete(value_of(v.elem(())))
        except KeyError:
            return Poly.atom('undefined', v.key())
    return v

def is_permutation(a, i):
    return a[0] == 'el' and isinstance(a[1], tuple) and a[1] and a[1][0] == \
        'permutation' and a[2] == (i,)

def text(v):
    if isinstance(v, StrV):
        return ''.join(p[1] if p[0] == 'lit' else '{%s}' % show(p[2])
            if p[0] == 'fld' else '{...}' for p in v.parts)
    if isinstance(v, str):
        return v
    return '{%s}' % show(to_poly(v))

def enumerate_indices(dims, prefix=''):
    """Indices of representative elements; numbers are enumerated."""
    options = []
    for n, d in enumerate(dims):
        if isinstance(d, int):
            options.append([to_poly(i) for i in range(d)])
        elif isinstance(d, str) and '*' in d:
            m, d = d.split('*')
            options.append([to_poly(int(m)) * free('%s%s%d' % (prefix, d, n))
                + to_poly(i) for i in range(int(m))])
        else:
            options.append([free('%s%s%d' % (prefix, d, n))])
    return itertools.product(*options)


class Pair:
    """Writer and reader with arguments and expected results."""
    def __init__(self, name, write, args, read, rargs, check, kwargs=None,
            rkwargs=None, prepare=None):
        self.name, self.write, self.args = name, write, args
        self.read, self.rargs, self.check = read, rargs, check
        self.kwargs, self.rkwargs = kwargs or {}, rkwargs or {}
        self.prepare = prepare
        self.inplace = self.strict = False

def reset():
    for d in (rt.EXTENT, rt.FLAT, rt.COLUMNS, rt.UNIQUE, rt.RECIPROCAL,
            rt.SYMMETRIC, rt.SCALE):
        d.clear()

def run_pair(program, pair, limit=64, debug=False):
    """Evaluate pair for all outcomes of undecided conditions."""
    w = program.function(pair.write)
    r = program.function(pair.read)
    out = dict(findings=[], runs=0, elements=0, unresolved=[])
    if w is None or r is None:
        out['unresolved'].append('%s: routine not found' % pair.name)
        return out
    path = []
    for _ in range(limit):
        oracle = Oracle(path)
        reset()
        stage = 'write'
        try:
            if pair.prepare is not None:
                pair.prepare()
            m = Machine(program, oracle, mode='write')
            args, kwargs = pair.args(), pair.kwargs
            if callable(kwargs):
                kwargs = kwargs()
            m.call(w, args, kwargs)
            stage = 'read'
            m2 = Machine(program, oracle, files=m.writers, mode='read')
            rargs = pair.rargs()
            rkwargs = pair.rkwargs
            rkwargs = rkwargs() if callable(rkwargs) else dict(rkwargs)
            result = m2.call(r, rargs, rkwargs)
            stage = 'compare'
            c = Comparison()
            if pair.inplace:
                pair.check(c, result, rargs)
            else:
                pair.check(c, result)
            out['runs'] += 1
            out['elements'] += c.checked
        except Unresolved as e:
            out['unresolved'].append('%s (%s): %s' % (pair.name, stage, e))
            if debug:
                raise
        except Mismatch as e:
            out['findings'].append((stage, str(e), oracle.taken))
            if debug:
                raise
        except PyExc as e:
            if stage == 'write' and not pair.strict:
                out['unresolved'].append('%s: writer raises %s' % (pair.name,
                    e))
            else:
                out['findings'].append((stage, '%s fails with %s' % (dict(
                    write='writer', read='reader').get(stage, stage), e),
                    oracle.taken))
            if debug:
                raise
        except (RecursionError, AttributeError, TypeError, ValueError, KeyError,
                IndexError, AssertionError, ZeroDivisionError) as e:
            out['unresolved'].append('%s (%s): internal %r' % (pair.name,
                stage, e))
            if debug:
                raise
        path = oracle.following()
        if path is None:
            break
    return out

def S(name):
    return Sym(name)

def name_of_file():
    return StrV([('fld', '%s', Sym('filename'))])

# --- formats -----------------------------------------------------------------

PAIRS = []
FILE = 'filename'

def pair(*args, **kwargs):
    PAIRS.append(Pair(*args, **kwargs))

def outputs(*specs):
    """Expected results of reader."""
    def check(c, result):
        for n, s in enumerate(specs):
            if s is None:
                continue
            name, dims, rows = s
            c.array(index(result, [to_poly(n)]), name, dims, name, rows)
    return check

def scalar(name):
    return mk_el(name, ())

def A(name, *dims):
    return base(name, [int(d) if isinstance(d, int) else product_dim(d)
        for d in dims])

def product_dim(d):
    if '*' in d:
        m, d = d.split('*')
        return Poly.const(int(m)) * dim(d)
    return d

def strings(name, *dims):
    return Arr([dim(d) for d in dims], lambda idx: mk_el(name, idx), name)

pair('Hamiltonian', 'el.write_hrdat', lambda: [FILE, A('R', 'nR', 3),
    A('H', 'nR', 'no', 'no')], 'el.read_hrdat', lambda: [FILE],
    outputs(('R', ['nR', 3], True), ('H', ['nR', 'no', 'no'], True)))

def check_divided(c, result):
    c.array(index(result, [ZERO]), 'R', ['nR', 3], 'R', True)
    c.array(index(result, [ONE]), 'H', ['nR', 'no', 'no'], 'H', True,
        lambda idx: mk_el('H', idx) * rt.inverse(mk_el('ndegen', idx[:1])))

pair('Hamiltonian with degeneracies', 'el.write_hrdat', lambda: [FILE,
    A('R', 'nR', 3), A('H', 'nR', 'no', 'no'), A('ndegen', 'nR')],
    'el.read_hrdat', lambda: [FILE], check_divided)

def from_model(*args, **attrs):
    return [Obj({k: v() if callable(v) else v for k, v in attrs.items()})] \
        + list(args)

pair('Hamiltonian of model', 'el.Model.to_hrdat', lambda: from_model(
    FILE, R=A('R', 'nR', 3), data=A('H', 'nR', 'no', 'no'),
    rydberg=False), 'el.read_hrdat', lambda: [FILE],
    outputs(('R', ['nR', 3], True), ('H', ['nR', 'no', 'no'], True)))

pair('bands', 'el.write_bands', lambda: [FILE, A('k', 'nk', 3),
    A('bands', 'nb', 'nk')], 'el.read_bands', lambda: [FILE],
    outputs(('k', ['nk', 3], False), None, ('bands', ['nb', 'nk'], False)))

def check_q(c, result):
    for n in range(2):
        c.element(index(index(result, [ZERO]), [to_poly(n)]), scalar('nq'),
            'mesh')
    c.array(index(result, [ONE]), 'q', ['nQ', 2], 'q')

pair('q points', 'ph.write_q', lambda: [FILE, A('q', 'nQ', 2),
    scalar('nq')], 'ph.read_q', lambda: [FILE], check_q)

def check_flfrc(dyn, alph, epsil):
    def check(c, result):
        get = lambda n: index(result, [to_poly(n)])
        if dyn:
            c.array(index(get(0), [ZERO]), 'q', ['nQ', 3], 'q')
            c.array(index(get(0), [ONE]), 'D', ['nQ', '3*nat', '3*nat'],
                'dynamical matrix')
        else:
            c.array(get(0), 'phid', ['nat', 'nat', 'n1', 'n2', 'n3', 3, 3],
                'force constants')
        c.array(get(1), 'amass', ['nat'], 'masses')
        c.array(get(2), 'at', [3, 3], 'lattice vectors')
        c.array(get(3), 'tau', ['nat', 3], 'positions')
        c.array(get(4), 'atom_order', ['nat'], 'species')
        if alph:
            c.element(get(5), scalar('alph'), 'separation parameter')
        elif get(5) is not None:
            raise Mismatch('separation parameter: read but not written')
        if epsil:
            c.array(get(6), 'epsil', [3, 3], 'dielectric tensor')
            c.array(get(7), 'zeu', ['nat', 3, 3], 'effective charges')
        else:
            for n in (6, 7):
                if get(n) is not None:
                    raise Mismatch('dielectric properties: read but not '
                        'written')
    return check

def flfrc_args(dyn, alph, epsil):
    def args():
        out = [FILE, (A('q', 'nQ', 3), A('D', 'nQ', '3*nat', '3*nat'))
            if dyn else A('phid', 'nat', 'nat', 'n1', 'n2', 'n3', 3, 3),
            A('amass', 'nat'), A('at', 3, 3), A('tau', 'nat', 3),
            A('atom_order', 'nat')]
        if alph or epsil:
            out.append(scalar('alph') if alph else None)
        if epsil:
            out.extend([A('epsil', 3, 3), A('zeu', 'nat', 3, 3)])
        return out
    return args

for dyn, alph, epsil in [(False, False, False), (False, False, True),
        (False, True, True), (True, False, False), (True, False, True)]:
    pair('%s%s%s' % ('dynamical matrices' if dyn else 'force constants',
        ' with dielectric properties' if epsil else '',
        ' and separation parameter' if alph else ''), 'ph.write_flfrc',
        flfrc_args(dyn, alph, epsil), 'ph.read_flfrc', lambda: [FILE],
        check_flfrc(dyn, alph, epsil))

def symmetric():
    rt.SYMMETRIC['Q'] = 2, 3

pair('quadrupole tensors', 'ph.write_quadrupole_fmt', lambda: [FILE,
    A('Q', 'nat', 3, 3, 3)], 'ph.read_quadrupole_fmt', lambda: [FILE],
    lambda c, result: c.array(result, 'Q', ['nat', 3, 3, 3], 'Q'),
    prepare=symmetric)

pair('density interaction', 'elel.Model.to_Wmat', lambda: from_model(
    FILE, R=A('R', 'nR', 3), data=A('W', 'nR', 'no', 'no'),
    size=dim('no')), 'misc.read_dat_mat', lambda: [FILE],
    outputs(('R', ['nR', 3], True), ('W', ['nR', 'no', 'no'], True)))

for binary in False, True:
    pair('band Coulomb interaction' + (' (binary)' if binary else ''),
        'elel.write_band_Coulomb_interaction', lambda: [FILE, A('U',
        'nQ', 'nk', 'nk', 'nk', 'nk')], 'elel.read_band_Coulomb_interaction',
        lambda: [FILE, dim('nQ'), dim('nk')], lambda c, result:
        c.array(result, 'U', ['nQ', 'nk', 'nk', 'nk', 'nk'], 'U'),
        kwargs=dict(binary=binary), rkwargs=dict(binary=binary))

def check_wigner(divided):
    def check(c, result):
        get = lambda n: index(result, [to_poly(n)])
        for n, x in (0, 'k'), (2, 'g'):
            c.array(get(n), 'R' + x, ['nR' + x, 3], 'lattice vectors R' + x)
        if divided:
            one = lambda idx: ONE
            c.array(get(1), 'dk', [1, 1, 'nRk'], 'degeneracies dk', want=one)
            c.array(get(3), 'dg', [1, 1, 1, 'nRg'], 'degeneracies dg', want=one)
        else:
            c.array(get(1), 'dk', ['no', 'no', 'nRk'], 'degeneracies dk')
            c.array(get(3), 'dg', [1, 'no', 'nat', 'nRg'], 'degeneracies dg')
    return check

for divided in False, True:
    pair('Wigner-Seitz data of %s coupling' % ('divided' if divided
        else 'original'), 'elph.Model.to_epmatwp', lambda divided=divided:
        from_model(FILE, Rk=A('Rk', 'nRk', 3), Rg=A('Rg', 'nRg', 3),
            dk=A('dk', 'no', 'no', 'nRk'), dg=A('dg', 1, 'no', 'nat', 'nRg'),
            divide_ndegen=divided, divide_mass=False, data=A('g', 'nRg',
            '3*nat', 'nRk', 'no', 'no'), ph=Obj(dict(nat=dim('nat'),
            M=A('M', 'nat'), size=product_dim('3*nat')), 'ph'), el=Obj(dict(
            size=dim('no')), 'el')), 'bravais.read_wigner_file', lambda:
            [FILE + '.wigner'], check_wigner(divided))

def coupling(**attrs):
    return from_model(FILE, Rk=A('Rk', 'nRk', 3), Rg=A('Rg', 'nRg', 3),
        dk=A('dk', 'no', 'no', 'nRk'), dg=A('dg', 1, 'no', 'nat', 'nRg'),
        data=A('g', 'nRg', '3*nat', 'nRk', 'no', 'no'), ph=parent_ph(),
        el=parent_el(), **attrs)

def parent_ph():
    return Obj(dict(nat=dim('nat'), M=A('M', 'nat'), size=product_dim('3*nat'),
        lr=False), 'ph')

def parent_el():
    return Obj(dict(size=dim('no')), 'el')

for mass in False, True:
    pair('coupling in Wannier basis' + ' (divided by masses)' * mass,
        'elph.Model.to_epmatwp', lambda mass=mass: coupling(divide_mass=mass,
        divide_ndegen=False), 'elph.Model.__init__', lambda: [Obj({}), FILE
        + '.epmatwp'], lambda c, result, args: c.array(args[0].attrs['data'],
        'g', ['nRg', '3*nat', 'nRk', 'no', 'no'], 'g'), rkwargs=lambda
        mass=mass: dict(el=parent_el(), ph=parent_ph(), Rk=A('Rk', 'nRk', 3),
        Rg=A('Rg', 'nRg', 3), dk=A('dk', 'no', 'no', 'nRk'), dg=A('dg', 1,
        'no', 'nat', 'nRg'), divide_mass=mass, divide_ndegen=False))
    PAIRS[-1].inplace = True

for bands in False, True:
    dims = ['nQ', 'nmodes', 'nk', 'nk'] + ['nb', 'nb'] * bands
    pair('coupling in XML format' + (' (several bands)' if bands else ''),
        'elph.write_xml_files', lambda dims=dims: ['q%d.irr%d.xml', A('g',
        *dims)], 'elph.read_xml_files', lambda bands=bands: ['q%d.irr%d.xml',
        dim('nQ'), dim('nmodes'), Items(dim('nb'), lambda i: i) if bands
        else ZERO, dim('nb') if bands else ONE, dim('nk')], lambda c, result,
        dims=dims: c.array(result, 'g', dims, 'g'), rkwargs=dict(old=True,
        squeeze=not bands))

pair('array', 'elph.write_data', lambda: [FILE, A('a', 'n1', 'n2',
    'n3')], 'elph.read_data', lambda: [FILE], lambda c, result:
    c.array(result, 'a', ['n1', 'n2', 'n3'], 'a'))

def check_xsf(header):
    def check(c, result):
        get = lambda n: index(result, [to_poly(n)])
        c.array(get(0), 'r0', [3], 'origin')
        c.array(get(1), 'a', [3, 3], 'spanning vectors')
        c.array(get(2), 'X', ['nat'], 'species')
        c.array(get(3), 'tau', ['nat', 3], 'positions')
        if header:
            for n in range(3):
                c.element(index(get(4), [to_poly(n)]), dim('n%d' % n), 'shape')
        else:
            c.array(get(4), 'f', ['n0', 'n1', 'n2'], 'data')
    return check

for header in False, True:
    pair('XSF file' + ' header' * header, 'misc.write_xsf', lambda
        header=header: [FILE, A('r0', 3), A('a', 3, 3), A('X', 'nat'),
        A('tau', 'nat', 3), tuple(dim('n%d' % n) for n in range(3)) if header
        else A('f', 'n0', 'n1', 'n2')], 'misc.read_xsf', lambda:
        [FILE], check_xsf(header), kwargs=dict(only_header=header),
        rkwargs=dict(only_header=header))

pair('atomic positions', 'md.Driver.to_xyz', lambda: from_model(FILE,
    u=A('u', '3*nat'), elph=lambda: atoms_of_driver(), interactive=False),
    'md.Driver.from_xyz', lambda: from_model(FILE, u=Target([
    product_dim('3*nat')]), elph=lambda: atoms_of_driver(),
    interactive=False), None)

def atoms_of_driver():
    return Obj(dict(ph=Obj(dict(nat=dim('nat'), a=A('a', 3, 3), r=A('r', 'nat',
        3), atom_order=A('atom_order', 'nat')), 'ph')), 'elph')

def check_xyz(c, result, args):
    c.array(args[0].attrs['u'], 'u', ['3*nat'], 'displacements')

PAIRS[-1].check = check_xyz
PAIRS[-1].inplace = True

# --- input files -------------------------------------------------------------

def struct(scalars='', **arrays):
    """Dictionary of input parameters."""
    def make():
        t = Target(None, kind='dict')
        for key in scalars.split():
            t.stores.append(((key,), scalar('input ' + key)))
        for key, value in arrays.items():
            t.stores.append(((key,), value() if callable(value) else value))
        return t
    return make

def check_struct(scalars='', absent='', **dims):
    """Compare parameters."""
    def check(c, result):
        def get(key):
            try:
                v = index(result, [key])
            except (KeyError, PyExc):
                raise Mismatch('%s: is written but not read' % key)
            if isinstance(v, rt.Ref):
                try:
                    return v.elem(())
                except KeyError:
                    raise Mismatch('%s: is written but not read' % key)
                except Unresolved:
                    pass
            return v
        for key in scalars.split():
            v = get(key)
            if isinstance(v, Arr):
                v = index(v, [ZERO])
            c.element(v, scalar('input ' + key), key)
        for key, spec in dims.items():
            if callable(spec):
                spec(c, get(key))
            elif isinstance(spec, str):
                if get(key) != spec:
                    raise Mismatch('%s: read as %r but written as %r' % (key,
                        text(get(key)), spec))
            else:
                c.array(get(key), key, spec, key)
    return check

def inputs(name, write, read, scalars='', values=None, dims=None,
        minimal=None, optional=()):
    values = values or {}
    dims = dims or {}
    f = lambda: [FILE, struct(scalars, **values)()]
    pair(name, 'bravais.' + write, f, 'bravais.' + read, lambda: [FILE],
        check_struct(scalars, **dims))
    PAIRS[-1].strict = True
    numeric = [k for k in scalars.split() if 'input ' + k not in rt.STRINGS][:2]
    if numeric:
        def numbers():
            t = struct('', **{k: v for k, v in values.items() if k
                in (minimal or '').split()})()
            for k in numeric:
                t.stores.append(((k,), mk_el('numpy ' + k, ())))
            return [FILE, t]
        pair(name + ' with NumPy scalars', 'bravais.' + write, numbers,
            'bravais.' + read, lambda: [FILE], check_struct(' '.join(numeric)))
    if minimal is not None:
        few = {k: v for k, v in values.items() if k in minimal.split()}
        some = ' '.join(k for k in scalars.split() if k in minimal.split())
        pair(name + ' without optional parameters', 'bravais.' + write, lambda:
            [FILE, struct(some, **few)()], 'bravais.' + read, lambda: [FILE],
            check_struct(some, **{k: v for k, v in dims.items()
                if k in minimal.split()}))
        PAIRS[-1].strict = True

inputs('ph.x input', 'write_ph', 'read_ph', 'prefix outdir fildyn fildvscf '
    'ldisp nq1 nq2 nq3 tr2_ph alpha_mix cdfpt subspace cdfpt_bnd cdfpt_orb',
    minimal='prefix ldisp')

def check_list(c, result):
    for n in range(2):
        c.element(index(index(result, ['alpha_mix']), [to_poly(n)]), mk_el(
            'alpha', (to_poly(n),)), 'alpha_mix')

pair('ph.x input with list', 'bravais.write_ph', lambda: [FILE, struct('',
    alpha_mix=tuple(mk_el('alpha', (to_poly(n),)) for n in range(2)))()],
    'bravais.read_ph', lambda: [FILE], check_list)

inputs('q2r.x input', 'write_q2r', 'read_q2r', 'fildyn flfrc zasr', minimal='')

inputs('matdyn.x input', 'write_matdyn', 'read_matdyn', 'flfrc flfrq fldos '
    'fleig flvec asr loto_2d q_in_band_form q_in_cryst_coord', values=dict(
    nq=lambda: dim('nq'), q=lambda: A('q', 'nq', 4)), dims=dict(q=['nq', 4]),
    minimal='flfrc nq q')

inputs('epw.x input', 'write_epw', 'read_epw', 'prefix outdir dvscf_dir '
    'wannierize elph epbwrite epwwrite epbread epwread use_ws nbndsub '
    'bands_skipped dis_win_min dis_win_max dis_froz_min dis_froz_max num_iter '
    'nk1 nk2 nk3 nq1 nq2 nq3 nkf1 nkf2 nkf3 nqf1 nqf2 nqf3', values=dict(
    proj=lambda: tuple(mk_el('proj', (to_poly(n),)) for n in range(3)),
    wdata=lambda: tuple(mk_el('wdata', (to_poly(n),)) for n in range(3))),
    dims=dict(proj=[3], wdata=[3]), minimal='prefix')

def switch(name):
    """Logical value that is recognized by its first letter."""
    def check(c, got):
        want = freeze(scalar('input ' + name))
        if isinstance(got, Cond) and got.k[0] == 'in':
            c.checked += 1
            if got.k[1] in ('t', 'T', 'true', '.true.') and got.positive \
                    and freeze(got.k[2]) == want:
                return
            raise Unresolved('%s: logical value' % name)
        c.element(got, scalar('input ' + name), name)
    return check

def projections(c, got):
    for n, key in enumerate(['Mo', 'S'], 1):
        c.element(index(got, [key]), scalar('proj%d' % n), 'proj')

def k_path(c, got):
    for n in range(2):
        c.element(index(got, [to_poly(n)]), scalar('path%d' % (n + 1)),
            'kpoint_path')

WIN = ('num_bands num_wann dis_win_min dis_win_max dis_froz_min dis_froz_max '
    'dis_num_iter num_iter search_shells')

inputs('Wannier90 input', 'write_win', 'read_win', WIN, values=dict(
    proj=lambda: tuple_dict({'Mo': scalar('proj1'), 'S': scalar('proj2')}),
    kpoint_path=lambda: (scalar('path1'), scalar('path2')),
    unit_cell=lambda: A('unit_cell', 3, 3), atoms_coords='frac',
    write_hr=lambda: scalar('input write_hr'), bands_plot=lambda: scalar(
    'input bands_plot'), wannier_plot=lambda: scalar('input wannier_plot'),
    at=lambda: A('at', 'nat'), atoms=lambda: A('atoms', 'nat', 3),
    mp_grid=lambda: A('mp_grid', 3), kpoints=lambda: A('kpoints', 'nk', 4)),
    dims=dict(write_hr=switch('write_hr'), bands_plot=switch('bands_plot'),
    wannier_plot=switch('wannier_plot'), proj=projections,
    kpoint_path=k_path, unit_cell=[3, 3],
    atoms_coords='frac', at=['nat'], atoms=['nat', 3], mp_grid=[3], kpoints=['nk', 4]), minimal='num_wann unit_cell '
    'atoms_coords at atoms mp_grid kpoints')

def tuple_dict(d):
    t = Target(None, kind='dict')
    for k, v in d.items():
        t.stores.append(((k,), v))
    return t

PWI = ('title prefix outdir pseudo_dir calculation tprnfor tstress nstep '
    'forc_conv_thr ibrav ntyp nat a b c cosbc cosac cosab ecutwfc ecutrho nbnd '
    'occupations smearing degauss nosym noinv tot_charge assume_isolated '
    'nspin noncolin lspinorb tot_magnetization starting_magnetization '
    'electron_maxstep conv_thr diagonalization diago_full_acc mixing_beta '
    'startingpot startingwfc scf_must_converge')

for ktyp, k_points, dims in [('automatic', lambda: A('k_points', 6), [6]),
        ('crystal', lambda: A('k_points', 'nks', 4), ['nks', 4]),
        ('gamma', None, None)]:
    values = dict(nat=lambda: dim('nat'), ntyp=lambda: dim('ntyp'),
        at_species=lambda: A('at_species', 'ntyp'), mass=lambda: A('mass',
        'ntyp'), pp=lambda: A('pp', 'ntyp'), coords='crystal', at=lambda:
        A('at', 'nat'), r=lambda: A('r', 'nat', 3), ktyp=ktyp,
        cell_units='bohr', r_cell=lambda: A('r_cell', 3, 3),
        celldm=lambda: tuple(mk_el('celldm', (to_poly(n),)) for n in range(2)))
    expect = dict(at_species=['ntyp'], mass=['ntyp'], pp=['ntyp'],
        coords='crystal', at=['nat'], r=['nat', 3], ktyp=ktyp,
        cell_units='bohr', r_cell=[3, 3], celldm=[2])
    if k_points:
        values['k_points'] = k_points
        expect['k_points'] = dims
        if ktyp == 'crystal':
            values['nks'] = lambda: dim('nks')
    inputs('pw.x input with %s k points' % ktyp, 'write_pwi', 'read_pwi',
        ' '.join(k for k in PWI.split() if k not in values), values=values,
        dims=expect, minimal='ntyp nat at_species mass pp coords at r')
