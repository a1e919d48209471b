"""Formulas of straight numeric code, extracted by substituting definitions.

The statements of a routine are interpreted over terms: numbers stay numbers,
unknown quantities are symbols, and every operation on symbols yields a term.
Arrays are tables of terms (with views, as in NumPy). Conditions on unknown
quantities split the formula by cases. Nothing of the analysed package is
executed. What is not understood raises `Undecided`.

Terms are compared as functions: `jet` yields the value of a term and its
derivative at given values of the symbols.
"""

import ast
import cmath
import itertools
import math

from .project import Func, Module

class Undecided(Exception):
    pass

class Raised(Exception):
    """The analysed code raises an exception on this path."""

class T:
    __slots__ = 'op', 'args'
    def __init__(self, op, *args):
        self.op = op
        self.args = args
    def __repr__(self):
        if self.op == 'sym':
            return self.args[0]
        return '%s(%s)' % (self.op, ', '.join(map(repr, self.args)))

class TOP:
    pass

NUM = int, float, complex, bool

def sym(name):
    return T('sym', name)

def scalar(v):
    return isinstance(v, (T,) + NUM)

# --- values and derivatives of operations ---

INF = float('inf')
NAN = float('nan')

def cx(z):
    return z.real if isinstance(z, complex) and z.imag == 0 else z

def div(a, b):
    try:
        return a / b
    except ZeroDivisionError:
        if isinstance(a, complex) or a == 0 or a != a:
            return NAN
        return math.copysign(INF, a) * math.copysign(1, b if not
            isinstance(b, complex) else b.real)

def power(a, b):
    try:
        if isinstance(a, (int, float)) and a < 0 and isinstance(b, float) \
                and b != int(b):
            return NAN
        if isinstance(a, int) and isinstance(b, int) and b < 0:
            return float(a) ** b
        return a ** b
    except ZeroDivisionError:
        return INF
    except OverflowError:
        return INF

def wrap(f, g=None):
    def h(x):
        if isinstance(x, complex):
            if g is None:
                raise Undecided('complex argument')
            try:
                return g(x)
            except (OverflowError, ValueError):
                return NAN
        try:
            return f(x)
        except OverflowError:
            return INF
        except ValueError:
            return -INF if x == 0 and f is math.log else NAN
    return h

exp = wrap(math.exp, cmath.exp)
log = wrap(math.log, cmath.log)
sin = wrap(math.sin, cmath.sin)
cos = wrap(math.cos, cmath.cos)
tan = wrap(math.tan, cmath.tan)
cosh = wrap(math.cosh, cmath.cosh)
tanh = wrap(math.tanh, cmath.tanh)
sqrt = wrap(math.sqrt, cmath.sqrt)

def sinh(x):
    if not isinstance(x, complex) and abs(x) > 710:
        return math.copysign(INF, x)
    return wrap(math.sinh, cmath.sinh)(x)

def sgn(x):
    if isinstance(x, complex):
        raise Undecided('complex argument')
    return x if x != x else (x > 0) - (x < 0)

def re(x):
    return x.real if isinstance(x, complex) else x

def im(x):
    return x.imag if isinstance(x, complex) else 0

def conj(x):
    return x.conjugate() if isinstance(x, complex) else x

def real(*xs):
    for x in xs:
        if isinstance(x, complex):
            raise Undecided('order of complex numbers')
    return True

# op -> (value, derivative from values and derivatives)
OPS = {
    '+': (lambda a, b: a + b, lambda v, d: d[0] + d[1]),
    '-': (lambda a, b: a - b, lambda v, d: d[0] - d[1]),
    '*': (lambda a, b: a * b, lambda v, d: (d[0] * v[1] if d[0] else 0)
        + (v[0] * d[1] if d[1] else 0)),
    '/': (div, lambda v, d: (div(d[0], v[1]) if d[0] else 0)
        - (div(v[0] * d[1], v[1] * v[1]) if d[1] else 0)),
    '**': (power, lambda v, d: (v[1] * power(v[0], v[1] - 1) * d[0]
        if d[0] else 0) + (power(v[0], v[1]) * log(v[0]) * d[1]
        if d[1] else 0)),
    '//': (lambda a, b: div(a, b) // 1, lambda v, d: 0),
    '%': (lambda a, b: a % b, lambda v, d: d[0]),
    'neg': (lambda a: -a, lambda v, d: -d[0]),
    'exp': (exp, lambda v, d: d[0] * exp(v[0]) if d[0] else 0),
    'expm1': (wrap(math.expm1), lambda v, d: d[0] * exp(v[0])),
    'exp2': (lambda a: power(2.0, a), lambda v, d: d[0] * power(2.0, v[0])
        * math.log(2)),
    'log': (log, lambda v, d: div(d[0], v[0]) if d[0] else 0),
    'log1p': (wrap(math.log1p), lambda v, d: div(d[0], 1 + v[0])),
    'log2': (wrap(math.log2), lambda v, d: div(d[0], v[0] * math.log(2))),
    'log10': (wrap(math.log10), lambda v, d: div(d[0], v[0] * math.log(10))),
    'sqrt': (sqrt, lambda v, d: div(d[0], 2 * sqrt(v[0])) if d[0] else 0),
    'cbrt': (lambda a: math.copysign(abs(a) ** (1 / 3), a), lambda v, d: div(
        d[0], 3 * abs(v[0]) ** (2 / 3)) if d[0] else 0),
    'sin': (sin, lambda v, d: d[0] * cos(v[0])),
    'cos': (cos, lambda v, d: -d[0] * sin(v[0])),
    'tan': (tan, lambda v, d: d[0] * (1 + tan(v[0]) ** 2)),
    'sinh': (sinh, lambda v, d: d[0] * cosh(v[0]) if d[0] else 0),
    'cosh': (cosh, lambda v, d: d[0] * sinh(v[0]) if d[0] else 0),
    'tanh': (tanh, lambda v, d: d[0] * (1 - tanh(v[0]) ** 2)),
    'arctan': (wrap(math.atan), lambda v, d: d[0] / (1 + v[0] * v[0])),
    'arcsin': (wrap(math.asin), lambda v, d: div(d[0], sqrt(1 - v[0] ** 2))),
    'arccos': (wrap(math.acos), lambda v, d: -div(d[0], sqrt(1 - v[0] ** 2))),
    'erf': (wrap(math.erf), lambda v, d: d[0] * 2 / math.sqrt(math.pi)
        * exp(-v[0] * v[0])),
    'erfc': (wrap(math.erfc), lambda v, d: -d[0] * 2 / math.sqrt(math.pi)
        * exp(-v[0] * v[0])),
    'gamma': (wrap(math.gamma), None),
    'abs': (abs, lambda v, d: re(conj(v[0]) * d[0]) / abs(v[0]) if v[0]
        else 0),
    'sign': (sgn, lambda v, d: 0),
    'floor': (lambda a: math.floor(a), lambda v, d: 0),
    'ceil': (lambda a: math.ceil(a), lambda v, d: 0),
    'round': (lambda a: round(a), lambda v, d: 0),
    'real': (re, lambda v, d: re(d[0])),
    'imag': (im, lambda v, d: im(d[0])),
    'setreal': (lambda a, b: cx(complex(re(b), im(a))), lambda v, d: cx(
        complex(re(d[1]), im(d[0])))),
    'conj': (conj, lambda v, d: conj(d[0])),
    'angle': (lambda a: cmath.phase(a), None),
    'min': (lambda a, b: real(a, b) and min(a, b), lambda v, d: d[0]
        if v[0] < v[1] else d[1]),
    'max': (lambda a, b: real(a, b) and max(a, b), lambda v, d: d[0]
        if v[0] > v[1] else d[1]),
    'copysign': (lambda a, b: math.copysign(a, b), lambda v, d:
        d[0] * math.copysign(1, v[0]) * math.copysign(1, v[1])),
    'arctan2': (math.atan2, lambda v, d: (d[0] * v[1] - v[0] * d[1])
        / (v[0] ** 2 + v[1] ** 2)),
    'hypot': (math.hypot, lambda v, d: div(v[0] * d[0] + v[1] * d[1],
        math.hypot(*v))),
    'heaviside': (lambda a, b: b if a == 0 else float(a > 0), lambda v, d: 0),
    '<': (lambda a, b: real(a, b) and a < b, lambda v, d: 0),
    '<=': (lambda a, b: real(a, b) and a <= b, lambda v, d: 0),
    '>': (lambda a, b: real(a, b) and a > b, lambda v, d: 0),
    '>=': (lambda a, b: real(a, b) and a >= b, lambda v, d: 0),
    '==': (lambda a, b: a == b, lambda v, d: 0),
    '!=': (lambda a, b: a != b, lambda v, d: 0),
    'and': (lambda a, b: bool(a) and bool(b), lambda v, d: 0),
    'or': (lambda a, b: bool(a) or bool(b), lambda v, d: 0),
    'xor': (lambda a, b: bool(a) != bool(b), lambda v, d: 0),
    'not': (lambda a: not a, lambda v, d: 0),
    'isfinite': (lambda a: cmath.isfinite(a), lambda v, d: 0),
    'isnan': (lambda a: cmath.isnan(a), lambda v, d: 0),
    'isinf': (lambda a: cmath.isinf(a), lambda v, d: 0),
    'where': (lambda c, a, b: a if c else b, lambda v, d: d[1] if v[0]
        else d[2]),
    'float': (lambda a: a, lambda v, d: d[0]),
    'bool': (lambda a: bool(a), lambda v, d: 0),
    'int': (lambda a: int(a), lambda v, d: 0),
    'sinc': (lambda a: math.sin(math.pi * a) / (math.pi * a) if a else 1.0,
        None),
}

def apply(op, *a):
    """Term for an operation on scalars, folded if all are numbers."""
    if any(isinstance(x, T) for x in a):
        if op == '*':
            for x, y in (a, a[::-1]):
                if not isinstance(x, T):
                    if x == 0 and not isinstance(x, bool):
                        return 0.0 * x
                    if x == 1 and not isinstance(x, bool):
                        return y
        elif op == '+':
            for x, y in (a, a[::-1]):
                if not isinstance(x, T) and x == 0:
                    return y
        elif op == '-' and not isinstance(a[1], T) and a[1] == 0:
            return a[0]
        elif op == 'float':
            return a[0]
        return T(op, *a)
    try:
        return OPS[op][0](*a)
    except (OverflowError, ValueError, TypeError, ZeroDivisionError):
        raise Undecided('constant %s%r' % (op, a))

def jet(t, point, dirs, memo):
    """Value and derivative of a term."""
    if not isinstance(t, T):
        return t, 0
    if id(t) in memo:
        return memo[id(t)][1]
    if t.op == 'sym':
        if t.args[0] not in point:
            raise Undecided('symbol %s' % t.args[0])
        r = point[t.args[0]], dirs.get(t.args[0], 0)
    elif t.op == 'where':
        c = jet(t.args[0], point, dirs, memo)[0]
        r = jet(t.args[1 if c else 2], point, dirs, memo)
    else:
        stack = [x for x in t.args if isinstance(x, T)]
        for x in stack:
            jet(x, point, dirs, memo)
        pairs = [jet(x, point, dirs, memo) for x in t.args]
        v = [p[0] for p in pairs]
        d = [p[1] for p in pairs]
        f, g = OPS[t.op]
        try:
            val = f(*v)
            if any(d):
                if g is None:
                    raise Undecided('derivative of %s' % t.op)
                der = g(v, d)
            else:
                der = 0
        except (OverflowError, ValueError, TypeError, ZeroDivisionError):
            raise Undecided('%s%r' % (t.op, tuple(v)))
        r = val, der
    memo[id(t)] = t, r
    return r

def value(t, point):
    return jet(t, point, {}, {})[0]

def derivative(t, point, dirs):
    return jet(t, point, dirs, {})[1]

# --- arrays of terms ---

def size(shape):
    n = 1
    for s in shape:
        n *= s
    return n

class Arr:
    def __init__(self, buf, shape, idx=None):
        self.buf = buf
        self.shape = tuple(shape)
        self.idx = list(range(len(buf))) if idx is None else idx
        if len(self.idx) != size(self.shape):
            raise Undecided('shape')
    def items(self):
        return [self.buf[i] for i in self.idx]
    def copy(self):
        return Arr(self.items(), self.shape)
    def __len__(self):
        if not self.shape:
            raise Undecided('len of scalar')
        return self.shape[0]
    def strides(self):
        s, out = 1, []
        for n in reversed(self.shape):
            out.append(s)
            s *= n
        return out[::-1]
    def rows(self):
        n = size(self.shape[1:])
        out = []
        for i in range(self.shape[0]):
            a = Arr(self.buf, self.shape[1:], self.idx[i * n:(i + 1) * n])
            out.append(a if a.shape else a.items()[0])
        return out
    def get(self, *where):
        k = 0
        for w, s in zip(where, self.strides()):
            k += w * s
        return self.buf[self.idx[k]]
    def transpose(self, axes=None):
        axes = list(range(len(self.shape)))[::-1] if axes is None else [a %
            len(self.shape) for a in axes]
        st = self.strides()
        shape = [self.shape[a] for a in axes]
        idx = [self.idx[sum(k * st[a] for k, a in zip(w, axes))]
            for w in itertools.product(*map(range, shape))]
        return Arr(self.buf, shape, idx)
    def reshape(self, shape):
        shape = list(shape)
        if -1 in shape:
            k = shape.index(-1)
            rest = size([s for s in shape if s != -1])
            shape[k] = len(self.idx) // rest if rest else 0
        return Arr(self.buf, shape, self.idx)
    def __repr__(self):
        return 'Arr%r' % (self.shape,)

def nest(v):
    """Shape and flat list of nested sequences."""
    if isinstance(v, Arr):
        return v.shape, v.items()
    if isinstance(v, (list, tuple, range)):
        parts = [nest(x) for x in v]
        if len({s for s, _ in parts}) > 1:
            raise Undecided('ragged')
        s = parts[0][0] if parts else ()
        return (len(parts),) + tuple(s), [x for _, p in parts for x in p]
    if scalar(v):
        return (), [v]
    raise Undecided('array of %s' % type(v).__name__)

def array(v):
    shape, flat = nest(v)
    return Arr(list(flat), shape)

def simple(a):
    return a.items()[0] if isinstance(a, Arr) and a.shape == () else a

def broadcast(op, *vals):
    """Elementwise operation."""
    if all(scalar(v) for v in vals):
        return op(*vals)
    arrs = []
    for v in vals:
        if isinstance(v, Masked):
            v = v.arr
        arrs.append(array(v) if not isinstance(v, Arr) else v)
    n = max(len(a.shape) for a in arrs)
    shapes = [(1,) * (n - len(a.shape)) + a.shape for a in arrs]
    shape = []
    for dims in zip(*shapes):
        big = {d for d in dims if d != 1}
        if len(big) > 1:
            raise Undecided('broadcast')
        shape.append(big.pop() if big else 1)
    cols = []
    for a, s in zip(arrs, shapes):
        st, k = [], 1
        for d in reversed(s):
            st.append(0 if d == 1 else k)
            k *= d
        st.reverse()
        items = a.items()
        cols.append([items[sum(w * x for w, x in zip(where, st))]
            for where in itertools.product(*map(range, shape))])
    out = Arr([op(*x) for x in zip(*cols)], shape)
    if any(isinstance(v, Masked) for v in vals):
        return Masked(out)
    return simple(out)

class Floats(list):
    """Data of an array of real numbers: imaginary parts are dropped."""
    def __setitem__(self, k, v):
        list.__setitem__(self, k, apply('real', v) if isinstance(v, (T,
            complex)) else v)

class Ints(list):
    """Data of an array of integers: fractions are dropped."""
    def __setitem__(self, k, v):
        list.__setitem__(self, k, apply('int', v) if isinstance(v, (T,
            float, complex)) else v)

class Complexes(list):
    """Data of an array of complex numbers."""

class Masked:
    """Selection of elements that fulfil an unknown condition."""
    def __init__(self, arr):
        self.arr = arr

def elementwise(name):
    return lambda *a: broadcast(lambda *x: apply(name, *x), *a)

def reduce(a, f, start, axis=None, keepdims=False):
    if isinstance(a, Masked):
        raise Undecided('reduction of selection')
    a = a if isinstance(a, Arr) else array(a)
    if axis is None:
        axes = list(range(len(a.shape)))
    elif isinstance(axis, tuple):
        axes = [x % len(a.shape) for x in axis]
    else:
        if not a.shape:
            raise Undecided('axis')
        axes = [axis % len(a.shape)]
    keep = [x for x in range(len(a.shape)) if x not in axes]
    out = []
    for w in itertools.product(*[range(a.shape[x]) for x in keep]):
        r = start
        for v in itertools.product(*[range(a.shape[x]) for x in axes]):
            where = [0] * len(a.shape)
            for x, k in zip(keep, w):
                where[x] = k
            for x, k in zip(axes, v):
                where[x] = k
            e = a.get(*where)
            r = e if r is None else f(r, e)
        out.append(r)
    shape = [1 if x in axes else a.shape[x] for x in range(len(a.shape))] \
        if keepdims else [a.shape[x] for x in keep]
    return simple(Arr(out, shape))

ADD = lambda x, y: apply('+', x, y)
MUL = lambda x, y: apply('*', x, y)

def fourier(kind, a, n=None, axis=-1, axes=None, norm=None, s=None):
    """Discrete Fourier transform."""
    a = a if isinstance(a, Arr) else array(a)
    if n is not None or s is not None or norm not in (None, 'backward',
            'forward', 'ortho'):
        raise Undecided(kind)
    d = len(a.shape)
    if kind.endswith('fft'):
        axes = [axis]
    elif axes is None:
        axes = range(d) if kind.endswith('n') else (-2, -1)
    axes = [x % d for x in axes]
    sign = 1 if kind.startswith('i') else -1
    total = 1
    for x in axes:
        total *= a.shape[x]
        m = a.shape[x]
        roots = [cmath.exp(sign * 2j * math.pi * k / m) for k in range(m)]
        out = []
        for w in itertools.product(*map(range, a.shape)):
            r = 0
            for k in range(m):
                e = a.get(*w[:x], k, *w[x + 1:])
                z = roots[k * w[x] % m]
                r = apply('+', r, e if k * w[x] % m == 0 else apply('*', z, e))
            out.append(r)
        a = Arr(out, a.shape)
    scale = {None: 'i', 'backward': 'i', 'forward': 'f', 'ortho': 'o'}[norm]
    if scale == 'o':
        return broadcast(lambda y: apply('/', y, math.sqrt(total)), a)
    if (scale == 'i') == kind.startswith('i'):
        return broadcast(lambda y: apply('/', y, total), a)
    return a

def einsum(spec, *ops):
    spec = spec.replace(' ', '')
    ops = [o if isinstance(o, Arr) else array(o) for o in ops]
    left, _, right = spec.partition('->')
    ins = left.split(',')
    if '.' in spec:
        if '->' not in spec or len(ins) != len(ops):
            raise Undecided('einsum')
        more = [len(o.shape) - len(s.replace('...', '')) if '...' in s else 0
            for s, o in zip(ins, ops)]
        dots = [chr(0x391 + i) for i in range(max(more))]
        ins = [s.replace('...', ''.join(dots[len(dots) - n:])) for s, n in
            zip(ins, more)]
        right = right.replace('...', ''.join(dots))
        if any('.' in s for s in ins + [right]):
            raise Undecided('einsum')
    if '->' not in spec:
        letters = left.replace(',', '')
        right = ''.join(sorted(c for c in set(letters) if letters.count(c)
            == 1))
    if len(ins) != len(ops):
        raise Undecided('einsum')
    dims = {}
    for s, o in zip(ins, ops):
        if len(s) != len(o.shape):
            raise Undecided('einsum')
        for c, n in zip(s, o.shape):
            if dims.setdefault(c, n) != n:
                raise Undecided('einsum')
    inner = [c for c in dims if c not in right]
    if size(dims.values()) > 200000:
        raise Undecided('einsum size')
    out = []
    for w in itertools.product(*[range(dims[c]) for c in right]):
        at = dict(zip(right, w))
        r = 0
        for v in itertools.product(*[range(dims[c]) for c in inner]):
            at.update(zip(inner, v))
            p = 1
            for s, o in zip(ins, ops):
                p = apply('*', p, o.get(*[at[c] for c in s]))
            r = apply('+', r, p)
        out.append(r)
    return simple(Arr(out, [dims[c] for c in right]))

def dot(a, b):
    a = a if isinstance(a, Arr) else array(a)
    b = b if isinstance(b, Arr) else array(b)
    if not a.shape or not b.shape:
        return broadcast(MUL, simple(a), simple(b))
    x = 'abcdefg'[:len(a.shape) - 1]
    y = 'nopqrst'[:len(b.shape)]
    y = y[:-1] if len(b.shape) > 1 else ''
    second = y[:-1] + 'z' + y[-1:] if y else 'z'
    return einsum('%sz,%s->%s%s' % (x, second, x, y), a, b)

def matmul(a, b):
    a = a if isinstance(a, Arr) else array(a)
    b = b if isinstance(b, Arr) else array(b)
    if len(a.shape) <= 2 and len(b.shape) <= 2:
        return dot(a, b)
    if len(a.shape) == len(b.shape):
        n = len(a.shape) - 2
        s = 'abcdef'[:n]
        if a.shape[:n] == b.shape[:n]:
            return einsum('%sxy,%syz->%sxz' % (s, s, s), a, b)
    if len(a.shape) == 2:
        s = 'abcdef'[:len(b.shape) - 2]
        return einsum('xy,%syz->%sxz' % (s, s), a, b)
    if len(b.shape) == 2:
        s = 'abcdef'[:len(a.shape) - 2]
        return einsum('%sxy,yz->%sxz' % (s, s), a, b)
    raise Undecided('matmul')

# --- interpreter ---

class Ext:
    def __init__(self, dotted):
        self.dotted = dotted

class Mod:
    def __init__(self, name):
        self.name = name

class Fn:
    def __init__(self, node, module, env, name, bound=None, cls=None):
        self.node = node
        self.module = module
        self.env = env
        self.name = name
        self.attrs = {}
        self.bound = bound

class Obj:
    """Stand-in for an object of a class with given attributes."""
    def __init__(self, cls, attrs):
        self.cls = cls
        self.attrs = attrs

class Comm:
    """Stand-in for the communicator of a single process."""

class Cls:
    """Class of the package that can be instantiated."""
    def __init__(self, cls):
        self.cls = cls

class Dummy:
    """Stand-in for an object without influence on data."""

class Bound:
    def __init__(self, value, attr):
        self.value = value
        self.attr = attr

class Env:
    def __init__(self, names, parent=None):
        self.names = names
        self.parent = parent
    def get(self, name):
        e = self
        while e is not None:
            if name in e.names:
                return e.names[name]
            e = e.parent
        return None

class Stop(Exception):
    pass

class Limit(Exception):
    """Enough values of a generator."""

BIN = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.Pow: '**',
    ast.FloorDiv: '//', ast.Mod: '%', ast.BitAnd: 'and', ast.BitOr: 'or',
    ast.BitXor: 'xor'}

CMP = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==',
    ast.NotEq: '!='}

UNARY = '''exp expm1 exp2 log log1p log2 log10 sqrt cbrt sin cos tan sinh cosh
tanh arctan arcsin arccos sign floor ceil real imag conj angle isfinite isnan
isinf sinc'''.split()

ALIAS = {'absolute': 'abs', 'fabs': 'abs', 'conjugate': 'conj', 'atan':
    'arctan', 'asin': 'arcsin', 'acos': 'arccos', 'atan2': 'arctan2',
    'minimum': 'min', 'maximum': 'max', 'fmin': 'min', 'fmax': 'max',
    'add': '+', 'subtract': '-', 'multiply': '*', 'divide': '/',
    'true_divide': '/', 'power': '**', 'float_power': '**', 'pow': '**',
    'floor_divide': '//', 'mod': '%', 'remainder': '%', 'fmod': '%',
    'negative': 'neg', 'less': '<', 'less_equal': '<=', 'greater': '>',
    'greater_equal': '>=', 'equal': '==', 'not_equal': '!=', 'logical_and':
    'and', 'logical_or': 'or', 'logical_xor': 'xor', 'logical_not': 'not',
    'invert': 'not', 'around': 'round', 'rint': 'round', 'trunc': 'int'}

BINARY = ['copysign', 'arctan2', 'hypot', 'heaviside']

class Formulas:
    MAXSTEPS = 400000

    def __init__(self, project):
        self.project = project
        self.modules = {}
        self.overrides = {}   # (function name, attribute) -> value
        self.decisions = []
        self.cursor = 0
        self.path = []
        self.steps = 0
        self.depth = 0
        self.yields = []
        self.stubs = {}       # (module, function) -> replacement
        self.classes = False  # instantiate classes?
        self.generic = False  # take data to be nonzero?
        self.letters = None   # initials of complex data
        self.point = None     # consider only the case of this point
        self.memo = {}
        self.trying = 0
        self.vectors = []     # vectorized functions
        self.misused = False  # sequence indexed like an array?

    # --- modules ---

    def module(self, name):
        m = self.project.modules.get(name)
        if m is None:
            return None
        if name not in self.modules:
            env = Env({})
            self.modules[name] = env
            env.module = m
            self.toplevel(m.tree.body, env, m)
            if self.classes:
                for x in 'comm', 'I':
                    if x in env.names:
                        env.names[x] = Comm()
        return self.modules[name]

    def toplevel(self, body, env, m):
        for n in body:
            try:
                if isinstance(n, ast.Try):
                    self.toplevel(n.body, env, m)
                    continue
                if isinstance(n, ast.If) and 'name__' in ast.dump(n.test):
                    continue
                if isinstance(n, ast.ClassDef):
                    env.names[n.name] = Cls(m.classes[n.name]) \
                        if self.classes and n.name in m.classes else TOP
                    continue
                self.stmt(n, env, m)
            except (Undecided, Raised, RecursionError):
                for x in ast.walk(n):
                    if isinstance(x, ast.Name) and isinstance(x.ctx,
                            ast.Store):
                        env.names[x.id] = TOP
                    if isinstance(x, (ast.FunctionDef, ast.Lambda)):
                        break
                # changes in place of what cannot be followed
                if not isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    for x in ast.walk(n):
                        if isinstance(x, (ast.Subscript, ast.Attribute)) \
                                and isinstance(x.ctx, ast.Store) \
                                and isinstance(x.value, ast.Name) \
                                and isinstance(env.names.get(x.value.id),
                                Arr):
                            env.names[x.value.id] = TOP

    def global_(self, short, name):
        env = self.module(self.full(short))
        if env is None:
            raise Undecided('module %s' % short)
        v = env.names.get(name)
        if v is None:
            raise Undecided('%s.%s' % (short, name))
        return v

    def full(self, short):
        for name, m in self.project.modules.items():
            if m.short == short:
                return name
        return short

    # --- calling ---

    def cases(self, call, limit=64):
        """All cases of a formula: list of (conditions, result)."""
        out, pending = [], [[]]
        while pending:
            self.decisions = pending.pop()
            self.cursor = 0
            self.path = []
            self.yields = []
            self.depth = 0
            given = len(self.decisions)
            try:
                v = call()
            except Raised:
                v = Raised
            except RecursionError:
                raise Undecided('recursion')
            out.append((list(self.path), v))
            for i in range(given, len(self.path)):
                pending.append([t for _, t in self.path[:i]] + [not
                    self.path[i][1]])
            if len(out) + len(pending) > limit:
                raise Undecided('too many cases')
        return out

    def truth(self, v):
        if isinstance(v, Arr):
            if len(v.idx) != 1:
                raise Undecided('truth of array')
            v = v.items()[0]
        if isinstance(v, T) and self.generic:
            g = generic(v)
            if g is not None:
                return g
        if isinstance(v, T) and self.point is not None:
            return bool(self.number(v))
        if isinstance(v, T):
            if self.cursor < len(self.decisions):
                r = self.decisions[self.cursor]
            else:
                r = True
            self.cursor += 1
            self.path.append((v, r))
            return r
        if v is TOP or isinstance(v, (Masked, Obj, Comm)):
            raise Undecided('truth')
        if isinstance(v, (Fn, Ext, Mod)):
            return True
        return bool(v)

    def call(self, f, args, kwargs=None):
        kwargs = kwargs or {}
        if isinstance(f, (Cls, Fn)) and self.stubs:
            m = f.cls.module if isinstance(f, Cls) else f.module
            stub = self.stubs.get((m.short, f.cls.name if isinstance(f, Cls)
                else f.name))
            if stub is not None and getattr(f, 'bound', None) is None:
                return stub(*args, **kwargs)
        if isinstance(f, Cls):
            obj = Obj(f.cls, {})
            init = f.cls.methods.get('__init__')
            if init is not None:
                self.invoke(Fn(init.node, init.module, self.module(
                    init.module.name), init.name, bound=obj), args, kwargs)
            return obj
        if isinstance(f, Dummy):
            return None
        if hasattr(f, '__call__') and not isinstance(f, (Fn, Bound, Ext)):
            return f(*args, **kwargs)
        if isinstance(f, Fn) and f in self.vectors and not kwargs:
            lists = [array(x) if isinstance(x, (list, tuple)) else x for x in
                args]
            shapes = {x.shape for x in lists if isinstance(x, Arr) and x.shape}
            if len(shapes) == 1:
                return Arr([self.invoke(f, [x if not isinstance(x, Arr) else
                    x.items()[i if x.shape else 0] for x in lists], {}) for i
                    in range(size(*shapes))], *shapes)
            if shapes:
                raise Undecided('vectorize')
        if isinstance(f, Fn):
            return self.invoke(f, args, kwargs)
        if isinstance(f, Bound):
            return self.method(f.value, f.attr, args, kwargs)
        if isinstance(f, Ext):
            return self.library(f.dotted, args, kwargs)
        raise Undecided('call of %s' % type(f).__name__)

    def invoke(self, f, args, kwargs):
        a = f.node.args
        if f.bound is not None:
            args = [f.bound] + list(args)
        names = [x.arg for x in a.posonlyargs + a.args]
        local = {}
        local.update(zip(names, args))
        if len(args) > len(names):
            if not a.vararg:
                raise Undecided('arguments')
            local[a.vararg.arg] = tuple(args[len(names):])
        elif a.vararg:
            local[a.vararg.arg] = ()
        extra = {}
        for k, v in kwargs.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                if k in local:
                    raise Undecided('arguments')
                local[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                raise Undecided('arguments')
        if a.kwarg:
            local[a.kwarg.arg] = extra
        home = Env(local, f.env)
        for name, d in list(zip(names[len(names) - len(a.defaults):],
                a.defaults)) + [(k.arg, d) for k, d in zip(a.kwonlyargs,
                a.kw_defaults) if d is not None]:
            if name not in local:
                local[name] = self.eval(d, f.env, f.module)
        for name in names:
            if name not in local:
                raise Undecided('missing argument')
        if isinstance(f.node, ast.Lambda):
            return self.eval(f.node.body, home, f.module)
        self.depth += 1
        if self.depth > 40:
            raise Undecided('depth')
        try:
            if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own(
                    f.node)):
                self.yields.append([])
                try:
                    self.block(f.node.body, home, f.module)
                except Limit:
                    pass
                return iter(self.yields.pop())
            r = self.block(f.node.body, home, f.module)
            return r[1] if r and r[0] == 'return' else None
        finally:
            self.depth -= 1

    # --- statements ---

    def block(self, body, env, m):
        for n in body:
            r = self.stmt(n, env, m)
            if r is not None:
                return r

    def stmt(self, n, env, m):
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise Undecided('too many steps')
        f = getattr(self, 's_' + type(n).__name__, None)
        if f is None:
            raise Undecided(type(n).__name__)
        return f(n, env, m)

    def s_Pass(self, n, env, m):
        pass

    s_Global = s_Nonlocal = s_Assert = s_Delete = s_Pass

    def s_Expr(self, n, env, m):
        if isinstance(n.value, ast.Constant):
            return
        self.eval(n.value, env, m)

    def s_Return(self, n, env, m):
        return 'return', None if n.value is None else self.eval(n.value, env,
            m)

    def s_Break(self, n, env, m):
        return 'break', None

    def s_Continue(self, n, env, m):
        return 'continue', None

    def s_Raise(self, n, env, m):
        raise Raised

    def s_FunctionDef(self, n, env, m):
        if n.decorator_list:
            raise Undecided('decorator')
        f = Fn(n, m, env, n.name)
        env.names[n.name] = f

    def s_Import(self, n, env, m):
        for a in n.names:
            if a.asname:
                env.names[a.asname] = self.imported(a.name)
            else:
                top = a.name.split('.')[0]
                env.names[top] = self.imported(top)

    def imported(self, dotted):
        if dotted in self.project.modules or any(x.startswith(dotted + '.')
                for x in self.project.modules):
            return Mod(dotted)
        return Ext(dotted)

    def s_ImportFrom(self, n, env, m):
        base = n.module or ''
        if n.level:
            parts = m.name.split('.')
            if not m.path.endswith('__init__.py'):
                parts = parts[:-1]
            parts = parts[:len(parts) - n.level + 1]
            base = '.'.join(parts + ([n.module] if n.module else []))
        for a in n.names:
            if a.name == '*':
                raise Undecided('star import')
            v = self.imported(base + '.' + a.name)
            if isinstance(v, Ext) and base in self.project.modules:
                e = self.module(base)
                v = e.names.get(a.name, TOP)
            env.names[a.asname or a.name] = v

    def s_If(self, n, env, m):
        if self.truth(self.eval(n.test, env, m)):
            return self.block(n.body, env, m)
        return self.block(n.orelse, env, m)

    def s_With(self, n, env, m):
        for item in n.items:
            c = item.context_expr
            v = self.eval(c.func, env, m) if isinstance(c, ast.Call) else None
            if not (isinstance(v, Ext) and v.dotted.endswith(('errstate',
                    'catch_warnings'))):
                raise Undecided('with')
        return self.block(n.body, env, m)

    def s_Try(self, n, env, m):
        try:
            self.trying += 1
            try:
                r = self.block(n.body, env, m)
            finally:
                self.trying -= 1
        except Raised as e:
            for h in n.handlers:
                if e.args and isinstance(h.type, ast.Name) and h.type.id in (
                        e.args[0], 'LookupError', 'Exception'):
                    return self.block(h.body + n.finalbody, env, m)
            raise
        return r or self.block(n.orelse + n.finalbody, env, m)

    def iterate(self, v):
        if isinstance(v, Arr):
            return v.rows()
        if isinstance(v, (list, tuple, range, dict, str, set)):
            return list(v)
        if hasattr(v, '__next__'):
            return v
        raise Undecided('iteration over %s' % type(v).__name__)

    def s_For(self, n, env, m):
        for i, x in enumerate(self.iterate(self.eval(n.iter, env, m))):
            if i > 2000:
                raise Undecided('long loop')
            self.assign(n.target, x, env, m)
            r = self.block(n.body, env, m)
            if r is not None:
                if r[0] == 'break':
                    return
                if r[0] == 'return':
                    return r
        return self.block(n.orelse, env, m)

    def s_While(self, n, env, m):
        for i in range(200):
            if not self.truth(self.eval(n.test, env, m)):
                return self.block(n.orelse, env, m)
            r = self.block(n.body, env, m)
            if r is not None:
                if r[0] == 'break':
                    return
                if r[0] == 'return':
                    return r
        raise Undecided('long loop')

    def s_Assign(self, n, env, m):
        v = self.eval(n.value, env, m)
        for t in n.targets:
            self.assign(t, v, env, m)

    def s_AnnAssign(self, n, env, m):
        if n.value is not None:
            self.assign(n.target, self.eval(n.value, env, m), env, m)

    def s_AugAssign(self, n, env, m):
        op = type(n.op)
        if isinstance(n.target, ast.Name):
            old = self.eval(load(n.target), env, m)
            v = self.eval(n.value, env, m)
            new = self.binary(op, old, v)
            if isinstance(old, Arr) and not isinstance(new, Arr):
                new = array(new)
            if isinstance(old, Arr) and new.shape == old.shape:
                for i, x in zip(old.idx, new.items()):
                    old.buf[i] = x
            elif isinstance(old, list) and isinstance(new, list):
                old[:] = new
            else:
                e = env
                env.names[n.target.id] = new
        else:
            old = self.eval(load(n.target), env, m)
            v = self.eval(n.value, env, m)
            new = self.binary(op, old, v)
            if isinstance(old, Arr):
                new = new if isinstance(new, Arr) else array(new)
                if new.shape == old.shape:
                    for i, x in zip(old.idx, new.items()):
                        old.buf[i] = x
                    new = old
            elif isinstance(old, list) and isinstance(new, list):
                old[:] = new
                new = old
            self.assign(n.target, new, env, m)

    def assign(self, t, v, env, m):
        if isinstance(t, ast.Name):
            env.names[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = list(self.iterate(v))
            stars = [i for i, e in enumerate(t.elts) if isinstance(e,
                ast.Starred)]
            if stars:
                i = stars[0]
                rest = len(t.elts) - i - 1
                if len(items) < len(t.elts) - 1:
                    raise Undecided('unpacking')
                items = items[:i] + [items[i:len(items) - rest]] \
                    + items[len(items) - rest:]
            if len(items) != len(t.elts):
                raise Undecided('unpacking')
            for e, x in zip(t.elts, items):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x,
                    env, m)
        elif isinstance(t, ast.Subscript):
            base = self.eval(t.value, env, m)
            k = self.eval(t.slice, env, m)
            self.store(base, k, v)
        elif isinstance(t, ast.Attribute):
            base = self.eval(t.value, env, m)
            if isinstance(base, Fn):
                base.attrs[t.attr] = v
            elif isinstance(base, Obj):
                base.attrs[t.attr] = v
            elif isinstance(base, Arr) and t.attr in ('real', 'imag'):
                new = broadcast(lambda a, b: apply('setreal', a, b) if t.attr
                    == 'real' else apply('+', apply('real', a), apply('*', 1j,
                    b)), base, v)
                new = new if isinstance(new, Arr) else array(new)
                if len(new.idx) != len(base.idx):
                    raise Undecided('shape')
                for i, x in zip(base.idx, new.items()):
                    base.buf[i] = x
            else:
                raise Undecided('attribute')
        else:
            raise Undecided('target')

    def store(self, base, k, v):
        if isinstance(base, (list, dict)):
            if isinstance(k, (T, Arr)):
                raise Undecided('index')
            try:
                base[k] = v
            except (TypeError, IndexError, ValueError):
                raise Undecided('index')
            return
        if not isinstance(base, Arr):
            raise Undecided('store')
        if boolean(k):
            mask = k if isinstance(k, Arr) else array(k)
            val = v.arr if isinstance(v, Masked) else v
            shape = mask.shape + (1,) * (len(base.shape) - len(mask.shape))
            new = broadcast(lambda c, a, b: apply('where', c, a, b)
                if isinstance(c, T) else (a if c else b),
                mask.reshape(shape), val, base)
            new = new if isinstance(new, Arr) else array(new)
            if new.shape != base.shape:
                raise Undecided('shape')
            for i, x in zip(base.idx, new.items()):
                base.buf[i] = x
            return
        view = self.select(base, k)
        if not isinstance(view, Arr):
            raise Undecided('store')
        new = broadcast(lambda a, b: b, view, v)
        new = new if isinstance(new, Arr) else array(new)
        if len(new.idx) != len(view.idx):
            raise Undecided('shape')
        for i, x in zip(view.idx, new.items()):
            base.buf[i] = x

    # --- indexing ---

    def select(self, base, k):
        """View of (or selection from) an array, without unpacking."""
        ks = list(k) if isinstance(k, tuple) else [k]
        if any(x is Ellipsis for x in ks):
            i = [x is Ellipsis for x in ks].index(True)
            given = sum(x is not None and x is not Ellipsis for x in ks)
            ks[i:i + 1] = [slice(None)] * (len(base.shape) - given)
        axes, shape, fancy = [], [], []
        dim = 0
        for x in ks:
            if x is None:
                axes.append(('new',))
                continue
            if dim >= len(base.shape):
                raise Undecided('too many indices')
            n = base.shape[dim]
            if isinstance(x, slice):
                try:
                    axes.append(('slice', dim, list(range(n))[x]))
                except TypeError:
                    raise Undecided('slice')
            elif isinstance(x, bool) or isinstance(x, (T, float, complex)):
                raise Undecided('index')
            elif isinstance(x, int):
                if not -n <= x < n:
                    self.misused = 'range'
                    raise Undecided('index out of range')
                axes.append(('int', dim, x % n))
            elif isinstance(x, (list, Arr, range, tuple)):
                x = list(x) if isinstance(x, tuple) else x
                x = list(x.items()) if isinstance(x, Arr) and len(x.shape) \
                    == 1 else x
                if not isinstance(x, (list, range)) or not all(isinstance(i,
                        int) and not isinstance(i, bool) and -n <= i < n
                        for i in x):
                    raise Undecided('index')
                axes.append(('fancy', dim, [i % n for i in x]))
                fancy.append(len(x))
            else:
                raise Undecided('index')
            dim += 1
        at = [i for i, a in enumerate(axes) if a[0] in ('fancy', 'int')]
        if fancy and len(at) > 1:
            # pointwise selection
            n = max(fancy)
            if any(m not in (1, n) for m in fancy):
                raise Undecided('index')
            st = base.strides()
            pick = []
            for l in range(n):
                k = 0
                for i in at:
                    a = axes[i]
                    k += st[a[1]] * (a[2] if a[0] == 'int' else a[2][l
                        if len(a[2]) > 1 else 0])
                pick.append(k)
            first = at[0] if at == list(range(at[0], at[-1] + 1)) else 0
            rest = [a for i, a in enumerate(axes) if i not in at]
            axes = rest[:first] + [('offset', None, pick)] + rest[first:]
        for d in range(dim, len(base.shape)):
            axes.append(('slice', d, list(range(base.shape[d]))))
        st = base.strides()
        idx, shape = [0], []
        for a in axes:
            if a[0] == 'new':
                shape.append(1)
            elif a[0] == 'int':
                idx = [i + a[2] * st[a[1]] for i in idx]
            elif a[0] == 'offset':
                shape.append(len(a[2]))
                idx = [i + j for i in idx for j in a[2]]
            else:
                shape.append(len(a[2]))
                idx = [i + j * st[a[1]] for i in idx for j in a[2]]
        return Arr(base.buf, shape, [base.idx[i] for i in idx])

    def index(self, base, k):
        if isinstance(base, Arr):
            if boolean(k):
                mask = k if isinstance(k, Arr) else array(k)
                if any(isinstance(c, T) for c in mask.items()):
                    return Masked(base.copy())
                if mask.shape != base.shape[:len(mask.shape)]:
                    raise Undecided('mask')
                n = size(base.shape[len(mask.shape):])
                out = []
                for i, c in enumerate(mask.items()):
                    if c:
                        out += base.items()[i * n:(i + 1) * n]
                return Arr(out, (sum(map(bool, mask.items())),)
                    + base.shape[len(mask.shape):])
            v = self.select(base, k)
            if any(isinstance(x, (list, Arr, range, tuple)) for x in (k if isinstance(
                    k, tuple) else [k])):
                v = v.copy()
            return simple(v) if v.shape == () else v
        if isinstance(base, (list, tuple, str, dict, range)):
            if isinstance(k, (T, Arr)):
                raise Undecided('index')
            if isinstance(base, (list, tuple)) and isinstance(k, tuple):
                self.misused = True
                raise Raised
            try:
                return base[k]
            except KeyError:
                raise Raised('KeyError')
            except IndexError:
                if self.trying:
                    raise Raised('IndexError')
                raise Undecided('index')
            except TypeError:
                raise Undecided('index')
        if isinstance(base, Ext) and base.dotted == 'numpy.mgrid':
            ks = k if isinstance(k, tuple) else (k,)
            if not all(isinstance(x, slice) and isinstance(x.stop, int)
                    and isinstance(x.start or 0, int) and isinstance(x.step
                    or 1, int) for x in ks):
                raise Undecided('mesh')
            rs = [range(x.start or 0, x.stop, x.step or 1) for x in ks]
            pts = list(itertools.product(*rs))
            return Arr([p[i] for i in range(len(ks)) for p in pts], (len(ks),)
                + tuple(map(len, rs)))
        raise Undecided('index of %s' % type(base).__name__)

    # --- expressions ---

    def eval(self, e, env, m):
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise Undecided('too many steps')
        f = getattr(self, 'e_' + type(e).__name__, None)
        if f is None:
            raise Undecided(type(e).__name__)
        return f(e, env, m)

    def e_Constant(self, e, env, m):
        return e.value

    def e_Name(self, e, env, m):
        x = env
        while x is not None:
            if e.id in x.names:
                v = x.names[e.id]
                if v is TOP:
                    raise Undecided('value of %s' % e.id)
                return v
            x = x.parent
        if e.id in BUILTINS:
            return Ext('builtins.' + e.id)
        raise Undecided('name %s' % e.id)

    def e_NamedExpr(self, e, env, m):
        v = self.eval(e.value, env, m)
        env.names[e.target.id] = v
        return v

    def e_Attribute(self, e, env, m):
        v = self.eval(e.value, env, m)
        return self.attribute(v, e.attr)

    def attribute(self, v, attr):
        if isinstance(v, Mod):
            dotted = v.name + '.' + attr
            if isinstance(self.imported(dotted), Mod):
                return Mod(dotted)
            e = self.module(v.name)
            if e is not None and attr in e.names:
                if e.names[attr] is TOP:
                    raise Undecided(dotted)
                return e.names[attr]
            raise Undecided(dotted)
        if isinstance(v, Ext):
            d = v.dotted + '.' + attr
            if attr == 'itemsize' and d.split('.')[0] == 'dtype':
                return {'complex': 16, 'float': 8, 'int': 8, 'complex128': 16,
                    'float64': 8, 'int64': 8}.get(d.split('.')[1], 8)
            if d.split('.')[0] in ('numpy', 'math', 'cmath', 'scipy'):
                if attr == 'pi':
                    return math.pi
                if attr in ('inf', 'Inf', 'infty'):
                    return INF
                if attr == 'nan':
                    return NAN
                if attr == 'e':
                    return math.e
                if attr == 'newaxis':
                    return None
            return Ext(d)
        if isinstance(v, Fn):
            k = v.name, attr
            if k in self.overrides:
                return self.overrides[k]
            if attr in v.attrs:
                return v.attrs[attr]
            raise Undecided('attribute %s of %s' % (attr, v.name))
        if isinstance(v, Obj):
            if attr in v.attrs:
                return v.attrs[attr]
            f = v.cls.methods.get(attr) if v.cls is not None else None
            if f is not None:
                return Fn(f.node, f.module, self.module(f.module.name),
                    f.name, bound=v)
            raise Undecided('attribute %s' % attr)
        if isinstance(v, Dummy):
            return v
        if isinstance(v, Comm):
            return {'rank': 0, 'size': 1}.get(attr, Bound(v, attr))
        if isinstance(v, Arr):
            if attr == 'shape':
                return v.shape
            if attr == 'size':
                return len(v.idx)
            if attr == 'ndim':
                return len(v.shape)
            if attr == 'T':
                return v.transpose()
            if attr in ('real', 'imag'):
                return elementwise(attr)(v)
            if attr == 'dtype':
                return Ext('dtype' if self.letters is None else 'dtype.'
                    + self.kind(v))
            if attr == 'flat':
                return v.reshape((len(v.idx),))
            return Bound(v, attr)
        if isinstance(v, Masked):
            if attr in ('real', 'imag'):
                return Masked(elementwise(attr)(v.arr))
            return Bound(v, attr)
        if scalar(v):
            if attr in ('real', 'imag'):
                return apply(attr, v)
            if attr == 'shape':
                return ()
            if attr == 'ndim':
                return 0
            if attr == 'size':
                return 1
            return Bound(v, attr)
        if isinstance(v, (str, list, dict, tuple, set)):
            return Bound(v, attr)
        raise Undecided('attribute %s' % attr)

    def e_Tuple(self, e, env, m):
        return tuple(self.elements(e.elts, env, m))

    def e_List(self, e, env, m):
        return self.elements(e.elts, env, m)

    def e_Set(self, e, env, m):
        try:
            return set(self.elements(e.elts, env, m))
        except TypeError:
            raise Undecided('set')

    def elements(self, elts, env, m):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out += list(self.iterate(self.eval(x.value, env, m)))
            else:
                out.append(self.eval(x, env, m))
        return out

    def e_Dict(self, e, env, m):
        out = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.eval(v, env, m)
                if not isinstance(d, dict):
                    raise Undecided('dict')
                out.update(d)
            else:
                try:
                    out[self.eval(k, env, m)] = self.eval(v, env, m)
                except TypeError:
                    raise Undecided('dict')
        return out

    def e_JoinedStr(self, e, env, m):
        raise Undecided('string')

    def e_Slice(self, e, env, m):
        return slice(*[None if x is None else self.eval(x, env, m) for x in (
            e.lower, e.upper, e.step)])

    def e_Subscript(self, e, env, m):
        return self.index(self.eval(e.value, env, m), self.eval(e.slice, env,
            m))

    def e_Lambda(self, e, env, m):
        return Fn(e, m, env, '<lambda>')

    def e_IfExp(self, e, env, m):
        return self.eval(e.body if self.truth(self.eval(e.test, env, m))
            else e.orelse, env, m)

    def e_BoolOp(self, e, env, m):
        for x in e.values:
            v = self.eval(x, env, m)
            if self.truth(v) == isinstance(e.op, ast.Or):
                return v
        return v

    def e_UnaryOp(self, e, env, m):
        v = self.eval(e.operand, env, m)
        if isinstance(e.op, ast.Not):
            return not self.truth(v)
        if isinstance(e.op, ast.USub):
            return self.numeric('neg', v)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(v, int) and not isinstance(v, bool):
            return ~v
        return self.numeric('not', v)

    def numeric(self, op, *vals):
        for v in vals:
            if not (scalar(v) or isinstance(v, (Arr, Masked, list, tuple,
                    range))):
                raise Undecided('%s of %s' % (op, type(v).__name__))
        return broadcast(lambda *x: apply(op, *x), *vals)

    def e_BinOp(self, e, env, m):
        a = self.eval(e.left, env, m)
        b = self.eval(e.right, env, m)
        return self.binary(type(e.op), a, b)

    def binary(self, op, a, b):
        if op is ast.MatMult:
            return matmul(a, b)
        plain = (str, list, tuple, dict, set)
        if isinstance(a, plain) and isinstance(b, plain + (int,)) \
                or isinstance(b, plain) and isinstance(a, (int,)):
            try:
                if op is ast.Add:
                    return a + b
                if op is ast.Mult:
                    return a * b
                if op is ast.Sub:
                    return a - b
                if op is ast.BitOr:
                    return a | b
                if op is ast.BitAnd:
                    return a & b
                if op is ast.Mod:
                    return '?'
            except TypeError:
                raise Undecided('operands')
        if isinstance(a, str) and op is ast.Mod:
            return '?'
        if op in (ast.BitAnd, ast.BitOr, ast.BitXor) and all(isinstance(x, int)
                and not isinstance(x, bool) for x in (a, b)):
            return {ast.BitAnd: a & b, ast.BitOr: a | b, ast.BitXor: a ^ b}[op]
        o = BIN.get(op)
        if o is None:
            raise Undecided('operator')
        if o in ('//', '%') and all(isinstance(x, int) for x in (a, b)) and b:
            return a // b if o == '//' else a % b
        return self.numeric(o, a, b)

    def e_Compare(self, e, env, m):
        left = self.eval(e.left, env, m)
        result = True
        for op, c in zip(e.ops, e.comparators):
            right = self.eval(c, env, m)
            r = self.compare(type(op), left, right)
            if result is True:
                result = r
            else:
                result = self.numeric('and', result, r)
            if result is False:
                return False
            left = right
        return result

    def compare(self, op, a, b):
        if op in (ast.Is, ast.IsNot):
            if a is None or b is None or isinstance(a, bool) or isinstance(b,
                    bool):
                r = a is b
            elif isinstance(a, Fn) and isinstance(b, Fn):
                r = a.node is b.node
            elif isinstance(a, Arr) and isinstance(b, Arr):
                r = a is b
            else:
                raise Undecided('identity')
            return r == (op is ast.Is)
        if op in (ast.In, ast.NotIn):
            if isinstance(a, (T, Arr)) or not isinstance(b, (str, list, tuple,
                    dict, set, range)):
                raise Undecided('membership')
            if not isinstance(b, str) and any(isinstance(x, (T, Arr))
                    for x in b):
                raise Undecided('membership')
            try:
                return (a in b) == (op is ast.In)
            except TypeError:
                raise Undecided('membership')
        if isinstance(a, Fn) or isinstance(b, Fn):
            if op in (ast.Eq, ast.NotEq) and isinstance(a, Fn) and isinstance(
                    b, Fn):
                return (a.node is b.node) == (op is ast.Eq)
            raise Undecided('comparison')
        if a is None or b is None or isinstance(a, (str, list, tuple, set,
                dict)) and isinstance(b, (str, list, tuple, set, dict)):
            if op is ast.Eq:
                return a == b
            if op is ast.NotEq:
                return a != b
            raise Undecided('comparison')
        if isinstance(a, str) or isinstance(b, str):
            return op is ast.NotEq
        return self.numeric(CMP[op], a, b)

    def comp(self, e, env, m):
        out = []
        def loop(gens, scope):
            if not gens:
                if isinstance(e, ast.DictComp):
                    out.append((self.eval(e.key, scope, m), self.eval(e.value,
                        scope, m)))
                else:
                    out.append(self.eval(e.elt, scope, m))
                return
            g = gens[0]
            for x in self.iterate(self.eval(g.iter, scope, m)):
                inner = Env({}, scope)
                self.assign(g.target, x, inner, m)
                if all(self.truth(self.eval(c, inner, m)) for c in g.ifs):
                    loop(gens[1:], inner)
        loop(e.generators, env)
        return out

    def e_ListComp(self, e, env, m):
        return self.comp(e, env, m)

    def e_GeneratorExp(self, e, env, m):
        return iter(self.comp(e, env, m))

    def e_DictComp(self, e, env, m):
        return dict(self.comp(e, env, m))

    def e_SetComp(self, e, env, m):
        return set(self.comp(e, env, m))

    def e_Starred(self, e, env, m):
        return self.eval(e.value, env, m)

    def e_Yield(self, e, env, m):
        if not self.yields:
            raise Undecided('yield')
        v = None if e.value is None else self.eval(e.value, env, m)
        self.yields[-1].append(v.copy() if isinstance(v, Arr) else v)
        if len(self.yields[-1]) >= 24:
            raise Limit

    def e_Call(self, e, env, m):
        f = self.eval(e.func, env, m)
        args = self.elements(e.args, env, m)
        kwargs = {}
        for k in e.keywords:
            v = self.eval(k.value, env, m)
            if k.arg is None:
                if not isinstance(v, dict):
                    raise Undecided('keywords')
                kwargs.update(v)
            else:
                kwargs[k.arg] = v
        return self.call(f, args, kwargs)

    # --- methods and library ---

    def iscomplex(self, v, memo):
        if isinstance(v, T):
            if id(v) not in memo:
                memo[id(v)] = v.op not in ('real', 'imag', 'abs', 'angle') \
                    and (v.args[0][0] in self.letters if v.op == 'sym' else
                    any(self.iscomplex(a, memo) for a in v.args))
            return memo[id(v)]
        return isinstance(v, complex)

    def kind(self, a):
        """Type of elements of an array."""
        for c, k in (Ints, 'int'), (Floats, 'float'), (Complexes, 'complex'):
            if isinstance(a.buf, c):
                return k
        if all(isinstance(x, int) for x in a.items()):
            return 'int'
        memo = {}
        return 'complex' if any(self.iscomplex(x, memo) for x in a.items()) \
            else 'float'

    def number(self, v):
        """Value of a term at the point the case of which is considered."""
        if not isinstance(v, T):
            return v
        if self.point is None:
            raise Undecided('value')
        return jet(v, self.point, {}, self.memo)[0]

    def collective(self, attr, args):
        if attr in ('Bcast', 'Barrier', 'barrier'):
            return None
        if attr in ('bcast', 'allreduce', 'reduce', 'scatter'):
            return args[0]
        if attr in ('gather', 'allgather'):
            return [args[0]]
        if attr in ('Reduce', 'Allreduce', 'Gather', 'Allgather', 'Gatherv',
                'Allgatherv'):
            target = args[1][0] if isinstance(args[1], (list, tuple)) \
                else args[1]
            source = args[0][0] if isinstance(args[0], (list, tuple)) \
                else args[0]
            if isinstance(source, Ext) and source.dotted.endswith('IN_PLACE'):
                return None
            if not isinstance(source, Arr) or not isinstance(target, Arr) \
                    or len(source.idx) != len(target.idx):
                raise Undecided(attr)
            for i, x in zip(target.idx, source.items()):
                target.buf[i] = x
            return None
        raise Undecided(attr)

    def method(self, v, attr, args, kwargs):
        if isinstance(v, Comm):
            return self.collective(attr, args)
        if isinstance(v, Masked):
            if attr in ('conj', 'conjugate'):
                return Masked(elementwise('conj')(v.arr))
            if attr == 'copy':
                return v
            raise Undecided(attr)
        if scalar(v):
            if attr in ('conj', 'conjugate'):
                return apply('conj', v)
            if attr in ('item', 'copy', 'sum', 'max', 'min', 'astype'):
                return v
            raise Undecided(attr)
        if isinstance(v, Arr):
            if attr in ('conj', 'conjugate'):
                r = elementwise('conj')(v)
                return r if isinstance(r, Arr) else array(r)
            if attr == 'astype' and args and isinstance(args[0], Ext) \
                    and args[0].dotted.split('.')[-1] in ('int', 'int_',
                    'int64', 'int32') and all(isinstance(x, float)
                    for x in v.items()):
                return Arr([int(x) for x in v.items()], v.shape)
            if attr in ('copy', 'astype', 'view'):
                return v.copy() if attr != 'view' else v
            if attr == 'reshape':
                s = args[0] if len(args) == 1 and not isinstance(args[0], int) \
                    else args
                return v.reshape(list(s) if not isinstance(s, Arr)
                    else s.items())
            if attr in ('tocsr', 'todense', 'toarray'):
                return v
            if attr == 'setdiag':
                it = array(args[0])
                for i in range(min(v.shape)):
                    v.buf[v.idx[i * v.shape[1] + i]] = it.get(i) \
                        if it.shape else it.items()[0]
                return None
            if attr in ('ravel', 'flatten'):
                return v.copy().reshape((-1,))
            if attr == 'transpose':
                a = args[0] if len(args) == 1 and not isinstance(args[0],
                    int) else args
                return v.transpose(a or None)
            if attr == 'tolist':
                return [x.tolist() if isinstance(x, Arr) else x for x in
                    v.rows()] if len(v.shape) == 1 else [self.method(x,
                    'tolist', [], {}) for x in v.rows()]
            if attr == 'item':
                if len(v.idx) == 1:
                    return v.items()[0]
                raise Undecided('item')
            if attr == 'fill':
                for i in v.idx:
                    v.buf[i] = args[0]
                return None
            if attr == 'dot':
                return dot(v, args[0])
            return self.library('numpy.' + attr, [v] + list(args), kwargs)
        if isinstance(v, str):
            try:
                return getattr(v, attr)(*args)
            except Exception:
                raise Undecided(attr)
        if isinstance(v, list) and attr in ('append', 'extend', 'insert',
                'pop', 'reverse', 'copy', 'index', 'count'):
            if attr == 'extend':
                v.extend(self.iterate(args[0]))
                return None
            try:
                return getattr(v, attr)(*args)
            except Exception:
                raise Undecided(attr)
        if isinstance(v, dict) and attr in ('get', 'keys', 'values', 'items',
                'update', 'copy', 'setdefault', 'pop', 'clear'):
            try:
                r = getattr(v, attr)(*args, **kwargs)
            except Exception:
                raise Undecided(attr)
            return list(r) if attr in ('keys', 'values', 'items') else r
        if isinstance(v, tuple) and attr in ('index', 'count'):
            return getattr(v, attr)(*args)
        if isinstance(v, set) and attr in ('add', 'update') and any(isinstance(
                x, (Arr, list)) for x in (args if attr == 'add' else [x for y
                in args for x in self.iterate(y)])):
            self.misused = 'unhashable'
            raise Undecided('unhashable')
        if isinstance(v, set) and attr in ('add', 'discard', 'copy', 'union',
                'update', 'intersection', 'difference', 'clear'):
            return getattr(v, attr)(*[x if attr in ('add', 'discard') else
                list(self.iterate(x)) for x in args])
        if isinstance(v, set) and attr in ('pop', 'remove'):
            if attr == 'pop' and not v:
                raise Raised('KeyError')
            x = min(v, key=repr) if attr == 'pop' else args[0]
            if x not in v:
                raise Undecided(attr)
            v.remove(x)
            return x if attr == 'pop' else None
        raise Undecided(attr)

    def library(self, name, args, kwargs):
        try:
            return self.library_(name, list(args), dict(kwargs))
        except (IndexError, TypeError, KeyError, AttributeError, ValueError):
            raise Undecided(name)

    def library_(self, name, args, kwargs):
        parts = name.split('.')
        short = parts[-1]
        root = parts[0]
        if root == 'builtins':
            return self.builtin(short, args, kwargs)
        if root not in ('numpy', 'math', 'cmath', 'scipy', 'copy',
                'functools', 'itertools', 'operator'):
            raise Undecided(name)
        if root == 'math' and short == 'factorial':
            return math.factorial(*args)
        if root == 'math' and short == 'comb':
            return math.comb(*args)
        if short in ('factorial',) and all(isinstance(a, int) for a in args):
            return float(math.factorial(args[0]))
        if root == 'copy':
            v = args[0]
            return v.copy() if isinstance(v, (Arr, list, dict)) else v
        if root == 'functools' and short == 'reduce':
            it = iter(self.iterate(args[1]))
            r = args[2] if len(args) > 2 else next(it)
            for x in it:
                r = self.call(args[0], [r, x])
            return r
        if root == 'operator':
            ops = dict(add='+', sub='-', mul='*', truediv='/', pow='**')
            return self.numeric(ops[short], *args)
        if root == 'itertools':
            its = [list(self.iterate(a)) for a in args]
            if short == 'product' and not kwargs:
                return iter(list(itertools.product(*its)))
            if short == 'chain':
                return iter([x for y in its for x in y])
            raise Undecided(name)
        if len(parts) > 2 and short == 'outer' and parts[-2] in ALIAS:
            a, b = [x if isinstance(x, Arr) else array(x) for x in args]
            op = ALIAS[parts[-2]]
            return Arr([apply(op, x, y) for x in a.items() for y in b.items()],
                a.shape + b.shape)
        if len(parts) > 2 and short == 'reduce' and parts[-2] in ALIAS:
            return reduce(args[0], lambda x, y: apply(ALIAS[parts[-2]], x, y),
                None, kwargs.get('axis', 0))
        if 'where' in kwargs and short != 'where':
            raise Undecided('where')
        if kwargs.get('out') is not None:
            out = kwargs.pop('out')
            if not isinstance(out, Arr):
                raise Undecided('out')
            self.store(out, Ellipsis, self.library_(name, args, kwargs))
            return out
        if short in ('erf', 'erfc', 'gamma'):
            return self.numeric(short, args[0])
        if short == 'expit':
            return self.numeric('/', 1, self.numeric('+', 1, self.numeric(
                'exp', self.numeric('neg', args[0]))))
        op = ALIAS.get(short, short)
        if op in UNARY and len(args) == 1:
            return self.numeric(op, args[0])
        if op in ('abs', 'neg', 'not', 'round') and len(args) == 1:
            return self.numeric(op, args[0])
        if op == 'int' and len(args) == 1:
            return self.numeric('int', args[0])
        if short in ('square',):
            return self.numeric('*', args[0], args[0])
        if short == 'logaddexp' and len(args) == 2:
            return self.numeric('+', self.numeric('max', *args), self.numeric(
                'log1p', self.numeric('exp', self.numeric('neg', self.numeric(
                'abs', self.numeric('-', *args))))))
        if short == 'reciprocal':
            return self.numeric('/', 1.0, args[0])
        if short in ('deg2rad', 'radians'):
            return self.numeric('*', args[0], math.pi / 180)
        if short in ('rad2deg', 'degrees'):
            return self.numeric('*', args[0], 180 / math.pi)
        if short in ALIAS and len(args) == 2:
            return self.numeric(op, *args)
        if short in BINARY:
            return self.numeric(short, *args)
        if short == 'clip':
            lo = args[1] if len(args) > 1 else kwargs.get('a_min', kwargs.get(
                'min'))
            hi = args[2] if len(args) > 2 else kwargs.get('a_max', kwargs.get(
                'max'))
            v = args[0]
            if lo is not None:
                v = self.numeric('max', v, lo)
            if hi is not None:
                v = self.numeric('min', v, hi)
            return v
        if short == 'where' and len(args) == 3:
            return broadcast(lambda c, a, b: apply('where', c, a, b)
                if isinstance(c, T) else (a if c else b), *args)
        if short in ('where', 'nonzero') and len(args) == 1 and isinstance(
                args[0], Arr) and self.point is not None:
            at = [w for w, c in zip(itertools.product(*map(range,
                args[0].shape)), args[0].items()) if self.number(c)]
            return tuple(Arr([w[i] for w in at], (len(at),)) for i in range(
                len(args[0].shape)))
        if short == 'meshgrid' and set(kwargs) <= {'indexing'}:
            a = [list(self.iterate(x)) for x in args]
            shape = [len(x) for x in a]
            out = [Arr([w[i] for w in itertools.product(*a)], shape) for i in
                range(len(a))]
            if kwargs.get('indexing') != 'ij' and len(a) > 1:
                ax = [1, 0] + list(range(2, len(a)))
                out = [x.transpose(ax) for x in out]
            return out
        if short == 'select' and len(args) >= 2:
            r = args[2] if len(args) > 2 else kwargs.get('default', 0)
            for c, v in list(zip(args[0], args[1]))[::-1]:
                r = self.library('numpy.where', [c, v, r], {})
            return r
        if short in ('array', 'asarray', 'ascontiguousarray', 'asanyarray',
                'atleast_1d', 'copy'):
            if short in ('copy', 'array', 'asarray') and args[0] is None:
                return None
            if hasattr(args[0], '__next__'):
                raise Undecided(name)
            a = args[0] if isinstance(args[0], Arr) and short.startswith('as') \
                else array(args[0])
            if short == 'atleast_1d' and not a.shape:
                a = a.reshape((1,))
            return a
        if short in ('float64', 'float128', 'float32', 'complex128',
                'double'):
            return args[0]
        if short in ('zeros', 'ones', 'empty', 'full'):
            s = args[0] if args else kwargs['shape']
            s = (s,) if isinstance(s, int) else tuple(s) if not isinstance(s,
                Arr) else tuple(s.items())
            if not all(isinstance(x, int) for x in s) or size(s) > 20000:
                raise Undecided('size')
            if short == 'full':
                v = args[1] if len(args) > 1 else kwargs['fill_value']
                r = broadcast(lambda a, b: b, Arr([0] * size(s), s), v)
                return r if isinstance(r, Arr) else array(r)
            v = {'zeros': 0.0, 'ones': 1.0, 'empty': T('sym', '?')}[short]
            if short != 'empty' and isinstance(kwargs.get('dtype'), Ext) \
                    and kwargs['dtype'].dotted.split('.')[-1] in ('int',
                    'int64', 'int32', 'intp'):
                v = int(v)
            real = self.letters is not None and (kwargs.get('dtype', args[1]
                if len(args) > 1 else None) is None or isinstance(kwargs.get(
                'dtype'), Ext) and kwargs['dtype'].dotted.split('.')[-1] in (
                'float', 'float64', 'double'))
            kind = Floats if real else list
            if self.letters is not None and isinstance(kwargs.get('dtype'),
                    Ext):
                kind = {'dtype.int': Ints, 'dtype.float': Floats,
                    'dtype.complex': Complexes, 'builtins.complex': Complexes,
                    'builtins.int': Ints}.get(kwargs['dtype'].dotted, kind)
            return Arr(kind([v] * size(s)), s)
        if short in ('result_type', 'promote_types', 'common_type') \
                and self.letters is not None:
            kinds = []
            for a in args:
                if isinstance(a, Arr):
                    a = Ext('dtype.' + self.kind(a))
                if not isinstance(a, Ext):
                    raise Undecided(name)
                kinds.append(a.dotted.split('.')[-1])
            for k in 'complex', 'float', 'int':
                if any(x.startswith(k) for x in kinds):
                    return Ext('dtype.' + k)
            raise Undecided(name)
        if short in ('isrealobj', 'iscomplexobj'):
            if self.letters is None:
                raise Undecided(name)
            v = args[0].items() if isinstance(args[0], Arr) else [args[0]] \
                if scalar(args[0]) or args[0] is None else nest(args[0])[1]
            memo = {}
            return any(self.iscomplex(x, memo) for x in v) == (short
                == 'iscomplexobj')
        if short == 'diff' and len(args) == 1 and not kwargs:
            a = args[0] if isinstance(args[0], Arr) else array(args[0])
            if len(a.shape) != 1:
                raise Undecided(name)
            v = a.items()
            return array([apply('-', y, x) for x, y in zip(v, v[1:])])
        if short == 'ndindex':
            ns = args if all(isinstance(a, int) for a in args) else args[0]
            return iter(list(itertools.product(*map(range, ns))))
        if short == 'dtype' and isinstance(args[0], Ext):
            return Ext('dtype.' + args[0].dotted.split('.')[-1])
        if short in ('where', 'nonzero', 'flatnonzero') and len(args) == 1 \
                and not kwargs:
            a = args[0] if isinstance(args[0], Arr) else array(args[0])
            if any(isinstance(x, T) for x in a.items()):
                return a
            at = [w for w, x in zip(itertools.product(*map(range, a.shape)),
                a.items()) if x]
            if short == 'flatnonzero':
                return array([i for i, x in enumerate(a.items()) if x])
            return tuple(array([w[d] for w in at]) if at else Arr([], (0,))
                for d in range(len(a.shape)))
        if short in ('zeros_like', 'ones_like', 'empty_like', 'full_like'):
            a = args[0]
            v = {'z': 0.0, 'o': 1.0, 'e': T('sym', '?')}.get(short[0])
            if short == 'full_like':
                v = args[1] if len(args) > 1 else kwargs['fill_value']
            if scalar(a):
                return array(v)
            a = a if isinstance(a, Arr) else array(a)
            return Arr([v] * len(a.idx), a.shape)
        if short in ('eye', 'identity'):
            n = args[0]
            return Arr([float(i == j) for i in range(n) for j in range(n)],
                (n, n))
        if short == 'diag':
            a = args[0] if isinstance(args[0], Arr) else array(args[0])
            if len(a.shape) == 1:
                n = len(a.idx)
                it = a.items()
                return Arr([it[i] if i == j else 0.0 for i in range(n)
                    for j in range(n)], (n, n))
            return Arr([a.get(i, i) for i in range(min(a.shape))],
                (min(a.shape),))
        if short == 'arange':
            if not all(isinstance(a, int) for a in args):
                raise Undecided(name)
            return Arr(list(range(*args)), (len(range(*args)),))
        if short == 'linspace':
            a, b = args[:2]
            n = args[2] if len(args) > 2 else kwargs.get('num', 50)
            end = args[3] if len(args) > 3 else kwargs.get('endpoint', True)
            ret = args[4] if len(args) > 4 else kwargs.get('retstep', False)
            if set(kwargs) - {'num', 'endpoint', 'retstep', 'dtype'} \
                    or not isinstance(n, int) or n < 1 or ret and end and n < 2:
                raise Undecided(name)
            step = (b - a) / max(1, n - 1 if end else n)
            v = Arr([a + step * i for i in range(n)], (n,))
            return (v, step) if ret else v
        if short == 'dot':
            return dot(*args)
        if short == 'matmul':
            return matmul(*args)
        if short == 'outer':
            a, b = [x if isinstance(x, Arr) else array(x) for x in args]
            return Arr([apply('*', x, y) for x in a.items() for y in
                b.items()], (len(a.idx), len(b.idx)))
        if short == 'inner':
            return einsum('a,a->', *args)
        if short == 'cross':
            a, b = [x if isinstance(x, Arr) else array(x) for x in args]
            if a.shape != (3,) or b.shape != (3,):
                raise Undecided(name)
            a, b = a.items(), b.items()
            return Arr([apply('-', apply('*', a[(i + 1) % 3], b[(i + 2) % 3]),
                apply('*', a[(i + 2) % 3], b[(i + 1) % 3])) for i in range(3)],
                (3,))
        if short == 'einsum':
            if not isinstance(args[0], str):
                raise Undecided(name)
            kwargs.pop('optimize', None)
            return einsum(*args)
        if short == 'trace':
            a = args[0]
            return reduce(Arr([a.get(i, i) for i in range(a.shape[0])],
                (a.shape[0],)), ADD, 0)
        if short == 'norm' and len(args) == 1 and not kwargs:
            a = args[0] if isinstance(args[0], Arr) else array(args[0])
            r = 0
            for x in a.items():
                r = apply('+', r, apply('**', apply('abs', x), 2))
            return apply('sqrt', r)
        if short in ('sum', 'prod', 'average', 'mean', 'amax', 'amin', 'max',
                'min', 'all', 'any'):
            ax = kwargs.get('axis', args[1] if len(args) > 1 else None)
            kd = kwargs.get('keepdims', False)
            a = args[0]
            if hasattr(a, '__next__'):
                raise Undecided(name)
            if short in ('average', 'mean'):
                if 'weights' in kwargs:
                    raise Undecided(name)
                total = reduce(a, ADD, 0, ax, kd)
                a = a if isinstance(a, Arr) else array(a)
                n = len(a.idx) if ax is None else a.shape[ax]
                return self.numeric('/', total, n)
            f, s = {'sum': (ADD, 0), 'prod': (MUL, 1),
                'all': (lambda x, y: apply('and', x, y), True),
                'any': (lambda x, y: apply('or', x, y), False)}.get(short, (
                lambda x, y: apply(short[-3:], x, y), None))
            return reduce(a, f, s, ax, kd)
        if short in ('cumsum', 'cumprod') and len(args) == 1:
            a = args[0] if isinstance(args[0], Arr) else array(args[0])
            out, r = [], None
            for x in a.items():
                r = x if r is None else apply('+' if short == 'cumsum'
                    else '*', r, x)
                out.append(r)
            return Arr(out, (len(out),))
        if short == 'transpose':
            a = args[0] if isinstance(args[0], Arr) else array(args[0])
            ax = args[1] if len(args) > 1 else kwargs.get('axes')
            return a.transpose(ax if ax is None else list(self.iterate(ax)))
        if short == 'swapaxes':
            a = args[0]
            ax = list(range(len(a.shape)))
            i, j = args[1:3]
            ax[i], ax[j] = ax[j], ax[i]
            return a.transpose(ax)
        if short == 'moveaxis':
            a = args[0]
            n = len(a.shape)
            i, j = args[1] % n, args[2] % n
            ax = [x for x in range(n) if x != i]
            ax.insert(j, i)
            return a.transpose(ax)
        if short == 'reshape':
            a = args[0] if isinstance(args[0], Arr) else array(args[0])
            s = args[1] if not isinstance(args[1], int) else (args[1],)
            return a.reshape(s)
        if short in ('ravel',):
            a = args[0] if isinstance(args[0], Arr) else array(args[0])
            return a.reshape((-1,))
        if short in ('concatenate', 'vstack', 'hstack', 'stack'):
            parts = [x if isinstance(x, Arr) else array(x) for x in
                self.iterate(args[0])]
            ax = kwargs.get('axis', args[1] if len(args) > 1 else 0)
            if ax != 0 or short in ('vstack', 'hstack') and any(len(p.shape)
                    != 1 for p in parts):
                raise Undecided(name)
            if short == 'concatenate' or short == 'hstack':
                return Arr([x for p in parts for x in p.items()], (sum(
                    p.shape[0] for p in parts),) + parts[0].shape[1:])
            return array(parts)
        if short == 'block':
            rows = args[0]
            rows = [[x if isinstance(x, Arr) else array(x) for x in r]
                for r in rows]
            out = []
            for r in rows:
                for i in range(r[0].shape[0]):
                    out.append([y for x in r for y in x.rows()[i].items()])
            return array(out)
        if short in ('repeat', 'take'):
            a = args[0] if isinstance(args[0], Arr) else array(args[0])
            axis = kwargs.get('axis', args[2] if len(args) > 2 else None)
            if len(args) > 3 or set(kwargs) - {'axis'} or len(args) < 2:
                raise Undecided(name)
            if axis is None:
                a = Arr(list(a.items()), (len(a.idx),))
                axis = 0
            n = args[1]
            if short == 'repeat':
                if not isinstance(n, int):
                    raise Undecided(name)
                n = [i for i in range(a.shape[axis]) for _ in range(n)]
            elif not isinstance(n, int):
                n = [int(x) for x in nest(n)[1]] if len(nest(n)[0]) == 1 \
                    else None
                if n is None:
                    raise Undecided(name)
            return self.index(a, (slice(None),) * (axis % len(a.shape)) + (
                n,))
        if short == 'tile':
            a = args[0] if isinstance(args[0], Arr) else array(args[0])
            reps = args[1]
            reps = [reps] if isinstance(reps, int) else list(reps)
            d = max(len(reps), len(a.shape))
            reps = [1] * (d - len(reps)) + reps
            shape = (1,) * (d - len(a.shape)) + a.shape
            a = Arr(a.items(), shape)
            return Arr([a.get(*[i % n for i, n in zip(w, shape)]) for w in
                itertools.product(*[range(n * r) for n, r in zip(shape,
                reps)])], [n * r for n, r in zip(shape, reps)])
        if short in ('argmax', 'argmin') and len(args) == 1 and not kwargs:
            a = [self.number(x) for x in (args[0] if isinstance(args[0], Arr)
                else array(args[0])).items()]
            return a.index(max(a) if short == 'argmax' else min(a))
        if short in ('argmax', 'argmin', 'argsort') and len(args) <= 2 \
                and set(kwargs) <= {'axis'}:
            a = args[0] if isinstance(args[0], Arr) else array(args[0])
            axis = kwargs.get('axis', args[1] if len(args) > 1 else -1) % len(
                a.shape)
            n = a.shape[axis]
            rest = a.shape[:axis] + a.shape[axis + 1:]
            out = {}
            for w in itertools.product(*map(range, rest)):
                v = [self.number(a.get(*w[:axis], i, *w[axis:])) for i in
                    range(n)]
                order = sorted(range(n), key=lambda i: v[i])
                out[w] = order if short == 'argsort' else order[0] if short \
                    == 'argmin' else v.index(max(v))
            if short != 'argsort':
                return Arr([out[w] for w in itertools.product(*map(range,
                    rest))], rest)
            return Arr([out[w[:axis] + w[axis + 1:]][w[axis]] for w in
                itertools.product(*map(range, a.shape))], a.shape)
        if short in ('std', 'var') and len(args) <= 2 and set(kwargs) <= {
                'axis'}:
            a = args[0] if isinstance(args[0], Arr) else array(args[0])
            axis = kwargs.get('axis', args[1] if len(args) > 1 else None)
            if axis is None:
                a = a.copy().reshape((-1,))
                axis = 0
            axis %= len(a.shape)
            n = a.shape[axis]
            mean = lambda x: self.numeric('/', reduce(x, lambda p, q: apply(
                '+', p, q), None, axis), n)
            m = mean(a)
            m = m.copy().reshape(m.shape[:axis] + (1,) + m.shape[axis:]) \
                if isinstance(m, Arr) else m
            d = self.numeric('abs', self.numeric('-', a, m))
            v = mean(self.numeric('*', d, d))
            return v if short == 'var' else self.numeric('sqrt', v)
        if short == 'unravel_index' and isinstance(args[0], int):
            out = []
            for n in list(self.iterate(args[1]))[::-1]:
                out.append(args[0] % n)
                args[0] //= n
            return tuple(out[::-1])
        if short == 'ravel_multi_index':
            k = 0
            for i, n in zip(self.iterate(args[0]), self.iterate(args[1])):
                if not isinstance(i, int):
                    raise Undecided(name)
                k = k * n + i
            return k
        if short == 'expand_dims':
            k = [slice(None)] * len(args[0].shape)
            k.insert(args[1], None)
            return self.index(args[0], tuple(k))
        if short in ('fftn', 'ifftn', 'fft', 'ifft', 'fft2', 'ifft2'):
            return fourier(short, *args, **kwargs)
        if short == 'roll':
            a = args[0]
            sh = args[1] if len(args) > 1 else kwargs['shift']
            ax = args[2] if len(args) > 2 else kwargs.get('axis')
            if ax is None:
                raise Undecided(name)
            shift = [0] * len(a.shape)
            for x, k in zip(ax, [sh] * len(ax) if isinstance(sh, int) else sh) \
                    if isinstance(ax, (tuple, list)) else [(ax, sh)]:
                shift[x] += k
            return Arr([a.get(*[(i - d) % n for i, d, n in zip(w, shift,
                a.shape)]) for w in itertools.product(*map(range, a.shape))],
                a.shape)
        if short == 'kron':
            a, b = args
            (n, p), (q, r) = a.shape, b.shape
            return Arr([apply('*', a.get(i, k), b.get(j, l)) for i in range(n)
                for j in range(q) for k in range(p) for l in range(r)],
                (n * q, p * r))
        if short == 'vectorize':
            if isinstance(args[0], Fn) and self.letters is not None:
                self.vectors.append(args[0])
            return args[0]
        if short in ('shape',):
            return args[0].shape if isinstance(args[0], Arr) else array(
                args[0]).shape
        if short == 'ndim':
            return len(array(args[0]).shape)
        if short == 'isscalar':
            return scalar(args[0])
        if short in ('pi',):
            return math.pi
        if short == 'norm' and '.linalg.' in name and len(args) == 1 and not \
                set(kwargs) - {'axis', 'keepdims'}:
            a = self.numeric('abs', args[0])
            return self.numeric('sqrt', self.library('numpy.sum',
                [self.numeric('*', a, a)], kwargs))
        if short == 'inv' and isinstance(args[0], Arr) and args[0].shape \
                == (3, 3):
            r = args[0].rows()
            c = lambda x, y: self.library('numpy.cross', [x, y], {})
            det = dot(r[0], c(r[1], r[2]))
            return array([self.numeric('/', c(x, y), det) for x, y in (
                (r[1], r[2]), (r[2], r[0]), (r[0], r[1]))]).transpose()
        raise Undecided(name)

    def builtin(self, short, args, kwargs):
        if short == 'range':
            if not all(isinstance(a, int) for a in args):
                raise Undecided('range')
            return range(*args)
        if short == 'len':
            return len(args[0])
        if short in ('abs', 'round'):
            return self.numeric(short, args[0])
        if short in ('float', 'complex', 'int', 'bool'):
            v = simple(args[0]) if args else 0
            if isinstance(v, T):
                return v if short in ('float', 'complex') else apply(short, v)
            if isinstance(v, str):
                return {'float': float, 'int': int}[short](v)
            if short == 'complex':
                return complex(*args)
            if isinstance(v, NUM):
                return {'float': float, 'int': int, 'bool': bool}[short](v)
            if short == 'bool':
                return self.truth(v)
            raise Undecided(short)
        if short in ('min', 'max'):
            items = list(self.iterate(args[0])) if len(args) == 1 else args
            if kwargs or not items:
                raise Undecided(short)
            r = items[0]
            for x in items[1:]:
                r = self.numeric(short, r, x)
            return r
        if short == 'sum':
            r = args[1] if len(args) > 1 else 0
            for x in self.iterate(args[0]):
                r = self.numeric('+', r, x)
            return r
        if short == 'pow':
            return self.numeric('**', *args[:2])
        if short == 'divmod':
            return self.binary(ast.FloorDiv, *args), self.binary(ast.Mod,
                *args)
        if short in ('list', 'tuple', 'set', 'iter', 'sorted', 'reversed'):
            items = list(self.iterate(args[0])) if args else []
            if short == 'sorted':
                key = kwargs.get('key')
                def rank(x):
                    if key is not None:
                        x = self.call(key, [x])
                    def flat(x):
                        if isinstance(x, (tuple, list)):
                            return tuple(map(flat, x))
                        if isinstance(x, Arr):
                            raise Undecided(short)
                        return self.number(x)
                    return flat(x)
                return sorted(items, key=rank, reverse=bool(kwargs.get(
                    'reverse')))
            if short == 'reversed':
                return iter(items[::-1])
            if short == 'iter':
                return args[0] if hasattr(args[0], '__next__') else iter(items)
            return {'list': list, 'tuple': tuple, 'set': set}[short](items)
        if short == 'dict':
            return dict(*args, **kwargs)
        if short == 'zip':
            return iter(list(zip(*[self.iterate(a) for a in args])))
        if short == 'enumerate':
            return iter(list(enumerate(self.iterate(args[0]), *args[1:])))
        if short == 'map':
            return iter([self.call(args[0], list(x)) for x in zip(*[
                self.iterate(a) for a in args[1:]])])
        if short == 'filter':
            return iter([x for x in self.iterate(args[1]) if self.truth(
                self.call(args[0], [x]))])
        if short == 'next':
            if not hasattr(args[0], '__next__'):
                raise Undecided('next')
            try:
                return next(args[0])
            except StopIteration:
                if len(args) > 1:
                    return args[1]
                raise Undecided('end of generator')
        if short in ('any', 'all'):
            for x in self.iterate(args[0]):
                if self.truth(x) == (short == 'any'):
                    return short == 'any'
            return short == 'all'
        if short == 'print':
            return None
        if short == 'slice':
            return slice(*args)
        if short == 'callable':
            return isinstance(args[0], (Fn, Ext, Bound))
        if short == 'isinstance':
            v, c = args
            cs = c if isinstance(c, tuple) else (c,)
            names = {x.dotted.split('.')[-1] for x in cs if isinstance(x,
                Ext)}
            if isinstance(v, T):
                if names <= {'str', 'list', 'tuple', 'dict', 'set'}:
                    return False
                raise Undecided(short)
            if isinstance(v, Arr):
                return 'ndarray' in names
            return type(v).__name__ in names or isinstance(v, bool) \
                and 'int' in names
        if short == 'hasattr':
            v, a = args
            if a == '__len__':
                return isinstance(v, (list, tuple, str, dict, set, range)) \
                    or isinstance(v, Arr) and bool(v.shape)
            if isinstance(v, Fn):
                return a in v.attrs or (v.name, a) in self.overrides
            if isinstance(v, Obj):
                return a in v.attrs or v.cls is not None and a in \
                    v.cls.methods
            raise Undecided(short)
        if short == 'getattr' and isinstance(args[1], str):
            try:
                return self.attribute(args[0], args[1])
            except Undecided:
                if len(args) > 2 and isinstance(args[0], Fn):
                    return args[2]
                raise
        if short == 'setattr' and isinstance(args[0], (Fn, Obj)) \
                and isinstance(args[1], str):
            args[0].attrs[args[1]] = args[2]
            return None
        if short == 'str':
            return '?'
        raise Undecided(short)

def generic(v):
    """Truth of a condition for data without coincidences."""
    if not isinstance(v, T):
        return bool(v)
    if v.op in ('!=', '=='):
        return v.op == '!='
    if v.op in ('and', 'or'):
        a = [generic(x) for x in v.args]
        end = v.op == 'or'
        return end if end in a else None if None in a else not end
    if v.op == 'not':
        a = generic(v.args[0])
        return None if a is None else not a
    return None

BUILTINS = '''range len abs round float complex int bool min max sum pow divmod
list tuple set iter sorted reversed dict zip enumerate map filter next any all
print slice callable isinstance hasattr getattr setattr str object'''.split()

def boolean(k):
    if isinstance(k, Arr):
        return bool(k.idx) and all(isinstance(x, bool) or isinstance(x, T)
            and x.op in ('<', '<=', '>', '>=', '==', '!=', 'and', 'or', 'xor',
            'not', 'isfinite', 'isnan', 'isinf', 'bool') for x in k.items())
    if isinstance(k, T):
        return k.op in ('<', '<=', '>', '>=', '==', '!=', 'and', 'or', 'xor',
            'not', 'isfinite', 'isnan', 'isinf', 'bool')
    return isinstance(k, bool)

def load(t):
    import copy
    t = copy.copy(t)
    t.ctx = ast.Load()
    return t

def own(node):
    """Nodes of a function without those of functions defined in it."""
    todo = list(node.body)
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            todo.extend(ast.iter_child_nodes(n))

def choose(cases, point):
    """Result of the case whose conditions hold at a point."""
    for path, v in cases:
        memo = {}
        if all(bool(jet(c, point, {}, memo)[0]) == r for c, r in path):
            return v
    raise Undecided('no case')
