"""Units and mass factors of matrices for each setting of the flags (C15).

Each routine is walked once per combination of the settings it depends on. The
value of an expression is the product of powers of the Rydberg energy (in eV)
and the atomic masses by which it differs from the quantity in files, i.e.,
energies in eV and matrices not divided by masses. Arrays are cells that views
share. Nothing is executed, no numbers or shapes are considered.
"""

import ast
import operator
from fractions import Fraction
from itertools import product

from .objects import Models, callee
from .project import Class, Func, Module

HALF = Fraction(1, 2)
ONE = 'f', 0, 0
ZERO = 'z',
TOP = 'top',
NONE = 'c', None

# quantities of models: attribute -> (setting, powers if setting, otherwise)
FIELDS = {
    'el': {'data': ('rydberg', (-1, 0), (0, 0))},
    'ph': {
        'data': ('divide_mass', (0, -1), (0, 0)),
        'D0': ('divide_mass', (0, -1), (0, 0)),
        'D0_lr': ('divide_mass', (0, -1), (0, 0)),
        'z': ('divide_mass', (0, -HALF), (0, 0)),
        'q': ('divide_mass', (0, -HALF), (0, 0)),
        'Z': (None, (0, 0), (0, 0)),
        'Q': (None, (0, 0), (0, 0)),
        },
    'elph': {
        'data': ('divide_mass', (0, -HALF), (0, 0)),
        'g0': ('divide_mass', (0, -HALF), (0, 0)),
        'gq': ('divide_mass', (0, -HALF), (0, 0)),
        },
    'driver': {
        'H0': (None, (-1, 0), (-1, 0)),
        'e': (None, (-1, 0), (-1, 0)),
        'C0': (None, (0, 0), (0, 0)),
        'F0': (None, (0, 0), (0, 0)),
        },
    }
MODULES = 'el', 'ph', 'elph', 'md'
FLAGS = {'el': ['rydberg'], 'ph': ['divide_mass'], 'elph': ['divide_mass'],
    'elel': [], 'driver': []}
PARTS = {'elph': ['el', 'ph'], 'driver': ['elph']}

# quantities a model has from the start, to be renewed if setting is changed
KEPT = {'data', 'D0'}

# readers: what they return
READERS = {
    'ph.read_flfrc': ('tup', (('q', 0, 0), ('f', 0, 1)) + (ONE,) * 6),
    'el.read_hrdat': ('tup', (ONE, ('q', 0, 0))),
    'misc.read_dat_mat': ('tup', (ONE, ('q', 0, 0))),
    }
# writers: position of argument that must be in units of file
WRITERS = {'ph.write_flfrc': (1, 'M'), 'el.write_hrdat': (2, 'Ry')}
# routines replacing the data of a model: arrays in a convention stated by flag
SETTERS = {
    'ph.q2r': ('ph', ['D_irr', 'D_full'], 'divide_mass', (0, -1)),
    'el.k2r': ('el', ['H'], 'rydberg', (-1, 0)),
    'elph.q2r': ('elph', ['g'], 'divide_mass', (0, -HALF)),
    }
TAKERS = dict(SETTERS)
TAKERS['ph.interpolate_dynamical_matrices'] = (None, ['D'], 'divide_mass',
    (0, -1))
# routines whose result does not depend on the setting
RESULTS = {'ph.Model.sum_force_constants': 'M', 'md.Driver.hessian': 'M'}

VIEWS = {'reshape', 'view', 'swapaxes', 'transpose', 'ravel', 'squeeze'}
SAME = {'copy', 'astype', 'conj', 'conjugate', 'toarray', 'tocsr', 'flatten',
    'repeat', 'sum', 'max', 'min', 'mean', 'round', 'todense', 'trace',
    'diagonal', 'values', 'item', 'tolist', 'cumsum'}
PRODUCTS = {'einsum', 'dot', 'matmul', 'outer', 'kron', 'multiply', 'inner',
    'tensordot', 'vdot', 'prod2'}
FRESH = {'zeros', 'empty', 'zeros_like', 'empty_like', 'dict', 'list', 'set',
    'defaultdict', 'OrderedDict'}
PURE = {'exp', 'cos', 'sin', 'tan', 'tanh', 'sign', 'arange', 'ones', 'eye',
    'identity', 'ones_like', 'argsort', 'argmax', 'argmin', 'nonzero',
    'len', 'range', 'isclose', 'allclose', 'any', 'all', 'shape', 'mgrid',
    'angle', 'log', 'hasattr', 'isinstance', 'str', 'type', 'open',
    'print', 'time', 'linspace', 'unique', 'cross', 'keys', 'index', 'split',
    'format', 'indices', 'meshgrid'}

LINEAR = {'tile', 'repeat', 'diag', 'concatenate', 'stack', 'vstack', 'hstack',
    'roll', 'flip', 'take', 'broadcast_to', 'expand_dims', 'moveaxis', 'full',
    'rollaxis', 'fftn', 'ifftn', 'fft', 'ifft', 'rfftn', 'irfftn', 'average',
    'mean', 'block', 'append', 'nan_to_num', 'fromiter', 'atleast_1d', 'trace',
    'sample', 'short_range_model', 'wigner', 'Fourier_interpolation', 'copy',
    'interpolate', 'full_like', 'delete', 'insert', 'nansum', 'nanmax',
    'imag', 'getattr', 'sparse_array', 'complex128', 'float64', 'delta',
    'split', 'array_split', 'dstack', 'norm', 'round', 'union', 'column_stack', 'next', 'iter',
    'reversed', 'set', 'dict', 'asfarray', 'triu', 'tril', 'linspace'}

class Stop(Exception):
    """The path ends (error exit)."""

class St:
    def __init__(self):
        self.env = {}
        self.cells = {}
        self.objs = {}
        self.ops = {}
        self.done = None    # value returned

    def copy(self):
        s = St()
        s.env = dict(self.env)
        s.cells = dict(self.cells)
        s.objs = {k: dict(v, fields=dict(v['fields']), flags=dict(v['flags']),
            changed=set(v['changed'])) for k, v in self.objs.items()}
        s.ops = dict(self.ops)
        s.done = self.done
        return s

class Units:
    DEPTH = 5
    CAP = 24
    STEPS = 200000

    def __init__(self, root):
        self.models = Models(root)
        self.project = self.models.project
        self.found = {}
        self.unknown = set()
        self.count = 0
        self.info = dict(routines=[], walks=0, checked={})

    # --- reporting

    def add(self, rule, construct, node, message, st):
        f = self.entry
        if self.muted:
            return
        self.found.setdefault((rule, f.qualname, construct), '%s: %s (%s)' % (
            self.module().where(node), message, ', '.join('%s=%s' % (k, v)
            for k, v in sorted(self.setting.items())) or 'always'))

    def module(self):
        return self.stack[-1].module if self.stack else self.entry.module

    def checked(self, what):
        self.info['checked'][what] = self.info['checked'].get(what, 0) + 1

    # --- cells and objects

    def new(self, st, value):
        self.count += 1
        st.cells[self.count] = value
        return 'arr', self.count

    def read(self, st, v):
        if v[0] == 'arr':
            return st.cells.get(v[1], TOP)
        return v

    def flat(self, st, v):
        v = self.read(st, v)
        if v[0] == 'tup':
            return self.join(st, [self.flat(st, x) for x in v[1]])
        if v[0] == 'map':
            return self.join(st, [self.flat(st, x) for k, x in v[1]])
        if v[0] == 'c':
            return ONE if v[1] is not None else ZERO
        if v[0] in ('obj', 'fun', 'mod', 'cls', 'meth'):
            return ONE
        return v

    def join(self, st, values):
        out = ZERO
        for v in values:
            v = self.flat(st, v)
            if v == ZERO or v == out:
                continue
            if out == ZERO:
                out = v
            elif out == TOP or v == TOP:
                out = TOP
            elif out[0] == 'f' == v[0]:
                out = TOP if out[1:] != v[1:] else out
            elif ONE in (out, v):
                out = v if out == ONE else out
            else:
                out = TOP if out[1:] != v[1:] else ('q',) + out[1:]
        return out

    def make(self, st, kind, name, flags):
        self.count += 1
        st.objs[self.count] = dict(kind=kind, name=name, fields={},
            flags=dict(flags), changed=set())
        return 'obj', self.count

    def child(self, st, o, name):
        obj = st.objs[o[1]]
        if name not in obj['fields']:
            flags = {}
            path = obj['name'] + '.' + name
            for k in FLAGS[name]:
                if obj['kind'] == 'driver' or obj.get('driver'):
                    flags[k] = k == 'rydberg'
                else:
                    flags[k] = self.setting.get(path + '.' + k)
            obj['fields'][name] = self.make(st, name, path, flags)
            if obj.get('given'):
                st.objs[obj['fields'][name][1]]['given'] = True
            if obj['kind'] == 'driver' or obj.get('driver'):
                st.objs[obj['fields'][name][1]]['driver'] = True
            if obj['kind'] == 'elph' and name == 'ph' and flags[
                    'divide_mass'] != obj['flags'].get('divide_mass'):
                st.objs[obj['fields'][name][1]]['mixed'] = True
        return obj['fields'][name]

    def convention(self, st, o, attr):
        """Powers attribute must have, None if unknown."""
        obj = st.objs[o[1]]
        spec = FIELDS.get(obj['kind'], {}).get(attr)
        if spec is None:
            return None
        flag, yes, no = spec
        if flag is None:
            return yes
        v = obj['flags'].get(flag)
        return None if v is None else yes if v else no

    def get(self, st, o, attr, node):
        obj = st.objs[o[1]]
        kind = obj['kind']
        if attr in FLAGS[kind]:
            v = obj['flags'].get(attr)
            return ('c', v) if v is not None else ONE
        if attr in obj['fields']:
            return obj['fields'][attr]
        if attr == 'lr' and obj.get('mixed'):
            return 'c', False   # not possible if settings differ
        if attr in PARTS.get(kind, ()):
            return self.child(st, o, attr)
        cls = self.models.classes.get(kind) if kind != 'driver' \
            else self.driver
        if cls is not None and attr in cls.methods:
            m = cls.methods[attr]
            if m.prop:
                return TOP
            return 'fun', m, None if m.static else o, None
        if kind == 'ph' and attr == 'M':
            return 'f', 0, 1
        if attr in FIELDS.get(kind, {}):
            c = self.convention(st, o, attr)
            v = self.new(st, TOP if c is None else ('q',) + tuple(c))
            obj['fields'][attr] = v
            return v
        return ONE

    def put(self, st, o, attr, value):
        obj = st.objs[o[1]]
        kind = obj['kind']
        if attr in FLAGS[kind]:
            v = self.read(st, value)
            new = v[1] if v[0] == 'c' else None
            old = obj['flags'].get(attr)
            # all quantities that exist depend on it
            for k, spec in FIELDS[kind].items():
                if spec[0] == attr and k not in obj['fields'] and k in KEPT \
                        and obj.get('given') and old is not None:
                    self.get(st, o, k, None)
            obj['flags'][attr] = new
            obj['changed'].add('flag:' + attr)
            return
        if value[0] not in ('arr', 'obj', 'fun', 'c'):
            value = self.new(st, value)
        obj['fields'][attr] = value
        obj['changed'].add(attr)

    # --- powers

    def mul(self, st, a, b, sign=1):
        a, b = self.flat(st, a), self.flat(st, b)
        if TOP in (a, b):
            return TOP
        if ZERO in (a, b):
            return ZERO
        return ('q' if 'q' in (a[0], b[0]) else 'f', a[1] + sign * b[1],
            a[2] + sign * b[2])

    def plus(self, st, a, b, node):
        a, b = self.flat(st, a), self.flat(st, b)
        if a == ZERO:
            return b
        if b == ZERO:
            return a
        if a == TOP:
            return b if b[0] == 'q' else TOP
        if b == TOP:
            return a if a[0] == 'q' else TOP
        if a[0] == 'q' == b[0] and a[1:] != b[1:]:
            if self.same(st) and a[2] != b[2]:
                self.add('mixed-conventions', ast.unparse(node)[:60], node,
                    'quantities with different mass factors are added', st)
            return TOP
        if a[0] == 'q':
            return a
        if b[0] == 'q':
            return b
        return a if a == b else TOP

    def same(self, st):
        """Do all given models agree on the division by masses?"""
        return len({v for k, v in self.setting.items() if k.endswith(
            '.divide_mass')}) < 2

    # --- names

    def lookup(self, node):
        """Global name or dotted name: module, function, class, constant."""
        chain = []
        while isinstance(node, ast.Attribute):
            chain.append(node.attr)
            node = node.value
        if not isinstance(node, ast.Name):
            return None
        t = self.project.member(self.module(), node.id)
        for attr in chain[::-1]:
            if isinstance(t, Module):
                t = self.project.member(t, attr)
            elif isinstance(t, tuple) and t[0] == 'ext':
                t = 'ext', t[1] + '.' + attr
            else:
                return None
        return t

    # --- expressions

    def ev(self, e, st):
        self.steps += 1
        if self.steps > self.STEPS:
            raise Stop
        m = getattr(self, 'ev_' + type(e).__name__, None)
        if m is None:
            return ONE
        return m(e, st)

    def ev_Constant(self, e, st):
        return 'c', e.value

    def ev_JoinedStr(self, e, st):
        return ONE

    def ev_Name(self, e, st):
        if e.id in st.env:
            return st.env[e.id]
        return self.named(e, st)

    def named(self, e, st):
        t = self.lookup(e)
        if isinstance(t, Func):
            return 'fun', t, None, None
        if isinstance(t, Class):
            return 'cls', t
        if isinstance(t, tuple) and t[0] == 'global':
            m, name = t[1:]
            if m.short == 'misc' and name in ('Ry', 'Ha'):
                return 'f', 1, 0
            vals = m.globals.get(name, [])
            if len(vals) == 1 and isinstance(vals[0], ast.Constant):
                return 'c', vals[0].value
        return ONE

    def ev_Attribute(self, e, st):
        if isinstance(e.value, (ast.Name, ast.Attribute)) and not self.local(e,
                st):
            return self.named(e, st)
        v = self.ev(e.value, st)
        if v[0] == 'obj':
            return self.get(st, v, e.attr, e)
        if v[0] in ('arr', 'q', 'f', 'z', 'top', 'tup'):
            if e.attr == 'T':
                return v
            if e.attr in ('real', 'imag', 'flat'):
                return v if e.attr != 'imag' else self.flat(st, v)
            if e.attr in ('shape', 'size', 'ndim', 'dtype', 'nbytes'):
                return ONE
            return 'meth', v, e.attr
        return ONE

    def local(self, e, st):
        while isinstance(e, ast.Attribute):
            e = e.value
        return isinstance(e, ast.Name) and e.id in st.env

    def ev_Subscript(self, e, st):
        v = self.ev(e.value, st)
        i = self.ev(e.slice, st)
        r = self.read(st, v)
        if r[0] == 'map':
            i = self.read(st, i)
            if i[0] == 'c':
                for k, x in r[1]:
                    if k == i[1]:
                        return x
            vals = {self.flat(st, x) for k, x in r[1]}
            return vals.pop() if len(vals) == 1 else TOP
        if r[0] == 'tup':
            s = e.slice
            if isinstance(s, ast.Constant) and isinstance(s.value, int) \
                    and -len(r[1]) <= s.value < len(r[1]):
                return r[1][s.value]
            if isinstance(s, ast.Slice):
                lo = s.lower.value if isinstance(s.lower, ast.Constant) else \
                    None if s.lower is None else ...
                up = s.upper.value if isinstance(s.upper, ast.Constant) else \
                    None if s.upper is None else ...
                if ... not in (lo, up) and s.step is None:
                    return 'tup', r[1][lo:up]
            return self.flat(st, r)
        if v[0] in ('arr', 'q', 'f', 'z', 'top'):
            return v
        return ONE

    def ev_Slice(self, e, st):
        return ONE

    def ev_Starred(self, e, st):
        return self.ev(e.value, st)

    def ev_Tuple(self, e, st):
        return 'tup', tuple(self.ev(x, st) for x in e.elts)

    ev_List = ev_Set = ev_Tuple

    def ev_Dict(self, e, st):
        if e.values and all(isinstance(k, ast.Constant) for k in e.keys):
            return 'map', tuple((k.value, self.ev(v, st)) for k, v in
                zip(e.keys, e.values))
        return self.join(st, [self.ev(v, st) for v in e.values]) \
            if e.values else ZERO

    def ev_UnaryOp(self, e, st):
        if isinstance(e.op, ast.Not):
            d = self.decide(e, st)
            return ONE if d is None else ('c', d)
        v = self.ev(e.operand, st)
        if v[0] == 'c' and isinstance(e.op, ast.USub) and isinstance(v[1],
                (int, float)):
            return 'c', -v[1]
        return self.flat(st, v)

    def ev_BinOp(self, e, st):
        a, b = self.ev(e.left, st), self.ev(e.right, st)
        return self.binary(e.op, a, b, e, st)

    FOLD = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult:
        operator.mul, ast.BitXor: operator.xor, ast.BitAnd: operator.and_,
        ast.BitOr: operator.or_, ast.Div: operator.truediv}
    CALLS = {'xor': operator.xor, 'logical_xor': operator.xor, 'ne':
        operator.ne, 'not_equal': operator.ne, 'eq': operator.eq, 'equal':
        operator.eq, 'logical_and': operator.and_, 'logical_or': operator.or_}

    def binary(self, op, a, b, e, st):
        x, y = self.read(st, a), self.read(st, b)
        if x[0] == 'c' == y[0] and type(op) in self.FOLD and all(isinstance(
                v[1], (int, float)) for v in (x, y)):
            try:
                return 'c', self.FOLD[type(op)](x[1], y[1])
            except Exception:
                return ONE
        if isinstance(op, (ast.Mult, ast.MatMult)):
            ra, rb = self.read(st, a), self.read(st, b)
            if ra[0] == 'tup' and rb[0] != 'tup':
                return a    # repetition
            return self.mul(st, a, b)
        if isinstance(op, (ast.Div, ast.FloorDiv)):
            return self.mul(st, a, b, -1)
        if isinstance(op, (ast.Add, ast.Sub)):
            ra, rb = self.read(st, a), self.read(st, b)
            if ra[0] == 'tup' == rb[0]:
                return 'tup', ra[1] + rb[1]
            return self.plus(st, a, b, e)
        if isinstance(op, ast.Pow):
            a = self.flat(st, a)
            b = self.read(st, b)
            if a in (TOP, ZERO):
                return a
            if b[0] == 'c' and isinstance(b[1], (int, float)):
                p = Fraction(b[1]).limit_denominator(12)
                return a[0], a[1] * p, a[2] * p
            return ONE if a[1:] == (0, 0) else TOP
        return self.join(st, [a, b])

    def ev_BoolOp(self, e, st):
        d = self.decide(e, st)
        if d is not None and all(self.decide(v, st) is not None for v in
                e.values):
            return 'c', d
        return self.join(st, [self.ev(v, st) for v in e.values])

    def ev_Compare(self, e, st):
        d = self.decide(e, st)
        return ONE if d is None else ('c', d)

    def ev_IfExp(self, e, st):
        d = self.decide(e.test, st)
        if d is not None:
            return self.ev(e.body if d else e.orelse, st)
        self.unclear(e.test, st)
        a, b = self.ev(e.body, st), self.ev(e.orelse, st)
        if a[0] in ('fun', 'obj', 'cls'):
            return a
        return self.join(st, [a, b])

    def ev_Lambda(self, e, st):
        return 'fun', e, None, True

    def ev_ListComp(self, e, st):
        keep = dict(st.env)
        for g in e.generators:
            self.bind(g.target, self.element(self.ev(g.iter, st), g.iter, st),
                st, e)
        v = self.ev(e.elt, st)
        st.env = keep
        return self.flat(st, v)

    ev_GeneratorExp = ev_SetComp = ev_ListComp

    def ev_DictComp(self, e, st):
        keep = dict(st.env)
        for g in e.generators:
            self.bind(g.target, self.element(self.ev(g.iter, st), g.iter, st),
                st, e)
        v = self.ev(e.value, st)
        st.env = keep
        return self.flat(st, v)

    def ev_NamedExpr(self, e, st):
        v = self.ev(e.value, st)
        self.bind(e.target, v, st, e)
        return v

    def element(self, v, it, st):
        """Element of an iterable."""
        c = callee(it)
        if c == 'enumerate' and it.args:
            return 'tup', (ONE, self.element(self.ev(it.args[0], st),
                it.args[0], st))
        if c == 'zip':
            return 'tup', tuple(self.element(self.ev(a, st), a, st)
                for a in it.args)
        if c == 'items' and isinstance(it.func, ast.Attribute):
            return 'tup', (ONE, self.ev(it.func.value, st))
        if c in ('range', 'product', 'keys'):
            return ONE
        r = self.read(st, v)
        if r[0] == 'tup':
            return r[1][0] if r[1] and all(x == r[1][0] for x in r[1]) \
                else self.flat(st, r)
        return v if v[0] in ('arr', 'f', 'q', 'top') else ONE

    # --- calls

    def ev_Call(self, e, st):
        c = callee(e)
        f = e.func
        if c == 'info' and any(k.arg == 'error' and isinstance(k.value,
                ast.Constant) and k.value.value for k in e.keywords):
            raise Stop
        if c in ('exit', 'Abort'):
            raise Stop
        if c == 'update' and isinstance(f, ast.Attribute):
            o = self.names(f.value, st)
            if o is not None:
                for a in e.args:
                    a = self.ev(a, st)
                    if a[0] == 'map':
                        for k, v in a[1]:
                            self.put(st, o, k, v)
                    else:
                        self.spoil(st, o)
                for k in e.keywords:
                    v = self.ev(k.value, st)
                    if k.arg is not None:
                        self.put(st, o, k.arg, v)
                    elif v[0] == 'map':
                        for x, y in v[1]:
                            self.put(st, o, x, y)
                    else:
                        self.spoil(st, o)
                return NONE
        if isinstance(f, ast.Name) and f.id in st.env:
            target = st.env[f.id]
        elif isinstance(f, ast.Attribute) and (not isinstance(f.value,
                (ast.Name, ast.Attribute)) or self.local(f, st)):
            target = self.ev(f, st)
        else:
            target = self.named(f, st)
            if target == ONE:
                target = 'ext', c
        args = [self.ev(a, st) for a in e.args]
        kws = {}
        for k in e.keywords:
            v = self.ev(k.value, st)
            if k.arg is None and v[0] == 'map':
                kws.update((x, y) for x, y in v[1] if isinstance(x, str))
            elif k.arg is None:
                a = self.stack[-1].func if self.stack else self.entry
                a = getattr(a, 'node', a).args
                if not (isinstance(k.value, ast.Name) and a.kwarg is not None
                        and a.kwarg.arg == k.value.id):
                    kws[None] = v   # may contain anything
            else:
                kws[k.arg] = v
        if target[0] in ('ext', 'meth') or target == ONE:
            out = kws.pop('out', None)
            v = self.method(target, e, args, kws, st) if target[0] == 'meth' \
                else self.external(c, e, args, kws, st)
            if out is not None and out[0] == 'arr':
                new = self.flat(st, v)
                if out in args or not isinstance(next(k.value for k in
                        e.keywords if k.arg == 'out'), ast.Subscript):
                    st.cells[out[1]] = new
                else:
                    self.store(st, out, new)
                self.touch(st, out)
            return v
        if target[0] == 'cls':
            return self.construct(target[1], e, args, kws, st)
        if target[0] == 'fun':
            return self.call(target, e, args, kws, st)
        if all(self.flat(st, a) in (ONE, ZERO) for a in args):
            return ONE
        return TOP

    def construct(self, cls, e, args, kws, st):
        if cls.name == 'Model' and cls.module.short in FLAGS:
            kind = cls.module.short
            init = cls.methods.get('__init__')
            b = self.arguments(init, args, kws, e, st, True) if init else {}
            flags = {}
            for k in FLAGS[kind]:
                v = b.get(k, ONE)
                flags[k] = v[1] if v[0] == 'c' else None
            o = self.make(st, kind, 'Model', flags)
            for p in PARTS.get(kind, ()):
                if b.get(p, ONE)[0] == 'obj':
                    st.objs[o[1]]['fields'][p] = b[p]
            return o
        if cls.name == 'SharedArray':
            return ZERO
        return ONE

    def arguments(self, func, args, kws, e, st, method=False):
        """Values of parameters."""
        node = func.node if isinstance(func, Func) else func
        a = node.args
        names = [p.arg for p in a.posonlyargs + a.args]
        if method and names:
            names = names[1:]
        out = {}
        if any(isinstance(x, ast.Starred) for x in getattr(e, 'args', ())):
            args = []
        for n, v in zip(names, args):
            out[n] = v
        for k, v in kws.items():
            if k is not None:
                out[k] = v
        pos = a.posonlyargs + a.args
        for p, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) \
                + [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d]:
            if p.arg not in out and None not in kws:
                out[p.arg] = ('c', d.value) if isinstance(d, ast.Constant) \
                    else ONE
        return out

    def external(self, c, e, args, kws, st):
        text = ast.unparse(e.func)
        if text.split('.')[-2:-1] == ['copy'] and c == 'copy' or c \
                == 'deepcopy' or text == 'copy':
            if args and args[0][0] == 'obj':
                return self.clone(st, args[0], c == 'deepcopy')
        if c == 'getattr' and len(e.args) >= 2 and args[0][0] == 'obj' and \
                args[1][0] == 'c' and isinstance(args[1][1], str):
            return self.get(st, args[0], args[1][1], e)
        if c == 'setattr' and len(e.args) == 3 and args[0][0] == 'obj':
            if args[1][0] == 'c' and isinstance(args[1][1], str):
                self.put(st, args[0], args[1][1], args[2])
            else:
                self.spoil(st, args[0])
            return NONE
        if c in ('Bcast', 'bcast', 'Barrier', 'scatter', 'gather', 'allgather',
                'allreduce', 'reduce'):
            return args[0] if args else ONE
        if c in ('Reduce', 'Allreduce', 'Gatherv', 'Allgatherv', 'Scatterv',
                'Allgather', 'Gather', 'Scatter') and len(args) > 1:
            send, recv = args[:2]
            def buf(v):
                return v[1][0] if v[0] == 'tup' and v[1] else v
            send, recv = buf(send), buf(recv)
            if recv[0] == 'arr':
                s, r = self.flat(st, send), self.flat(st, recv)
                if s not in (ONE, ZERO):
                    st.cells[recv[1]] = s if r in (ZERO, ONE, s) else TOP
            return NONE
        if c == 'shared_array':
            return 'tup', (ONE, ONE, self.new(st, ZERO))
        if c == 'fromfile':
            return 'q', 0, 0
        return self.numeric(c, e, args, kws, st)

    def clone(self, st, o, deep):
        old = st.objs[o[1]]
        n = self.make(st, old['kind'], old['name'], old['flags'])
        new = st.objs[n[1]]
        for k in ('driver', 'given'):
            if k in old:
                new[k] = old[k]
        new['fields'] = dict(old['fields'])
        if deep:
            for k, v in old['fields'].items():
                if v[0] == 'arr':
                    new['fields'][k] = self.new(st, self.read(st, v))
                elif v[0] == 'obj':
                    new['fields'][k] = self.clone(st, v, True)
        return n

    def spoil(self, st, o):
        obj = st.objs[o[1]]
        for k in obj['flags']:
            obj['flags'][k] = None
        for k in FIELDS.get(obj['kind'], ()):
            obj['fields'][k] = self.new(st, TOP)

    def numeric(self, c, e, args, kws, st):
        if c in FRESH and not (c in ('list', 'set', 'dict') and args):
            return ZERO
        if c in ('array', 'copy', 'list', 'sorted', 'tuple', 'abs', 'absolute',
                'sum', 'asarray', 'ascontiguousarray', 'max', 'min', 'real',
                'conj', 'conjugate', 'float', 'complex'):
            v = args[0] if args else ZERO
            if c in ('asarray', 'ascontiguousarray'):
                return v
            if c in ('list', 'tuple', 'sorted') and v[0] == 'tup':
                return v
            if c in ('max', 'min') and len(args) > 1:
                return self.join(st, args)
            if v[0] == 'c' and c not in ('array',):
                return v if c in ('float', 'complex') else ONE
            return self.flat(st, v)
        if c in ('bool', 'int'):
            return args[0] if args else ONE
        if c in self.CALLS and len(args) == 2:
            x, y = self.read(st, args[0]), self.read(st, args[1])
            if x[0] == 'c' == y[0] and isinstance(x[1], bool) and isinstance(
                    y[1], bool):
                return 'c', self.CALLS[c](x[1], y[1])
        if c in ('not_', 'logical_not') and args and self.read(st, args[0])[
                0] == 'c':
            return 'c', not self.read(st, args[0])[1]
        if c == 'dict' and kws and not args and None not in kws:
            return 'map', tuple(sorted((k, v) for k, v in kws.items()))
        if c in ('reshape', 'transpose', 'swapaxes', 'ravel', 'squeeze') \
                and args:
            return args[0]
        if c == 'sgnsqrt' or c == 'sqrt':
            v = self.flat(st, args[0]) if args else ONE
            if v in (TOP, ZERO):
                return v
            return v[0], v[1] * HALF, v[2] * HALF
        if c == 'square':
            return self.mul(st, args[0], args[0])
        if c in ('reciprocal',):
            return self.mul(st, ONE, args[0], -1)
        if c in ('divide', 'true_divide') and len(args) > 1:
            return self.mul(st, args[0], args[1], -1)
        if c in ('add', 'subtract') and len(args) > 1:
            return self.plus(st, args[0], args[1], e)
        if c in PRODUCTS:
            out = ONE
            for a in args:
                if self.read(st, a)[0] == 'c':
                    continue
                out = self.mul(st, out, a)
            return out
        if c in ('eigh', 'eig'):
            return 'tup', (self.flat(st, args[0]), ONE) if args else ONE
        if c in ('power',) and len(args) > 1:
            return self.binary(ast.Pow(), args[0], args[1], e, st)
        if c in PURE:
            return ONE
        vals = [self.flat(st, a) for a in args] + [self.flat(st, v)
            for v in kws.values()]
        if TOP in vals:
            return TOP
        vals = {v for v in vals if v != ZERO and not (v[0] == 'f' and v[1:]
            == (0, 0))}
        if not vals:
            return ONE
        if c == 'where' and len(args) == 3:
            d = self.read(st, args[0])
            if d[0] == 'c':
                return self.flat(st, args[1 if d[1] else 2])
            return TOP if len(vals) > 1 or ONE in (self.flat(st, a) for a in
                args[1:]) else vals.pop()
        if c not in LINEAR:
            self.unknown.add(c)
            return TOP
        return vals.pop() if len(vals) == 1 else TOP

    def method(self, target, e, args, kws, st):
        v, name = target[1:]
        if name in VIEWS:
            return v
        if name in SAME:
            return self.flat(st, v)
        if name in ('dot', 'multiply'):
            return self.mul(st, v, args[0]) if args else TOP
        if name in ('append', 'extend', 'add') and args:
            if v[0] == 'arr':
                st.cells[v[1]] = self.join(st, [v, args[0]])
            return NONE
        if name in ('setdiag', 'fill') and args:
            if v[0] == 'arr':
                self.store(st, v, args[0])
            return NONE
        if name in ('Bcast', 'sync', 'update', 'sort'):
            return NONE
        if name == 'pop':
            return self.flat(st, v)
        if name == 'tofile':
            r = self.flat(st, v)
            if r[0] == 'q' and self.origin == 'elph':
                self.checked('file')
                if r[2] != 0:
                    self.add('file-convention', 'tofile', e, 'coupling is '
                        'written with power %s of the masses' % r[2], st)
            return NONE
        if name in PURE or name in ('items', 'get', 'setdefault'):
            return ONE if name not in ('get', 'setdefault') \
                else self.flat(st, v)
        return self.numeric(name, e, [v] + args, kws, st)

    def describe(self, what, powers):
        return 'power %s of the %s' % (powers[1] if what == 'M' else powers[0],
            'masses' if what == 'M' else 'Rydberg energy')

    def call(self, target, e, args, kws, st):
        func, me, closure = target[1], target[2], target[3]
        name = func.qualname if isinstance(func, Func) else None
        if name in READERS:
            return READERS[name]
        if name in WRITERS:
            i, what = WRITERS[name]
            b = self.arguments(func, args, kws, e, st)
            params = [p.arg for p in func.node.args.args]
            if i < len(params) and params[i] in b:
                v = b[params[i]]
                vals = [self.flat(st, x) for x in v[1]] if v[0] == 'tup' \
                    else [self.flat(st, v)]
                for v in vals:
                    if v[0] != 'q':
                        continue
                    self.checked('file')
                    p = v[2] if what == 'M' else v[1]
                    if p != 0:
                        self.add('file-convention', name, e, 'data are '
                            'written with ' + self.describe(what, v[1:]), st)
            return NONE
        if name in SETTERS:
            kind, arrays, flag, powers = SETTERS[name]
            b = self.arguments(func, args, kws, e, st)
            f = b.get(flag, ONE)
            if f[0] == 'c':
                want = powers if f[1] else (0, 0)
                for a in arrays:
                    v = self.flat(st, b.get(a, ONE))
                    if v[0] == 'q':
                        self.checked('argument')
                        if v[1:] != tuple(want):
                            self.add('argument-convention', name, e, '%s has '
                                '%s, but %s=%s is passed' % (a, self.describe(
                                'M' if flag == 'divide_mass' else 'Ry', v[1:]),
                                flag, f[1]), st)
            m = b.get(kind, ONE)
            if m[0] == 'obj':
                c = self.convention(st, m, 'data')
                self.put(st, m, 'data', TOP if c is None else ('q',) + tuple(c))
            return NONE
        if name and name.endswith('.sample') and args and args[0][0] == 'fun' \
                and func.cls is None:
            return self.call(args[0], e, [], {}, st)
        if name == 'elph.Model.sample':
            m = self.models.classes['elph'].methods.get('g')
            if m is not None:
                return self.call(('fun', m, me, None), e, [], {}, st)
        if name in ('ph.sgnsqrt', 'misc.info'):
            if name == 'misc.info':
                return NONE
            v = self.flat(st, args[0]) if args else ONE
            if v[0] == 'q' and v[1] == 0:
                self.checked('frequency')
                if v[2] != -1:
                    self.add('frequency-convention', 'sgnsqrt', e,
                        'frequencies are calculated from force constants with '
                        + self.describe('M', v[1:]), st)
            return self.numeric('sqrt', e, args, kws, st)
        if name and name.startswith('MPI.'):
            return self.external(func.name, e, args, kws, st)
        if name and name.startswith('bravais.'):
            v = self.numeric('tile', e, args, kws, st)
            return v
        if name and func.module.short not in MODULES:
            return ONE if all(self.flat(st, v) in (ONE, ZERO) for v in
                list(args) + list(kws.values())) else TOP
        if me is not None and me[0] == 'obj' and name and \
                func.cls is not None and func.cls.name == 'Model' and any(
                isinstance(n, ast.Call) and callee(n) == 'Model'
                for n in ast.walk(func.node)):
            # new model of the same kind, looked at separately
            o = st.objs[me[1]]
            return self.make(st, o['kind'], 'new', o['flags'])
        if len(self.stack) >= self.DEPTH or func in [s.func for s in
                self.stack] or func is self.entry and me is None:
            vals = [self.flat(st, a) for a in args]
            return ONE if all(v in (ONE, ZERO) for v in vals) and me is None \
                else TOP
        return self.inline(func, me, closure, e, args, kws, st)

    class Frame:
        def __init__(self, func, module):
            self.func, self.module = func, module

    def inline(self, func, me, closure, e, args, kws, st):
        node = func.node if isinstance(func, Func) else func
        module = func.module if isinstance(func, Func) else self.module()
        b = self.arguments(func, args, kws, e, st, me is not None)
        env = dict(st.env) if closure else {}
        names = [p.arg for p in node.args.posonlyargs + node.args.args
            + node.args.kwonlyargs]
        for i, n in enumerate(names):
            if i == 0 and me is not None:
                env[n] = me
            else:
                env[n] = self.hold(b.get(n, ONE), st)
        for x in (node.args.vararg, node.args.kwarg):
            if x is not None:
                env[x.arg] = TOP if any(self.flat(st, a) not in (ONE, ZERO)
                    for a in list(args) + list(kws.values())) else ONE
        if isinstance(node, ast.Lambda):
            keep = st.env
            st.env = env
            v = self.ev(node.body, st)
            st.env = keep
            return v
        if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in
                ast.walk(node)):
            return TOP
        self.stack.append(self.Frame(func, module))
        sub = st.copy()
        sub.env = env
        try:
            outs = self.block(node.body, [sub])
        finally:
            self.stack.pop()
        if not outs:
            raise Stop
        merged = self.merge(outs)
        value = merged.done if merged.done is not None else NONE
        st.cells, st.objs, st.ops = merged.cells, merged.objs, merged.ops
        return value

    def hold(self, v, st):
        """Arrays passed or assigned can be modified in place."""
        if v[0] in ('q', 'f', 'z', 'top'):
            return self.new(st, v)
        return v

    # --- states

    def merge(self, states):
        if len(states) == 1:
            return states[0]
        out = states[0]
        for s in states[1:]:
            cells = dict(out.cells)
            for k, v in s.cells.items():
                if k not in cells:
                    cells[k] = v
                elif cells[k] != v:
                    cells[k] = self.blend(cells[k], v)
            ops = dict(out.ops)
            ops.update(s.ops)
            pairs = {}
            def same(a, b):
                if a == b:
                    return a
                if a is None or b is None:
                    return a if b is None else b
                if a[0] == 'arr' == b[0]:
                    # views of the same array in both states remain so
                    if (a, b) not in pairs:
                        self.count += 1
                        cells[self.count] = self.blend(cells.get(a[1], TOP),
                            cells.get(b[1], TOP))
                        ops[self.count] = tuple(x for x in out.ops.get(a[1],
                            ()) if x in s.ops.get(b[1], ()))
                        pairs[a, b] = 'arr', self.count
                    return pairs[a, b]
                if NONE in (a, b):
                    return a if b == NONE else b
                if a[0] == 'obj' == b[0]:
                    return a
                if a[0] == 'tup' == b[0] and len(a[1]) == len(b[1]):
                    return 'tup', tuple(same(x, y) for x, y in zip(a[1], b[1]))
                if {a[0], b[0]} & {'obj', 'fun', 'cls'}:
                    return a if a[0] in ('obj', 'fun', 'cls') else b
                def val(x):
                    x = cells.get(x[1], TOP) if x[0] == 'arr' else x
                    return ONE if x[0] == 'c' else TOP if x[0] in ('tup',
                        'map', 'meth') else x
                self.count += 1
                cells[self.count] = self.blend(val(a), val(b))
                return 'arr', self.count
            objs = {}
            for k in list(out.objs) + [k for k in s.objs if k not in out.objs]:
                a, b = out.objs.get(k), s.objs.get(k)
                if a is None or b is None:
                    objs[k] = a or b
                    continue
                o = dict(a)
                o['flags'] = {f: a['flags'].get(f) if a['flags'].get(f)
                    == b['flags'].get(f) else None for f in a['flags']}
                o['changed'] = a['changed'] | b['changed']
                o['fields'] = {}
                for f in set(a['fields']) | set(b['fields']):
                    if f in a['fields'] and f in b['fields']:
                        o['fields'][f] = same(a['fields'][f], b['fields'][f])
                    else:
                        v = a['fields'].get(f, b['fields'].get(f))
                        o['fields'][f] = v
                objs[k] = o
            env = {}
            for k in set(out.env) | set(s.env):
                env[k] = same(out.env.get(k), s.env.get(k))
            n = St()
            n.env, n.objs = env, objs
            n.done = same(out.done, s.done)
            n.cells = cells
            n.ops = ops
            out = n
        return out

    def blend(self, a, b):
        if a == b:
            return a
        if ZERO in (a, b):
            return b if a == ZERO else a
        if a[0] == 'q' == b[0] or 'top' in (a[0], b[0]):
            return TOP
        if ONE in (a, b):
            return a if b == ONE else b
        return TOP

    # --- statements

    def block(self, body, states):
        for n in body:
            out = []
            for st in states:
                if st.done is not None:
                    out.append(st)
                    continue
                try:
                    out += self.statement(n, st)
                except Stop:
                    if self.steps > self.STEPS:
                        raise
            states = self.reduce(out)
            if not states:
                break
        return states

    def reduce(self, states):
        """Drop equivalent states, merge similar ones if there are many."""
        if len(states) < 2:
            return states
        seen = {}
        for s in states:
            seen.setdefault(self.signature(s), s)
        states = list(seen.values())
        for important in True, False:
            if len(states) <= self.CAP:
                break
            groups = {}
            for s in states:
                key = s.done is not None, important and self.signature(s, True)
                groups.setdefault(key, []).append(s)
            states = [self.merge(g) for g in groups.values()]
        return states

    def signature(self, st, important=False):
        """Values of a state up to the names of arrays and objects."""
        seen = {}
        def canon(v):
            if v[0] == 'arr':
                x = st.cells.get(v[1], TOP)
                if x == ONE or important and trivial(x):
                    return None if important else ONE
                if v in seen:
                    return seen[v]
                seen[v] = 'arr', len(seen)
                return canon(x), seen[v], st.ops.get(v[1])
            if v[0] == 'obj':
                if v in seen:
                    return seen[v]
                seen[v] = 'obj', len(seen)
                o = st.objs[v[1]]
                spec = FIELDS.get(o['kind'], ())
                return (seen[v], tuple(sorted((k, str(x)) for k, x in
                    o['flags'].items())), tuple(sorted(k for k in o['changed']
                    if not important or k in spec or k.startswith('flag:'))),
                    table(o['fields']))
            if v[0] == 'tup':
                out = tuple(canon(x) for x in v[1])
                return ('tup', out) if not important or any(out) else None
            if v[0] == 'map':
                out = tuple((str(k), canon(x)) for k, x in v[1])
                return ('map', out) if not important else None
            if v[0] == 'fun':
                return None if important else ('fun', id(v[1]),
                    v[2] and canon(v[2]))
            return None if important and trivial(v) else v
        def trivial(v):
            return v[0] in ('c', 'cls', 'z') or v[:1] == ('f',) and v == ONE
        def table(names):
            out = [(k, canon(v)) for k, v in sorted(names.items())]
            return tuple(x for x in out if x[1] is not None)
        return table(st.env), st.done and canon(st.done)

    def statement(self, n, st):
        if isinstance(n, ast.Expr):
            self.ev(n.value, st)
        elif isinstance(n, ast.Assign):
            v = self.ev(n.value, st)
            for t in n.targets:
                self.bind(t, v, st, n)
        elif isinstance(n, ast.AnnAssign) and n.value is not None:
            self.bind(n.target, self.ev(n.value, st), st, n)
        elif isinstance(n, ast.AugAssign):
            self.augment(n, st)
        elif isinstance(n, ast.Return):
            v = self.ev(n.value, st) if n.value is not None else NONE
            st.done = v
        elif isinstance(n, ast.If):
            d = self.decide(n.test, st)
            if d is None:
                self.unclear(n.test, st)
                self.ev(n.test, st)
                other = st.copy()
                self.assume(n.test, True, st)
                self.assume(n.test, False, other)
                return self.block(n.body, [st]) + self.block(n.orelse, [other])
            return self.block(n.body if d else n.orelse, [st])
        elif isinstance(n, (ast.For, ast.AsyncFor)):
            it = self.ev(n.iter, st)
            r = self.read(st, it)
            if r[0] == 'tup' and 0 < len(r[1]) <= 8 and isinstance(n.iter,
                    (ast.Tuple, ast.List)):
                states = [st]
                for x in r[1]:
                    live = [s for s in states if s.done is None]
                    rest = [s for s in states if s.done is not None]
                    for s in live:
                        self.bind(n.target, x, s, n)
                    states = rest + self.block(n.body, live)
                return states
            self.bind(n.target, self.element(it, n.iter, st), st, n)
            self.loops.append(n)
            try:
                out = self.block(n.body, [st])
            finally:
                self.loops.pop()
            return out
        elif isinstance(n, ast.While):
            if self.decide(n.test, st) is False:
                return [st]
            self.ev(n.test, st)
            return self.block(n.body, [st])
        elif isinstance(n, (ast.With, ast.AsyncWith)):
            for i in n.items:
                v = self.ev(i.context_expr, st)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, ONE, st, n)
            return self.block(n.body, [st])
        elif isinstance(n, ast.Try):
            other = st.copy()
            out = self.block(n.body + n.orelse, [st])
            for h in n.handlers:
                s = other.copy()
                if h.name:
                    s.env[h.name] = ONE
                out += self.block(h.body, [s])
            if n.finalbody:
                out = self.block(n.finalbody, out)
            return out
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            st.env[n.name] = 'fun', n, None, True
        elif isinstance(n, ast.Raise):
            raise Stop
        elif isinstance(n, ast.Assert):
            if self.decide(n.test, st) is False:
                raise Stop
        elif isinstance(n, ast.Delete):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    st.env.pop(t.id, None)
        return [st]

    def bind(self, t, v, st, node):
        if isinstance(t, ast.Name):
            st.env[t.id] = self.hold(v, st)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st) if self.local(t, st) else ONE
            if o[0] == 'obj':
                if t.attr == '__dict__':
                    self.spoil(st, o)
                else:
                    self.put(st, o, t.attr, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            r = self.read(st, v)
            if r[0] == 'tup' and len(r[1]) == len(t.elts) and not any(
                    isinstance(x, ast.Starred) for x in t.elts):
                for x, y in zip(t.elts, r[1]):
                    self.bind(x, y, st, node)
            else:
                r = self.flat(st, r)
                for x in t.elts:
                    self.bind(x.value if isinstance(x, ast.Starred) else x, r,
                        st, node)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, st)
            i = self.ev(t.slice, st)
            if base[0] == 'map' and isinstance(t.value, ast.Name):
                i = self.read(st, i)
                st.env[t.value.id] = ('map', tuple((k, x) for k, x in base[1]
                    if k != i[1]) + ((i[1], v),)) if i[0] == 'c' else TOP
                return
            if isinstance(t.value, (ast.Attribute, ast.Call)):
                o = self.names(t.value, st)
                if o is not None:
                    i = self.read(st, i)
                    if i[0] == 'c' and isinstance(i[1], str):
                        self.put(st, o, i[1], v)
                    else:
                        self.spoil(st, o)
                    return
            if base[0] == 'arr':
                if base in (v,):
                    return
                if self.whole(t.slice) and self.flat(st, v)[0] == 'q':
                    st.cells[base[1]] = self.flat(st, v)
                else:
                    self.store(st, base, v)
                self.touch(st, base)
        elif isinstance(t, ast.Starred):
            self.bind(t.value, v, st, node)

    def names(self, e, st):
        """Object whose dictionary of attributes is meant."""
        if isinstance(e, ast.Attribute) and e.attr == '__dict__':
            o = self.ev(e.value, st)
        elif isinstance(e, ast.Call) and callee(e) == 'vars' and e.args:
            o = self.ev(e.args[0], st)
        else:
            return None
        return o if o[0] == 'obj' else None

    def whole(self, s):
        return all(isinstance(x, ast.Constant) and x.value is ... or isinstance(
            x, ast.Slice) and x.lower is x.upper is x.step is None for x in
            (s.elts if isinstance(s, ast.Tuple) else [s]))

    def touch(self, st, base):
        """Model attribute modified in place."""
        for o in st.objs.values():
            for k, v in o['fields'].items():
                if v == base:
                    o['changed'].add(k)

    def store(self, st, base, v):
        r = self.read(st, v)
        old = st.cells.get(base[1], TOP)
        if r[0] == 'c' and (r[1] is None or r[1] == 0):
            return
        new = self.flat(st, v)
        if new == ZERO or new == old:
            return
        if old == ZERO:
            st.cells[base[1]] = new
        elif old[0] == 'tup':
            st.cells[base[1]] = self.join(st, [old, new])
        elif old[0] == 'q' and new[0] == 'q' and old != new:
            # values within the same array scaled one after the other
            st.cells[base[1]] = new if self.loops else TOP
        elif old[0] == 'q' and new == ONE:
            return
        else:
            st.cells[base[1]] = new if old == ONE else TOP

    def augment(self, n, st):
        v = self.ev(n.value, st)
        t = n.target
        if isinstance(t, ast.Name):
            base = st.env.get(t.id)
            if base is None:
                return
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st) if self.local(t, st) else ONE
            if o[0] != 'obj':
                return
            base = self.get(st, o, t.attr, n)
        else:
            base = self.ev(t.value, st)
        if base[0] != 'arr':
            if isinstance(t, ast.Name):
                st.env[t.id] = self.hold(self.binary(n.op, base, v, n, st), st)
            return
        old = st.cells.get(base[1], TOP)
        if old[0] == 'tup':
            st.cells[base[1]] = self.join(st, [old, v])
            return
        new = self.binary(n.op, old, v, n, st)
        f = self.flat(st, v)
        if isinstance(n.op, (ast.Mult, ast.Div)) and f[0] == 'f' and f[2] != 0:
            sign = f[2] if isinstance(n.op, ast.Mult) else -f[2]
            tag = self.axis(t, n.value)
            key = base[1]
            ops = st.ops.get(key, ())
            if tag is not None and (tag, sign) in ops and old[0] == 'q':
                self.add('same-axis', ast.unparse(t)[:40], n, 'the same axis '
                    'is scaled by masses twice', st)
            if tag is not None and (tag, -sign) not in ops:
                st.ops[key] = ops + ((tag, sign),)
            elif tag is not None:
                st.ops[key] = tuple(x for x in ops if x != (tag, -sign))
        st.cells[base[1]] = new
        self.touch(st, base)

    def axis(self, t, value):
        """Position of the index that is looped over."""
        def position(s):
            elts = s.elts if isinstance(s, ast.Tuple) else [s]
            def full(x):
                return isinstance(x, ast.Slice) and x.lower is None \
                    and x.upper is None
            def dots(x):
                return isinstance(x, ast.Constant) and x.value is ...
            pos = [i for i, x in enumerate(elts) if not full(x)
                and not dots(x)]
            if len(pos) != 1:
                return 'diag' if len(pos) > 1 else None
            i = pos[0]
            if any(dots(x) for x in elts[:i]):
                return i - len(elts)
            return i
        if isinstance(t, ast.Subscript):
            p = position(t.slice)
            return None if p == 'diag' else p
        if isinstance(value, ast.Subscript) and isinstance(value.slice,
                ast.Tuple):
            pos = [i for i, x in enumerate(value.slice.elts) if isinstance(x,
                ast.Slice)]
            if len(pos) == 1:
                i = pos[0]
                if any(isinstance(x, ast.Constant) and x.value is ... for x in
                        value.slice.elts[:i]):
                    i -= len(value.slice.elts)
                return 'broadcast', i
        return None

    # --- conditions

    def decide(self, test, st):
        if isinstance(test, ast.BoolOp):
            vals = [self.decide(v, st) for v in test.values]
            if isinstance(test.op, ast.And):
                if False in vals:
                    return False
                return None if None in vals else True
            if True in vals:
                return True
            return None if None in vals else False
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            v = self.decide(test.operand, st)
            return None if v is None else not v
        if isinstance(test, ast.Compare) and len(test.ops) == 1:
            text = ast.unparse(test)
            if 'rank' in text and isinstance(test.comparators[0], ast.Constant):
                if isinstance(test.ops[0], ast.Eq):
                    return test.comparators[0].value == 0
                if isinstance(test.ops[0], ast.NotEq):
                    return test.comparators[0].value != 0
            a = self.read(st, self.quiet(test.left, st))
            b = self.read(st, self.quiet(test.comparators[0], st))
            if a[0] == 'c' == b[0]:
                try:
                    if isinstance(test.ops[0], (ast.Eq, ast.Is)):
                        return a[1] == b[1] if isinstance(test.ops[0], ast.Eq) \
                            else a[1] is b[1] or a[1] == b[1]
                    if isinstance(test.ops[0], (ast.NotEq, ast.IsNot)):
                        return a[1] != b[1]
                except Exception:
                    return None
            if b == NONE and a[0] in ('obj', 'fun'):
                return isinstance(test.ops[0], (ast.IsNot, ast.NotEq))
            return None
        v = self.read(st, self.quiet(test, st))
        if v[0] == 'c':
            return bool(v[1])
        return None

    def unclear(self, test, st):
        """Conditions on settings that cannot be decided: no judgement."""
        if isinstance(test, ast.BoolOp):
            for v in test.values:
                if self.decide(v, st) is None:
                    self.unclear(v, st)
        elif isinstance(test, ast.UnaryOp):
            self.unclear(test.operand, st)
        elif any(isinstance(n, (ast.Name, ast.Attribute)) and getattr(n, 'id',
                getattr(n, 'attr', None)) in ('rydberg', 'divide_mass')
                for n in ast.walk(test)):
            self.muted = True

    def quiet(self, e, st):
        """Value of a condition; calls are not followed."""
        if any(isinstance(n, ast.Call) and callee(n) not in ('bool',)
                for n in ast.walk(e)):
            return ONE
        if isinstance(e, (ast.Compare, ast.BoolOp)):
            return ONE
        return self.ev(e, st)

    def assume(self, test, side, st):
        while isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            test, side = test.operand, not side
        if isinstance(test, ast.BoolOp):
            if isinstance(test.op, ast.And) == side:
                for t in test.values:
                    self.assume(t, side, st)
            return
        if isinstance(test, ast.Attribute) and self.local(test, st):
            o = self.ev(test.value, st)
            if o[0] == 'obj' and self.get(st, o, test.attr, test) == ONE:
                st.objs[o[1]]['fields'][test.attr] = 'c', side
            return
        if isinstance(test, ast.Compare) and len(test.ops) == 1 \
                and isinstance(test.comparators[0], ast.Constant) \
                and test.comparators[0].value is None:
            none = isinstance(test.ops[0], (ast.Is, ast.Eq)) == side
            if none:
                t = test.left
                if isinstance(t, ast.Name) and t.id in st.env:
                    st.env[t.id] = NONE
                elif isinstance(t, ast.Attribute) and self.local(t, st):
                    o = self.ev(t.value, st)
                    if o[0] == 'obj' and t.attr not in FLAGS[st.objs[o[1]][
                            'kind']]:
                        st.objs[o[1]]['fields'][t.attr] = NONE

    # --- routines

    def kind(self, f):
        if f.cls is None:
            return None
        if f.cls.name == 'Model' and f.cls.module.short in FLAGS:
            return f.cls.module.short
        if f.qualname.startswith('md.Driver'):
            return 'driver'

    def flags(self, f):
        """Settings that matter for a routine: path -> kind or parameter."""
        out = []
        params = [p.arg for p in f.node.args.args + f.node.args.kwonlyargs]
        for p in params:
            if p in ('rydberg', 'divide_mass'):
                out.append(p)
        def models(path, kind, depth=0):
            for k in FLAGS.get(kind, ()):
                out.append(path + '.' + k)
            for p in PARTS.get(kind, ()):
                if kind != 'driver':
                    models(path + '.' + p, p, depth + 1)
        kind = self.kind(f)
        if kind and kind != 'driver' and f.name != '__init__':
            models('self', kind)
        for p in params:
            if p in FLAGS and p not in ('driver',):
                models(p, p)
        return out

    def walk(self, f, setting):
        self.entry, self.setting = f, setting
        self.stack, self.loops, self.steps = [], [], 0
        self.muted = False
        self.origin = f.module.short
        st = St()
        kind = self.kind(f)
        params = [p.arg for p in f.node.args.posonlyargs + f.node.args.args
            + f.node.args.kwonlyargs]
        taker = TAKERS.get(f.qualname)
        for i, p in enumerate(params):
            if i == 0 and kind and not f.static:
                flags = {} if f.name == '__init__' else {k: setting.get(
                    'self.' + k) for k in FLAGS[kind]}
                st.env[p] = self.make(st, kind, 'self', flags)
                if f.name != '__init__':
                    st.objs[st.env[p][1]]['given'] = True
            elif p in setting:
                st.env[p] = 'c', setting[p]
            elif p in FLAGS:
                st.env[p] = self.make(st, p, p, {k: setting.get(p + '.' + k)
                    for k in FLAGS[p]})
                st.objs[st.env[p][1]]['given'] = True
            elif taker and p in taker[1]:
                flag = setting.get(taker[2])
                if flag is None:
                    st.env[p] = self.new(st, TOP)
                else:
                    st.env[p] = self.new(st, ('q',) + tuple(taker[3] if flag
                        else (0, 0)))
            else:
                st.env[p] = self.hold(ONE, st)
        if kind == 'driver' and params and st.env[params[0]][0] == 'obj':
            if f.name == '__init__' and 'elph' in st.env:
                e = st.objs[st.env['elph'][1]]
                e['driver'] = True
                e['flags'] = {'divide_mass': False}
        elif kind == 'elph' and f.name == '__init__':
            for p in ('el', 'ph'):
                if p in st.env:
                    pass
        for x in (f.node.args.vararg, f.node.args.kwarg):
            if x is not None:
                st.env[x.arg] = ONE
        try:
            outs = self.block(f.node.body, [st])
        except Stop:
            outs = []
        self.info['walks'] += 1
        self.fine = {(o['kind']) for s in outs for i, o in s.objs.items()
            if 'q' in o['fields'] and self.flat(s, o['fields']['q'])[1:]
            == tuple(self.convention(s, ('obj', i), 'q') or ())}
        for s in outs:
            self.finish(f, s)

    def finish(self, f, st):
        for i, o in st.objs.items():
            spec = FIELDS.get(o['kind'], {})
            for attr in sorted(spec):
                flag = spec[attr][0]
                if flag is None or not ({attr, 'flag:' + flag} & o['changed']):
                    continue
                if attr not in o['fields']:
                    continue
                if attr == 'q' and (o['fields'].get('Q') == NONE
                        or o['kind'] in self.fine):
                    continue    # only if there are quadrupoles
                if attr not in o['changed'] and attr not in KEPT:
                    continue
                c = self.convention(st, ('obj', i), attr)
                v = self.flat(st, o['fields'][attr])
                if c is None or v[0] != 'q':
                    continue
                self.checked('%s.%s' % (o['kind'], attr))
                if v[1:] != tuple(c):
                    what = 'Ry' if flag == 'rydberg' else 'M'
                    self.add('wrong-convention', '%s.%s' % (o['kind'], attr),
                        f.node, '%s has %s while %s=%s' % (attr, self.describe(
                        what, v[1:]), flag, o['flags'].get(flag)), st)
        if f.qualname in RESULTS and st.done is not None:
            what = RESULTS[f.qualname]
            vals = st.done[1] if st.done[0] == 'tup' else [st.done]
            v = self.flat(st, vals[0]) if vals else ONE
            if v[0] == 'q':
                self.checked('result')
                if (v[2] if what == 'M' else v[1]) != 0:
                    self.add('result-convention', 'return', f.node,
                        'result has ' + self.describe(what, v[1:]), st)

    def run(self):
        md = self.project.modules.get('elphmod.md')
        self.driver = md.classes.get('Driver') if md else None
        for f in self.project.all_functions():
            if f.module.short not in MODULES:
                continue
            flags = self.flags(f)
            if not flags and self.kind(f) is None:
                continue
            self.info['routines'].append(f.qualname)
            for values in product([False, True], repeat=len(flags)):
                self.walk(f, dict(zip(flags, values)))
        self.info['opaque'] = sorted(self.unknown)
        return [dict(rule=r, func=f, construct=c, message=m)
            for (r, f, c), m in sorted(self.found.items())], self.info

def check(root):
    return Units(root).run()
