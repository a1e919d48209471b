"""Masked divisions (C12).

Boolean masks are turned into formulas over atoms "divisor exceeds tolerance";
each masked division and each masked assignment is an obligation over those
formulas. Where quotient and limit can be traced to the occupation function,
the two are compared as formulas: the derivative must be the limit of the
quotient (exact rational arithmetic with a generic polynomial as occupation
function; no code of the package is run).
"""

import ast
import hashlib
import itertools
from fractions import Fraction

from .defs import (ABS, Walker, atoms, both, callee, holds, implies, key, neg,
    points, product, single)

class Unknown(Exception):
    pass

COPIES = {'array', 'asarray', 'ascontiguousarray', 'copy', 'asfortranarray',
    'ravel', 'flatten', 'squeeze', 'real', 'astype', 'reshape', 'float64'}
EMPTY = {'empty', 'empty_like', 'ndarray'}

def ckey(x, env, depth=0):
    """Identity of a divisor, independent of how it is named."""
    if isinstance(x, ast.Name) and depth < 10:
        d = single(x.id, env)
        if d is not None and d.kind == 'value' and (isinstance(d.value,
                (ast.Name, ast.Attribute)) or isinstance(d.value, ast.BinOp)
                and isinstance(d.value.op, ast.Sub) or isinstance(d.value,
                ast.Call) and ast.unparse(d.value.func).endswith(
                'subtract.outer')):
            return ckey(d.value, d.env, depth + 1)
    return key(x, env)

def reg(x, env):
    return ('atom', 'reg:' + ckey(x, env))

class Event:
    pass

class Masks(Walker):
    def __init__(self, name):
        Walker.__init__(self)
        self.name = name
        self.events = []     # masked and full assignments in order
        self.divisions = []  # (factor, env, mask stack, node)
        self.exprs = {}      # atom -> (expression, env, tolerance)
        self.onesided = {}   # atom -> description
        self.where = []
        self.loops = []
        self.occ = set()
        self.depth = 0
        self.dividing = False

    # --- formulas -----------------------------------------------------------

    def magnitude(self, e, env, depth=0):
        """Argument x of |x| or x ** 2."""
        if isinstance(e, ast.Call) and callee(e) in ABS and len(e.args) == 1:
            return e.args[0]
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Pow) \
                and isinstance(e.right, ast.Constant) and e.right.value == 2:
            return e.left
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mult) \
                and ast.dump(e.left) == ast.dump(e.right):
            return e.left
        if isinstance(e, ast.Name) and depth < 5:
            d = single(e.id, env)
            if d is not None and d.kind == 'value':
                return self.magnitude(d.value, d.env, depth + 1)

    def difference(self, e, env, depth=0):
        """Is the expression a difference of two arrays?"""
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Sub):
            return True
        if isinstance(e, ast.Call) and ast.unparse(e.func).endswith(
                'subtract.outer'):
            return True
        if isinstance(e, ast.Subscript):
            return self.difference(e.value, env, depth)
        if isinstance(e, ast.Name) and depth < 5:
            d = single(e.id, env)
            if d is not None and d.kind == 'value':
                return self.difference(d.value, d.env, depth + 1)
        return False

    def mask(self, e, env, depth=0):
        if depth > 20:
            return None
        if isinstance(e, ast.Name):
            ds = env.get(e.id, ())
            if len(ds) != 1:
                return None
            d = ds[0]
            if d.kind == 'value':
                return self.mask(d.value, d.env, depth + 1)
            if d.kind == 'aug' and isinstance(d.node.op, (ast.BitOr,
                    ast.BitAnd)):
                if len(d.prev) != 1:
                    return None
                old = self.mask(ast.Name(id=e.id, ctx=ast.Load()), {e.id:
                    d.prev}, depth + 1)
                new = self.mask(d.value, d.env, depth + 1)
                return both(old, new, 'or' if isinstance(d.node.op, ast.BitOr)
                    else 'and')
            return None
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, (ast.Invert,
                ast.Not)):
            return neg(self.mask(e.operand, env, depth + 1))
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.BitAnd, ast.BitOr,
                ast.Mult)):
            return both(self.mask(e.left, env, depth + 1), self.mask(e.right,
                env, depth + 1), 'or' if isinstance(e.op, ast.BitOr) else 'and')
        if isinstance(e, ast.Call):
            c = callee(e)
            if c in ('logical_and', 'logical_or') and len(e.args) == 2:
                return both(self.mask(e.args[0], env, depth + 1), self.mask(
                    e.args[1], env, depth + 1), c.split('_')[1])
            if c in ('logical_not', 'invert') and len(e.args) == 1:
                return neg(self.mask(e.args[0], env, depth + 1))
            if c in ('where', 'nonzero') and len(e.args) == 1:
                return self.mask(e.args[0], env, depth + 1)
            if c in ('greater', 'greater_equal', 'less', 'less_equal') and len(
                    e.args) == 2:
                return self.compare(e.args[0], e.args[1], c.startswith('g'),
                    env)
            if c in ('copy', 'array', 'asarray') and not e.keywords:
                inner = e.args[0] if e.args else e.func.value
                return self.mask(inner, env, depth + 1)
            return None
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            op = e.ops[0]
            l, r = e.left, e.comparators[0]
            if isinstance(op, (ast.Gt, ast.GtE)):
                return self.compare(l, r, True, env)
            if isinstance(op, (ast.Lt, ast.LtE)):
                return self.compare(l, r, False, env)
            if isinstance(op, (ast.Eq, ast.NotEq)) and isinstance(r,
                    ast.Constant) and not r.value:
                x = self.magnitude(l, env)
                x = l if x is None else x
                a = 'zero:' + ckey(x, env)
                self.onesided[a] = ('only exact zeros are excluded', x, env)
                f = ('atom', a)
                return neg(f) if isinstance(op, ast.Eq) else f
        return None

    def compare(self, l, r, greater, env):
        for a, b, g in ((l, r, greater), (r, l, not greater)):
            x = self.magnitude(a, env)
            if x is not None and self.magnitude(b, env) is None:
                if isinstance(b, ast.Constant) and not b.value:
                    k = 'zero:' + ckey(x, env)
                    self.onesided[k] = ('only exact zeros are excluded', x, env)
                    f = ('atom', k)
                else:
                    f = reg(x, env)
                    self.exprs[f[1]] = x, env, b
                return f if g else neg(f)
        for a, b, g in ((l, r, greater), (r, l, not greater)):
            if self.difference(a, env) and not self.difference(b, env):
                k = 'side:%s:%s:%s' % (ckey(a, env), g, key(b, env))
                self.onesided[k] = ('the sign of the divisor decides', a, env)
                f = ('atom', k)
                return f
        return None

    # --- collection ---------------------------------------------------------

    def function(self, node, env=None):
        self.depth += 1
        saved, self.loops = self.loops, self.loops + ([node]
            if self.depth > 1 else [])
        Walker.function(self, node, env)
        self.loops = saved
        self.depth -= 1

    def statement(self, n, env):
        if isinstance(n, (ast.For, ast.While)):
            self.loops = self.loops + [n]
            Walker.statement(self, n, env)
            self.loops = self.loops[:-1]
            return
        if isinstance(n, (ast.Assign, ast.AugAssign)):
            targets = n.targets if isinstance(n, ast.Assign) else [n.target]
            before = dict(env)
            Walker.statement(self, n, env)
            for t in targets:
                self.assignment(t, n, before, env)
            return
        Walker.statement(self, n, env)

    def split(self, t, env):
        """Base, mask formula, and mask node of a masked target."""
        if isinstance(t, ast.Subscript):
            f = self.mask(t.slice, env)
            if f is not None and atoms(f):
                return t.value, f
            if isinstance(t.slice, ast.Tuple):
                for i, s in enumerate(t.slice.elts):
                    f = self.mask(s, env)
                    if f is not None and atoms(f):
                        rest = t.slice.elts[i + 1:]
                        lead = t.slice.elts[:i] or [ast.Constant(value=...)]
                        return ast.Subscript(value=t.value, slice=ast.Tuple(
                            elts=lead + rest, ctx=ast.Load()), ctx=ast.Load()
                            ), f
        return None

    def assignment(self, t, n, before, env):
        aug = isinstance(n, ast.AugAssign)
        e = Event()
        e.node, e.env, e.value = n, before, n.value
        e.loops, e.guards = list(self.loops), list(self.guards)
        e.aug = n.op if aug else None
        s = self.split(t, before)
        if s is not None:
            e.base, e.formula = self.base(s[0], before), s[1]
            e.text = ast.unparse(s[0])
            self.events.append(e)
        elif isinstance(t, (ast.Name, ast.Subscript)):
            e.formula = True
            kw = {k.arg: k.value for k in n.value.keywords} if isinstance(
                n.value, ast.Call) else {}
            if callee(n.value) in ('divide', 'true_divide') and 'where' in kw \
                    and 'out' not in kw and not aug:
                f = self.mask(kw['where'], before)
                if f is not None and atoms(f):
                    e.formula = f
            if isinstance(t, ast.Subscript):
                v = t.value
                whole = isinstance(t.slice, ast.Slice) and t.slice.lower \
                    is None and t.slice.upper is None and t.slice.step is None \
                    or isinstance(t.slice, ast.Constant) \
                    and t.slice.value is Ellipsis
                e.base = self.base(v if whole else t, before)
            else:
                e.base = t.id
            e.text = ast.unparse(t)
            self.events.append(e)
            # np.divide(df, de, out=..., where=ok)

    def base(self, e, env):
        """Identity of the array that is assigned to."""
        if isinstance(e, ast.Name):
            d = single(e.id, env)
            if d is not None and d.kind == 'value' and isinstance(d.value,
                    ast.Subscript) and self.mask(d.value.slice, d.env) is None:
                return self.base(d.value, d.env)
            return e.id
        return ast.unparse(e)

    def visit(self, n, env):
        if self.dividing:
            self.scan(n, env)

    def scan(self, n, env, cond=True):
        """Divisions below a node with the condition of np.where / IfExp."""
        if isinstance(n, (ast.Lambda,)):
            return
        if isinstance(n, ast.Call) and callee(n) == 'where' and len(n.args) \
                == 3:
            self.scan(n.args[0], env, cond)
            f = self.mask(n.args[0], env)
            # unselected elements are discarded
            self.scan(n.args[1], env, both(cond, f))
            self.scan(n.args[2], env, both(cond, neg(f)))
            return
        if isinstance(n, ast.IfExp):
            self.scan(n.test, env, cond)
            self.scan(n.body, env, None)
            self.scan(n.orelse, env, None)
            return
        if isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Attribute) and f.attr in ('delta',
                    'delta_prime', 'entropy'):
                self.occ.add(ast.unparse(f.value))
            if callee(n) in ('divide', 'true_divide') and len(n.args) >= 2:
                kw = {k.arg: k.value for k in n.keywords}
                c = cond
                if 'where' in kw:
                    c = both(cond, self.mask(kw['where'], env))
                self.divisor(n.args[1], env, c, n)
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Div):
            self.divisor(n.right, env, cond, n)
        if isinstance(n, ast.AugAssign) and isinstance(n.op, ast.Div):
            c = cond
            self.divisor(n.value, env, c, n)
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Pow) \
                and isinstance(n.right, ast.UnaryOp) and isinstance(n.right.op,
                ast.USub):
            self.divisor(n.left, env, cond, n)
        for c in ast.iter_child_nodes(n):
            self.scan(c, env, cond)

    def divisor(self, e, env, cond, node):
        env = dict(env)
        g = list(self.guards)
        for k, f, fe in self.factors(e, env):
            self.divisions.append((k, f, fe, cond, node, g, env))

    def factors(self, e, env, depth=0):
        """Factors of a divisor with masks resolved."""
        p = product(e, env)
        for k, x in p.nodes.items():
            if p.powers.get(k, 0) <= 0:
                continue
            yield from self.factor(x, env, depth)

    def factor(self, x, env, depth=0):
        if isinstance(x, ast.Name) and depth < 10:
            d = single(x.id, env)
            if d is not None and d.kind == 'value' and isinstance(d.value,
                    ast.Subscript):
                f = self.mask(d.value.slice, d.env)
                if f is not None and atoms(f):
                    yield key(x, env), d.value, d.env
                    return
            if d is not None and d.kind == 'value' and isinstance(d.value,
                    ast.BinOp) and isinstance(d.value.op, ast.Mult):
                yield from self.factors(d.value, d.env, depth + 1)
                return
        if isinstance(x, ast.Subscript) and isinstance(x.value, (ast.BinOp)):
            # (dea * deb)[l]
            f = self.mask(x.slice, env)
            if f is not None and atoms(f) and isinstance(x.value.op, ast.Mult):
                for s in (x.value.left, x.value.right):
                    yield from self.factors(ast.Subscript(value=s,
                        slice=x.slice, ctx=ast.Load()), env, depth + 1)
                return
        yield key(x, env), x, env

# --- formulas of elements ---------------------------------------------------

H = Fraction(1, 10 ** 12)

class Values:
    """Evaluates elementwise expressions with rational symbols."""

    def __init__(self, masks, paired):
        self.m = masks
        self.paired = paired
        self.fixed = {}
        self.seen = []
        self.generic = False
        self.state = {}

    def symbol(self, k):
        if k not in self.seen:
            self.seen.append(k)
        if k not in self.fixed:
            h = int(hashlib.sha1(k.encode()).hexdigest()[:8], 16)
            self.fixed[k] = Fraction(h % 9973 + 11, 10007) + Fraction(h % 13, 7)
        return self.fixed[k]

    # generic occupation function with f(0) = 1/2
    C = [Fraction(1, 2), Fraction(-3, 7), Fraction(2, 11), Fraction(5, 13),
        Fraction(-1, 5), Fraction(3, 17)]

    def poly(self, x, order):
        self.generic = True
        total = Fraction(0)
        for n, c in enumerate(self.C):
            if n >= order:
                k = 1
                for i in range(order):
                    k *= n - i
                total += c * k * x ** (n - order)
        return total

    def value(self, e, env, P=None, depth=0):
        if depth > 60:
            raise Unknown('depth')
        v = lambda x: self.value(x, env, P, depth + 1)
        if isinstance(e, ast.Constant):
            if isinstance(e.value, (int, float)) and not isinstance(e.value,
                    bool):
                return Fraction(str(e.value))
            raise Unknown('constant')
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
            return -v(e.operand)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.UAdd):
            return v(e.operand)
        if isinstance(e, ast.BinOp):
            if isinstance(e.op, ast.Pow):
                if isinstance(e.right, ast.Constant) and isinstance(
                        e.right.value, int):
                    return v(e.left) ** e.right.value
                if isinstance(e.right, ast.UnaryOp) and isinstance(e.right.op,
                        ast.USub) and isinstance(e.right.operand, ast.Constant):
                    return v(e.left) ** -e.right.operand.value
                raise Unknown('power')
            a, b = v(e.left), v(e.right)
            if isinstance(e.op, ast.Add):
                return a + b
            if isinstance(e.op, ast.Sub):
                return a - b
            if isinstance(e.op, ast.Mult):
                return a * b
            if isinstance(e.op, ast.Div):
                if not b:
                    raise Unknown('zero')
                return a / b
            raise Unknown('operator')
        if isinstance(e, ast.IfExp):
            raise Unknown('conditional')
        if isinstance(e, ast.Call):
            return self.call(e, env, P, depth)
        if isinstance(e, ast.Subscript):
            return self.subscript(e, env, P, depth)
        if isinstance(e, ast.Name):
            ds = env.get(e.id, ())
            if len(ds) > 1:
                # tiled or not
                vals = set()
                for d in ds:
                    vals.add(self.value(e, dict(env, **{e.id: (d,)}), P,
                        depth + 1))
                if len(vals) == 1:
                    return vals.pop()
                if e.id in self.SCALARS:
                    return self.symbol(e.id)
                raise Unknown('several definitions')
            if not ds:
                return self.leaf(e.id, P)
            d = ds[0]
            if d.kind == 'value':
                if isinstance(d.value, ast.Name) and d.value.id == e.id \
                        and d.env.get(e.id) == ds:
                    raise Unknown('loop')
                return self.value(d.value, d.env, P, depth + 1)
            if d.kind == 'aug':
                old = self.value(ast.Name(id=e.id, ctx=ast.Load()), {e.id:
                    d.prev}, P, depth + 1)
                new = self.value(d.value, d.env, P, depth + 1)
                op = d.node.op
                if isinstance(op, ast.Add):
                    return old + new
                if isinstance(op, ast.Sub):
                    return old - new
                if isinstance(op, ast.Mult):
                    return old * new
                if isinstance(op, ast.Div) and new:
                    return old / new
                raise Unknown('operator')
            return self.leaf('%s#%s' % (e.id, d.id), P)
        if isinstance(e, ast.Attribute):
            if e.attr == 'T':
                return self.value(e.value, env, {'row': 'col', 'col': 'row'
                    }.get(P, P), depth + 1)
            if e.attr in ('real',):
                return v(e.value)
            return self.leaf(ast.unparse(e), P)
        raise Unknown(type(e).__name__)

    SCALARS = ('kT', 'eps', 'mu')

    def leaf(self, k, P):
        name = k.split('#')[0].split('.')[-1]
        if name in self.SCALARS or P is None and not self.paired:
            return self.symbol(k)
        if self.paired and P is None:
            P = 'col'
        return self.symbol('%s@%s' % (k, P))

    def call(self, e, env, P, depth):
        c = callee(e)
        f = e.func
        v = lambda x, P=P: self.value(x, env, P, depth + 1)
        if isinstance(f, ast.Attribute) and f.attr in ('delta', 'delta_prime') \
                and len(e.args) == 1:
            return -self.poly(v(e.args[0]), 1 if f.attr == 'delta' else 2)
        if ast.unparse(f) in self.m.occ and len(e.args) == 1:
            return self.poly(v(e.args[0]), 0)
        if ast.unparse(f).endswith('subtract.outer') and len(e.args) == 2:
            return v(e.args[0], 'row') - v(e.args[1], 'col')
        if c == 'outer' and len(e.args) == 2:
            if isinstance(f, ast.Attribute) and isinstance(f.value,
                    ast.Attribute) and f.value.attr != 'linalg':
                op = f.value.attr
                a, b = v(e.args[0], 'row'), v(e.args[1], 'col')
                if op == 'add':
                    return a + b
                raise Unknown('outer')
            return v(e.args[0], 'row') * v(e.args[1], 'col')
        if c in ('tile', 'broadcast_to', 'reshape') and e.args and isinstance(f,
                ast.Attribute) and ast.unparse(f.value) in ('np', 'numpy'):
            return v(e.args[0])
        if c in COPIES or c in ('tile',):
            if e.args and isinstance(f, ast.Attribute) and ast.unparse(f.value
                    ) in ('np', 'numpy') or isinstance(f, ast.Name) and e.args:
                return v(e.args[0])
            if isinstance(f, ast.Attribute):
                return v(f.value)
        if c in ('subtract', 'add', 'multiply', 'divide', 'true_divide') \
                and len(e.args) == 2 and not e.keywords:
            a, b = v(e.args[0]), v(e.args[1])
            if c == 'subtract':
                return a - b
            if c == 'add':
                return a + b
            if c == 'multiply':
                return a * b
            if b:
                return a / b
        if c == 'negative' and len(e.args) == 1:
            return -v(e.args[0])
        if c in ('zeros', 'zeros_like'):
            return Fraction(0)
        if c in ('ones', 'ones_like'):
            return Fraction(1)
        if c in ('full', 'full_like') and len(e.args) == 2:
            return v(e.args[1])
        if c == 'where' and len(e.args) == 3:
            g = self.m.mask(e.args[0], env)
            if g is None:
                raise Unknown('mask')
            point = {a: self.state.get(a) for a in atoms(g)}
            if None in point.values():
                raise Unknown('mask')
            return v(e.args[1 if holds(g, point) else 2])
        if c in ('divide', 'true_divide') and len(e.args) == 2:
            kw = {k.arg: k.value for k in e.keywords}
            if set(kw) == {'where'}:
                return v(e.args[0]) / v(e.args[1])
            if set(kw) == {'out', 'where'}:
                g = self.m.mask(kw['where'], env)
                if g is None:
                    raise Unknown('mask')
                point = {a: self.state.get(a) for a in atoms(g)}
                if None in point.values():
                    raise Unknown('mask')
                if holds(g, point):
                    return v(e.args[0]) / v(e.args[1])
                return v(kw['out'])
        raise Unknown('call')

    def subscript(self, e, env, P, depth):
        f = self.m.mask(e.slice, env)
        if f is not None:
            return self.value(e.value, env, P, depth + 1)
        elts = e.slice.elts if isinstance(e.slice, ast.Tuple) else [e.slice]
        # broadcasting of one-dimensional arrays against each other
        def new(x):
            return isinstance(x, ast.Constant) and x.value is None \
                or isinstance(x, ast.Attribute) and x.attr == 'newaxis'
        if any(new(x) for x in elts):
            if len(elts) == 1 or new(elts[0]) and not new(elts[-1]):
                return self.value(e.value, env, 'col', depth + 1)
            if len(elts) == 2 and new(elts[1]):
                return self.value(e.value, env, 'row', depth + 1)
            raise Unknown('axes')
        if P is not None:
            # index of an array that is itself evaluated at a point
            if all(self.unshifted(x, env) for x in elts):
                return self.value(e.value, env, P, depth + 1)
            raise Unknown('index of index')
        P = self.point(elts, env)
        return self.value(e.value, env, P, depth + 1)

    def unshifted(self, x, env):
        if isinstance(x, ast.Constant) and x.value is Ellipsis:
            return True
        if isinstance(x, ast.Slice):
            lo = x.lower
            return lo is None or isinstance(lo, ast.Constant) and not lo.value
        if isinstance(x, ast.Name):
            d = single(x.id, env)
            if d is not None and d.kind == 'value' and callee(d.value) \
                    == 'slice':
                a = d.value.args
                return len(a) == 1 or isinstance(a[0], ast.Constant) and not \
                    a[0].value
        if isinstance(x, ast.Call) and callee(x) == 'slice':
            a = x.args
            return len(a) == 1 or isinstance(a[0], ast.Constant) and not \
                a[0].value
        return False

    def point(self, elts, env):
        mesh, rest = [], []
        for x in elts:
            if self.unshifted(x, env):
                continue
            y, ye = x, env
            if isinstance(x, ast.Name):
                d = single(x.id, env)
                if d is not None and d.kind == 'value' and callee(d.value) \
                        == 'slice':
                    y, ye = d.value, d.env
            if isinstance(y, ast.Call) and callee(y) == 'slice' or isinstance(y,
                    ast.Slice):
                lo = y.lower if isinstance(y, ast.Slice) else y.args[0]
                mesh.append(key(lo, ye))
            else:
                rest.append(key(x, env))
        return '[%s|%s]' % (','.join(mesh), ','.join(rest))

def degenerate(values, conditions):
    """Choose symbols such that all given expressions nearly vanish."""
    used = set()
    for n, (x, env) in enumerate(conditions):
        values.seen = []
        a = values.value(x, env)
        names = [s for s in values.seen if s.split('@')[0].split('#')[0].split(
            '.')[-1] not in values.SCALARS] or list(values.seen)
        if abs(a) < H * 100:
            used.update(names)
            continue
        fresh = [s for s in names if s not in used]
        if not fresh:
            return False
        s = fresh[0]
        s0 = values.fixed[s]
        values.fixed[s] = s0 + 1
        b = values.value(x, env)
        if a == b:
            return False
        values.fixed[s] = s0 - (a - H * (n + 1)) / (b - a)
        if abs(values.value(x, env)) > H * 100:
            values.fixed[s] = s0
            return False
        used.update(names)
    return True

def exclusive(a, b):
    """Are two events in different branches?"""
    ga = {id(t): s for t, s, _ in a.guards}
    return any(ga.get(id(t), s) != s for t, s, _ in b.guards)

def analyse(func, name, findings, info):
    m = Masks(name)
    occ = {ast.unparse(n.func.value) for n in ast.walk(func) if isinstance(n,
        ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in (
        'delta', 'delta_prime', 'entropy')}
    m.occ = occ
    m.function(func)

    if not m.occ and not any(e.formula is not True for e in m.events):
        return

    info['functions with masks or occupations'] += 1
    m = Masks(name)
    m.dividing = True
    m.occ = occ
    m.function(func)

    def add(rule, construct, message):
        f = dict(rule=rule, func=name, construct=construct, message=message)
        if f not in findings:
            findings.append(f)

    regular = {a: x for a, x in m.exprs.items()}
    texts = {a: ast.unparse(x[0]) for a, x in regular.items()}

    # divisions

    for k, f, env, cond, node, guards, outer in m.divisions:
        text = ast.unparse(f)
        formula, x = True, f
        if isinstance(f, ast.Subscript):
            g = m.mask(f.slice, env)
            if g is not None and atoms(g):
                formula, x = g, f.value
        if cond is None:
            continue # scalar guard or unrecognized condition
        formula = formula if cond is True else both(cond, formula)
        if formula is None:
            continue
        goal = 'reg:' + ckey(x, env)
        signed = [a for a in m.onesided if a.startswith('zero:' + ckey(x, env))
            or a.startswith('side:%s:' % ckey(x, env))]
        if not m.difference(x, env):
            continue
        if formula is True:
            if goal in m.exprs or signed:
                # same array divided without mask
                if guarded(x, env, guards):
                    continue
                add('unmasked-division', text, 'the quotient is evaluated for '
                    'all elements although "%s" can vanish' % text)
            elif m.occ and pair_difference(x, env) and not guarded(x, env,
                    guards):
                add('unmasked-division', text, 'difference of band energies '
                    '"%s" is used as divisor without distinguishing degenerate '
                    'elements' % text)
            continue
        info['divisions'] += 1
        if goal not in m.exprs and not signed:
            # divisor of another kind
            bad = not any(a.startswith(('reg:', 'zero:', 'side:'))
                for a in atoms(formula))
            if bad or not m.difference(x, env):
                continue
        if not implies(formula, ('atom', goal)):
            why = '; '.join(sorted({m.onesided[a][0] for a in signed})) \
                or 'the mask selects elements where it can be arbitrarily small'
            add('unprotected-divisor', text, 'divisor "%s" is not bounded away '
                'from zero by the mask it is evaluated with: %s' % (text, why))

    # groups of masked assignments

    groups = {}
    for i, e in enumerate(m.events):
        if e.formula is not True:
            groups.setdefault(e.base, []).append(i)

    for base, members in groups.items():
        first = m.events[members[0]]
        divided = any(
            isinstance(n, ast.BinOp) and isinstance(n.op, ast.Div)
            or callee(n) in ('divide', 'true_divide')
            for i in members for n in ast.walk(m.events[i].value)) or any(
            isinstance(m.events[i].aug, ast.Div) for i in members)
        if not divided:
            continue

        cases = [m.events[i] for i in members]

        # whole-array values the masks act upon
        initial = None
        for e in m.events[:members[0]]:
            if e.formula is True and e.base == base and e.aug is None \
                    and not exclusive(e, first) and all(l in e.loops
                    for l in first.loops) and all(any(id(t) == id(u)
                    and s == r for u, r, _ in first.guards)
                    for t, s, _ in e.guards):
                initial = e
        if initial is not None and callee(initial.value) in EMPTY:
            initial = None

        info['groups'] += 1
        names = set()
        for e in cases:
            names |= atoms(e.formula)
        if len(names) > 8:
            continue
        # tautology
        union = False
        common = [t for t, s, _ in cases[0].guards if all(any(t is u and s == r
            for u, r, _ in e.guards) for e in cases)]
        extra = set()
        for e in cases:
            g = e.formula
            for t, s, outer in e.guards:
                if t not in common:
                    t, s = normal(t, s)
                    a = 'if:' + ast.unparse(t)
                    texts[a] = a
                    extra.add(a)
                    if any(isinstance(x, (ast.Call, ast.Attribute))
                            or isinstance(x, ast.Name) and not all(d.kind in (
                            'loop', 'param') for d in outer.get(x.id, ()))
                            for x in ast.walk(t)):
                        extra.update(('if:?', 'if:!'))
                    g = both(g, ('atom', a) if s else neg(('atom', a)))
            union = g if union is False else ('or', union, g)
        if len(extra) > 1:
            # several conditions that may be correlated
            extra, union = set(), False
            for e in cases:
                union = e.formula if union is False else ('or', union,
                    e.formula)
        gaps = [p for p in points(names | extra) if not holds(union, p)]
        if gaps and initial is None and not unknown_origin(base, m, first):
            p = gaps[0]
            add('unassigned-elements', first.text, 'no value is assigned '
                'where %s' % describe(p, texts))
            continue

        compare(m, base, cases, initial, names, texts, add, info)

    # masks within expressions

    for e in m.events:
        if e.formula is True and e.aug is None and e.base not in groups:
            names = selections(e, m)
            if names and len(names) < 9:
                info['groups'] += 1
                compare(m, e.base, [e], None, names, texts, add, info)

def normal(t, side):
    """Condition without negation."""
    while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        t, side = t.operand, not side
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0],
            (ast.NotEq, ast.IsNot, ast.NotIn)):
        op = {ast.NotEq: ast.Eq, ast.IsNot: ast.Is, ast.NotIn: ast.In}[type(
            t.ops[0])]()
        t = ast.Compare(left=t.left, ops=[op], comparators=t.comparators)
        side = not side
    return t, side

def selections(e, m):
    """Atoms of all masks inside an assigned expression."""
    out = set()
    for n in ast.walk(e.value):
        g = None
        if callee(n) == 'where' and len(n.args) == 3:
            g = m.mask(n.args[0], e.env)
        elif callee(n) in ('divide', 'true_divide'):
            kw = {k.arg: k.value for k in n.keywords}
            if 'where' in kw and 'out' in kw:
                g = m.mask(kw['where'], e.env)
        if g is not None:
            out |= atoms(g)
    return out

def describe(p, texts):
    out = []
    for a in sorted(p):
        t = texts.get(a, a.split(':', 1)[1])
        if a.startswith('if:'):
            out.append('"%s" is %s' % (t[3:], 'true' if p[a] else 'false'))
            continue
        out.append('|%s| %s tolerance' % (t, '>' if p[a] else '<='))
    return ', '.join(out)

def unknown_origin(base, m, first):
    """Was the array filled elsewhere (parameter, attribute, other call)?"""
    root = base.split('[')[0].split('.')[0]
    if '.' in base.split('[')[0]:
        return True
    for e in m.events:
        if e.formula is True and isinstance(e.node, ast.Assign) and any(
                isinstance(t, ast.Name) and t.id == root
                for t in e.node.targets):
            if callee(e.value) in EMPTY | {'zeros', 'zeros_like', 'ones',
                    'full', 'full_like', 'ones_like'}:
                return False
    return True

def guarded(x, env, guards):
    """Does the division depend on a condition on the divisor?"""
    def names(e, env, depth=0):
        out = set()
        for n in ast.walk(e):
            if isinstance(n, ast.Name):
                out.add(n.id)
                d = single(n.id, env)
                if d is not None and d.kind == 'value' and depth < 4:
                    out |= names(d.value, d.env, depth + 1)
        return out - {'np', 'numpy', 'abs', 'nk', 'slice', 'self'}
    mine = names(x, env)
    return any(mine & names(t, e) for t, s, e in guards)

def pair_difference(x, env, depth=0):
    """Difference of the same array at two k points or bands."""
    if isinstance(x, ast.Name) and depth < 10:
        d = single(x.id, env)
        if d is not None and d.kind == 'value':
            return pair_difference(d.value, d.env, depth + 1)
    if isinstance(x, ast.BinOp) and isinstance(x.op, ast.Sub):
        a, b = pick(x.left, env), pick(x.right, env)
        return a is not None and a == b
    if isinstance(x, ast.Call) and ast.unparse(x.func).endswith(
            'subtract.outer') and len(x.args) == 2:
        return ast.unparse(x.args[0]) == ast.unparse(x.args[1])
    return False

def pick(x, env, depth=0):
    if isinstance(x, ast.Name) and depth < 10:
        d = single(x.id, env)
        if d is not None and d.kind == 'value':
            return pick(d.value, d.env, depth + 1)
    if isinstance(x, ast.Subscript):
        elts = x.slice.elts if isinstance(x.slice, ast.Tuple) else [x.slice]
        if len(elts) > 1:
            return key(x.value, env)

def compare(m, base, cases, initial, names, texts, add, info):
    """Is each branch the limit of the quotient for regular divisors?"""
    src = [e.value for e in cases] + ([initial.value] if initial else [])
    def outer(e, env, depth=0):
        for n in ast.walk(e):
            if callee(n) == 'outer':
                return True
            if isinstance(n, ast.Name) and depth < 6:
                d = single(n.id, env)
                if d is not None and d.kind == 'value' and outer(d.value, d.env,
                        depth + 1):
                    return True
            if isinstance(n, ast.Subscript) and any(isinstance(x, ast.Attribute)
                    and x.attr == 'newaxis' or isinstance(x, ast.Constant)
                    and x.value is None for x in (n.slice.elts if isinstance(
                    n.slice, ast.Tuple) else [n.slice])):
                return True
        return False
    paired = any(outer(e.value, e.env) for e in cases)

    regs = sorted(a for a in names if a in m.exprs)
    if set(names) != set(regs):
        return

    def evaluate(point, selected):
        vals = Values(m, paired)
        vals.state = selected
        # first pass: register symbols
        order = [a for a in regs if not point[a]]
        if not degenerate(vals, [m.exprs[a][:2] for a in order]):
            raise Unknown('degenerate')
        now = None
        if initial is not None:
            now = lambda: vals.value(initial.value, initial.env)
        for e in cases:
            if holds(e.formula, selected):
                now = (lambda e=e, old=now: augmented(vals, e, old))
        if now is None:
            raise Unknown('none')
        return now(), vals.generic

    everywhere = {a: True for a in regs}
    for point in points(regs):
        try:
            value, g1 = evaluate(point, point)
            true, g2 = evaluate(point, everywhere)
        except (Unknown, ZeroDivisionError, OverflowError):
            info['not compared'] += 1
            continue
        if not g2:
            info['not compared'] += 1
            continue
        info['compared'] += 1
        if abs(value - true) > Fraction(1, 10 ** 6) * (1 + abs(true)):
            add('wrong-limit', cases[0].text, 'where %s, the assigned value is '
                'not the limit of the quotient used for non-degenerate '
                'elements' % describe(point, texts))

def augmented(vals, e, old):
    if e.aug is None:
        return vals.value(e.value, e.env)
    if old is None:
        raise Unknown('none')
    a, b = old(), vals.value(e.value, e.env)
    if isinstance(e.aug, ast.Div):
        return a / b
    if isinstance(e.aug, ast.Mult):
        return a * b
    if isinstance(e.aug, ast.Add):
        return a + b
    if isinstance(e.aug, ast.Sub):
        return a - b
    raise Unknown('operator')

def energies(root):
    from .project import Project
    project = Project(root)
    findings = []
    info = {'functions': 0, 'functions with masks or occupations': 0, 'divisions': 0, 'groups': 0, 'compared': 0,
        'not compared': 0}
    for f in project.all_functions():
        info['functions'] += 1
        analyse(f.node, f.qualname, findings, info)
    return findings, {k.replace(' ', '_'): v for k, v in info.items()}
