"""Reaching definitions in source order, products of factors, and formulas of
Boolean masks: shared by the checks of masked divisions and mesh indices."""

import ast
import math

ROUND = {'round', 'around', 'rint', 'round_'}
ABS = {'abs', 'absolute', 'fabs'}

def callee(n):
    """Last component of the name of a called function."""
    if isinstance(n, ast.Call):
        f = n.func
        return f.attr if isinstance(f, ast.Attribute) else getattr(f, 'id',
            None)

def is_pi(n):
    return isinstance(n, ast.Attribute) and n.attr == 'pi' or isinstance(n,
        ast.Name) and n.id == 'pi'

class Def:
    """One assignment: value expression, optional position of the element."""
    count = 0
    def __init__(self, kind, value, item=None, node=None, prev=()):
        Def.count += 1
        self.id = Def.count
        self.kind = kind   # 'value', 'item', 'aug', 'param', 'loop', 'other'
        self.value = value
        self.item = item
        self.node = node
        self.prev = prev
        self.env = None

class Walker:
    """Visits statements in source order with the definitions reaching them.

    Branches are joined; loop bodies are visited once. Nested functions are
    visited after the enclosing body with its final definitions.
    """
    def __init__(self):
        self.guards = []

    def function(self, node, env=None):
        env = dict(env or {})
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg,
                a.kwarg) if y is not None]:
            env[x.arg] = (Def('param', None, node=node),)
        self.later = []
        self.body(node.body, env)
        later, self.later = self.later, []
        for n in later:
            saved = self.later
            self.guards = []
            self.function(n, env)
            self.later = saved

    def body(self, stmts, env):
        for n in stmts:
            self.block = stmts
            self.statement(n, env)

    def define(self, target, value, env, node, item=None):
        if isinstance(target, ast.Name):
            d = Def('value' if item is None else 'item', value, item, node)
            d.env = dict(env)
            env[target.id] = (d,)
        elif isinstance(target, (ast.Tuple, ast.List)):
            if isinstance(value, (ast.Tuple, ast.List)) and item is None \
                    and len(value.elts) == len(target.elts):
                before = dict(env)
                for t, v in zip(target.elts, value.elts):
                    self.define(t, v, env, node)
                    if isinstance(t, ast.Name):
                        env[t.id][0].env = before
            else:
                for i, t in enumerate(target.elts):
                    self.define(t, value, env, node, i if item is None
                        else None)
        elif isinstance(target, ast.Starred):
            self.define(target.value, None, env, node)

    def other(self, target, env, node, kind='other'):
        for x in ast.walk(target):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                env[x.id] = (Def(kind, None, node=node),)

    def join(self, env, envs):
        keys = set().union(*envs)
        for k in keys:
            ds = []
            for e in envs:
                for d in e.get(k, ()):
                    if d not in ds:
                        ds.append(d)
            env[k] = tuple(ds)

    def statement(self, n, env):
        if isinstance(n, ast.Assign):
            self.visit(n, env)
            for t in n.targets:
                self.define(t, n.value, env, n)
        elif isinstance(n, ast.AnnAssign):
            self.visit(n, env)
            if n.value is not None:
                self.define(n.target, n.value, env, n)
        elif isinstance(n, ast.AugAssign):
            self.visit(n, env)
            if isinstance(n.target, ast.Name):
                d = Def('aug', n.value, node=n, prev=env.get(n.target.id, ()))
                d.env = dict(env)
                env[n.target.id] = (d,)
        elif isinstance(n, ast.If):
            self.visit(n.test, env)
            a, b = dict(env), dict(env)
            self.guards.append((n.test, True, dict(env)))
            self.body(n.body, a)
            self.guards[-1] = n.test, False, dict(env)
            self.body(n.orelse, b)
            self.guards.pop()
            ends = lambda body: body and isinstance(body[-1], (ast.Return,
                ast.Raise, ast.Continue, ast.Break))
            if ends(n.body):
                env.update(b)
            elif ends(n.orelse):
                env.update(a)
            else:
                self.join(env, [a, b])
        elif isinstance(n, (ast.For, ast.AsyncFor)):
            self.visit(n.iter, env)
            before = dict(env)
            for x in ast.walk(n.target):
                if isinstance(x, ast.Name):
                    env[x.id] = (Def('loop', n.iter, node=n),)
            self.body(n.body, env)
            self.body(n.orelse, env)
        elif isinstance(n, ast.While):
            names = {x.id for b in n.body for x in ast.walk(b) if isinstance(x,
                ast.Name) and isinstance(x.ctx, ast.Store)}
            for x in names & set(env):
                env[x] = (Def('other', None, node=n),)
            self.visit(n.test, env)
            self.body(n.body, env)
            for x in names:
                env[x] = (Def('other', None, node=n),)
            self.body(n.orelse, env)
        elif isinstance(n, (ast.With, ast.AsyncWith)):
            for i in n.items:
                self.visit(i.context_expr, env)
                if i.optional_vars is not None:
                    self.other(i.optional_vars, env, n)
            self.body(n.body, env)
        elif isinstance(n, ast.Try):
            self.body(n.body, env)
            for h in n.handlers:
                self.body(h.body, env)
            self.body(n.orelse, env)
            self.body(n.finalbody, env)
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            env[n.name] = (Def('other', None, node=n),)
            self.later.append(n)
        elif isinstance(n, ast.ClassDef):
            pass
        else:
            self.visit(n, env)

    def visit(self, n, env):
        pass

def clone(n, env):
    """Copy of a syntax tree with names tagged by their definitions."""
    if isinstance(n, ast.Name):
        ds = env.get(n.id)
        if ds:
            return ast.Name(id='%s#%s' % (n.id, '_'.join(str(d.id)
                for d in ds)), ctx=n.ctx)
        return n
    if isinstance(n, list):
        return [clone(x, env) for x in n]
    if isinstance(n, ast.AST) and n._fields:
        return type(n)(**{f: clone(getattr(n, f, None), env)
            for f in n._fields})
    return n

def key(e, env):
    """Text of an expression with names tagged by their definitions."""
    return ast.unparse(ast.fix_missing_locations(clone(e, env)))

def single(name, env):
    """The only definition of a name."""
    ds = env.get(name, ())
    return ds[0] if len(ds) == 1 else None

class Product:
    """coefficient * prod(symbol ** exponent)"""
    def __init__(self, coef=1.0, powers=None, nodes=None):
        self.coef = coef
        self.powers = powers or {}
        self.nodes = nodes or {}

    def times(self, other, sign=1):
        p, nodes = dict(self.powers), dict(self.nodes)
        for k, v in other.powers.items():
            p[k] = p.get(k, 0) + sign * v
            if not p[k]:
                del p[k]
        nodes.update(other.nodes)
        if sign < 0 and not other.coef:
            return None
        return Product(self.coef * other.coef ** sign, p, nodes)

def product(e, env, depth=0):
    """Decompose into numerical coefficient and symbolic factors."""
    if isinstance(e, ast.Constant) and isinstance(e.value, (int, float)) \
            and not isinstance(e.value, bool):
        return Product(float(e.value))
    if is_pi(e):
        return Product(math.pi)
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
        p = product(e.operand, env, depth + 1)
        return Product(-p.coef, p.powers, p.nodes)
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.UAdd):
        return product(e.operand, env, depth + 1)
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Mult, ast.Div)):
        a = product(e.left, env, depth + 1)
        b = product(e.right, env, depth + 1)
        r = a.times(b, 1 if isinstance(e.op, ast.Mult) else -1)
        if r is not None:
            return r
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Pow) and isinstance(
            e.right, ast.Constant) and isinstance(e.right.value, int) \
            and e.right.value > 0:
        a = product(e.left, env, depth + 1)
        return Product(a.coef ** e.right.value, {k: v * e.right.value
            for k, v in a.powers.items()}, a.nodes)
    if isinstance(e, ast.Call) and len(e.args) == 2 and callee(e) in (
            'multiply', 'divide', 'true_divide') and not e.keywords:
        a = product(e.args[0], env, depth + 1)
        b = product(e.args[1], env, depth + 1)
        r = a.times(b, 1 if callee(e) == 'multiply' else -1)
        if r is not None:
            return r
    if isinstance(e, ast.Call) and len(e.args) == 1 and callee(e) in ('array',
            'asarray') and not isinstance(e.args[0], (ast.List, ast.Tuple)):
        return product(e.args[0], env, depth + 1)
    if isinstance(e, ast.Name) and depth < 30:
        d = single(e.id, env)
        if d is not None and d.kind == 'value' and isinstance(d.value,
                (ast.BinOp, ast.UnaryOp, ast.Constant, ast.Attribute,
                ast.Name)) or d is not None and d.kind == 'value' \
                and callee(d.value) in ('multiply', 'divide'):
            if not isinstance(d.value, ast.Attribute) or is_pi(d.value):
                return product(d.value, d.env, depth + 1)
    if isinstance(e, ast.Subscript) and isinstance(e.value, ast.Name) \
            and isinstance(e.slice, ast.Constant) and depth < 30:
        # component of a quotient of a vector: scale[0] -> nk[0] / (2 pi)
        d = single(e.value.id, env)
        if d is not None and d.kind == 'value' and isinstance(d.value,
                ast.BinOp) and isinstance(d.value.op, (ast.Mult, ast.Div)):
            p = product(d.value, d.env, depth + 1)
            if len(p.powers) == 1:
                (k, v), = p.powers.items()
                n = p.nodes.get(k)
                if n is not None:
                    s = ast.Subscript(value=n, slice=e.slice, ctx=ast.Load())
                    kk = '%s[%r]' % (k, e.slice.value)
                    return Product(p.coef, {kk: v}, {kk: s})
    k = key(e, env)
    return Product(1.0, {k: 1}, {k: e})

# --- masks ------------------------------------------------------------------

# formulas: ('atom', key), ('not', f), ('and', f, g), ('or', f, g), True,
# False, or None (unknown)

def atoms(f):
    if isinstance(f, tuple):
        if f[0] == 'atom':
            return {f[1]}
        return set().union(*map(atoms, f[1:]))
    return set()

def holds(f, point):
    if isinstance(f, bool):
        return f
    if f[0] == 'atom':
        return point[f[1]]
    if f[0] == 'not':
        return not holds(f[1], point)
    if f[0] == 'and':
        return holds(f[1], point) and holds(f[2], point)
    return holds(f[1], point) or holds(f[2], point)

def points(names):
    names = sorted(names)
    for i in range(2 ** len(names)):
        yield {n: bool(i >> j & 1) for j, n in enumerate(names)}

def implies(f, g):
    return all(holds(g, p) for p in points(atoms(f) | atoms(g))
        if holds(f, p))

def satisfiable(f):
    return any(holds(f, p) for p in points(atoms(f)))

def neg(f):
    return None if f is None else ('not', f)

def both(f, g, op='and'):
    if f is None or g is None:
        return None
    return (op, f, g)
