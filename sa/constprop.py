"""Constant propagation with path splitting over function bodies.

Values are Python constants, `Term` (formula over unknown numbers), `Seq`
(list/tuple of values), `Map`, `Ref` (function or class), `Closure` or TOP.
Nothing is executed: statements are interpreted over this abstract domain, and
conditions that are not constant split the path. `Opt` constants (subclasses of
int and str) mark the value of the option under study.
"""

import ast
import copy

from .project import Module, Func, Class

class Top:
    def __repr__(self):
        return 'TOP'
    def __deepcopy__(self, memo):
        return self

TOP = Top()

class Unbound(Top):
    def __repr__(self):
        return 'UNBOUND'

UNBOUND = Unbound()

class OInt(int):
    pass

class OStr(str):
    pass

def option(v):
    if isinstance(v, bool):
        return v
    if isinstance(v, int):
        return OInt(v)
    if isinstance(v, str):
        return OStr(v)
    return v

class Term:
    """Formula: operator and arguments (terms or numbers)."""
    def __init__(self, op, *args):
        self.op = op
        self.args = args
    def __repr__(self):
        if self.op == 'sym':
            return self.args[0]
        return '%s(%s)' % (self.op, ', '.join(map(repr, self.args)))
    def __deepcopy__(self, memo):
        return self

class Seq:
    def __init__(self, items, kind='list', rest=False):
        self.items = items
        self.kind = kind
    def __repr__(self):
        return '%s%r' % (self.kind, self.items)

class Map:
    def __init__(self, items):
        self.items = items
    def __repr__(self):
        return 'Map%r' % self.items

class Ref:
    def __init__(self, target):
        self.target = target
    def __eq__(self, other):
        return isinstance(other, Ref) and self.target is other.target
    def __hash__(self):
        return id(self.target)
    def __repr__(self):
        return 'Ref(%s)' % getattr(self.target, 'qualname', self.target)
    def __deepcopy__(self, memo):
        return self

class Closure:
    def __init__(self, node):
        self.node = node
    def __deepcopy__(self, memo):
        return self
    def __repr__(self):
        return 'Closure'

class Ext:
    """External module or function."""
    def __init__(self, dotted):
        self.dotted = dotted
    def __deepcopy__(self, memo):
        return self
    def __repr__(self):
        return 'Ext(%s)' % self.dotted

class Slice:
    pass

CONST = (bool, int, float, str, bytes, type(None))

def is_const(v):
    return isinstance(v, CONST)

def is_num(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool) \
        or isinstance(v, Term)

def numeric(op, *args):
    """Fold constants or build a term."""
    if all(isinstance(a, (int, float)) for a in args):
        try:
            import math
            fold = {'+': lambda a, b: a + b, '-': lambda a, b: a - b,
                '*': lambda a, b: a * b, '/': lambda a, b: a / b,
                '**': lambda a, b: a ** b, '%': lambda a, b: a % b,
                '//': lambda a, b: a // b, 'neg': lambda a: -a,
                'sqrt': math.sqrt, 'sin': math.sin, 'cos': math.cos,
                'tan': math.tan, 'arccos': math.acos, 'arcsin': math.asin,
                'arctan': math.atan, 'exp': math.exp, 'abs': abs,
                'round': round, 'int': int, 'float': float}.get(op)
            if fold is not None:
                v = fold(*args)
                if not isinstance(v, complex):
                    return v
        except (ArithmeticError, ValueError, OverflowError):
            pass
    return Term(op, *args)

NUMFUNCS = {'sqrt', 'sin', 'cos', 'tan', 'arccos', 'arcsin', 'arctan', 'exp',
    'abs', 'absolute', 'square', 'deg2rad', 'radians', 'reciprocal', 'float'}

class State:
    def __init__(self, env):
        self.env = env
    def copy(self):
        return State(copy.deepcopy(self.env))

class Outcome:
    def __init__(self, kind, value, node, env=None):
        self.env = env
        self.kind = kind
        self.value = value
        self.node = node

class Budget(Exception):
    pass

class Interpreter:
    MAXSTATES = 64
    MAXSTEPS = 250000

    def __init__(self, project, inline=3):
        self.project = project
        self.inline = inline
        self.names = {}    # id(Name node) -> [bound?, ...]
        self.nodes = {}
        self.options = {}  # id(test) -> decided by the option
        self.chains = []   # chains without selected branch
        self.calls = []    # calls of non-callable constants, attributes
        self.missing = []
        self.steps = 0
        self.depth = 0
        self.closures = []
        self.called = set()

    # --- function level ---

    def function(self, func, args, module=None, node=None, env=None):
        """Outcomes of calling a function with some parameters bound."""
        node = func.node if node is None else node
        module = func.module if module is None else module
        local = {}
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        for name, d in list(zip(names[len(names) - len(a.defaults):],
                a.defaults)) + [(k.arg, d) for k, d in zip(a.kwonlyargs,
                a.kw_defaults) if d is not None]:
            if name not in args:
                s = State({})
                r = self.eval(d, s, module, {})
                local[name] = r[0][0] if r else TOP
        for name in names + [k.arg for k in a.kwonlyargs]:
            if name in args:
                local[name] = args[name]
            elif name not in local:
                local[name] = TOP
        if a.vararg:
            local[a.vararg.arg] = args.get('*', TOP)
        if a.kwarg:
            local[a.kwarg.arg] = args.get('**', TOP)
        if isinstance(node, ast.Lambda):
            out = []
            for v, s in self.eval(node.body, State(dict(env or {}, **local)),
                    module, set(local)):
                out.append(Outcome('return', v, node))
            return out
        from .names import bound_names
        bound, glob = bound_names(node)
        e = dict(env or {})
        for n in bound:
            if n not in local:
                e[n] = UNBOUND
        e.update(local)
        scope = set(e)
        out = []
        for s, sig in self.block(node.body, [State(e)], module, scope):
            if sig is None:
                out.append(Outcome('end', None, node, s.env))
            else:
                out.append(Outcome(*sig, s.env))
        if self.depth == 0:
            # analyse local functions that are only passed on
            last = out[-1].env if out else e
            for c in list(self.closures):
                if id(c) not in self.called:
                    self.depth += 1
                    self.called.add(id(c))
                    self.function(None, {}, module, c, {k: TOP if v is UNBOUND
                        else v for k, v in last.items()})
                    self.depth -= 1
        return out

    def merge(self, states):
        if len(states) <= self.MAXSTATES:
            return states
        # join all into one
        keys = set()
        for s in states:
            keys.update(s.env)
        env = {}
        for k in keys:
            vals = [s.env.get(k, UNBOUND) for s in states]
            v = vals[0]
            if all(same(v, w) for w in vals[1:]):
                env[k] = v
            else:
                env[k] = TOP
        return [State(env)]

    def block(self, body, states, module, scope):
        """List of (state, signal)."""
        done = []
        for n in body:
            if not states:
                break
            new = []
            for s in states:
                for t, sig in self.stmt(n, s, module, scope):
                    if sig is None:
                        new.append(t)
                    else:
                        done.append((t, sig))
            states = self.merge(new)
            if len(done) > 400:
                seen, few = set(), []
                for t, sig in done:
                    k = (sig[0], id(sig[2]), repr(sig[1])[:200])
                    if k not in seen:
                        seen.add(k)
                        few.append((t, sig))
                done = few
        return done + [(s, None) for s in states]

    def stmt(self, n, s, module, scope):
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise Budget
        if isinstance(n, ast.Expr):
            return self.signals(self.eval(n.value, s, module, scope))
        if isinstance(n, ast.Assign):
            out = []
            for v, t in self.eval(n.value, s, module, scope):
                if isinstance(v, Raise):
                    out.append((t, ('raise', None, v.node)))
                    continue
                for target in n.targets:
                    self.assign(target, v, t, module, scope)
                out.append((t, None))
            return out
        if isinstance(n, ast.AnnAssign):
            if n.value is None:
                return [(s, None)]
            return self.stmt(ast.copy_location(ast.Assign(targets=[n.target],
                value=n.value), n), s, module, scope)
        if isinstance(n, ast.AugAssign):
            load = copy.copy(n.target)
            load.ctx = ast.Load()
            out = []
            for v, t in self.eval(ast.copy_location(ast.BinOp(left=load,
                    op=n.op, right=n.value), n), s, module, scope):
                if isinstance(v, Raise):
                    out.append((t, ('raise', None, v.node)))
                    continue
                self.assign(n.target, v, t, module, scope)
                out.append((t, None))
            return out
        if isinstance(n, ast.Return):
            if n.value is None:
                return [(s, ('return', None, n))]
            return [(t, ('raise', None, v.node) if isinstance(v, Raise)
                else ('return', v, n)) for v, t in self.eval(n.value, s,
                module, scope)]
        if isinstance(n, ast.Raise):
            return [(s, ('raise', None, n))]
        if isinstance(n, ast.If):
            return self.if_(n, s, module, scope)
        if isinstance(n, (ast.For, ast.While)):
            return self.loop(n, s, module, scope)
        if isinstance(n, ast.With):
            states = [s]
            for item in n.items:
                new = []
                for s in states:
                    for v, t in self.eval(item.context_expr, s, module, scope):
                        if isinstance(v, Raise):
                            continue
                        if item.optional_vars is not None:
                            self.assign(item.optional_vars, TOP, t, module,
                                scope)
                        new.append(t)
                states = new
            return self.block(n.body, states, module, scope)
        if isinstance(n, ast.Try):
            out = []
            for t, sig in self.block(n.body, [s.copy()], module, scope):
                if sig is None and n.orelse:
                    out += self.block(n.orelse, [t], module, scope)
                elif sig is None or sig[0] != 'raise':
                    out.append((t, sig))
            for h in n.handlers:
                t = s.copy()
                for name in stores(n.body):
                    if name in t.env:
                        t.env[name] = TOP
                if h.name:
                    t.env[h.name] = TOP
                out += self.block(h.body, [t], module, scope)
            if n.finalbody:
                fin = []
                for t, sig in out:
                    for u, sig2 in self.block(n.finalbody, [t], module, scope):
                        fin.append((u, sig2 or sig))
                out = fin
            return out
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            s.env[n.name] = Closure(n)
            if not any(c is n for c in self.closures):
                self.closures.append(n)
            return [(s, None)]
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            base = ''
            if isinstance(n, ast.ImportFrom):
                base = (n.module or '') + '.'
            for a in n.names:
                s.env[a.asname or a.name.split('.')[0]] = Ext(base + a.name
                    if a.asname or base else a.name.split('.')[0])
            return [(s, None)]
        if isinstance(n, ast.Assert):
            return self.signals(self.eval(n.test, s, module, scope))
        if isinstance(n, ast.Delete):
            return [(s, None)]
        if isinstance(n, (ast.Break, ast.Continue)):
            return [(s, ('break' if isinstance(n, ast.Break) else 'continue',
                None, n))]
        return [(s, None)]

    def signals(self, results):
        return [(t, ('raise', None, v.node) if isinstance(v, Raise) else None)
            for v, t in results]

    def truth(self, v):
        if isinstance(v, Top) or isinstance(v, Term):
            return None
        if is_const(v):
            return bool(v)
        if isinstance(v, Seq):
            return bool(v.items)
        if isinstance(v, Map):
            return bool(v.items)
        if isinstance(v, (Ref, Closure)):
            return True
        return None

    def if_(self, n, s, module, scope):
        out = []
        for v, t in self.eval(n.test, s, module, scope):
            if isinstance(v, Raise):
                out.append((t, ('raise', None, v.node)))
                continue
            truth = self.truth(v)
            if truth is None:
                u = t.copy()
                self.refine(n.test, True, t)
                self.refine(n.test, False, u)
                out += self.block(n.body, [t], module, scope)
                out += self.block(n.orelse, [u], module, scope)
            elif truth:
                out += self.block(n.body, [t], module, scope)
            else:
                if not n.orelse:
                    chain = [n]
                    while isinstance(getattr(chain[-1], 'parent', None),
                            ast.If) and chain[-1].parent.orelse == [chain[-1]]:
                        chain.append(chain[-1].parent)
                    decided = [self.options.get(id(c.test)) for c in chain]
                    if decided.count(False) > 1 and True not in decided:
                        self.chains.append(chain[-1])
                out += self.block(n.orelse, [t], module, scope)
        return out

    def refine(self, test, value, s):
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.refine(test.operand, not value, s)
        if isinstance(test, ast.Name) and test.id in s.env \
                and s.env[test.id] is TOP and False:
            s.env[test.id] = value

    def loop(self, n, s, module, scope):
        if isinstance(n, ast.For):
            out = []
            for v, t in self.eval(n.iter, s, module, scope):
                if isinstance(v, Raise):
                    out.append((t, ('raise', None, v.node)))
                    continue
                items = None
                if isinstance(v, Seq):
                    items = v.items
                elif isinstance(v, Map):
                    items = list(v.items)
                elif isinstance(v, str):
                    items = list(v)
                known = items is not None and len(items) <= 40
                if not known:
                    items = [TOP]
                states, after = [t], []
                for item in items:
                    new = []
                    for u in states:
                        self.assign(n.target, item, u, module, scope)
                        if not known:
                            for name in stores(n.body):
                                if name in u.env and u.env[name] \
                                        is not UNBOUND:
                                    u.env[name] = TOP
                        for w, sig in self.block(n.body, [u], module, scope):
                            if sig is None or sig[0] == 'continue':
                                new.append(w)
                            elif sig[0] == 'break':
                                after.append(w)
                            else:
                                out.append((w, sig))
                    states = self.merge(new)
                if not known:
                    # values may stem from any iteration
                    for u in states + after:
                        for name in stores([n]):
                            if u.env.get(name) is not UNBOUND:
                                u.env[name] = TOP
                if n.orelse:
                    out += self.block(n.orelse, states, module, scope)
                else:
                    out += [(u, None) for u in states]
                out += [(u, None) for u in after]
            return out
        # while
        out = []
        states = [s]
        forever = isinstance(n.test, ast.Constant) and n.test.value
        names = stores([n])
        for name in names:
            if s.env.get(name, UNBOUND) is not UNBOUND:
                s.env[name] = TOP
        for turn in range(2):
            new = []
            for v, t in [r for u in states for r in self.eval(n.test, u,
                    module, scope)]:
                if isinstance(v, Raise):
                    out.append((t, ('raise', None, v.node)))
                    continue
                truth = self.truth(v)
                if truth is not True:
                    out.append((t.copy(), None))
                if truth is not False:
                    for w, sig in self.block(n.body, [t], module, scope):
                        if sig is None or sig[0] == 'continue':
                            for name in names:
                                if w.env.get(name) is not UNBOUND:
                                    w.env[name] = TOP
                            new.append(w)
                        elif sig[0] == 'break':
                            out.append((w, None))
                        else:
                            out.append((w, sig))
            states = self.merge(new)
        if not forever:
            out += [(u, None) for u in states]
        return out

    # --- assignment ---

    def assign(self, t, v, s, module, scope):
        if isinstance(t, ast.Name):
            s.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, Seq) and not any(isinstance(e, ast.Starred)
                    for e in t.elts) and len(v.items) == len(t.elts):
                for e, x in zip(t.elts, v.items):
                    self.assign(e, x, s, module, scope)
            else:
                for e in t.elts:
                    self.assign(e.value if isinstance(e, ast.Starred) else e,
                        TOP, s, module, scope)
        elif isinstance(t, ast.Subscript):
            r = self.eval(t.value, s, module, scope)
            if len(r) != 1:
                return
            base = r[0][0]
            r = self.eval(t.slice, s, module, scope)
            key = r[0][0] if len(r) == 1 else TOP
            if isinstance(base, Seq):
                if isinstance(key, int) and -len(base.items) <= key \
                        < len(base.items):
                    base.items[key] = v
                else:
                    base.items[:] = [TOP] * len(base.items)
            elif isinstance(base, Map):
                if is_const(key):
                    base.items[key] = v
                else:
                    base.items.clear()
                    base.items[TOP] = TOP
        elif isinstance(t, ast.Attribute):
            self.eval(t.value, s, module, scope)

    # --- expressions: list of (value, state) ---

    def many(self, exprs, s, module, scope):
        """List of ([values], state)."""
        out = [([], s)]
        for e in exprs:
            new = []
            for vals, t in out:
                if vals and isinstance(vals[-1], Raise):
                    new.append((vals, t))
                    continue
                for v, u in self.eval(e, t, module, scope):
                    new.append((vals + [v], u))
            out = new
            if len(out) > self.MAXSTATES:
                out = [([TOP] * len(out[0][0]), self.merge([t for v, t in out]
                    + [out[0][1]] * (self.MAXSTATES + 1))[0])]
        return out

    def eval(self, e, s, module, scope):
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise Budget
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            for c in ast.iter_child_nodes(e):
                if isinstance(c, ast.expr) and not isinstance(e, (ast.ListComp,
                        ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                    r = self.eval(c, s, module, scope)
                    if r:
                        s = r[0][1]
            return [(TOP, s)]
        return m(e, s, module, scope)

    def one(self, e, s, module, scope):
        r = self.eval(e, s, module, scope)
        if len(r) == 1 and not isinstance(r[0][0], Raise):
            return r[0][0]
        return TOP

    def e_Constant(self, e, s, module, scope):
        return [(e.value if is_const(e.value) else TOP, s)]

    def e_Name(self, e, s, module, scope):
        if e.id in s.env:
            v = s.env[e.id]
            self.nodes[id(e)] = e
            self.names.setdefault(id(e), []).append(v is not UNBOUND)
            if v is UNBOUND:
                return [(Raise(e), s)]
            return [(v, s)]
        if e.id in ('True', 'False', 'None'):
            return [({'True': True, 'False': False, 'None': None}[e.id], s)]
        target = self.project.member(module, e.id)
        return [(self.wrap(target, e.id, module), s)]

    def wrap(self, target, dotted, module):
        if isinstance(target, (Func, Class, Module)):
            return Ref(target)
        if isinstance(target, tuple) and target[0] == 'ext':
            if target[1] in ('numpy.pi', 'math.pi'):
                import math
                return math.pi
            return Ext(target[1])
        if isinstance(target, tuple) and target[0] == 'global':
            m, name = target[1], target[2]
            values = m.globals.get(name)
            if values and len(values) == 1 and not isinstance(values[0],
                    ast.AugAssign) and self.depth < 6:
                self.depth += 1
                try:
                    v = self.one(values[0], State({}), m, set())
                finally:
                    self.depth -= 1
                if isinstance(v, Top) or isinstance(v, (Ext, Closure)):
                    return Term('sym', '%s.%s' % (m.short, name)) \
                        if isinstance(v, Top) else v
                return v
            return Term('sym', '%s.%s' % (m.short, name))
        if target is None:
            return Ext(dotted)
        return TOP

    def e_Attribute(self, e, s, module, scope):
        out = []
        for v, t in self.eval(e.value, s, module, scope):
            if isinstance(v, Raise):
                out.append((v, t))
            elif isinstance(v, Ref) and isinstance(v.target, Module):
                target = self.project.member(v.target, e.attr)
                out.append((self.wrap(target, '%s.%s' % (v.target.name,
                    e.attr), module), t))
            elif isinstance(v, Ref) and isinstance(v.target, Func):
                out.append((self.function_attribute(v.target, e.attr), t))
            elif isinstance(v, Ext):
                dotted = v.dotted + '.' + e.attr
                if dotted in ('numpy.pi', 'math.pi'):
                    import math
                    out.append((math.pi, t))
                else:
                    r = self.project.resolve(dotted)
                    out.append((self.wrap(r, dotted, module), t))
            else:
                if isinstance(v, str) and not hasattr('', e.attr):
                    self.calls.append((e, v))
                if e.attr == 'T' and isinstance(v, Seq) and depth(v) == 2:
                    out.append((transpose(v), t))
                    continue
                out.append((Method(v, e.attr) if isinstance(v, (str, Map,
                    Seq)) else TOP, t))
        return out

    def function_attribute(self, func, attr):
        """Attributes of functions are assigned at module level."""
        return TOP

    def e_Tuple(self, e, s, module, scope):
        return self.sequence(e, s, module, scope, 'tuple')

    def e_List(self, e, s, module, scope):
        return self.sequence(e, s, module, scope, 'list')

    def e_Set(self, e, s, module, scope):
        return self.sequence(e, s, module, scope, 'set')

    def sequence(self, e, s, module, scope, kind):
        out = []
        starred = [isinstance(x, ast.Starred) for x in e.elts]
        for vals, t in self.many([x.value if st else x for x, st in zip(e.elts,
                starred)], s, module, scope):
            if vals and isinstance(vals[-1], Raise):
                out.append((vals[-1], t))
                continue
            items, known = [], True
            for v, st in zip(vals, starred):
                if not st:
                    items.append(v)
                elif isinstance(v, Seq):
                    items += v.items
                else:
                    known = False
            out.append((Seq(items, kind) if known else TOP, t))
        return out

    def e_Dict(self, e, s, module, scope):
        if any(k is None for k in e.keys):
            for v in e.values:
                self.one(v, s, module, scope)
            return [(TOP, s)]
        out = []
        for vals, t in self.many(e.keys + e.values, s, module, scope):
            if vals and isinstance(vals[-1], Raise):
                out.append((vals[-1], t))
                continue
            keys = [key(k) for k in vals[:len(e.keys)]]
            if all(k is not TOP for k in keys):
                out.append((Map(dict(zip(keys, vals[len(e.keys):]))), t))
            else:
                out.append((TOP, t))
        return out

    def e_UnaryOp(self, e, s, module, scope):
        out = []
        for v, t in self.eval(e.operand, s, module, scope):
            if isinstance(v, Raise):
                out.append((v, t))
            elif isinstance(e.op, ast.Not):
                if id(e.operand) in self.options:
                    self.options[id(e)] = not self.options[id(e.operand)]
                b = self.truth(v)
                out.append((TOP if b is None else not b, t))
            elif isinstance(e.op, ast.USub) and is_num(v):
                out.append((numeric('neg', v), t))
            elif isinstance(e.op, ast.USub) and isinstance(v, Seq):
                out.append((self.map(v, lambda x: numeric('neg', x) if
                    is_num(x) else TOP), t))
            elif isinstance(e.op, ast.UAdd):
                out.append((v, t))
            else:
                out.append((TOP, t))
        return out

    def map(self, v, f):
        if isinstance(v, Seq):
            return Seq([self.map(x, f) for x in v.items], v.kind)
        return f(v)

    OPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/',
        ast.Pow: '**', ast.Mod: '%', ast.FloorDiv: '//'}

    def e_BinOp(self, e, s, module, scope):
        out = []
        for vals, t in self.many([e.left, e.right], s, module, scope):
            if isinstance(vals[-1], Raise):
                out.append((vals[-1], t))
            else:
                out.append((self.binary(e.op, *vals), t))
        return out

    def binary(self, op, a, b):
        if isinstance(op, ast.MatMult):
            return self.dot(mark(a), mark(b))
        o = self.OPS.get(type(op))
        if o is None:
            return TOP
        if is_num(a) and is_num(b):
            return numeric(o, a, b)
        if isinstance(a, str) and isinstance(b, str) and o == '+':
            r = str(a) + str(b)
            return OStr(r) if isinstance(a, OStr) or isinstance(b, OStr) else r
        if isinstance(a, Seq) and a.kind == 'array' and is_num(b):
            return self.map(a, lambda x: self.binary(op, x, b))
        if isinstance(b, Seq) and b.kind == 'array' and is_num(a):
            return self.map(b, lambda x: self.binary(op, a, x))
        if isinstance(a, Seq) and isinstance(b, Seq) and 'array' in (a.kind,
                b.kind):
            if len(a.items) == len(b.items) and depth(a) == depth(b):
                return Seq([self.binary(op, mark(x), mark(y)) for x, y in
                    zip(a.items, b.items)], 'array')
            if depth(a) == depth(b) + 1 and all(isinstance(x, Seq) and
                    len(x.items) == len(b.items) for x in a.items):
                return Seq([self.binary(op, mark(x), mark(b)) for x in
                    a.items], 'array')
            return TOP
        if isinstance(a, Seq) and isinstance(b, Seq) and o == '+':
            return Seq(a.items + b.items, a.kind)
        return TOP

    def e_Compare(self, e, s, module, scope):
        out = []
        for vals, t in self.many([e.left] + e.comparators, s, module, scope):
            if isinstance(vals[-1], Raise):
                out.append((vals[-1], t))
                continue
            result = True
            for op, a, b in zip(e.ops, vals, vals[1:]):
                r = self.compare(op, a, b)
                if r is None:
                    result = None
                    break
                if not r:
                    result = False
                    break
            if result is not None and any(isinstance(v, (OInt, OStr))
                    for v in vals):
                self.options[id(e)] = result
            elif result is None:
                self.options[id(e)] = None
            out.append((TOP if result is None else result, t))
        return out

    def compare(self, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)):
            if a is None or b is None:
                other = b if a is None else a
                if other is None:
                    r = True
                elif isinstance(other, Top):
                    return None
                else:
                    r = False
                return r if isinstance(op, ast.Is) else not r
            return None
        if isinstance(op, (ast.In, ast.NotIn)):
            r = None
            if is_const(a) and isinstance(b, (Seq, Map)):
                items = b.items if isinstance(b, Seq) else list(b.items)
                if any(is_const(x) and x == a for x in items):
                    r = True
                elif all(is_const(x) for x in items):
                    r = False
            elif isinstance(a, str) and isinstance(b, str):
                r = a in b
            if r is None:
                return None
            return r if isinstance(op, ast.In) else not r
        if is_const(a) and is_const(b):
            try:
                return {ast.Eq: lambda: a == b, ast.NotEq: lambda: a != b,
                    ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b,
                    ast.Gt: lambda: a > b, ast.GtE: lambda: a >= b}[type(op)]()
            except (TypeError, KeyError):
                return None
        return None

    def e_BoolOp(self, e, s, module, scope):
        isand = isinstance(e.op, ast.And)
        out = []
        states = [(None, s)]
        for i, x in enumerate(e.values):
            new = []
            for v0, t in states:
                for v, u in self.eval(x, t, module, scope):
                    if isinstance(v, Raise):
                        # later operands may not be reached
                        out.append((v if i == 0 else TOP, u))
                        continue
                    b = self.truth(v)
                    if b is (not isand):
                        out.append((v if v0 is None else TOP if v0 is TOP
                            and not isand else v, u))
                    else:
                        new.append((TOP if b is None or v0 is TOP else v, u))
            states = new
        out += states
        return out

    def e_IfExp(self, e, s, module, scope):
        out = []
        for v, t in self.eval(e.test, s, module, scope):
            if isinstance(v, Raise):
                out.append((v, t))
                continue
            b = self.truth(v)
            if b is None:
                out += self.eval(e.body, t.copy(), module, scope)
                out += self.eval(e.orelse, t, module, scope)
            else:
                out += self.eval(e.body if b else e.orelse, t, module, scope)
        return out

    def e_Lambda(self, e, s, module, scope):
        return [(Closure(e), s)]

    def e_JoinedStr(self, e, s, module, scope):
        return [(TOP, s)]

    def e_Slice(self, e, s, module, scope):
        out = []
        parts = [e.lower, e.upper, e.step]
        for vals, t in self.many([p for p in parts if p is not None], s,
                module, scope):
            if vals and isinstance(vals[-1], Raise):
                out.append((vals[-1], t))
                continue
            vals = list(vals)
            full = [vals.pop(0) if p is not None else None for p in parts]
            if all(x is None or isinstance(x, int) for x in full):
                out.append((slice(*full), t))
            else:
                out.append((TOP, t))
        return out

    def e_Subscript(self, e, s, module, scope):
        out = []
        for vals, t in self.many([e.value, e.slice], s, module, scope):
            if isinstance(vals[-1], Raise):
                out.append((vals[-1], t))
                continue
            base, k = vals
            if isinstance(base, Map):
                kk = key(k)
                if kk is TOP:
                    out.append((TOP, t))
                elif kk in base.items:
                    out.append((base.items[kk], t))
                elif TOP in base.items:
                    out.append((TOP, t))
                else:
                    self.missing.append((e, k))
                    out.append((Raise(e), t))
            elif isinstance(base, Seq):
                out.append((self.index(base, k), t))
            else:
                out.append((TOP, t))
        return out

    def index(self, base, k):
        if isinstance(k, bool):
            return TOP
        if isinstance(k, int):
            if -len(base.items) <= k < len(base.items):
                v = base.items[k]
                return mark(v) if base.kind == 'array' else v
            return TOP
        if isinstance(k, slice):
            return Seq(base.items[k], base.kind)
        if isinstance(k, Seq) and k.kind == 'tuple' and base.kind == 'array':
            if not k.items:
                return base
            first, rest = k.items[0], Seq(k.items[1:], 'tuple')
            if isinstance(first, int) and not isinstance(first, bool):
                v = self.index(base, first)
                return self.index(v, rest) if isinstance(v, Seq) and \
                    rest.items else v
            if isinstance(first, slice):
                return Seq([self.index(mark(x), rest) if rest.items else x
                    for x in base.items[first]], 'array')
        return TOP

    def e_Starred(self, e, s, module, scope):
        return self.eval(e.value, s, module, scope)

    def comp(self, e, s, module, scope):
        if len(e.generators) != 1 or e.generators[0].ifs:
            return [(TOP, s)]
        g = e.generators[0]
        out = []
        for v, t in self.eval(g.iter, s, module, scope):
            if isinstance(v, Raise):
                out.append((v, t))
                continue
            items = v.items if isinstance(v, Seq) else list(v.items) \
                if isinstance(v, Map) else None
            if items is None or len(items) > 40:
                u = t.copy()
                self.assign(g.target, TOP, u, module, scope)
                self.eval(e.elt, u, module, scope)
                out.append((TOP, t))
                continue
            vals = []
            for item in items:
                u = t.copy()
                self.assign(g.target, mark(item) if isinstance(v, Seq) and
                    v.kind == 'array' else item, u, module, scope)
                vals.append(self.one(e.elt, u, module, scope))
            out.append((Seq(vals, 'list'), t))
        return out

    e_ListComp = e_GeneratorExp = comp

    # --- calls ---

    def e_Call(self, e, s, module, scope):
        out = []
        exprs = [e.func] + [a.value if isinstance(a, ast.Starred) else a
            for a in e.args] + [k.value for k in e.keywords]
        for vals, t in self.many(exprs, s, module, scope):
            if isinstance(vals[-1], Raise):
                out.append((vals[-1], t))
                continue
            f = vals[0]
            args, known = [], True
            for a, v in zip(e.args, vals[1:]):
                if isinstance(a, ast.Starred):
                    if isinstance(v, Seq):
                        args += [mark(x) if v.kind == 'array' else x
                            for x in v.items]
                    else:
                        known = False
                else:
                    args.append(v)
            kwargs = {}
            for k, v in zip(e.keywords, vals[1 + len(e.args):]):
                if k.arg is not None:
                    kwargs[k.arg] = v
                elif isinstance(v, Map) and all(isinstance(x, str)
                        for x in v.items):
                    kwargs.update(v.items)
                else:
                    known = False
            out += self.call(e, f, args, kwargs, known, t, module, scope)
        return out

    def call(self, e, f, args, kwargs, known, s, module, scope):
        if isinstance(f, str):
            self.calls.append((e, f))
            return [(Raise(e), s)]
        if isinstance(f, Method):
            return [(self.method(e, f, args, kwargs), s)]
        if isinstance(f, Closure) and known and self.depth < self.inline:
            bound = self.bind(f.node.args, args, kwargs)
            if bound is None or bound and all(isinstance(v, Top)
                    for v in bound.values()) and self.depth:
                return [(TOP, s)]
            self.called.add(id(f.node))
            return self.inlined(e, None, module, f.node, bound, s, s.env)
        if isinstance(f, Ref) and isinstance(f.target, Func):
            func = f.target
            if func.name == 'info':
                err = kwargs.get('error', args[1] if len(args) > 1 else False)
                if err is True:
                    return [(Raise(e), s)]
                return [(None, s)]
            if known and self.depth < self.inline and func.cls is None:
                bound = self.bind(func.node.args, args, kwargs)
                if bound is not None and any(not isinstance(v, Top) for v in
                        bound.values()):
                    return self.inlined(e, func, func.module, func.node, bound,
                        s, None)
            return [(TOP, s)]
        name = None
        if isinstance(f, Ext):
            name = f.dotted
            if name in ('sys.exit', 'exit', 'quit'):
                return [(Raise(e), s)]
            v = self.library(e, name, args, kwargs)
            return [(v, s)]
        return [(TOP, s)]

    def bind(self, a, args, kwargs):
        names = [x.arg for x in a.posonlyargs + a.args]
        bound = {}
        if len(args) > len(names):
            if not a.vararg:
                return None
            bound['*'] = Seq(args[len(names):], 'tuple')
        elif a.vararg:
            bound['*'] = Seq([], 'tuple')
        bound.update(zip(names, args))
        extra = {}
        for k, v in kwargs.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                bound[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                return None
        if a.kwarg:
            bound['**'] = Map(extra)
        return bound

    def inlined(self, e, func, module, node, bound, s, env):
        self.depth += 1
        try:
            outs = self.function(func, bound, module, node, env and {k: v
                for k, v in env.items()})
        finally:
            self.depth -= 1
        out, seen = [], []
        for o in outs:
            v = Raise(o.node) if o.kind == 'raise' else o.value
            if o.kind in ('break', 'continue'):
                continue
            if isinstance(v, Raise):
                if any(isinstance(w, Raise) for w in seen):
                    continue
            elif any(not isinstance(w, Raise) and same(v, w) for w in seen):
                continue
            seen.append(v)
        if len(seen) > 4:
            seen = [TOP]
        for i, v in enumerate(seen):
            out.append((v, s if i == len(seen) - 1 else s.copy()))
        return out or [(TOP, s)]

    def dot(self, a, b):
        da, db = depth(a), depth(b)
        if da == db == 1 and len(a.items) == len(b.items):
            total = 0
            for x, y in zip(a.items, b.items):
                if not is_num(x) or not is_num(y):
                    return TOP
                if x == 0 and isinstance(x, (int, float)) or y == 0 \
                        and isinstance(y, (int, float)):
                    continue
                total = numeric('+', total, numeric('*', x, y))
            return total
        if da == 2 and db == 1:
            return Seq([self.dot(mark(r), b) for r in a.items], 'array')
        if da == 1 and db == 2:
            return Seq([self.dot(a, mark(c)) for c in transpose(b).items],
                'array')
        if da == 2 and db == 2:
            return Seq([Seq([self.dot(mark(r), mark(c)) for c in
                transpose(b).items], 'array') for r in a.items], 'array')
        if is_num(a) and is_num(b):
            return numeric('*', a, b)
        return TOP

    def method(self, e, f, args, kwargs):
        v, attr = f.value, f.attr
        if isinstance(v, str):
            if attr in ('lower', 'upper', 'strip', 'casefold', 'replace',
                    'title', 'capitalize', 'lstrip', 'rstrip',
                    'startswith', 'endswith', 'isdigit') \
                    and all(isinstance(a, str) for a in args) and not kwargs:
                try:
                    r = getattr(str(v), attr)(*map(str, args))
                except TypeError:
                    return TOP
                return OStr(r) if isinstance(r, str) and isinstance(v, OStr) \
                    else r
            return TOP
        if isinstance(v, Map):
            if attr == 'get' and args:
                k = key(args[0])
                if k is TOP or TOP in v.items:
                    return TOP
                return v.items.get(k, args[1] if len(args) > 1 else None)
            if attr == 'keys' and not args:
                return Seq([k for k in v.items], 'list')
            if attr == 'values' and not args:
                return Seq(list(v.items.values()), 'list')
            if attr == 'items' and not args:
                return Seq([Seq([k, x], 'tuple') for k, x in v.items.items()],
                    'list')
            if attr in ('update', 'pop', 'setdefault', 'clear', 'popitem'):
                if attr == 'update' and len(args) == 1 and isinstance(args[0],
                        Map):
                    v.items.update(args[0].items)
                elif attr == 'update' and not args:
                    v.items.update(kwargs)
                else:
                    v.items[TOP] = TOP
                return TOP if attr != 'update' else None
            if attr == 'copy':
                return Map(dict(v.items))
        if isinstance(v, Seq):
            if attr == 'append' and len(args) == 1:
                v.items.append(args[0])
                return None
            if attr == 'copy':
                return Seq(list(v.items), v.kind)
            if attr in ('insert', 'extend', 'sort', 'reverse', 'pop',
                    'remove', 'fill', 'add', 'discard'):
                v.items[:] = [TOP] * len(v.items)
            if attr in ('tolist', 'astype'):
                return v
            if attr == 'dot' and len(args) == 1:
                return self.dot(mark(v), mark(args[0]))
            if attr == 'transpose' and not args and depth(v) == 2:
                return transpose(v)
        return TOP

    def library(self, e, name, args, kwargs):
        short = name.rsplit('.', 1)[-1]
        if short in ('array', 'asarray', 'list', 'tuple', 'float64') and args:
            v = args[0]
            if isinstance(v, Seq):
                kind = 'array' if short in ('array', 'asarray') else short
                return copy.deepcopy(Seq(v.items, kind))
            return v if is_num(v) else TOP
        if short == 'len' and args:
            v = args[0]
            if isinstance(v, (Seq, Map)):
                return len(v.items)
            if isinstance(v, str):
                return len(v)
            return TOP
        if short == 'isinstance' and len(args) == 2:
            v = args[0]
            cls = args[1].dotted if isinstance(args[1], Ext) else None
            if cls in ('str', 'int', 'float') and is_const(v):
                return isinstance(v, {'str': str, 'int': int, 'float':
                    float}[cls])
            if cls == 'str' and isinstance(v, (Term, Seq, Map, Ref, Closure)):
                return False
            return TOP
        if short == 'callable' and args:
            if isinstance(args[0], (Ref, Closure)):
                return True
            return False if is_const(args[0]) else TOP
        if short in ('zeros', 'ones') and args and isinstance(args[0], int) \
                and args[0] <= 100:
            return Seq([0.0 if short == 'zeros' else 1.0] * args[0], 'array')
        if short in ('zeros', 'ones') and args and isinstance(args[0], Seq) \
                and len(args[0].items) == 2 and all(isinstance(x, int) and
                x <= 10 for x in args[0].items):
            n, m = args[0].items
            return Seq([Seq([0.0 if short == 'zeros' else 1.0] * m, 'array')
                for _ in range(n)], 'array')
        if short in ('eye', 'identity') and args and isinstance(args[0], int) \
                and args[0] <= 10:
            return Seq([Seq([float(i == j) for j in range(args[0])], 'array')
                for i in range(args[0])], 'array')
        if short == 'diag' and args and isinstance(args[0], Seq) \
                and depth(args[0]) == 1:
            v = args[0].items
            return Seq([Seq([v[i] if i == j else 0.0 for j in range(len(v))],
                'array') for i in range(len(v))], 'array')
        if short in ('range', 'arange') and args and all(isinstance(a, int)
                for a in args) and len(args) <= 3:
            r = range(*args) if len(args) < 3 or args[2] else range(0)
            return Seq(list(r), 'list') if len(r) <= 40 else TOP
        if short in ('dot', 'matmul', 'inner', 'vdot') and len(args) == 2:
            return self.dot(*map(mark, args))
        if short == 'cross' and len(args) == 2 and all(isinstance(a, Seq) and
                len(a.items) == 3 and depth(a) == 1 for a in args):
            a, b = [x.items for x in args]
            return Seq([self.binary(ast.Sub(), self.binary(ast.Mult(),
                a[(i + 1) % 3], b[(i + 2) % 3]), self.binary(ast.Mult(),
                a[(i + 2) % 3], b[(i + 1) % 3])) for i in range(3)], 'array')
        if name == 'numpy.linalg.det' and len(args) == 1 \
                and depth(args[0]) == 2 and len(args[0].items) == 3:
            a, b, c = args[0].items
            return self.dot(mark(a), self.library(e, 'numpy.cross', [b, c],
                {}))
        if name == 'numpy.linalg.norm' and len(args) == 1 and not kwargs \
                and depth(args[0]) == 1:
            r = self.dot(mark(args[0]), mark(args[0]))
            return numeric('sqrt', r) if is_num(r) else TOP
        if name == 'numpy.linalg.inv' and len(args) == 1 \
                and depth(args[0]) == 2 and len(args[0].items) == 3:
            a, b, c = args[0].items
            cross = lambda x, y: self.library(e, 'numpy.cross', [x, y], {})
            det = self.dot(mark(a), cross(b, c))
            return transpose(Seq([self.binary(ast.Div(), cross(x, y), det)
                for x, y in ((b, c), (c, a), (a, b))], 'array'))
        if short == 'sign' and len(args) == 1 and is_num(args[0]):
            if isinstance(args[0], Term):
                return Term('sign', args[0])
            return (args[0] > 0) - (args[0] < 0)
        if short == 'hasattr' and len(args) == 2 and args[1] == '__len__':
            return isinstance(args[0], (Seq, Map, str)) if not isinstance(
                args[0], Top) else TOP
        if short in ('deepcopy', 'copy') and len(args) == 1:
            return copy.deepcopy(args[0])
        if short == 'transpose' and len(args) == 1 and depth(args[0]) == 2:
            return transpose(args[0])
        if short in NUMFUNCS and len(args) == 1:
            if is_num(args[0]):
                if short == 'square':
                    return numeric('*', args[0], args[0])
                if short in ('deg2rad', 'radians'):
                    import math
                    return numeric('/', numeric('*', args[0], math.pi), 180)
                if short == 'reciprocal':
                    return numeric('/', 1, args[0])
                return numeric({'absolute': 'abs'}.get(short, short), args[0])
            if isinstance(args[0], Seq) and args[0].kind == 'array':
                return self.map(args[0], lambda x: numeric(short, x)
                    if is_num(x) else TOP)
        if short in ('set', 'frozenset', 'sorted') and len(args) == 1 \
                and isinstance(args[0], Seq):
            return Seq(list(args[0].items), 'set')
        if short in ('str', 'int', 'dict') and not args:
            if short == 'dict':
                return Map(dict(kwargs))
        if short == 'int' and len(args) == 1 and isinstance(args[0], (int,
                float)):
            return int(args[0])
        if short == 'abs' and len(args) == 1 and isinstance(args[0], (int,
                float)):
            return abs(args[0])
        return TOP

class Method:
    def __init__(self, value, attr):
        self.value = value
        self.attr = attr

class Raise:
    """Evaluation does not get past this point."""
    def __init__(self, node):
        self.node = node

def key(v):
    if is_const(v) or isinstance(v, Ref):
        return v
    if isinstance(v, Seq) and v.kind == 'tuple' and all(is_const(x) for x in
            v.items):
        return tuple(v.items)
    return TOP

def mark(v):
    if isinstance(v, Seq) and v.kind != 'array':
        return Seq(v.items, 'array')
    return v

def depth(v):
    d = 0
    while isinstance(v, Seq):
        d += 1
        v = v.items[0] if v.items else None
    return d

def transpose(v):
    return Seq([Seq(list(c), 'array') for c in zip(*[r.items for r in
        v.items])], 'array')

def same(a, b):
    if a is b:
        return True
    if is_const(a) and is_const(b):
        return type(a) == type(b) and a == b
    if isinstance(a, Ref) and isinstance(b, Ref):
        return a == b
    if isinstance(a, Closure) and isinstance(b, Closure):
        return a.node is b.node
    if isinstance(a, Seq) and isinstance(b, Seq):
        return a.kind == b.kind and len(a.items) == len(b.items) and all(
            same(x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, Map) and isinstance(b, Map):
        return list(a.items) == list(b.items) and all(same(a.items[k],
            b.items[k]) for k in a.items)
    if isinstance(a, Term) and isinstance(b, Term):
        return a.op == b.op and len(a.args) == len(b.args) and all(same(x, y)
            if not isinstance(x, str) else x == y for x, y in zip(a.args,
            b.args))
    return False

def stores(body):
    out = set()
    for b in body:
        for n in ast.walk(b):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store,
                    ast.Del)):
                out.add(n.id)
    return out


class Unknown(Exception):
    pass

def value(t, point):
    """Value of a formula at given values of its symbols."""
    import math
    if isinstance(t, bool) or not isinstance(t, (int, float, Term)):
        raise Unknown
    if not isinstance(t, Term):
        return t
    if t.op == 'sym':
        if t.args[0] not in point:
            raise Unknown(t.args[0])
        return point[t.args[0]]
    a = [value(x, point) for x in t.args]
    try:
        return {'+': lambda x, y: x + y, '-': lambda x, y: x - y,
            '*': lambda x, y: x * y, '/': lambda x, y: x / y,
            '**': lambda x, y: x ** y, 'neg': lambda x: -x,
            '//': lambda x, y: x // y, '%': lambda x, y: x % y,
            'sign': lambda x: (x > 0) - (x < 0), 'sqrt': math.sqrt,
            'sin': math.sin, 'cos': math.cos, 'tan': math.tan,
            'arccos': math.acos, 'arcsin': math.asin, 'arctan': math.atan,
            'exp': math.exp, 'abs': abs, 'float': float}[t.op](*a)
    except (KeyError, ArithmeticError, ValueError, OverflowError):
        raise Unknown(t.op)

def table(v, point):
    """Nested list of values."""
    if isinstance(v, Seq):
        return [table(x, point) for x in v.items]
    r = value(v, point)
    if isinstance(r, complex):
        raise Unknown
    return r
