"""Period typing of mesh indices (C13).

Integers are typed by how they arise: 'index' is a crystal momentum rounded to
a mesh point, which can lie in any period; 'folded' has been reduced modulo the
number of mesh points; 'upto' has been reduced before it was rounded, so that it
can still equal that number. Components of vectors are tracked along.
"""

import ast
import math

from .defs import ROUND, Def, Walker, callee, key, product, single

class T:
    def __init__(self, kind, comp=None, vector=None, factors=(), mod=None):
        self.kind = kind
        self.comp = comp        # component of a vector: int or variable name
        self.vector = vector    # identity of that vector
        self.factors = factors  # (key, component) in the momentum expression
        self.mod = mod          # modulus: (key of vector or scalar, component)

    def part(self, comp):
        f = tuple((k, comp if c is None else c) for k, c in self.factors)
        m = self.mod and (self.mod[0], comp if self.mod[1] is None
            else self.mod[1])
        return T(self.kind, comp, self.vector, f, m)

    def of(self, kind):
        return T(kind, self.comp, self.vector, self.factors, self.mod)

def component(e, env):
    """(key of vector, component) of nk[0] or name."""
    if isinstance(e, ast.Subscript) and not isinstance(e.slice, (ast.Slice,
            ast.Tuple)):
        if isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int):
            return key(e.value, env), e.slice.value
        if isinstance(e.slice, ast.Name):
            return key(e.value, env), variable(e.slice, env)
    if isinstance(e, ast.Name):
        d = single(e.id, env)
        if d is not None and d.kind == 'value' and isinstance(d.value,
                ast.Subscript):
            return component(d.value, d.env)
        if d is not None and d.kind == 'item' and d.item is not None \
                and d.value is not None and not twice(d, e.id):
            return key(d.value, d.env), d.item
    return key(e, env), None

def variable(n, env):
    """Name of an index variable, marked if it runs over several values."""
    d = single(n.id, env)
    return ('@' if d is not None and d.kind == 'loop' else '') + n.id

def twice(d, name):
    """Was the same name assigned by two elements (nk, nk = e.shape)?"""
    for t in getattr(d.node, 'targets', []):
        if isinstance(t, (ast.Tuple, ast.List)):
            names = [x.id for x in t.elts if isinstance(x, ast.Name)]
            if names.count(name) > 1 or any(isinstance(x, ast.Starred)
                    for x in t.elts):
                return True
    return False

class Returns(Walker):
    """Collects returned expressions with the definitions reaching them."""
    def __init__(self):
        Walker.__init__(self)
        self.found = []
    def statement(self, n, env):
        if isinstance(n, ast.Return) and n.value is not None:
            self.found.append((n.value, dict(env)))
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            env[n.name] = (Def('other', None, node=n),)
            return
        Walker.statement(self, n, env)

class Typer(Walker):
    def __init__(self, name, findings, info):
        Walker.__init__(self)
        self.name = name
        self.findings = findings
        self.info = info
        self.under = {}
        self.folded = {}
        self.plain = []
        self.pairs = []

    def add(self, rule, construct, message):
        f = dict(rule=rule, func=self.name, construct=construct,
            message=message)
        if f not in self.findings:
            self.findings.append(f)

    # --- types --------------------------------------------------------------

    def lattice(self, e, env, depth=0):
        """Lattice vector from translations, reciprocals, or a model."""
        if isinstance(e, ast.Name):
            d = single(e.id, env)
            if d is not None and d.kind in ('value', 'item') and depth < 5:
                return self.lattice(d.value, d.env, depth + 1)
        if isinstance(e, ast.Call):
            return callee(e) in ('translations', 'reciprocals', 'primitives')
        if isinstance(e, ast.Subscript):
            return self.lattice(e.value, env, depth + 1)
        return False

    def momentum(self, e, env):
        """Is this a momentum in units of the mesh spacing?"""
        p = product(e, env)
        c = p.coef * 2 * math.pi
        sym = [(k, x) for k, x in p.nodes.items() if p.powers.get(k)]
        if len(sym) >= 2 and abs(abs(c) - 1) < 1e-12 \
                or len(sym) == 1 and p.powers[sym[0][0]] == 1 \
                and abs(abs(c) - 1) < 1e-12:
            return 'reduced', tuple(component(x, env) if isinstance(x,
                (ast.Name, ast.Subscript)) else (k, None) for k, x in sym)
        if len(sym) >= 2 and abs(abs(p.coef) - 1) < 1e-12 or len(sym) >= 2:
            for k, x in sym:
                if callee(x) in ('dot', 'inner', 'vdot') and len(x.args) == 2 \
                        and any(self.lattice(a, env) for a in x.args):
                    return 'cartesian', tuple(component(y, env)
                        if isinstance(y, (ast.Name, ast.Subscript))
                        else (l, None) for l, y in sym if l != k)
                if isinstance(x, ast.BinOp) and isinstance(x.op, ast.MatMult) \
                        and any(self.lattice(a, env) for a in (x.left,
                        x.right)):
                    return 'cartesian', tuple(component(y, env)
                        if isinstance(y, (ast.Name, ast.Subscript))
                        else (l, None) for l, y in sym if l != k)
                if callee(x) == 'float' and isinstance(x.func, ast.Name) \
                        and len(sym) == 2 and abs(p.coef - 1) < 1e-12:
                    return 'read', tuple(component(y, env)
                        if isinstance(y, (ast.Name, ast.Subscript))
                        else (l, None) for l, y in sym if l != k)
        if callee(e) in ('dot', 'inner') and len(e.args) == 2 and any(
                self.lattice(a, env) for a in e.args):
            return 'cartesian', ()
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            return None

    def type(self, e, env, depth=0):
        if depth > 25:
            return None
        t = lambda x: self.type(x, env, depth + 1)
        if isinstance(e, ast.Name):
            ds = env.get(e.id, ())
            if len(ds) != 1:
                ts = [self.defined(d, e.id, depth) for d in ds]
                if ts and all(x is not None and x.kind == ts[0].kind
                        and x.comp == ts[0].comp for x in ts):
                    return ts[0]
                return None
            return self.defined(ds[0], e.id, depth)
        if isinstance(e, ast.Call):
            c = callee(e)
            if c in ROUND:
                arg = e.args[0] if e.args else e.func.value \
                    if isinstance(e.func, ast.Attribute) else None
                if len(e.args) > 1 and not isinstance(e.func, ast.Attribute) \
                        or any(k.arg in ('decimals', 'ndigits')
                        for k in e.keywords):
                    return None
                return arg if arg is None else self.rounded(arg, env, depth)
            if c in ('int', 'tuple', 'list', 'array', 'asarray', 'abs') \
                    and len(e.args) == 1 and c != 'abs':
                r = t(e.args[0])
                if r is None and c == 'int':
                    r = self.truncated(e.args[0], env)
                return r
            if c == 'astype' and isinstance(e.func, ast.Attribute):
                r = t(e.func.value)
                if r is None and e.args and ast.unparse(e.args[0]) in ('int',
                        'np.int64', 'np.intp', "'int'", "np.int_"):
                    r = self.truncated(e.func.value, env)
                return r
            f = self.called(e, env, depth)
            if f is not None and not isinstance(f[0], ast.Tuple):
                return self.type(f[0], f[1], depth + 1)
            if c in ('mod', 'remainder') and len(e.args) == 2:
                return self.modulo(e.args[0], e.args[1], env, depth)
            if c == 'map' and len(e.args) == 2 and ast.unparse(e.args[0]) \
                    == 'int':
                return t(e.args[1])
            return None
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, (ast.USub,
                ast.UAdd)):
            r = t(e.operand)
            if r is not None and isinstance(e.op, ast.USub):
                return r.of('negative' if r.kind == 'folded' else r.kind)
            return r
        if isinstance(e, ast.BinOp):
            if isinstance(e.op, ast.Mod):
                return self.modulo(e.left, e.right, env, depth)
            if isinstance(e.op, (ast.Add, ast.Sub)):
                a, b = t(e.left), t(e.right)
                if a is None and b is None:
                    return None
                x = a if a is not None else b
                if isinstance(e.op, ast.Add):
                    other = e.right if a is not None else e.left
                    if a is not None and b is not None or isinstance(other, (
                            ast.Name, ast.Attribute)) or isinstance(other,
                            ast.Constant) and isinstance(other.value, int) \
                            and other.value > 0:
                        if a is not None and b is not None and (a.kind
                                == 'negative' or b.kind == 'negative'):
                            return None
                        return T('index' if x.kind in ('folded', 'upto')
                            else x.kind, x.comp, x.vector, x.factors, x.mod)
                elif x.kind == 'index':
                    return x
                return None
            return None
        if isinstance(e, ast.IfExp):
            # A single step back into the first period is enough for sums of
            # reduced indices only.
            arms = [t(e.body), t(e.orelse)]
            if all(x is not None and x.kind == 'index' for x in arms) \
                    and arms[0].comp == arms[1].comp:
                for x in terms(e.body) + terms(e.orelse):
                    y = t(x)
                    if y is not None and y.kind != 'index':
                        return None
                return arms[0]
            return None
        if isinstance(e, ast.Subscript):
            if isinstance(e.slice, (ast.Slice, ast.Tuple)):
                return None
            r = t(e.value)
            if r is not None and r.comp is None:
                if isinstance(e.slice, ast.Constant):
                    return r.part(e.slice.value)
                if isinstance(e.slice, ast.Name):
                    return r.part(variable(e.slice, env))
            return None
        if isinstance(e, (ast.ListComp, ast.GeneratorExp)) and len(
                e.generators) == 1:
            g = e.generators[0]
            inner = dict(env)
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    inner[x.id] = (Def('loop', g.iter, node=g),)
            r = self.type(e.elt, inner, depth + 1)
            if r is not None:
                n = '@' + getattr(g.target, 'id', '')
                f = tuple((k, None if c == n else c) for k, c in r.factors)
                m = r.mod and (r.mod[0], None if r.mod[1] == n else r.mod[1])
                return T(r.kind, None, ast.unparse(e), f, m)
        return None

    def defined(self, d, name, depth):
        if d.kind == 'value':
            r = self.type(d.value, d.env, depth + 1)
            if r is not None and r.vector is None and r.comp is None:
                r = T(r.kind, None, '%s#%d' % (name, d.id), r.factors, r.mod)
            return r
        if d.kind == 'item' and d.value is not None and d.item is not None:
            if isinstance(d.value, ast.Call):
                if callee(d.value) == 'divmod' and d.item == 0 and isinstance(
                        d.value.args[1], ast.Constant) and d.value.args[1
                        ].value == 1:
                    return T('index')
                f = self.called(d.value, d.env, depth)
                if f is not None and isinstance(f[0], ast.Tuple) and d.item \
                        < len(f[0].elts):
                    return self.type(f[0].elts[d.item], f[1], depth + 1)
            r = self.type(d.value, d.env, depth + 1)
            if r is not None and r.comp is None:
                v = r.vector or 'item#%d' % id(d.value)
                r = r.part(d.item)
                r.vector = v
                return r
            return None
        if d.kind == 'aug':
            old = ast.Name(id=name, ctx=ast.Load())
            e = ast.BinOp(left=old, op=d.node.op, right=d.value)
            return self.type(e, dict(d.env, **{name: d.prev}), depth + 1)
        return None

    def called(self, call, env, depth):
        """Type of the value of a call of a function defined nearby."""
        if isinstance(call.func, ast.Name):
            d = single(call.func.id, env)
            if d is not None and isinstance(d.node, ast.FunctionDef) \
                    and d.kind == 'other':
                r = Returns()
                r.function(d.node, env)
                if len(r.found) == 1:
                    return r.found[0]

    def rounded(self, arg, env, depth):
        if isinstance(arg, ast.BinOp) and isinstance(arg.op, ast.Mod):
            m = self.momentum(arg.left, env)
            if m is not None:
                return T('upto', factors=m[1])
            return None
        if isinstance(arg, ast.Name):
            d = single(arg.id, env)
            if d is not None and d.kind == 'value' and isinstance(d.value,
                    ast.BinOp) and isinstance(d.value.op, ast.Mod):
                return self.rounded(d.value, d.env, depth + 1)
        m = self.momentum(arg, env)
        if m is not None:
            self.info['momenta'].add(self.name + ':' + ast.unparse(arg))
            return T('index', factors=m[1])
        return self.type(arg, env, depth + 1)

    def truncated(self, arg, env):
        """Conversion to integer without rounding."""
        inner = arg
        if isinstance(inner, ast.BinOp) and isinstance(inner.op, ast.Mod):
            inner = inner.left
        if isinstance(inner, ast.Name):
            d = single(inner.id, env)
            if d is not None and d.kind == 'item':
                return None
        m = self.momentum(inner, env)
        if m is not None and m[0] in ('reduced', 'cartesian') and len(m[1]):
            self.add('truncated-momentum', ast.unparse(arg), 'the momentum is '
                'cut off rather than rounded to the nearest mesh point')
            return T('index', factors=m[1])

    def modulo(self, e, m, env, depth):
        r = self.type(e, env, depth + 1)
        mod = component(m, env)
        if r is None:
            # sum of index and loop variable etc.
            comps = [self.type(x, env, depth + 1) for x in terms(e)]
            comps = [x for x in comps if x is not None]
            if comps:
                r = comps[0]
            else:
                return T('folded', mod[1], None, (), mod) if mod[1] \
                    is not None else None
        for x in terms(e):
            c = self.type(x, env, depth + 1)
            if c is not None:
                self.period(c, mod, x, m)
            else:
                v = self.loopvar(x, env)
                if v is not None and v[0] == mod[0] and clash(v[1], mod[1]):
                    self.add('wrong-period', ast.unparse(e), 'index along axis '
                        '%s is reduced with the period of axis %s' % (v[1],
                        mod[1]))
        comp = r.comp
        if comp is None and mod[1] is not None:
            comp = mod[1]
        return T('folded', comp, r.vector, r.factors, mod)

    def period(self, c, mod, e, m):
        for k, comp in c.factors:
            if k == mod[0] and clash(comp, mod[1]):
                self.add('wrong-period', ast.unparse(e), 'component %s of a '
                    'momentum is reduced with the period of component %s' % (
                    comp, mod[1]))
                return
        if clash(c.comp, mod[1]) and c.vector is not None:
            self.add('wrong-period', ast.unparse(e), 'component %s of a '
                'momentum is reduced with the period of component %s' % (
                c.comp, mod[1]))

    def loopvar(self, e, env):
        """Loop variable running over one axis: (vector, component)."""
        if isinstance(e, ast.Name):
            d = single(e.id, env)
            if d is not None and d.kind == 'loop' and callee(d.value) \
                    == 'range' and isinstance(d.node.target, ast.Name):
                a = d.value.args
                n = a[0] if len(a) == 1 else a[1]
                v = component(n, env)
                if v[1] is not None:
                    return v

    # --- uses ---------------------------------------------------------------

    def statement(self, n, env):
        if isinstance(n, ast.If):
            self.condition(n, env)
        if isinstance(n, ast.Assign):
            self.under[n] = list(self.guards)
        if isinstance(n, (ast.Assign, ast.AugAssign)):
            for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                self.scan(t, env)
        if isinstance(n, (ast.For,)):
            self.scan(n.iter, env)
        Walker.statement(self, n, env)

    def visit(self, n, env):
        self.scan(n, env)

    def condition(self, n, env):
        """Special cases for particular mesh points."""
        if not any(isinstance(x, ast.Return) for x in n.body):
            return
        for c in ast.walk(n.test):
            if isinstance(c, ast.Compare) and all(isinstance(o, ast.Eq)
                    for o in c.ops):
                sides = [c.left] + c.comparators
                if not any(isinstance(s, ast.Constant) for s in sides):
                    continue
                for s in sides:
                    t = self.type(s, env)
                    if t is not None and t.kind in ('index', 'upto'):
                        self.add('unfolded-comparison', ast.unparse(s), 'a '
                            'special case is decided for an index that has not '
                            'been reduced to the first period')

    def scan(self, n, env):
        if isinstance(n, ast.AugAssign) and isinstance(n.op, ast.Mod) \
                or isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod):
            # reductions
            l = n.target if isinstance(n, ast.AugAssign) else n.left
            r = n.value if isinstance(n, ast.AugAssign) else n.right
            if not isinstance(l, ast.Constant) and not isinstance(l,
                    ast.JoinedStr):
                x = self.modulo(l, r, env, 0)
                if x is not None:
                    self.info['reductions'].add('%s:%s' % (self.name,
                        ast.unparse(n)))
        if isinstance(n, ast.Subscript):
            self.subscript(n, env)
        if isinstance(n, ast.Call):
            if callee(n) == 'slice' and len(n.args) >= 2:
                self.slice(n.args[0], n.args[1], env)
            if callee(n) == 'roll':
                self.roll(n, env)
            if callee(n) in ('int', 'astype'):
                self.type(n, env)
        if isinstance(n, ast.Slice) and n.lower is not None \
                and n.upper is not None:
            self.slice(n.lower, n.upper, env)
        if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp,
                ast.DictComp)):
            inner = dict(env)
            for g in n.generators:
                self.scan(g.iter, inner)
                for x in ast.walk(g.target):
                    if isinstance(x, ast.Name):
                        d = Def('loop', g.iter, node=g)
                        inner[x.id] = (d,)
            for c in ast.iter_child_nodes(n):
                if not isinstance(c, ast.comprehension):
                    self.scan(c, inner)
            return
        if isinstance(n, ast.Lambda):
            inner = dict(env)
            for a in n.args.args:
                inner[a.arg] = ()
            self.scan(n.body, inner)
            return
        for c in ast.iter_child_nodes(n):
            self.scan(c, env)

    def slice(self, lower, upper, env):
        t = self.type(lower, env)
        if t is None or t.kind not in ('index', 'folded', 'upto', 'negative'):
            return
        self.info['shifts'].add('%s:%s' % (self.name, ast.unparse(lower)))
        if t.kind in ('index', 'negative'):
            self.add('unfolded-shift', ast.unparse(lower), 'the mesh is '
                'shifted by an index that has not been reduced to the first '
                'period')
        if isinstance(upper, ast.BinOp) and isinstance(upper.op, ast.Add):
            for a, b in ((upper.left, upper.right), (upper.right, upper.left)):
                if ast.dump(a) == ast.dump(lower):
                    v, c = component(b, env)
                    for k, comp in t.factors + ((t.mod,) if t.mod else ()):
                        if k == v and clash(comp if comp is not None
                                else t.comp, c):
                            self.add('wrong-extent', ast.unparse(upper),
                                'component %s of the shift is combined with '
                                'the extent of axis %s' % (t.comp, c))
                            break
                else:
                    u = self.type(a, env)
                    if u is not None and u.vector == t.vector and clash(u.comp,
                            t.comp):
                        self.add('wrong-extent', ast.unparse(upper), 'slice '
                            'starts at component %s and ends at component %s '
                            'of the shift' % (t.comp, u.comp))

    def shifted(self, x, env):
        """Type of the shift of a mesh slice (None if not shifted)."""
        if isinstance(x, ast.Name):
            d = single(x.id, env)
            if d is not None and d.kind == 'value' and callee(d.value) \
                    == 'slice' and len(d.value.args) >= 2:
                return self.type(d.value.args[0], d.env)
        if isinstance(x, ast.Call) and callee(x) == 'slice' and len(x.args) > 1:
            return self.type(x.args[0], env)
        if isinstance(x, ast.Slice) and x.lower is not None:
            return self.type(x.lower, env)

    def extent(self, x, env):
        """(vector, component) of an unshifted slice slice(0, nk[0])."""
        if isinstance(x, ast.Name):
            d = single(x.id, env)
            if d is not None and d.kind == 'value' and callee(d.value) \
                    == 'slice':
                return self.extent(d.value, d.env)
        if isinstance(x, ast.Call) and callee(x) == 'slice':
            a = x.args
            if len(a) == 2 and isinstance(a[0], ast.Constant) \
                    and not a[0].value:
                return component(a[1], env)

    def subscript(self, n, env):
        elts = n.slice.elts if isinstance(n.slice, ast.Tuple) else [n.slice]
        if any(isinstance(x, ast.Constant) and x.value is Ellipsis
                for x in elts[:-1]):
            offset = None
        places = []
        for p, x in enumerate(elts):
            s = self.shifted(x, env)
            if s is not None:
                places.append((p, s.comp, s, 'shift'))
                continue
            if isinstance(x, ast.Slice):
                continue
            v = self.extent(x, env)
            if v is not None and v[1] is not None:
                places.append((p, v[1], None, 'extent'))
                continue
            t = self.type(x, env)
            if t is not None:
                places.append((p, t.comp, t, 'index'))
                if t.kind in ('index', 'upto') and self.array(n.value, env,
                        len(elts)):
                    self.info['uses'].add('%s:%s' % (self.name,
                        ast.unparse(n)))
                    self.add('unfolded-index', ast.unparse(n), 'index "%s" can '
                        'lie outside the first period when it addresses mesh '
                        'data' % ast.unparse(x))
                else:
                    self.info['uses'].add('%s:%s' % (self.name,
                        ast.unparse(n)))
                if t.mod is not None:
                    self.dimension(n, p, t, env)
                continue
            v = self.loopvar(x, env)
            if v is not None:
                places.append((p, v[1], None, 'loop'))
        blocks = {}
        for p, c, t, k in places:
            if isinstance(c, int):
                g = t.mod[0] if t is not None and t.mod else None
                blocks.setdefault((k, g, t.vector if t is not None else None),
                    []).append((p, c))
        for (k, g, v), block in blocks.items():
            if k not in ('shift', 'index'):
                continue
            for (p, c), (q, d) in zip(block, block[1:]):
                if d <= c or q - p == 1 and d - c != 1:
                    self.add('axes-permuted', ast.unparse(n), 'components %s '
                        'of the momentum address axes %s' % ([x[1] for x in
                        block], [x[0] for x in block]))
                    break
        for p, c, t, k in places:
            if k == 'shift' and t.kind in ('folded', 'index', 'upto'):
                self.tiled(n, p, env)

    def dimension(self, n, p, t, env):
        """Period taken from the shape of the array that is addressed."""
        v, c = t.mod
        if c is None:
            return
        base = key(n.value, env)
        if v == '%s.shape' % base and isinstance(c, int) and c >= 0 and c != p:
            self.add('wrong-period', ast.unparse(n), 'axis %d is addressed '
                'with an index reduced with the length of axis %d' % (p, c))

    def array(self, e, env, n):
        """Is this certainly an array (or list), not a dictionary?"""
        if isinstance(e, ast.Name):
            ds = env.get(e.id, ())
            for d in ds:
                if d.kind == 'value' and (isinstance(d.value, (ast.Dict,
                        ast.DictComp)) or callee(d.value) in ('dict',
                        'defaultdict', 'OrderedDict')):
                    return False
            return bool(ds)
        return True

    def tiled(self, n, p, env):
        """Arrays addressed beyond the first period must be repeated."""
        if not isinstance(n.value, ast.Name):
            return
        ds = env.get(n.value.id, ())
        states = [self.repeated(d, p) for d in ds]
        if states and all(s is False for s in states):
            self.add('not-repeated', n.value.id, 'axis %d of "%s" is addressed '
                'beyond the first period but the array has not been repeated '
                'along this axis' % (p, n.value.id))
        self.info['repeated'].add('%s:%s' % (self.name, n.value.id))
        if True in states and False in states:
            for d, s in zip(ds, states):
                for test, side, genv in self.under.get(d.node, ()):
                    if s and ordering(test):
                        self.add('repeat-condition', ast.unparse(test), '"%s" '
                            'is repeated only if "%s" holds, which excludes '
                            'some nonzero momenta' % (n.value.id, ast.unparse(
                            test)))

    def repeated(self, d, p, depth=0):
        if d.kind == 'param':
            return False
        if d.kind != 'value' or depth > 10:
            return None
        e = d.value
        c = callee(e)
        if c == 'tile' and len(e.args) == 2 and isinstance(e.args[1],
                ast.Tuple):
            r = e.args[1].elts
            if p < len(r) and isinstance(r[p], ast.Constant) and isinstance(
                    r[p].value, int) and not any(isinstance(x, ast.Starred)
                    for x in r):
                return r[p].value >= 2
            return None
        if c in ('empty', 'zeros') and e.args and isinstance(e.args[0],
                ast.Tuple) and p < len(e.args[0].elts):
            x = e.args[0].elts[p]
            if isinstance(x, (ast.Name, ast.Subscript)):
                return False
            return None
        if c in ('reshape',) or isinstance(e, ast.BinOp) and isinstance(e.op,
                (ast.Div, ast.Mult)):
            for n in ast.walk(e):
                if isinstance(n, ast.Name):
                    i = d.env.get(n.id, ())
                    if any(self.repeated(x, p, depth + 1) is not False
                            for x in i if x.kind == 'value' and callee(x.value)
                            in ('tile', 'concatenate', 'pad', 'repeat',
                            'kron')):
                        return None
            return False
        return None

    def roll(self, n, env):
        kw = {k.arg: k.value for k in n.keywords}
        shift = kw.get('shift', n.args[1] if len(n.args) > 1 else None)
        axis = kw.get('axis', n.args[2] if len(n.args) > 2 else None)
        if shift is None or axis is None:
            return
        t = self.type(shift, env)
        if t is None or t.comp is None:
            return
        self.info['shifts'].add('%s:%s' % (self.name, ast.unparse(n)))
        a = axis.value if isinstance(axis, ast.Constant) else variable(axis,
            env) if isinstance(axis, ast.Name) else None
        if a is not None and clash(t.comp, a):
            self.add('axes-permuted', ast.unparse(n), 'axis %s is shifted by '
                'component %s of the momentum' % (a, t.comp))

def ordering(test):
    """Does a condition on momenta depend on their sign or number?"""
    for c in ast.walk(test):
        if isinstance(c, ast.Compare) and any(isinstance(o, (ast.Gt, ast.Lt,
                ast.GtE, ast.LtE)) for o in c.ops):
            if not any(callee(x) in ('abs', 'absolute', 'fabs', 'norm', 'dot',
                    'square', 'count_nonzero', 'any', 'sum', 'ptp')
                    or isinstance(x, ast.BinOp) and isinstance(x.op, ast.Pow)
                    for x in ast.walk(c)):
                return True
    return False

def terms(e):
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub)):
        return terms(e.left) + terms(e.right)
    return [e]

def clash(a, b):
    """Are two components certainly different?"""
    if a is None or b is None or a == b:
        return False
    if isinstance(a, int) and isinstance(b, int):
        return True
    loops = [isinstance(x, str) and x.startswith('@') for x in (a, b)]
    return all(loops) or any(loops) and any(isinstance(x, int) for x in (a, b))

def reductions(func):
    """Expressions reduced modulo something."""
    for n in ast.walk(func):
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod) \
                and not isinstance(n.left, (ast.Constant, ast.JoinedStr)):
            yield n.left
        elif isinstance(n, ast.AugAssign) and isinstance(n.op, ast.Mod):
            yield n.target
        elif callee(n) in ('mod', 'remainder', 'divmod', 'fmod') and n.args:
            yield n.args[0]

def neighbours(func, t):
    """Neighbouring mesh points are folded everywhere or nowhere."""
    folded = {ast.unparse(e) for e in reductions(func) if isinstance(e,
        ast.BinOp) and isinstance(e.op, ast.Add)}
    if not folded:
        return
    for n in ast.walk(func):
        if isinstance(n, ast.Subscript):
            for x in n.slice.elts if isinstance(n.slice, ast.Tuple) else [
                    n.slice]:
                if isinstance(x, ast.BinOp) and ast.unparse(x) in folded:
                    t.add('neighbour-not-folded', ast.unparse(n), 'index "%s" '
                        'is reduced modulo the number of mesh points elsewhere '
                        'but not here' % ast.unparse(x))

def partners(func, t):
    """Coordinates assigned together are folded together."""
    folded = set()
    for e in reductions(func):
        for x in ast.walk(e):
            if isinstance(x, ast.Name):
                folded.add(x.id)
    strict = {n.target.id for n in ast.walk(func) if isinstance(n,
        ast.AugAssign) and isinstance(n.op, ast.Mod) and isinstance(n.target,
        ast.Name)}
    for n in ast.walk(func):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(
                n.targets[0], ast.Tuple) and isinstance(n.value, ast.Tuple):
            names = [x.id for x in n.targets[0].elts if isinstance(x,
                ast.Name)]
            read = {x.id for x in ast.walk(n.value) if isinstance(x, ast.Name)}
            if len(names) == len(n.targets[0].elts) and set(names) & strict \
                    and set(names) <= read and not set(names) <= folded:
                for x in sorted(set(names) - folded):
                    t.add('partner-not-folded', x, 'coordinate "%s" is not '
                        'reduced to the first period whereas %s is' % (x,
                        ', '.join(sorted(set(names) & strict))))

def momenta(root):
    from .project import Project
    project = Project(root)
    findings = []
    info = {k: set() for k in ('momenta', 'reductions', 'shifts', 'uses',
        'repeated')}
    n = 0
    for f in project.all_functions():
        n += 1
        t = Typer(f.qualname, findings, info)
        t.function(f.node)
        neighbours(f.node, t)
        partners(f.node, t)
    return findings, dict({k: sorted(v) for k, v in info.items()}, functions=n)
