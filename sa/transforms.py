"""Cell transformations yield complete models with unchanged settings (C08)."""

import ast

from .objects import Models, Obj, State, Tracker, Value, callee
from .stale import public, selfattr

def const(e):
    return e.value if isinstance(e, ast.Constant) else None

class Build(Tracker):
    """Which attributes are set on objects created and returned."""
    def __init__(self, models, func, selfkind):
        super().__init__(models, func, selfkind)
        self.results = []       # (object, attributes set, node)
        self.values_of = {}     # (object, attribute) -> sources
        self.nodes = {}         # (object, attribute) -> [(node, value, env)]
        self.made = []
        self.may = set()        # attributes set on any way

    def start(self, st):
        st.facts = {'set': set()}
        self.me = st.env.get('self')

    def joinfacts(self, a, b):
        return {'set': a['set'] & b['set']}

    def refine(self, test, side, st):
        """Attributes that are None need not be copied."""
        while isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            test, side = test.operand, not side
        if isinstance(test, ast.BoolOp):
            if isinstance(test.op, ast.And) == side:
                for t in test.values:
                    self.refine(t, side, st)
            return
        attr = None
        if isinstance(test, ast.Compare) and len(test.ops) == 1 \
                and isinstance(test.comparators[0], ast.Constant) \
                and test.comparators[0].value is None:
            if isinstance(test.ops[0], (ast.Is, ast.Eq)) == side:
                attr = test.left
        elif isinstance(test, (ast.Attribute, ast.Name)) and not side:
            attr = test
        hops, env = 0, st.env
        while isinstance(attr, ast.Name) and hops < 5:
            v = env.get(attr.id)
            if not isinstance(v, Value) or v.node is None:
                return
            attr, env = v.node, v.env or {}
            hops += 1
        if isinstance(attr, ast.Call) and callee(attr) == 'getattr' \
                and len(attr.args) > 1:
            o = self.object(attr.args[0], State(env))
            name = self.constant(attr.args[1], State(env))
        elif isinstance(attr, ast.Attribute):
            o, name = self.object(attr.value, State(env)), attr.attr
        else:
            return
        if o is not None and name:
            st.facts['set'].add(('none', o, name))
            for new, n, w in self.made:
                if new is not o and new.kind == o.kind:
                    st.facts['set'].add((new, name))

    def created(self, obj, node, st):
        self.made.append((obj, node, self.stack[-1][0] if self.stack
            else self.func.node))
        if isinstance(node, ast.Call) and callee(node) == 'Model':
            for k in node.keywords:
                if k.arg:
                    st.facts['set'].add((obj, k.arg))
                    self.values_of.setdefault((obj, k.arg), set()).update(
                        self.sources(k.value, st))

    def write(self, obj, attr, node, value, st, inplace=False):
        st.facts['set'].add((obj, attr))
        self.may.add((obj, attr))
        if value is not None:
            src = self.sources(value, st)
            if attr == '*':
                src = {(o, '*') for o, a in src} or {(o, '*') for o in
                    [self.object(value, st)] if o is not None} or {('?', '*')}
            v = value
            if isinstance(v, ast.Attribute):
                pass
            self.values_of.setdefault((obj, attr), set()).update(src)
            self.nodes.setdefault((obj, attr), []).append((node, value,
                dict(st.env)))

    def leave(self, st, value, node):
        o = self.make(value, st) if value is not None else None
        if o is not None:
            self.results.append((o, set(st.facts['set']), node))

    def isset(self, facts, obj, attr):
        if (obj, attr) in facts or (obj, '*') in self.may:
            return True
        return any(len(f) == 3 and f[0] == 'none' and f[2] == attr
            and f[1] is not obj and f[1].kind == obj.kind for f in facts)

class Construct(Tracker):
    """Attributes a constructor sets if called without arguments."""
    def start(self, st):
        st.facts = {'set': set()}
        self.out = None
        a = self.func.node.args
        self.none = {}
        pos = a.posonlyargs + a.args
        for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            st.env[p.arg] = Value(d, {}, {('param', p.arg)})

    def joinfacts(self, a, b):
        return {'set': a['set'] & b['set']}

    def write(self, obj, attr, node, value, st, inplace=False):
        if obj.text == 'self' and not inplace:
            st.facts['set'].add(attr)
            for k in [f for f in st.facts['set'] if isinstance(f, tuple)
                    and f[0] == attr]:
                st.facts['set'].discard(k)
            if value is not None:
                v = self.value(value, st)
                if v is None or isinstance(v, (bool, int, str)):
                    st.facts['set'].add((attr, v))

    def value(self, e, st, depth=0):
        """Constant value or Ellipsis."""
        if depth > 8:
            return ...
        if isinstance(e, ast.Constant):
            return e.value
        if isinstance(e, ast.Name):
            v = st.env.get(e.id)
            if isinstance(v, Value) and v.node is not None:
                return self.value(v.node, State(v.env or {}, st.facts),
                    depth + 1)
            return ...
        if isinstance(e, ast.Call) and callee(e) == 'bcast' and e.args:
            return self.value(e.args[0], st, depth + 1)
        if isinstance(e, ast.Call) and callee(e) == 'hasattr' and e.args:
            return False if self.value(e.args[0], st, depth + 1) is None \
                else ...
        if isinstance(e, ast.Attribute) and selfattr(e):
            for f in st.facts.get('set', ()):
                if isinstance(f, tuple) and f[0] == e.attr:
                    return f[1]
            return ...
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            v = self.value(e.operand, st, depth + 1)
            return ... if v is ... else not v
        if isinstance(e, ast.BoolOp):
            vs = [self.value(v, st, depth + 1) for v in e.values]
            if isinstance(e.op, ast.And):
                if any(v is not ... and not v for v in vs):
                    return False
                return ... if ... in vs else vs[-1]
            if any(v is not ... and v for v in vs):
                return True
            return ... if ... in vs else vs[-1]
        if isinstance(e, ast.IfExp):
            t = self.value(e.test, st, depth + 1)
            if t is ...:
                return ...
            return self.value(e.body if t else e.orelse, st, depth + 1)
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            l = self.value(e.left, st, depth + 1)
            r = self.value(e.comparators[0], st, depth + 1)
            if l is ... or r is ...:
                return ...
            if isinstance(e.ops[0], (ast.Is, ast.Eq)):
                return l is r or l == r
            if isinstance(e.ops[0], (ast.IsNot, ast.NotEq)):
                return not (l is r or l == r)
        return ...

    def decide(self, test, st):
        v = self.value(test, st)
        return None if v is ... else bool(v)

    def ranks(self, n, st):
        if self.decide(n.test, st) is False:
            self.body(n.orelse, st)
            return
        super().ranks(n, st)

    def leave(self, st, value, node):
        got = {f for f in st.facts['set'] if isinstance(f, str)}
        self.out = got if self.out is None else self.out & got

class Local:
    """Local definitions of one function (single assignments)."""
    def __init__(self, node):
        self.defs = {}
        self.loops = {}
        self.calls = {}
        for n in ast.walk(node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    self.bind(t, n.value)
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign)) and isinstance(
                    n.target, ast.Name):
                self.defs.setdefault(n.target.id, []).append(None)
            elif isinstance(n, (ast.For, ast.comprehension)):
                self.loop(n.target, n.iter)

    def bind(self, t, v):
        if isinstance(t, ast.Name):
            self.defs.setdefault(t.id, []).append(v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) \
                        == len(t.elts):
                    self.bind(x, v.elts[i])
                else:
                    key = self.text(x)
                    if key:
                        self.calls.setdefault(key, []).append((v, i))
                    if isinstance(x, ast.Name):
                        self.defs.setdefault(x.id, []).append(None)
        elif isinstance(t, (ast.Subscript, ast.Attribute)):
            self.defs.setdefault(self.text(t), []).append(v)

    @staticmethod
    def text(e):
        return ast.unparse(e) if isinstance(e, (ast.Name, ast.Attribute,
            ast.Subscript)) else None

    def loop(self, t, it):
        if isinstance(t, ast.Name):
            self.loops.setdefault(t.id, []).append(('item', it))
        elif isinstance(t, (ast.Tuple, ast.List)):
            if callee(it) == 'enumerate' and len(t.elts) == 2 and it.args:
                if isinstance(t.elts[0], ast.Name):
                    self.loops.setdefault(t.elts[0].id, []).append(('index',
                        it.args[0]))
                self.loop(t.elts[1], it.args[0])
            else:
                for i, x in enumerate(t.elts):
                    if isinstance(x, ast.Name):
                        self.loops.setdefault(x.id, []).append(('part', it, i))

    def get(self, name):
        d = self.defs.get(name, [])
        return d[0] if len(d) == 1 else None

    def expand(self, e, depth=0):
        """Replace names by their single definitions."""
        while isinstance(e, ast.Name) and e.id not in self.loops and depth < 8:
            d = self.get(e.id)
            if d is None:
                break
            e, depth = d, depth + 1
        return e

class Transforms:
    ROLES = {'el': ['home', 'R'], 'ph': ['home', 'R'], 'elel': ['home', 'R'],
        'elph': ['Rg', 'home', 'Rk']}

    def __init__(self, root):
        self.models = Models(root)
        self.project = self.models.project
        self.api = public()
        self.found = {}
        self.info = dict(transformations=[], settings={}, needed={},
            constructed={}, per_site={}, blocks=0, reorderings=[],
            shifts=[])

    def add(self, rule, func, construct, node, message):
        self.found.setdefault((rule, func.qualname, construct), '%s: %s'
            % (func.module.where(node), message))

    # --- what a model consists of

    def settings(self, kind):
        """Attributes that hold arguments of the constructor."""
        init = self.models.classes[kind].methods.get('__init__')
        out = set()
        if init is None:
            return out
        params = {p.arg for p in init.node.args.args} - {'self'}
        local = set()
        for n in ast.walk(init.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name):
                            local.add(x.id)
        def names(e):
            if isinstance(e, ast.Call) and callee(e) in ('bcast', 'bool',
                    'array', 'copy', 'asarray', 'list') and e.args:
                return names(e.args[0])
            if isinstance(e, ast.Name):
                return {e.id} & params
            if isinstance(e, ast.BoolOp):
                return set().union(*[names(v) for v in e.values])
            if isinstance(e, ast.IfExp):
                return names(e.body) | names(e.orelse) or {x.id for x in
                    ast.walk(e) if isinstance(x, ast.Name)} & params
            return set()
        for n in ast.walk(init.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1:
                a = selfattr(n.targets[0])
                if a and names(n.value):
                    out.add(a)
        return out

    def initial(self, kind):
        """Attributes the constructor itself sets (not on preparation)."""
        init = self.models.classes[kind].methods.get('__init__')
        return {n.attr for n in ast.walk(init.node) if isinstance(n,
            ast.Attribute) and isinstance(n.ctx, ast.Store)
            and selfattr(n)} if init is not None else set()

    def guarded(self, func, attr):
        """Reads protected by hasattr or AttributeError."""
        for n in ast.walk(func.node):
            if isinstance(n, ast.Call) and callee(n) in ('hasattr', 'getattr') \
                    and len(n.args) > 1 and const(n.args[1]) == attr:
                return True
            if isinstance(n, ast.Try) and any(h.type is None or any(isinstance(
                    x, ast.Name) and x.id in ('AttributeError', 'Exception')
                    for x in ast.walk(h.type)) for h in n.handlers):
                if any(isinstance(x, ast.Attribute) and x.attr == attr
                        for b in n.body for x in ast.walk(b)):
                    return True
        return False

    def needed(self):
        """Attributes read by methods and functions handling models."""
        out = {k: {} for k in self.models.classes}
        for f in self.project.all_functions():
            own = f.cls.module.short if f.cls is not None and f.cls.name \
                == 'Model' else None
            if f.name == '__init__' and own:
                continue
            params = {p.arg for p in f.node.args.args}
            for n in ast.walk(f.node):
                if not isinstance(n, ast.Attribute) or not isinstance(n.ctx,
                        ast.Load):
                    continue
                v, kind = n.value, None
                if isinstance(v, ast.Name):
                    if v.id == 'self':
                        kind = own
                    elif v.id in params:
                        kind = v.id
                elif isinstance(v, ast.Attribute) and v.attr in out:
                    w = v.value
                    while isinstance(w, ast.Attribute) and w.attr in out:
                        w = w.value
                    if isinstance(w, ast.Name) and (w.id == 'self' or w.id
                            in params and w.id in out):
                        kind = v.attr
                if kind not in out:
                    continue
                cls = self.models.classes[kind]
                if n.attr in cls.methods or n.attr in out or n.attr in \
                        cls.attrs or n.attr.startswith('__'):
                    continue
                if self.guarded(f, n.attr):
                    continue
                out[kind].setdefault(n.attr, f.qualname)
        return out

    def conditional(self, kind, attr):
        t, text = self.models.docs[kind].get(attr, ('', ''))
        return 'optional' in t or ' if ' in ' ' + text.replace('\n', ' ')

    # --- rules

    def run(self):
        needed = self.needed()
        made = {}
        for kind, cls in self.models.classes.items():
            init = cls.methods.get('__init__')
            c = Construct(self.models, init, kind)
            c.fields = {}
            c.run()
            made[kind] = c.out or set()
            self.info['constructed'][kind] = sorted(made[kind])
            self.info['settings'][kind] = sorted(self.settings(kind))
            self.info['needed'][kind] = sorted(needed[kind])
        for f in self.project.all_functions():
            kind = f.cls.module.short if f.cls is not None and f.cls.name \
                == 'Model' else None
            if kind is None or f.name == '__init__':
                continue
            if f.qualname in self.api or any(isinstance(n, ast.Call)
                    and callee(n) == 'Model' for n in ast.walk(f.node)):
                self.transformation(f, kind, needed, made)
            self.arguments(f)
            self.blocks(f, kind)
            self.shift(f, kind)
            self.reorder(f, kind)
        return [dict(rule=r, func=f, construct=c, message=m)
            for (r, f, c), m in sorted(self.found.items())], self.info

    def transformation(self, f, kind, needed, made):
        b = Build(self.models, f, kind)
        b.run()
        me = b.me
        results = [r for r in b.results if r[0].kind == kind and r[0].new
            and r[0] is not me]
        if not results or f.qualname not in self.api:
            return
        new = any(isinstance(n, ast.Call) and callee(n) == 'Model' and not
            n.args and o is r[0] for o, n, w in b.made for r in results)
        self.info['transformations'].append(f.qualname)
        settings = self.settings(kind)
        docs = self.models.docs[kind]
        sc = any(isinstance(n, ast.Call) and callee(n) == 'supercell'
            and not (isinstance(n.func, ast.Attribute) and isinstance(
            n.func.value, ast.Attribute) and n.func.value.attr in
            self.models.classes) for n in ast.walk(f.node))
        last = results[-1]
        for o, facts, node in results:
            for attr in sorted(settings):
                if kind == 'elph' and attr in ('Rk', 'dk', 'Rg', 'dg'):
                    continue
                if not b.isset(facts, o, attr):
                    self.add('setting-lost', f, attr, node, 'the new model '
                        'has the default value of %s instead of that of the '
                        'original' % attr)
        for attr in sorted(settings):
            if kind == 'elph' and attr in ('Rk', 'dk', 'Rg', 'dg'):
                continue
            for o in {r[0] for r in results}:
                src = b.values_of.get((o, attr))
                if (o, '*') in b.values_of and (o, attr) not in b.nodes:
                    continue
                if src is None:
                    continue
                same = {(p, a) for p, a in src if a == attr and isinstance(p,
                    Obj) and p.kind == kind and p is not o}
                if attr in self.models.classes:
                    continue
                flag = docs.get(attr, ('',))[0] == 'bool'
                if not same and (flag or any(isinstance(p, Obj) for p, a in
                        src) or all(isinstance(v, ast.Constant) for n, v, e in
                        b.nodes.get((o, attr), [(0, None, 0)]))):
                    if any(self.closed(v, e, o) for n, v, e in b.nodes.get((o,
                            attr), [])):
                        self.add('setting-changed', f, attr, node, '%s of the '
                            'new model is not derived from %s of the original'
                            % (attr, attr))
        # completeness on final path (non-sparse)
        o, facts, node = last
        if any(isinstance(n, ast.Call) and callee(n) == 'Model' for p, n, w in
                b.made if p is o):
            for attr, reader in sorted(needed[kind].items()):
                if attr in made[kind] or self.conditional(kind, attr) \
                        or attr not in self.initial(kind):
                    continue
                if not b.isset(facts, o, attr) and (o, attr) not in b.may:
                    self.add('attribute-missing', f, attr, node, 'the new '
                        'model has no %s, which %s needs' % (attr, reader))
            if sc:
                for attr, (t, text) in sorted(docs.items()):
                    if 'if the model describes a supercell' in text \
                            and not b.isset(facts, o, attr):
                        self.add('attribute-missing', f, attr, node, 'the '
                            'supercell has no own %s' % attr)
            if (sc or f.name == 'unit_cell') and kind == 'ph':
                self.sites(f, kind, b, o, sc)

    def closed(self, v, env, o, depth=0):
        """Is the value fully understood (no unknown local involved)?"""
        for n in ast.walk(v):
            if isinstance(n, ast.Call) and not (isinstance(n.func,
                    ast.Attribute) and isinstance(n.func.value, (ast.Name,
                    ast.Attribute)) and ast.unparse(n.func.value).split('.')[0]
                    in ('np', 'numpy', 'math', 'comm')) and callee(n) not in (
                    'bool', 'float', 'int', 'copy', 'list', 'tuple', 'len'):
                return False
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                x = (env or {}).get(n.id)
                if isinstance(x, Value):
                    if x.node is None or depth > 8 or not self.closed(x.node,
                            x.env, o, depth + 1):
                        return False
        return True

    # --- per-atom data

    def ndim(self, kind, attr):
        """Number of dimensions from Einstein sums and element access."""
        cls = self.models.classes[kind]
        alias = {attr}
        for m in cls.methods.values():
            for n in ast.walk(m.node):
                if isinstance(n, ast.Assign) and callee(n.value) == 'copy' \
                        and n.value.args and selfattr(n.value.args[0]) == attr:
                    alias |= {selfattr(t) for t in n.targets} - {None}
        out = set()
        for m in cls.methods.values():
            for n in ast.walk(m.node):
                if callee(n) == 'einsum' and isinstance(const(n.args[0]), str):
                    ops = const(n.args[0]).split('->')[0].split(',')
                    for o, a in zip(ops, n.args[1:]):
                        if selfattr(a) in alias:
                            out.add(len(o.strip()))
        return out.pop() if len(out) == 1 else None

    def sites(self, f, kind, b, o, sc):
        """Expansion and reduction of data given per atom."""
        L = Local(f.node)
        cls = self.models.classes[kind]
        persite = set()
        for m in cls.methods.values():
            for n in ast.walk(m.node):
                # indexed by an atom: self.A[na], self.A[:nat]
                if isinstance(n, ast.Subscript) and selfattr(n.value) and \
                        isinstance(n.slice, ast.Slice) and n.slice.upper \
                        is not None and 'nat' in ast.unparse(n.slice.upper):
                    persite.add(n.value.attr)
                if callee(n) == 'tile' and n.args and selfattr(n.args[0]) \
                        and 'cells' in ast.unparse(n):
                    persite.add(n.args[0].attr)
                if isinstance(n, ast.ListComp) and len(n.generators) == 1:
                    g = n.generators[0]
                    if isinstance(g.iter, ast.Name) and g.iter.id == 'order' \
                            and isinstance(n.elt, ast.Subscript) and selfattr(
                            n.elt.value):
                        persite.add(n.elt.value.attr)
        self.info['per_site'][kind] = sorted(persite)
        for attr in sorted(persite):
            for node, value, env in b.nodes.get((o, attr), []):
                if const(value) is None and isinstance(value, ast.Constant):
                    continue
                problem = (self.expansion if sc else self.reduction)(attr,
                    L.expand(value), L, kind)
                if problem:
                    self.add('sites-misordered', f, attr, node, problem)
        for attr in sorted(self.scaled(kind)):
            nodes = b.nodes.get((o, attr), [])
            powers = [self.power(x[1], attr, L) for x in nodes]
            if powers and None not in powers and 2 not in powers:
                self.add('setting-unscaled', f, attr, nodes[-1][0], '%s is '
                    'given in units of the lattice, which changes, but scales '
                    'with power %s of the lattice constant instead of 2'
                    % (attr, max(powers, key=abs)))
        for attr in ('size', 'nat'):
            for node, value, env in b.nodes.get((o, attr), []):
                v = L.expand(value)
                src = {x.attr for x in ast.walk(v) if isinstance(x,
                    ast.Attribute)} & {'size', 'nat'}
                if src and attr not in src and not (attr == 'size' and 'nat'
                        in src and any(const(x) == 3 for x in ast.walk(v))):
                    self.add('sites-misordered', f, attr, node,
                        '%s calculated from %s' % (attr, ', '.join(sorted(src)
                        )))

    def scaled(self, kind):
        """Attributes in units of inverse squares of lattice constants."""
        out = set()
        for m in self.models.classes[kind].methods.values():
            L = Local(m.node)
            for n in ast.walk(m.node):
                if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mult) \
                        and isinstance(n.right, ast.BinOp) and isinstance(
                        n.right.op, ast.Pow) and const(n.right.right) == 2:
                    b = n.right.left
                    if isinstance(b, ast.BinOp) and isinstance(b.op, ast.Div) \
                            and 'self.a[0]' in ast.unparse(L.expand(b.right)):
                        out |= {selfattr(x) for x in ast.walk(n.left)} - {None}
        return out & self.settings(kind)

    def power(self, e, attr, L, sign=1):
        """Power of ratio of new to old lattice constants."""
        e = L.expand(e)
        while callee(e) in ('float', 'copy', 'array', 'deepcopy') and (e.args
                or isinstance(e.func, ast.Attribute)):
            e = L.expand(e.args[0] if e.args else e.func.value)
        if isinstance(e, ast.IfExp):
            powers = [self.power(x, attr, L) for x in (e.body, e.orelse)]
            return None if None in powers else max(powers, key=abs)
        if callee(e) == 'getattr' and len(e.args) > 1 and const(e.args[1]) \
                == attr:
            return 0
        if selfattr(e) == attr or isinstance(e, ast.Constant):
            return 0
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mult):
            l, r = self.power(e.left, attr, L), self.power(e.right, attr, L)
            return None if l is None or r is None else l + r
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Pow) and \
                isinstance(const(e.right), (int, float)):
            l = self.power(e.left, attr, L)
            return None if l is None else l * const(e.right)
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Div):
            l, r = L.expand(e.left), L.expand(e.right)
            if callee(l) == callee(r) == 'norm' and l.args and r.args:
                def owner(x):
                    x = x.args[0]
                    if isinstance(x, ast.Subscript):
                        x = x.value
                    return x.value.id if isinstance(x, ast.Attribute) and \
                        x.attr == 'a' and isinstance(x.value, ast.Name) else None
                a, b = owner(l), owner(r)
                if a and b and a != b:
                    return -1 if a == 'self' else 1 if b == 'self' else None
        return None

    def iscount(self, e, L):
        """Number of unit cells?"""
        e = L.expand(e)
        return callee(e) == 'len' and 'cells' in ast.unparse(e) or callee(e) \
            in ('prod', 'det', 'abs', 'round', 'int') or isinstance(e,
            ast.Subscript) or isinstance(e, ast.Name)

    def expansion(self, attr, v, L, kind):
        v = L.expand(v)
        while callee(v) in ('array', 'list', 'asarray', 'tuple') and v.args:
            v = L.expand(v.args[0])
        name = callee(v)
        if selfattr(v) == attr:
            return '%s is taken over without repeating it for all cells' % attr
        if name == 'repeat' and v.args:
            a = v.args[0] if not (isinstance(v.func, ast.Attribute)
                and selfattr(v.func.value) == attr) else v.func.value
            if selfattr(L.expand(a)) == attr:
                return ('%s is repeated atom by atom, while the matrices are '
                    'ordered cell by cell' % attr)
        if name == 'tile' and len(v.args) == 2 and selfattr(L.expand(
                v.args[0])) == attr:
            reps = L.expand(v.args[1])
            n = self.ndim(kind, attr)
            if isinstance(reps, (ast.Tuple, ast.List)):
                first, rest = reps.elts[0], reps.elts[1:]
                if const(first) == 1 and any(const(x) != 1 for x in rest):
                    return '%s is repeated along another axis than the atoms' \
                        % attr
                if n is not None and len(reps.elts) < n:
                    return ('%s has %d axes, but the first of %d repetitions '
                        'does not refer to the first one' % (attr, n,
                        len(reps.elts)))
            elif n is not None and n > 1 and self.iscount(reps, L):
                return '%s is repeated along its last axis' % attr
        if isinstance(v, ast.ListComp) and len(v.generators) == 2:
            def iscell(g):
                return 'cells' in ast.unparse(L.expand(g.iter))
            cells = [iscell(g) for g in v.generators]
            used = any(selfattr(x) == attr for x in ast.walk(v.elt)) or any(
                selfattr(L.expand(g.iter)) == attr for g in v.generators)
            if used and cells == [False, True]:
                return ('%s is ordered atom by atom, while the matrices are '
                    'ordered cell by cell' % attr)
            if used and cells == [True, False] and attr == 'r':
                g = v.generators[0].target
                if isinstance(g, (ast.Tuple, ast.List)):
                    names = [x.id for x in g.elts if isinstance(x, ast.Name)]
                    for x in ast.walk(v.elt):
                        if isinstance(x, ast.BinOp) and isinstance(x.op,
                                ast.Mult):
                            l, r = x.left, x.right
                            if isinstance(l, ast.Subscript):
                                l, r = r, l
                            if isinstance(l, ast.Name) and l.id in names \
                                    and isinstance(r, ast.Subscript) \
                                    and selfattr(r.value) == 'a' \
                                    and isinstance(const(r.slice), int) \
                                    and const(r.slice) != names.index(l.id):
                                return ('component %s multiplies lattice '
                                    'vector %d' % (l.id, const(r.slice)))
        return None

    def reduction(self, attr, v, L, kind):
        v = L.expand(v)
        while callee(v) in ('array', 'list', 'asarray', 'copy') and v.args:
            v = L.expand(v.args[0])
        if selfattr(v) == attr:
            return '%s is taken over for all cells of the supercell' % attr
        if isinstance(v, ast.Subscript) and selfattr(v.value) == attr:
            s = v.slice
            if isinstance(s, ast.Tuple) and s.elts:
                s = s.elts[0]
            if isinstance(s, ast.Slice):
                if s.step is not None and const(s.step) != 1:
                    return ('%s of equivalent atoms of different cells are '
                        'selected, while atoms are ordered cell by cell' % attr)
                up = L.expand(s.upper) if s.upper is not None else None
                if up is None and (s.lower is None or const(s.lower) == 0):
                    return '%s is taken over for all cells' % attr
                if up is not None and 'size' in ast.unparse(up):
                    return '%s is selected by number of displacements' % attr
        return None

    # --- same arguments for all parts

    def arguments(self, f):
        calls = []
        for n in ast.walk(f.node):
            if callee(n) == 'supercell' and isinstance(n.func, ast.Attribute):
                target = self.models.classes.get(n.func.value.attr) if \
                    isinstance(n.func.value, ast.Attribute) else None
                names = ['N1', 'N2', 'N3']
                m = target.methods.get('supercell') if target else None
                if m is not None:
                    names = [p.arg for p in m.node.args.args[1:]]
                got = dict(zip(names, n.args))
                got.update({k.arg: k.value for k in n.keywords if k.arg})
                if any(isinstance(a, ast.Starred) for a in n.args):
                    got = {'*': n.args[0]}
                L = Local(f.node)
                calls.append((n, {k: ast.unparse(L.expand(v)) for k, v in
                    got.items()}, target))
        if len(calls) > 1:
            for k in ('N1', 'N2', 'N3', '*'):
                vals = {c[1].get(k) for c in calls}
                if len(vals) > 1:
                    self.add('parts-differ', f, k, calls[0][0], 'parts of the '
                        'model are mapped to different supercells (%s)' % ', '
                        .join(sorted(map(str, vals))))
            models = [c for c in calls if c[2] is not None]
            vals = {c[1].get('sparse') for c in models}
            if len(vals) > 1:
                self.add('parts-differ', f, 'sparse', calls[0][0],
                    'parts of the model differ in sparseness')
        for n in ast.walk(f.node):
            if callee(n) == 'Model':
                for k in n.keywords:
                    if k.arg in self.models.classes:
                        v = k.value
                        attrs = {x.attr for x in ast.walk(v) if isinstance(x,
                            ast.Attribute) and selfattr(x)} & set(
                            self.models.classes)
                        if attrs and k.arg not in attrs:
                            self.add('parts-differ', f, k.arg, n, '%s of the '
                                'new model stems from %s' % (k.arg, ', '.join(
                                sorted(attrs))))

    # --- blocks of supercell matrices

    def blocks(self, f, kind):
        L = Local(f.node)
        if any(callee(n) == 'to_supercell' for n in ast.walk(f.node)):
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assign) and len(n.targets) == 1:
                    self.block(f, kind, n.targets[0], n.value, n, L)
                elif isinstance(n, ast.AugAssign):
                    self.block(f, kind, n.target, n.value, n, L)
            self.images(f, kind, L)
        if f.name == 'unit_cell' or 'self.N' in ast.unparse(f.node) and any(
                'self.cells' in ast.unparse(n) for n in ast.walk(f.node)
                if isinstance(n, ast.For)):
            self.unblock(f, kind, L)

    def slices(self, s, L):
        s = s.elts if isinstance(s, ast.Tuple) else [s]
        out = []
        for x in s:
            x = L.expand(x)
            if callee(x) == 'slice' and len(x.args) == 2:
                x = ast.Slice(lower=x.args[0], upper=x.args[1], step=None)
            if isinstance(x, ast.Slice) and x.lower is not None \
                    and x.upper is not None:
                out.append((x.lower, x.upper))
            else:
                out.append(None)
        return out

    def offset(self, e, L):
        """(factor, size) of an offset: block index times block size."""
        e = L.expand(e)
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mult):
            for a, b in ((e.left, e.right), (e.right, e.left)):
                if isinstance(b, ast.Attribute) and b.attr in ('size',) \
                        or isinstance(L.expand(b), ast.Attribute) and L.expand(
                        b).attr == 'size':
                    return a, ast.unparse(L.expand(b))
        return None, None

    def role(self, e, L):
        """What an index of a cell refers to: home or name of vectors."""
        e2 = e
        if isinstance(e, ast.Name) and e.id not in L.loops and L.get(e.id) \
                is not None:
            e2 = L.expand(e)
        if isinstance(e2, ast.Name) and e2.id in L.loops:
            kinds = L.loops[e2.id]
            if all((k[0] == 'item' and callee(k[1]) == 'range' and 'cells'
                    in ast.unparse(k[1])) or (k[0] == 'index' and 'cells' in
                    ast.unparse(L.expand(k[1]))) for k in kinds):
                return 'home', e2.id
        text = L.text(e2)
        for v, i in L.calls.get(text, []):
            if callee(v) == 'to_supercell':
                vectors = {x.value.attr for x in ast.walk(v) if isinstance(x,
                    ast.Subscript) and isinstance(x.value, ast.Attribute)
                    and selfattr(x.value)} & {'R', 'Rg', 'Rk'}
                if len(vectors) == 1:
                    return (vectors.pop() if i == 1 else 'vector'), ast.unparse(
                        v)
        return None, None

    def block(self, f, kind, target, value, node, L):
        """Position of an original matrix within that of the supercell."""
        if not isinstance(target, ast.Subscript):
            return
        if not any(selfattr(x) == 'data' for x in ast.walk(value)):
            return
        got = []
        index = None
        sl = self.slices(target.slice, L)
        # elph.gs[X + x][A:..., B:...]
        if kind == 'elph' and len(sl) == 2 and isinstance(target.value,
                ast.Subscript):
            e = L.expand(target.value.slice)
            if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
                for x in (e.left, e.right):
                    a, s = self.offset(x, L)
                    if a is not None:
                        got.append((a, s))
            if not got:
                return
        for x in sl:
            if x is None:
                return
            a, s = self.offset(x[0], L)
            if a is None:
                return
            up = L.expand(x[1])
            low = ast.unparse(x[0])
            if isinstance(up, ast.BinOp) and isinstance(up.op, ast.Add):
                parts = [ast.unparse(L.expand(y)) for y in (up.left, up.right)]
                if s not in parts:
                    self.add('block-misplaced', f, ast.unparse(x[1]), node,
                        'block starts at multiple of %s but does not extend '
                        'over it' % s)
            got.append((a, s))
        roles = [self.role(a, L) for a, s in got]
        if len(roles) != len(self.ROLES[kind]) or any(r[0] is None for r in
                roles):
            return
        self.info['blocks'] += 1
        want = self.ROLES[kind]
        have = [r[0] for r in roles]
        if have != want:
            self.add('block-misplaced', f, ','.join(have), node, 'blocks are '
                'placed at (%s) instead of (%s)' % (', '.join(have), ', '.join(
                want)))
        sizes = [s for a, s in got]
        if kind == 'elph':
            for s, w in zip(sizes, ['ph', 'el', 'el']):
                if '.%s.size' % w not in s:
                    self.add('block-misplaced', f, s, node, 'offset in units '
                        'of %s along axis of %s' % (s, w))

    def images(self, f, kind, L):
        """Arguments of the mapping of lattice vectors."""
        for n in ast.walk(f.node):
            if callee(n) != 'to_supercell' or not n.args:
                continue
            e = L.expand(n.args[0])
            if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add,
                    ast.Sub)):
                text = ast.unparse(e)
                if isinstance(e.op, ast.Sub) and 'cells' in text:
                    self.add('block-misplaced', f, text, n, 'the position of '
                        'the unit cell is subtracted from the lattice vector')

    def unblock(self, f, kind, L):
        for n in ast.walk(f.node):
            if isinstance(n, ast.Subscript) and selfattr(n.value) == 'data' \
                    and isinstance(n.slice, ast.Tuple) and len(n.slice.elts) \
                    == 3 and all(isinstance(x, ast.Slice) for x in
                    n.slice.elts[1:]):
                rows, cols = n.slice.elts[1:]
                def moving(s):
                    return s.lower is not None and const(s.lower) != 0
                if moving(rows) and not moving(cols):
                    self.add('block-misplaced', f, 'rows', n, 'matrices '
                        'between the first and another cell are taken from '
                        'the first column of blocks, not the first row')
                self.info['blocks'] += 1
        for n in ast.walk(f.node):
            if callee(n) in ('dot', 'matmul') and len(n.args) == 2:
                a, b = n.args
                if selfattr(a) == 'N' and isinstance(b, ast.Subscript) \
                        and selfattr(b.value) == 'R':
                    self.add('block-misplaced', f, ast.unparse(n), n,
                        'supercell lattice vector multiplied from the wrong '
                        'side')
            if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Sub):
                text = ast.unparse(n.right)
                if 'self.N' in ast.unparse(n.left) and 'cell' in text:
                    self.add('block-misplaced', f, ast.unparse(n), n,
                        'the position of the unit cell is subtracted from the '
                        'lattice vector')

    # --- moving orbitals or atoms across the cell boundary

    def shift(self, f, kind):
        params = [p.arg for p in f.node.args.args]
        if len(params) != 3:
            return
        s, S = params[1:]
        signs, moved = {}, {}
        for n in ast.walk(f.node):
            t = None
            if isinstance(n, ast.AugAssign) and isinstance(n.target,
                    ast.Subscript) and isinstance(n.op, (ast.Add, ast.Sub)) \
                    and isinstance(n.value, ast.Name) and n.value.id == S:
                signs[ast.unparse(n.target.slice)] = (isinstance(n.op,
                    ast.Add), n)
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Subscript
                    ) and selfattr(n.value.value) == 'data' and isinstance(
                    n.targets[0], ast.Subscript) and isinstance(
                    n.targets[0].slice, ast.Tuple) and isinstance(
                    n.value.slice, ast.Tuple):
                seg = ast.unparse(n.targets[0].slice.elts[0])
                a = [i for i, x in enumerate(n.targets[0].slice.elts)
                    if isinstance(x, ast.Name) and x.id == s]
                b = [i for i, x in enumerate(n.value.slice.elts)
                    if isinstance(x, ast.Name) and x.id == s]
                if a != b:
                    self.add('shift-misplaced', f, ast.unparse(n), n,
                        'elements are copied to another position')
                moved[seg] = a, len(n.targets[0].slice.elts), n
        for seg, (axes, n, node) in moved.items():
            if len(axes) != 1 or seg not in signs:
                continue
            row = axes[0] == 1
            if signs[seg][0] != row:
                self.add('shift-misplaced', f, seg, signs[seg][1], 'lattice '
                    'vectors change by %sS where the %s index refers to moved '
                    'sites' % ('+' if signs[seg][0] else '-', 'first' if row
                    else 'second'))
        self.phases(f, kind, s, S)
        if moved and signs:
            self.info['shifts'].append(f.qualname)
            for n in ast.walk(f.node):
                if isinstance(n, ast.AugAssign) and isinstance(n.op, ast.Sub) \
                        and isinstance(n.target, ast.Subscript) and selfattr(
                        n.target.value) == 'r':
                    self.add('shift-misplaced', f, 'r', n, 'positions are '
                        'moved in the opposite direction')

    def exponent(self, e):
        """Sign of the imaginary exponent."""
        sign = 1
        found = None
        for x in ast.walk(e):
            if isinstance(x, ast.Constant) and isinstance(x.value, complex):
                found = 1
            if isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.USub):
                sign = -sign
            if isinstance(x, ast.BinOp) and isinstance(x.op, ast.Sub):
                return None
        return sign if found else None

    def phases(self, f, kind, s, S):
        fourier = set()
        for m in self.models.classes[kind].methods.values():
            for n in ast.walk(m.node):
                if callee(n) == 'exp' and n.args and any(selfattr(x) == 'R'
                        for x in ast.walk(n.args[0])):
                    fourier.add(self.exponent(n.args[0]))
        if len(fourier) != 1 or None in fourier:
            return
        fourier = fourier.pop()
        own = {}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1:
                t = n.targets[0]
                t = t.value if isinstance(t, ast.Subscript) else t
                for x in ast.walk(n.value):
                    if callee(x) == 'exp' and x.args and any(isinstance(y,
                            ast.Name) and y.id == S for y in ast.walk(x)) \
                            and isinstance(t, ast.Name):
                        own.setdefault(t.id, set()).add(self.exponent(
                            x.args[0]))
        for n in ast.walk(f.node):
            if not (isinstance(n, ast.Assign) and selfattr(n.targets[0])
                    == 'D0'):
                continue
            for x in ast.walk(n.value):
                if not isinstance(x, ast.Subscript) or not isinstance(x.slice,
                        ast.Tuple) or len(x.slice.elts) != 3:
                    continue
                v, conj = x.value, 1
                if callee(v) in ('conj', 'conjugate'):
                    conj = -1
                    v = v.func.value if not v.args else v.args[0]
                if not isinstance(v, ast.Name) or len(own.get(v.id, ())) != 1:
                    continue
                sign = list(own[v.id])[0]
                new = [i for i, y in enumerate(x.slice.elts) if 'newaxis' in
                    ast.unparse(y) or isinstance(y, ast.Constant) and y.value
                    is None]
                if sign is None or new not in ([1], [2]):
                    continue
                want = fourier if new == [2] else -fourier
                if sign * conj != want:
                    self.add('shift-misplaced', f, 'D0:%s' % ('row' if new
                        == [2] else 'column'), n, 'matrices of reciprocal '
                        'space are shifted in the opposite direction')

    # --- reordering

    def reorder(self, f, kind):
        a = f.node.args
        if a.vararg is None or not any(isinstance(x, (ast.Assign,)) and any(
                selfattr(t) == 'data' for t in x.targets) for x in
                ast.walk(f.node)):
            return
        order = a.vararg.arg
        L = Local(f.node)
        derived = {order: False} # name -> inverse
        more = True
        while more:
            more = False
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assign) and len(n.targets) == 1 \
                        and isinstance(n.targets[0], ast.Name) \
                        and n.targets[0].id not in derived:
                    names = {x.id for x in ast.walk(n.value) if isinstance(x,
                        ast.Name)} & set(derived)
                    if names and not any(selfattr(x) for x in
                            ast.walk(n.value)):
                        inv = derived[sorted(names)[0]]
                        if any(callee(x) in ('argsort', 'index') for x in
                                ast.walk(n.value)):
                            inv = not inv
                        derived[n.targets[0].id] = inv
                        more = True
        self.info['reorderings'].append(f.qualname)
        def uses(e):
            """Inverse-ness of permutation an expression applies."""
            out = set()
            for x in ast.walk(e):
                if isinstance(x, ast.Name) and x.id in derived:
                    inv = derived[x.id]
                    out.add(inv)
                if callee(x) == 'argsort' or callee(x) == 'index' and \
                        isinstance(x.func, ast.Attribute) and isinstance(
                        x.func.value, ast.Name) and x.func.value.id in derived:
                    out = {not i for i in out} or {True}
            return out
        seen = {}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1:
                attr = selfattr(n.targets[0])
                if attr:
                    u = uses(n.value)
                    if u:
                        seen.setdefault(attr, set()).update(u)
            if callee(n) == 'setattr' and len(n.args) == 3:
                return # not followed
        kinds = set().union(*seen.values()) if seen else set()
        if len(kinds) > 1:
            self.add('reorder-mixed', f, order, f.node, 'some quantities are '
                'reordered by the given order and others by its inverse (%s)'
                % ', '.join('%s: %s' % (k, 'inverse' if True in v else 'direct')
                for k, v in sorted(seen.items())))
        # both axes of matrices
        for attr in ('data', 'D0'):
            axes = set()
            dims = set()
            alias = {attr}
            for i in range(3):
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Assign) and any(selfattr(x) in alias
                            or isinstance(x, ast.Name) and x.id in alias
                            for x in ast.walk(n.value)):
                        alias |= {t.id for t in n.targets if isinstance(t,
                            ast.Name)}
            for n in ast.walk(f.node):
                v = n.value if isinstance(n, ast.Subscript) else None
                while isinstance(v, ast.Subscript) or callee(v) in ('reshape',
                        'copy') and isinstance(v.func, ast.Attribute):
                    v = v.value if isinstance(v, ast.Subscript) \
                        else v.func.value
                if v is not None and (selfattr(v) == attr or isinstance(v,
                        ast.Name) and v.id in alias):
                    elts = n.slice.elts if isinstance(n.slice, ast.Tuple) \
                        else [n.slice]
                    back = any(isinstance(x, ast.Constant) and x.value is ...
                        for x in elts)
                    hits = [i for i, x in enumerate(elts) if uses(x)]
                    for i in hits:
                        axes.add(i - len(elts) if back else i)
                    if hits:
                        dims.add(None if back else len(elts))
            if len(axes) == 1 and attr in seen:
                self.add('reorder-mixed', f, attr, f.node, 'only one axis of '
                    '%s is reordered' % attr)
        # all quantities given per site
        cls = self.models.classes[kind]
        want = set()
        for m in cls.methods.values():
            for n in ast.walk(m.node):
                if isinstance(n, ast.Subscript) and selfattr(n.value) and \
                        isinstance(n.slice, ast.Slice) and n.slice.upper \
                        is not None and 'nat' in ast.unparse(n.slice.upper):
                    want.add(n.value.attr)
        written = set(seen)
        for attr in sorted(want):
            if attr not in written:
                self.add('reorder-incomplete', f, attr, f.node, '%s is given '
                    'per atom but keeps its order' % attr)
        docs = self.models.docs[kind]
        for attr, (t, text) in sorted(docs.items()):
            if attr not in written and text.startswith('Dynamical matrices'):
                self.add('reorder-incomplete', f, attr, f.node,
                    '%s keeps the order of atoms' % attr)

def check(root):
    return Transforms(root).run()
