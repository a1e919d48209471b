"""Flow-sensitive tracking of model objects and their attributes (C08, C09).

Functions are walked along their control flow with calls of package routines
that receive a model object expanded in place. What is tracked per object is
which attributes have been set, modified in place, or read, and from which
attributes of other objects the assigned values stem.
"""

import ast

from .project import Class, Func, Project

DISTRIBUTE = {'Bcast': 0, 'Allreduce': 1, 'Reduce': 1, 'Allgatherv': 1,
    'Gatherv': 1, 'Allgather': 1, 'Scatterv': 1}

INPLACE = {'sort', 'fill', 'append', 'extend', 'insert', 'remove', 'pop',
    'reverse', 'put', 'resize', 'setdiag', 'update', 'clear'}

PASS = {'bcast', 'array', 'asarray', 'list', 'tuple', 'copy', 'deepcopy',
    'float', 'bool', 'int'}

def callee(n):
    if isinstance(n, ast.Call):
        if isinstance(n.func, ast.Attribute):
            return n.func.attr
        if isinstance(n.func, ast.Name):
            return n.func.id

def sections(doc):
    """Documented attributes: name -> (type, text)."""
    out, on, last = {}, False, None
    lines = doc.split('\n')
    for i, l in enumerate(lines):
        if l.strip() and i + 1 < len(lines) and set(lines[i + 1].strip()) \
                == {'-'}:
            on = l.strip() == 'Attributes'
            last = None
            continue
        if not on or set(l.strip()) == {'-'}:
            continue
        if l and not l[0].isspace() and ':' in l:
            names, kind = l.split(':', 1)
            last = [n.strip() for n in names.split(',')]
            for n in last:
                out[n] = [kind.strip(), '']
        elif last and l.strip():
            for n in last:
                out[n][1] += ' ' + l.strip()
    return {n: (k, t.strip()) for n, (k, t) in out.items()}

class Models:
    """Model classes: el.Model, ph.Model, elph.Model, elel.Model."""
    def __init__(self, root):
        self.project = Project(root)
        self.classes = {}
        for m in self.project.modules.values():
            for c in m.classes.values():
                if c.name == 'Model':
                    self.classes[m.short] = c
        self.docs = {k: sections(c.doc()) for k, c in self.classes.items()}

    def cls(self, obj):
        """Model class of an object path such as 'self.ph' (or None)."""
        return obj.kind

class Obj:
    """Model object."""
    count = 0
    def __init__(self, kind, text, new=False, parent=None):
        Obj.count += 1
        self.kind = kind    # 'el', 'ph', 'elph', 'elel'
        self.text = text
        self.new = new
        self.parent = parent
        self.sub = {}
        self.args = None

    def child(self, name):
        if name not in self.sub:
            self.sub[name] = Obj(name, self.text + '.' + name, self.new, self)
        return self.sub[name]

    def __repr__(self):
        return self.text

class State:
    """Facts about one program point."""
    def __init__(self, env=None, facts=None):
        self.env = env or {}
        self.facts = facts or {}
        self.dead = False

    def copy(self):
        s = State(dict(self.env), {k: self.dup(v) for k, v in
            self.facts.items()})
        s.dead = self.dead
        return s

    @staticmethod
    def dup(v):
        if isinstance(v, dict):
            return dict(v)
        if isinstance(v, set):
            return set(v)
        if isinstance(v, list):
            return [x.copy() if hasattr(x, 'copy') else x for x in v]
        return v

class Value:
    """Provenance of a local value."""
    __slots__ = 'node', 'env', 'src'
    def __init__(self, node, env, src):
        self.node, self.env, self.src = node, env, src

class Tracker:
    """Walks one function; subclasses react to the events."""
    DEPTH = 5

    def __init__(self, models, func, selfkind=None):
        self.models = models
        self.func = func
        self.module = func.module
        self.stack = []
        self.returned = []
        self.fallen = None
        self.tests = []
        self.inline_returns = []
        self.selfkind = selfkind
        self.exits = []

    # --- events (to be overridden) -------------------------------------------

    def write(self, obj, attr, node, value, st, inplace=False):
        pass

    def read(self, obj, attr, node, st):
        pass

    def called(self, obj, method, node, st):
        """Before a method of a model object is expanded."""

    def leave(self, st, value, node):
        """The routine itself returns."""

    def joinfacts(self, a, b):
        return a

    def refine(self, test, side, st):
        """Entering a branch."""

    def created(self, obj, node, st):
        pass

    # --- objects ----------------------------------------------------------------

    def object(self, e, st):
        if isinstance(e, ast.Name):
            v = st.env.get(e.id)
            return v if isinstance(v, Obj) else None
        if isinstance(e, ast.Attribute):
            if e.attr in self.models.classes:
                o = self.object(e.value, st)
                if o is not None:
                    return o.child(e.attr)
                if isinstance(e.value, ast.Name) and e.value.id == 'self' \
                        and self.selfkind is None:
                    o = self.fields.get(e.attr)
                    if o is None:
                        o = self.fields[e.attr] = Obj(e.attr, 'self.' + e.attr)
                    return o
        if isinstance(e, ast.Call) and callee(e) in ('copy', 'deepcopy') \
                and len(e.args) == 1:
            return None
        return None

    def field(self, e, st):
        """(object, attribute) of an attribute expression or view of it."""
        while True:
            if isinstance(e, ast.Subscript):
                e = e.value
            elif isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) \
                    and e.func.attr in ('view', 'reshape', 'ravel',
                    'transpose', 'swapaxes'):
                e = e.func.value
            elif isinstance(e, ast.Attribute) and e.attr in ('T', 'real',
                    'imag', 'flat'):
                e = e.value
            else:
                break
        if isinstance(e, ast.Attribute):
            o = self.object(e.value, st)
            if o is not None and e.attr not in self.models.classes:
                return o, e.attr
        if isinstance(e, ast.Name):
            v = st.env.get(e.id)
            if isinstance(v, Value) and v.node is not None and isinstance(
                    v.node, (ast.Attribute, ast.Subscript, ast.Call)):
                if isinstance(v.node, ast.Call) and callee(v.node) not in (
                        'view', 'reshape', 'ravel', 'transpose', 'swapaxes'):
                    return None
                s = State(v.env)
                return self.field(v.node, s) if v.env is not None else None
        return None

    def sources(self, e, st):
        """Attributes of objects an expression depends on."""
        out = set()
        stack = [e]
        while stack:
            n = stack.pop()
            if isinstance(n, ast.Attribute):
                o = self.object(n.value, st)
                if o is not None:
                    out.add((o, n.attr))
                    continue
            if isinstance(n, ast.Name):
                v = st.env.get(n.id)
                if isinstance(v, Value):
                    out |= v.src
                continue
            stack.extend(ast.iter_child_nodes(n))
        return out

    # --- walking ----------------------------------------------------------------

    def run(self):
        self.fields = {}
        st = State()
        a = self.func.node.args
        for p in a.posonlyargs + a.args + a.kwonlyargs:
            if p.arg == 'self' and self.selfkind:
                st.env['self'] = Obj(self.selfkind, 'self')
            elif p.arg in self.models.classes:
                st.env[p.arg] = Obj(p.arg, p.arg)
            else:
                st.env[p.arg] = Value(None, None, {('param', p.arg)})
        for p in (a.vararg, a.kwarg):
            if p is not None:
                st.env[p.arg] = Value(None, None, {('param', p.arg)})
        self.start(st)
        self.body(self.func.node.body, st)
        if not st.dead:
            self.leave(st, None, self.func.node)
        return self

    def start(self, st):
        pass

    def body(self, body, st):
        for n in body:
            if st.dead:
                break
            self.statement(n, st)

    def merge(self, st, parts):
        live = [p for p in parts if not p.dead]
        if not live:
            st.dead = True
            return
        env = {}
        for k in set().union(*[p.env for p in live]):
            vs = [p.env.get(k) for p in live]
            if all(v is vs[0] for v in vs):
                env[k] = vs[0]
            elif any(isinstance(v, Obj) for v in vs):
                objs = [v for v in vs if isinstance(v, Obj)]
                env[k] = objs[0]
            else:
                src = set()
                for v in vs:
                    if isinstance(v, Value):
                        src |= v.src
                env[k] = Value(None, None, src)
        facts = live[0].facts
        for p in live[1:]:
            facts = self.joinfacts(facts, p.facts)
        st.env, st.facts, st.dead = env, facts, False

    def statement(self, n, st):
        if isinstance(n, ast.Assign):
            self.expr(n.value, st)
            for t in n.targets:
                self.target(t, n.value, st, n)
        elif isinstance(n, ast.AnnAssign):
            if n.value is not None:
                self.expr(n.value, st)
                self.target(n.target, n.value, st, n)
        elif isinstance(n, ast.AugAssign):
            self.expr(n.value, st)
            self.expr(n.target, st)
            f = self.field(n.target, st)
            if f is not None:
                self.write(f[0], f[1], n, n.value, st, True)
            elif isinstance(n.target, ast.Subscript):
                self.blend(n.target, n.value, st)
            elif isinstance(n.target, ast.Name):
                old = st.env.get(n.target.id)
                src = set(old.src) if isinstance(old, Value) else set()
                st.env[n.target.id] = Value(None, None, src | self.sources(
                    n.value, st))
        elif isinstance(n, ast.If):
            self.expr(n.test, st)
            if self.isrank(n.test, st):
                self.ranks(n, st)
                return
            a, b = st.copy(), st.copy()
            c = self.decide(n.test, st)
            if c is False:
                a.dead = True
            if c is True:
                b.dead = True
            self.tests.append((n.test, True))
            if not a.dead:
                self.refine(n.test, True, a)
                self.body(n.body, a)
            self.tests[-1] = n.test, False
            if not b.dead:
                self.refine(n.test, False, b)
                self.body(n.orelse, b)
            self.tests.pop()
            self.merge(st, [a, b])
        elif isinstance(n, (ast.For, ast.AsyncFor)):
            self.expr(n.iter, st)
            if self.unrolled(n, st):
                return
            src = self.sources(n.iter, st)
            for x in ast.walk(n.target):
                if isinstance(x, ast.Name):
                    st.env[x.id] = Value(None, None, set(src))
            self.loop(n, st)
        elif isinstance(n, ast.While):
            self.expr(n.test, st)
            self.loop(n, st)
        elif isinstance(n, (ast.With, ast.AsyncWith)):
            for i in n.items:
                self.expr(i.context_expr, st)
                if i.optional_vars is not None:
                    self.target(i.optional_vars, i.context_expr, st, n)
            self.body(n.body, st)
        elif isinstance(n, ast.Try):
            b = st.copy()
            self.body(n.body, st)
            parts = [st.copy()]
            if not st.dead:
                self.body(n.orelse, parts[0])
            for h in n.handlers:
                c = b.copy()
                self.body(h.body, c)
                parts.append(c)
            self.merge(st, parts)
            self.body(n.finalbody, st)
        elif isinstance(n, ast.Return):
            if n.value is not None:
                self.expr(n.value, st)
            if self.stack:
                self.inline_returns[-1].append((st.copy(), n.value))
            elif not self.quiet:
                self.leave(st, n.value, n)
            st.dead = True
        elif isinstance(n, ast.Raise):
            st.dead = True
        elif isinstance(n, (ast.Continue, ast.Break)):
            self.exits[-1].append(st.copy()) if self.exits else None
            st.dead = True
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            st.env[n.name] = Value(n, None, set())
        elif isinstance(n, ast.Expr):
            self.expr(n.value, st)
        elif isinstance(n, ast.Delete):
            pass

    def isrank(self, test, st):
        """Does the outcome depend on the process?"""
        for n in ast.walk(test):
            if isinstance(n, ast.Attribute) and n.attr == 'rank':
                return True
            if isinstance(n, ast.Name):
                v = st.env.get(n.id)
                if isinstance(v, Value) and v.node is not None and any(
                        isinstance(x, ast.Attribute) and x.attr == 'rank'
                        for x in ast.walk(v.node)):
                    return True
        return False

    def ranks(self, n, st):
        """Different processes take different branches: all are taken."""
        for body in n.body, n.orelse:
            a = st.copy()
            self.quiet += 1
            mark = len(self.inline_returns[-1]) if self.inline_returns else 0
            self.body(body, a)
            self.quiet -= 1
            if a.dead:
                if self.inline_returns:
                    del self.inline_returns[-1][mark:]
            else:
                st.env, st.facts = a.env, a.facts

    quiet = 0

    def loop(self, n, st):
        """Loops run at least once."""
        self.exits.append([])
        self.body(n.body, st)
        out = self.exits.pop()
        parts = [st.copy()] + out
        self.merge(st, parts)
        if not st.dead:
            self.body(n.orelse, st)

    def unrolled(self, n, st):
        """Loops over literal tuples of strings, e.g., with setattr."""
        seq = n.iter
        if isinstance(seq, ast.Name):
            v = st.env.get(seq.id)
            if isinstance(v, Value) and v.node is not None:
                seq = v.node
        if not isinstance(seq, (ast.Tuple, ast.List)) or not isinstance(
                n.target, ast.Name) or not seq.elts or not all(isinstance(x,
                ast.Constant) and isinstance(x.value, str) for x in seq.elts):
            return False
        for x in seq.elts:
            st.env[n.target.id] = Value(x, st.env, set())
            self.body(n.body, st)
            if st.dead:
                break
        return True

    def decide(self, test, st):
        return None

    def constant(self, e, st):
        """String value of a name or literal."""
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            return e.value
        if isinstance(e, ast.Name):
            v = st.env.get(e.id)
            if isinstance(v, Value) and isinstance(v.node, ast.Constant) \
                    and isinstance(v.node.value, str):
                return v.node.value

    def target(self, t, value, st, node, whole=True):
        if isinstance(t, ast.Name):
            o = self.make(value, st) if whole else None
            if o is not None:
                if o.text.startswith('<'):
                    o.text = t.id
                st.env[t.id] = o
            else:
                st.env[t.id] = Value(value if whole else None, dict(st.env)
                    if whole else None, self.sources(value, st))
        elif isinstance(t, ast.Attribute):
            o = self.object(t.value, st)
            if o is not None:
                self.write(o, t.attr, node, value if whole else None, st)
                if t.attr in self.models.classes and whole:
                    s = self.make(value, st)
                    if s is not None:
                        o.sub[t.attr] = s
            elif t.attr in self.models.classes and whole and isinstance(
                    t.value, ast.Name) and t.value.id == 'self':
                s = self.make(value, st)
                if s is not None:
                    self.fields[t.attr] = s
        elif isinstance(t, ast.Subscript):
            self.expr(t.slice, st)
            f = self.field(t, st)
            if f is not None:
                self.write(f[0], f[1], node, value, st, True)
            else:
                self.blend(t, value, st)
        elif isinstance(t, (ast.Tuple, ast.List)):
            elts = value.elts if isinstance(value, (ast.Tuple, ast.List)) \
                and len(value.elts) == len(t.elts) else None
            for i, x in enumerate(t.elts):
                x = x.value if isinstance(x, ast.Starred) else x
                if elts:
                    self.target(x, elts[i], st, node)
                else:
                    self.target(x, value, st, node, False)

    def blend(self, t, value, st):
        """Elements of a local array are set."""
        src = self.sources(value, st)
        while isinstance(t, (ast.Subscript, ast.Attribute)):
            if isinstance(t, ast.Subscript):
                src = src | self.sources(t.slice, st)
            t = t.value
        if isinstance(t, ast.Name) and isinstance(st.env.get(t.id), Value):
            st.env[t.id] = Value(None, None, st.env[t.id].src | src)

    def make(self, e, st):
        """Object an expression evaluates to (known or new)."""
        o = self.object(e, st)
        if o is not None:
            return o
        if isinstance(e, ast.Call):
            if id(e) in self.values:
                return self.values[id(e)]
        return None

    values = {}

    def expr(self, e, st):
        """Visit calls and attribute reads in evaluation order."""
        if isinstance(e, ast.Lambda):
            return
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp,
                ast.DictComp)):
            for g in e.generators:
                self.expr(g.iter, st)
            inner = st
            for g in e.generators:
                for x in ast.walk(g.target):
                    if isinstance(x, ast.Name) and not isinstance(
                            st.env.get(x.id), Obj):
                        inner.env[x.id] = Value(None, None, self.sources(g.iter,
                            st))
            for c in ast.iter_child_nodes(e):
                if not isinstance(c, ast.comprehension):
                    self.expr(c, inner)
            return
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.expr(c, st)
            elif isinstance(c, ast.keyword):
                self.expr(c.value, st)
            elif isinstance(c, (ast.Slice,)):
                self.expr(c, st)
        if isinstance(e, ast.Attribute) and isinstance(e.ctx, ast.Load):
            o = self.object(e.value, st)
            if o is not None:
                self.read(o, e.attr, e, st)
        if isinstance(e, ast.Call):
            self.call(e, st)

    # --- calls ------------------------------------------------------------------

    def resolve(self, e, st):
        """(function, receiver) of a call of a package routine."""
        f = e.func
        if isinstance(f, ast.Attribute):
            o = self.object(f.value, st)
            if o is not None:
                c = self.models.classes[o.kind]
                m = c.methods.get(f.attr)
                return (m, None if m is not None and m.static else o) \
                    if m is not None else None
        if isinstance(f, ast.Name):
            v = st.env.get(f.id)
            if isinstance(v, Value) and isinstance(v.node, ast.FunctionDef):
                return v.node, None
        module = self.stack[-1][1] if self.stack else self.module
        t = self.lookup(module, f)
        return (t, None) if t is not None else None

    def lookup(self, module, f):
        chain = []
        while isinstance(f, ast.Attribute):
            chain.append(f.attr)
            f = f.value
        if not isinstance(f, ast.Name):
            return None
        p = self.models.project
        t = p.member(module, f.id)
        for attr in chain[::-1]:
            if not hasattr(t, 'functions'):
                return None
            t = p.member(t, attr)
        return t if isinstance(t, (Func, Class)) else None

    def call(self, e, st):
        c = callee(e)
        # distribution and other methods that fill their arguments
        if c in DISTRIBUTE and isinstance(e.func, ast.Attribute):
            i = DISTRIBUTE[c]
            if len(e.args) > i:
                buf = e.args[i]
                if isinstance(buf, (ast.Tuple, ast.List)) and buf.elts:
                    buf = buf.elts[0]
                f = self.field(buf, st)
                if f is not None:
                    self.write(f[0], f[1], e, None, st, True)
        if c in INPLACE and isinstance(e.func, ast.Attribute):
            f = self.field(e.func.value, st)
            if f is not None:
                self.write(f[0], f[1], e, None, st, True)
        if c == 'setattr' and len(e.args) == 3:
            o = self.object(e.args[0], st)
            name = self.constant(e.args[1], st)
            if o is not None:
                v = e.args[2]
                if callee(v) == 'getattr' and len(v.args) >= 2 \
                        and self.constant(v.args[1], st):
                    v = ast.copy_location(ast.Attribute(value=v.args[0],
                        attr=self.constant(v.args[1], st), ctx=ast.Load()), v)
                self.write(o, name or '*', e, v, st)
            return
        if c == 'update' and isinstance(e.func, ast.Attribute) and isinstance(
                e.func.value, (ast.Attribute, ast.Call)):
            v = e.func.value
            o = None
            if isinstance(v, ast.Attribute) and v.attr == '__dict__':
                o = self.object(v.value, st)
            elif callee(v) == 'vars' and v.args:
                o = self.object(v.args[0], st)
            if o is not None:
                self.write(o, '*', e, e.args[0] if e.args else None, st)
        if c in ('copy', 'deepcopy') and len(e.args) == 1:
            o = self.object(e.args[0], st)
            if o is not None:
                x = Obj(o.kind, '<copy>', True)
                x.args = e
                self.values = dict(self.values)
                self.values[id(e)] = x
                self.created(x, e, st)
                self.write(x, '*', e, e.args[0], st)
            return

        r = self.resolve(e, st)
        if r is None:
            return
        f, receiver = r
        if isinstance(f, Class):
            kind = f.module.short
            if f.name == 'Model' and kind in self.models.classes:
                x = Obj(kind, '<new>', True)
                x.args = e
                for k in e.keywords:
                    if k.arg in self.models.classes:
                        o = self.make(k.value, st)
                        if o is not None:
                            x.sub[k.arg] = o
                self.values = dict(self.values)
                self.values[id(e)] = x
                self.created(x, e, st)
            return
        node = f.node if isinstance(f, Func) else f
        if not isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            return
        module = f.module if isinstance(f, Func) else (self.stack[-1][1]
            if self.stack else self.module)
        if receiver is not None:
            self.called(receiver, node.name, e, st)

        a = node.args
        params = [p.arg for p in a.posonlyargs + a.args]
        bound = {}
        pos = list(e.args)
        if receiver is not None and params:
            bound[params[0]] = receiver
            params = params[1:]
        exact = not any(isinstance(x, ast.Starred) for x in pos)
        for p, x in zip(params, pos):
            if isinstance(x, ast.Starred):
                break
            bound[p] = x
        for k in e.keywords:
            if k.arg:
                bound[k.arg] = k.value

        objs = any(isinstance(v, Obj) or isinstance(v, ast.expr)
            and (self.make(v, st) is not None or self.field(v, st) is not None)
            for v in bound.values())
        if not objs or len(self.stack) >= self.DEPTH or any(s[0] is node
                for s in self.stack):
            return

        inner = State({}, st.facts)
        if not isinstance(f, Func):
            inner.env = dict(st.env) # local function
        defaults = dict(zip([p.arg for p in (a.posonlyargs + a.args)][
            len(a.posonlyargs + a.args) - len(a.defaults):], a.defaults))
        defaults.update({p.arg: d for p, d in zip(a.kwonlyargs, a.kw_defaults)
            if d is not None})
        for p in [p.arg for p in a.posonlyargs + a.args + a.kwonlyargs]:
            if p in bound:
                v = bound[p]
                if isinstance(v, Obj):
                    inner.env[p] = v
                    continue
                o = self.make(v, st)
                if o is not None:
                    inner.env[p] = o
                else:
                    inner.env[p] = Value(v, dict(st.env), self.sources(v, st))
            elif p in defaults and exact:
                inner.env[p] = Value(defaults[p], {}, set())
            else:
                inner.env[p] = Value(None, None, set())
        for p in (a.vararg, a.kwarg):
            if p is not None:
                inner.env[p.arg] = Value(None, None, set())

        self.stack.append((node, module))
        self.inline_returns.append([])
        exits, self.exits = self.exits, []
        tests, self.tests = self.tests, list(self.tests)
        self.body(node.body, inner)
        self.exits = exits
        self.tests = tests
        outs = self.inline_returns.pop()
        self.stack.pop()
        parts = ([inner] if not inner.dead else []) + [s for s, v in outs]
        if not parts:
            st.dead = True
            return
        facts = parts[0].facts
        for p in parts[1:]:
            facts = self.joinfacts(facts, p.facts)
        st.facts = facts
        # returned object
        found = set()
        for s, v in outs:
            o = self.make(v, s) if v is not None else None
            if o is not None:
                found.add(o)
        if len(found) == 1 and all(v is not None for s, v in outs):
            self.values = dict(self.values)
            self.values[id(e)] = found.pop()
