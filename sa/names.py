"""Name resolution, definite assignment, attribute and signature checks (C11).

* Every name, module attribute and attribute of a known instance must resolve.
* A local name must be assigned on every feasible path to a use. Paths are
  distinguished by the conditions under which the name is still unassigned
  (branch conditions over unmodified names, with their logical structure); a
  use is reported if one of them does not contradict the conditions of the use.
* Each call to a routine of the package (or of a library in the table
  data/libs.json) must fit the signature.
"""

import ast
import builtins
import json
import os

from .project import Project, Module, Func, Class

BUILTINS = set(dir(builtins)) | {'__file__', '__name__', '__doc__',
    '__package__', '__path__', '__spec__', '__builtins__'}

LIBS = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)),
    'data', 'libs.json')))

MAX_WORLDS = 64

SCOPES = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)
COMPS = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)

def text(node):
    return ast.unparse(node)

def shorten(s, n=80):
    s = ' '.join(s.split())
    return s if len(s) <= n else s[:n - 3] + '...'

# --- scopes -----------------------------------------------------------------

def params(node):
    a = node.args
    names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    if a.vararg:
        names.append(a.vararg.arg)
    if a.kwarg:
        names.append(a.kwarg.arg)
    return names

def own_nodes(node):
    try:
        return node.own_nodes_
    except AttributeError:
        node.own_nodes_ = list(iter_own_nodes(node))
        return node.own_nodes_

def iter_own_nodes(node):
    """Nodes of a function body without those of nested scopes.

    Comprehensions are scopes, too, except for their first iterable; walrus
    targets are not used in this package and treated as local to the function.
    """
    body = node.body if isinstance(node.body, list) else [node.body]
    stack = list(body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, SCOPES):
            stack.extend(n.args.defaults)
            stack.extend(d for d in n.args.kw_defaults if d is not None)
            if not isinstance(n, ast.Lambda):
                stack.extend(n.decorator_list)
        elif isinstance(n, ast.ClassDef):
            stack.extend(n.bases)
        elif isinstance(n, COMPS):
            stack.append(n.generators[0].iter)
        else:
            stack.extend(ast.iter_child_nodes(n))

def bound_names(node):
    try:
        return node.bound_names_
    except AttributeError:
        node.bound_names_ = get_bound_names(node)
        return node.bound_names_

def get_bound_names(node):
    """Names a function binds (parameters excluded), and declared globals."""
    bound, glob, nonlocal_ = set(), set(), set()
    for n in own_nodes(node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            bound.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef,
                ast.ClassDef)):
            bound.add(n.name)
        elif isinstance(n, ast.Import):
            for a in n.names:
                bound.add(a.asname or a.name.split('.')[0])
        elif isinstance(n, ast.ImportFrom):
            for a in n.names:
                bound.add(a.asname or a.name)
        elif isinstance(n, ast.Global):
            glob.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonlocal_.update(n.names)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            bound.add(n.name)
    return bound - glob - nonlocal_, glob

def comp_targets(node):
    out = set()
    for g in node.generators:
        for x in ast.walk(g.target):
            if isinstance(x, ast.Name):
                out.add(x.id)
    return out

class Scope:
    def __init__(self, node, parent, names, kind):
        self.node, self.parent, self.names, self.kind = (node, parent, names,
            kind)

# --- findings ---------------------------------------------------------------

class Names:
    def __init__(self, root):
        self.project = Project(root)
        self.findings = {}
        self.count = dict(names=0, module_attributes=0, local_uses=0,
            maybe_unassigned=0, calls=0, library_calls=0,
            instance_attributes=0, functions=0, unpackings=0)
        self.undecided = []
        self.module_globals = {}
        self.late_imports = {}

    def report(self, rule, func, construct, message):
        self.findings.setdefault((rule, func, shorten(construct)), message)

    def run(self):
        modules = [m for m in self.project.modules.values()]
        modules += self.scripts()

        for m in modules:
            names = set(m.functions) | set(m.classes) | set(m.imports) \
                | set(m.globals)
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Global):
                    names.update(n.names)
            for n in own_nodes(m.tree):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    names.add(n.id)
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    names.add(n.name)
                elif isinstance(n, ast.Import):
                    for a in n.names:
                        names.add(a.asname or a.name.split('.')[0])
                elif isinstance(n, ast.ImportFrom):
                    for a in n.names:
                        if a.name == '*':
                            names.add('*')
                        names.add(a.asname or a.name)
                elif isinstance(n, ast.ExceptHandler) and n.name:
                    names.add(n.name)
            self.module_globals[m.name] = names

        for m in modules:
            self.module = m
            self.walk(m.tree.body, Scope(m.tree, None,
                self.module_globals[m.name], 'module'), m.short)

        from .instances import Instances
        self.instances = Instances(self)

        for m in modules:
            self.module = m
            self.instances.module(m)

        return self

    def scripts(self):
        """Command-line scripts, which consist of calls into the package."""
        out = []
        base = os.path.join(self.project.root, 'bin')
        if os.path.isdir(base):
            for name in sorted(os.listdir(base)):
                path = os.path.join(base, name)
                if not os.path.isfile(path):
                    continue
                with open(path, 'rb') as f:
                    if b'python' not in f.readline():
                        continue
                out.append(Module(self.project, 'bin/%s' % name, path))
        return out

    # names ------------------------------------------------------------------

    def walk(self, body, scope, where):
        for n in body:
            self.visit(n, scope, where)

    def visit(self, n, scope, where):
        if isinstance(n, SCOPES):
            for d in n.args.defaults + [d for d in n.args.kw_defaults
                    if d is not None]:
                self.visit(d, scope, where)
            bound, glob = bound_names(n)
            inner = Scope(n, scope, bound | set(params(n)), 'function')
            name = where
            if not isinstance(n, ast.Lambda):
                for d in n.decorator_list:
                    self.visit(d, scope, where)
                name = '%s.%s' % (where, n.name)
                self.count['functions'] += 1
                self.assignment(n, bound - set(params(n)), name)
            self.walk(n.body if isinstance(n.body, list) else [n.body], inner,
                name)
        elif isinstance(n, ast.ClassDef):
            for b in n.bases:
                self.visit(b, scope, where)
            # names of the class body are not visible in methods
            names = {x.name for x in n.body if hasattr(x, 'name')}
            for x in n.body:
                if isinstance(x, ast.Assign):
                    names.update(y.id for t in x.targets for y in ast.walk(t)
                        if isinstance(y, ast.Name))
            inner = Scope(n, scope, names, 'class')
            self.walk(n.body, inner, '%s.%s' % (where, n.name))
        elif isinstance(n, COMPS):
            inner = Scope(n, scope, comp_targets(n), 'function')
            for i, g in enumerate(n.generators):
                self.visit(g.iter, inner if i else scope, where)
                for c in g.ifs:
                    self.visit(c, inner, where)
            for field in ('elt', 'key', 'value'):
                if hasattr(n, field):
                    self.visit(getattr(n, field), inner, where)
        elif isinstance(n, ast.Attribute):
            if not self.module_attribute(n, scope, where):
                self.visit(n.value, scope, where)
        elif isinstance(n, ast.Name):
            if isinstance(n.ctx, ast.Load):
                self.count['names'] += 1
                if self.lookup(n.id, scope) is None:
                    self.report('undefined-name', where, n.id,
                        "name '%s' (%s) is not defined anywhere in scope" % (
                        n.id, self.module.where(n)))
        else:
            for c in ast.iter_child_nodes(n):
                self.visit(c, scope, where)

    def lookup(self, name, scope):
        first = True
        while scope is not None:
            if name in scope.names and (scope.kind != 'class' or first):
                return scope
            if scope.kind != 'class':
                first = False
            scope = scope.parent
        if name in BUILTINS or '*' in self.module_globals[self.module.name]:
            return 'builtin'
        return None

    def dotted(self, n, scope):
        """Dotted path of modules an attribute chain stands for."""
        chain = []
        while isinstance(n, ast.Attribute):
            chain.append(n.attr)
            n = n.value
        if not isinstance(n, ast.Name):
            return None
        chain.append(n.id)
        chain.reverse()
        owner = self.lookup(n.id, scope)
        if owner is None or owner == 'builtin':
            return None
        if owner.kind == 'module':
            base = self.module.imports.get(n.id)
            if base is None:
                # imported within a function under 'global'
                base = self.global_imports(n.id)
        else:
            base = local_import(owner.node, n.id)
        if base is None:
            return None
        return base, chain[1:]

    def global_imports(self, name):
        """Module imported within a function under 'global'."""
        table = self.late_imports.get(self.module.name)
        if table is None:
            table = self.late_imports[self.module.name] = {}
            for f in ast.walk(self.module.tree):
                if isinstance(f, ast.FunctionDef):
                    for x in bound_names(f)[1]:
                        base = local_import(f, x)
                        if base:
                            table[x] = base
        return table.get(name)

    def module_attribute(self, n, scope, where):
        """Resolve e.g. elphmod.bravais.rotate, np.linalg.norm."""
        d = self.dotted(n, scope)
        if d is None:
            return False
        base, attrs = d
        self.count['module_attributes'] += 1
        ok, bad = self.resolve_chain(base, attrs)
        if not ok:
            self.report('undefined-attribute', where, text(n), "%s (%s): '%s' "
                'does not exist' % (text(n), self.module.where(n), bad))
        return True

    def resolve_chain(self, base, attrs):
        """Resolved object (Module, Func, Class, ...) or error."""
        current = base
        for i, a in enumerate(attrs):
            owner = self.project.resolve(current)
            name = '%s.%s' % (current, a)
            if isinstance(owner, Module):
                target = self.project.member(owner, a)
                if target is None:
                    if a in self.module_globals.get(owner.name, ()):
                        return True, None
                    if a.startswith('__'):
                        return True, None
                    return False, name
                if isinstance(target, tuple):
                    if target[0] == 'ext' and target[1] in LIBS:
                        current = target[1]
                        continue
                    return True, None
                if not isinstance(target, Module):
                    if isinstance(target, Class) and i + 1 < len(attrs):
                        return True, None
                    return True, None
                current = target.name
            elif isinstance(owner, tuple) and owner[0] == 'ext':
                lib = owner[1]
                if lib in LIBS:
                    if a.startswith('__'):
                        return True, None
                    if '%s.%s' % (lib, a) in LIBS:
                        current = '%s.%s' % (lib, a)
                        continue
                    if a not in LIBS[lib]:
                        return False, '%s.%s' % (lib, a)
                return True, None
            else:
                return True, None
        return True, None

    # definite assignment ----------------------------------------------------

    def assignment(self, node, names, where):
        if not names:
            return
        flow = Flow(node, names)
        simple = flow.run(None)
        self.count['local_uses'] += flow.uses
        candidates = sorted({n for n, _ in simple})
        self.count['maybe_unassigned'] += len(candidates)
        for name in candidates:
            flow = Flow(node, {name})
            bad = flow.run(name)
            if flow.overflow:
                self.undecided.append('%s: %s' % (where, name))
                continue
            for _, (use, facts) in sorted(bad, key=lambda x: x[1][0].lineno):
                cond = ' and '.join(('%s' if v else 'not (%s)') % k
                    for k, v in sorted(facts.items())) or 'always'
                self.report('unassigned-variable', where, name, "'%s' is used "
                    'at %s on a path on which it has not been assigned (%s)'
                    % (name, self.module.where(use), shorten(cond, 300)))
                break

def local_import(node, name):
    if not hasattr(node, 'body'):
        return None
    for n in own_nodes(node):
        if isinstance(n, ast.Import):
            for a in n.names:
                if a.asname == name:
                    return a.name
                if a.asname is None and a.name.split('.')[0] == name:
                    return name
        elif isinstance(n, ast.ImportFrom) and not n.level:
            for a in n.names:
                if (a.asname or a.name) == name:
                    return '%s.%s' % (n.module, a.name)
    return None

# --- flow -------------------------------------------------------------------

NEGATED = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot,
    ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Lt: ast.GtE,
    ast.GtE: ast.Lt, ast.Gt: ast.LtE, ast.LtE: ast.Gt}

POSITIVE = (ast.Eq, ast.Is, ast.In, ast.Lt, ast.LtE)

class Facts(dict):
    """Truth values of atomic conditions."""
    def key(self):
        return frozenset(self.items())

def atom(test):
    """Canonical text and polarity of an atomic condition."""
    if isinstance(test, ast.Compare) and len(test.ops) == 1:
        op = type(test.ops[0])
        left, right = test.left, test.comparators[0]
        if op in (ast.Gt, ast.GtE):
            op = {ast.Gt: ast.Lt, ast.GtE: ast.LtE}[op]
            left, right = right, left
        if op in (ast.Eq, ast.NotEq) and isinstance(left, ast.Constant):
            left, right = right, left
        if op in POSITIVE:
            sign = True
        else:
            sign = False
            op = NEGATED[op]
        sym = {ast.Eq: '==', ast.Is: 'is', ast.In: 'in', ast.Lt: '<',
            ast.LtE: '<='}[op]
        a, b = text(left), text(right)
        if op is ast.LtE:
            # a <= b is not b < a
            return '%s < %s' % (b, a), not sign, left, right, ast.Lt
        return '%s %s %s' % (a, sym, b), sign, left, right, op
    return text(test), True, test, None, None

def constant(node):
    if isinstance(node, ast.Constant):
        return True, node.value
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub) \
            and isinstance(node.operand, ast.Constant):
        return True, -node.operand.value
    return False, None

def evaluate(facts, test):
    """Three-valued truth of an atom, given others."""
    key, sign, left, right, op = atom(test)
    if isinstance(test, ast.Constant):
        return bool(test.value)
    if key in facts:
        return facts[key] == sign
    # x == c1 holds: x == c2 does not; x is None holds: x == c, x are false
    if op in (ast.Eq, ast.Is) and right is not None:
        known, value = constant(right)
        if known:
            name = text(left)
            for k, v in facts.items():
                for sym in ' == ', ' is ':
                    if v and k.startswith(name + sym):
                        try:
                            other = ast.literal_eval(k[len(name + sym):])
                        except Exception:
                            continue
                        return (other == value) == sign
            if value is None and facts.get(name) is True:
                return not sign
    if op is None and right is None:
        # truth of x, knowing x is None or x == c
        name = key
        if facts.get('%s is None' % name) is True:
            return False
        for k, v in facts.items():
            if v and k.startswith(name + ' == '):
                try:
                    return bool(ast.literal_eval(k[len(name + ' == '):]))
                except Exception:
                    pass
        # len(x), x.size ... not modelled
    return None

def assume(facts, test, value):
    """Worlds in which test has given truth value."""
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        return assume(facts, test.operand, not value)
    if isinstance(test, ast.BoolOp):
        conj = isinstance(test.op, ast.And)
        if conj == value:
            worlds = [facts]
            for v in test.values:
                worlds = [w for f in worlds for w in assume(f, v, value)]
            return worlds
        worlds, rest = [], [facts]
        for v in test.values:
            worlds += [w for f in rest for w in assume(f, v, value)]
            rest = [w for f in rest for w in assume(f, v, not value)]
        return worlds
    if isinstance(test, ast.Compare) and len(test.ops) > 1:
        parts = []
        left = test.left
        for op, right in zip(test.ops, test.comparators):
            parts.append(ast.Compare(left, [op], [right]))
            left = right
        return assume(facts, ast.BoolOp(ast.And(), parts), value)
    if isinstance(test, ast.Compare) and isinstance(test.ops[0], (ast.In,
            ast.NotIn)) and isinstance(test.comparators[0], (ast.Tuple,
            ast.List, ast.Set)):
        alt = ast.BoolOp(ast.Or(), [ast.Compare(test.left, [ast.Eq()], [x])
            for x in test.comparators[0].elts])
        if not alt.values:
            return [] if value == isinstance(test.ops[0], ast.In) else [facts]
        return assume(facts, alt, value == isinstance(test.ops[0], ast.In))
    if isinstance(test, ast.IfExp):
        return [w for t, b in ((True, test.body), (False, test.orelse))
            for f in assume(facts, test.test, t) for w in assume(f, b, value)]
    known = evaluate(facts, test)
    if known is not None:
        return [facts] if known == value else []
    key, sign, left, right, op = atom(test)
    new = Facts(facts)
    new[key] = sign == value
    if op is None and value:
        new['%s is None' % key] = False
    return [new]

def names_in(s):
    try:
        tree = ast.parse(s, mode='eval')
    except SyntaxError:
        return set()
    return {n.id for n in ast.walk(tree) if isinstance(n, ast.Name)}

NAMES_CACHE = {}

def mentions(key, name):
    if key not in NAMES_CACHE:
        NAMES_CACHE[key] = names_in(key)
    return name in NAMES_CACHE[key]

def leaves(node):
    """Does a statement never return control (besides exceptions)?"""
    if isinstance(node, ast.Expr) and isinstance(node.value, ast.Call):
        f = node.value.func
        name = f.attr if isinstance(f, ast.Attribute) else getattr(f, 'id', '')
        if name in ('exit', '_exit', 'quit', 'abort', 'Abort'):
            return True
        if name == 'info':
            for k in node.value.keywords:
                if k.arg == 'error' and isinstance(k.value, ast.Constant) \
                        and k.value.value:
                    return True
            if len(node.value.args) > 1 and isinstance(node.value.args[1],
                    ast.Constant) and node.value.args[1].value:
                return True
    return False

def counting(n):
    """Loop over a known sequence (rather than records of a file)?"""
    if isinstance(n.iter, ast.Call):
        f = n.iter.func
        name = f.attr if isinstance(f, ast.Attribute) else getattr(f, 'id', '')
        return name in ('range', 'enumerate', 'zip', 'reversed', 'sorted',
            'list', 'keys', 'values', 'items', 'product', 'ndindex')
    return isinstance(n.iter, (ast.Tuple, ast.List, ast.Attribute))

def chain_test(test):
    """Subject and constants an if-elif branch compares it with."""
    if isinstance(test, ast.BoolOp) and isinstance(test.op, ast.Or):
        subject, values = None, []
        for v in test.values:
            s, c = chain_test(v)
            if s is None or subject not in (None, s):
                return None, ()
            subject = s
            values += c
        return subject, values
    if isinstance(test, ast.Compare) and len(test.ops) == 1:
        right = test.comparators[0]
        if isinstance(test.ops[0], ast.Eq):
            ok, value = constant(right)
            if ok:
                return text(test.left), [value]
            ok, value = constant(test.left)
            if ok:
                return text(right), [value]
        elif isinstance(test.ops[0], ast.In) and isinstance(right, (ast.Tuple,
                ast.List, ast.Set)):
            values = [constant(x) for x in right.elts]
            if all(ok for ok, _ in values):
                return text(test.left), [v for _, v in values]
    return None, ()

def exhaustive(n):
    """Last branch of a chain over the values of an option?

    Such chains are taken to cover all values of the option here; whether they
    do is decided for C16.
    """
    subject, _ = chain_test(n.test)
    p = getattr(n, 'parent', None)
    return (subject is not None and isinstance(p, ast.If) and p.orelse == [n]
        and chain_test(p.test)[0] == subject)

class Flow:
    """Worlds (sets of facts) in which each tracked name is unassigned.

    Without a name, facts are ignored (quick pass); the state is then the set
    of unassigned names. With a name, it is a list of Facts.
    """
    def __init__(self, node, names):
        self.node = node
        self.names = names
        self.uses = 0
        self.overflow = False
        self.bad = []
        self.loops = []
        self.about = None

    def relevant(self, name):
        """Names in conditions that guard assignments or uses of a name."""
        out = set()
        for n in own_nodes(self.node):
            if isinstance(n, ast.Name) and n.id == name:
                p = n
                while p is not self.node and hasattr(p, 'parent'):
                    q = p.parent
                    if isinstance(q, (ast.If, ast.While, ast.IfExp)) \
                            and p is not q.test:
                        out.update(x.id for x in ast.walk(q.test)
                            if isinstance(x, ast.Name))
                    elif isinstance(q, ast.BoolOp):
                        out.update(x.id for x in ast.walk(q)
                            if isinstance(x, ast.Name))
                    p = q
        return out

    def run(self, name):
        self.name = name
        self.about = None if name is None else self.relevant(name)
        start = frozenset(self.names) if name is None else [Facts()]
        self.block(self.node.body, start)
        return self.bad

    # states
    def dead(self):
        return None if self.name is None else []

    def alive(self, s):
        return s is not None if self.name is None else True

    def join(self, a, b):
        if self.name is None:
            if a is None:
                return b
            if b is None:
                return a
            return a | b
        out = {w.key(): w for w in a + b}
        out = list(out.values())
        # drop worlds subsumed by weaker ones, merge complementary ones
        changed = True
        while changed and len(out) > 1:
            changed = False
            for i in range(len(out)):
                for j in range(len(out)):
                    if i == j:
                        continue
                    x, y = out[i], out[j]
                    if len(x) <= len(y) and all(y.get(k) == v
                            for k, v in x.items()):
                        del out[j]
                        changed = True
                        break
                    if len(x) == len(y) and set(x) == set(y):
                        diff = [k for k in x if x[k] != y[k]]
                        if len(diff) == 1:
                            z = Facts(x)
                            del z[diff[0]]
                            out[i] = z
                            del out[j]
                            changed = True
                            break
                if changed:
                    break
        if len(out) > MAX_WORLDS:
            self.overflow = True
            out = out[:MAX_WORLDS]
        return out

    def assign(self, s, name):
        if self.name is None:
            return s if s is None else s - {name}
        if name == self.name:
            return []
        out = []
        for w in s:
            if any(mentions(k, name) for k in w):
                w = Facts({k: v for k, v in w.items()
                    if not mentions(k, name)})
            out.append(w)
        return out

    def forget(self, s, expr):
        """Facts that mention a modified attribute or element."""
        if self.name is None:
            return s
        t = text(expr)
        return [Facts({k: v for k, v in w.items() if t not in k}) for w in s]

    def unassign(self, s, name):
        if self.name is None:
            return s if s is None else s | ({name} & self.names)
        return s + [Facts()] if name == self.name else s

    def use(self, s, n):
        if self.name is None:
            if s is not None:
                self.uses += 1
                if n.id in s:
                    self.bad.append((n.id, (n, {})))
        elif n.id == self.name and s:
            self.bad.append((n.id, (n, s[0])))

    def cond(self, s, test, value):
        if self.name is None:
            if isinstance(test, ast.Constant) and bool(test.value) != value:
                return None
            return s
        if self.about is not None and not any(isinstance(x, ast.Name)
                and x.id in self.about for x in ast.walk(test)) \
                and not isinstance(test, ast.Constant):
            return s
        out = [w for f in s for w in assume(f, test, value)]
        return self.join(out, [])

    # expressions
    def expr(self, n, s):
        """Check uses in an expression, return the state after it."""
        if n is None:
            return s
        if isinstance(n, ast.Name):
            if isinstance(n.ctx, ast.Load) and n.id in self.names:
                self.use(s, n)
            return s
        if isinstance(n, ast.BoolOp):
            t = s
            for v in n.values:
                self.expr(v, t)
                t = self.cond(t, v, isinstance(n.op, ast.And))
            return s
        if isinstance(n, ast.IfExp):
            self.expr(n.test, s)
            self.expr(n.body, self.cond(s, n.test, True))
            self.expr(n.orelse, self.cond(s, n.test, False))
            return s
        if isinstance(n, ast.Lambda):
            for d in n.args.defaults:
                self.expr(d, s)
            return s
        if isinstance(n, COMPS):
            hidden = comp_targets(n)
            for i, g in enumerate(n.generators):
                self.shadowed(g.iter, s, hidden if i else set())
                for c in g.ifs:
                    self.shadowed(c, s, hidden)
            t = s
            for g in n.generators:
                for c in g.ifs:
                    t = self.cond(t, c, True)
            for field in ('key', 'value', 'elt'):
                if hasattr(n, field):
                    self.shadowed(getattr(n, field), t, hidden)
            return s
        if isinstance(n, ast.NamedExpr):
            s = self.expr(n.value, s)
            return self.assign(s, n.target.id)
        for c in ast.iter_child_nodes(n):
            s = self.expr(c, s)
        return s

    def shadowed(self, n, s, hidden):
        if hidden & self.names:
            names = self.names
            self.names = self.names - hidden
            self.expr(n, s)
            self.names = names
        else:
            self.expr(n, s)

    def target(self, t, s):
        if isinstance(t, ast.Name):
            return self.assign(s, t.id)
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                s = self.target(x, s)
            return s
        if isinstance(t, ast.Starred):
            return self.target(t.value, s)
        if isinstance(t, (ast.Attribute, ast.Subscript)):
            for c in ast.iter_child_nodes(t):
                s = self.expr(c, s)
            if isinstance(t, ast.Attribute):
                s = self.forget(s, t)
        return s

    # statements
    def block(self, body, s):
        for n in body:
            if s is None:
                return s
            s = self.stmt(n, s)
        return s

    def stmt(self, n, s):
        if isinstance(n, ast.Expr):
            s = self.expr(n.value, s)
            if leaves(n):
                return self.dead()
            return s
        if isinstance(n, ast.Assign):
            s = self.expr(n.value, s)
            for t in n.targets:
                s = self.target(t, s)
            if self.name is not None and len(n.targets) == 1 \
                    and isinstance(n.targets[0], ast.Name) \
                    and isinstance(n.value, ast.Constant) \
                    and n.targets[0].id != self.name:
                x, v = n.targets[0].id, n.value
                s = [Facts(dict(w, **{x: bool(v.value), '%s is None' % x:
                    v.value is None})) for w in s]
            return s
        if isinstance(n, ast.AnnAssign):
            s = self.expr(n.value, s)
            return self.target(n.target, s) if n.value is not None else s
        if isinstance(n, ast.AugAssign):
            s = self.expr(n.value, s)
            if isinstance(n.target, ast.Name):
                if n.target.id in self.names:
                    self.use(s, n.target)
                return self.assign(s, n.target.id)
            return self.target(n.target, s)
        if isinstance(n, ast.If):
            s = self.expr(n.test, s)
            a = self.block(n.body, self.cond(s, n.test, True))
            rest = self.cond(s, n.test, False)
            if not n.orelse and exhaustive(n):
                return a
            b = self.block(n.orelse, rest)
            return self.join(a, b)
        if isinstance(n, (ast.For, ast.AsyncFor)):
            s = self.expr(n.iter, s)
            self.loops.append([])
            t = self.target(n.target, s)
            t = self.first(n, t)
            if not counting(n):
                t = self.searched(n, t)
            end = self.block(n.body, t)
            breaks = self.loops.pop()
            # bodies run at least once, and searches find what they look for
            # if they assign anything at all
            end = self.searched(n, end)
            end = self.block(n.orelse, end)
            for b in breaks:
                end = self.join(end, b)
            return end
        if isinstance(n, ast.While):
            s = self.expr(n.test, s)
            self.loops.append([])
            end = self.block(n.body, self.searched(n, self.cond(s, n.test,
                True)))
            breaks = self.loops.pop()
            always = isinstance(n.test, ast.Constant) and n.test.value
            end = self.dead() if always else self.searched(n, end)
            end = self.block(n.orelse, end)
            for b in breaks:
                end = self.join(end, b)
            return end
        if isinstance(n, (ast.With, ast.AsyncWith)):
            for item in n.items:
                s = self.expr(item.context_expr, s)
                if item.optional_vars is not None:
                    s = self.target(item.optional_vars, s)
            return self.block(n.body, s)
        if isinstance(n, ast.Try):
            inner = s
            at = s
            for m in n.body:
                if inner is None:
                    break
                inner = self.stmt(m, inner)
                if not self.is_last_simple(m, n.body):
                    at = self.join(at, inner)
            end = self.block(n.orelse, inner)
            for h in n.handlers:
                t = at
                if h.name:
                    t = self.assign(t, h.name)
                t = self.block(h.body, t)
                if h.name:
                    t = self.unassign(t, h.name) if t is not None else t
                end = self.join(end, t)
            if n.finalbody:
                end = self.block(n.finalbody, end)
            return end
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in n.args.defaults:
                s = self.expr(d, s)
            return self.assign(s, n.name)
        if isinstance(n, ast.ClassDef):
            return self.assign(s, n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                s = self.assign(s, a.asname or a.name.split('.')[0])
            return s
        if isinstance(n, ast.Return):
            self.expr(n.value, s)
            return self.dead()
        if isinstance(n, ast.Raise):
            self.expr(n.exc, s)
            return self.dead()
        if isinstance(n, ast.Break):
            if self.loops:
                self.loops[-1].append(s)
            return self.dead()
        if isinstance(n, ast.Continue):
            return self.dead()
        if isinstance(n, ast.Delete):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    if t.id in self.names:
                        self.use(s, t)
                    s = self.unassign(s, t.id)
                else:
                    s = self.target(t, s)
            return s
        if isinstance(n, ast.Assert):
            s = self.expr(n.test, s)
            return self.cond(s, n.test, True)
        return s

    def is_last_simple(self, m, body):
        return False

    def first(self, n, t):
        """First iteration of a counting loop: the counter has its start."""
        if self.name is None or not isinstance(n.target, ast.Name) \
                or not isinstance(n.iter, ast.Call) \
                or getattr(n.iter.func, 'id', '') != 'range' \
                or n.target.id == self.name:
            return t
        start = 0
        if len(n.iter.args) > 1:
            ok, start = constant(n.iter.args[0])
            if not ok:
                return t
        x = n.target.id
        return [Facts(dict(w, **{'%s == %s' % (x, start): True, x: bool(start),
            '0 < %s' % x: start > 0})) for w in t]

    def searched(self, n, s):
        """After a loop: what its body assigns is taken to be assigned."""
        if s is None:
            return s
        assigned = set()
        for m in n.body:
            for x in ast.walk(m):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    assigned.add(x.id)
        if self.name is None:
            return s - assigned
        return [] if self.name in assigned else s
