"""Types of instances, attributes of instances, and call signatures (C11)."""

import ast
import re

from .project import Module, Func, Class

from . import names as N

UNKNOWN = 'unknown'
NONE = 'none'

class Instances:
    """Flow-insensitive type inference, restricted to classes of the package.

    A type is UNKNOWN, NONE, a Class (standing for an instance), or a tuple of
    sets of types.
    """
    def __init__(self, names):
        self.names = names
        self.project = names.project
        self.module_types = {}
        self.env_cache = {}
        self.return_cache = {}
        self.attr_cache = {}
        self.active = set()
        self.external = {}  # attributes set on instances from outside
        self.collect_external()

    # resolution -------------------------------------------------------------

    def resolve(self, module, func, expr):
        """Module, Func, Class, ('ext', dotted) or None for an expression."""
        chain = []
        n = expr
        while isinstance(n, ast.Attribute):
            chain.append(n.attr)
            n = n.value
        if not isinstance(n, ast.Name):
            return None
        chain.reverse()
        name = n.id
        f = func
        while f is not None:
            if name in N.params(f.node):
                return None
            bound, glob = self.bound(f.node)
            if name in bound:
                imported = N.local_import(f.node, name)
                if imported:
                    return self.project_chain(imported, chain)
                inner = self.nested(f, name)
                if inner is not None and not chain:
                    return inner
                return None
            f = f.parent
        if name in module.functions or name in module.classes \
                or name in module.globals:
            if len(module.globals.get(name, ())):
                return None
            target = self.project.member(module, name)
            return self.member_chain(target, chain)
        if name in module.imports:
            return self.project_chain(module.imports[name], chain)
        imported = None
        self.names.module = module
        imported = self.names.global_imports(name)
        if imported:
            return self.project_chain(imported, chain)
        return None

    def bound(self, node):
        key = ('bound', id(node))
        if key not in self.env_cache:
            self.env_cache[key] = N.bound_names(node)
        return self.env_cache[key]

    def nested(self, f, name):
        """A nested function that is the only binding of a name."""
        found = None
        count = 0
        for n in N.own_nodes(f.node):
            if isinstance(n, ast.FunctionDef) and n.name == name:
                found = n
                count += 1
            elif isinstance(n, ast.Name) and n.id == name \
                    and isinstance(n.ctx, ast.Store):
                count += 1
        if count == 1 and found is not None:
            return Func(f.module, found, parent=f)
        return None

    def project_chain(self, dotted, chain):
        target = self.project.resolve(dotted)
        if isinstance(target, tuple) and target[0] == 'ext':
            return ('ext', '.'.join([target[1]] + chain))
        return self.member_chain(target, chain)

    def member_chain(self, target, chain):
        for i, a in enumerate(chain):
            if isinstance(target, Module):
                target = self.project.member(target, a)
            elif isinstance(target, Class):
                target = target.methods.get(a)
            elif isinstance(target, tuple) and target[0] == 'ext':
                return ('ext', '.'.join([target[1]] + chain[i:]))
            else:
                return None
        if isinstance(target, tuple) and target[0] != 'ext':
            return None
        return target

    # types ------------------------------------------------------------------

    def param_types(self, func):
        out = {}
        doc = func.doc()
        if func.cls is not None and func.name == '__init__':
            doc = func.cls.doc() + '\n' + doc
        for m in re.finditer(r'^\s*(\w+(?:, \w+)*) : .*?:class:`\.?([\w.]+)`',
                doc, re.M):
            dotted = m.group(2)
            cls = None
            if '.' not in dotted:
                cls = func.module.classes.get(dotted)
            else:
                target = self.project.resolve(dotted if dotted.startswith(
                    'elphmod') else 'elphmod.' + dotted)
                if isinstance(target, Class):
                    cls = target
            if cls is not None:
                for name in m.group(1).split(', '):
                    out[name] = {cls}
        args = func.args.posonlyargs + func.args.args
        if func.cls is not None and args and not func.static \
                and func.parent is None:
            out[args[0].arg] = {UNKNOWN} if func.classmethod else {func.cls}
        return out

    def env(self, func):
        """Types of all names bound in a function."""
        key = ('env', id(func.node))
        if key in self.env_cache:
            return self.env_cache[key]
        self.env_cache[key] = env = {}
        types = self.param_types(func)
        for p in N.params(func.node):
            env[p] = set(types.get(p, {UNKNOWN}))
        for _ in range(2):
            new = {p: set(env[p]) for p in N.params(func.node)}
            for n in N.own_nodes(func.node):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        self.bind(func, t, n.value, new)
                elif isinstance(n, ast.AnnAssign) and n.value is not None:
                    self.bind(func, n.target, n.value, new)
                elif isinstance(n, (ast.For, ast.AsyncFor)):
                    self.bind_unknown(n.target, new)
                elif isinstance(n, (ast.With, ast.AsyncWith)):
                    for item in n.items:
                        if item.optional_vars is not None:
                            self.bind_unknown(item.optional_vars, new)
                elif isinstance(n, ast.AugAssign):
                    pass
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    new.setdefault(n.name, set()).add(UNKNOWN)
                elif isinstance(n, (ast.Import, ast.ImportFrom)):
                    for a in n.names:
                        new.setdefault(a.asname or a.name.split('.')[0],
                            set()).add(UNKNOWN)
                elif isinstance(n, ast.ExceptHandler) and n.name:
                    new.setdefault(n.name, set()).add(UNKNOWN)
                elif isinstance(n, ast.NamedExpr):
                    new.setdefault(n.target.id, set()).add(UNKNOWN)
            env.clear()
            env.update(new)
        return env

    def bind_unknown(self, t, env):
        for x in ast.walk(t):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                env.setdefault(x.id, set()).add(UNKNOWN)

    def bind(self, func, t, value, env):
        if isinstance(t, ast.Name):
            env.setdefault(t.id, set()).update(self.types(func, value))
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(value, (ast.Tuple, ast.List)) \
                    and len(value.elts) == len(t.elts):
                for x, v in zip(t.elts, value.elts):
                    self.bind(func, x, v, env)
                return
            types = self.types(func, value)
            if len(types) == 1:
                ty = next(iter(types))
                if isinstance(ty, tuple) and len(ty) == len(t.elts):
                    for x, s in zip(t.elts, ty):
                        if isinstance(x, ast.Name):
                            env.setdefault(x.id, set()).update(s)
                        else:
                            self.bind_unknown(x, env)
                    return
            self.bind_unknown(t, env)

    def types(self, func, e):
        """Set of types of an expression in the body of a function."""
        if isinstance(e, ast.Name):
            f = func
            while f is not None:
                env = self.env(f)
                if e.id in env:
                    return env[e.id] or {UNKNOWN}
                f = f.parent
            return {UNKNOWN}
        if isinstance(e, ast.Constant):
            return {NONE} if e.value is None else {UNKNOWN}
        if isinstance(e, ast.IfExp):
            return self.types(func, e.body) | self.types(func, e.orelse)
        if isinstance(e, ast.Tuple):
            return {tuple(frozenset(self.types(func, x)) for x in e.elts)}
        if isinstance(e, ast.Attribute):
            out = set()
            for ty in self.types(func, e.value):
                if isinstance(ty, Class):
                    out |= self.attribute_types(ty, e.attr)
                elif ty != NONE:
                    out.add(UNKNOWN)
            return out or {UNKNOWN}
        if isinstance(e, ast.Call):
            target = self.resolve(func.module, func, e.func)
            if isinstance(target, Class):
                return {target}
            if isinstance(target, Func):
                return self.returns(target)
            if isinstance(target, tuple) and target[0] == 'ext' \
                    and target[1] in ('copy.copy', 'copy.deepcopy') and e.args:
                return self.types(func, e.args[0])
            if isinstance(e.func, ast.Attribute):
                out = set()
                for ty in self.types(func, e.func.value):
                    if isinstance(ty, Class) and e.func.attr in ty.methods:
                        out |= self.returns(ty.methods[e.func.attr])
                    else:
                        out.add(UNKNOWN)
                return out or {UNKNOWN}
            return {UNKNOWN}
        return {UNKNOWN}

    def attribute_types(self, cls, attr):
        key = (cls.qualname, attr)
        if key in self.attr_cache:
            return self.attr_cache[key]
        self.attr_cache[key] = {UNKNOWN}
        out = set()
        for f in cls.methods.values():
            if f.prop and f.name == attr:
                out |= {UNKNOWN}
            me = self.self_name(f)
            for n in N.own_nodes(f.node):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        out |= self.attr_bind(f, me, attr, t, n.value)
        if attr in self.external.get(cls.qualname, {}) or attr in cls.attrs:
            out.add(UNKNOWN)
        self.attr_cache[key] = out or {UNKNOWN}
        return self.attr_cache[key]

    def attr_bind(self, f, me, attr, t, value):
        if isinstance(t, ast.Attribute) and t.attr == attr \
                and isinstance(t.value, ast.Name) and t.value.id == me:
            return self.types(f, value)
        if isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Attribute) and x.attr == attr \
                        and isinstance(x.value, ast.Name) \
                        and x.value.id == me:
                    return {UNKNOWN}
        return set()

    def self_name(self, f):
        args = f.args.posonlyargs + f.args.args
        return args[0].arg if args and not f.static else None

    def returns(self, func):
        key = id(func.node)
        if key in self.return_cache:
            return self.return_cache[key]
        self.return_cache[key] = {UNKNOWN}
        out = set()
        for n in N.own_nodes(func.node):
            if isinstance(n, ast.Return):
                if n.value is None:
                    out.add(NONE)
                else:
                    out |= self.types(func, n.value)
            elif isinstance(n, (ast.Yield, ast.YieldFrom)):
                out.add(UNKNOWN)
        self.return_cache[key] = out or {NONE}
        return self.return_cache[key]

    # attributes -------------------------------------------------------------

    def functions(self, module):
        """All functions incl. nested ones."""
        todo = list(module.functions.values())
        for c in module.classes.values():
            todo += c.methods.values()
        while todo:
            f = todo.pop()
            yield f
            for n in N.own_nodes(f.node):
                if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                    todo.append(Func(module, n, parent=f))

    def collect_external(self):
        for m in self.project.modules.values():
            for f in self.functions(m):
                for n in N.own_nodes(f.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx,
                            ast.Store) and isinstance(n.value, ast.Name):
                        for ty in self.types(f, n.value):
                            if isinstance(ty, Class):
                                self.external.setdefault(ty.qualname,
                                    {}).setdefault(n.attr, []).append(n)
        self.env_cache = {k: v for k, v in self.env_cache.items()
            if k[0] == 'bound'}
        self.return_cache.clear()
        self.attr_cache.clear()

    def members(self, cls):
        """All attributes an instance can have (None: unknown)."""
        key = ('members', cls.qualname)
        if key in self.attr_cache:
            return self.attr_cache[key]
        out = set(cls.methods) | set(cls.attrs)
        for n in cls.node.body:
            for x in ast.walk(n):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) \
                        and not isinstance(n, ast.FunctionDef):
                    out.add(x.id)
        for b in cls.node.bases:
            if isinstance(b, ast.Name) and b.id == 'object':
                continue
            target = self.resolve(cls.module, None, b)
            if isinstance(target, Class):
                more = self.members(target)
                if more is None:
                    out = None
                    break
                out |= more
            elif isinstance(target, tuple) and target[1] == 'numpy.ndarray':
                out |= set(N.LIBS['<ndarray>'])
            else:
                out = None
                break
        if out is not None:
            out |= set(self.external.get(cls.qualname, {}))
        self.attr_cache[key] = out
        return out

    # checks -----------------------------------------------------------------

    def module(self, m):
        for f in self.functions(m):
            self.function(m, f)
        for n in N.own_nodes(m.tree):
            if isinstance(n, ast.Call):
                self.call(m, None, n)

    def function(self, m, f):
        where = f.qualname
        for n in N.own_nodes(f.node):
            self.node(m, f, n, where)
        # comprehensions are walked with the environment of the function;
        # their own names are unknown
        stack = [n for n in N.own_nodes(f.node) if isinstance(n, N.COMPS)]
        for n in stack:
            hidden = N.comp_targets(n)
            for x in ast.walk(n):
                if isinstance(x, ast.Name) and x.id in hidden:
                    break
            for x in ast.walk(n):
                if isinstance(x, (ast.Call, ast.Attribute)):
                    base = x
                    while isinstance(base, (ast.Attribute, ast.Call)):
                        base = base.value if isinstance(base, ast.Attribute) \
                            else base.func
                    if isinstance(base, ast.Name) and base.id in hidden:
                        continue
                    self.node(m, f, x, where)

    def node(self, m, f, n, where):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            self.attribute(m, f, n, where)
        elif isinstance(n, ast.Call):
            self.call(m, f, n)
        elif isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, (ast.Tuple, ast.List)):
                    self.unpack(m, f, t, n.value, where)

    def attribute(self, m, f, n, where):
        if self.resolve(m, f, n) is not None:
            return
        types = self.types(f, n.value)
        if UNKNOWN in types:
            return
        guarded = self.guarded(n)
        for ty in types:
            if isinstance(ty, Class):
                members = self.members(ty)
                if members is None:
                    continue
                self.names.count['instance_attributes'] += 1
                if n.attr not in members and not n.attr.startswith('__') \
                        and not guarded:
                    self.names.report('unknown-attribute', where, N.text(n),
                        "%s (%s): instances of %s never have an attribute '%s'"
                        % (N.text(n), m.where(n), ty.qualname, n.attr))

    def guarded(self, n):
        """Access within try ... except AttributeError or after hasattr."""
        p = n
        while hasattr(p, 'parent'):
            q = p.parent
            if isinstance(q, ast.Try) and p in q.body:
                for h in q.handlers:
                    if h.type is None or 'AttributeError' in N.text(h.type) \
                            or N.text(h.type) == 'Exception':
                        return True
            if isinstance(q, (ast.If, ast.IfExp)) and 'hasattr' in N.text(
                    q.test):
                return True
            p = q
        return False

    # calls

    def call(self, m, f, n):
        target = self.resolve(m, f, n.func)
        where = f.qualname if f is not None else m.short
        if isinstance(target, Class):
            init = target.methods.get('__init__') \
                or target.methods.get('__new__')
            if init is None or target.node.bases and '__init__' not in \
                    target.methods and '__new__' not in target.methods:
                return
            self.fits(m, n, self.signature(init, True), where,
                target.qualname)
            self.names.count['calls'] += 1
        elif isinstance(target, Func):
            bound = False
            if target.cls is not None and target.parent is None:
                bound = target.classmethod
            self.fits(m, n, self.signature(target, bound), where,
                target.qualname)
            self.names.count['calls'] += 1
        elif isinstance(target, tuple) and target[0] == 'ext':
            dotted = target[1]
            base, _, attr = dotted.rpartition('.')
            spec = N.LIBS.get(base, {}).get(attr)
            if isinstance(spec, dict):
                self.names.count['library_calls'] += 1
                self.fits(m, n, spec, where, dotted)
        elif isinstance(n.func, ast.Attribute) and f is not None:
            types = self.types(f, n.func.value)
            if UNKNOWN in types:
                return
            for ty in types:
                if isinstance(ty, Class) and n.func.attr in ty.methods:
                    method = ty.methods[n.func.attr]
                    if method.prop:
                        continue
                    if n.func.attr in self.assigned(ty):
                        continue
                    self.names.count['calls'] += 1
                    self.fits(m, n, self.signature(method, not method.static),
                        where, method.qualname)

    def assigned(self, cls):
        """Methods that are replaced by an instance attribute."""
        key = ('assigned', cls.qualname)
        if key not in self.attr_cache:
            out = set(self.external.get(cls.qualname, {}))
            for f in cls.methods.values():
                me = self.self_name(f)
                for n in N.own_nodes(f.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx,
                            ast.Store) and isinstance(n.value, ast.Name) \
                            and n.value.id == me:
                        out.add(n.attr)
            self.attr_cache[key] = out
        return self.attr_cache[key]

    def signature(self, f, bound):
        a = f.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        req = pos[:len(pos) - len(a.defaults)]
        if bound and pos:
            req = [x for x in req if x != pos[0]]
            pos = pos[1:]
        kw = [x.arg for x in a.kwonlyargs]
        req = req + [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults)
            if d is None]
        return dict(pos=pos, kw=kw, req=req, var=a.vararg is not None,
            varkw=a.kwarg is not None, posonly=[x.arg for x in a.posonlyargs])

    def fits(self, m, n, sig, where, name):
        starred = any(isinstance(a, ast.Starred) for a in n.args)
        npos = sum(not isinstance(a, ast.Starred) for a in n.args)
        double = any(k.arg is None for k in n.keywords)
        construct = '%s(...)' % N.text(n.func)
        problem = None

        given = set(sig['pos'][:npos]) if not starred else set()

        if npos > len(sig['pos']) and not sig['var']:
            problem = 'takes at most %d positional arguments, %d given' % (
                len(sig['pos']), npos)

        for k in n.keywords:
            if k.arg is None:
                continue
            known = k.arg in sig['pos'] and k.arg not in sig['posonly'] \
                or k.arg in sig['kw']
            if not known and not sig['varkw']:
                problem = "has no parameter '%s'" % k.arg
            elif k.arg in given and known and k.arg in sig['pos']:
                problem = "gets '%s' twice" % k.arg
            given.add(k.arg)

        if not problem and not starred and not double:
            missing = [r for r in sig['req'] if r not in given]
            if missing:
                problem = "lacks argument '%s'" % missing[0]

        if problem:
            self.names.report('call-signature', where, construct, '%s (%s): %s '
                '%s' % (construct, m.where(n), name, problem))

    # unpacking

    def unpack(self, m, f, t, value, where):
        if not isinstance(value, ast.Call) or any(isinstance(x, ast.Starred)
                for x in t.elts):
            return
        target = self.resolve(m, f, value.func)
        bound = False
        if target is None and isinstance(value.func, ast.Attribute):
            types = self.types(f, value.func.value)
            if len(types) == 1:
                ty = next(iter(types))
                if isinstance(ty, Class):
                    target = ty.methods.get(value.func.attr)
                    bound = target is not None and not target.static
        if not isinstance(target, Func):
            return
        arities = self.arities(target, value, bound)
        if not arities or None in arities:
            return
        self.names.count['unpackings'] += 1
        if len(t.elts) not in arities:
            self.names.report('unpack-mismatch', where, N.text(t), '%s (%s) '
                'unpacks %d values, but %s returns %s here' % (N.text(t),
                m.where(t), len(t.elts), target.qualname, ' or '.join(map(str,
                sorted(arities)))))

    def arities(self, func, call, bound):
        """Possible numbers of returned values (None: unknown)."""
        facts = self.call_facts(func, call, bound)
        if facts is None:
            return {None}
        flow = Returns(func.node)
        out = set()
        for r in flow.collect(facts):
            v = r.value
            if isinstance(v, ast.Tuple) and not any(isinstance(x, ast.Starred)
                    for x in v.elts):
                out.add(len(v.elts))
            elif v is None or isinstance(v, ast.Constant) and v.value is None:
                continue
            else:
                out.add(None)
        return out

    def call_facts(self, func, call, bound):
        """Truth values of parameters with constant (default) arguments."""
        a = func.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        values = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
        values.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults)
            if d is not None})
        if bound:
            pos = pos[1:]
        if any(isinstance(x, ast.Starred) for x in call.args) \
                or any(k.arg is None for k in call.keywords):
            return None
        for p, x in zip(pos, call.args):
            values[p] = x
        for k in call.keywords:
            values[k.arg] = k.value
        facts = N.Facts()
        for p, x in values.items():
            ok, v = N.constant(x)
            if ok:
                facts[p] = bool(v)
                facts['%s is None' % p] = v is None
                if v is not None:
                    facts['%s == %s' % (p, repr(v))] = True
        return facts

class Returns(N.Flow):
    """Return statements that are reachable under given facts."""
    def __init__(self, node):
        N.Flow.__init__(self, node, set())

    def collect(self, facts):
        self.name = '\0'
        self.found = []
        self.block(self.node.body, [facts])
        return self.found

    def loop_facts(self, n, s):
        names = {x.id for x in ast.walk(n) if isinstance(x, ast.Name)
            and isinstance(x.ctx, ast.Store)}
        return [N.Facts({k: v for k, v in w.items()
            if not any(N.mentions(k, x) for x in names)}) for w in s]

    def first(self, n, t):
        return t

    def stmt(self, n, s):
        if not s:
            return s
        if isinstance(n, ast.Return):
            self.found.append(n)
            return []
        if isinstance(n, (ast.For, ast.While)):
            s = self.loop_facts(n, s)
            return self.join(s, N.Flow.stmt(self, n, s))
        return N.Flow.stmt(self, n, s)
