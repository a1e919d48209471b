"""Loads the package sources and resolves names to definitions.

Nothing of the analysed package is imported or executed.
"""

import ast
import hashlib
import os

REPO = os.environ.get('VERIF_REPO', '/repo')

class AnalysisError(Exception):
    """The analysis lost its footing (exit status 2)."""

class Func:
    """Function or method definition."""
    def __init__(self, module, node, cls=None, parent=None):
        self.module = module
        self.node = node
        self.cls = cls
        self.parent = parent
        self.name = node.name if hasattr(node, 'name') else '<lambda>'

        decorators = getattr(node, 'decorator_list', [])
        names = {d.id for d in decorators if isinstance(d, ast.Name)}
        self.static = 'staticmethod' in names
        self.classmethod = 'classmethod' in names
        self.prop = 'property' in names

    @property
    def qualname(self):
        if self.parent is not None:
            return '%s.%s' % (self.parent.qualname, self.name)
        if self.cls is not None:
            return '%s.%s' % (self.cls.qualname, self.name)
        return '%s.%s' % (self.module.short, self.name)

    @property
    def args(self):
        return self.node.args

    def doc(self):
        if isinstance(self.node, ast.Lambda):
            return ''
        return ast.get_docstring(self.node) or ''

    def __repr__(self):
        return 'Func(%s)' % self.qualname

class Class:
    def __init__(self, module, node, project):
        self.module = module
        self.node = node
        self.name = node.name
        self.methods = {}
        self.attrs = {}

        for item in node.body:
            if isinstance(item, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.methods[item.name] = Func(module, item, cls=self)
            elif isinstance(item, ast.Assign):
                for t in item.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = item.value

    @property
    def qualname(self):
        return '%s.%s' % (self.module.short, self.name)

    def doc(self):
        return ast.get_docstring(self.node) or ''

    def __repr__(self):
        return 'Class(%s)' % self.qualname

class Module:
    def __init__(self, project, name, path):
        self.project = project
        self.name = name
        self.path = path
        self.short = name[len('elphmod.'):] if name.startswith('elphmod.') \
            else name

        with open(path, encoding='utf-8') as f:
            self.source = f.read()

        self.digest = hashlib.sha256(self.source.encode()).hexdigest()

        try:
            self.tree = ast.parse(self.source, path)
        except SyntaxError as e:
            raise AnalysisError('%s does not parse: %s' % (path, e))

        for node in ast.walk(self.tree):
            for child in ast.iter_child_nodes(node):
                child.parent = node

        self.functions = {}
        self.classes = {}
        self.imports = {}  # local name -> dotted name
        self.globals = {}  # name -> list of assigned expression nodes

        self.collect(self.tree.body)

    def collect(self, body):
        for node in body:
            if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.functions[node.name] = Func(self, node)

            elif isinstance(node, ast.ClassDef):
                self.classes.setdefault(node.name,
                    Class(self, node, self.project))

            elif isinstance(node, ast.Import):
                for a in node.names:
                    if a.asname:
                        self.imports[a.asname] = a.name
                    else:
                        root = a.name.split('.')[0]
                        self.imports[root] = root

            elif isinstance(node, ast.ImportFrom):
                base = node.module or ''
                if node.level:
                    package = self.name.split('.')
                    if not self.path.endswith('__init__.py'):
                        package = package[:-1]
                    package = package[:len(package) - node.level + 1]
                    base = '.'.join(package + ([base] if base else []))
                for a in node.names:
                    self.imports[a.asname or a.name] = '%s.%s' % (base, a.name)

            elif isinstance(node, (ast.Assign, ast.AnnAssign)):
                targets = node.targets if isinstance(node, ast.Assign) \
                    else [node.target]
                for t in targets:
                    if isinstance(t, (ast.Tuple, ast.List)) \
                            and isinstance(node.value, (ast.Tuple, ast.List)) \
                            and len(t.elts) == len(node.value.elts):
                        for x, v in zip(t.elts, node.value.elts):
                            if isinstance(x, ast.Name):
                                self.globals.setdefault(x.id, []).append(v)
                    else:
                        for x in ast.walk(t):
                            if isinstance(x, ast.Name) \
                                    and isinstance(x.ctx, ast.Store):
                                self.globals.setdefault(x.id, []).append(
                                    node.value)

            elif isinstance(node, ast.AugAssign):
                if isinstance(node.target, ast.Name):
                    self.globals.setdefault(node.target.id, []).append(node)

            elif isinstance(node, ast.For):
                for x in ast.walk(node.target):
                    if isinstance(x, ast.Name):
                        self.globals.setdefault(x.id, []).append(node.iter)
                self.collect(node.body)
                self.collect(node.orelse)

            elif isinstance(node, (ast.If, ast.While)):
                self.collect(node.body)
                self.collect(node.orelse)

            elif isinstance(node, ast.With):
                for item in node.items:
                    if item.optional_vars is not None:
                        for x in ast.walk(item.optional_vars):
                            if isinstance(x, ast.Name):
                                self.globals.setdefault(x.id, []).append(
                                    item.context_expr)
                self.collect(node.body)

            elif isinstance(node, ast.Try):
                self.collect(node.body)
                for h in node.handlers:
                    self.collect(h.body)
                self.collect(node.orelse)
                self.collect(node.finalbody)

    def where(self, node):
        return '%s:%d' % (os.path.relpath(self.path, self.project.root),
            getattr(node, 'lineno', 0))

class Project:
    def __init__(self, root=None):
        self.root = root or REPO
        self.modules = {}

        base = os.path.join(self.root, 'elphmod')

        if not os.path.isdir(base):
            raise AnalysisError('package directory %s not found' % base)

        for dirpath, dirnames, filenames in os.walk(base):
            dirnames[:] = sorted(d for d in dirnames
                if not d.startswith(('.', '__pycache__')))
            for filename in sorted(filenames):
                if not filename.endswith('.py'):
                    continue
                path = os.path.join(dirpath, filename)
                rel = os.path.relpath(path, self.root)[:-3].split(os.sep)
                if rel[-1] == '__init__':
                    rel.pop()
                name = '.'.join(rel)
                self.modules[name] = Module(self, name, path)

        for name in ('elphmod', 'elphmod.MPI'):
            if name not in self.modules:
                raise AnalysisError('module %s not found' % name)

    def module(self, short):
        name = 'elphmod.%s' % short
        if name not in self.modules:
            raise AnalysisError('module %s not found' % name)
        return self.modules[name]

    def function(self, qualname):
        """Look up 'module.function' or 'module.Class.method'."""
        for depth in (1, 2):
            parts = qualname.split('.')
            name = 'elphmod.' + '.'.join(parts[:depth])
            rest = parts[depth:]
            if name in self.modules:
                m = self.modules[name]
                if len(rest) == 1 and rest[0] in m.functions:
                    return m.functions[rest[0]]
                if len(rest) == 2 and rest[0] in m.classes \
                        and rest[1] in m.classes[rest[0]].methods:
                    return m.classes[rest[0]].methods[rest[1]]
        return None

    def all_functions(self):
        """All module-level functions and methods."""
        for m in self.modules.values():
            for f in m.functions.values():
                yield f
            for c in m.classes.values():
                for f in c.methods.values():
                    yield f

    def resolve(self, dotted, depth=0):
        """Resolve a dotted name to Module/Func/Class/('global', ...)/ext."""
        if depth > 10:
            return ('ext', dotted)

        if dotted in self.modules:
            return self.modules[dotted]

        if '.' in dotted:
            base, attr = dotted.rsplit('.', 1)
            owner = self.resolve(base, depth + 1)

            if isinstance(owner, Module):
                return self.member(owner, attr, depth + 1)

        return ('ext', dotted)

    def member(self, module, attr, depth=0):
        if attr in module.functions:
            return module.functions[attr]
        if attr in module.classes:
            return module.classes[attr]
        sub = '%s.%s' % (module.name, attr)
        if attr in module.globals:
            return ('global', module, attr)
        if attr in module.imports:
            return self.resolve(module.imports[attr], depth + 1)
        if sub in self.modules:
            return self.modules[sub]
        return None
