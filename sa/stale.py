"""Cached and derived quantities follow the data they stem from (C09).

Three kinds of obligations are read off the source:

* keyed caches: a routine recomputes an attribute only if a stored key differs
  from the requested one. Whatever else the recomputation depends on must not
  change without the key being discarded.
* prepared tables: attributes assigned only by a routine that computes them from
  other attributes. Whenever one of these inputs changes, the routine must be
  called afterwards.
* accompanying attributes: attributes assigned together with lattice vectors, or
  computed from lattice vectors in several places. Whenever the lattice vectors
  are replaced, the others must be replaced, too.
"""

import ast
import os

from .objects import Models, Obj, State, Tracker, Value, callee

HERE = os.path.dirname(os.path.abspath(__file__))

def public():
    with open(os.path.join(HERE, 'api.txt')) as f:
        return {l.strip() for l in f if l.strip() and not l.startswith('#')}

def selfattr(n, names=('self',)):
    return n.attr if isinstance(n, ast.Attribute) and isinstance(n.value,
        ast.Name) and n.value.id in names else None

class Cache:
    """Recomputed if key differs."""
    def __init__(self, kind, key, func, node):
        self.kind, self.key, self.func, self.node = kind, key, func, node
        self.inputs = set() # (path of objects, attribute), e.g., (('ph',), 'Z')
        self.outputs = set()

class Tables:
    """Prepared by a method of the model."""
    def __init__(self, kind, func):
        self.kind, self.func = kind, func
        self.derived = set()
        self.inputs = set()
        self.flags = set()
        self.users = {} # (kind, method) -> steps to model with tables

class Reads(Tracker):
    """Attributes a routine (or part of it) reads and writes."""
    def __init__(self, models, func, selfkind, only=None):
        super().__init__(models, func, selfkind)
        self.only = only
        self.got = {}
        self.put = {}
        self.filled = {} # attributes first written in place
        self.params = {} # parameters that matter
        self.active = only is None

    def start(self, st):
        self.me = st.env.get('self')

    def path(self, obj):
        out = []
        while obj is not None and obj is not self.me:
            out.append(obj.kind)
            obj = obj.parent
        return tuple(out[::-1]) if obj is not None else None

    def statement(self, n, st):
        if n is self.only:
            self.active = True
            self.body(n.body, st)
            self.active = False
            return
        super().statement(n, st)

    def expr(self, e, st):
        if self.active and not self.stack and isinstance(e, ast.Name):
            v = st.env.get(e.id)
            if isinstance(v, Value):
                for o, a in v.src:
                    if o == 'param':
                        self.params.setdefault(a, e)
        super().expr(e, st)

    def read(self, obj, attr, node, st):
        p = self.path(obj)
        if self.active and p is not None:
            self.got.setdefault((p, attr), node)

    def write(self, obj, attr, node, value, st, inplace=False):
        p = self.path(obj)
        if self.active and p is not None:
            if inplace and (p, attr) not in self.put:
                self.filled[p, attr] = node
            self.put.setdefault((p, attr), node)

class World:
    """What is known along one way through the program."""
    def __init__(self):
        self.assume = {}    # test text -> outcome
        self.none = set()   # (object, key) known to be discarded
        self.dirty = {}     # (cache, object) -> (attribute, node)
        self.ready = set()  # (tables, object) prepared here
        self.used = {}      # (tables, object) -> node of use before preparation
        self.late = {}      # (tables, object) -> (attribute, node)
        self.off = set()    # (object, flag) known to be false
        self.link = {}      # (object, flag) -> (object, flag) with same value
        self.set = {}       # (object, attribute) -> node of replacement
        self.since = {}     # (object, attribute) -> attributes written since

    def copy(self):
        w = World()
        w.assume = dict(self.assume)
        w.none = set(self.none)
        w.dirty = dict(self.dirty)
        w.ready = set(self.ready)
        w.used = dict(self.used)
        w.late = dict(self.late)
        w.off = set(self.off)
        w.link = dict(self.link)
        w.set = dict(self.set)
        w.since = {k: set(v) for k, v in self.since.items()}
        return w

    def isoff(self, obj, flag):
        seen, todo = set(), [(obj, flag)]
        while todo:
            k = todo.pop()
            if k in seen:
                continue
            seen.add(k)
            if k in self.off:
                return True
            todo += [b for a, b in self.link.items() if a == k]
            todo += [a for a, b in self.link.items() if b == k]
        return False

    def key(self, assume=True):
        return (tuple(sorted(self.assume.items())) if assume else (),
            frozenset(self.none), frozenset((k, v[0]) for k, v in
            self.dirty.items()), frozenset((k, v[0]) for k, v in
            self.late.items()), frozenset(self.off), frozenset(self.set),
            frozenset(self.ready), frozenset(self.used),
            frozenset((k, frozenset(v)) for k, v in self.since.items()))

class Follow(Tracker):
    """Checks the obligations along all ways through one routine."""
    LIMIT = 200

    def __init__(self, rules, func, selfkind):
        super().__init__(rules.models, func, selfkind)
        self.rules = rules
        self.found = {}
        self.writes = 0

    # --- worlds

    def start(self, st):
        w = World()
        st.facts = {'w': [w]}
        me = st.env.get('self')
        if isinstance(me, Obj) and self.func.name == '__init__':
            me.new = True

    def joinfacts(self, a, b):
        seen, out = set(), []
        for w in a['w'] + b['w']:
            k = w.key()
            if k not in seen:
                seen.add(k)
                out.append(w)
        if len(out) > self.LIMIT:
            seen, less = set(), []
            for w in out:
                k = w.key(False)
                if k not in seen:
                    seen.add(k)
                    w.assume = {}
                    less.append(w)
            out = less[:self.LIMIT]
        return {'w': out}

    def refine(self, test, side, st):
        parts = [(test, side)]
        if side and isinstance(test, ast.BoolOp) and isinstance(test.op,
                ast.And):
            parts = [(t, True) for t in test.values]
        if not side and isinstance(test, ast.BoolOp) and isinstance(test.op,
                ast.Or):
            parts = [(t, False) for t in test.values]
        for t, s in parts:
            while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
                t, s = t.operand, not s
            env = st.env
            hops = 0
            while isinstance(t, ast.Name) and hops < 5:
                v = env.get(t.id)
                if not isinstance(v, Value) or v.node is None:
                    break
                t, env = v.node, v.env or {}
                hops += 1
            if isinstance(t, ast.Attribute) and not s:
                o = self.object(t.value, State(env))
                if o is not None:
                    for w in st.facts['w']:
                        w.off.add((o, t.attr))
            text = '%d:%s' % (len(self.stack), ast.unparse(t))
            if any(isinstance(x, ast.Call) for x in ast.walk(t)):
                continue
            keep = []
            for w in st.facts['w']:
                if w.assume.get(text, s) == s:
                    w.assume[text] = s
                    keep.append(w)
            st.facts['w'] = keep
        if not st.facts['w']:
            st.dead = True

    def target(self, t, value, st, node, whole=True):
        if isinstance(t, ast.Name):
            for w in st.facts['w']:
                for k in list(w.assume):
                    if t.id in k:
                        del w.assume[k]
        super().target(t, value, st, node, whole)

    # --- events

    def created(self, obj, node, st):
        kind = obj.kind
        for c in self.rules.caches:
            if c.kind == kind and c.key in self.rules.nulled[kind]:
                for w in st.facts['w']:
                    w.none.add((obj, c.key))

    def owners(self, obj, steps):
        """Objects that reach the given one by the given steps."""
        o = obj
        for s in reversed(steps):
            if o is None or o.kind != s:
                return None
            o = o.parent
        return o

    def called(self, obj, method, node, st):
        for c in self.rules.caches:
            if c.kind == obj.kind and method in c.users:
                for w in st.facts['w']:
                    w.none.discard((obj, c.key))
        for t in self.rules.tables:
            if t.kind == obj.kind and method == t.func.name:
                for w in st.facts['w']:
                    w.late.pop((t, obj), None)
                    w.ready.add((t, obj))
            else:
                self.uses(t, obj, method, node, st)

    def read(self, obj, attr, node, st):
        # reference to a method that fills the cache
        for c in self.rules.caches:
            if c.kind == obj.kind and attr in c.users:
                for w in st.facts['w']:
                    w.none.discard((obj, c.key))
        for t in self.rules.tables:
            if t.kind == obj.kind and attr in t.derived and not self.inside(t):
                for w in st.facts['w']:
                    if (t, obj) not in w.ready:
                        w.used.setdefault((t, obj), node)
            else:
                self.uses(t, obj, attr, node, st)

    def uses(self, t, obj, method, node, st):
        steps = t.users.get((obj.kind, method))
        if steps is None or self.inside(t):
            return
        o = obj
        for s in steps:
            o = o.child(s)
        for w in st.facts['w']:
            if (t, o) not in w.ready:
                w.used.setdefault((t, o), node)

    def inside(self, t):
        return any(s[0] is t.func.node for s in self.stack)

    def isnone(self, value, st):
        if isinstance(value, ast.Constant):
            return value.value is None
        if value is not None and not self.sources(value, st) and any(
                isinstance(x, (ast.Attribute, ast.Name)) and (x.attr
                if isinstance(x, ast.Attribute) else x.id) in ('nan', 'inf')
                for x in ast.walk(value)):
            return True
        if isinstance(value, ast.Name):
            v = st.env.get(value.id)
            return isinstance(v, Value) and isinstance(v.node, ast.Constant) \
                and v.node.value is None
        return False

    def write(self, obj, attr, node, value, st, inplace=False):
        self.writes += 1
        worlds = st.facts['w']
        if attr == '*':
            return

        # accompanying attributes
        for w in worlds:
            for (o, x), s in w.since.items():
                if o is obj and x != attr:
                    s.add(attr)
            if not inplace:
                w.set[obj, attr] = node
                if (obj.kind, attr) in self.rules.lattice:
                    w.since[obj, attr] = set()
            else:
                w.set.setdefault((obj, '~' + attr), node)

        # keyed caches
        for c in self.rules.caches:
            if c.kind == obj.kind and attr == c.key:
                for w in worlds:
                    if self.isnone(value, st):
                        w.none.add((obj, attr))
                        w.dirty.pop((c, obj), None)
                    else:
                        w.none.discard((obj, attr))
                continue
            for steps, a in c.inputs:
                if a != attr:
                    continue
                o = self.owners(obj, steps)
                if o is None or o.kind != c.kind:
                    continue
                for w in worlds:
                    if (o, c.key) not in w.none:
                        w.dirty.setdefault((c, o), (attr, node))

        # prepared tables
        for t in self.rules.tables:
            if t.kind == obj.kind and attr in t.inputs \
                    and not self.inside(t):
                if self.translation(obj, attr, value, st, inplace):
                    continue
                for w in worlds:
                    w.late[t, obj] = attr, node
            if t.kind == obj.kind and attr in t.flags and not inplace:
                v = self.plain(value, st)
                for w in worlds:
                    w.off.discard((obj, attr))
                    w.link.pop((obj, attr), None)
                    if isinstance(v, ast.Constant) and not v.value:
                        w.off.add((obj, attr))
                    elif isinstance(v, tuple):
                        w.link[obj, attr] = v

    def plain(self, value, st):
        """Constant or (object, attribute) a value is known to equal."""
        env, hops = st.env, 0
        while isinstance(value, ast.Name) and hops < 5:
            v = env.get(value.id)
            if not isinstance(v, Value) or v.node is None:
                return None
            value, env = v.node, v.env or {}
            hops += 1
        if isinstance(value, ast.Constant):
            return value
        if isinstance(value, ast.Attribute):
            o = self.object(value.value, State(env))
            if o is not None:
                return o, value.attr

    def translation(self, obj, attr, value, st, inplace):
        """Copies of positions and shifts by lattice vectors."""
        if attr not in self.rules.positions.get(obj.kind, ()):
            return False
        if value is None:
            return False
        src = {(o, a) for o, a in self.sources(value, st) if o == obj}
        if (obj, self.rules.vectors) in src:
            return all(a in (attr, self.rules.vectors) for o, a in src)
        v = value
        while callee(v) in ('array', 'copy') and len(v.args) <= 1:
            v = v.args[0] if v.args else v.func.value
        f = isinstance(v, ast.Attribute) and self.field(v, st)
        return bool(f) and f == (obj, attr)

    def leave(self, st, value, node):
        for w in st.facts['w']:
            for (c, o), (attr, n) in w.dirty.items():
                if o.new:
                    continue
                self.add('cache-kept', '%s->%s' % (attr, c.key), n,
                    '%s of %s is changed, but results cached for the last %s '
                    'are kept (%s is not discarded)' % (attr, o.text, c.key,
                    c.key))
            for (t, o), (attr, n) in w.late.items():
                if any(w.isoff(o, f) for f in t.flags):
                    continue
                self.add('tables-kept', '%s->%s' % (attr, t.func.name), n,
                    '%s of %s is changed, but %s, which prepares %s, is not '
                    'called afterwards' % (attr, o.text, t.func.name, ', '.join(
                    sorted(t.derived))))
            for (t, o), n in w.used.items():
                if o.new or any(w.isoff(o, f) for f in t.flags):
                    continue
                me = o
                while me is not None:
                    if (me, 'data') in w.set and not me.new:
                        self.add('tables-unprepared', '%s->%s' % (o.text,
                            t.func.name), n, 'data of %s are replaced using '
                            'quantities prepared by %s of %s, which is not '
                            'called before to account for changed attributes'
                            % (me.text, t.func.name, o.text))
                        break
                    me = me.parent
            for o, x in list(w.since):
                here = {a for p, a in w.set if p is o}
                here |= {a[1:] for a in here if a.startswith('~')}
                for y in sorted(self.rules.joint.get((o.kind, x), ())):
                    if y not in here:
                        self.add('partner-kept', '%s->%s' % (x, y),
                            w.set[o, x], '%s of %s is replaced, but the '
                            'corresponding %s is not' % (x, o.text, y))
                for y in sorted(self.rules.derived.get((o.kind, x), ())):
                    if y not in w.since[o, x] and not self.together(w, o, x, y):
                        self.add('derived-kept', '%s->%s' % (x, y),
                            w.set[o, x], '%s of %s is replaced, but %s, which '
                            'is calculated from it elsewhere, is not' % (x,
                            o.text, y))

    @staticmethod
    def together(w, o, x, y):
        return w.set.get((o, x)) is w.set.get((o, y)) is not None

    def add(self, rule, construct, node, message):
        self.found.setdefault((rule, construct), (node, message))

class Rules:
    """Obligations read off the package."""
    vectors = 'a'

    def __init__(self, root):
        self.models = Models(root)
        self.caches = []
        self.tables = []
        self.joint = {}
        self.derived = {}
        self.lattice = set()
        self.positions = {}
        self.nulled = {}

        for kind, cls in self.models.classes.items():
            doc = self.models.docs[kind]
            for n, (t, text) in doc.items():
                if text.startswith('Lattice vectors') and 'Wigner' in text:
                    self.lattice.add((kind, n))
                if text.startswith('Positions'):
                    self.positions.setdefault(kind, set()).add(n)
            self.nulled[kind] = self.constructed(cls)
            self.find_caches(kind, cls)
        for kind, cls in self.models.classes.items():
            self.find_tables(kind, cls)
        for c in self.caches:
            self.close(c)
        self.find_partners()

    def constructed(self, cls):
        """Attributes the constructor first sets to None."""
        out, init = set(), cls.methods.get('__init__')
        if init is None:
            return out
        for n in init.node.body:
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    a = selfattr(t)
                    if a and isinstance(n.value, ast.Constant) \
                            and n.value.value is None:
                        out.add(a)
            elif not isinstance(n, ast.Expr):
                pass
        return out

    def find_caches(self, kind, cls):
        for m in cls.methods.values():
            for n in ast.walk(m.node):
                if not isinstance(n, ast.If):
                    continue
                tests, names = [n.test], set()
                for test in tests:
                    for x in ast.walk(test):
                        if isinstance(x, ast.Name) and x.id not in names:
                            names.add(x.id)
                            tests += [y.value for y in ast.walk(m.node)
                                if isinstance(y, ast.Assign) and any(isinstance(
                                t, ast.Name) and t.id == x.id for t in
                                y.targets)]
                tested = {selfattr(x) for t in tests for x in ast.walk(t)} \
                    - {None}
                stored = set()
                for b in n.body:
                    for x in ast.walk(b):
                        if isinstance(x, ast.Assign):
                            stored |= {selfattr(t) for t in x.targets} - {None}
                for key in tested & stored:
                    if key not in self.nulled[kind] or not \
                            any(self.mentions_none(t, key) for t in tests):
                        continue
                    c = Cache(kind, key, m, n)
                    c.tests = tests
                    self.caches.append(c)

    @staticmethod
    def mentions_none(test, key):
        """Is the key compared with something else?"""
        def plain(y):
            while isinstance(y, ast.Subscript) or callee(y) in ('tuple',
                    'list') and y.args:
                y = y.value if isinstance(y, ast.Subscript) else y.args[0]
            return selfattr(y)
        for x in ast.walk(test):
            if isinstance(x, ast.Compare) and any(plain(y) == key
                    for y in [x.left] + x.comparators) and not any(isinstance(y,
                    ast.Constant) for y in [x.left] + x.comparators):
                return True
        return any(isinstance(x, ast.Call) and callee(x) in ('array_equal',
            'allclose') and any(selfattr(y) == key for y in x.args)
            for x in ast.walk(test))

    def outcome(self, e, c, env):
        """What a condition says about requested and stored key."""
        flip = dict(differ='same', same='differ', ne='eq', eq='ne')
        if isinstance(e, ast.Name) and e.id in env:
            v = env[e.id]
            return self.outcome(v[0], c, {k: x for k, x in env.items()
                if k != e.id}) if len(v) == 1 else None
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, (ast.Not,
                ast.Invert)):
            return flip.get(self.outcome(e.operand, c, env))
        if isinstance(e, ast.BoolOp):
            out = [self.outcome(v, c, env) for v in e.values]
            out = [o for o, v in zip(out, e.values) if not self.isnonetest(v)]
            return out[0] if len(out) == 1 else None
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            sides = [e.left, e.comparators[0]]
            for x in sides:
                if isinstance(x, ast.Subscript) and selfattr(x.value) == c.key:
                    return 'partial'
                if callee(x) == 'tuple' or callee(x) == 'list':
                    x = x.args[0] if x.args else x
                    if selfattr(x) == c.key:
                        return {ast.NotEq: 'differ', ast.Eq: 'same'}.get(
                            type(e.ops[0]))
            if any(selfattr(x) == c.key for x in sides):
                return {ast.NotEq: 'ne', ast.Eq: 'eq'}.get(type(e.ops[0]))
        if isinstance(e, ast.Call):
            name = callee(e)
            if name in ('array_equal', 'allclose', 'array_equiv'):
                for x in e.args:
                    if isinstance(x, ast.Subscript) and selfattr(x.value) \
                            == c.key:
                        return 'partial'
                return 'same' if any(selfattr(x) == c.key for x in e.args) \
                    else None
            if name in ('any', 'all'):
                x = e.args[0] if e.args else e.func.value if isinstance(e.func,
                    ast.Attribute) else None
                o = self.outcome(x, c, env) if x is not None else None
                return {('any', 'ne'): 'differ', ('all', 'eq'): 'same',
                    ('all', 'ne'): 'all components differ', ('any', 'eq'):
                    'any component equal'}.get((name, o), o if o == 'partial'
                    else None)
            if name in ('allreduce', 'bool', 'bcast') and e.args:
                return self.outcome(e.args[0], c, env)
        return None

    @staticmethod
    def isnonetest(e):
        return isinstance(e, ast.Compare) and any(isinstance(x, ast.Constant)
            and x.value is None for x in [e.left] + e.comparators)

    def key_findings(self):
        for c in self.caches:
            env = {}
            for n in ast.walk(c.func.node):
                if isinstance(n, ast.Assign) and len(n.targets) == 1 \
                        and isinstance(n.targets[0], ast.Name):
                    env.setdefault(n.targets[0].id, []).append(n.value)
            o = self.outcome(c.node.test, c, env)
            where = c.func.module.where(c.node)
            if o is not None and o not in ('differ', 'ne'):
                yield dict(rule='cache-key', func=c.func.qualname,
                    construct=c.key, message='%s: results are recalculated if '
                    '"%s" of the stored key %s, not if any component differs'
                    % (where, o, c.key))
            for p, node in sorted(c.params.items()):
                if p not in c.keyed:
                    yield dict(rule='key-incomplete', func=c.func.qualname,
                        construct='%s->%s' % (p, c.key), message='%s: cached '
                        'results depend on %s, which is not part of the key %s'
                        % (c.func.module.where(node), p, c.key))

    def assigned(self):
        """Functions that assign an attribute."""
        if self._assigned is not None:
            return self._assigned
        assigned = {} # attribute -> functions
        for f in self.models.project.all_functions():
            for n in ast.walk(f.node):
                targets = n.targets if isinstance(n, ast.Assign) else \
                    [n.target] if isinstance(n, (ast.AugAssign,
                    ast.AnnAssign)) else []
                for t in targets:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Attribute) and isinstance(x.ctx,
                                ast.Store) and isinstance(x.value, (ast.Name,
                                ast.Attribute)):
                            own = selfattr(x) and f.cls is not None
                            who = f.cls.module.short if own else (x.value.id
                                if isinstance(x.value, ast.Name)
                                else x.value.attr)
                            assigned.setdefault((who, x.attr), set()).add(
                                f.qualname if own else f.qualname + ':')
        self._assigned = assigned
        return assigned

    _assigned = None

    def find_tables(self, kind, cls):
        assigned = self.assigned()
        for m in cls.methods.values():
            if m.name == '__init__':
                continue
            only = {a for (who, a), fs in assigned.items() if who == kind
                and fs == {m.qualname}}
            if len(only) < 2:
                continue
            users = {f.qualname for f in self.models.project.all_functions()
                if f is not m for n in ast.walk(f.node) if isinstance(n,
                ast.Attribute) and n.attr == m.name}
            readers = {f.qualname for f in cls.methods.values() if f is not m
                for n in ast.walk(f.node) if selfattr(n) in only
                and isinstance(n.ctx, ast.Load)}
            if len(only) < 2 or not users or not readers:
                continue
            t = Tables(kind, m)
            t.derived = only
            r = Reads(self.models, m, kind)
            r.run()
            doc = self.models.docs[kind]
            t.inputs = {a for p, a in r.got if not p and a not in only
                and a not in cls.methods
                and doc.get(a, ('', ''))[0] != 'int' and a in doc}
            # flags under which the tables are prepared
            for f in self.models.project.all_functions():
                for n in ast.walk(f.node):
                    if isinstance(n, ast.If) and any(isinstance(x, ast.Call)
                            and callee(x) == m.name for b in n.body
                            for x in ast.walk(b)):
                        for x in ast.walk(n.test):
                            if isinstance(x, ast.Attribute) and doc.get(x.attr,
                                    ('',))[0] == 'bool':
                                t.flags.add(x.attr)
            for f in cls.methods.values():
                for n in ast.walk(f.node):
                    if isinstance(n, ast.If) and isinstance(n.test, ast.UnaryOp
                            ) and selfattr(n.test.operand) and any(isinstance(
                            x, ast.Return) for x in n.body):
                        if f.name != m.name and any(isinstance(x, ast.Call)
                                and callee(x) == m.name for x in
                                ast.walk(f.node)):
                            t.flags.add(n.test.operand.attr)
            t.inputs -= t.flags
            self.tables.append(t)
            self.find_users(t)

    def find_users(self, t):
        """Methods whose results depend on the tables."""
        classes = self.models.classes
        more = True
        while more:
            more = False
            for kind, cls in classes.items():
                for m in cls.methods.values():
                    if (kind, m.name) in t.users or m is t.func \
                            or m.name == '__init__':
                        continue
                    for n in ast.walk(m.node):
                        if not isinstance(n, ast.Attribute) or not isinstance(
                                n.ctx, ast.Load):
                            continue
                        steps, v = [], n.value
                        while isinstance(v, ast.Attribute) \
                                and v.attr in classes:
                            steps.append(v.attr)
                            v = v.value
                        if not isinstance(v, ast.Name) or v.id != 'self':
                            continue
                        steps = tuple(steps[::-1])
                        k = steps[-1] if steps else kind
                        if k == t.kind and n.attr in t.derived:
                            t.users[kind, m.name] = steps
                            more = True
                            break
                        if (k, n.attr) in t.users:
                            t.users[kind, m.name] = steps + t.users[k, n.attr]
                            more = True
                            break

    def close(self, c):
        r = Reads(self.models, c.func, c.kind, c.node)
        r.run()
        c.outputs = {a for p, a in r.put if not p}
        c.filled = {a: n for (p, a), n in r.filled.items() if not p}
        classes = self.models.classes
        c.inputs = {(p, a) for p, a in r.got if a not in classes[p[-1] if p
            else c.kind].methods and not (not p and (a in c.outputs
            or a == c.key)) and a not in classes}
        docs = self.models.docs
        c.inputs = {(p, a) for p, a in c.inputs if docs[p[-1] if p
            else c.kind].get(a, ('',))[0] != 'int' or not p}
        c.inputs = {(p, a) for p, a in c.inputs if a != 'size'}
        # parameters the key stems from
        class Keyed(Reads):
            keyed = None
            def write(self, obj, attr, node, value, st, inplace=False):
                super().write(obj, attr, node, value, st, inplace)
                if self.active and attr == c.key and value is not None:
                    self.keyed = {a for o, a in self.sources(value, st)
                        if o == 'param'}
        k = Keyed(self.models, c.func, c.kind, c.node)
        k.run()
        a = c.func.node.args
        handles = {p.arg for p in a.args if p.arg in ('self', 'comm')}
        c.keyed = (k.keyed or set()) | handles
        c.params = r.params if k.keyed else {}
        c.users = {c.func.name}
        cls = classes[c.kind]
        more = True
        while more:
            more = False
            for m in cls.methods.values():
                if m.name not in c.users and m.name != '__init__' and any(
                        selfattr(n) in c.users for n in ast.walk(m.node)):
                    # only methods that evaluate, without discarding
                    c.users.add(m.name)
                    more = True
        c.users = {u for u in c.users}

    def find_partners(self):
        """Attributes assigned together with or computed from lattice vectors.
        """
        places = {}
        for f in self.models.project.all_functions():
            locals_ = {}
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assign) and len(n.targets) == 1 \
                        and isinstance(n.targets[0], ast.Name):
                    locals_.setdefault(n.targets[0].id, []).append(n.value)
            for n in ast.walk(f.node):
                if not isinstance(n, ast.Assign):
                    continue
                for t in n.targets:
                    elts = t.elts if isinstance(t, (ast.Tuple, ast.List)) \
                        else [t]
                    group = [self.owner(f, e) for e in elts]
                    group = [g for g in group if g]
                    # assigned together
                    for k, x in group:
                        if (k, x) in self.lattice and f.name == '__init__' or (
                                k, x) in self.lattice and len(group) > 1:
                            self.joint.setdefault((k, x), set()).update(
                                y for l, y in group if l == k and y != x)
                    # computed from
                    if len(group) == 1:
                        k, y = group[0]
                        seen = set()
                        stack = [n.value]
                        count = 0
                        while stack and count < 500:
                            count += 1
                            e = stack.pop()
                            for x in ast.walk(e):
                                g = self.owner(f, x) if isinstance(x,
                                    ast.Attribute) else None
                                if g and g in self.lattice and g[0] == k \
                                        and g[1] != y:
                                    seen.add(g)
                        for g in seen:
                            places.setdefault((g, y), set()).add(f.qualname)
        for (g, y), fs in places.items():
            if len(fs) > 1 and (g[0], y) not in self.lattice and not \
                    self.isdata(g[0], y):
                self.derived.setdefault(g, set()).add(y)

    def isdata(self, kind, y):
        return any(y in s for (k, x), s in self.joint.items() if k == kind) \
            or y in ('data', 'node', 'images')

    def owner(self, f, e):
        """(kind, attribute) of an attribute of a model."""
        if not isinstance(e, ast.Attribute):
            return None
        v = e.value
        if isinstance(v, ast.Name):
            if v.id == 'self' and f.cls is not None and f.cls.name == 'Model':
                return f.cls.module.short, e.attr
            if v.id in self.models.classes:
                return v.id, e.attr
        if isinstance(v, ast.Attribute) and v.attr in self.models.classes:
            return v.attr, e.attr
        return None

def check(root):
    rules = Rules(root)
    api = public()
    found, entries, writes = [], 0, 0
    for f in rules.models.project.all_functions():
        kind = f.cls.module.short if f.cls is not None and f.cls.name \
            == 'Model' and f.cls.module.short in rules.models.classes else None
        if f.qualname not in api:
            continue
        params = {p.arg for p in f.node.args.args}
        if kind is None and not params & set(rules.models.classes) \
                and f.cls is None:
            continue
        if any(t.func is f for t in rules.tables):
            continue
        t = Follow(rules, f, kind).run()
        entries += 1
        writes += t.writes
        for (rule, construct), (node, message) in sorted(t.found.items()):
            found.append(dict(rule=rule, func=f.qualname, construct=construct,
                message='%s: %s' % (f.module.where(node), message)))
    found += rules.key_findings()
    copies = []
    for f in rules.models.project.all_functions():
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and callee(n) == 'copy' and len(n.args) \
                    == 1 and isinstance(n.args[0], (ast.Name, ast.Attribute)):
                a = n.args[0]
                name = a.id if isinstance(a, ast.Name) else a.attr
                copies += [(c, f, n) for c in rules.caches if c.kind == name]
    for c, f, n in copies:
        for attr, node in sorted(c.filled.items()):
            found.append(dict(rule='cache-shared', func=c.func.qualname,
                construct='%s.%s' % (c.kind, attr), message='%s: %s is filled '
                'in place although copies of the model made in %s share it '
                'without sharing %s' % (c.func.module.where(node), attr,
                f.qualname, c.key)))
    info = dict(shallow_copies=len(copies), routines=entries, writes_followed=writes,
        keyed_caches=['%s.%s' % (c.kind, c.key) for c in rules.caches],
        cache_inputs=sorted({'.'.join((c.kind,) + p + (a,)) for c in
            rules.caches for p, a in c.inputs}),
        prepared_tables={t.kind + '.' + t.func.name: sorted(t.derived)
            for t in rules.tables},
        table_inputs=sorted({t.kind + '.' + a for t in rules.tables
            for a in t.inputs}),
        accompanying={'.'.join(k): sorted(v) for k, v in
            rules.joint.items() if v},
        computed={'.'.join(k): sorted(v) for k, v in rules.derived.items()})
    return found, info
