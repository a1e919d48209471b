"""Serial stand-ins for the communicator and the MPI module.

The class that replaces the world communicator and the one that replaces the
MPI module are compared with what the package uses: every operation must exist,
accept the call, and, for the forms of arguments it is called with, mean what
the MPI operation means for a single process. The bodies of the operations are
evaluated abstractly (which argument, or part of it, flows where).
"""

import ast

from .project import Project

COPY = {'Gatherv', 'Allgatherv', 'Gather', 'Allgather', 'Reduce', 'Allreduce',
    'Scatterv', 'Scatter', 'Alltoall', 'Alltoallv', 'Scan'}
SAME = {'bcast', 'allreduce', 'reduce', 'scan'}
LIST = {'gather', 'allgather'}
NOTHING = {'Barrier', 'barrier', 'Free'}
GROUP = {'Split', 'Split_type', 'Dup', 'Clone', 'Create'}

PASS_METHODS = {'reshape', 'ravel', 'copy', 'flatten', 'view', 'astype',
    'squeeze'}
PASS_FUNCS = {'reshape', 'ravel', 'array', 'asarray', 'copy', 'squeeze',
    'ascontiguousarray'}

class Stub:
    def __init__(self, cls, classes):
        self.cls = cls
        self.methods = {}
        self.values = {}
        self.open = False
        c = cls
        chain = []
        while c is not None and c not in chain:
            chain.append(c)
            base = None
            for b in c.bases:
                if isinstance(b, ast.Name) and b.id in classes:
                    base = classes[b.id]
                elif not (isinstance(b, ast.Name) and b.id == 'object'):
                    self.open = True
            c = base
        for c in reversed(chain):
            for n in c.body:
                if isinstance(n, ast.FunctionDef):
                    self.methods[n.name] = n
                elif isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Name):
                            if isinstance(n.value, ast.Name) \
                                    and n.value.id in self.methods:
                                self.methods[t.id] = self.methods[n.value.id]
                            else:
                                self.values[t.id] = n.value
                elif not isinstance(n, (ast.Expr, ast.Pass)):
                    self.open = True
            init = self.methods.get('__init__')
            if init is not None:
                for n in ast.walk(init):
                    if isinstance(n, ast.Assign):
                        for t in n.targets:
                            for t in (t.elts if isinstance(t, ast.Tuple)
                                    else [t]):
                                if isinstance(t, ast.Attribute) \
                                        and isinstance(t.value, ast.Name) \
                                        and t.value.id == 'self':
                                    self.values[t.attr] = n.value
                    elif isinstance(n, ast.Call) and isinstance(n.func,
                            ast.Name) and n.func.id in ('setattr', 'vars'):
                        self.open = True
                    elif isinstance(n, ast.Attribute) \
                            and n.attr == '__dict__':
                        self.open = True
        if '__getattr__' in self.methods or '__getattribute__' in self.methods:
            self.open = True

    def has(self, name):
        return self.open or name in self.methods or name in self.values

def find_stubs(project):
    m = project.module('MPI')
    classes = {n.name: n for n in ast.walk(m.tree)
        if isinstance(n, ast.ClassDef)}
    stub = None
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name)
                and t.id == 'MPI' for t in n.targets) \
                and isinstance(n.value, ast.Call) \
                and isinstance(n.value.func, ast.Name) \
                and n.value.func.id in classes:
            stub = Stub(classes[n.value.func.id], classes)
    if stub is None:
        return None, None, classes
    world = stub.values.get('COMM_WORLD')
    comm = None
    if isinstance(world, ast.Call) and isinstance(world.func, ast.Name) \
            and world.func.id in classes:
        comm = Stub(classes[world.func.id], classes)
    return stub, comm, classes

def accepts(fn, nargs, keywords):
    """Does a method accept a call? Reason if not."""
    a = fn.args
    static = any(isinstance(d, ast.Name) and d.id == 'staticmethod'
        for d in fn.decorator_list)
    names = [x.arg for x in a.posonlyargs + a.args]
    if not static:
        names = names[1:]
    kwonly = [x.arg for x in a.kwonlyargs]
    if nargs > len(names) and a.vararg is None:
        return 'takes %d arguments, %d given' % (len(names), nargs)
    for k in keywords:
        if k not in names + kwonly and a.kwarg is None:
            return 'has no parameter %r' % k
        if k in names[:nargs]:
            return 'got two values for %r' % k
    ndef = len(a.defaults)
    required = names[:len(names) - ndef] if ndef else names
    for n in required[nargs:]:
        if n not in keywords:
            return 'lacks a value for %r' % n
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        if d is None and x.arg not in keywords:
            return 'lacks a value for %r' % x.arg
    return None

class Wrong(Exception):
    pass

class Unknown(Exception):
    pass

class Body:
    """Abstract evaluation of the body of an operation for one call form."""
    def __init__(self, fn, args, module):
        self.fn = fn
        self.results = []   # (returned, stores)
        self.module = module
        env = dict(args)
        try:
            for env2, stores in self.block(fn.body, [(env, ())]):
                self.results.append((('none',), stores))
        except Unknown:
            self.results = None

    def block(self, stmts, states):
        for s in stmts:
            out = []
            for env, stores in states:
                out += self.stmt(s, env, stores)
            states = out
        return states

    def stmt(self, s, env, stores):
        if isinstance(s, ast.Pass) or isinstance(s, ast.Expr) \
                and isinstance(s.value, ast.Constant):
            return [(env, stores)]
        if isinstance(s, ast.Return):
            v = ('none',) if s.value is None else self.eval(s.value, env)
            self.results.append((v, stores))
            return []
        if isinstance(s, ast.If):
            t = self.test(s.test, env)
            out = []
            if t is not False:
                out += self.block(s.body, [(dict(env), stores)])
            if t is not True:
                out += self.block(s.orelse, [(dict(env), stores)])
            return out
        if isinstance(s, ast.Assign) and len(s.targets) == 1:
            t = s.targets[0]
            v = self.eval(s.value, env)
            if isinstance(t, ast.Name):
                env = dict(env)
                env[t.id] = v
                return [(env, stores)]
            if isinstance(t, (ast.Tuple, ast.List)) and v[0] == 'arg' \
                    and isinstance(v[2], int):
                if any(isinstance(e, ast.Starred) for e in t.elts):
                    raise Unknown
                if len(t.elts) != v[2]:
                    raise Wrong('unpacks %d values from an argument given as '
                        '%d' % (len(t.elts), v[2]))
                env = dict(env)
                for i, e in enumerate(t.elts):
                    if not isinstance(e, ast.Name):
                        raise Unknown
                    env[e.id] = ('item', v[1], i)
                return [(env, stores)]
            if isinstance(t, ast.Subscript):
                base = self.eval(t.value, env)
                if base[0] == 'arg' and isinstance(base[2], int):
                    raise Wrong('stores into the list %r that specifies the '
                        'message instead of the buffer in it' % base[1])
                if whole(t.slice):
                    return [(env, stores + ((base, v),))]
                return [(env, stores + ((('part', base), v),))]
            raise Unknown
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
            f = s.value.func
            if isinstance(f, ast.Attribute) and f.attr == 'copyto' \
                    and len(s.value.args) == 2:
                a, b = [self.eval(x, env) for x in s.value.args]
                return [(env, stores + ((a, b),))]
        if isinstance(s, ast.Raise):
            return []
        raise Unknown

    def test(self, t, env):
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            r = self.test(t.operand, env)
            return None if r is None else not r
        if isinstance(t, ast.BoolOp):
            rs = [self.test(x, env) for x in t.values]
            if isinstance(t.op, ast.And):
                return False if False in rs else True if all(rs) else None
            return True if True in rs else False if all(r is False
                for r in rs) else None
        if isinstance(t, ast.Compare) and len(t.ops) == 1:
            a, b = t.left, t.comparators[0]
            for x, y in ((a, b), (b, a)):
                if isinstance(y, ast.Attribute) and y.attr == 'IN_PLACE':
                    v = self.eval(x, env)
                    r = v[0] == 'arg' and v[2] == 'in place'
                    return r if isinstance(t.ops[0], (ast.Is, ast.Eq)) \
                        else not r
            return None
        if isinstance(t, ast.Call) and isinstance(t.func, ast.Name):
            if t.func.id == 'isinstance':
                v = self.eval(t.args[0], env)
                names = {n.id for n in ast.walk(t.args[1])
                    if isinstance(n, ast.Name)}
                if v[0] == 'arg' and names & {'tuple', 'list'}:
                    return isinstance(v[2], int)
                return None
        return None

    def scan(self, args, env):
        """Shapes etc. do not matter, but they may be wrong."""
        for a in args:
            try:
                self.eval(a, env)
            except Unknown:
                pass

    def eval(self, e, env):
        if isinstance(e, ast.Name):
            return env.get(e.id, ('other', e.id))
        if isinstance(e, ast.Constant):
            return ('none',) if e.value is None else ('const', e.value)
        if isinstance(e, (ast.List, ast.Tuple)):
            return ('list',) + tuple(self.eval(x, env) for x in e.elts)
        if isinstance(e, ast.IfExp):
            t = self.test(e.test, env)
            if t is None:
                a, b = self.eval(e.body, env), self.eval(e.orelse, env)
                if a == b:
                    return a
                raise Unknown
            return self.eval(e.body if t else e.orelse, env)
        if isinstance(e, ast.Subscript):
            v = self.eval(e.value, env)
            if whole(e.slice):
                if v[0] == 'arg' and isinstance(v[2], int) \
                        and isinstance(e.slice, ast.Constant):
                    raise Wrong('indexes a list with an ellipsis')
                return v
            i = e.slice.value if isinstance(e.slice, ast.Constant) else None
            if v[0] == 'arg' and isinstance(v[2], int) \
                    and isinstance(i, int):
                if not -v[2] <= i < v[2]:
                    raise Wrong('uses item %d of an argument given as %d' % (i,
                        v[2]))
                return ('item', v[1], i % v[2])
            if v[0] == 'list' and isinstance(i, int):
                return v[1 + i]
            return ('part', v)
        if isinstance(e, ast.Call):
            f = e.func
            if isinstance(f, ast.Attribute):
                base = self.eval(f.value, env)
                if base[0] in ('arg', 'item', 'part'):
                    if base[0] == 'arg' and isinstance(base[2], int):
                        raise Wrong('calls .%s of the list that specifies a '
                            'message' % f.attr)
                    if base[0] == 'arg' and base[2] == 'in place':
                        raise Wrong('calls .%s of the in-place marker'
                            % f.attr)
                    self.scan(e.args, env)
                    if f.attr in PASS_METHODS:
                        return base
                    raise Unknown
                if f.attr in PASS_FUNCS and e.args:
                    self.scan(e.args[1:], env)
                    v = self.eval(e.args[0], env)
                    if v[0] == 'arg' and isinstance(v[2], int):
                        raise Wrong('makes an array of the list that '
                            'specifies a message')
                    return v
            if isinstance(f, ast.Name) and f.id == 'list' and len(e.args) == 1:
                v = self.eval(e.args[0], env)
                if v[0] == 'list':
                    return v
            raise Unknown
        if isinstance(e, ast.Attribute):
            v = self.eval(e.value, env)
            if v[0] == 'arg' and isinstance(v[2], int):
                raise Wrong('uses attribute %r of the list that specifies a '
                    'message' % e.attr)
            return ('attr', v, e.attr)
        raise Unknown

def whole(s):
    return isinstance(s, ast.Constant) and s.value is Ellipsis \
        or isinstance(s, ast.Slice) and s.lower is None and s.upper is None \
        and s.step is None

def buffer(arg):
    return ('item', arg[1], 0) if isinstance(arg[2], int) else arg

def check_form(fn, op, forms, kwforms):
    """None or a description of what is wrong; 'unknown' if not decided."""
    static = any(isinstance(d, ast.Name) and d.id == 'staticmethod'
        for d in fn.decorator_list)
    names = [x.arg for x in fn.args.posonlyargs + fn.args.args]
    env = {}
    if not static:
        env[names[0]] = ('self',)
        names = names[1:]
    given = []
    for n, f in zip(names, forms):
        env[n] = ('arg', n, f)
        given.append(env[n])
    for k, f in kwforms:
        env[k] = ('arg', k, f)
        if k in names:
            given.append(env[k])
    for n in names:
        env.setdefault(n, ('other', n))
    try:
        b = Body(fn, env, None)
    except Wrong as e:
        return str(e)
    except Exception:
        return 'unknown'
    if b.results is None:
        return 'unknown'
    for ret, stores in b.results:
        if op in SAME and given:
            if ret != given[0]:
                return 'does not return its argument'
        elif op in LIST and given:
            if ret != ('list', given[0]):
                return 'does not return a list of one item'
        elif op == 'scatter' and given:
            if ret not in (('item', given[0][1], 0), ('part', given[0])):
                return 'does not return the first item'
        elif op in GROUP:
            if ret == ('none',):
                return 'does not return a communicator'
        elif op in COPY and len(given) >= 2:
            send, recv = given[:2]
            if send[2] == 'in place':
                if stores:
                    return 'modifies a buffer that is sent in place'
                continue
            want = (buffer(recv), buffer(send))
            if want in stores:
                continue
            if recv[2] == 'other' and recv[0] == 'arg' and any(
                    s in ((buffer(recv), ('part', send)),) for s in stores):
                continue
            if stores and any(s[0][0] == 'part' for s in stores):
                return 'fills only part of the receive buffer'
            if stores and any(s[0] == buffer(recv) for s in stores):
                return 'fills the receive buffer with something else than ' \
                    'the send buffer'
            return 'does not fill the receive buffer'
        elif op in ('Bcast', 'Ibcast') and stores:
            return 'modifies the broadcast buffer'
    return None

def interface_uses(project):
    """Attributes of the MPI module used in the package (not for size > 1)."""
    for m in project.modules.values():
        for n in ast.walk(m.tree):
            if not isinstance(n, ast.Attribute) or not isinstance(n.ctx,
                    ast.Load):
                continue
            if not is_interface(m, n.value):
                continue
            if parallel_only(n):
                continue
            yield m, n

def is_interface(m, e):
    if isinstance(e, ast.Name):
        if m.name == 'elphmod.MPI':
            return e.id == 'MPI'
        return m.imports.get(e.id) == 'elphmod.MPI.MPI'
    if isinstance(e, ast.Attribute) and e.attr == 'MPI':
        v = e.value
        if isinstance(v, ast.Name):
            return m.imports.get(v.id) == 'elphmod.MPI'
        return isinstance(v, ast.Attribute) and v.attr == 'MPI' \
            and isinstance(v.value, ast.Name) and v.value.id == 'elphmod'
    return False

def parallel_only(n):
    """Is this only reached with more than one process?"""
    child = n
    while hasattr(child, 'parent'):
        p = child.parent
        if isinstance(p, ast.If):
            s = positive(p.test)
            if child in p.body and s == 'parallel' \
                    or child in p.orelse and s == 'serial':
                return True
        if isinstance(p, ast.Try) and child in p.body:
            return True  # import of the real module
        if hasattr(p, 'body') and isinstance(p.body, list) \
                and child in p.body:
            for s in p.body[:p.body.index(child)]:
                if isinstance(s, ast.If) and positive(s.test) == 'serial' \
                        and isinstance(s.body[-1], (ast.Return, ast.Raise,
                        ast.Continue)):
                    return True
        child = p
    return False

def positive(test):
    for t in (test.values if isinstance(test, ast.BoolOp)
            and isinstance(test.op, ast.And) else [test]):
        if isinstance(t, ast.Compare):
            terms = [t.left] + t.comparators
            for a, op, b in zip(terms, t.ops, terms[1:]):
                size = isinstance(a, ast.Attribute) and a.attr == 'size'
                rank = isinstance(a, ast.Attribute) and a.attr == 'rank'
                c = b.value if isinstance(b, ast.Constant) else None
                if size and c == 1:
                    if isinstance(op, (ast.Gt, ast.NotEq)):
                        return 'parallel'
                    if isinstance(op, (ast.Eq, ast.LtE)):
                        return 'serial'
                if rank and c == 0:
                    if isinstance(op, (ast.NotEq, ast.Gt)):
                        return 'parallel'
                    if isinstance(op, ast.Eq) and test is t:
                        return 'serial'
        elif isinstance(t, ast.Attribute) and t.attr == 'rank':
            return 'parallel'
    return None

def owner(n):
    names = []
    while hasattr(n, 'parent'):
        n = n.parent
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            names.append(n.name)
    return '.'.join(reversed(names)) or '<module>'

def check(root, t):
    project = Project(root)
    stub, comm, classes = find_stubs(project)
    findings = []
    info = dict(operations={}, forms=0, undecided=[], interface_attributes=[])

    def add(rule, func, construct, message):
        f = dict(rule=rule, func=func, construct=construct, message=message)
        if f not in findings:
            findings.append(f)

    if stub is None or comm is None:
        info['undecided'].append('serial stand-ins not recognised')
        return findings, info

    # communicator

    for name, value in (('rank', 0), ('size', 1)):
        if not comm.has(name):
            add('serial-missing', 'MPI.' + comm.cls.name, name,
                'the serial communicator has no attribute %r' % name)
        v = comm.values.get(name)
        if isinstance(v, ast.Constant) and v.value != value:
            add('serial-value', 'MPI.' + comm.cls.name, name,
                'the serial communicator has %s %r' % (name, v.value))

    calls = {}
    for op, forms, kwforms, func, where in t['commcalls']:
        calls.setdefault((op, forms, kwforms), set()).add((func, where))
    seen = set()
    for (op, forms, kwforms), sites in sorted(calls.items(), key=repr):
        func, where = sorted(sites)[0]
        info['forms'] += 1
        if not comm.has(op):
            if all(op in ('Free',) for s in sites):
                continue
            add('serial-missing', func, op, '%s: operation %s is not available '
                'without MPI' % (where, op))
            continue
        info['operations'][op] = info['operations'].get(op, 0) + len(sites)
        fn = comm.methods.get(op)
        if fn is None or '*' in forms:
            continue
        why = accepts(fn, len(forms), [k for k, f in kwforms])
        if why:
            add('serial-signature', func, op, '%s: operation %s, as available '
                'without MPI, %s' % (where, op, why))
            continue
        why = check_form(fn, op, forms, kwforms)
        if why == 'unknown':
            info['undecided'].append('%s%r' % (op, forms))
        elif why:
            add('serial-meaning', func, op, '%s: operation %s, as available '
                'without MPI, %s' % (where, op, why))

    # operations of the communicator that are not reached by the engine

    for m in project.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) \
                    and isinstance(n.func.value, ast.Name) \
                    and n.func.value.id == 'comm' \
                    and not inside(n, stub, comm) \
                    and not parallel_only(n):
                if not comm.has(n.func.attr):
                    add('serial-missing', m.short + '.' + owner(n),
                        n.func.attr, '%s: operation %s is not available '
                        'without MPI' % (m.where(n), n.func.attr))
            elif isinstance(n, ast.Attribute) and isinstance(n.value,
                    ast.Name) and n.value.id == 'comm' and isinstance(n.ctx,
                    ast.Load) and m.short in ('MPI',) is None:
                pass

    # constants and types

    for m, n in interface_uses(project):
        info['interface_attributes'].append('%s %s' % (m.where(n), n.attr))
        func = m.short + '.' + owner(n)
        if not stub.has(n.attr):
            add('serial-missing', func, n.attr, '%s: %s is not available '
                'without MPI' % (m.where(n), n.attr))
            continue
        follow(m, n, stub.values.get(n.attr), classes, add, func)
    info['interface_attributes'].sort()
    return findings, info

def inside(n, *stubs):
    while hasattr(n, 'parent'):
        n = n.parent
        if any(n is s.cls for s in stubs):
            return True
    return False

def follow(m, n, value, classes, add, func):
    """Methods called on an object of the interface."""
    if not (isinstance(value, ast.Call) and isinstance(value.func, ast.Name)
            and value.func.id in classes):
        if isinstance(value, ast.Constant):
            p = n.parent
            if isinstance(p, ast.Attribute):
                add('serial-missing', func, n.attr + '.' + p.attr,
                    '%s: %s.%s is not available without MPI' % (m.where(n),
                    n.attr, p.attr))
        return
    cls = Stub(classes[value.func.id], classes)
    e = n
    while True:
        p = e.parent
        if isinstance(p, ast.Attribute):
            if not cls.has(p.attr):
                add('serial-missing', func, n.attr + '.' + p.attr,
                    '%s: %s.%s is not available without MPI' % (m.where(n),
                    n.attr, p.attr))
                return
            call = p.parent
            if not (isinstance(call, ast.Call) and call.func is p):
                return
            fn = cls.methods.get(p.attr)
            if fn is None:
                return
            why = accepts(fn, len(call.args), [k.arg for k in call.keywords
                if k.arg])
            if why:
                add('serial-signature', func, n.attr + '.' + p.attr,
                    '%s: %s.%s, as available without MPI, %s' % (m.where(n),
                    n.attr, p.attr, why))
                return
            rets = [r.value for r in ast.walk(fn) if isinstance(r, ast.Return)]
            if not (rets and all(isinstance(r, ast.Name) and r.id == 'self'
                    for r in rets)):
                if not rets and isinstance(call.parent, ast.Attribute):
                    add('serial-meaning', func, n.attr + '.' + p.attr,
                        '%s: %s.%s, as available without MPI, returns nothing'
                        % (m.where(n), n.attr, p.attr))
                return
            e = call
        elif isinstance(p, ast.Assign) and len(p.targets) == 1 \
                and isinstance(p.targets[0], ast.Name):
            name = p.targets[0].id
            f = p
            while hasattr(f, 'parent') and not isinstance(f, ast.FunctionDef):
                f = f.parent
            for x in ast.walk(f):
                if isinstance(x, ast.Attribute) and isinstance(x.value,
                        ast.Name) and x.value.id == name \
                        and not cls.has(x.attr):
                    add('serial-missing', func, n.attr + '.' + x.attr,
                        '%s: %s of %s is not available without MPI'
                        % (m.where(x), x.attr, n.attr))
            return
        else:
            return
