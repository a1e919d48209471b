"""Entry points, calling contexts and end-of-routine obligations."""

import ast
import itertools
import os
import re

from .extmodel import node_images
from .poly import Poly
from .interp import (Interp, V, NC, NONE, EMPTY, const, Obj, Comm, WORLD, SELF,
    R, State, Env, FuncD, ClassD, ModD, Desc, doc_types, scalar_type,
    CACHES, is_array_class, flat_events, MethD, Func)

TIER = 'quick'

FLAGS = ('broadcast', 'share', 'shared_memory', 'single_memory', 'only_info')

P = Comm('P', WORLD)

class _NotNone:
    def __repr__(self):
        return 'given'

    def __bool__(self):
        return True

    def __lt__(self, other):
        return False

NOTNONE = _NotNone()

class Run:
    """Results over all entries."""
    def __init__(self, project):
        self.project = project
        self.findings = {}   # (rule, func, construct) -> message
        self.effects = {}
        self.gathers = {}
        self.muts = {}
        self.commcalls = {}
        self.events = {}
        self.entries = []
        self.div_checks = 0
        self.dist_sites = set()
        self.shared_sites = set()
        self.returns = 0
        self.stats = {}
        self.errors = []

    def add(self, rule, func, construct, message):
        self.findings.setdefault((rule, func, construct), message)

def param_names(f):
    a = f.args
    return [p.arg for p in a.posonlyargs + a.args + a.kwonlyargs]

def defaults_of(f):
    a = f.args
    names = [p.arg for p in a.posonlyargs + a.args]
    d = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
    for p, e in zip(a.kwonlyargs, a.kw_defaults):
        if e is not None:
            d[p.arg] = e
    return d

def is_comm_default(f, expr):
    return isinstance(expr, ast.Name) and expr.id == 'comm' \
        or isinstance(expr, ast.Attribute) and expr.attr in ('comm', 'I')

class Driver:
    def __init__(self, project, progress=None):
        self.project = project
        self.I = Interp(project)
        self.run = Run(project)
        self.templates = {}
        self.progress = progress

    def contexts(self, f):
        """Combinations of flags and communicators to analyse."""
        ds = defaults_of(f)
        names = param_names(f)
        flags = [n for n in names if n in FLAGS]
        comms = [n for n in names if n in ds and is_comm_default(f, ds[n])
            or n == 'comm']
        out = []
        opts = self.options(f, flags)
        via = self.forwarded(f, flags)
        if via:
            opts = [dict(o, **{'**': e}) for o in opts for e in
                [()] + [tuple(zip(via, x)) for x in itertools.product(
                (True, False), repeat=len(via))]]
        for values in itertools.product((True, False), repeat=len(flags)):
            c = dict(zip(flags, values))
            if c.get('single_memory') and c.get('shared_memory'):
                continue
            for o in opts:
                out.append((dict(c, **o), WORLD))
        if comms:
            out.append(({n: (n in ('broadcast', 'share')) for n in flags}, P))
            if 'shared_memory' in flags:
                out.append(({n: n not in ('single_memory', 'only_info')
                    for n in flags}, P))
        return out, comms

    def forwarded(self, f, flags):
        """Flags that can be passed on via unspecified keyword arguments."""
        if f.args.kwarg is None:
            return ()
        names = set()
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and any(k.arg is None
                    and isinstance(k.value, ast.Name)
                    and k.value.id == f.args.kwarg.arg for k in n.keywords):
                name = n.func.attr if isinstance(n.func, ast.Attribute) \
                    else getattr(n.func, 'id', None)
                for g in self.project.all_functions():
                    if g.name == name:
                        names |= set(param_names(g))
        return tuple(sorted(n for n in ('broadcast', 'shared_memory')
            if n in names and n not in flags))

    def options(self, f, flags):
        """Settings of on/off options that are tested repeatedly."""
        most, least, near = (5, 2, (1, 2)) if TIER == 'quick' \
            else (6, 1, (1, 2, 3))
        ds = defaults_of(f)
        count = {}
        for n in ast.walk(f.node):
            if isinstance(n, (ast.If, ast.IfExp, ast.While)):
                alloc = any(isinstance(x, ast.Attribute) and x.attr in (
                    'shared_array', 'SharedArray') for y in (n.body
                    if isinstance(n, ast.If) else ()) for x in ast.walk(y))
                for x in ast.walk(n.test):
                    if isinstance(x, ast.Name):
                        count[x.id] = count.get(x.id, 0) + 1 + alloc
        names = []
        for n, d in ds.items():
            if n in flags or count.get(n, 0) < least:
                continue
            if isinstance(d, ast.Constant) and (d.value is None
                    or isinstance(d.value, bool)):
                names.append((n, d.value))
        if not names:
            return [{}]

        def value(d, on):
            if d is None:
                return NOTNONE if on else None
            return on

        if len(names) <= most:
            return [{n: value(d, on) for (n, d), on in zip(names, values)}
                for values in itertools.product((True, False),
                repeat=len(names))]
        # defaults, and everything that is one or two settings away
        base = {n: value(d, bool(d)) for n, d in names}
        out = [base]
        for k in near:
            for flip in itertools.combinations(names, k):
                c = dict(base)
                for n, d in flip:
                    c[n] = value(d, not bool(d))
                out.append(c)
        return out

    def param_value(self, f, name, doc, default, state, first):
        I = self.I
        if default is not None:
            dv = I.default_value(f, default, state)
        else:
            dv = None
        if dv is not None and any(isinstance(r, Comm) for r in dv.refs):
            return dv
        if dv is not None and dv.refs and any(isinstance(r, Desc)
                for r in dv.refs):
            return dv
        if dv is not None and isinstance(dv.const, bool):
            return V(sym=Poly.atom('param', f.qualname, name), scalar=True)
        if dv is not None and isinstance(dv.const, (int, float, str)) \
                and dv.const is not NC:
            text = doc.get(name)
            if text is None or scalar_type(text):
                return V(sym=Poly.atom('param', f.qualname, name),
                    scalar=True)
        text = doc.get(name)
        if text and scalar_type(text):
            none = dv is not None and dv.none or 'None' in text
            return V(sym=Poly.atom('param', f.qualname, name), scalar=True,
                none=none)
        oid = ('p', f.qualname, name)
        cls = self.documented_class(f, text)
        if cls is not None:
            self.instance(cls, oid, name, state)
        else:
            state.heap[oid] = Obj('unknown', origin=name)
        return V(refs=frozenset([oid]), none=dv is not None and dv.none)

    def documented_class(self, f, text):
        m = re.search(r':class:`~?\.?(?:elphmod\.)?((?:\w+\.)*)(\w+)`', text or '')
        if not m:
            return None
        short = m.group(1).rstrip('.') or f.module.short
        for module in self.project.modules.values():
            if module.short == short:
                return module.classes.get(m.group(2))
        return None

    def instance(self, cls, oid, name, state):
        """Object of a known class passed by the caller."""
        if getattr(self, 'making', False):
            fields, heap = {}, {}
        else:
            fields, heap = self.template(cls)
        new = {r: ('tp', name, r) for r in heap}

        def rename(v):
            return v.but(refs=frozenset(new.get(r, r) if not isinstance(r,
                Desc) else r for r in v.refs))

        for r, o in heap.items():
            state.heap[new[r]] = o.but(origin=name + o.origin[4:]
                if o.origin and o.origin.startswith('self') else o.origin,
                fields={k: rename(v) for k, v in o.fields.items()})
        state.heap[oid] = Obj('inst', cls=cls, origin=name,
            fields={k: rename(v) for k, v in fields.items()})

    def template(self, cls):
        """Fields of an instance whose identity matters to the analysis."""
        if cls.qualname in self.templates:
            return self.templates[cls.qualname]
        self.templates[cls.qualname] = ({}, {})
        fields, heap = {}, {}
        f = cls.methods.get('__init__')
        if f is not None:
            outer, self.making = getattr(self, 'making', False), True
            saved = self.I.snapshot()
            try:
                outs = self.analyse(f, dict(), WORLD, record=False)
            except RecursionError:
                outs = None
            self.making = outer
            self.I.restore(saved)
            if outs is not None:
                st, selfref = outs
                for k, v in st.heap[selfref].fields.items():
                    keep = any(isinstance(r, (Comm, FuncD, ClassD, ModD))
                        for r in v.refs)
                    shared = any(not isinstance(r, Desc)
                        and r in st.heap and st.heap[r].shared is not None
                        for r in v.refs)
                    if keep or shared:
                        refs = set()
                        for r in v.refs:
                            if isinstance(r, Desc):
                                if isinstance(r, MethD):
                                    continue
                                refs.add(r)
                            elif r in st.heap:
                                o = st.heap[r]
                                if o.kind not in ('array', 'unknown'):
                                    continue
                                heap[r] = o.but(taint=EMPTY, pend=EMPTY,
                                    origin='self.' + str(k), fields={
                                    a: b for a, b in o.fields.items()
                                    if all(isinstance(x, Comm)
                                        for x in b.refs)}, elem=None,
                                    items=None)
                                refs.add(r)
                        fields[k] = V(refs=frozenset(refs), none=v.none
                            or v.const is None and v.const is not NC)
        self.templates[cls.qualname] = (fields, heap)
        return self.templates[cls.qualname]

    def analyse(self, f, flags, comm, record=True):
        I = self.I
        I.reset()
        I.roots = frozenset(['world'] if comm == WORLD else ['world', 'P'])
        env0 = Env(('module', f.module.name), {}, None, f.module, None)
        state = State(env0, {})
        doc = doc_types(f.doc())
        if f.cls is not None:
            d2 = doc_types(f.cls.doc())
            if f.name == '__init__':
                doc = dict(d2, **doc)
        ds = defaults_of(f)
        bound = {}
        selfref = None
        names = param_names(f)
        I.active.append((f, 0))
        try:
            for n, name in enumerate(names):
                if n == 0 and f.cls is not None and not f.static:
                    if f.classmethod or f.name == '__new__':
                        bound[name] = V(refs=frozenset([ClassD(f.cls)]))
                        continue
                    selfref = ('self', f.cls.qualname)
                    fields, heap = {}, {}
                    if f.name != '__init__':
                        fields, heap = self.template(f.cls)
                    kind = 'array' if is_array_class(f.cls) else 'inst'
                    state.heap.update(heap)
                    state.heap[selfref] = Obj(kind, cls=f.cls,
                        fields=dict(fields), origin='self')
                    if kind == 'array' and not (f.name.startswith('__')
                            and f.name.endswith('__')):
                        # see extmodel.shared_bcast: valid only on the node of
                        # the first process and not yet synchronised
                        nc, ic = node_images(comm)
                        give = f.name == 'Bcast'
                        state.heap[selfref] = state.heap[selfref].but(
                            fields={'node': V(refs=frozenset([nc])),
                                'images': V(refs=frozenset([ic]))},
                            shared=(nc, ic), taint=frozenset([R(ic)])
                            if give else EMPTY, pend=frozenset([nc.name])
                            if give else EMPTY)
                    bound[name] = V(refs=frozenset([selfref]))
                    continue
                if name in flags and flags[name] is not NOTNONE:
                    bound[name] = const(flags[name])
                    continue
                if name in ds and is_comm_default(f, ds[name]) \
                        or name == 'comm':
                    bound[name] = V(refs=frozenset([comm]))
                    continue
                bound[name] = self.param_value(f, name, doc, ds.get(name),
                    state, n == 0)
                if name in flags:
                    bound[name] = bound[name].but(none=False)
            a = f.args
            if a.vararg is not None:
                oid = ('p', f.qualname, a.vararg.arg)
                state.heap[oid] = Obj('unknown', origin=a.vararg.arg)
                t = ('pt', f.qualname, a.vararg.arg)
                state.heap[t] = Obj('tuple', items=())
                bound[a.vararg.arg] = V(refs=frozenset([t]))
            if a.kwarg is not None:
                oid = ('p', f.qualname, a.kwarg.arg)
                state.heap[oid] = Obj('unknown', origin=None)
                t = ('pt', f.qualname, a.kwarg.arg)
                state.heap[t] = Obj('dict', elem=V(refs=frozenset([oid])),
                    fields={('k', k): const(x)
                    for k, x in flags.get('**', ())})
                bound[a.kwarg.arg] = V(refs=frozenset([t]))
        finally:
            I.active.pop()

        parent = None
        env = Env(I.new_fid(), bound, parent, f.module, f)
        s = State(env, state.heap, (), (), ())
        I.active.append((f, 0))
        try:
            v, s2 = I.run_body(f, s)
            if record:
                self.finish(f, flags, comm, v, s2, selfref)
            if s2 is None:
                return None
        finally:
            I.active.pop()
        return s2, selfref

    def finish(self, f, flags, comm, v, st, selfref):
        I, run = self.I, self.run
        tag = ', '.join('%s=%s' % x for x in sorted(flags.items(), key=lambda x: x[0]))
        if comm != WORLD:
            tag = ', '.join(filter(None, [tag, 'sub-communicator']))
        if st is not None:
            replicate = all(x for k, x in [*flags.items(),
                *flags.get('**', ())] if k in ('broadcast', 'share')) \
                and not flags.get('single_memory') \
                and not flags.get('only_info')
            self.check_end(f, v, st, selfref, replicate, comm)
            # routines handed out to the caller
            for d in sorted(v.refs, key=repr):
                if isinstance(d, FuncD) and (d.func.parent is not None
                        or isinstance(d.func.node, ast.Lambda)):
                    self.closure(f, d, st, replicate, comm)
        if comm != WORLD:
            for op, c, where, func in I.events:
                if 'P' not in c.ancestors() and c != SELF:
                    run.add('comm-scope', func, '%s@%s' % (op, c.name),
                        '%s: in %s: collective operation %s involves '
                        'processes outside the communicator the routine %s '
                        'was given' % (where, func, op, f.qualname))
        for rule, func, construct, msg in I.log:
            if rule == 'file-writer' and func == f.qualname:
                # see engine.analyse
                rule = 'file-writer-own'
            run.add(rule, func, construct, msg + (' [%s called with %s]'
                % (f.qualname, tag) if tag else ' [via %s]' % f.qualname))
        for e in I.effects:
            run.effects.setdefault((e['func'], e['text'], e['where']),
                []).append(e)
        for g in I.gathers:
            run.gathers.setdefault((g['func'], g['where']), []).append(g)
        for m in I.muts:
            run.muts.setdefault((f.qualname, m[0], m[1], m[2]), m)
        for c in I.commcalls:
            run.commcalls.setdefault((c[0], c[1], c[2], c[4], c[5]), c)
        for e in I.events:
            run.events.setdefault((e[0], e[1].name, e[2], e[3]), e)
        run.div_checks += I.div_checks
        run.dist_sites |= I.dist_sites
        run.shared_sites |= I.shared_sites
        run.robin = getattr(run, 'robin', 0) + I.robin_sites

    def check_end(self, f, v, st, selfref, replicate, comm):
        I, run = self.I, self.run
        run.returns += 1
        for r in sorted((r for r in v.refs if not isinstance(r, Desc)
                and r in st.heap), key=repr):
            if st.heap[r].mode == 'uninit' and st.heap[r].shared is None:
                run.add('result-uninit', f.qualname, 'return', '%s: in %s: the '
                    'returned array has been allocated but never filled'
                    % (f.module.where(f.node), f.qualname))
        if replicate:
            T = self.value_taint(st, v)
            if T:
                run.add('result-taint', f.qualname, 'return',
                    '%s: in %s: the returned value differs between processes '
                    '(%s)' % (f.module.where(f.node), f.qualname,
                    ', '.join(sorted(T))))
            given = [('self', selfref)] if selfref is not None else []
            given += [('result', r) for r in self.instances(st, v)
                if r != selfref]
            for name, r in given:
                o = st.heap.get(r)
                if o is None:
                    continue
                if name == 'self' and o.shared is not None and o.taint:
                    run.add('result-taint', f.qualname, 'self', '%s: in %s: '
                        'shared memory differs between nodes (%s)'
                        % (f.module.where(f.node), f.qualname,
                        ', '.join(sorted(o.taint))))
                for k, x in o.fields.items():
                    T = self.value_taint(st, x)
                    if T and not self.local_attr(f if name == 'self' else o,
                            'self.%s' % (k,)):
                        run.add('result-taint', f.qualname, '%s.%s'
                            % (name, k), '%s: in %s: attribute %s%s differs '
                            'between processes (%s)' % (f.module.where(f.node),
                            f.qualname, k, '' if name == 'self' else
                            ' of the result', ', '.join(sorted(T))))
            for r, o in list(st.heap.items()):
                if not (isinstance(r, tuple) and r and r[0] == 'p'
                        and o.kind == 'inst' and o.cls is not None):
                    continue
                for k, x in o.fields.items():
                    T = self.value_taint(st, x)
                    if T and not self.local_attr(o, 'self.%s' % (k,)):
                        run.add('result-taint', f.qualname, '%s.%s'
                            % (o.origin, k), '%s: in %s: attribute %s of '
                            'argument %s differs between processes (%s)'
                            % (f.module.where(f.node), f.qualname, k,
                            o.origin, ', '.join(sorted(T))))
            reach = self.roots_of(st, v, selfref)
            written = {m[0] for m in I.muts}
            for r in reach:
                o = st.heap[r]
                if isinstance(r, tuple) and r and r[0] in ('p', 'f') \
                        and o.taint and o.origin in written \
                        and not self.local_attr(f, o.origin):
                    run.add('result-taint', f.qualname, 'argument %s'
                        % (o.origin,), '%s: in %s: data written to argument '
                        '%s differ between processes (%s)'
                        % (f.module.where(f.node), f.qualname, o.origin,
                        ', '.join(sorted(o.taint))))
        for r in self.roots_of(st, v, selfref):
            o = st.heap[r]
            if o.pend and o.shared is not None and o.shared[0] != SELF \
                    and o.shared[1] != SELF:
                run.add('shared-sync', f.qualname, 'end',
                    '%s: in %s: shared memory is handed out before a barrier '
                    'separates it from the last write'
                    % (f.module.where(f.node), f.qualname))

    def instances(self, st, v):
        """Objects of known classes handed out."""
        out = []
        todo = [v]
        for n in range(3):
            nxt = []
            for x in todo:
                for r in sorted((r for r in x.refs if not isinstance(r, Desc)
                        and r in st.heap), key=repr):
                    o = st.heap[r]
                    if o.kind == 'inst' and o.cls is not None:
                        if r not in out:
                            out.append(r)
                    else:
                        nxt += list(o.items or ())
                        if o.elem is not None:
                            nxt.append(o.elem)
            todo = nxt
        return out

    def roots_of(self, st, v, selfref):
        reach = set()
        self.reachable(st, v, reach)
        if selfref is not None:
            self.reachable(st, V(refs=frozenset([selfref])), reach)
        for r, o in st.heap.items():
            if isinstance(r, tuple) and r and r[0] == 'p':
                self.reachable(st, V(refs=frozenset([r])), reach)
        return reach

    def reachable(self, st, v, seen):
        for r in v.refs:
            if isinstance(r, Desc) or r in seen or r not in st.heap:
                continue
            seen.add(r)
            o = st.heap[r]
            for x in list(o.items or ()) + list(o.fields.values()) \
                    + ([o.elem] if o.elem is not None else []):
                self.reachable(st, x, seen)

    # handles of graphical output and progress bars live on one process
    LOCAL = {
        'misc.StatusBar': None,
        'md.Driver': {'axes', 'interactive', 'pause', 'quiver', 'scale',
            'scatter', 'size', 'figure', 'fig', 'plt'},
        }

    def local_attr(self, f, name):
        if f.cls is not None and name is not None and name[5:] in CACHES.get(
                f.cls.qualname, ()):
            return True
        if f.cls is None or name is None or not name.startswith('self.'):
            return False
        q = f.cls.qualname
        return q in self.LOCAL and (self.LOCAL[q] is None
            or name.split('.')[1] in self.LOCAL[q])

    def value_taint(self, st, v):
        I = self.I
        T = I.deep_taint(st, v)
        if any(isinstance(r, Comm) for r in v.refs):
            return EMPTY
        return T

    def closure(self, f, d, st, replicate, comm):
        I = self.I
        s = State(st.env, dict(st.heap), (), (), ())
        args = []
        for n, p in enumerate(d.func.args.args):
            if n == 0 and d.selfv is not None:
                continue
            oid = ('p', d.func.qualname, p.arg)
            s.heap[oid] = Obj('unknown', origin='argument ' + p.arg)
            args.append(V(refs=frozenset([oid])))
        I.active.append((f, 0))
        try:
            base = s.trace
            v = I.inline(d, args, {}, d.func.node, s)
            if not s.dead and replicate:
                T = I.deep_taint(s, v)
                if T:
                    self.run.add('result-taint', d.func.qualname, 'return',
                        '%s: in %s: the value of the returned routine differs '
                        'between processes (%s)'
                        % (f.module.where(d.func.node), d.func.qualname,
                        ', '.join(sorted(T))))
        finally:
            I.active.pop()

    def entries(self):
        for f in self.project.all_functions():
            if f.module.name == 'elphmod.MPI' and f.cls is not None \
                    and f.cls.name in ('Communicator', 'Interface'):
                continue
            yield f

    def go(self, only=None):
        import time
        for f in self.entries():
            if only is not None and not (f.qualname == only
                    if getattr(self, 'exact', None) else
                    f.qualname.startswith(only)):
                continue
            if (private(f) or f.qualname not in API) and self.called(f):
                continue
            ctxs, _ = self.contexts(f)
            for flags, comm in ctxs:
                t0 = time.time()
                try:
                    self.analyse(f, flags, comm)
                except RecursionError as e:
                    self.run.errors.append((f.qualname, repr(e)))
                    self.I.active.clear()
                dt = time.time() - t0
                self.run.entries.append((f.qualname, flags, comm.name, dt))
                if self.progress:
                    self.progress(f, flags, comm, dt)
        self.run.stats = dict(self.I.stats)
        return self.run

    def called(self, f):
        if not hasattr(self, '_names'):
            names = {}
            for m in self.project.modules.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Name):
                        names[n.id] = names.get(n.id, 0) + 1
                    elif isinstance(n, ast.Attribute):
                        names[n.attr] = names.get(n.attr, 0) + 1
            self._names = names
        return self._names.get(f.name, 0) > 0

API = frozenset(x for x in open(os.path.join(os.path.dirname(
    os.path.abspath(__file__)), 'api.txt')).read().split('\n')
    if x and not x.startswith('#'))

def private(f):
    return f.name.startswith('_') and not f.name.startswith('__')
