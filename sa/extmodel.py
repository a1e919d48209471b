"""Models of external functions, methods and communicator operations."""

import ast

from .poly import Poly
from .interp import (V, NC, NONE, EMPTY, const, Comm, WORLD, SELF, R, ExtD,
    FuncD, ClassD, MethD, Desc, Star, Guard, VIEW_FUNCS, VIEW_METHODS,
    MUTATING_METHODS, MUTATING_EXT, COLLECTIVES, SYNCHRONISING, FILE_EFFECTS,
    RANDOM_PREFIXES, join_v, join_opt, is_star, seq_prod, Obj, Env, State)

ALLOC = {'zeros', 'empty', 'ones', 'full', 'ndarray'}
ALLOC_LIKE = {'zeros_like', 'empty_like', 'ones_like', 'full_like'}

SCALAR_BUILTINS = {'int', 'float', 'complex', 'bool', 'str', 'repr', 'ord',
    'chr', 'isinstance', 'issubclass', 'callable', 'hash', 'id', 'format',
    'hex', 'bin', 'divmod', 'hasattr', 'any', 'all', 'bytes'}

def unstar(x):
    return x.v if isinstance(x, Star) else x

def shape_from(I, state, v):
    """Extents given as integer or sequence; tuple of Poly/star or None."""
    if v is None:
        return None
    if v.seq is not None:
        return v.seq
    if v.sym is not None and not v.refs:
        return (v.sym,)
    x = I.valsym(state, v)
    if x is not None and v.sym is None:
        return None # scalar or tuple
    items = I.known_items(state, v)
    if items is not None:
        out = []
        for x in items:
            x = I.valsym(state, x)
            if x is None:
                return None
            out.append(x)
        return tuple(out)
    return None

def rest_of(I, v, shape):
    """Resolve the extent that follows from the size of the array."""
    if shape is None:
        return None
    return tuple(Poly.atom('rest', I.refkey(v), shape) if not is_star(x)
        and x.is_const() and x.value() < 0 else x for x in shape)

def dtype_of(I, state, v):
    if v is None:
        return ('const', 'float')
    if v.tag is not None and v.tag[0] == 'dtype':
        return v.tag[1]
    for r in v.refs:
        if isinstance(r, ExtD):
            n = r.name.split('.')[-1]
            return ('const', {'float64': 'float', 'complex128': 'complex',
                'int64': 'int', 'float_': 'float', 'complex_': 'complex',
                'bool_': 'bool'}.get(n, n))
    return None

def call(I, name, args, kwargs, node, state):
    I.use_args(state, args, kwargs, node)
    parts = name.split('.')
    short = parts[-1]
    pos = [unstar(a) for a in args]
    star = any(isinstance(a, Star) for a in args)
    t = I.args_taint(state, args, kwargs)

    def arg(i, kw=None):
        if kw is not None and kw in kwargs:
            return kwargs[kw]
        return pos[i] if i < len(pos) and not star else None

    if parts[0] == 'builtins':
        return call_builtin(I, short, args, pos, kwargs, node, state, t, arg)

    if name in ('sys.exit', 'os._exit', 'os.abort'):
        state.dead = 'raise'
        return V()

    if name in FILE_EFFECTS or name in ('os.chdir',):
        which = pos[0] if pos else kwargs.get('fname', kwargs.get('filename'))
        I.file_effect(name, which, node, state)
        if name == 'numpy.memmap':
            mode = kwargs.get('mode', arg(2))
        return I.new(state, node, 'unknown', taint=t)

    if any(name.startswith(p) for p in RANDOM_PREFIXES):
        if short in ('seed',):
            return NONE
        return I.new(state, node, 'array', taint=t | {R(WORLD)})

    if 'out' in kwargs:
        I.mutate(state, kwargs['out'], node, t, 'out=')
        return kwargs['out']

    if name in MUTATING_EXT:
        k = MUTATING_EXT[name]
        if k < len(pos):
            I.mutate(state, pos[k], node, t, short)
        return NONE

    if parts[0] == 'mpi4py':
        if short == 'Allocate_shared':
            c = kwargs.get('comm', arg(3))
            for d in I.descs(c) if c is not None else ():
                if isinstance(d, Comm):
                    I.emit('Allocate_shared', d, node, state)
            return I.new(state, node, 'unknown', extra='window')
        return V()

    # functions passed on to external routines are called an unknown number
    # of times
    if short in ('vectorize', 'wraps', 'lru_cache', 'cache', 'njit', 'jit',
            'frompyfunc'):
        return pos[0] if pos else V()
    if name == 'functools.partial':
        return pos[0] if pos else V()

    inner = ()
    for v in pos + list(kwargs.values()):
        for d in I.descs(v):
            if isinstance(d, FuncD) and len(I.active) <= I.max_depth:
                base = state.trace
                state.trace = ()
                n = len(d.func.args.args)
                tn = V(taint=t)
                r = I.call_func(d, [tn] * max(0, n - (d.selfv is not None)),
                    {}, node, state)
                tr = state.trace
                t = t | I.deep_taint(state, r)
                state.dead = None
                state.trace = base + ((('loop', tr),) if tr else ())
                if t and tr:
                    I.check_no_events(tr, t, node, 'callback')

    if short == 'Create_contiguous' and pos:
        v = I.new(state, node, 'unknown', extra='datatype')
        return v.but(tag=('datatype', pos[0].sym))

    if parts[0] == 'numpy':
        if short in ALLOC:
            sv = arg(0, 'shape')
            shape = shape_from(I, state, sv)
            st = I.deep_taint(state, sv) if sv is not None else EMPTY
            if st and not state.gtaint():
                for x in (sv, *(I.known_items(state, sv) or ())):
                    if x.none and x.taint and x.const is NC:
                        I.report('bcast-extent', node, 'None', 'an extent is '
                            'only known to some processes and None for others '
                            '(%s)' % ', '.join(sorted(x.taint)))
                        break
            dt = dtype_of(I, state, kwargs.get('dtype',
                arg(2) if short == 'full' else arg(1)))
            o = I.new(state, node, 'array', shape=shape, dtype=dt,
                taint=t if short == 'full' else st)
            if st or short == 'empty':
                alone = any(WORLD.name == x or x in I.roots
                    for x in state.only())
                for r in o.refs:
                    state.heap[r] = state.heap[r].but(mode='local' if st
                        else 'uninit', extent=EMPTY if alone else st)
            return o
        if short in ALLOC_LIKE and pos:
            return I.new(state, node, 'array', shape=pos[0].shape or
                I.shape_seq(pos[0]), dtype=pos[0].dtype
                if 'dtype' not in kwargs
                else dtype_of(I, state, kwargs['dtype']),
                taint=I.shape_taint_of(state, pos[0]))
        if short in ('arange', 'linspace'):
            shape = None
            if short == 'arange' and len(pos) == 1 and pos[0].sym is not None:
                shape = (pos[0].sym,)
            if len(pos) == 1 and pos[0].tag is not None \
                    and pos[0].tag[0] == '*brange':
                return V(taint=t, tag=('items', pos[0].tag[1]))
            return I.new(state, node, 'array', taint=t, shape=shape)
        if short in ('sqrt', 'ceil', 'floor', 'log', 'exp') \
                and len(pos) == 1 and not kwargs and pos[0].scalar \
                and pos[0].sym is not None:
            return V(sym=Poly.atom(short, pos[0].sym), taint=t, scalar=True)
        if short in ('prod', 'product') and pos:
            v = pos[0]
            if 'axis' not in kwargs and len(pos) == 1:
                s = v.seq
                if s is None:
                    s = shape_from(I, state, v) if v.refs else None
                if s is not None:
                    p = seq_prod(s)
                    if p is not None:
                        return V(sym=p, taint=t, scalar=True,
                            const=int(p.value()) if p.is_const()
                            and p.value().denominator == 1 else NC)
                if v.refs and (v.tag is None or v.tag[0] not in ('view',
                        'elem')):
                    return V(sym=seq_prod(I.star_of(v)), taint=t,
                        scalar=True)
            return I.new(state, node, 'array', taint=t)
        if short == 'dtype' and pos:
            return V(tag=('dtype', dtype_of(I, state, pos[0])))
        if short in VIEW_FUNCS and pos:
            v = pos[0]
            if short in ('asarray', 'asanyarray', 'ascontiguousarray',
                    'asfortranarray', 'require') and I.is_list(state, v):
                return I.new(state, node, 'array', taint=t)
            shape = None
            if short == 'reshape':
                shape = rest_of(I, v, shape_from(I, state, arg(1)))
            elif short.startswith('as'):
                shape = v.shape
            if shape is None and v.refs:
                shape = (('*', 'view', (I.refkey(v), id(node), I.cur_ctx()),
                    0, None),)
            return V(refs=frozenset(r for r in v.refs
                if not isinstance(r, Desc)), taint=I.shape_only_taint(state,
                pos, kwargs), shape=shape,
                tag=('view',)) if any(True for _ in I.objs(state, v)) \
                else I.new(state, node, 'array', taint=t)
        if short in ('array', 'copy') and pos:
            v = pos[0]
            copy = kwargs.get('copy')
            if copy is not None and copy.const is False:
                return V(refs=v.refs, taint=t, shape=v.shape)
            shape = v.shape if not I.is_list(state, v) else None
            r = I.new(state, node, 'array', taint=t, shape=shape)
            if v.tag is not None and v.tag[0] == 'gathered':
                r = r.but(tag=v.tag)
            return r
        if short == 'shape' and pos:
            return I.getattr(pos[0], 'shape', state, node)
        if short in ('ndim', 'size') and pos and len(pos) == 1:
            return V(taint=I.shape_taint_of(state, pos[0]), scalar=True)
        return I.new(state, node, 'array', taint=t)

    if parts[0] == 'os' and parts[1:2] == ['path'] or name in ('os.getcwd',
            'os.getenv', 'os.listdir', 'os.access', 'os.environ.get'):
        return V(taint=t, scalar=True)

    if name == 'copy.deepcopy' or name == 'copy.copy':
        if pos:
            return copy_value(I, state, pos[0], node, 4
                if short == 'deepcopy' else 1)

    return I.new(state, node, 'unknown', taint=t, extra='ext')

def copy_value(I, state, v, node, depth, n=0):
    out = set()
    for r in v.refs:
        if isinstance(r, Desc):
            out.add(r)
            continue
        o = state.heap.get(r)
        if o is None:
            continue
        oid = ('copy', id(node), I.cur_ctx(), r)
        I.node_ids[id(node)] = node
        items = o.items
        fields = o.fields
        elem = o.elem
        if depth > 1:
            if items is not None:
                items = tuple(copy_value(I, state, x, node, depth - 1)
                    for x in items)
            if elem is not None:
                elem = copy_value(I, state, elem, node, depth - 1)
            fields = {k: copy_value(I, state, x, node, depth - 1)
                for k, x in fields.items()}
        state.heap[oid] = Obj(o.kind, o.cls, o.taint, fields, elem, items,
            None, EMPTY, None, o.mode)
        out.add(oid)
    return v.but(refs=frozenset(out))

def call_builtin(I, short, args, pos, kwargs, node, state, t, arg):
    star = any(isinstance(a, Star) for a in args)

    if short in ('exit', 'quit'):
        state.dead = 'raise'
        return V()

    if short == 'open':
        mode = arg(1, 'mode')
        m = 'r' if mode is None else mode.const
        name = arg(0, 'file')
        write = not isinstance(m, str) or any(c in m for c in 'wax+')
        if write:
            I.file_effect('open', name, node, state)
        v = I.new(state, node, 'file', extra='open', taint=EMPTY
            if name is None else I.deep_taint(state, name))
        for r in v.refs:
            state.heap[r] = state.heap[r].but(mode='w' if write else 'r')
        return v

    if short == 'print':
        return NONE

    if short == 'input':
        return V(taint=t | {R(WORLD)}, scalar=True)

    if short == 'len' and pos:
        v = pos[0]
        st = I.shape_taint_of(state, v)
        if v.shape is not None and v.shape and not is_star(v.shape[0]):
            return V(sym=v.shape[0], taint=st, scalar=True)
        if v.seq is not None and not any(is_star(x) for x in v.seq):
            return const(len(v.seq), st)
        items = I.known_items(state, v)
        if items is not None:
            return const(len(items), st)
        if v.refs:
            return V(sym=Poly.atom('dim', 'shape', I.refkey(v), 0), taint=st,
                scalar=True)
        return V(taint=st, scalar=True)

    if short == 'range':
        if len(args) == 1 and pos[0].tag is not None \
                and pos[0].tag[0] == '*brange':
            return V(tag=('items', pos[0].tag[1]), taint=pos[0].taint)
        if len(pos) == 2 and not star:
            a, b = pos
            for x in (a.sym.atoms() if a.sym is not None else ()):
                if isinstance(x, tuple) and x[0] in ('B', 'Bk') \
                        and a.sym == Poly.atom(*x):
                    # explicit bounds
                    if x[0] == 'B' and b.sym is not None:
                        if b.sym - a.sym == Poly.atom('S', x[1]):
                            return V(tag=('items', x[1]), taint=t)
                        if any(y[0] in ('B', 'S', 'Bk') for y in
                                b.sym.atoms() if isinstance(y, tuple)):
                            I.report('dist-range', node, 'range',
                                'the range over distributed work does not end '
                                'at the next bound')
        if len(pos) == 3 and not star:
            a, b, c = pos
            ra = [x for x in (a.sym.atoms() if a.sym is not None else ())
                if isinstance(x, tuple) and x[0] == 'rank']
            if ra and c.sym is not None:
                I.robin_sites = getattr(I, 'robin_sites', 0) + 1
                if a.sym != Poly.atom(*ra[0]) \
                        or c.sym != Poly.atom('size', ra[0][1]):
                    I.report('dist-robin', node, 'strided range',
                        'items are dealt out with stride %s starting from %s'
                        % (c.sym, a.sym))
        return V(taint=t, tag=('range',), scalar=False)

    if short == 'enumerate' and pos:
        v = pos[0]
        if v.tag is not None and v.tag[0] == 'items' and len(pos) == 1 \
                and not kwargs:
            return v.but(tag=('enum', v.tag[1]))
        x = I.element_of_iter(v, node, state, node)
        pair = I.new(state, node, 'tuple', extra='pair',
            items=(V(scalar=True, taint=v.taint,
                sym=Poly.atom('loop', id(node), I.cur_ctx())), x))
        return I.new(state, node, 'iter', extra='enum', elem=pair,
            taint=I.iter_taint(state, v))

    if short == 'zip':
        xs = []
        ti = EMPTY
        for a in pos:
            ti |= I.iter_taint(state, a)
            xs.append(I.element_of_iter(a, node, state, node))
        if star:
            e = None
            for x in xs:
                e = join_opt(e, x)
            tup = I.new(state, node, 'tuple', extra='pair', elem=e)
        else:
            tup = I.new(state, node, 'tuple', extra='pair', items=tuple(xs))
        return I.new(state, node, 'iter', extra='zip', elem=tup, taint=ti)

    if short in ('list', 'tuple', 'set', 'frozenset', 'sorted', 'reversed',
            'iter'):
        if not pos:
            return I.new(state, node, 'list' if short == 'sorted' else short,
                items=() if short in ('list', 'tuple') else None)
        v = pos[0]
        kind = {'frozenset': 'set', 'sorted': 'list', 'reversed': 'iter'} \
            .get(short, short)
        ti = I.iter_taint(state, v)
        items = I.known_items(state, v)
        if items is not None and short in ('list', 'tuple'):
            return I.new(state, node, kind, items=items, taint=ti).but(
                seq=v.seq)
        if v.seq is not None and short in ('list', 'tuple'):
            r = I.new(state, node, kind, taint=ti | v.taint)
            return r.but(seq=v.seq)
        x = I.element_of_iter(v, node, state, node)
        if short == 'sorted' or short in ('set', 'frozenset'):
            ti = ti | I.deep_taint(state, v)
        return I.new(state, node, kind, elem=x, taint=ti)

    if short == 'dict':
        fields = {}
        elem = None
        for k, v in kwargs.items():
            if k == '**':
                for r, o in I.objs(state, v):
                    fields.update(o.fields)
                    elem = join_opt(elem, o.elem)
            else:
                fields['k', k] = v
        for v in pos:
            for r, o in I.objs(state, v):
                if o.kind == 'dict':
                    fields.update(o.fields)
                    elem = join_opt(elem, o.elem)
                else:
                    elem = join_opt(elem, V(taint=I.deep_taint(state, v)))
        return I.new(state, node, 'dict', fields=fields, elem=elem)

    if short == 'getattr' and len(pos) >= 2:
        if isinstance(pos[1].const, str):
            v = I.getattr(pos[0], pos[1].const, state, node)
            if len(pos) > 2:
                v = join_v(v, pos[2])
            return v
        return V(taint=t)

    if short == 'setattr' and len(pos) == 3:
        if isinstance(pos[1].const, str):
            I.set_attr(pos[0], pos[1].const, pos[2], state, node)
        return NONE

    if short == 'int' and pos and pos[0].sym is not None and pos[0].scalar:
        return V(sym=pos[0].sym, taint=t, scalar=True, const=pos[0].const
            if isinstance(pos[0].const, int) else NC)

    if short == 'int' and len(pos) == 1:
        x = I.valsym(state, pos[0])
        if x is not None:
            return V(sym=Poly.atom('int', x), taint=t, scalar=True)

    if short in SCALAR_BUILTINS:
        c = NC
        if short == 'bool' and pos:
            tr = I.truth(pos[0], state)
            if tr is not None:
                c = tr
            return V(const=c, taint=t, scalar=True, pred=pos[0].pred)
        if short == 'hasattr':
            return V(scalar=True)
        if short in ('any', 'all') and pos:
            return V(taint=t, scalar=True)
        return V(taint=t, scalar=True)

    if short == 'slice':
        return V(taint=t, tag=('slice',))

    if short in ('map', 'filter') and pos:
        base = state.trace
        xs = [I.element_of_iter(v, node, state, node) for v in pos[1:]]
        ti = EMPTY
        for v in pos[1:]:
            ti |= I.iter_taint(state, v)
        state.trace = ()
        r = I.call(pos[0], xs, {}, node, state)
        inner = state.trace
        if ti:
            I.check_no_events(inner, ti, node, 'map')
        state.trace = base + ((('loop', inner),) if inner else ())
        if short == 'filter':
            ti = ti | I.deep_taint(state, r)
            r = xs[0] if xs else V()
        return I.new(state, node, 'iter', extra=short, elem=r, taint=ti)

    if short == 'next' and pos:
        x = I.element(state, pos[0], node)
        return x.but(taint=x.taint | I.iter_taint(state, pos[0]))

    if short in ('min', 'max', 'abs', 'round', 'pow'):
        if short == 'round' and len(pos) == 1:
            x = I.valsym(state, pos[0])
            if x is not None:
                return V(sym=Poly.atom('round', x), taint=t, scalar=True)
        if pos and all(not any(True for _ in I.objs(state, v)) for v in pos):
            return V(taint=t, scalar=True)
        return I.new(state, node, 'array', extra=short, taint=t)

    if short == 'sum':
        return I.new(state, node, 'array', extra=short, taint=t)

    if short == 'type':
        return V(taint=EMPTY)

    if short == 'super':
        f = I.active[-1][0] if I.active else None
        return V()

    if short in ('vars', 'globals', 'locals', 'dir'):
        return I.new(state, node, 'unknown', taint=t)

    return I.new(state, node, 'unknown', extra='builtin', taint=t)

# --- methods ------------------------------------------------------------------

def method(I, d, args, kwargs, node, state):
    recv, name = d.recv, d.name
    comms = [r for r in recv.refs if isinstance(r, Comm)]
    if comms:
        if len(comms) == 1:
            return comm_op(I, comms[0], name, args, kwargs, node, state)
        result = None
        base = state.trace
        traces = []
        for c in sorted(comms, key=repr):
            state.trace = ()
            result = join_opt(result, comm_op(I, c, name, args, kwargs, node,
                state))
            traces.append(state.trace)
        from .interp import join_traces
        t = traces[0]
        for t2 in traces[1:]:
            t = join_traces(t, t2)
        state.trace = base + t
        return result

    I.use_args(state, args, kwargs, node)
    pos = [unstar(a) for a in args]
    t = I.args_taint(state, args, kwargs)
    rt = I.deep_taint(state, recv)
    objs = list(I.objs(state, recv))

    # callbacks
    for v in pos + list(kwargs.values()):
        for f in I.descs(v):
            if isinstance(f, FuncD) and name in ('sort',):
                n = len(f.func.args.args)
                I.call_func(f, [V()] * n, {}, node, state)

    if not objs:
        if name in ('split', 'rsplit', 'splitlines', 'partition',
                'rpartition'):
            return I.new(state, node, 'list', extra='split',
                elem=V(scalar=True, taint=t | rt), taint=t | rt)
        if name in ('format', 'strip', 'join', 'lower', 'upper', 'replace',
                'lstrip', 'rstrip', 'startswith', 'endswith', 'index', 'find',
                'count', 'decode', 'encode', 'isdigit', 'title', 'center',
                'ljust', 'rjust', 'zfill', 'capitalize', 'isalpha', 'group'):
            return V(taint=t | rt, scalar=True)
        return I.new(state, node, 'unknown', extra='meth', taint=t | rt)

    if name == 'Commit' and recv.tag is not None:
        return recv
    kinds = {o.kind for r, o in objs}
    if name != 'Bcast' and name not in VIEW_METHODS:
        I.check_use(state, recv, node)

    if name == 'Bcast' and any(o.shared is not None or 'images' in o.fields
            for r, o in objs) and kinds <= {'array'}:
        return shared_bcast(I, recv, objs, node, state)

    if kinds <= {'file'}:
        if name in ('read', 'readline', 'readlines', '__next__'):
            if name == 'readlines':
                return I.new(state, node, 'list', extra='lines',
                    elem=V(scalar=True, taint=rt), taint=rt)
            return V(taint=rt, scalar=True)
        return V(taint=rt)

    if name in ('tofile', 'dump', 'savefig', 'write_text', 'mkdir', 'unlink',
            'to_csv'):
        I.file_effect('.' + name, pos[0] if pos else None, node, state)
        return NONE

    if kinds & {'list', 'tuple', 'set', 'iter'} and not kinds - {'list',
            'tuple', 'set', 'iter', 'dict'}:
        if name in ('append', 'add', 'insert', 'extend', 'update'):
            v = pos[-1] if pos else V()
            for r, o in objs:
                I.write_obj(state, r, node, EMPTY, name)
                o = state.heap[r]
                if name in ('extend', 'update') and o.kind != 'dict':
                    x = I.element_of_iter(v, node, state, node)
                    ti = I.iter_taint(state, v)
                elif o.kind == 'dict':
                    x = V(taint=t)
                    fields = dict(o.fields)
                    for r2, o2 in I.objs(state, v):
                        fields.update(o2.fields)
                        x = join_opt(x, o2.elem)
                    for k, y in kwargs.items():
                        fields['k', k] = y
                    state.heap[r] = o.but(fields=fields,
                        elem=join_opt(o.elem, x))
                    continue
                else:
                    x = v
                    ti = EMPTY
                if name == 'append' and o.items is not None \
                        and len(o.items) < 12 and not state.gtaint() \
                        and not I.in_loop(node):
                    state.heap[r] = o.but(items=o.items + (x,))
                    continue
                elem = o.elem
                for y in o.items or ():
                    elem = join_opt(elem, y)
                state.heap[r] = o.but(items=None, elem=join_opt(elem, x),
                    taint=o.taint | ti)
            return NONE
        if name in MUTATING_METHODS:
            res = None
            for r, o in objs:
                I.write_obj(state, r, node, t, name)
                o = state.heap[r]
                if o.items is not None:
                    elem = o.elem
                    for y in o.items:
                        elem = join_opt(elem, y)
                    state.heap[r] = o.but(items=None, elem=elem)
                res = join_opt(res, state.heap[r].elem)
                for y in o.fields.values():
                    res = join_opt(res, y)
            if name in ('pop', 'popitem', 'setdefault'):
                return (res or V())
            return NONE
        if name == 'copy':
            return copy_value(I, state, recv, node, 1)
        if name in ('items', 'keys', 'values', 'get'):
            res = None
            for r, o in objs:
                res = join_opt(res, o.elem)
                for y in o.fields.values():
                    res = join_opt(res, y)
            res = res or V()
            ti = EMPTY
            for r, o in objs:
                ti |= o.taint
            if name == 'get':
                if pos and pos[0].const is not NC:
                    hit = None
                    for r, o in objs:
                        hit = join_opt(hit, o.fields.get(('k', pos[0].const)))
                    if hit is not None:
                        return hit.but(taint=hit.taint | ti)
                res = join_v(res, pos[1] if len(pos) > 1 else NONE)
                return res.but(taint=res.taint | ti | t)
            if name == 'items':
                res = I.new(state, node, 'tuple', extra='kv',
                    items=(V(scalar=True, taint=ti), res))
            elif name == 'keys':
                res = V(scalar=True, taint=ti)
            return I.new(state, node, 'iter', extra=name, elem=res, taint=ti)
        if name in ('index', 'count'):
            return V(taint=t | rt, scalar=True)
        return I.new(state, node, 'unknown', extra='meth', taint=t | rt)

    # arrays and unknown objects
    if 'out' in kwargs:
        I.mutate(state, kwargs['out'], node, t | rt, 'out=')
        return kwargs['out']

    if name in ('items', 'keys', 'values', 'get') and not pos \
            and kinds <= {'unknown', 'dict'}:
        return V(refs=recv.refs, taint=rt, tag=('elem',))

    if name == 'sum' and not pos and not kwargs and recv.tag is not None \
            and recv.tag[0] == 'gathered':
        return V(sym=Poly.atom('gsum', recv.tag[1].name, recv.tag[2])
            * recv.tag[3], taint=t | rt, scalar=True)

    if name == 'prod' and not pos and not kwargs and len(recv.refs) == 1 \
            and (recv.tag is None or recv.tag[0] not in ('view', 'elem')):
        return V(sym=seq_prod(I.star_of(recv)), taint=t | rt, scalar=True)

    if name in VIEW_METHODS or name == 'astype' and 'copy' in kwargs:
        shape = None
        if name == 'reshape':
            if len(pos) == 1:
                shape = shape_from(I, state, pos[0])
            elif pos and all(p.sym is not None for p in pos) \
                    and not any(isinstance(a, Star) for a in args):
                shape = tuple(p.sym for p in pos)
            shape = rest_of(I, recv, shape)
        if shape is None and recv.refs:
            shape = (('*', 'view', (I.refkey(recv), id(node), I.cur_ctx()),
                0, None),)
        return V(refs=recv.refs, taint=recv.taint | t, shape=shape,
            dtype=recv.dtype, tag=('view',))

    if name in MUTATING_METHODS:
        if kinds <= {'unknown', 'array', 'inst'} and name in ('add', 'update',
                'remove', 'clear', 'pop', 'discard') and 'inst' in kinds:
            return I.new(state, node, 'unknown', taint=t | rt)
        for r, o in objs:
            if o.kind == 'inst':
                continue
            I.write_obj(state, r, node, t, name)
        if name in ('pop', 'popitem', 'setdefault'):
            return V(refs=recv.refs, taint=rt, tag=('elem',))
        return NONE

    if name in ('copy', 'astype', 'flatten', 'conj', 'conjugate'):
        dt = recv.dtype
        if name == 'astype':
            dt = dtype_of(I, state, pos[0]) if pos else None
        return I.new(state, node, 'array', taint=rt | t, shape=recv.shape
            if name != 'flatten' else None, dtype=dt)

    if name in ('item', 'any', 'all', 'argmin', 'argmax') and not pos \
            and not kwargs:
        return V(taint=rt, scalar=True)

    if name in ('split', 'rsplit', 'splitlines'):
        return I.new(state, node, 'list', extra='split',
            elem=V(scalar=True, taint=t | rt), taint=t | rt)

    if name in ('strip', 'lower', 'upper', 'startswith', 'endswith', 'format',
            'join', 'replace'):
        return V(taint=t | rt, scalar=True)

    return I.new(state, node, 'array' if kinds <= {'array'} else 'unknown',
        extra='meth', taint=t | rt)

def shared_bcast(I, recv, objs, node, state):
    """Contract of SharedArray.Bcast."""
    for r, o in objs:
        images = o.fields.get('images')
        c = None
        for d in I.descs(images) if images is not None else ():
            if isinstance(d, Comm):
                c = d
        if c is not None and c != SELF:
            I.emit('Bcast', c, node, state)
        n = None
        for d in I.descs(o.fields.get('node', V())):
            if isinstance(d, Comm):
                n = d
        if n is not None and n != SELF:
            I.emit('Barrier', n, node, state)
        T = o.taint
        state.heap[r] = o.but(taint=I.after_bcast(c, T)
            if c is not None else T, pend=EMPTY)
        if n is not None:
            sync(I, n, state)
    return NONE

# --- communicators ------------------------------------------------------------

def sync(I, comm, state):
    for r, o in list(state.heap.items()):
        if o.pend:
            keep = frozenset(p for p in o.pend
                if not covers(comm, p, o))
            if keep != o.pend:
                state.heap[r] = o.but(pend=keep)

def covers(comm, name, o):
    """Does a barrier on comm synchronise all processes of comm `name`?"""
    if comm.name == name:
        return True
    ncomm = o.shared[0] if o.shared else None
    return ncomm is not None and comm.name in ncomm.ancestors()

def clean(I, state, v, node, f, depth=5):
    """Deep copy of v with all taints passed through f."""
    refs = set()
    for r in v.refs:
        if isinstance(r, Desc):
            refs.add(r)
            continue
        o = state.heap.get(r)
        if o is None:
            continue
        oid = ('bc', id(node), I.cur_ctx(), r)
        I.node_ids[id(node)] = node
        items, elem, fields = o.items, o.elem, o.fields
        if depth > 0:
            if items is not None:
                items = tuple(clean(I, state, x, node, f, depth - 1)
                    for x in items)
            if elem is not None:
                elem = clean(I, state, elem, node, f, depth - 1)
            fields = {k: clean(I, state, x, node, f, depth - 1)
                for k, x in fields.items()}
        if isinstance(oid[-1], tuple) and len(repr(oid)) > 600:
            oid = ('bc', id(node), I.cur_ctx(), 'deep')
        state.heap[oid] = Obj(o.kind, o.cls, f(o.taint), fields, elem, items,
            None, EMPTY, None, None if o.mode == 'local' else o.mode)
        refs.add(oid)
    return v.but(refs=frozenset(refs), taint=f(v.taint))

def buffer_of(I, state, v):
    """(buffer, counts) of a message specification."""
    items = I.known_items(state, v)
    if items is not None and I.is_list(state, v):
        if not items:
            return V(), None
        return items[0], items[1] if len(items) > 1 else None
    return v, None

def form_of(I, state, v):
    """Form of a message specification: 'in place', number of items, other."""
    if any(isinstance(r, ExtD) and r.name.endswith('IN_PLACE')
            for r in v.refs):
        return 'in place'
    items = I.known_items(state, v)
    if items is not None and I.is_list(state, v):
        return len(items)
    kinds = {o.kind for r, o in I.objs(state, v)}
    return 'array' if kinds and kinds <= {'array'} else 'other'

def comm_op(I, comm, op, args, kwargs, node, state):
    pos = [unstar(a) for a in args]
    I.commcalls.append((op, tuple('*' if isinstance(a, Star) else
        form_of(I, state, a) for a in args), tuple(sorted((k,
        form_of(I, state, a)) for k, a in kwargs.items())), node,
        I.func_name(), I.where(node)))

    if op in ('Get_rank', 'Get_size'):
        return I.getattr(V(refs=frozenset([comm])), op[4:], state, node)

    if op == 'Abort':
        state.dead = 'raise'
        return V()

    if op not in COLLECTIVES:
        I.use_args(state, args, kwargs, node)
        return V(taint=frozenset([R(comm)]) if comm != SELF else EMPTY)

    def arg(i, *names):
        for n in names:
            if n in kwargs:
                return kwargs[n]
        return pos[i] if i < len(pos) else None

    after = lambda T: I.after_bcast(comm, T)

    def rooted(T):
        if comm == SELF:
            return T
        return after(T) | {R(comm)}

    root = arg(1, 'root') if op in ('Bcast', 'bcast') else None
    if root is not None and comm != SELF and I.deep_taint(state, root) and \
            I.straddles(comm, I.deep_taint(state, root)):
        I.report('collective-mismatch', node, 'root',
            'the root of the broadcast differs between processes')

    if op in SYNCHRONISING:
        # passing the operation needs all processes
        sync(I, comm, state)

    I.emit(op, comm, node, state)

    if op in ('Barrier', 'barrier', 'Ibarrier', 'Free'):
        return NONE

    if op in ('bcast', 'Ibcast_'):
        v = arg(0, 'obj', 'data')
        if v is None:
            return NONE
        if comm == SELF:
            return v
        x = clean(I, state, v, node, after)
        if x.sym is None and not x.refs and x.const is NC and x.tag is None:
            x = x.but(sym=Poly.atom('bcast', id(node), I.cur_ctx()))
        return x

    if op in ('Bcast', 'Ibcast'):
        v = arg(0, 'buf', 'data')
        if v is None:
            return NONE
        partial = fixed_part(node)
        b, _ = buffer_of(I, state, v)
        bo = list(I.objs(state, b))
        if bo and all(o.mode == 'uninit' for r, o in bo) \
                and len(bo) == len(b.refs):
            I.report('bcast-uninit', node, getattr(node.args[0], 'id', 'buffer')
                if getattr(node, 'args', None) else 'buffer',
                'the broadcast array has been allocated but never filled')
        if comm == SELF:
            return NONE
        for r, o in bo:
            if o.extent and I.straddles(comm, o.extent):
                I.report('bcast-extent', node, getattr(node.args[0], 'id',
                    'buffer') if getattr(node, 'args', None) else 'buffer',
                    'the extents of the broadcast array have not been '
                    'broadcast and differ between processes (%s)'
                    % ', '.join(sorted(o.extent)))
        if b.taint:
            I.rebind(node.args[0] if getattr(node, 'args', None) else None,
                b.but(taint=after(b.taint | state.gtaint())), state)
        for r, o in list(I.objs(state, b)):
            if o.shared is not None:
                state.heap[r] = o.but(taint=after(o.taint))
                if not state.gtaint() and comm != o.shared[1]:
                    continue
                if comm == o.shared[1]:
                    I.check_bcast_guard(state, o, node)
                    I.write_obj(state, r, node, EMPTY, 'Bcast')
                elif comm == o.shared[0]:
                    pass
                else:
                    I.write_obj(state, r, node, EMPTY, 'Bcast') \
                        if state.gtaint() else None
            else:
                G = state.gtaint()
                e = o.elem
                if e is not None:
                    e = None if o.kind == 'array' else clean(I, state, e,
                        node, after)
                items = o.items
                if items is not None:
                    items = tuple(clean(I, state, x, node, after)
                        for x in items)
                state.heap[r] = o.but(mode=None if o.mode == 'uninit' else o.mode,
                    taint=after(o.taint | b.taint) | after(G)
                    if not partial else o.taint | after(G),
                    elem=e, items=items)
                I.note_mut(o, 'Bcast', node)
        return NONE

    if op in ('allgather', 'gather'):
        v = arg(0, 'sendobj', 'send') or NONE
        f = after if op == 'allgather' else rooted
        if comm == SELF:
            x = v
        else:
            T = I.deep_taint(state, v)
            x = clean(I, state, v, node, f)
        r = I.new(state, node, 'list', extra='gathered', elem=x,
            taint=EMPTY if op == 'allgather' or comm == SELF
            else frozenset([R(comm)]))
        if op == 'gather' and comm != SELF:
            r = r.but(none=True, taint=frozenset([R(comm)]))
        if v.sym is not None:
            r = r.but(tag=('gathered', comm, v.sym, Poly.const(1)))
        return r

    if op in ('allreduce', 'reduce', 'scan', 'exscan', 'scatter', 'alltoall'):
        v = arg(0, 'sendobj', 'send') or NONE
        if comm == SELF:
            return v
        if op in ('allreduce', 'reduce'):
            replicated(I, comm, op, I.deep_taint(state, v), kwargs, node, state)
        f = after if op in ('allreduce', 'alltoall') else rooted
        if op == 'alltoall':
            f = lambda T: after(T) | {R(comm)}
        x = clean(I, state, v, node, f)
        return x.but(const=NC, sym=None)

    if op in ('Split', 'Split_type', 'Dup', 'Clone', 'Create'):
        return split(I, comm, op, arg(0, 'color', 'split_type'),
            arg(1, 'key'), node, state)

    # buffer operations
    send = arg(0, 'sendbuf', 'send')
    recv = arg(1, 'recvbuf', 'recv')
    if send is None or recv is None:
        return NONE
    in_place = any(isinstance(r, ExtD) and r.name.endswith('IN_PLACE')
        for r in send.refs)
    sb, sc = buffer_of(I, state, send)
    rb, rc = buffer_of(I, state, recv)
    if in_place:
        sb = rb
    I.check_use(state, sb, node)
    unit = Poly.const(1)
    for v in (send, recv):
        items = I.known_items(state, v) if I.is_list(state, v) else None
        for x in (items or ())[1:]:
            if x.tag is not None and x.tag[0] == 'datatype':
                unit = x.tag[1]
            elif items is not None and len(items) > 2 and x is items[-1]:
                unit = None
    I.check_gather(comm, op, sb, sc, rb, rc, node, state, unit)
    T = I.deep_taint(state, sb)
    only_root(I, comm, T | sb.taint, node, state)
    if op in ('Reduce', 'Allreduce', 'Gatherv', 'Allgatherv'):
        replicated(I, comm, op, T | sb.taint, kwargs, node, state)
    if rb.taint and comm != SELF and getattr(node, 'args', None):
        target = node.args[-1]
        if isinstance(target, (ast.Tuple, ast.List)) and target.elts:
            target = target.elts[0]
        I.rebind(target, rb.but(taint=EMPTY), state)
    if op in ('Allgatherv', 'Allgather', 'Allreduce'):
        f = after
    else:
        f = rooted
    for r, o in list(I.objs(state, rb)):
        if comm == SELF:
            new = T
        elif f is rooted and o.shared is None and not op.startswith('Scatter'):
            new = f(T) | {'root:' + comm.name}
        else:
            new = f(T)
        whole = rb.tag is None
        old = EMPTY if (whole or in_place and op == 'Allreduce') \
            and o.shared is None else o.taint
        if o.shared is not None:
            if comm != SELF:
                # root of the communicator receives into the shared memory
                only = state.guards
                state.guards = only + (Guard(frozenset([R(comm)]),
                    frozenset([comm.name]), node),) if f is rooted else only
                state.heap[r] = o.but(taint=EMPTY)
                new = frozenset(x for x in new if x != R(comm))
                I.write_obj(state, r, node, new, op)
                state.guards = only
            else:
                I.write_obj(state, r, node, new, op)
        else:
            G = state.gtaint()
            state.heap[r] = o.but(taint=old | new | G,
                mode=None if o.mode == 'uninit' else o.mode)
            if o.origin is not None:
                I.write_obj(state, r, node, EMPTY, op)
    return NONE

def only_root(I, comm, T, node, state):
    """What only the first process has received is not a part of a whole."""
    if comm == SELF or I.straddles(comm, state.gtaint()):
        return
    if any(t.startswith('root:') and t[5:] in comm.ancestors() for t in T):
        I.report('collect-root-only', node, 'buffer', 'data that only the '
            'first process has received are collected from all processes')

def fixed_part(node):
    """Is only a certain part of an array broadcast?"""
    x = node.args[0] if getattr(node, 'args', None) else None
    if not isinstance(x, ast.Subscript):
        return False
    parts = x.slice.elts if isinstance(x.slice, ast.Tuple) else [x.slice]

    def bound(y):
        return y is None or isinstance(y, ast.Constant) or isinstance(y,
            ast.UnaryOp) and isinstance(y.operand, ast.Constant)

    some = False
    for y in parts:
        if isinstance(y, ast.Slice):
            if not (bound(y.lower) and bound(y.upper) and bound(y.step)):
                return False
            some = some or y.lower is not None or y.upper is not None \
                or y.step is not None
        elif isinstance(y, ast.Constant) and y.value in (Ellipsis, None):
            continue
        elif isinstance(y, (ast.Constant, ast.UnaryOp)) and bound(y):
            some = True
        elif isinstance(y, ast.Attribute) and y.attr == 'newaxis':
            continue
        else:
            return False
    return some

def replicated(I, comm, op, T, kwargs, node, state):
    """Parts collected from the processes must not be the whole."""
    if comm == SELF or I.straddles(comm, T | state.gtaint()):
        return
    args = getattr(node, 'args', None) or ()
    if 'op' in kwargs or len(args) > (1 if op in ('allreduce', 'reduce')
            else 2):
        return
    x = args[0] if args else None
    for y in ast.walk(x) if x is not None and op.islower() else ():
        if isinstance(y, (ast.Compare, ast.BoolOp, ast.Not)) or isinstance(y,
                ast.Call) and ast.unparse(y.func).split('.')[-1] in (
                'any', 'all', 'isinstance', 'bool'):
            return
    I.report('collect-replicated', node, op, 'all processes contribute the '
        'same data to a sum or list of parts: items are counted once per '
        'process')

def split(I, comm, op, color, key, node, state):
    if op == 'Split' and key is not None:
        kt = I.deep_taint(state, key)
        if not kt and comm != SELF:
            pass
    if comm == SELF:
        return V(refs=frozenset([SELF]))
    if op in ('Dup', 'Clone'):
        return V(refs=frozenset([comm]))
    name = '%s@%s#%d' % (op, comm.name, I.ctx(I.cur_ctx(), node))
    if op == 'Split_type':
        return V(refs=frozenset([Comm('node(%s)' % comm.name, comm)]))
    if color is not None and color.sym is not None:
        p = color.sym
        rank = Poly.atom('rank', comm.name)
        if p == rank:
            return V(refs=frozenset([SELF]))
        if not I.deep_taint(state, color):
            return V(refs=frozenset([Comm(name, comm)]))
        for a in p.atoms():
            if isinstance(a, tuple) and a[0] == 'rank' \
                    and p == Poly.atom(*a):
                return V(refs=frozenset([Comm(name, comm,
                    {'rank:' + a[1]})]))
    return V(refs=frozenset([Comm(name, comm)]))

# --- contracts of the MPI module ----------------------------------------------

def the_comm(I, v):
    if v is None:
        return WORLD
    cs = [r for r in v.refs if isinstance(r, Comm)]
    return cs[0] if len(cs) == 1 else None

def cv(c):
    return V(refs=frozenset([c]))

def m_distribute(I, b, node, state, d):
    comm = the_comm(I, b.get('comm'))
    size = b.get('size', V())
    chunks = b.get('chunks')
    t = I.deep_taint(state, size)
    if comm is None:
        return I.new(state, node, 'unknown')
    I.emit('Bcast', comm, node, state)
    bounds = b.get('bounds')
    wb = I.truth(bounds, state) if bounds is not None else False
    did = ('d', id(node), I.cur_ctx())
    I.node_ids[id(node)] = node
    I.dists[did] = dict(comm=comm, total=size.sym, size=size,
        where=I.where(node), func=I.func_name())
    I.dist_sites.add((I.func_name(), id(node)))
    custom = chunks is not None and not (chunks.const is None)
    n = Poly.atom('size', comm.name) if comm != SELF else Poly.const(1)
    sizes = I.new(state, node, 'array', extra='sizes', shape=(n,),
        dtype=('const', 'int'))
    if not custom:
        sizes = sizes.but(tag=('sizes', did, Poly.const(1)))
    if wb is False:
        return sizes
    I.emit('Bcast', comm, node, state)
    bnd = I.new(state, node, 'array', extra='bounds', dtype=('const', 'int'))
    if not custom:
        bnd = bnd.but(tag=('bounds', did, None))
    return I.new(state, node, 'tuple', extra='dist', items=(sizes, bnd))

def m_matrix(I, b, node, state, d):
    comm = the_comm(I, b.get('comm'))
    if comm is None:
        comm = WORLD
    for op in ('Bcast', 'Bcast', 'Split', 'Split'):
        I.emit(op, comm, node, state)
    if comm == SELF:
        return I.new(state, node, 'tuple', items=(cv(SELF), cv(SELF)))
    n = I.ctx(I.cur_ctx(), node)
    cn, rn = 'col#%d' % n, 'row#%d' % n
    col = Comm(cn, comm, {'rank:' + rn})
    row = Comm(rn, comm, {'rank:' + cn})
    I.rows[rn] = comm, b['size'].sym if 'size' in b else None
    return I.new(state, node, 'tuple', items=(cv(col), cv(row)))

def node_images(comm):
    nn, im = 'node(%s)' % comm.name, 'images(%s)' % comm.name
    node = Comm(nn, comm, {'rank:' + im})
    images = Comm(im, comm, {'rank:' + nn})
    return node, images

def comms_for(I, comm, b, node, state):
    """node, images, shared?"""
    shm = b.get('shared_memory')
    s = I.truth(shm, state) if shm is not None else True
    if comm == SELF:
        return SELF, SELF, False
    if s is False:
        return SELF, comm, False
    I.emit('Split_type', comm, node, state)
    I.emit('Split', comm, node, state)
    n, i = node_images(comm)
    return n, i, True

def m_shm_split(I, b, node, state, d):
    comm = the_comm(I, b.get('comm')) or WORLD
    n, i, _ = comms_for(I, comm, b, node, state)
    return I.new(state, node, 'tuple', items=(cv(n), cv(i)))

def make_shared(I, b, node, state):
    comm = the_comm(I, b.get('comm')) or WORLD
    single = b.get('single_memory')
    sg = I.truth(single, state) if single is not None else False
    sv = b.get('shape')
    shape = shape_from(I, state, sv)
    dt = dtype_of(I, state, b.get('dtype'))
    st = I.deep_taint(state, sv) if sv is not None else EMPTY
    if sg is True:
        n, i = comm, SELF
        shared = (comm, SELF) if comm != SELF else None
    else:
        n, i, sh = comms_for(I, comm, b, node, state)
        shared = (n, i) if sh else None
        if sh:
            I.emit('Allocate_shared', n, node, state)
    I.shared_sites.add((I.func_name(), id(node)))
    arr = I.new(state, node, 'array', extra='shared', shape=shape, dtype=dt,
        shared=shared, taint=st)
    return n, i, arr

def m_shared_array(I, b, node, state, d):
    n, i, arr = make_shared(I, b, node, state)
    oi = b.get('only_info')
    if oi is not None and I.truth(oi, state) is True:
        return I.new(state, node, 'tuple', extra='info', items=(cv(n), cv(i),
            b.get('shape', V()), V(none=True), V()))
    return I.new(state, node, 'tuple', extra='sa', items=(cv(n), cv(i), arr))

def m_SharedArray(I, b, node, state, d):
    args = [unstar(a) for a in b['args']]
    names = ('shape', 'dtype', 'shared_memory', 'single_memory', 'only_info',
        'comm')
    bound = dict(zip(names, args))
    for k, v in b['kwargs'].items():
        if k != '**':
            bound[k] = v
    n, i, arr = make_shared(I, bound, node, state)
    for r in arr.refs:
        o = state.heap[r]
        state.heap[r] = o.but(fields={'node': cv(n), 'images': cv(i)})
    return arr

MODELS = {
    'MPI.distribute': m_distribute,
    'MPI.matrix': m_matrix,
    'MPI.shm_split': m_shm_split,
    'MPI.shared_array': m_shared_array,
    'MPI.SharedArray': m_SharedArray,
    }
