"""Abstract interpreter for SPMD NumPy code.

Computes, for every entry point, over-approximations of

* which values may differ between processes (and between which ones),
* the tree of collective operations issued, compared across the branches of
  process-dependent conditions,
* writes to files, shared memory and caller-owned objects, together with the
  process-selecting guards they are under,
* symbolic extents of arrays (for the message counts of gather operations).

All facts are computed from the syntax trees; nothing is executed.
"""

import ast
import builtins
import re

from .poly import Poly
from .project import Func, Class, Module, AnalysisError

EMPTY = frozenset()

class _NC:
    def __repr__(self):
        return 'NC'

NC = _NC()

# --- values -------------------------------------------------------------------

class V:
    """Abstract value."""
    __slots__ = ('refs', 'const', 'taint', 'sym', 'none', 'pred', 'shape',
        'dtype', 'tag', 'seq', 'scalar')

    def __init__(self, refs=EMPTY, const=NC, taint=EMPTY, sym=None, none=False,
            pred=None, shape=None, dtype=None, tag=None, seq=None,
            scalar=False):
        self.refs = refs
        self.const = const
        self.taint = taint
        self.sym = sym
        self.none = none
        self.pred = pred
        self.shape = shape
        self.dtype = dtype
        self.tag = tag
        self.seq = seq
        self.scalar = scalar

    def but(self, **kw):
        v = V(*(getattr(self, s) for s in V.__slots__))
        for k, x in kw.items():
            setattr(v, k, x)
        return v

    def key(self):
        c = self.const
        return (self.refs, type(c), c if c is not NC else None, self.taint,
            self.sym, self.none, self.pred, self.shape, self.dtype, self.tag,
            self.seq, self.scalar)

    def __eq__(self, other):
        if self is other:
            return True
        try:
            return self.key() == other.key()
        except Exception:
            return False

    def __hash__(self):
        return hash((self.refs, self.taint))

    def __repr__(self):
        parts = []
        if self.const is not NC:
            parts.append('const=%r' % (self.const,))
        for s in ('refs', 'taint', 'sym', 'none', 'shape', 'tag', 'seq'):
            x = getattr(self, s)
            if x:
                parts.append('%s=%r' % (s, x))
        return 'V(%s)' % ', '.join(parts)

def const(c, taint=EMPTY):
    sym = None
    if isinstance(c, (int,)) and not isinstance(c, bool):
        sym = Poly.const(c)
    return V(const=c, taint=taint, sym=sym, none=c is None,
        scalar=isinstance(c, (bool, int, float, complex, str, bytes)))

NONE = const(None)

class Obj:
    """Abstract heap object (immutable record)."""
    __slots__ = ('kind', 'cls', 'taint', 'fields', 'elem', 'items', 'shared',
        'pend', 'origin', 'mode', 'extent')

    def __init__(self, kind, cls=None, taint=EMPTY, fields=None, elem=None,
            items=None, shared=None, pend=EMPTY, origin=None, mode=None,
            extent=EMPTY):
        self.kind = kind
        self.cls = cls
        self.taint = taint
        self.fields = fields or {}
        self.elem = elem
        self.items = items
        self.shared = shared
        self.pend = pend
        self.origin = origin
        self.mode = mode
        self.extent = extent # how the extents may differ between processes

    def but(self, **kw):
        o = Obj(*(getattr(self, s) for s in Obj.__slots__))
        for k, x in kw.items():
            setattr(o, k, x)
        return o

    def same(self, other):
        return self is other or all(
            getattr(self, s) == getattr(other, s) for s in Obj.__slots__)

# --- descriptors --------------------------------------------------------------

class Desc:
    __slots__ = ()

class Comm(Desc):
    __slots__ = ('name', 'parent', 'uniform')

    def __init__(self, name, parent=None, uniform=EMPTY):
        self.name = name
        self.parent = parent
        self.uniform = frozenset(uniform)

    def ancestors(self):
        c = self
        out = []
        while c is not None:
            out.append(c.name)
            c = c.parent
        return out

    def __eq__(self, other):
        return isinstance(other, Comm) and self.name == other.name

    def __hash__(self):
        return hash(('comm', self.name))

    def __repr__(self):
        return 'comm:%s' % self.name

WORLD = Comm('world')
SELF = Comm('self')
ONE = Comm('one')

class ModD(Desc):
    __slots__ = ('module',)

    def __init__(self, module):
        self.module = module

    def __eq__(self, other):
        return isinstance(other, ModD) and self.module is other.module

    def __hash__(self):
        return hash(('mod', self.module.name))

    def __repr__(self):
        return 'module:%s' % self.module.name

class ExtD(Desc):
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __eq__(self, other):
        return isinstance(other, ExtD) and self.name == other.name

    def __hash__(self):
        return hash(('ext', self.name))

    def __repr__(self):
        return 'ext:%s' % self.name

class ClassD(Desc):
    __slots__ = ('cls',)

    def __init__(self, cls):
        self.cls = cls

    def __eq__(self, other):
        return isinstance(other, ClassD) and self.cls is other.cls

    def __hash__(self):
        return hash(('class', self.cls.qualname))

    def __repr__(self):
        return 'class:%s' % self.cls.qualname

class FuncD(Desc):
    __slots__ = ('func', 'env', 'selfv')

    def __init__(self, func, env=None, selfv=None):
        self.func = func
        self.env = env
        self.selfv = selfv

    def __eq__(self, other):
        return isinstance(other, FuncD) and self.func is other.func \
            and (self.env.fid if self.env else None) \
                == (other.env.fid if other.env else None) \
            and self.selfv == other.selfv

    def __hash__(self):
        return hash(('func', self.func.name))

    def __repr__(self):
        return 'func:%s' % self.func.qualname

class MethD(Desc):
    """Method of a communicator, array, list, dict, ... object."""
    __slots__ = ('recv', 'name')

    def __init__(self, recv, name):
        self.recv = recv
        self.name = name

    def __eq__(self, other):
        return isinstance(other, MethD) and self.name == other.name \
            and self.recv == other.recv

    def __hash__(self):
        return hash(('meth', self.name))

    def __repr__(self):
        return 'method:%s' % self.name

class Env:
    """Variable frame with static parent."""
    __slots__ = ('fid', 'vars', 'parent', 'module', 'func')

    def __init__(self, fid, vars, parent, module, func):
        self.fid = fid
        self.vars = vars
        self.parent = parent
        self.module = module
        self.func = func

    def copy(self):
        return Env(self.fid, dict(self.vars), self.parent, self.module,
            self.func)

# --- rank variables -----------------------------------------------------------

def R(comm):
    return 'rank:' + comm.name

# --- state --------------------------------------------------------------------

class Guard:
    """Process-dependent condition the current path is under."""
    __slots__ = ('taint', 'only', 'node')

    def __init__(self, taint, only=EMPTY, node=None):
        self.taint = taint
        self.only = only
        self.node = node

    def __eq__(self, other):
        return self.taint == other.taint and self.only == other.only

    def __hash__(self):
        return hash((self.taint, self.only))

class State:
    __slots__ = ('env', 'heap', 'trace', 'guards', 'divs', 'dead')

    def __init__(self, env, heap, trace=(), guards=(), divs=()):
        self.env = env
        self.heap = heap
        self.trace = trace
        self.guards = guards
        self.divs = divs
        self.dead = None

    def fork(self):
        s = State(self.env.copy(), dict(self.heap), self.trace, self.guards,
            self.divs)
        return s

    def gtaint(self):
        t = EMPTY
        for g in self.guards:
            t |= g.taint
        return t

    def only(self):
        c = EMPTY
        for g in self.guards:
            c |= g.only
        return c

# caches each process fills on its own: nothing may rely on them being the same
CACHES = {'elph.Model': {'q', 'gq'}}

# --- traces -------------------------------------------------------------------

def join_traces(a, b):
    if a == b:
        return a
    n = 0
    while n < len(a) and n < len(b) and a[n] == b[n]:
        n += 1
    alts = set()
    for rest in a[n:], b[n:]:
        if len(rest) == 1 and rest[0][0] == 'alt':
            alts |= rest[0][1]
        else:
            alts.add(rest)
    return a[:n] + (('alt', frozenset(alts)),)

def filter_trace(trace, comms):
    """Remove events on communicators that do not straddle the condition."""
    out = []
    for item in trace:
        if item[0] == 'ev':
            if comms(item[2]):
                out.append(item[:3])
        elif item[0] == 'loop':
            t = filter_trace(item[1], comms)
            if t:
                out.append(('loop', t))
        elif item[0] == 'alt':
            alts = frozenset(filter_trace(t, comms) for t in item[1])
            if len(alts) == 1:
                out.extend(next(iter(alts)))
            else:
                out.append(('alt', alts))
        elif item[0] == 'div':
            a = filter_trace(item[2], comms)
            b = filter_trace(item[3], comms)
            if a == b:
                out.extend(a)
            else:
                out.append(('alt', frozenset([a, b])))
    return tuple(out)

def labels(trace, comms):
    """Buffers of operations in the order in which they are communicated."""
    out = []
    for item in trace:
        if item[0] != 'ev':
            return None
        if comms(item[2]):
            if len(item) < 4 or item[3] is None:
                return None
            out.append(item[3])
    return out

def flat_events(trace):
    for item in trace:
        if item[0] == 'ev':
            yield item
        elif item[0] == 'loop':
            yield from flat_events(item[1])
        elif item[0] == 'alt':
            for t in item[1]:
                yield from flat_events(t)
        elif item[0] == 'div':
            yield from flat_events(item[2])
            yield from flat_events(item[3])

def show_trace(trace):
    out = []
    for item in trace:
        if item[0] == 'ev':
            out.append('%s@%s' % (item[1], item[2].name))
        elif item[0] == 'loop':
            out.append('loop{%s}' % show_trace(item[1]))
        elif item[0] == 'alt':
            out.append('(%s)' % '|'.join(sorted(show_trace(t)
                for t in item[1])))
        elif item[0] == 'div':
            out.append('div(%s|%s)'
                % (show_trace(item[2]), show_trace(item[3])))
    return ' '.join(out) or '-'

# --- joins --------------------------------------------------------------------

def join_v(a, b):
    if a is b or a == b:
        return a
    none = a.none or b.none
    # None joined with something else keeps the structural facts of the other
    if a.const is None and b.const is not None:
        return b.but(none=True, taint=a.taint | b.taint, const=NC, sym=None)
    if b.const is None and a.const is not None:
        return a.but(none=True, taint=a.taint | b.taint, const=NC, sym=None)
    same_const = a.const is not NC and b.const is not NC \
        and type(a.const) is type(b.const) and a.const == b.const
    return V(refs=a.refs | b.refs,
        const=a.const if same_const else NC,
        taint=a.taint | b.taint,
        sym=a.sym if a.sym == b.sym else None,
        none=none,
        pred=a.pred if a.pred == b.pred else None,
        shape=a.shape if a.shape == b.shape else None,
        dtype=a.dtype if a.dtype == b.dtype else None,
        tag=a.tag if a.tag == b.tag else None,
        seq=a.seq if a.seq == b.seq else None,
        scalar=a.scalar and b.scalar)

def join_opt(a, b):
    if a is None:
        return b
    if b is None:
        return a
    return join_v(a, b)

def join_mode(a, b):
    modes = [m for m in (a, b) if m is not None and m != 'uninit']
    return modes[0] if modes else None

def join_obj(a, b):
    if a is b:
        return a
    items = None
    elem = join_opt(a.elem, b.elem)
    if a.items is not None and b.items is not None \
            and len(a.items) == len(b.items):
        items = tuple(join_v(x, y) for x, y in zip(a.items, b.items))
    else:
        for x in (a.items or ()) + (b.items or ()):
            elem = join_opt(elem, x)
    if a.fields == b.fields:
        fields = a.fields
    else:
        fields = dict(a.fields)
        for k, v in b.fields.items():
            fields[k] = join_v(fields[k], v) if k in fields else v
    return Obj(a.kind if a.kind == b.kind else 'unknown',
        a.cls if a.cls is b.cls else None, a.taint | b.taint, fields, elem,
        items, a.shared if a.shared == b.shared else (a.shared or b.shared),
        a.pend | b.pend, a.origin or b.origin, a.mode if a.mode == b.mode
        else join_mode(a.mode, b.mode), a.extent | b.extent)

# --- docstring types ----------------------------------------------------------

def doc_types(doc):
    types = {}
    section = None
    lines = doc.splitlines()
    for n, line in enumerate(lines):
        if n + 1 < len(lines) and re.match(r'^-{3,}\s*$', lines[n + 1].strip()):
            section = line.strip()
            continue
        if section in ('Parameters', 'Other Parameters', 'Attributes'):
            m = re.match(r'^(\*{0,2}\w+(?:\s*,\s*\*{0,2}\w+)*)\s*:\s*(.*)$',
                line)
            if m:
                for name in re.split(r'\s*,\s*', m.group(1)):
                    types[name.lstrip('*')] = m.group(2)
    return types

def scalar_type(text):
    text = text.lower()
    if re.search(r'array|list|ndarray|dict|set\b|object|iterable', text):
        return False
    return bool(re.search(r'\b(int|integer|float|bool|number|str|string|real|'
        r'complex|scalar|tuple|2-tuple|3-tuple|function|type|mpi\.\w+|'
        r'path)\b', text))

class GiveUp(Exception):
    pass

# --- interpreter --------------------------------------------------------------

VIEW_FUNCS = {'reshape', 'transpose', 'asarray', 'ravel', 'squeeze',
    'atleast_1d', 'atleast_2d', 'atleast_3d', 'swapaxes', 'moveaxis',
    'broadcast_to', 'real', 'imag', 'diagonal', 'expand_dims', 'rollaxis',
    'flip', 'flipud', 'fliplr', 'rot90', 'ascontiguousarray', 'asanyarray',
    'asfortranarray', 'require', 'split', 'array_split', 'nan_to_num_view'}

VIEW_METHODS = {'reshape', 'transpose', 'ravel', 'squeeze', 'swapaxes', 'view',
    'diagonal', 'newbyteorder'}

MUTATING_METHODS = {'fill', 'sort', 'resize', 'put', 'partition', 'itemset',
    'byteswap', 'append', 'extend', 'insert', 'pop', 'remove', 'reverse',
    'clear', 'update', 'setdefault', 'popitem', 'add', 'discard',
    'intersection_update', 'difference_update', 'symmetric_difference_update',
    '__setitem__', '__delitem__', 'setfield', 'setdiag', '__iadd__',
    '__isub__', '__imul__'}

MUTATING_EXT = {'numpy.put': 0, 'numpy.copyto': 0, 'numpy.fill_diagonal': 0,
    'numpy.place': 0, 'numpy.putmask': 0, 'numpy.random.shuffle': 0,
    'numpy.put_along_axis': 0, 'numpy.add.at': 0, 'numpy.subtract.at': 0,
    'numpy.multiply.at': 0, 'heapq.heappush': 0, 'heapq.heapify': 0,
    'random.shuffle': 0, 'bisect.insort': 0}

COLLECTIVES = {'Barrier', 'barrier', 'Bcast', 'bcast', 'Gather', 'gather',
    'Gatherv', 'Scatter', 'scatter', 'Scatterv', 'Allgather', 'allgather',
    'Allgatherv', 'Alltoall', 'alltoall', 'Alltoallv', 'Reduce', 'reduce',
    'Allreduce', 'allreduce', 'Scan', 'scan', 'Exscan', 'exscan',
    'Reduce_scatter', 'Split', 'Split_type', 'Dup', 'Create', 'Ibarrier',
    'Ibcast', 'Clone', 'Free'}

SYNCHRONISING = {'Barrier', 'barrier', 'Allgather', 'allgather', 'Allgatherv',
    'Alltoall', 'alltoall', 'Allreduce', 'allreduce', 'Split', 'Split_type',
    'Dup'}

FILE_EFFECTS = {'numpy.save', 'numpy.savetxt', 'numpy.savez',
    'numpy.savez_compressed', 'os.remove', 'os.unlink', 'os.makedirs',
    'os.mkdir', 'os.rename', 'os.replace', 'os.rmdir', 'os.removedirs',
    'os.system', 'os.popen', 'os.symlink', 'os.link', 'os.truncate',
    'os.utime', 'os.chmod', 'os.open',
    'shutil.copy', 'shutil.copy2', 'shutil.copyfile', 'shutil.copytree',
    'shutil.move', 'shutil.rmtree', 'subprocess.run', 'subprocess.call',
    'subprocess.check_call', 'subprocess.check_output', 'subprocess.Popen',
    'matplotlib.pyplot.savefig', 'numpy.memmap', 'tempfile.mkstemp',
    'tempfile.mkdtemp'}

RANDOM_PREFIXES = ('numpy.random.', 'random.', 'secrets.', 'uuid.',
    'time.time', 'time.perf_counter', 'time.process_time', 'os.getpid',
    'socket.gethostname')

class Report:
    """Facts logged while interpreting."""
    def __init__(self):
        self.violations = {}  # (rule, key) -> message

    def add(self, rule, key, message):
        self.violations.setdefault((rule, key), message)

class Interp:
    def __init__(self, project, max_depth=9):
        self.project = project
        self.max_depth = max_depth
        self.ctx_ids = {}
        self.fid = 0
        self.module_envs = {}
        self.global_cache = {}
        self.global_active = set()
        self.node_ids = {}
        self.reset()
        self.stats = dict(calls=0, inlined=0, collectives=0, writes=0)
        from .extmodel import MODELS
        self.models = MODELS

    def reset(self):
        self.log = []       # (rule, key, message)
        self.events = []    # collective call sites (op, comm, node, module)
        self.effects = []   # file effects
        self.muts = []      # mutations of caller-owned objects
        self.attr_writes = []
        self.dists = {}
        self.rows = {}
        self.dist_sites = set()
        self.shared_sites = set()
        self.robin_sites = 0
        self.final_envs = {}
        self.last_store = {}
        self.gathers = []   # C05 records
        self.shared_writes = []
        self.turns = {}
        self.idx_use = {}
        self.commcalls = []
        self.div_checks = 0
        self.active = []
        self.div_counter = 0
        self.heap0 = {}

    def snapshot(self):
        names = ('log', 'events', 'effects', 'muts', 'attr_writes', 'dists',
            'rows', 'dist_sites', 'shared_sites', 'robin_sites', 'final_envs',
            'gathers', 'shared_writes', 'commcalls', 'div_checks', 'active',
            'div_counter', 'heap0', 'roots')
        return {n: getattr(self, n) for n in names if hasattr(self, n)}

    def restore(self, saved):
        for n, x in saved.items():
            setattr(self, n, x)

    # -- utilities --

    def ctx(self, parent, node):
        key = (parent, id(node))
        if key not in self.ctx_ids:
            self.ctx_ids[key] = len(self.ctx_ids) + 1
        return self.ctx_ids[key]

    def cur_ctx(self):
        return self.active[-1][1] if self.active else 0

    def where(self, node):
        module = self.active[-1][0].module if self.active else None
        return module.where(node) if module else '?'

    def func_name(self):
        return self.active[-1][0].qualname if self.active else '?'

    def report(self, rule, node, construct, message):
        self.log.append((rule, self.func_name(), construct,
            '%s: in %s: %s' % (self.where(node), self.func_name(), message)))

    def alloc(self, state, node, kind, extra=None, **kw):
        oid = ('h', id(node), self.cur_ctx(), extra)
        self.node_ids[id(node)] = node  # keep alive
        taint = kw.pop('taint', EMPTY)
        state.heap[oid] = Obj(kind, taint=taint, **kw)
        return oid

    def new(self, state, node, kind, extra=None, shape=None, dtype=None,
            seq=None, **kw):
        oid = self.alloc(state, node, kind, extra, **kw)
        return V(refs=frozenset([oid]), shape=shape, dtype=dtype, seq=seq)

    def objs(self, state, v):
        for r in v.refs:
            if not isinstance(r, Desc):
                o = state.heap.get(r)
                if o is not None:
                    yield r, o

    def descs(self, v):
        return [r for r in v.refs if isinstance(r, Desc)]

    def deep_taint(self, state, v, depth=5, seen=None):
        t = v.taint
        if depth < 0:
            return t
        if seen is None:
            seen = set()
        for r, o in self.objs(state, v):
            if r in seen:
                continue
            seen.add(r)
            t |= o.taint
            if o.kind == 'inst' or o.kind == 'file':
                if o.kind == 'inst':
                    continue
            for x in o.items or ():
                t |= self.deep_taint(state, x, depth - 1, seen)
            if o.elem is not None:
                t |= self.deep_taint(state, o.elem, depth - 1, seen)
            for x in o.fields.values():
                t |= self.deep_taint(state, x, depth - 1, seen)
        return t

    # -- communicators and taint --

    def straddles(self, comm, T):
        """May processes of `comm` disagree about a condition tainted by T?"""
        if comm == SELF:
            return False
        return any(t not in comm.uniform for t in T)

    def after_bcast(self, comm, T):
        """Taint of value after broadcast over `comm`."""
        if comm == SELF:
            return T
        out = frozenset(t for t in T if t in comm.uniform)
        if comm.parent is not None and comm.uniform:
            up = set('rank:' + a for a in comm.ancestors()[1:])
            if T & up:
                out |= comm.uniform
        return out

    # -- mutation --

    def write_obj(self, state, oid, node, value_taint, what='content',
            field=None, owner=False):
        """Register a write to (part of) a heap object."""
        o = state.heap.get(oid)
        if o is None:
            return
        if o.mode == 'uninit':
            o = o.but(mode=None)
            state.heap[oid] = o
        G = state.gtaint()
        if o.shared is not None:
            ncomm, icomm = o.shared
            rn, ri = R(ncomm), R(icomm)
            # the content can only differ between nodes
            t = frozenset([ri]) if (G | value_taint) - {rn} \
                and icomm not in (SELF, ONE) else EMPTY
            self.shared_writes.append((self.func_name(), self.where(node),
                state.guards, o.shared, node))
            if not any(self.selects(g, state) for g in state.guards) \
                    and ncomm != SELF and not owner:
                self.report('shared-exclusive', node, 'write:' + what,
                    'shared memory is written by all processes of the node '
                    'at once (no process-selecting condition)')
            if not owner:
                self.note_turn(state, ncomm, node)
            o = o.but(taint=o.taint | t, pend=o.pend | {ncomm.name})
            state.heap[oid] = o
        else:
            t = G | value_taint
            if not t <= o.taint:
                o = o.but(taint=o.taint | t)
                state.heap[oid] = o
        self.note_mut(o, what, node, field)

    def selects(self, g, state):
        """Is a condition met by selected processes only?"""
        if any(not x.startswith(('many:', 'some:')) for x in g.only):
            return True
        if any(x.startswith('many:') for x in g.only) or not any(x.startswith('rank:') for x in g.taint):
            return False
        test = getattr(g.node, 'test', None)
        if not isinstance(g.node, (ast.If, ast.IfExp)) or test is None:
            return True
        # a condition that depends on data of the process selects nobody
        def data(x):
            if isinstance(x, ast.BoolOp):
                return all(map(data, x.values)) if isinstance(x.op, ast.And) \
                    else any(map(data, x.values))
            return isinstance(x, ast.Compare) and len(x.ops) == 1 \
                and isinstance(x.ops[0], (ast.In, ast.NotIn))
        return not data(test)

    def note_turn(self, state, ncomm, node):
        """Write to shared memory by processes whose turn it is."""
        for g in state.guards:
            test = getattr(g.node, 'test', None)
            if not isinstance(g.node, ast.If) or test is None:
                continue
            names = set()
            for c in ast.walk(test):
                if isinstance(c, ast.Compare) and len(c.ops) == 1 \
                        and isinstance(c.ops[0], ast.Eq):
                    sides = [c.left, c.comparators[0]]
                    if any(isinstance(x, ast.Attribute) and x.attr == 'rank'
                            for x in sides):
                        names |= {x.id for x in sides
                            if isinstance(x, ast.Name)}
            if not names or not any(g.node is x for x in self.parents(node)):
                continue
            for loop in self.parents(g.node):
                if isinstance(loop, ast.For) and names & {x.id for x in
                        ast.walk(loop.target) if isinstance(x, ast.Name)}:
                    own = False # does each process have its own part?
                    for x in ast.walk(node):
                        if isinstance(x, ast.Subscript) and isinstance(x.ctx,
                                ast.Store):
                            for y in ast.walk(x.slice):
                                if isinstance(y, ast.Attribute) \
                                        and y.attr == 'rank' \
                                        or isinstance(y, ast.Name) and (y.id
                                        in names or self.deep_taint(state,
                                        self.eval(y, state.fork()))):
                                    own = True
                    if not own:
                        self.turns.setdefault(id(loop), []).append((ncomm,
                            node, self.func_name()))
                    break

    def parents(self, node):
        node = getattr(node, 'parent', None)
        while node is not None and not isinstance(node, (ast.FunctionDef,
                ast.Lambda, ast.Module)):
            yield node
            node = getattr(node, 'parent', None)

    def check_turns(self, loop, trace):
        for ncomm, node, func in self.turns.pop(id(loop), ()):
            if not any(e[1] in SYNCHRONISING and (e[2] == ncomm or e[2].name
                    in ncomm.ancestors()) for e in flat_events(trace)):
                self.report('shared-exclusive', node, 'turns', 'the processes '
                    'of a node write the same part of shared memory one after '
                    'another without a barrier that separates their turns')

    def note_mut(self, o, what, node, field=None):
        if o.origin is not None:
            self.muts.append((o.origin, what, self.func_name(),
                self.where(node), tuple(f[0].qualname for f in self.active),
                field))

    def mutate(self, state, v, node, value_taint=EMPTY, what='content'):
        for r, o in list(self.objs(state, v)):
            self.write_obj(state, r, node, value_taint | v.taint, what)

    def check_use(self, state, v, node):
        """Use of a value by the current process(es)."""
        for r, o in self.objs(state, v):
            if o.pend and o.shared is not None:
                ncomm, icomm = o.shared
                if ncomm == SELF or icomm == SELF:
                    continue
                if not any(x.startswith('rank:') for x in state.gtaint()):
                    self.report('shared-sync', node, 'use',
                        'shared memory is used by all processes before a '
                        'barrier separates it from the write')
                    state.heap[r] = o.but(pend=EMPTY)

    # -- expressions --

    def eval(self, node, state):
        method = getattr(self, 'eval_' + type(node).__name__, None)
        if method is None:
            t = EMPTY
            for child in ast.iter_child_nodes(node):
                if isinstance(child, ast.expr):
                    t |= self.deep_taint(state, self.eval(child, state))
            return V(taint=t)
        return method(node, state)

    def eval_Constant(self, node, state):
        return const(node.value)

    def eval_JoinedStr(self, node, state):
        t = EMPTY
        for value in node.values:
            t |= self.deep_taint(state, self.eval(value, state))
        return V(taint=t, scalar=True)

    def eval_FormattedValue(self, node, state):
        return V(taint=self.deep_taint(state, self.eval(node.value, state)))

    def eval_NamedExpr(self, node, state):
        v = self.eval(node.value, state)
        self.assign(node.target, v, state, node)
        return v

    def eval_Await(self, node, state):
        return self.eval(node.value, state)

    def eval_Starred(self, node, state):
        return self.eval(node.value, state)

    def eval_Yield(self, node, state):
        if node.value is not None:
            self.eval(node.value, state)
        return NONE

    def eval_YieldFrom(self, node, state):
        self.eval(node.value, state)
        return NONE

    def eval_Slice(self, node, state):
        t = EMPTY
        for x in (node.lower, node.upper, node.step):
            if x is not None:
                t |= self.deep_taint(state, self.eval(x, state))
        return V(taint=t, tag=('slice',))

    def eval_Name(self, node, state):
        return self.lookup(node.id, state, node)

    def lookup(self, name, state, node=None):
        env = state.env
        while env is not None:
            if name in env.vars:
                return env.vars[name]
            env = env.parent
        return self.global_value(state.env.module, name, state)

    def global_value(self, module, name, state):
        if module is None:
            return V()
        if name in module.functions:
            return V(refs=frozenset([FuncD(module.functions[name])]))
        if name in module.classes:
            return V(refs=frozenset([ClassD(module.classes[name])]))
        key = (module.name, name)
        if name in module.imports \
                and module.imports[name].startswith('mpi4py'):
            return self.ext(module.imports[name])
        if name in module.globals:
            if key in self.global_cache:
                v, objs = self.global_cache[key]
                for r, o in objs.items():
                    state.heap.setdefault(r, o)
                return v
            if key in self.global_active:
                return V()
            self.global_active.add(key)
            try:
                v = None
                env = Env(('module', module.name), {}, None, module, None)
                s = State(env, {})
                self.active.append((ModuleFunc(module), 0))
                saved = (self.log, self.events, self.effects, self.muts,
                    self.gathers, self.shared_writes, self.commcalls)
                (self.log, self.events, self.effects, self.muts, self.gathers,
                    self.shared_writes, self.commcalls) = ([], [], [], [], [],
                    [], [])
                for expr in module.globals[name]:
                    if isinstance(expr, ast.AugAssign):
                        x = V(taint=EMPTY)
                    else:
                        x = self.eval(expr, s)
                        # tuple targets etc.: parts are unknown
                        if not self.simple_global(module, name, expr):
                            x = V()
                    v = x if v is None else join_v(v, x)
                self.active.pop()
                (self.log, self.events, self.effects, self.muts, self.gathers,
                    self.shared_writes, self.commcalls) = saved
                if v.sym is None and v.const is NC and not v.refs:
                    v = v.but(sym=Poly.atom('global', module.name, name))
                if v.const is not NC and isinstance(v.const, (int, float)) \
                        and not isinstance(v.const, bool):
                    v = v.but(const=NC if isinstance(v.const, float)
                        else v.const)
            finally:
                self.global_active.discard(key)
            objs = dict(s.heap)
            self.global_cache[key] = (v, objs)
            for r, o in objs.items():
                state.heap.setdefault(r, o)
            return v
        if name in module.imports:
            return self.resolved(self.project.resolve(module.imports[name]),
                state)
        if hasattr(builtins, name):
            return V(refs=frozenset([ExtD('builtins.' + name)]))
        return V()

    def simple_global(self, module, name, expr):
        parent = getattr(expr, 'parent', None)
        if isinstance(parent, ast.Assign):
            return any(isinstance(t, ast.Name) for t in parent.targets)
        if isinstance(parent, (ast.Tuple, ast.List)):
            return True
        return False

    def resolved(self, x, state):
        if isinstance(x, Module):
            return V(refs=frozenset([ModD(x)]))
        if isinstance(x, Func):
            return V(refs=frozenset([FuncD(x)]))
        if isinstance(x, Class):
            return V(refs=frozenset([ClassD(x)]))
        if isinstance(x, tuple) and x[0] == 'global':
            return self.global_value(x[1], x[2], state)
        if isinstance(x, tuple) and x[0] == 'ext':
            return self.ext(x[1])
        return V()

    def ext(self, name):
        if name in ('mpi4py.MPI.COMM_WORLD',):
            return V(refs=frozenset([WORLD]))
        if name in ('mpi4py.MPI.COMM_SELF',):
            return V(refs=frozenset([SELF]))
        return V(refs=frozenset([ExtD(name)]))

    def eval_Attribute(self, node, state):
        base = self.eval(node.value, state)
        return self.getattr(base, node.attr, state, node)

    def getattr(self, base, attr, state, node):
        result = None
        for r in sorted(base.refs, key=repr):
            v = self.getattr_ref(r, base, attr, state, node)
            result = v if result is None else join_v(result, v)
        if result is None:
            result = V(refs=frozenset([MethD(base, attr)]), taint=base.taint)
        elif base.taint - result.taint:
            result = result.but(taint=result.taint | base.taint)
        return result

    def getattr_ref(self, r, base, attr, state, node):
        if isinstance(r, ModD):
            x = self.project.member(r.module, attr)
            if x is None:
                return V()
            return self.resolved(x, state)
        if isinstance(r, ExtD):
            return self.ext(r.name + '.' + attr)
        if isinstance(r, Comm):
            if attr == 'rank':
                if r == SELF:
                    return const(0)
                return V(taint=frozenset([R(r)]), sym=Poly.atom('rank', r.name),
                    scalar=True)
            if attr == 'size':
                if r == SELF:
                    return const(1)
                return V(sym=Poly.atom('size', r.name), scalar=True)
            return V(refs=frozenset([MethD(V(refs=frozenset([r])), attr)]))
        if isinstance(r, ClassD):
            if attr in r.cls.methods:
                f = r.cls.methods[attr]
                if f.classmethod:
                    return V(refs=frozenset([FuncD(f, None,
                        V(refs=frozenset([r])))]))
                return V(refs=frozenset([FuncD(f)]))
            if attr in r.cls.attrs:
                return self.eval_in_module(r.cls.module, r.cls.attrs[attr],
                    state)
            return V(refs=frozenset([MethD(V(refs=frozenset([r])), attr)]))
        if isinstance(r, FuncD):
            # function attributes, e.g. gauss.delta = gauss_delta
            x = self.func_attr(r.func, attr, state)
            return x if x is not None else V()
        if isinstance(r, MethD):
            return V()
        o = state.heap.get(r)
        if o is None:
            return V()
        one = V(refs=frozenset([r]), shape=base.shape, dtype=base.dtype,
            seq=base.seq, tag=base.tag)
        if o.kind == 'inst':
            if attr in o.fields:
                return o.fields[attr]
            cls = o.cls
            if cls is not None:
                if attr in cls.methods:
                    f = cls.methods[attr]
                    if f.prop:
                        return self.call_func(FuncD(f, None, one), [], {},
                            node, state)
                    if f.static:
                        return V(refs=frozenset([FuncD(f)]))
                    return V(refs=frozenset([FuncD(f, None, one)]))
                if attr in cls.attrs:
                    return self.eval_in_module(cls.module, cls.attrs[attr],
                        state)
                if is_array_class(cls):
                    return self.array_attr(one, o, r, attr, state, node)
            return self.symbolic_field(r, o, attr, state)
        return self.array_attr(one, o, r, attr, state, node)

    def eval_in_module(self, module, expr, state):
        env = Env(('module', module.name), {}, None, module, None)
        s = State(env, state.heap)
        self.active.append((ModuleFunc(module), 0))
        try:
            return self.eval(expr, s)
        finally:
            self.active.pop()

    def func_attr(self, func, attr, state):
        if func.cls is not None or func.parent is not None:
            return None
        for stmt in func.module.tree.body:
            if isinstance(stmt, ast.Assign):
                for t in stmt.targets:
                    if isinstance(t, ast.Attribute) and t.attr == attr \
                            and isinstance(t.value, ast.Name) \
                            and t.value.id == func.name:
                        return self.eval_in_module(func.module, stmt.value,
                            state)
        return None

    def symbolic_field(self, r, o, attr, state):
        """Field of unknown instance: created on demand."""
        oid = ('f', r, attr)
        cached = EMPTY
        if o.cls is not None and attr in CACHES.get(o.cls.qualname, ()):
            cached = frozenset(['rank:world'])
        if oid not in state.heap:
            state.heap[oid] = Obj('unknown', origin=(o.origin + '.' + attr)
                if o.origin else None, taint=o.taint | cached)
        v = V(taint=cached, refs=frozenset([oid]), sym=Poly.atom('field', r, attr),
            none=True)
        fields = dict(o.fields)
        fields[attr] = v
        state.heap[r] = o.but(fields=fields)
        return v

    def refkey(self, v):
        refs = tuple(sorted((repr(r) if isinstance(r, Desc) else repr(r))
            for r in v.refs))
        return refs

    def valsym(self, state, v):
        """Symbol for a number, also if it is passed by the caller."""
        if v.sym is not None:
            return v.sym
        if v.const is not NC or v.seq is not None or v.tag is not None \
                or v.shape is not None or len(v.refs) != 1:
            return None
        r, = v.refs
        o = None if isinstance(r, Desc) else state.heap.get(r)
        if o is None or o.kind != 'unknown' or not isinstance(r, tuple) \
                or r[0] not in ('p', 'r'):
            return None
        return Poly.atom('val', self.refkey(v))

    def shape_seq(self, v):
        if v.shape is not None:
            return v.shape
        if not v.refs or v.tag is not None and v.tag[0] in ('view', 'elem'):
            return None
        return (('*', 'shape', self.refkey(v), 0, None),)

    def array_attr(self, one, o, r, attr, state, node):
        t = o.taint
        if attr in o.fields:
            return o.fields[attr]
        if attr == 'shape':
            s = self.shape_seq(one)
            return V(seq=s, taint=self.shape_taint(o), tag=('shape',))
        if attr == 'size':
            s = self.shape_seq(one)
            return V(sym=seq_prod(s) if s else None,
                taint=self.shape_taint(o), scalar=True)
        if attr == 'ndim':
            s = one.shape
            if s is not None and not any(is_star(x) for x in s):
                return const(len(s))
            return V(sym=Poly.atom('ndim', self.refkey(one)), scalar=True)
        if attr == 'dtype':
            return V(tag=('dtype', one.dtype
                or ('dtype', self.refkey(one))))
        if attr in ('T', 'real', 'imag', 'flat'):
            return V(refs=frozenset([r]), dtype=None if attr != 'T'
                else one.dtype)
        if attr == 'flags' or attr == 'itemsize' or attr == 'nbytes':
            return V()
        if o.kind in ('unknown',) and attr not in KNOWN_METHODS:
            if attr in o.fields:
                return o.fields[attr]
            return self.symbolic_field(r, o, attr, state)
        return V(refs=frozenset([MethD(one, attr)]), taint=EMPTY)

    def shape_taint(self, o):
        if o.kind in ('list', 'tuple', 'set', 'dict', 'iter'):
            return o.taint if o.items is None else EMPTY
        return EMPTY if o.mode != 'local' else o.taint

    def shape_taint_of(self, state, v):
        t = v.taint
        for r, o in self.objs(state, v):
            t |= self.shape_taint(o)
        return t

    def shape_only_taint(self, state, pos, kwargs):
        """Taint of a view itself (its content has its own)."""
        t = pos[0].taint
        for v in pos[1:]:
            t |= self.deep_taint(state, v)
        for v in kwargs.values():
            t |= self.deep_taint(state, v)
        return t

    def rebind(self, target, v, state):
        if isinstance(target, ast.Name) and target.id in state.env.vars:
            state.env.vars[target.id] = v
        elif isinstance(target, ast.Attribute):
            base = self.eval(target.value, state)
            for r, o in list(self.objs(state, base)):
                if o.kind == 'inst' and target.attr in o.fields:
                    state.heap[r] = o.but(fields=dict(o.fields,
                        **{target.attr: v}))

    def in_loop(self, node):
        while node is not None:
            if isinstance(node, (ast.For, ast.While, ast.comprehension)):
                return True
            if isinstance(node, (ast.FunctionDef, ast.Lambda, ast.Module)):
                return False
            node = getattr(node, 'parent', None)
        return False

    def file_effect(self, what, name, node, state):
        only = state.only()
        gt = state.gtaint()
        nt = self.deep_taint(state, name) if name is not None else EMPTY
        self.stats['writes'] += 1
        rec = dict(what=what, only=only, gtaint=gt, ntaint=nt,
            func=self.func_name(), where=self.where(node),
            text=ast.unparse(node)[:120], single=self.single(only, gt, nt))
        self.effects.append(rec)
        if rec['single'] is False:
            self.report('file-writer', node, '%s:%s' % (what,
                norm_text(node)), 'file is written by several processes at '
                'once: %s is not confined to one process (%s)' % (rec['text'],
                'guards: ' + ', '.join(sorted(gt)) if gt else 'no guard'))

    def single(self, only, gt, nt):
        """One process per file: True, False, or None (undecided)."""
        if nt:
            return True
        if only & self.roots:
            return True
        for n in only:
            if n.startswith('node('):
                if 'images(' + n[5:] in only and n[5:-1] in self.roots:
                    return True
        if any('many:' + r in only or 'some:' + r in only
                for r in self.roots):
            return False
        if 'rank:' + WORLD.name in gt or any('rank:' + r in gt
                for r in self.roots):
            return None
        return False

    roots = frozenset(['world'])

    def check_bcast_guard(self, state, o, node):
        pass

    def check_gather(self, comm, op, sb, sc, rb, rc, node, state, unit):
        from . import gather
        gather.check(self, comm, op, sb, sc, rb, rc, node, state, unit)

    # subscripts

    def eval_Subscript(self, node, state):
        base = self.eval(node.value, state)
        return self.subscript(base, node.slice, state, node)

    def subscript(self, base, index, state, node):
        iv = self.eval(index, state)
        it = self.deep_taint(state, iv)
        if not is_basic_view(index):
            self.check_use(state, base, node)
        self.check_index(base, index, iv, state, node, store=False)

        # sequences of extents
        if base.seq is not None:
            r = seq_index(base.seq, index, lambda n: self.eval(n, state))
            if r is not None:
                if isinstance(r, tuple):
                    return V(seq=r, taint=base.taint | it, tag=('shape',))
                return V(sym=r, taint=base.taint | it, scalar=True,
                    const=int(r.value()) if r.is_const()
                    and r.value().denominator == 1 else NC)

        if base.tag is not None and base.tag[0] in ('sizes', 'bounds'):
            v = self.dist_index(base, index, iv, state, node)
            if v is not None:
                return v

        result = None

        for r, o in sorted(self.objs(state, base), key=repr):
            v = None
            if o.items is not None and isinstance(iv.const, int) \
                    and not isinstance(iv.const, bool) \
                    and -len(o.items) <= iv.const < len(o.items):
                v = o.items[iv.const]
            elif o.items is not None and isinstance(index, ast.Slice):
                lo = const_of(index.lower, 0, self, state)
                hi = const_of(index.upper, len(o.items), self, state)
                if index.step is None and isinstance(lo, int) \
                        and isinstance(hi, int):
                    v = self.new(state, node, o.kind, extra='slice',
                        items=o.items[lo:hi], taint=o.taint)
            if v is None and o.kind == 'dict' and iv.const is not NC \
                    and ('k', iv.const) in o.fields:
                v = o.fields['k', iv.const]
            if v is None and o.kind in ('list', 'tuple', 'dict', 'set',
                    'iter'):
                v = o.elem
                for x in o.items or ():
                    v = join_opt(v, x)
                for x in o.fields.values():
                    v = join_opt(v, x)
                if isinstance(index, ast.Slice):
                    v = self.new(state, node, o.kind, extra='slice', elem=v,
                        taint=o.taint)
                if v is None:
                    v = V()
                v = v.but(taint=v.taint | o.taint)
            if v is None and o.kind == 'inst' and o.cls is not None \
                    and '__getitem__' in o.cls.methods:
                v = V(taint=o.taint)
            if v is None:
                # array: view (or element) of the same object
                if scalar_index(index, iv):
                    v = V(refs=frozenset([r]), taint=o.taint,
                        shape=drop_dims(base.shape, index),
                        tag=('elem',))
                else:
                    # (the contents of a view are those of the object)
                    v = V(refs=frozenset([r]), taint=EMPTY
                        if is_basic_view(index) else o.taint,
                        tag=('view',) if is_basic_view(index) else None)
                    if not is_basic_view(index) and fancy_index(index, iv):
                        v = self.new(state, node, 'array', extra='fancy',
                            taint=o.taint)
                if o.origin is not None and o.kind == 'unknown':
                    pass
            result = join_opt(result, v)

        if result is None:
            result = V(taint=base.taint)

        if isinstance(iv.const, int) and not isinstance(iv.const, bool) \
                and result.sym is None and result.tag == ('elem',) \
                and not isinstance(index, (ast.Slice, ast.Tuple)):
            es = self.entries(base)
            if es is not None and -len(es) <= iv.const < len(es):
                result = result.but(sym=es[iv.const])

        # values selected by a process-dependent index differ
        return result.but(taint=result.taint | it | base.taint)

    def check_slice(self, part, state, node):
        """Part of the items that belongs to the process."""
        a = self.eval(part.lower, state).sym
        if a is None:
            return
        if part.step is not None:
            c = self.eval(part.step, state).sym
            ranks = [x for x in a.atoms() if isinstance(x, tuple)
                and x[0] == 'rank']
            if not ranks or c is None:
                return
            self.robin_sites = getattr(self, 'robin_sites', 0) + 1
            if a != Poly.atom(*ranks[0]) \
                    or c != Poly.atom('size', ranks[0][1]):
                self.report('dist-robin', node, 'strided slice', 'items are '
                    'dealt out with stride %s starting from %s' % (c, a))
            elif part.upper is not None:
                b = self.eval(part.upper, state).sym
                if b is not None and b.is_const():
                    self.report('dist-robin', node, 'strided slice',
                        'items beyond a fixed position are not dealt out')
            return
        if part.upper is None:
            return
        b = self.eval(part.upper, state).sym
        if b is None:
            return
        for x in a.atoms():
            if isinstance(x, tuple) and x[0] == 'B' and a == Poly.atom(*x) \
                    and b - a != Poly.atom('S', x[1]) \
                    and (b - a - Poly.atom('S', x[1])).is_const():
                self.report('dist-range', node, 'slice', 'the slice of '
                    'distributed items does not end at the next bound')

    def check_index(self, base, index, iv, state, node, store):
        """Distributed loops: local buffers by local, global by global index."""
        parts = index.elts if isinstance(index, ast.Tuple) else [index]
        if not parts:
            return
        for part in parts:
            if isinstance(part, ast.Slice) and part.lower is not None:
                self.check_slice(part, state, node)
        os = [o for r, o in self.objs(state, base)]
        if not store and not base.taint and os and base.tag in (
                None, ('view',)) and not any(o.taint
                or o.shared is not None or o.kind not in ('array',
                'unknown') for o in os):
            for n, part in enumerate(parts):
                if isinstance(part, (ast.Slice, ast.Constant,
                        ast.Starred)):
                    continue
                v = iv if len(parts) == 1 else self.eval(part, state)
                for a in v.sym.atoms() if v.sym is not None else ():
                    if isinstance(a, tuple) and a[0] == 'my' \
                            and v.sym == Poly.atom(*a):
                        self.report('dist-index', node, 'replicated',
                            'data that are the same on all processes are '
                            'addressed with the local item number')
        if base.refs and base.tag is None and not any(isinstance(r, Desc)
                for r in base.refs):
            for n, part in enumerate(parts):
                if isinstance(part, ast.Starred) or isinstance(part,
                        ast.Constant) and part.value is Ellipsis:
                    break
                if isinstance(part, (ast.Slice, ast.Constant)):
                    continue
                v = iv if len(parts) == 1 else self.eval(part, state)
                for a in v.sym.atoms() if v.sym is not None else ():
                    if isinstance(a, tuple) and a[0] in ('item', 'my') \
                            and v.sym == Poly.atom(*a):
                        use = self.idx_use.setdefault((base.refs, n, a[1]),
                            {})
                        use.setdefault(a[0], node)
                        if len(use) == 2:
                            self.report('dist-index', node, 'mixed',
                                'the same array is addressed with both the '
                                'local and the global item number')
            if base.shape is None and len(parts) and base.refs:
                base = base.but(shape=(Poly.atom('dim', 'shape',
                    self.refkey(base), 0),))
        if base.shape is None or not base.shape:
            return
        first = parts[0]
        for part, lead in zip(parts, base.shape):
            if isinstance(part, (ast.Starred, ast.Constant)) or is_star(lead):
                break
            if isinstance(part, ast.Slice) and part.step is None \
                    and part.upper is not None:
                lo = Poly.const(0) if part.lower is None else self.eval(
                    part.lower, state).sym
                up = self.eval(part.upper, state).sym
                if lo is None or up is None:
                    continue
                for atom in (up - lo).atoms():
                    if not isinstance(atom, tuple) or atom[0] != 'S' \
                            or up - lo != Poly.atom(*atom):
                        continue
                    d = self.dists.get(atom[1])
                    if d is None or d['total'] is None:
                        continue
                    if lo == Poly.const(0) and lead == d['total'] \
                            and not lead.is_const():
                        self.report('dist-index', node, 'global slice',
                            'the first items are used instead of those of the '
                            'process')
                    if lo == Poly.atom('B', atom[1]) and lead == Poly.atom(
                            'S', atom[1]):
                        self.report('dist-index', node, 'local slice',
                            'buffer for the local part of the work is '
                            'addressed with global item numbers')
        if isinstance(first, (ast.Slice, ast.Starred)):
            return
        v = self.eval(first, state) if len(parts) > 1 else iv
        if v.sym is None or is_star(base.shape[0]):
            return
        lead = base.shape[0]
        dists = {a[1]: a for a in lead.atoms() if isinstance(a, tuple)
            and a[0] == 'S'}
        for atom in v.sym.atoms():
            if not isinstance(atom, tuple):
                continue
            if atom[0] == 'item' and v.sym == Poly.atom(*atom):
                if any(d == atom[1] for d in dists) \
                        and lead == Poly.atom('S', atom[1]):
                    self.report('dist-index', node, 'local buffer',
                        'buffer for the local part of the work is addressed '
                        'with the global item number')
            if atom[0] == 'my' and v.sym == Poly.atom(*atom):
                d = self.dists.get(atom[1])
                if d is not None and d['total'] is not None \
                        and lead == d['total'] \
                        and not d['total'].is_const():
                    self.report('dist-index', node, 'global array',
                        'array over all items is addressed with the local '
                        'item number')

    dists = {}

    def dist_index(self, base, index, iv, state, node):
        kind, did, factor = base.tag
        d = self.dists[did]
        rank = Poly.atom('rank', d['comm'].name)
        if isinstance(index, ast.Slice):
            if kind == 'bounds' and index.lower is not None \
                    and index.upper is not None and index.step is None:
                lo = self.eval(index.lower, state).sym
                hi = self.eval(index.upper, state).sym
                if lo is not None and hi is not None:
                    ok = hi - lo == Poly.const(2)
                    if (lo == rank or self.row_rank(lo, d)) and ok:
                        return V(tag=('brange', did, None),
                            taint=self.eval(index.lower, state).taint)
                    self.report('dist-range', node, 'bounds',
                        'the slice of the work bounds does not select the '
                        'part of this process (%s to %s)' % (lo, hi))
            return None
        if iv.sym is not None:
            t = iv.taint
            if kind == 'sizes':
                if iv.sym == rank:
                    return V(sym=Poly.atom('S', did) * factor, taint=t,
                        scalar=True)
                if self.row_rank(iv.sym, d):
                    return V(sym=Poly.atom('S', did) * factor, taint=t,
                        scalar=True)
                if any(isinstance(a, tuple) and a[0] == 'rank'
                        for a in iv.sym.atoms()):
                    self.report('dist-rank', node, 'sizes',
                        'the work is split among the processes of one '
                        'communicator but the part is selected with the rank '
                        'in another one or with an offset (%s)' % iv.sym)
                return V(sym=Poly.atom('Sk', did, iv.sym) * factor, taint=t,
                    scalar=True)
            else:
                if iv.sym == rank:
                    return V(sym=Poly.atom('B', did), taint=t, scalar=True)
                if iv.sym == rank + Poly.const(1):
                    return V(sym=Poly.atom('B', did) + Poly.atom('S', did),
                        taint=t, scalar=True)
                ranks = [a for a in iv.sym.atoms() if isinstance(a, tuple)
                    and a[0] == 'rank']
                if self.row_rank(iv.sym, d):
                    return V(sym=Poly.atom('B', did), taint=t, scalar=True)
                if self.row_rank(iv.sym - Poly.const(1), d):
                    return V(sym=Poly.atom('B', did) + Poly.atom('S', did),
                        taint=t, scalar=True)
                if ranks and any(a[1] != d['comm'].name for a in ranks):
                    self.report('dist-rank', node, 'bounds',
                        'the work is split among the processes of one '
                        'communicator but the part is selected with the rank '
                        'in another one (%s)' % iv.sym)
                return V(sym=Poly.atom('Bk', did, iv.sym), taint=t,
                    scalar=True)
        return None

    rows = {}

    def row_rank(self, p, d):
        """Rank in a row of a process matrix set up for the same items."""
        for a in p.atoms():
            if isinstance(a, tuple) and a[0] == 'rank' \
                    and p == Poly.atom(*a) and a[1] in self.rows:
                comm, size = self.rows[a[1]]
                return comm == d['comm'] and size is not None \
                    and size == d['total']
        return False

    # containers

    def eval_Tuple(self, node, state):
        return self.make_seq(node, state, 'tuple')

    def eval_List(self, node, state):
        return self.make_seq(node, state, 'list')

    def eval_Set(self, node, state):
        v = self.make_seq(node, state, 'set')
        return v

    def make_seq(self, node, state, kind):
        items = []
        seq = []
        elem = None
        known = True
        for e in node.elts:
            if isinstance(e, ast.Starred):
                v = self.eval(e.value, state)
                if v.seq is not None:
                    if seq is not None:
                        seq.extend(v.seq)
                    known = False
                else:
                    its = self.known_items(state, v)
                    if its is not None:
                        items.extend(its)
                        for x in its:
                            if seq is not None:
                                seq.append(x.sym) if x.sym is not None \
                                    else None
                                if x.sym is None:
                                    seq = None
                    else:
                        known = False
                        if seq is not None:
                            s = self.star_of(v)
                            if s is None:
                                seq = None
                            else:
                                seq.extend(s)
                elem = join_opt(elem, self.element(state, v, e))
            else:
                v = self.eval(e, state)
                items.append(v)
                elem = join_opt(elem, v)
                if seq is not None:
                    x = self.valsym(state, v)
                    if x is not None:
                        seq.append(x)
                    else:
                        seq = None
        t = EMPTY
        v = self.new(state, node, kind, items=tuple(items) if known else None,
            elem=None if known else elem)
        if seq is not None and kind in ('tuple', 'list') and seq:
            v = v.but(seq=tuple(seq))
        return v

    def star_of(self, v):
        if not v.refs:
            return None
        if v.tag is not None and v.tag[0] in ('view', 'elem'):
            return None
        return self.entries(v) or (('*', 'arr', self.refkey(v), 0, None),)

    def entries(self, v):
        """Symbols for the elements of a short vector of known length."""
        if v.shape is None or len(v.shape) != 1 or is_star(v.shape[0]) \
                or not v.shape[0].is_const() or not v.refs:
            return None
        n = v.shape[0].value()
        if not 0 < n <= 4 or n.denominator != 1:
            return None
        key = self.refkey(v)
        return tuple(Poly.atom('item_of', key, i) for i in range(int(n)))

    def known_items(self, state, v):
        out = None
        n = 0
        for r, o in self.objs(state, v):
            n += 1
            if o.items is not None:
                out = o.items
            else:
                return None
        if n == 1 and len(v.refs) == 1:
            return out
        return None

    def eval_Dict(self, node, state):
        fields = {}
        elem = None
        for k, x in zip(node.keys, node.values):
            v = self.eval(x, state)
            if k is None:
                elem = join_opt(elem, self.element(state, v, node))
                continue
            kv = self.eval(k, state)
            if kv.const is not NC:
                try:
                    fields['k', kv.const] = v
                except TypeError:
                    elem = join_opt(elem, v)
            else:
                elem = join_opt(elem, v.but(taint=v.taint
                    | self.deep_taint(state, kv)))
        return self.new(state, node, 'dict', fields=fields, elem=elem)

    def element(self, state, v, node, consume=True):
        """Element when iterating over v."""
        self.check_use(state, v, node)
        if v.seq is not None:
            ps = [x for x in v.seq]
            if len(ps) == 1 and not is_star(ps[0]):
                return V(sym=ps[0], taint=v.taint, scalar=True)
            return V(taint=v.taint, scalar=True)
        result = None
        for r in v.refs:
            if isinstance(r, Desc):
                result = join_opt(result, V())
                continue
            o = state.heap.get(r)
            if o is None:
                continue
            if o.kind in ('list', 'tuple', 'set', 'iter'):
                x = o.elem
                for y in o.items or ():
                    x = join_opt(x, y)
                if x is None:
                    x = V()
                x = x.but(taint=x.taint | o.taint)
            elif o.kind == 'dict':
                ks = [k[1] for k in o.fields if isinstance(k, tuple)]
                x = V(taint=o.taint, scalar=True)
            elif o.kind == 'file':
                x = V(taint=o.taint, scalar=True)
            else:
                x = V(refs=frozenset([r]), taint=o.taint, tag=('elem',))
            result = join_opt(result, x)
        if result is None:
            result = V()
        return result.but(taint=result.taint | v.taint)

    # operators

    def eval_BinOp(self, node, state):
        a = self.eval(node.left, state)
        b = self.eval(node.right, state)
        return self.binop(node.op, a, b, state, node)

    def binop(self, op, a, b, state, node):
        self.check_use(state, a, node)
        self.check_use(state, b, node)
        t = self.deep_taint(state, a) | self.deep_taint(state, b)

        if a.tag is not None and a.tag[0] == 'sizes' \
                and isinstance(op, ast.Mult):
            x = self.valsym(state, b)
            if x is not None:
                return a.but(tag=('sizes', a.tag[1], a.tag[2] * x),
                    refs=EMPTY)
            return V(taint=t, tag=('sizes?', a.tag[1]))
        if b.tag is not None and b.tag[0] == 'sizes' \
                and isinstance(op, ast.Mult):
            x = self.valsym(state, a)
            if x is not None:
                return b.but(tag=('sizes', b.tag[1], b.tag[2] * x),
                    refs=EMPTY)
            return V(taint=t, tag=('sizes?', b.tag[1]))

        for x, y in ((a, b), (b, a)):
            if x.tag is not None and x.tag[0] == 'gathered' \
                    and isinstance(op, ast.Mult) \
                    and not self.is_list(state, x):
                f = self.valsym(state, y)
                return self.new(state, node, 'array', taint=t).but(
                    tag=None if f is None else ('gathered', x.tag[1],
                    x.tag[2], x.tag[3] * f))

        # tuple/list concatenation and repetition
        if isinstance(op, ast.Add) and a.seq is not None \
                and b.seq is not None:
            return V(seq=a.seq + b.seq, taint=t, tag=('shape',))
        if isinstance(op, ast.Mult) and a.seq is not None \
                and isinstance(b.const, int) \
                and self.is_list(state, a):
            return V(seq=a.seq * b.const, taint=t, tag=('shape',))

        sym = None
        c = NC

        sa, sb = self.valsym(state, a), self.valsym(state, b)
        if sa is not None and sb is not None:
            sym = sym_op(op, sa, sb)

        if a.const is not NC and b.const is not NC:
            c = const_op(op, a.const, b.const)
            if c is not NC and isinstance(c, int) and not isinstance(c, bool):
                sym = Poly.const(c)

        if isinstance(op, ast.Mod) and isinstance(a.const, str):
            return V(taint=t, scalar=True)

        scalar = a.scalar and b.scalar or sym is not None and not (
            self.has_array(state, a) or self.has_array(state, b))

        if scalar:
            return V(const=c, taint=t, sym=sym, scalar=True)

        if self.is_list(state, a) and self.is_list(state, b) \
                and isinstance(op, ast.Add):
            elem = join_opt(self.element(state, a, node),
                self.element(state, b, node))
            return self.new(state, node, 'list', elem=elem)

        shape = None
        if a.shape is not None and b.shape is None and b.scalar:
            shape = a.shape
        elif b.shape is not None and a.shape is None and a.scalar:
            shape = b.shape
        elif a.shape is not None and a.shape == b.shape:
            shape = a.shape

        v = self.new(state, node, 'array', taint=t, shape=shape)
        if c is not NC:
            v = v.but(const=c)
        return v.but(sym=sym)

    def is_list(self, state, v):
        ks = {o.kind for r, o in self.objs(state, v)}
        return bool(ks) and ks <= {'list', 'tuple'}

    def has_array(self, state, v):
        return any(True for _ in self.objs(state, v))

    def eval_UnaryOp(self, node, state):
        v = self.eval(node.operand, state)
        self.check_use(state, v, node)
        t = self.deep_taint(state, v)
        if isinstance(node.op, ast.Not):
            tr = self.truth(v, state)
            pred = None
            if v.pred is not None:
                pred = (v.pred[1], v.pred[0])
            elif v.sym is not None:
                p = self.rank_pred(v)
                if p is not None:
                    pred = p
            return V(const=(not tr) if tr is not None else NC, taint=t,
                pred=pred, scalar=True)
        if isinstance(node.op, ast.USub):
            if v.const is not NC and isinstance(v.const,
                    (int, float, complex)):
                return const(-v.const, t)
            if v.sym is not None:
                return V(sym=-v.sym, taint=t, scalar=v.scalar)
        if isinstance(node.op, ast.UAdd):
            return v
        if v.scalar:
            return V(taint=t, scalar=True)
        return self.new(state, node, 'array', taint=t, shape=v.shape)

    def rank_pred(self, v):
        """not rank -> only process 0."""
        if v.sym is None:
            return None
        for a in v.sym.atoms():
            if isinstance(a, tuple) and a[0] == 'rank' \
                    and v.sym == Poly.atom(*a):
                return (frozenset([a[1]]), EMPTY)
        return None

    def truth(self, v, state):
        """Known truth value or None."""
        if v.const is not NC:
            try:
                return bool(v.const)
            except Exception:
                return None
        return None

    def eval_BoolOp(self, node, state):
        t = EMPTY
        result = None
        is_and = isinstance(node.op, ast.And)
        pushed = 0
        pt, pf = EMPTY, EMPTY
        unknown = False
        base = state.trace
        values = []
        decided = EMPTY
        for n, x in enumerate(node.values):
            before = state.trace
            if decided:
                # evaluated only where the preceding operands allow it
                state.trace = ()
            v = self.eval(x, state)
            if decided:
                inner = state.trace
                if inner:
                    self.compare_traces(inner, (), decided, node,
                        'boolean expression')
                    state.trace = before + (('div', decided, inner, ()),)
                else:
                    state.trace = before
            self.check_use(state, v, x)
            values.append(v)
            tr = self.truth(v, state)
            p = self.pred_of(v)
            dt = v.taint if v.refs else self.deep_taint(state, v)
            t |= self.deep_taint(state, v)
            if is_and:
                pt = pt | p[0]
            else:
                pf = pf | p[1]
            if tr is not None:
                if tr is (not is_and):
                    # short circuit
                    if not unknown:
                        for _ in range(pushed):
                            state.guards = state.guards[:-1]
                        return v
                    break
                continue
            unknown = True
            if dt:
                state.guards = state.guards + (Guard(dt,
                    p[0] if is_and else p[1], x),)
                pushed += 1
                decided |= dt
        for _ in range(pushed):
            state.guards = state.guards[:-1]
        tr = None
        if not unknown:
            return values[-1]
        # value of the expression: one of the operands
        last = values[-1]
        r = None
        for v in values:
            r = join_opt(r, v)
        falses = [v for v in values if self.truth(v, state) is (not is_and)]
        c = NC
        if falses:
            c = (not is_and)
        if len(node.values) == 1:
            pf = self.pred_of(values[0])[1]
        return V(refs=r.refs if not r.scalar else EMPTY, const=c, taint=t,
            pred=(pt, pf), none=r.none, scalar=r.scalar, shape=r.shape,
            sym=r.sym)

    def pred_of(self, v):
        if v.pred is not None:
            return v.pred
        p = self.rank_pred(v)
        if p is not None:
            return (frozenset('many:' + x for x in p[0]), p[0])
        return (EMPTY, EMPTY)

    def eval_Compare(self, node, state):
        left = self.eval(node.left, state)
        vals = [left]
        for c in node.comparators:
            vals.append(self.eval(c, state))
        for v, x in zip(vals, [node.left] + node.comparators):
            self.check_use(state, v, x)

        identity = len(node.ops) == 1 and isinstance(node.ops[0],
            (ast.Is, ast.IsNot))

        # all processes on a single node
        one = EMPTY
        for op, a, b in zip(node.ops, vals, vals[1:]):
            if isinstance(op, ast.Eq) and a.sym is not None \
                    and b.sym is not None:
                sizes = [list(x.sym.atoms()) for x in (a, b)]
                if all(len(x) == 1 and isinstance(x[0], tuple)
                        and x[0][0] == 'size' for x in sizes):
                    x, y = (z[0][1] for z in sizes)
                    for x, y in ((x, y), (y, x)):
                        if x == 'node(%s)' % y:
                            one |= {'one:images(%s)' % y}

        t = EMPTY
        for v in vals:
            t |= v.taint if identity else self.deep_taint(state, v)

        pred = None
        c = NC

        if len(node.ops) == 1:
            op = node.ops[0]
            a, b = vals
            only = EMPTY
            if isinstance(op, (ast.Eq, ast.NotEq)):
                for x, y in ((a, b), (b, a)):
                    p = self.rank_pred(x)
                    if p is not None and not any(q.startswith('rank:')
                            for q in self.deep_taint(state, y)):
                        only = p[0]
                if only:
                    others = frozenset('many:' + x for x in only)
                    for y in (a, b):
                        if type(y.const) is int and y.const != 0:
                            only = others # does not exist in every run
                    pred = (only, others) if isinstance(op, ast.Eq) \
                        else (others, only)
            if isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                # rank < 1, rank > 0
                p = self.rank_pred(a)
                if p is not None and isinstance(b.const, int):
                    if isinstance(op, ast.Lt) and b.const == 1 \
                            or isinstance(op, ast.LtE) and b.const == 0:
                        pred = (p[0], EMPTY)
                    if isinstance(op, ast.Gt) and b.const == 0 \
                            or isinstance(op, ast.GtE) and b.const == 1:
                        pred = (EMPTY, p[0])
                    many = frozenset('many:' + x for x in p[0])
                    pred = (pred[0] or many, pred[1] or many) \
                        if pred is not None else (many, many)
                elif p is not None and b.const is NC:
                    pred = (frozenset('some:' + x for x in p[0]), EMPTY)
            if identity:
                c = self.identity(op, a, b, state)
            elif a.const is not NC and b.const is not NC:
                c = compare_const(op, a.const, b.const)
            elif isinstance(op, (ast.Eq, ast.NotEq)) and a.sym is not None \
                    and b.sym is not None and (a.sym - b.sym).is_const() \
                    and (a.scalar and b.scalar):
                z = (a.sym - b.sym).value() == 0
                c = z if isinstance(op, ast.Eq) else not z

        # chains like 1 == size > 1 are decided by their constants
        known = [v.const for v in vals]
        for _ in vals:
            for n, op in enumerate(node.ops):
                if isinstance(op, ast.Eq):
                    if known[n] is NC and known[n + 1] is not NC:
                        known[n] = known[n + 1]
                    elif known[n + 1] is NC and known[n] is not NC:
                        known[n + 1] = known[n]
        if len(node.ops) > 1:
            for op, a, b in zip(node.ops, known, known[1:]):
                if a is not NC and b is not NC and not isinstance(op,
                        (ast.In, ast.NotIn, ast.Is, ast.IsNot)) \
                        and compare_const(op, a, b) is False:
                    c = False

        if one:
            pt, pf = pred or (EMPTY, EMPTY)
            pred = (pt | one, pf)

        # round-robin distribution: n % comm.size == comm.rank
        self.check_round_robin(vals, node, state)

        arrays = any(self.has_array(state, v) and not v.scalar for v in vals)
        if arrays and not identity and c is NC and not any(
                isinstance(o, (ast.In, ast.NotIn)) for o in node.ops):
            v = self.new(state, node, 'array', taint=t)
            return v.but(pred=pred)
        return V(const=c, taint=t, pred=pred, scalar=True)

    def check_round_robin(self, vals, node, state):
        if len(vals) != 2:
            return
        for a, b in ((vals[0], vals[1]), (vals[1], vals[0])):
            if a.sym is None or b.sym is None:
                continue
            ra = [x for x in a.sym.atoms() if isinstance(x, tuple)
                and x[0] == 'rank']
            mods = [x for x in b.sym.atoms() if isinstance(x, tuple)
                and x[0] == 'mod']
            for x in b.sym.atoms():
                if isinstance(x, tuple) and x[0] == 'floordiv' \
                        and isinstance(x[2], Poly) and any(x[2] ==
                        Poly.atom('size', y[1]) for y in ra):
                    self.report('dist-robin', node, 'blocks', 'items are '
                        'claimed by the quotient instead of the remainder '
                        'of their number and the number of processes')
            if not ra or not mods:
                continue
            for m in mods:
                if isinstance(m[2], Poly):
                    sizes = [x for x in m[2].atoms() if isinstance(x, tuple)
                        and x[0] == 'size']
                    self.robin_sites = getattr(self, 'robin_sites', 0) + 1
                    if not (a.sym == Poly.atom(*ra[0])
                            and m[2] == Poly.atom('size', ra[0][1])):
                        self.report('dist-robin', node, 'round robin',
                            'items are dealt out modulo %s but claimed by %s'
                            % (m[2], a.sym))

    def identity(self, op, a, b, state):
        for x, y in ((a, b), (b, a)):
            if y.const is None and y.const is not NC:
                if x.const is None and x.const is not NC:
                    r = True
                elif not x.none and (x.refs or x.const is not NC
                        or x.sym is not None or x.seq is not None
                        or x.scalar):
                    r = False
                else:
                    return NC
                return r if isinstance(op, ast.Is) else not r
        return NC

    def eval_IfExp(self, node, state):
        test = self.eval(node.test, state)
        tr = self.truth(test, state)
        if tr is True:
            return self.eval(node.body, state)
        if tr is False:
            return self.eval(node.orelse, state)
        T = self.test_taint(test, state)
        pt, pf = self.pred_of(test)
        base = state.trace
        heap0 = dict(state.heap)
        if T:
            state.guards = state.guards + (Guard(T, pt, node),)
        state.trace = ()
        a = self.eval(node.body, state)
        t1 = state.trace
        if T:
            state.guards = state.guards[:-1] + (Guard(T, pf, node),)
        state.trace = ()
        b = self.eval(node.orelse, state)
        t2 = state.trace
        if T:
            state.guards = state.guards[:-1]
            self.compare_traces(t1, t2, T, node, 'conditional expression')
            state.trace = base + ((('div', T, t1, t2),) if t1 or t2 else ())
            return self.div_join(a, b, T, state)
        state.trace = base + join_traces(t1, t2)
        return join_v(a, b)

    def eval_Lambda(self, node, state):
        f = Func(state.env.module, node, parent=self.active[-1][0]
            if self.active and isinstance(self.active[-1][0], Func) else None)
        f.name = '<lambda>'
        return V(refs=frozenset([FuncD(f, state.env)]))

    def comprehension(self, node, elts, state, kind):
        env = Env(self.new_fid(), {}, state.env, state.env.module,
            state.env.func)
        saved = state.env
        state.env = env
        pushed = 0
        base = state.trace
        T = EMPTY
        allt = EMPTY
        for g in node.generators:
            it = self.eval(g.iter, state)
            x = self.element_of_iter(it, g.iter, state, g.iter)
            T |= self.iter_taint(state, it)
            allt |= self.deep_taint(state, it)
            self.assign(g.target, x, state, node)
            for c in g.ifs:
                tv = self.eval(c, state)
                T |= self.test_taint(tv, state)
                state.guards = state.guards + (Guard(
                    self.test_taint(tv, state), self.pred_of(tv)[0], c),)
                pushed += 1
        state.trace = ()
        vs = [self.eval(e, state) for e in elts]
        inner = state.trace
        for _ in range(pushed):
            state.guards = state.guards[:-1]
        state.env = saved
        if T:
            self.check_no_events(inner, T, node, 'comprehension')
        state.trace = base + ((('loop', inner),) if inner else ())
        ctaint = EMPTY
        for g in node.generators:
            pass
        if kind == 'dict':
            elem = vs[1]
            return self.new(state, node, 'dict', elem=elem,
                taint=T | self.deep_taint(state, vs[0]))
        elem = vs[0]
        return self.new(state, node, kind, elem=elem, taint=T)

    def eval_ListComp(self, node, state):
        return self.comprehension(node, [node.elt], state, 'list')

    def eval_SetComp(self, node, state):
        return self.comprehension(node, [node.elt], state, 'set')

    def eval_GeneratorExp(self, node, state):
        return self.comprehension(node, [node.elt], state, 'iter')

    def eval_DictComp(self, node, state):
        return self.comprehension(node, [node.key, node.value], state, 'dict')

    def iter_taint(self, state, it):
        """Taint of the number of iterations."""
        t = it.taint
        for r, o in self.objs(state, it):
            if o.kind in ('list', 'tuple', 'set', 'dict', 'iter', 'file'):
                if o.items is None or o.taint:
                    t |= o.taint
            elif o.mode == 'local':
                t |= o.taint
        return t

    def element_of_iter(self, it, expr, state, node):
        """Loop variable, aware of range/enumerate over distributed work."""
        if it.tag is not None and it.tag[0] == 'items':
            did = it.tag[1]
            return V(sym=Poly.atom('item', did), taint=it.taint, scalar=True)
        if it.tag is not None and it.tag[0] == 'enum':
            did = it.tag[1]
            a = V(sym=Poly.atom('my', did), taint=it.taint, scalar=True)
            b = V(sym=Poly.atom('item', did), taint=it.taint, scalar=True)
            return self.new(state, node, 'tuple', extra='enum', items=(a, b))
        if it.tag is not None and it.tag[0] == 'range':
            return V(sym=Poly.atom('loop', id(node), self.cur_ctx()),
                taint=it.taint, scalar=True)
        return self.element(state, it, node)

    def new_fid(self):
        self.fid += 1
        return self.fid

    # -- calls --

    def eval_Call(self, node, state):
        fv = self.eval(node.func, state)
        args = []
        star = False
        for a in node.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, state)
                if v.tag is not None and v.tag[0] == 'brange':
                    args.append(v.but(tag=('*brange',) + v.tag[1:]))
                    continue
                items = self.known_items(state, v)
                if items is not None:
                    args.extend(items)
                elif v.seq is not None and not any(is_star(x)
                        for x in v.seq):
                    args.extend(V(sym=x, taint=v.taint, scalar=True)
                        for x in v.seq)
                else:
                    args.append(Star(v))
                    star = True
            else:
                args.append(self.eval(a, state))
        kwargs = {}
        extra = None
        for k in node.keywords:
            v = self.eval(k.value, state)
            if k.arg is None:
                got = False
                for r, o in self.objs(state, v):
                    if o.kind == 'dict':
                        for key, x in o.fields.items():
                            if isinstance(key, tuple) and key[0] == 'k' \
                                    and isinstance(key[1], str):
                                kwargs.setdefault(key[1], x)
                        got = True
                extra = v
            else:
                kwargs[k.arg] = v
        if extra is not None:
            kwargs['**'] = extra
        return self.call(fv, args, kwargs, node, state)

    def call(self, fv, args, kwargs, node, state):
        self.stats['calls'] += 1
        result = None
        targets = sorted(self.descs(fv), key=repr)
        insts = [(r, o) for r, o in self.objs(state, fv)]
        if not targets and not insts:
            return self.unknown_call(fv, args, kwargs, node, state)
        base = state.trace
        n = len(targets) + len(insts)
        if n == 1:
            if targets:
                result = self.call_desc(targets[0], fv, args, kwargs, node,
                    state)
            else:
                result = self.call_obj(insts[0], fv, args, kwargs, node,
                    state)
        else:
            # alternatives
            traces = []
            heaps = []
            for x in targets + insts:
                s = state.fork()
                s.trace = ()
                if isinstance(x, Desc):
                    v = self.call_desc(x, fv, args, kwargs, node, s)
                else:
                    v = self.call_obj(x, fv, args, kwargs, node, s)
                if s.dead:
                    continue
                traces.append(s.trace)
                heaps.append(s.heap)
                result = join_opt(result, v)
            if heaps:
                h = heaps[0]
                t = traces[0]
                for h2, t2 in zip(heaps[1:], traces[1:]):
                    h = self.join_heaps(h, h2, EMPTY)
                    t = join_traces(t, t2)
                state.heap.clear()
                state.heap.update(h)
                state.trace = base + t
        if result is None:
            result = V()
        if fv.taint:
            result = result.but(taint=result.taint | fv.taint)
        return result

    def call_obj(self, ro, fv, args, kwargs, node, state):
        r, o = ro
        if o.kind == 'inst' and o.cls is not None \
                and '__call__' in o.cls.methods:
            return self.call_func(FuncD(o.cls.methods['__call__'], None,
                V(refs=frozenset([r]))), args, kwargs, node, state)
        if o.kind == 'closure':
            return self.unknown_call(fv, args, kwargs, node, state)
        return self.unknown_call(fv, args, kwargs, node, state)

    def call_desc(self, d, fv, args, kwargs, node, state):
        if isinstance(d, FuncD):
            return self.call_func(d, args, kwargs, node, state)
        if isinstance(d, ClassD):
            return self.instantiate(d.cls, args, kwargs, node, state)
        if isinstance(d, ExtD):
            return self.call_ext(d.name, args, kwargs, node, state)
        if isinstance(d, MethD):
            return self.call_method(d, args, kwargs, node, state)
        return self.unknown_call(fv, args, kwargs, node, state)

    def args_taint(self, state, args, kwargs):
        t = EMPTY
        for a in args:
            v = a.v if isinstance(a, Star) else a
            t |= self.deep_taint(state, v)
        for v in kwargs.values():
            t |= self.deep_taint(state, v)
        return t

    def use_args(self, state, args, kwargs, node):
        for a in args:
            a = a.v if isinstance(a, Star) else a
            self.check_use(state, a, node)
            self.initialised(state, a)
        for v in kwargs.values():
            self.check_use(state, v, node)
            self.initialised(state, v)

    def initialised(self, state, v):
        for r, o in list(self.objs(state, v)):
            if o.mode == 'uninit':
                state.heap[r] = o.but(mode=None)

    def unknown_call(self, fv, args, kwargs, node, state):
        self.use_args(state, args, kwargs, node)
        t = self.args_taint(state, args, kwargs) \
            | self.deep_taint(state, fv)
        return self.new(state, node, 'unknown', extra='call', taint=t) \
            .but(none=True)

    # MODELS: functions of the MPI module interpreted by contract; their bodies
    # are checked against the contract separately (sa/core.py).

    def call_func(self, d, args, kwargs, node, state):
        f = d.func
        q = f.qualname
        model = self.models.get(q) if f.parent is None else None
        if model is not None and not self.inside(q):
            bound = self.bind_args(f, d, args, kwargs, state, node)
            return model(self, bound, node, state, d)
        if len(self.active) > self.max_depth \
                or sum(1 for a in self.active if a[0].node is f.node) >= 2:
            return self.unknown_call(V(), args, kwargs, node, state)
        self.stats['inlined'] += 1
        return self.inline(d, args, kwargs, node, state)

    def inside(self, qualname):
        return any(isinstance(a[0], Func) and a[0].qualname == qualname
            for a in self.active)

    def default_value(self, f, expr, state):
        env = Env(('module', f.module.name), {}, None, f.module, None)
        s = State(env, state.heap)
        self.active.append((ModuleFunc(f.module), 0))
        try:
            v = self.eval(expr, s)
        finally:
            self.active.pop()
        return v

    def bind_args(self, f, d, args, kwargs, state, node):
        a = f.args
        params = [p.arg for p in a.posonlyargs + a.args]
        bound = {}
        args = list(args)
        kwargs = dict(kwargs)
        if d.selfv is not None:
            args.insert(0, d.selfv)
        extra_kw = kwargs.pop('**', None)
        rest = []
        star = None
        i = 0
        for x in args:
            if isinstance(x, Star):
                star = x.v
                continue
            if star is None and i < len(params):
                bound[params[i]] = x
                i += 1
            else:
                rest.append(x)
        names = set(params) | {p.arg for p in a.kwonlyargs}
        restkw = {}
        for k, v in kwargs.items():
            if k in names:
                bound[k] = v
            else:
                restkw[k] = v
        defaults = dict(zip(params[len(params) - len(a.defaults):],
            a.defaults))
        for p, e in zip(a.kwonlyargs, a.kw_defaults):
            if e is not None:
                defaults[p.arg] = e
        for p in params + [p.arg for p in a.kwonlyargs]:
            if p in bound:
                continue
            if star is not None and p in params:
                bound[p] = self.element(state, star, node)
            elif p in defaults:
                v = self.default_value(f, defaults[p], state)
                if extra_kw is not None:
                    # may be overridden by unknown keyword arguments
                    ov = self.kw_override(extra_kw, p, state)
                    if ov is not None:
                        v = ov
                bound[p] = v
            else:
                # supplied by the unspecified arguments of the caller
                oid = ('p', f.qualname, p)
                if oid not in state.heap:
                    state.heap[oid] = Obj('unknown')
                bound[p] = V(refs=frozenset([oid]))
        if a.vararg is not None:
            elem = None
            if star is not None:
                elem = self.element(state, star, node)
            v = self.new(state, f.node, 'tuple', extra='vararg',
                items=tuple(rest) if star is None else None, elem=elem)
            bound[a.vararg.arg] = v
        if a.kwarg is not None:
            elem = None
            fields = {('k', k): v for k, v in restkw.items()}
            if extra_kw is not None:
                for r, o in self.objs(state, extra_kw):
                    elem = join_opt(elem, o.elem)
                    if o.kind == 'dict':
                        for k, v in o.fields.items():
                            fields.setdefault(k, v)
            v = self.new(state, f.node, 'dict', extra='kwarg', fields=fields,
                elem=elem)
            bound[a.kwarg.arg] = v
        return bound

    def kw_override(self, extra, name, state):
        for r, o in self.objs(state, extra):
            if ('k', name) in o.fields:
                return o.fields['k', name]
        return None

    def inline(self, d, args, kwargs, node, state):
        f = d.func
        bound = self.bind_args(f, d, args, kwargs, state, node)
        parent = None
        if d.env is not None:
            parent = d.env
            # prefer the live frame if it is still active
            e = state.env
            while e is not None:
                if e.fid == d.env.fid:
                    parent = e
                    break
                e = e.parent
            if parent is d.env and d.env.fid in self.final_envs:
                parent = self.final_envs[d.env.fid]
        env = Env(self.new_fid(), bound, parent, f.module, f)
        ctx = self.ctx(self.cur_ctx(), node)
        s = State(env, state.heap, (), state.guards, ())
        self.active.append((f, ctx))
        try:
            v, s2 = self.run_body(f, s)
        finally:
            self.active.pop()
        if s2 is None:
            state.dead = 'raise'
            return V()
        if s2.heap is not state.heap:
            state.heap.clear()
            state.heap.update(s2.heap)
        state.trace = state.trace + s2.trace
        return v

    final_envs = {}

    def run_body(self, f, s):
        """Execute body; return (value, joined state) or (None, None)."""
        if isinstance(f.node, ast.Lambda):
            v = self.eval(f.node.body, s)
            return (None, None) if s.dead else (v, s)
        gen = is_generator(f.node)
        guards, divs = s.guards, s.divs
        outcomes = self.exec_block(f.node.body, s)
        normal = []
        for kind, st, v in outcomes:
            if kind in ('fall', 'return'):
                normal.append((st, v if v is not None else NONE))
        self.check_divs(outcomes, f.node)
        if not normal:
            return None, None
        st, v = normal[0]
        closures = has_closures(f.node)
        for st2, v2 in normal[1:]:
            T = diverging(st.divs, st2.divs)
            if T:
                v = self.div_join(v, v2, T, None, (st.heap, st2.heap))
                heap = self.join_heaps(st.heap, st2.heap, T)
            else:
                v = join_v(v, v2)
                heap = self.join_heaps(st.heap, st2.heap, EMPTY)
            tr = join_traces(st.trace, st2.trace)
            env = self.join_envs(st.env, st2.env, T if closures else EMPTY,
                heap, objects=False)
            divs_ = common_prefix(st.divs, st2.divs)
            st = State(env, heap, tr, guards, divs_)
        st = State(st.env, st.heap, st.trace, guards, divs)
        self.final_envs[st.env.fid] = st.env
        if gen:
            v = self.new(st, f.node, 'iter', extra='gen', elem=V())
        return v, st

    def check_divs(self, outcomes, node):
        """Compare collective traces of paths that diverged by process."""
        ids = {}
        for kind, st, v in outcomes:
            for d in st.divs:
                ids.setdefault(d[0], d)
        for did, d in ids.items():
            T, test = d[2], d[3]
            comms = lambda c: self.straddles(c, T)
            sets = {0: set(), 1: set()}
            raised = {0: set(), 1: set()}
            for kind, st, v in outcomes:
                for x in st.divs:
                    if x[0] == did:
                        t = filter_trace(st.trace[x[4]:], comms)
                        if kind == 'raise':
                            raised[x[1]].add(t)
                        else:
                            sets[x[1]].add(t)
            self.div_checks += 1
            for b in (0, 1):
                for t in raised[b]:
                    if t:
                        self.report('collective-mismatch', test,
                            'raise in branch',
                            'a path selected by a process-dependent '
                            'condition ends in an error after collective '
                            'operations other processes do not reach: '
                            + show_trace(t))
            if sets[0] and sets[1] and not traces_match(sets[0], sets[1]):
                self.report('collective-mismatch', test, 'early exit',
                    'processes taking different branches of this '
                    'process-dependent condition issue different collective '
                    'operations up to the end of the routine: [%s] versus '
                    '[%s]' % (' || '.join(sorted(map(show_trace, sets[0]))),
                    ' || '.join(sorted(map(show_trace, sets[1])))))

    # instances

    def instantiate(self, cls, args, kwargs, node, state):
        if is_array_class(cls):
            return self.models['MPI.SharedArray'](self, dict(args=args,
                kwargs=kwargs), node, state, None)
        v = self.new(state, node, 'inst', extra=cls.qualname, cls=cls)
        if '__init__' in cls.methods:
            self.call_func(FuncD(cls.methods['__init__'], None, v), args,
                kwargs, node, state)
        return v

    # external functions

    def call_ext(self, name, args, kwargs, node, state):
        from . import extmodel
        return extmodel.call(self, name, args, kwargs, node, state)

    def call_method(self, d, args, kwargs, node, state):
        from . import extmodel
        return extmodel.method(self, d, args, kwargs, node, state)

    # -- collective operations --

    def comm_op(self, comm, op, args, kwargs, node, state):
        from . import extmodel
        return extmodel.comm_op(self, comm, op, args, kwargs, node, state)

    def emit(self, op, comm, node, state):
        if comm == SELF:
            return
        self.stats['collectives'] += 1
        name = 'Barrier' if op == 'barrier' else op
        args = getattr(node, 'args', None)
        label = args[-1] if args else None
        if isinstance(label, (ast.Tuple, ast.List)) and label.elts:
            label = label.elts[0]
        state.trace = state.trace + (('ev', name, comm, None if label is None
            else ast.unparse(label)),)
        self.events.append((op, comm, self.where(node), self.func_name()))

    def compare_traces(self, t1, t2, T, node, what):
        comms = lambda c: self.straddles(c, T)
        a = filter_trace(t1, comms)
        b = filter_trace(t2, comms)
        self.div_checks += 1
        if a != b:
            self.report('collective-mismatch', node, what,
                'collective operations depend on a process-dependent '
                'condition (%s): [%s] versus [%s]'
                % (', '.join(sorted(T)), show_trace(a), show_trace(b)))
            return
        x = labels(t1, comms)
        y = labels(t2, comms)
        if x and y and x != y and sorted(x) == sorted(y):
            self.report('collective-mismatch', node, what,
                'the order of collective operations depends on a process-'
                'dependent condition (%s): [%s] versus [%s]'
                % (', '.join(sorted(T)), ' '.join(x), ' '.join(y)))

    def check_no_events(self, trace, T, node, what):
        comms = lambda c: self.straddles(c, T)
        a = filter_trace(trace, comms)
        self.div_checks += 1
        if a and any(True for _ in flat_events(a)):
            self.report('collective-mismatch', node, what,
                'collective operations inside a %s executed a '
                'process-dependent number of times (%s): [%s]'
                % (what, ', '.join(sorted(T)), show_trace(a)))

    # -- joins --

    def div_join(self, a, b, T, state, heaps=None):
        if a == b:
            return a
        hs = heaps or (state.heap,)

        if a.refs and a.refs == b.refs and (a.tag == b.tag
                or {a.tag, b.tag} == {None, ('view',)}) \
                and a.taint == b.taint and a.none == b.none \
                and not any(isinstance(r, Desc) for r in a.refs):
            # views of the same data with another shape
            return join_v(a, b)

        def arrays(v):
            if not v.refs or v.none and v.const is None:
                return False
            for r in v.refs:
                if isinstance(r, Desc):
                    return False
                o = None
                for h in hs:
                    o = o or h.get(r)
                if o is None or o.kind in ('inst',) or o.origin is not None:
                    return False
                if len(hs) > 1 and r in hs[0] and r in hs[1]:
                    return False
            return True

        if arrays(a) and arrays(b):
            for h in hs:
                for r in a.refs | b.refs:
                    o = h.get(r)
                    if o is not None and not T <= o.taint:
                        h[r] = o.but(taint=o.taint | T)
            return join_v(a, b)

        v = join_v(a, b)
        return v.but(taint=v.taint | T)

    def one_sided(self, x, T, hs):
        """Value bound by only some of the processes."""
        objs = [(h, r) for h in hs for r in x.refs if not isinstance(r, Desc)
            and r in h]
        if objs and not any(isinstance(r, Desc) for r in x.refs) and all(
                h[r].kind == 'array' and h[r].origin is None
                for h, r in objs) and not (len(hs) > 1 and any(
                r in hs[0] and r in hs[1] for h, r in objs)):
            for h, r in objs:
                if not T <= h[r].taint:
                    h[r] = h[r].but(taint=h[r].taint | T)
            return x
        return x.but(taint=x.taint | T)

    def join_heaps(self, h1, h2, T, h0=None):
        if h1 is h2:
            return h1
        out = dict(h1)
        for r, o in h2.items():
            p = out.get(r)
            if p is None:
                out[r] = o
            elif p is not o and T and h0 is not None \
                    and o.shared is not None and p.shared == o.shared \
                    and R(o.shared[0]) in T and (p is h0.get(r)
                    or o is h0.get(r)):
                # written by one process on behalf of the whole node
                out[r] = o if p is h0.get(r) else p
            elif p is not o:
                if T and p.fields is not o.fields and p.kind == 'inst':
                    # fields (re)bound in only one branch
                    q = join_obj(p, o)
                    fields = dict(q.fields)
                    for k in set(p.fields) | set(o.fields):
                        a, b = p.fields.get(k), o.fields.get(k)
                        if a is None or b is None:
                            x = a or b
                            # created on demand or set in one branch only
                            if x.sym is not None and any(
                                    isinstance(y, tuple) and y[0] == 'field'
                                    for y in x.sym.atoms()):
                                continue
                            fields[k] = self.one_sided(x, T, [h1, h2, out])
                        elif a != b:
                            fields[k] = self.div_join(a, b, T, None,
                                (h1, h2, out))
                    out[r] = q.but(fields=fields)
                else:
                    out[r] = join_obj(p, o)
        return out

    def drop_dead(self, s1, s2, heap):
        """Local objects out of reach in one state: facts of the other."""
        ctx = self.cur_ctx()
        differ = [r for r, o in s2.heap.items() if len(r) == 4
            and r[0] == 'h' and r[2] == ctx and r in s1.heap
            and s1.heap[r] is not o and s1.heap[r].taint != o.taint]
        if not differ:
            return
        r1, r2 = self.in_reach(s1), self.in_reach(s2)
        for r in differ:
            if r not in r1 and r in r2:
                heap[r] = s2.heap[r]
            elif r not in r2 and r in r1:
                heap[r] = s1.heap[r]

    def in_reach(self, s):
        seen = set()
        stack = []
        env = s.env
        while env is not None:
            stack.extend(env.vars.values())
            env = env.parent
        while stack:
            v = stack.pop()
            if not isinstance(v, V):
                continue
            for r in v.refs:
                if isinstance(r, MethD):
                    stack.append(r.recv)
                elif isinstance(r, FuncD):
                    if r.selfv is not None:
                        stack.append(r.selfv)
                if isinstance(r, Desc) or r in seen or r not in s.heap:
                    continue
                seen.add(r)
                o = s.heap[r]
                stack.extend(o.items or ())
                stack.extend(o.fields.values())
                if o.elem is not None:
                    stack.append(o.elem)
        return seen

    def join_envs(self, e1, e2, T, heap, heaps=None, objects=True):
        if e1 is e2:
            return e1
        out = {}
        for k in set(e1.vars) | set(e2.vars):
            a, b = e1.vars.get(k), e2.vars.get(k)
            if a is None or b is None:
                x = a or b
                if T and not objects:
                    x = x.but(taint=x.taint | T)
                elif T:
                    hs = [h for h in (heaps or (heap,)) if h is not None]
                    x = self.one_sided(x, T, hs)
                out[k] = x
            elif T and not objects:
                x = join_v(a, b)
                out[k] = x if a == b else x.but(taint=x.taint | T)
            elif T:
                out[k] = self.div_join(a, b, T, None, heaps or (heap,))
            else:
                out[k] = join_v(a, b)
        return Env(e1.fid, out, e1.parent, e1.module, e1.func)

    def join_states(self, s1, s2, T=EMPTY):
        heap = self.join_heaps(s1.heap, s2.heap, T)
        if not T:
            self.drop_dead(s1, s2, heap)
        env = self.join_envs(s1.env, s2.env, T, heap)
        return State(env, heap, join_traces(s1.trace, s2.trace), s1.guards,
            s1.divs)

    # -- statements --

    def exec_block(self, stmts, state):
        outcomes = []
        live = [state]
        for stmt in stmts:
            nxt = []
            for s in live:
                for k, s2, v in self.exec_stmt(stmt, s):
                    if k == 'fall':
                        nxt.append(s2)
                    else:
                        outcomes.append((k, s2, v))
            live = self.merge(nxt)
            if not live:
                break
        outcomes.extend(('fall', s, None) for s in live)
        return outcomes

    def merge(self, states):
        out = []
        for s in states:
            for n, o in enumerate(out):
                if o.divs == s.divs and o.guards == s.guards:
                    out[n] = self.join_states(o, s)
                    break
            else:
                out.append(s)
        return out

    def exec_stmt(self, node, state):
        method = getattr(self, 'exec_' + type(node).__name__, None)
        if method is None:
            for child in ast.iter_child_nodes(node):
                if isinstance(child, ast.expr):
                    self.eval(child, state)
            return self.after(state)
        return method(node, state)

    def after(self, state):
        if state.dead:
            state.dead = None
            return [('raise', state, None)]
        return [('fall', state, None)]

    def exec_Expr(self, node, state):
        self.eval(node.value, state)
        return self.after(state)

    def exec_Pass(self, node, state):
        return [('fall', state, None)]

    def exec_Global(self, node, state):
        return [('fall', state, None)]

    exec_Nonlocal = exec_Global

    def exec_Import(self, node, state):
        for a in node.names:
            name = a.asname or a.name.split('.')[0]
            target = a.name if a.asname else a.name.split('.')[0]
            state.env.vars[name] = self.resolved(
                self.project.resolve(target), state)
        return [('fall', state, None)]

    def exec_ImportFrom(self, node, state):
        for a in node.names:
            state.env.vars[a.asname or a.name] = self.resolved(
                self.project.resolve('%s.%s' % (node.module or '', a.name)),
                state)
        return [('fall', state, None)]

    def exec_FunctionDef(self, node, state):
        f = Func(state.env.module, node,
            parent=self.active[-1][0] if isinstance(self.active[-1][0], Func)
            else None)
        for dflt in node.args.defaults:
            self.eval(dflt, state)
        state.env.vars[node.name] = V(refs=frozenset([FuncD(f, state.env)]))
        return [('fall', state, None)]

    exec_AsyncFunctionDef = exec_FunctionDef

    def exec_ClassDef(self, node, state):
        state.env.vars[node.name] = V()
        return [('fall', state, None)]

    def exec_Assign(self, node, state):
        v = self.eval(node.value, state)
        if state.dead:
            return self.after(state)
        for t in node.targets:
            self.assign(t, v, state, node)
        return self.after(state)

    def exec_AnnAssign(self, node, state):
        if node.value is not None:
            v = self.eval(node.value, state)
            self.assign(node.target, v, state, node)
        return self.after(state)

    def exec_AugAssign(self, node, state):
        value = self.eval(node.value, state)
        self.check_use(state, value, node)
        t = self.deep_taint(state, value)
        target = node.target
        if isinstance(target, ast.Name):
            cur = self.lookup(target.id, state)
            res = self.aug(cur, node.op, value, t, state, node)
            self.assign(target, res, state, node)
        elif isinstance(target, ast.Attribute):
            base = self.eval(target.value, state)
            cur = self.getattr(base, target.attr, state, target)
            res = self.aug(cur, node.op, value, t, state, node)
            self.set_attr(base, target.attr, res, state, node)
        elif isinstance(target, ast.Subscript):
            base = self.eval(target.value, state)
            iv = self.eval(target.slice, state)
            self.check_index(base, target.slice, iv, state, node, store=True)
            self.store_sub(base, target.slice, iv, value, state, node,
                aug=True)
        return self.after(state)

    def aug(self, cur, op, value, t, state, node):
        """Value of name after in-place operation (arrays: same object)."""
        if cur.scalar or cur.const is not NC or not cur.refs \
                or cur.seq is not None and not cur.refs \
                or (cur.tag is not None and cur.tag[0] == 'elem'
                    and not self.surely_array(state, cur)):
            r = self.binop(op, cur, value, state, node)
            return r.but(taint=r.taint | state_none(cur))
        kinds = {o.kind for r, o in self.objs(state, cur)}
        if not kinds:
            return self.binop(op, cur, value, state, node)
        if kinds <= {'tuple'}:
            return self.binop(op, cur, value, state, node)
        if isinstance(value.const, str):
            # text is never modified in place
            return V(taint=cur.taint | self.deep_taint(state, cur) | t,
                scalar=True)
        for r, o in list(self.objs(state, cur)):
            if o.kind in ('list', 'set', 'dict', 'array', 'unknown', 'inst'):
                self.write_obj(state, r, node, t, 'in-place operation')
                o2 = state.heap[r]
                if o2.kind == 'list':
                    elem = self.element(state, value, node)
                    for x in o2.items or ():
                        elem = join_opt(elem, x)
                    state.heap[r] = o2.but(items=None,
                        elem=join_opt(o2.elem, elem))
        return cur.but(sym=None, const=NC, seq=None)

    def surely_array(self, state, v):
        return False

    def assign(self, target, v, state, node):
        if isinstance(target, ast.Name):
            env = state.env
            state.env.vars[target.id] = v
        elif isinstance(target, ast.Attribute):
            base = self.eval(target.value, state)
            self.set_attr(base, target.attr, v, state, node)
        elif isinstance(target, ast.Subscript):
            base = self.eval(target.value, state)
            iv = self.eval(target.slice, state)
            self.check_index(base, target.slice, iv, state, node, store=True)
            self.store_sub(base, target.slice, iv, v, state, node)
        elif isinstance(target, (ast.Tuple, ast.List)):
            self.unpack(target, v, state, node)
        elif isinstance(target, ast.Starred):
            self.assign(target.value, v, state, node)

    def unpack(self, target, v, state, node):
        n = len(target.elts)
        stars = [i for i, e in enumerate(target.elts)
            if isinstance(e, ast.Starred)]
        self.check_use(state, v, node)
        if v.tag is not None and v.tag[0] == 'distribution':
            for e, x in zip(target.elts, v.tag[1:]):
                self.assign(e, x, state, node)
            return
        if v.tag is not None and v.tag[0] == 'brange' and n == 2 and not stars:
            first = Poly.atom('B', v.tag[1])
            for e, x in zip(target.elts, (first,
                    first + Poly.atom('S', v.tag[1]))):
                self.assign(e, V(sym=x, taint=v.taint, scalar=True), state,
                    node)
            return
        if v.seq is not None and not stars:
            seq = v.seq
            if len(seq) == n and not any(is_star(x) for x in seq):
                for e, x in zip(target.elts, seq):
                    self.assign(e, V(sym=x, taint=v.taint, scalar=True,
                        const=int(x.value()) if x.is_const()
                        and x.value().denominator == 1 else NC), state, node)
                return
            if len(seq) == 1 and is_star(seq[0]) and seq[0][3] == 0 \
                    and seq[0][4] is None:
                for i, e in enumerate(target.elts):
                    self.assign(e, V(sym=Poly.atom('dim', seq[0][1],
                        seq[0][2], i), taint=v.taint, scalar=True), state,
                        node)
                return
        items = self.known_items(state, v)
        if items is not None and not stars and len(items) == n:
            extra = v.taint
            for r, o in self.objs(state, v):
                extra |= o.taint
            for e, x in zip(target.elts, items):
                self.assign(e, x.but(taint=x.taint | extra) if extra else x,
                    state, node)
            return
        # several alternatives of equal length
        alts = [o.items for r, o in self.objs(state, v)
            if o.items is not None and len(o.items) == n]
        if alts and not stars and len(alts) == sum(1 for _ in
                self.objs(state, v)):
            extra = v.taint
            for r, o in self.objs(state, v):
                extra |= o.taint
            for i, e in enumerate(target.elts):
                x = alts[0][i]
                for a in alts[1:]:
                    x = join_v(x, a[i])
                self.assign(e, x.but(taint=x.taint | extra), state, node)
            return
        elem = self.element(state, v, node)
        for i, e in enumerate(target.elts):
            if isinstance(e, ast.Starred):
                x = self.new(state, e, 'list', elem=elem)
            else:
                x = elem
                if x.refs and not x.scalar and x.tag is not None \
                        and x.tag[0] == 'elem':
                    x = x.but(sym=Poly.atom('item_of', self.refkey(v), i)
                        if v.refs else None)
            self.assign(e, x, state, node)

    def set_attr(self, base, attr, v, state, node):
        G = state.gtaint()
        for r, o in list(self.objs(state, base)):
            if o.kind == 'array' and attr in ('shape', 'dtype', 'flags',
                    'real', 'imag', 'flat', 'T'):
                self.write_obj(state, r, node, self.deep_taint(state, v),
                    'attribute ' + attr)
                continue
            fields = dict(o.fields)
            x = v
            if o.mode == 'weak' and attr in fields:
                x = join_v(fields[attr], v)
            fields[attr] = x
            state.heap[r] = o.but(fields=fields)
            if o.origin is not None:
                self.muts.append((o.origin, 'attribute ' + attr,
                    self.func_name(), self.where(node),
                    tuple(f[0].qualname for f in self.active), attr))
                self.attr_writes.append((o.origin, attr, self.func_name(),
                    self.where(node), v))

    attr_writes = []

    def overwritten(self, node, state):
        """Lists of which the loop replaces every item."""
        if not (isinstance(node.iter, ast.Call) and isinstance(node.iter.func,
                ast.Name) and node.iter.func.id in ('range', 'enumerate')
                and len(node.iter.args) == 1):
            return
        target = node.target
        if node.iter.func.id == 'enumerate' \
                and isinstance(target, (ast.Tuple, ast.List)):
            target = target.elts[0]
        if not isinstance(target, ast.Name):
            return
        for stmt in node.body:
            if isinstance(stmt, (ast.Continue, ast.Break, ast.Return)):
                return
            if isinstance(stmt, (ast.If, ast.Try, ast.With)) and any(
                    isinstance(x, (ast.Continue, ast.Break, ast.Return))
                    for x in ast.walk(stmt)):
                return
            if isinstance(stmt, ast.Assign) and len(stmt.targets) == 1 \
                    and isinstance(stmt.targets[0], ast.Subscript) \
                    and isinstance(stmt.targets[0].slice, ast.Name) \
                    and stmt.targets[0].slice.id == target.id \
                    and id(stmt) in self.last_store:
                refs, v = self.last_store[id(stmt)]
                for r in refs:
                    o = state.heap.get(r)
                    if o is not None and o.kind == 'list' \
                            and o.items is None:
                        state.heap[r] = o.but(elem=v)

    def store_sub(self, base, index, iv, v, state, node, aug=False):
        if isinstance(node, ast.Assign):
            self.last_store[id(node)] = (base.refs, v)
        self.check_use_value(state, v, node)
        t = self.deep_taint(state, v) | self.deep_taint(state, iv) | base.taint
        if base.tag is not None and base.tag[0] == 'perrank':
            pass
        for r, o in list(self.objs(state, base)):
            if o.kind in ('list', 'dict', 'tuple', 'set'):
                self.write_obj(state, r, node, self.deep_taint(state, iv)
                    | base.taint, 'item')
                o = state.heap[r]
                if o.kind == 'dict' and iv.const is not NC:
                    fields = dict(o.fields)
                    try:
                        fields['k', iv.const] = v
                        state.heap[r] = o.but(fields=fields)
                        continue
                    except TypeError:
                        pass
                if o.items is not None and isinstance(iv.const, int) \
                        and -len(o.items) <= iv.const < len(o.items):
                    items = list(o.items)
                    items[iv.const] = v
                    state.heap[r] = o.but(items=tuple(items))
                else:
                    elem = o.elem
                    for x in o.items or ():
                        elem = join_opt(elem, x)
                    state.heap[r] = o.but(items=None,
                        elem=join_opt(elem, v))
            else:
                # full overwrite outside guards clears earlier taint
                full = isinstance(index, ast.Constant) \
                    and index.value is Ellipsis or isinstance(index, ast.Slice) \
                    and index.lower is index.upper is index.step is None
                if full and not aug and not state.gtaint() \
                        and o.shared is None and len(base.refs) == 1 \
                        and base.tag is None:
                    state.heap[r] = o = o.but(taint=EMPTY)
                self.write_obj(state, r, node, t, 'item')

    def check_use_value(self, state, v, node):
        self.check_use(state, v, node)

    def exec_Delete(self, node, state):
        for t in node.targets:
            if isinstance(t, ast.Name):
                state.env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                base = self.eval(t.value, state)
                self.eval(t.slice, state)
                self.mutate(state, base, node, what='deletion')
            elif isinstance(t, ast.Attribute):
                base = self.eval(t.value, state)
        return self.after(state)

    def exec_Return(self, node, state):
        v = NONE
        if node.value is not None:
            v = self.eval(node.value, state)
        if state.dead:
            return self.after(state)
        return [('return', state, v)]

    def exec_Raise(self, node, state):
        if node.exc is not None:
            self.eval(node.exc, state)
        return [('raise', state, None)]

    def exec_Assert(self, node, state):
        self.eval(node.test, state)
        return self.after(state)

    def exec_Break(self, node, state):
        return [('break', state, None)]

    def exec_Continue(self, node, state):
        return [('continue', state, None)]

    def test_taint(self, test, state):
        """Taint of a branch condition."""
        if test.refs and not test.scalar:
            # truthiness of containers/arrays
            return self.deep_taint(state, test)
        return test.taint

    def exec_If(self, node, state):
        test = self.eval(node.test, state)
        if state.dead:
            return self.after(state)
        self.check_use(state, test, node.test)
        tr = self.truth(test, state)
        if tr is True:
            return self.exec_block(node.body, state)
        if tr is False:
            return self.exec_block(node.orelse, state)
        T = self.test_taint(test, state)
        h0 = dict(state.heap) if T else None
        s1 = state
        s2 = state.fork()
        self.refine(node.test, True, s1)
        self.refine(node.test, False, s2)
        for x in self.pred_of(test)[0]:
            if x.startswith('one:'):
                self.single_node(x[4:], s1)
        for x in self.pred_of(test)[1]:
            if x.startswith('one:'):
                self.single_node(x[4:], s2)
        if not T:
            o1 = self.exec_block(node.body, s1)
            o2 = self.exec_block(node.orelse, s2)
            return o1 + o2
        pt, pf = self.pred_of(test)
        guards = state.guards
        base = state.trace
        s1.guards = guards + (Guard(T, pt, node),)
        s2.guards = guards + (Guard(T, pf, node),)
        s1.trace = s2.trace = ()
        self.div_counter += 1
        did = self.div_counter
        # inner divergence bookkeeping: positions refer to full traces, hence
        # keep full traces
        s1.trace = s2.trace = base
        o1 = self.exec_block(node.body, s1)
        o2 = self.exec_block(node.orelse, s2)
        n1 = [o for o in o1 if o[0] != 'raise']
        n2 = [o for o in o2 if o[0] != 'raise']
        if len(n1) == 1 and len(n2) == 1 and n1[0][0] == n2[0][0] == 'fall' \
                and n1[0][1].divs == n2[0][1].divs:
            a, b = n1[0][1], n2[0][1]
            raised = []
            for br, os in ((0, o1), (1, o2)):
                for k, s, v in os:
                    if k == 'raise':
                        s.divs = s.divs + ((did, br, T, node, len(base)),)
                        raised.append((k, s, v))
            t1, t2 = a.trace[len(base):], b.trace[len(base):]
            self.compare_traces(t1, t2, T, node, 'branch')
            heaps = (a.heap, b.heap)
            env = self.join_envs(a.env, b.env, T, None, heaps)
            heap = self.join_heaps(a.heap, b.heap, T, h0)
            tr = base
            if t1 or t2:
                tr = base + (('div', T, t1, t2),)
            s = State(env, heap, tr, guards, a.divs)
            return [('fall', s, None)] + raised
        out = []
        for br, os in ((0, o1), (1, o2)):
            for k, s, v in os:
                s.divs = s.divs + ((did, br, T, node, len(base)),)
                out.append((k, s, v))
        return out

    def single_node(self, images, state):
        """There is only one node: its memory cannot differ from others."""
        for r, o in list(state.heap.items()):
            if o.shared is not None and o.shared[1].name == images:
                state.heap[r] = o.but(shared=(o.shared[0], ONE),
                    taint=o.taint - {'rank:' + images})

    def refine(self, test, positive, state):
        """Use `x is None` style tests on plain names."""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.refine(test.operand, not positive, state)
        if isinstance(test, ast.BoolOp):
            if isinstance(test.op, ast.And) and positive \
                    or isinstance(test.op, ast.Or) and not positive:
                for x in test.values:
                    self.refine(x, positive, state)
            return
        if isinstance(test, ast.Name):
            v = state.env.vars.get(test.id)
            if v is not None and v.none and v.const is NC and positive:
                state.env.vars[test.id] = v.but(none=False)
            return
        if isinstance(test, ast.Compare) and len(test.ops) == 1 \
                and isinstance(test.left, ast.Name) \
                and isinstance(test.comparators[0], ast.Constant) \
                and test.comparators[0].value is None:
            isnone = isinstance(test.ops[0], ast.Is) == positive
            if not isinstance(test.ops[0], (ast.Is, ast.IsNot)):
                return
            v = state.env.vars.get(test.left.id)
            if v is None:
                return
            if isnone:
                state.env.vars[test.left.id] = const(None, v.taint)
            elif v.none and v.const is NC:
                state.env.vars[test.left.id] = v.but(none=False)

    def exec_For(self, node, state):
        it = self.eval(node.iter, state)
        if state.dead:
            return self.after(state)
        self.check_use(state, it, node)
        T = self.iter_taint(state, it)

        def bind(s):
            x = self.element_of_iter(it, node.iter, s, node.iter)
            self.assign(node.target, x, s, node)

        outs = self.loop(node, state, T, bind, once=False)
        if not T:
            for k, x, v in outs:
                if k == 'fall':
                    self.overwritten(node, x)
        return outs

    exec_AsyncFor = exec_For

    def exec_While(self, node, state):
        test = self.eval(node.test, state)
        if state.dead:
            return self.after(state)
        tr = self.truth(test, state)
        if tr is False:
            return self.exec_block(node.orelse, state)
        T = self.test_taint(test, state)

        def bind(s):
            self.eval(node.test, s)

        return self.loop(node, state, T, bind, once=tr is True, test=node.test)

    def loop(self, node, state, T, bind, once, test=None):
        guards = state.guards
        base = state.trace
        head = state.fork()
        head.trace = base
        outcomes = []
        exits = []
        body_trace = ()
        n = 3
        prev = None
        for i in range(n):
            s = head.fork()
            s.trace = base
            logs = len(self.log)
            bind(s)
            if test is not None and i > 0:
                tv = self.eval(test, s)
                T = T | self.test_taint(tv, s)
            s.trace = base
            if T:
                s.guards = guards + (Guard(T, EMPTY, node),)
            os = self.exec_block(node.body, s)
            falls = [(k, x, v) for k, x, v in os if k in ('fall', 'continue')]
            breaks = [(k, x, v) for k, x, v in os if k == 'break']
            others = [(k, x, v) for k, x, v in os
                if k not in ('fall', 'continue', 'break')]
            # divergence inside the body
            inner = [o for o in os]
            self.check_loop_divs(os, node, len(base))
            cur = None
            for k, x, v in falls + breaks:
                x2 = State(x.env, x.heap, x.trace, guards, state.divs)
                x2_div = x.divs
                if cur is None:
                    cur, cur_divs = x2, x2_div
                else:
                    D = diverging(cur_divs, x2_div)
                    heaps = (cur.heap, x2.heap)
                    env = self.join_envs(cur.env, x2.env, D, None, heaps)
                    heap = self.join_heaps(cur.heap, x2.heap, D)
                    cur = State(env, heap, join_traces(cur.trace, x2.trace),
                        guards, state.divs)
                    cur_divs = common_prefix(cur_divs, x2_div)
            outcomes = []
            for k, x, v in others:
                x.guards = x.guards if k != 'raise' else guards
                outcomes.append((k, x, v))
            if cur is None:
                break
            body_trace = cur.trace[len(base):]
            nxt = self.join_states(head, State(cur.env, cur.heap, base,
                guards, state.divs))
            if T:
                # loop-carried values depend on the number of iterations
                nxt_env = self.join_envs(head.env, cur.env, T, None,
                    (head.heap, cur.heap))
                # only names assigned in the loop body
                nxt = State(nxt_env, nxt.heap, base, guards, state.divs)
            if prev is not None and same_state(nxt, head):
                head = nxt
                break
            prev = head
            head = nxt
        self.check_turns(node, body_trace)
        T2 = T
        if T2:
            self.check_no_events(body_trace, T2, node, 'loop')
        tr = base
        if body_trace:
            tr = base + (('loop', body_trace),)
        if once and not breaks and (cur is None or self.truth(self.eval(
                test, head.fork()), head) is True):
            # endless loop left only by return/raise
            return outcomes
        if body_trace and cur is not None and not T2:
            # a communicating loop is taken to run at least once
            for r, o in cur.heap.items():
                p = head.heap.get(r)
                if p is not None and p is not o and (o.taint < p.taint
                        or o.pend < p.pend):
                    head.heap[r] = p.but(taint=o.taint if o.taint < p.taint
                        else p.taint, pend=o.pend if o.pend < p.pend
                        else p.pend)
        final = State(head.env, head.heap, tr, guards, state.divs)
        result = list(outcomes)
        if getattr(node, 'orelse', None):
            result.extend(self.exec_block(node.orelse, final))
        else:
            result.append(('fall', final, None))
        return result

    def check_loop_divs(self, os, node, offset):
        ids = {}
        for k, st, v in os:
            for d in st.divs:
                ids.setdefault(d[0], d)
        for did, d in ids.items():
            T, test = d[2], d[3]
            comms = lambda c: self.straddles(c, T)
            sets = {0: set(), 1: set()}
            kinds = {0: set(), 1: set()}
            mine = False
            for k, st, v in os:
                if k in ('return', 'raise'):
                    continue
                for x in st.divs:
                    if x[0] == did and x[4] >= offset:
                        mine = True
                        t = filter_trace(st.trace[x[4]:], comms)
                        sets[x[1]].add(t)
                        kinds[x[1]].add(k == 'break')
            if not mine:
                continue
            self.div_checks += 1
            if sets[0] and sets[1] and not traces_match(sets[0], sets[1]):
                self.report('collective-mismatch', test, 'loop exit',
                    'processes taking different branches of this '
                    'process-dependent condition issue different collective '
                    'operations in the rest of the loop body: [%s] versus '
                    '[%s]' % (' || '.join(sorted(map(show_trace, sets[0]))),
                    ' || '.join(sorted(map(show_trace, sets[1])))))
            if kinds[0] != kinds[1] and (True in kinds[0] or True in kinds[1]):
                for k, st, v in os:
                    t = filter_trace(st.trace[offset:], comms)
                    if t:
                        self.report('collective-mismatch', test,
                            'process-dependent break',
                            'processes leave the loop at different '
                            'iterations although its body contains '
                            'collective operations: ' + show_trace(t))
                        break

    def exec_With(self, node, state):
        for item in node.items:
            v = self.eval(item.context_expr, state)
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v, state, node)
        if state.dead:
            return self.after(state)
        return self.exec_block(node.body, state)

    exec_AsyncWith = exec_With

    def exec_Try(self, node, state):
        before = state.fork()
        os = self.exec_block(node.body, state)
        out = []
        raised = []
        ok = []
        for k, s, v in os:
            if k == 'raise':
                raised.append(s)
            elif k == 'fall':
                ok.append(s)
            else:
                out.append((k, s, v))
        handlers = []
        if node.handlers:
            start = before
            for s in ok + raised:
                if s.divs == start.divs and s.guards == start.guards:
                    j = self.join_states(start, s)
                    j.trace = before.trace
                    start = j
            for h in node.handlers:
                s = start.fork()
                if h.name:
                    s.env.vars[h.name] = V()
                handlers.extend(self.exec_block(h.body, s))
        else:
            out.extend(('raise', s, None) for s in raised)
        if node.orelse:
            for s in ok:
                out.extend(self.exec_block(node.orelse, s))
        else:
            out.extend(('fall', s, None) for s in ok)
        out.extend(handlers)
        if node.finalbody:
            final = []
            for k, s, v in out:
                for k2, s2, v2 in self.exec_block(node.finalbody, s):
                    if k2 == 'fall':
                        final.append((k, s2, v))
                    else:
                        final.append((k2, s2, v2))
            out = final
        return out

    exec_TryStar = exec_Try

    def exec_Match(self, node, state):
        subject = self.eval(node.subject, state)
        T = self.deep_taint(state, subject)
        out = []
        for case in node.cases:
            s = state.fork()
            if T:
                s.guards = s.guards + (Guard(T, EMPTY, node),)
            out.extend(self.exec_block(case.body, s))
        out.append(('fall', state, None))
        return out

def has_closures(node, cache={}):
    k = id(node)
    if k not in cache:
        cache[k] = node, any(isinstance(x, (ast.FunctionDef, ast.Lambda))
            for x in ast.walk(node) if x is not node)
    return cache[k][1]

def norm_text(node):
    return re.sub(r'\s+', '', ast.unparse(node))[:80]

class ModuleFunc:
    """Pseudo function for module-level code."""
    def __init__(self, module):
        self.module = module
        self.qualname = module.short
        self.node = module.tree

class Star:
    def __init__(self, v):
        self.v = v

# --- helpers ------------------------------------------------------------------

KNOWN_METHODS = {'reshape', 'transpose', 'ravel', 'squeeze', 'swapaxes',
    'view', 'copy', 'astype', 'sum', 'prod', 'min', 'max', 'mean', 'std',
    'dot', 'conj', 'conjugate', 'round', 'flatten', 'tolist', 'any', 'all',
    'argsort', 'argmin', 'argmax', 'cumsum', 'repeat', 'take', 'trace',
    'nonzero', 'fill', 'sort', 'tofile', 'append', 'extend', 'insert', 'pop',
    'remove', 'reverse', 'clear', 'update', 'items', 'keys', 'values', 'get',
    'setdefault', 'add', 'discard', 'split', 'strip', 'join', 'format',
    'lower', 'upper', 'startswith', 'endswith', 'replace', 'index', 'count',
    'read', 'readline', 'readlines', 'write', 'close', 'seek', 'union',
    'todense', 'toarray', 'tocsr', 'tocsc', 'diagonal', 'item', 'tobytes',
    'searchsorted', 'clip', 'ptp', 'var', 'rstrip', 'lstrip', 'find',
    'group', 'groups', 'center', 'title', 'isdigit', 'partition', 'popitem'}

def state_none(v):
    return EMPTY

def is_array_class(cls):
    for b in cls.node.bases:
        if isinstance(b, ast.Attribute) and b.attr == 'ndarray' \
                or isinstance(b, ast.Name) and b.id == 'ndarray':
            return True
    return False

def is_generator(node):
    if isinstance(node, ast.Lambda):
        return False
    stack = list(node.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False

def is_star(x):
    return isinstance(x, tuple)

def star_prod(x):
    return Poly.atom('prod', *x[1:])

def seq_prod(seq):
    p = Poly.const(1)
    for x in seq:
        if x is None:
            return None
        p = p * (star_prod(x) if is_star(x) else x)
    return p

def seq_index(seq, index, ev):
    """Index or slice a sequence of extents; Poly, tuple or None."""
    def num(n, default):
        if n is None:
            return default
        v = ev(n)
        if isinstance(v.const, int) and not isinstance(v.const, bool):
            return v.const
        return v.sym

    if isinstance(index, ast.Slice):
        if index.step is not None:
            return None
        lo, hi = num(index.lower, 0), num(index.upper, None)
        if not any(is_star(x) for x in seq):
            if isinstance(lo, int) and (hi is None or isinstance(hi, int)):
                return tuple(seq[lo:hi])
            return None
        if len(seq) == 1 and seq[0][3] == 0 and seq[0][4] is None:
            if lo is None and index.lower is not None:
                return None
            if hi is None and index.upper is not None:
                return None
            return (('*', seq[0][1], seq[0][2], lo, hi),)
        return None
    v = ev(index)
    if isinstance(v.const, int) and not isinstance(v.const, bool):
        i = v.const
        if not any(is_star(x) for x in seq):
            if -len(seq) <= i < len(seq):
                return seq[i]
            return None
        if i >= 0 and not any(is_star(x) for x in seq[:i + 1]):
            return seq[i]
        if i < 0 and not any(is_star(x) for x in seq[i:]):
            return seq[i]
        if len(seq) == 1 and seq[0][3] == 0 and seq[0][4] is None:
            return Poly.atom('dim', seq[0][1], seq[0][2], i)
        return None
    return None

def sym_op(op, a, b):
    if isinstance(op, ast.Add):
        return a + b
    if isinstance(op, ast.Sub):
        return a - b
    if isinstance(op, ast.Mult):
        return a * b
    if isinstance(op, ast.Pow):
        if b.is_const() and b.value().denominator == 1 \
                and 0 <= b.value() <= 6:
            return a ** int(b.value())
        return Poly.atom('pow', a, b)
    if isinstance(op, ast.FloorDiv):
        if b.is_const() and a.is_const() and b.value():
            return Poly.const(a.value() // b.value())
        return Poly.atom('floordiv', a, b)
    if isinstance(op, ast.Mod):
        if b.is_const() and a.is_const() and b.value():
            return Poly.const(a.value() % b.value())
        return Poly.atom('mod', a, b)
    return None

def const_op(op, a, b):
    try:
        if isinstance(op, ast.Add):
            return a + b
        if isinstance(op, ast.Sub):
            return a - b
        if isinstance(op, ast.Mult):
            if isinstance(a, (str, list, tuple)) \
                    or isinstance(b, (str, list, tuple)):
                return NC
            return a * b
        if isinstance(op, ast.FloorDiv):
            return a // b
        if isinstance(op, ast.Mod) and not isinstance(a, str):
            return a % b
    except Exception:
        pass
    return NC

def compare_const(op, a, b):
    try:
        if isinstance(op, ast.Eq):
            return a == b
        if isinstance(op, ast.NotEq):
            return a != b
        if isinstance(op, ast.Lt):
            return a < b
        if isinstance(op, ast.LtE):
            return a <= b
        if isinstance(op, ast.Gt):
            return a > b
        if isinstance(op, ast.GtE):
            return a >= b
        if isinstance(op, ast.In):
            return a in b
        if isinstance(op, ast.NotIn):
            return a not in b
    except Exception:
        pass
    return NC

def const_of(node, default, interp, state):
    if node is None:
        return default
    v = interp.eval(node, state)
    return v.const if isinstance(v.const, int) else None

def scalar_index(index, iv):
    parts = index.elts if isinstance(index, ast.Tuple) else [index]
    for p in parts:
        if isinstance(p, ast.Slice):
            return False
        if isinstance(p, ast.Constant) and p.value in (Ellipsis, None):
            return False
        if isinstance(p, ast.Attribute) and p.attr == 'newaxis':
            return False
        if isinstance(p, ast.Starred):
            return False
    return iv.scalar or iv.const is not NC or iv.sym is not None \
        or isinstance(index, ast.Tuple)

def is_basic_view(index):
    parts = index.elts if isinstance(index, ast.Tuple) else [index]
    for p in parts:
        if isinstance(p, (ast.Slice,)):
            return True
        if isinstance(p, ast.Constant) and p.value in (Ellipsis, None):
            return True
        if isinstance(p, ast.Attribute) and p.attr == 'newaxis':
            return True
    return False

def fancy_index(index, iv):
    return bool(iv.refs) and not iv.scalar

def drop_dims(shape, index):
    if shape is None:
        return None
    n = len(index.elts) if isinstance(index, ast.Tuple) else 1
    if any(is_star(x) for x in shape[:n]):
        return None
    rest = shape[n:]
    return rest if rest else None

def diverging(d1, d2):
    """Taint of the first process-dependent branch separating two paths."""
    m1 = {d[0]: d for d in d1}
    for d in d2:
        if d[0] in m1 and m1[d[0]][1] != d[1]:
            return d[2]
    # one path has a divergence the other has not: uniform alternative
    return EMPTY

def common_prefix(a, b):
    s = {(d[0], d[1]) for d in b}
    return tuple(d for d in a if (d[0], d[1]) in s)

def expand(trace):
    """Set of alternative event sequences (bounded)."""
    outs = {()}
    for item in trace:
        if item[0] == 'alt' and len(outs) * len(item[1]) <= 64:
            new = set()
            for o in outs:
                for t in item[1]:
                    for e in expand(t):
                        new.add(o + e)
            outs = new
        else:
            outs = {o + (item,) for o in outs}
    return outs

def traces_match(a, b):
    if a == b:
        return True
    ea = set()
    for t in a:
        ea |= expand(t)
    eb = set()
    for t in b:
        eb |= expand(t)
    return ea == eb

def same_state(a, b):
    if a.env.vars.keys() != b.env.vars.keys():
        return False
    for k, v in a.env.vars.items():
        if v != b.env.vars[k]:
            return False
    if a.heap.keys() != b.heap.keys():
        return False
    for k, o in a.heap.items():
        p = b.heap[k]
        if o is not p and not (o.taint == p.taint and o.pend == p.pend
                and o.fields == p.fields):
            return False
    return True
