"""Contracts of the routines that create partitions and communicators.

The rest of the analysis relies on these contracts; here the bodies of the
routines are compared with them. Forms that are not recognised are reported as
undecided (never as violations).
"""

import ast

from .poly import Poly
from .project import Project

def finding(rule, func, construct, message):
    return dict(rule=rule, func=func, construct=construct, message=message)

def local_defs(node):
    """Names assigned exactly once, with their defining expression."""
    defs, count = {}, {}
    for n in ast.walk(node):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                for x in ast.walk(t):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        count[x.id] = count.get(x.id, 0) + 1
                if isinstance(t, ast.Name):
                    defs[t.id] = n.value
                elif isinstance(t, (ast.Tuple, ast.List)) and isinstance(
                        n.value, (ast.Tuple, ast.List)) \
                        and len(t.elts) == len(n.value.elts):
                    for x, v in zip(t.elts, n.value.elts):
                        if isinstance(x, ast.Name):
                            defs[x.id] = v
                elif isinstance(t, (ast.Tuple, ast.List)) \
                        and isinstance(n.value, ast.Call) \
                        and getattr(n.value.func, 'id', '') == 'divmod':
                    for x, op in zip(t.elts, (ast.FloorDiv(), ast.Mod())):
                        if isinstance(x, ast.Name):
                            defs[x.id] = ast.BinOp(n.value.args[0], op,
                                n.value.args[1])
        elif isinstance(n, (ast.AugAssign, ast.For, ast.NamedExpr)):
            for x in ast.walk(n.target):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    count[x.id] = count.get(x.id, 0) + 2
    return {k: v for k, v in defs.items() if count.get(k) == 1}

def expand(e, defs, depth=6):
    if depth and isinstance(e, ast.Name) and e.id in defs:
        return expand(defs[e.id], defs, depth - 1)
    return e

def text(e, defs):
    class T(ast.NodeTransformer):
        def visit_Name(self, n):
            if n.id in defs:
                x = expand(n, defs)
                return x if x is n else self.visit(x)
            return n
    import copy
    return ast.unparse(T().visit(copy.deepcopy(e)))

def sym(e, defs):
    """Linear expression as polynomial over source text."""
    e = expand(e, defs)
    if isinstance(e, ast.Constant) and isinstance(e.value, int):
        return Poly.const(int(e.value))
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub,
            ast.Mult)):
        a, b = sym(e.left, defs), sym(e.right, defs)
        return a + b if isinstance(e.op, ast.Add) else a - b \
            if isinstance(e.op, ast.Sub) else a * b
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
        return Poly.const(0) - sym(e.operand, defs)
    return Poly.atom('t', text(e, defs))

def function(project, name):
    for f in project.all_functions():
        if f.qualname == name:
            return f
    return None

def check(root):
    project = Project(root)
    out, info = [], {}
    distribute(function(project, 'MPI.distribute'), out, info)
    grid(function(project, 'MPI.matrix'), out, info)
    return out, info

def distribute(f, out, info):
    if f is None:
        info['sizes'] = info['bounds'] = 'routine not found'
        return
    q = f.qualname
    defs = local_defs(f.node)
    ps = f.args.args
    total = ps[0].arg if ps else None
    base, rest = [], []
    for n in ast.walk(f.node):
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.FloorDiv):
            base.append(n)
        elif isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod):
            rest.append(n)
        elif isinstance(n, ast.Call) and getattr(n.func, 'id', '') == 'divmod' \
                and len(n.args) == 2:
            base.append(ast.copy_location(ast.BinOp(n.args[0], ast.FloorDiv(),
                n.args[1]), n))
            rest.append(ast.copy_location(ast.BinOp(n.args[0], ast.Mod(),
                n.args[1]), n))
    info['sizes'] = 'form not recognised'
    # number of parts: argument that falls back to the number of processes
    if len(base) == 1 and len(rest) == 1 and total is not None:
        a, b = base[0], rest[0]
        ta, tb = text(a.left, defs), text(b.left, defs)
        ca, cb = text(a.right, defs), text(b.right, defs)
        if ta == tb == total:
            if ca != cb:
                out.append(finding('partition', q, 'parts', '%s: in %s: the '
                    'quotient is taken with %s but the remainder with %s parts'
                    % (f.module.where(a), q, ca, cb)))
            else:
                info['sizes'] = increments(f, defs, ta, ca, b, out, q)
        elif total in (ta, tb) and ta != tb and (names(a.left) | names(b.left)
                ) <= {total} | set(defs):
            out.append(finding('partition', q, 'total', '%s: in %s: quotient '
                'and remainder are taken of different totals (%s, %s)'
                % (f.module.where(a), q, ta, tb)))
    elif len(base) == 1 and not rest and text(base[0].left, defs) == total:
        up = any(isinstance(n, ast.Call) and 'minimum' in ast.unparse(n.func)
            or isinstance(n, ast.Call) and getattr(n.func, 'id', '') == 'min'
            for n in ast.walk(f.node))
        others = any(isinstance(n, ast.BinOp) and isinstance(n.op, ast.Sub)
            for n in ast.walk(f.node))
        if not up and not others:
            out.append(finding('partition', q, 'remainder', '%s: in %s: the '
                'remainder of the division is not distributed'
                % (f.module.where(base[0]), q)))
    bounds(f, defs, out, info, q)

def names(e):
    return {n.id for n in ast.walk(e) if isinstance(n, ast.Name)}

def increments(f, defs, total, parts, rest, out, q):
    """The first (total % parts) parts get one more item."""
    slices = []
    for n in ast.walk(f.node):
        if isinstance(n, ast.AugAssign) and isinstance(n.op, ast.Add) \
                and isinstance(n.target, ast.Subscript):
            slices.append(n)
    if len(slices) != 1:
        return 'form of remainder not recognised'
    n = slices[0]
    one = sym(n.value, defs)
    if one.is_const() and one.value() != 1:
        out.append(finding('partition', q, 'remainder', '%s: in %s: parts with '
            'an additional item get %s items more' % (f.module.where(n), q,
            one.value())))
        return 'violated'
    s = n.target.slice
    want = sym(rest, defs)
    if isinstance(s, ast.Slice) and s.step is None:
        lo = sym(s.lower, defs) if s.lower is not None else Poly.const(0)
        if s.upper is None:
            # the last (total % parts) parts
            return 'form of remainder not recognised'
        n_add = sym(s.upper, defs) - lo
        if not (n_add - want).is_const():
            return 'form of remainder not recognised'
        if n_add != want:
            out.append(finding('partition', q, 'remainder', '%s: in %s: %s '
                'parts get an additional item for a remainder of %s'
                % (f.module.where(n), q, ast.unparse(s), ast.unparse(rest))))
            return 'violated'
        return 'quotient plus one for the first (total modulo parts) parts'
    return 'form of remainder not recognised'

def bounds(f, defs, out, info, q):
    info['bounds'] = 'form not recognised'
    first = None
    for n in ast.walk(f.node):
        if isinstance(n, ast.Assign) and isinstance(n.targets[0],
                ast.Subscript) and isinstance(n.targets[0].value, ast.Name):
            t = n.targets[0]
            i = sym(t.slice, defs) if not isinstance(t.slice, ast.Slice) \
                else None
            if i is None:
                continue
            if i.is_const():
                if i.value() == 0 and isinstance(n.value, ast.Constant):
                    first = n
                    if n.value.value != 0:
                        out.append(finding('partition', q, 'bounds', '%s: in '
                            '%s: the first part does not begin with item 0'
                            % (f.module.where(n), q)))
                continue
            v = n.value
            if isinstance(v, ast.BinOp) and isinstance(v.op, ast.Add) \
                    and isinstance(v.left, ast.Subscript) \
                    and isinstance(v.right, ast.Subscript):
                x, y = v.left, v.right
                if ast.unparse(x.value) != t.value.id:
                    x, y = y, x
                if ast.unparse(x.value) != t.value.id:
                    continue
                ix, iy = sym(x.slice, defs), sym(y.slice, defs)
                if ix + Poly.const(1) == i and iy == ix:
                    info['bounds'] = 'running sum of the sizes'
                elif (ix - i).is_const() and (iy - i).is_const():
                    out.append(finding('partition', q, 'bounds', '%s: in %s: '
                        'bounds are not the running sum of the sizes (%s)'
                        % (f.module.where(n), q, ast.unparse(n))))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) \
                and n.func.attr in ('cumsum', 'accumulate'):
            info['bounds'] = 'running sum of the sizes'

def grid(f, out, info):
    """Columns of processes with equal remainder, rows with equal quotient."""
    info['grid'] = 'form not recognised'
    if f is None or not f.args.args:
        return
    q = f.qualname
    defs = local_defs(f.node)
    size = f.args.args[0].arg
    kinds = {}
    for n in ast.walk(f.node):
        if isinstance(n, ast.Return) and isinstance(n.value, ast.Tuple) \
                and len(n.value.elts) == 2:
            for k, e in enumerate(n.value.elts):
                e = expand(e, defs)
                if isinstance(e, ast.Call) and isinstance(e.func,
                        ast.Attribute) and e.func.attr == 'Split' and e.args:
                    color = expand(e.args[0], defs)
                    if isinstance(color, ast.BinOp) \
                            and 'rank' in text(color.left, defs) \
                            and text(color.right, defs) == size:
                        kinds[k] = type(color.op).__name__, n
    if len(kinds) == 2:
        (a, n), (b, _) = kinds[0], kinds[1]
        if (a, b) == ('Mod', 'FloorDiv'):
            info['grid'] = 'columns: rank % size, rows: rank // size'
        else:
            out.append(finding('partition', q, 'grid', '%s: in %s: processes '
                'of the same column must have the same remainder, those of '
                'the same row the same quotient (found %s, %s)'
                % (f.module.where(n), q, a, b)))

def shared(root):
    """Communicators and allocation of node-shared memory."""
    project = Project(root)
    out, info = [], {}
    f = function(project, 'MPI.shm_split')
    info['split'] = 'form not recognised'
    if f is not None:
        defs = local_defs(f.node)
        world = f.args.args[0].arg if f.args.args else 'comm'
        node = images = None
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                if n.func.attr == 'Split_type':
                    node = n
                elif n.func.attr == 'Split':
                    images = n
        if node is not None and images is not None and images.args:
            color = expand(images.args[0], defs)
            if isinstance(color, ast.Attribute) and color.attr in ('rank',
                    'size'):
                src = expand(color.value, defs)
                recv = text(images.func.value, defs)
                if src is not node or color.attr != 'rank':
                    out.append(finding('shared-comm', f.qualname, 'images',
                        '%s: in %s: processes must be grouped by their rank '
                        'on the node, not by %s' % (f.module.where(images),
                        f.qualname, ast.unparse(color))))
                elif recv != world:
                    out.append(finding('shared-comm', f.qualname, 'images',
                        '%s: in %s: the processes of the overarching '
                        'communicator must be grouped, not those of %s'
                        % (f.module.where(images), f.qualname, recv)))
                else:
                    info['split'] = 'images: processes of equal rank on node'
        for n in (node, images):
            for k in (n.keywords if n is not None else ()):
                if k.arg == 'key' and isinstance(expand(k.value, defs),
                        ast.UnaryOp):
                    out.append(finding('shared-comm', f.qualname, 'key',
                        '%s: in %s: ranks must be sorted as in the '
                        'overarching communicator' % (f.module.where(n),
                        f.qualname)))
        for n in ast.walk(f.node):
            if isinstance(n, ast.Return) and isinstance(n.value, ast.Tuple) \
                    and len(n.value.elts) == 2 and node is not None:
                a, b = (expand(e, defs) for e in n.value.elts)
                if a is images or b is node:
                    out.append(finding('shared-comm', f.qualname, 'return',
                        '%s: in %s: communicators are returned in wrong order'
                        % (f.module.where(n), f.qualname)))
    f = function(project, 'MPI.shared_array')
    info['allocation'] = 'form not recognised'
    if f is not None:
        defs = local_defs(f.node)
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) \
                    and n.func.attr == 'Shared_query' and n.args:
                k = sym(n.args[0], defs)
                if k.is_const() and k.value() != 0:
                    out.append(finding('shared-comm', f.qualname, 'query',
                        '%s: in %s: memory is allocated by rank 0 of the node '
                        'but queried from rank %s' % (f.module.where(n),
                        f.qualname, k.value())))
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) \
                    and n.func.attr == 'Allocate_shared':
                for k in n.keywords:
                    if k.arg == 'comm':
                        c = expand(k.value, defs)
                        if isinstance(c, ast.Name) and c.id in [a.arg for a in
                                f.args.args]:
                            out.append(finding('shared-comm', f.qualname,
                                'window', '%s: in %s: shared memory must be '
                                'allocated by the processes of one node, not '
                                'by %s' % (f.module.where(n), f.qualname,
                                c.id)))
                        else:
                            info['allocation'] = 'on the node communicator'
        for n in ast.walk(f.node):
            if isinstance(n, ast.If) and 'rank' in ast.unparse(n.test):
                t = n.test
                if isinstance(t, ast.Compare) and isinstance(t.ops[0], (ast.Eq,
                        ast.NotEq)):
                    a = assigned_zero(n.body)
                    b = assigned_zero(n.orelse)
                    for name in set(a) & set(b):
                        zero_else = b[name] and not a[name]
                        if isinstance(t.ops[0], ast.Eq) != zero_else \
                                and a[name] != b[name]:
                            out.append(finding('shared-comm', f.qualname,
                                'size', '%s: in %s: only the first process of '
                                'the node may allocate the memory'
                                % (f.module.where(n), f.qualname)))
    return out, info

def assigned_zero(block):
    r = {}
    for s in block:
        if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name):
            r[s.targets[0].id] = isinstance(s.value, ast.Constant) \
                and s.value.value == 0
    return r
