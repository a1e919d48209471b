"""Message counts and extents of gather/scatter operations."""

from .poly import Poly
from .interp import is_star, seq_prod, SELF, Desc

def relation(a, b):
    """'equal', 'different' or 'unknown' for two extents."""
    if a is None or b is None:
        return 'unknown'
    if a == b:
        return 'equal'
    d = a - b
    if d.is_const():
        return 'different'
    if len(a.terms) == 1 and len(b.terms) == 1:
        q = a * b.inverse()
        (m, c), = q.terms.items()
        if all(e > 0 for _, e in m) or all(e < 0 for _, e in m):
            return 'different'  # one is a proper multiple of the other
    if a.atoms() == b.atoms():
        return 'different'
    return 'unknown'

FREE = {'param', 'val', 'dim', 'rest', 'item_of', 'bcast', 'int', 'field'}

def mixed_up(a, b):
    """Do two products of extents differ in one independent extent?

    The extents might coincide in special cases, but the routine does not make
    sure that they do.
    """
    if a is None or b is None or len(a.terms) != 1 or len(b.terms) != 1:
        return False
    q = a * b.inverse()
    (m, c), = q.terms.items()
    return c == 1 and len(m) == 2 and sorted(e for _, e in m) == [-1, 1] \
        and all(isinstance(x, tuple) and x[0] in FREE for x, _ in m)

def surplus(have, want, unit):
    """Product of the extents missing from a message count."""
    if have is None or want is None or unit is None or len(have.terms) != 1 \
            or len(want.terms) != 1 or len(unit.terms) != 1:
        return None
    q = have * (want * unit).inverse()
    (m, c), = q.terms.items()
    return q if c == 1 and m and all(e > 0 for _, e in m) else None

def prod_of(v):
    if v.shape is not None:
        return seq_prod(v.shape)
    return None

def expected(I, counts):
    """Total number of items and number sent by this process."""
    kind, did, factor = counts.tag
    d = I.dists.get(did)
    if d is None:
        return None, None, None
    total = d['total'] * factor if d['total'] is not None else None
    mine = Poly.atom('S', did) * factor
    return d, total, mine

def gathered(I, comm, big, small, counts, fail, rec, unit):
    """Counts collected from the processes themselves."""
    _, c, base, factor = counts.tag
    mine = base * factor
    if c != comm:
        fail('communicator', 'the message counts have been collected over '
            'communicator %s but the data are collected over %s'
            % (c.name, comm.name))
    have = prod_of(small)
    if have is None and small.refs:
        have = seq_prod((('*', 'shape', I.refkey(small), 0, None),))
    if unit is None or have is None:
        rec['status'].append('local undecided')
        return
    r = relation(mine * unit, have)
    if r == 'different' and any(is_star(x) for x in small.shape or ()):
        r = 'unknown' if mine.atoms() != have.atoms() else r
    if r == 'different':
        fail('local', 'the message counts (%s) do not match the extents of '
            'the local buffer (%s)' % (mine * unit, have))
    elif r == 'equal':
        rec['status'].append('local equal (counts collected)')
    else:
        rec['status'].append('local undecided: %s ~ %s' % (mine, have))
    have = prod_of(big)
    if have is not None and any(isinstance(a, tuple) and a[0] == 'gsum'
            for a in have.atoms()):
        want = Poly.atom('gsum', c.name, base) * factor * unit
        r = relation(want, have)
        if r == 'different':
            fail('total', 'the collected parts (%s) do not fill the global '
                'buffer (%s)' % (want, have))
        rec['status'].append('total ' + ('equal (counts collected)'
            if r == 'equal' else 'undecided'))
        return
    # total: known if the local part is the leading extent
    for a in mine.atoms():
        if isinstance(a, tuple) and a[0] == 'S':
            factor = mine * Poly.atom(*a).inverse()
            d = I.dists.get(a[1])
            if a in factor.atoms() or d is None or d['total'] is None:
                continue
            want = d['total'] * factor * unit
            have = prod_of(big)
            if have is None:
                rec['status'].append('total undecided')
                continue
            r = relation(want, have)
            if r == 'different' and any(is_star(x) for x in big.shape or ()) \
                    and want.atoms() != have.atoms():
                r = 'unknown'
            if r == 'different':
                fail('total', 'the collected parts (%s) do not fill the '
                    'global buffer (%s)' % (want, have))
            rec['status'].append('total ' + ('equal (counts collected)'
                if r == 'equal' else 'undecided'))

def check(I, comm, op, sb, sc, rb, rc, node, state, unit=None):
    rec = dict(op=op, func=I.func_name(), where=I.where(node), comm=comm.name,
        status=[])
    I.gathers.append(rec)

    if op in ('Gatherv', 'Allgatherv'):
        big, small, counts = rb, sb, rc
    elif op == 'Scatterv':
        big, small, counts = sb, rb, sc
    else:
        return

    def fail(construct, message):
        rec['status'].append('violated ' + construct)
        I.report('gather-count', node, '%s:%s' % (op, construct), message)

    if counts is not None and counts.tag is not None \
            and counts.tag[0] == 'gathered' and op != 'Scatterv':
        gathered(I, comm, big, small, counts, fail, rec, unit)
    elif counts is None or counts.tag is None or counts.tag[0] != 'sizes':
        rec['status'].append('counts not from distribute')
        if counts is None:
            return
    if counts.tag is not None and counts.tag[0] == 'sizes' and comm != SELF:
        d, total, mine = expected(I, counts)
        if d is None:
            return
        if d['comm'] != comm:
            fail('communicator', 'the message counts come from a distribution '
                'over communicator %s but the data are collected over %s'
                % (d['comm'].name, comm.name))
        if unit == Poly.const(1) and mixed_up(total, prod_of(big)) \
                and mixed_up(mine, prod_of(small)):
            fail('extent', 'the message counts (%s) involve another extent '
                'than both buffers (%s)' % (mine, prod_of(small)))
            return
        extra = [surplus(prod_of(big), total, unit), surplus(prod_of(small),
            mine, unit)]
        if extra[0] is not None and extra[0] == extra[1]:
            fail('extent', 'the message counts (%s) lack an extent of both '
                'buffers (%s)' % (mine, extra[0]))
            return
        for what, want, have in (('total', total, prod_of(big)),
                ('local', mine, prod_of(small))):
            if want is not None and unit is not None:
                want = want * unit
            if have is None or want is None or unit is None:
                rec['status'].append(what + ' undecided')
                continue
            r = relation(want, have)
            if r == 'different' and any(is_star(x) for x in
                    (big if what == 'total' else small).shape or ()):
                r = 'unknown' if want.atoms() != have.atoms() else r
            if r == 'equal':
                rec['status'].append(what + ' equal')
            elif r == 'different':
                fail(what, 'the message counts (%s) do not match the extents '
                    'of the %s buffer (%s)' % (want, 'global' if what ==
                    'total' else 'local', have))
            else:
                rec['status'].append(what + ' undecided: %s ~ %s'
                    % (want, have))

    if sb.dtype is not None and rb.dtype is not None:
        if sb.dtype != rb.dtype and 'const' in (sb.dtype[0], rb.dtype[0]):
            fail('dtype', 'send and receive buffer differ in data type '
                '(%s, %s)' % tuple(x[1] if x[0] == 'const' else 'unknown'
                for x in (sb.dtype, rb.dtype)))
        else:
            rec['status'].append('dtype equal')
