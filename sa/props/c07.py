"""Arguments that may be modified: the documented purpose of the routine."""

from .common import *
from ..spmd import API

# routine: arguments it exists to modify in place
PURPOSE = {
    'bravais.complete': {'data'},
    'el.k2r': {'el'},
    'elel.q2r': {'elel'},
    'elph.q2r': {'elph'},
    'elph.Model.divide_degeneracy': {'g'},
    'models.graphene.rotate': {'phi'}, # number
    'ph.asr': {'phid'},
    'ph.divide_by_mass': {'dyn'},
    'ph.q2r': {'ph'},
    'ph.sum_rule_correction': {'ph'},
    'ph.zasr': {'Z'},
    'plot.arrange': {'columns'}, # number
    'plot.colorbar': {'image'},
    }

# methods that exist to modify their object
MODIFY_SELF = set('''
MPI.Buffer.__init__ MPI.SharedArray.__array_finalize__ MPI.SharedArray.Bcast
el.Model.__init__ el.Model.clear el.Model.order_orbitals
el.Model.shift_orbitals el.Model.standardize el.Model.symmetrize
elel.Model.__init__ elel.Model.standardize elel.Model.symmetrize
elph.Model.__init__ elph.Model.asr elph.Model.clear elph.Model.sample_orig
elph.Model.standardize elph.Model.symmetrize elph.Model.update_short_range
md.Driver.__call__ md.Driver.__init__ md.Driver.center_mass
md.Driver.diagonalize md.Driver.find_Fermi_level md.Driver.free_energy
md.Driver.from_xyz md.Driver.hessian md.Driver.phonons md.Driver.plot
md.Driver.random_displacements md.Driver.save md.Driver.superconductivity
md.Driver.update_plot md.Driver.load misc.StatusBar.__init__
misc.StatusBar.update ph.Model.__init__ ph.Model.clear ph.Model.order_atoms
ph.Model.prepare_long_range ph.Model.sample_orig ph.Model.shift_atoms
ph.Model.standardize ph.Model.symmetrize ph.Model.update_short_range
'''.split())

# attributes that only cache results
CACHE = {'elph.Model': {'q', 'gq'}}

# attributes methods may set as their side effect
SIDE = {'md.Driver.phonons': {'d'}, 'md.Driver.superconductivity': {'d'},
    'md.Driver.hessian': {'d'}}

def run(root, tier):
    t = analyse(root, tier)
    findings = {}
    allowed = 0
    samples = []
    for (entry, origin, what, func), (where, stack, field) in sorted(
            t['muts'].items()):
        if entry not in API:
            continue  # unknown purpose; analysed through its callers
        name = origin.split('.')[0].replace('argument ', '')
        attr = field if '.' not in origin else origin.split('.')[1]
        cls = entry.rsplit('.', 1)[0]
        if name == 'self':
            if entry in MODIFY_SELF or attr in CACHE.get(cls, ()):
                allowed += 1
                continue
        elif name in PURPOSE.get(entry, ()):
            allowed += 1
            samples.append('%s modifies %s on purpose (%s)' % (entry, origin,
                where))
            continue
        if origin.endswith('.gq') or origin.endswith('.q') and what in (
                'attribute q',):
            allowed += 1
            continue
        findings.setdefault((entry, origin), dict(rule='argument-modified',
            func=entry, construct=origin, message='%s: %s modifies %s of the '
            'caller (%s in %s, via %s)' % (where, entry, origin, what, func,
            ' > '.join(stack))))
    return dict(findings=list(findings.values()), assumptions=ASSUMPTIONS,
        coverage=base_coverage(t, 'Alias and effect analysis: every in-place '
        'operation, item or attribute assignment, mutating method or receiving '
        'collective is traced to the objects it may modify, through views, '
        'attributes, containers and calls; modified objects must be created '
        'by the routine or be the ones it exists to modify.',
        modifications_of_callers_objects=len(t['muts']),
        on_purpose=allowed, samples=samples[:30]))
