ENGINE = ('Sound up to the stated assumptions and the models of library calls; '
    'unrecognised constructs are treated as harmless, so silence is not a '
    'proof. ')
CHECKS = {
'C01': ('interprocedural rank-dependence taint + comparison of collective traces',
    ENGINE + 'Every routine and calling context (flags, world and '
    'sub-communicator) is covered; trusts that branch conditions free of '
    'rank-dependent data evaluate equally on all processes.'),
'C02': ('interprocedural taint analysis of replication',
    ENGINE + 'Floating-point differences between processes and files that '
    'change during the run are out of scope.'),
'C03': ('effect analysis of file writers under process guards',
    ENGINE + 'External programs are taken to write the files named in their '
    'command lines only.'),
'C04': ('ownership/typestate analysis of shared memory',
    ENGINE + 'Exclusive write and barrier-before-use are checked per array, '
    'not per element.'),
'C05': ('symbolic-extent comparison of message counts, buffers and indices',
    ENGINE + 'Counts that cannot be expressed as polynomials of the extents '
    'are listed as undecided in the evidence.'),
'C07': ('alias and effect analysis of arguments',
    ENGINE + 'The table of routines whose documented purpose is to modify an '
    'argument is part of the specification.'),
'C06': ('abstract evaluation of the serial stand-ins per call form',
    ENGINE + 'Every operation is looked up with the form of the arguments of '
    'each call; stand-ins whose body cannot be evaluated abstractly count as '
    'undecided.'),
'C08': ('attribute-completeness analysis along all paths; index-role analysis '
    'of block assignments',
    'Arguments of the constructor and attributes other routines read form the '
    'list to be carried over; blocks, per-atom data, shifts, and reorderings '
    'are judged where their form is recognized.'),
'C09': ('dependency tracking along all paths (typestate of caches)',
    'What caches and tables depend on is read off the evaluating and '
    'preparing routines; conditions are told apart by their text, branches '
    'that depend on the process count as taken.'),
'C10': ('abstract interpretation of writer/reader pairs on symbolic file content',
    'Every registered pair of routines is covered for unknown extents and '
    'indices; paths that are not understood are listed as unresolved in the '
    'evidence. The registration of arguments and expected results is part of '
    'the specification; numbers of digits are not judged.'),
'C11': ('name resolution, definite assignment, signature and attribute lint',
    'Path-sensitive in conditions on unmodified names; loops run at least '
    'once and file searches succeed; objects of unknown class are skipped.'),
'C12': ('symbolic evaluation of masks, divisors and limits',
    'Masks are Boolean formulas over the comparisons of energy differences; '
    'branch values are compared with the limit of the regular quotient as '
    'exact rational functions of a generic occupation polynomial. Divisors '
    'that are not differences of band energies are not considered.'),
'C13': ('period typing of mesh indices over reaching definitions',
    'Integers derived from momenta are typed as index, folded or in between; '
    'indices of unknown origin are not judged.'),
'C14': ('constant folding of module-level expressions against CODATA',
    'Complete for the exported constants; a literal is compared with a '
    'constant if it agrees to 0.2 percent.'),
'C15': ('dimensional (exponent) analysis per setting of the unit flags',
    'Every combination of the flags is walked; values whose exponents depend '
    'on an undecided condition or that pass formulas of other modules are not '
    'judged.'),
'C16': ('constant propagation with path splitting per documented value',
    'Loops over unknown ranges are summarised; routines that exceed the '
    'budget are listed as undecided.'),
'C17': ('constant propagation of formulas, identity testing of terms',
    'Formulas are extracted per path as terms over free lattice parameters; '
    'terms with operations outside of elementary functions are undecided.'),
'C18': ('substitution of definitions, symbolic differentiation, identity '
    'testing of terms',
    'Formulas are compared at fixed values of the unknowns, which decides '
    'identity of such analytic terms up to coincidence; infinite sums are '
    'compared for a few terms, Hermite polynomials up to order four.'),
'C19': ('substitution of definitions, identity testing of terms',
    'The parameters of the built-in models are those of the sources; identity '
    'is decided at random momenta and data; transforms to real space are '
    'taken for a few small meshes and fixed tables of lattice vectors.'),
'C20': ('substitution of definitions, identity testing of terms',
    'A fixed set of lattice vectors, eight supercells and a few permutations '
    'and shifts stand for all; data are unknowns. Short-range models only.'),
'C21': ('substitution of definitions, identity testing of terms',
    'Data, masses are unknowns; lattice vectors and atomic positions are '
    'fixed (two crystals with one and two atoms), so that the tests of '
    'divisors in the orthogonalization are decided.'),
'C22': ('substitution of definitions, identity testing of terms',
    'Energies, couplings, eigenvectors, temperature and frequencies are '
    'unknowns; the meshes have up to nine points, two bands, two modes. '
    'Identity is decided at random values, generic and degenerate. Momenta '
    'are multiples of the mesh spacing.'),
'C23': ('substitution of definitions, identity testing of terms',
    'Data are unknowns, the case distinctions of which are decided for a few '
    'orderings (generic, degenerate, on mesh points); meshes have up to 16 '
    'points, the coordinates are a fixed set with negative and large ones.'),
'C24': ('substitution of definitions, constant propagation, identity testing',
    'Mesh sizes are constants (1 to 6 points per dimension), data are '
    'unknowns with the symmetry of a subgroup; three orientations of the '
    'lattice; three crystals for bonds in three dimensions.'),
'C25': ('substitution of definitions, constant propagation, identity testing',
    'Charges, quadrupoles, positions and masses are unknowns of two atoms; '
    'one bulk and one layered lattice, one dielectric tensor and three '
    'momenta are constants; terms beyond the cutoff are neglected.'),
}
NOT_APPLICABLE = {}
NOTES = ('All checks are static: they parse the sources of /repo on every run '
    'and never import or execute them. Python 3 standard library only.')
