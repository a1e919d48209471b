E = 'elphmod/'
prop('C01', 'Processes never disagree about collective communication',
 'In a parallel run where all processes call a routine with the same arguments, whether and in which order they enter collective operations on a communicator (broadcasts, gathers, reductions, barriers, splits, collective status messages) never depends on which process it is or on data that only some of them hold. A routine that is handed a communicator communicates only over that communicator or communicators derived from it. Hence no routine can deadlock or pair up unrelated messages, whatever the number of processes.',
 ['schedules', 'configurations', 'inputs'],
 'every number of processes and nodes, every schedule, every input and every combination of options of every public routine and method',
 'The suite runs with one and two processes on one node and reaches few of the collective call sites (no readers, plots, DOS, most diagrams); a mismatch needs a particular branch, rank count or option.',
 [E + m for m in ('MPI.py', 'bravais.py', 'diagrams.py', 'dispersion.py', 'dos.py', 'el.py', 'elel.py', 'elph.py', 'md.py', 'misc.py', 'ph.py', 'plot.py')],
 [('collectives are issued outside rank-dependent branches, or mirrored in both branches', 'all modules'), ('status messages with a barrier (info) are called by all processes', E + 'MPI.py')],
 [('communicators', 'world, single-process, node/images and column/row communicators', E + 'MPI.py: comm, I, matrix, shm_split')],
 ['return of each routine'])
prop('C02', 'Results are replicated on all processes',
 'Unless the caller switches broadcasting off, everything a routine returns or stores in a model or driver object has the same value on every process: whatever only some processes read from a file, computed, received or drew at random is broadcast before it is handed out.',
 ['configurations', 'inputs', 'schedules'],
 'every number of processes, every input file and every option combination with broadcasting on',
 'Tests compare results on a few model Hamiltonians; no reader and hardly any of the gather-to-root paths is executed in parallel, and a test on the root process sees correct data.',
 [E + m for m in ('MPI.py', 'bravais.py', 'diagrams.py', 'dispersion.py', 'dos.py', 'el.py', 'elel.py', 'elph.py', 'md.py', 'misc.py', 'ph.py', 'plot.py')],
 [('root reads, then bcast/Bcast', 'all readers'), ('Gatherv to root, then Bcast over images', 'dispersion, elph.sample, elel, plot')])
prop('C03', 'Each file is written by exactly one process',
 'Every file or directory the package creates, overwrites, appends to or deletes is touched by exactly one process of the whole run (normally the first one), or by one process per file when the file names differ between processes; no output file is ever opened for writing by several processes at once.',
 ['schedules', 'configurations', 'inputs'],
 'every number of processes and nodes and every writer, including writers reached through other routines and external commands that create or remove files',
 'Parallel tests write no files at all; concurrent writers usually produce the right bytes in a short run and corrupt them only under unlucky timing.',
 [E + m for m in ('MPI.py', 'bravais.py', 'el.py', 'elel.py', 'elph.py', 'md.py', 'misc.py', 'ph.py')],
 [('guard on the first process around every open for writing', 'all writers')])
prop('C04', 'Shared memory is written exclusively and synchronised before use',
 'An array in node-shared memory is filled by exactly one designated process per node (or by processes taking turns or owning it exclusively), is distributed to all nodes when only one node filled it, and a barrier separates the last write from the first use by any other process, in particular from the moment the array is handed to the caller.',
 ['schedules', 'configurations'],
 'every interleaving of the processes of a node, every number of nodes, shared memory on or off',
 'On one node with two processes a missing barrier or missing transfer between nodes is practically invisible; the suite never runs on more than one node.',
 [E + m for m in ('MPI.py', 'dispersion.py', 'el.py', 'elel.py', 'elph.py', 'md.py', 'misc.py')],
 [('node/images communicators: write on root, images.Bcast, Barrier', 'all users of shared_array')])
prop('C05', 'Work distribution covers every item once and reassembles in order',
 'For every problem size and number of processes, including fewer items than processes, distributed loops process each item exactly once, and when the parts are collected the message counts, the extents and data types of the local and global buffers and the index under which a part is stored agree, so that the assembled result is independent of the number of processes.',
 ['configurations', 'inputs'],
 'every problem size, array extent and number of processes',
 'Tests use one or two processes and a handful of extents, for a minority of the distributed loops; a wrong factor in a count cancels for extents of one.',
 [E + m for m in ('MPI.py', 'bravais.py', 'diagrams.py', 'dispersion.py', 'dos.py', 'el.py', 'elel.py', 'elph.py', 'ph.py', 'plot.py')],
 [('balanced block partition', E + 'MPI.py: distribute'), ('local buffer + Allgatherv/Gatherv/Scatterv with counts', 'all distributed loops')])
prop('C06', 'Every communication call works without MPI',
 'Every communicator attribute and operation the package uses, with the argument forms it is called with, is available and means the same when MPI is absent or only one process runs, so that no routine fails or changes its result merely because it runs serially.',
 ['configurations', 'inputs'],
 'every routine and option, run with and without mpi4py',
 'Serial tests reach a small part of the communication calls; a missing operation surfaces only when the one routine that needs it is called serially.',
 [E + 'MPI.py', E + 'elel.py', E + 'elph.py', E + 'dispersion.py'],
 [('serial stand-ins for the communicator and the MPI module', E + 'MPI.py: Communicator, Interface')])
prop('C07', 'Arguments are never modified behind the back of the caller',
 'A routine leaves the arrays, lists, dictionaries and model objects passed to it unchanged unless modifying that argument is its documented purpose; in-place operations only ever touch copies, so that calling a routine twice with the same arguments gives the same result.',
 ['inputs', 'histories'],
 'every public routine, every argument and every option, for every sequence of calls',
 'Tests build fresh inputs for each call and do not compare arguments before and after; most routines and options are never called.',
 [E + m for m in ('bravais.py', 'diagrams.py', 'dispersion.py', 'dos.py', 'el.py', 'elel.py', 'eliashberg.py', 'elph.py', 'md.py', 'misc.py', 'occupations.py', 'ph.py', 'plot.py')],
 [('copies before in-place work', 'all modules')])
prop('C08', 'Cell transformations return complete models with unchanged settings',
 'A model obtained from another one by mapping it to a supercell, a unit cell or another basis order carries over every setting of the original (units, division by masses and by degeneracies, long-range and polar settings), keeps per-atom and per-orbital data consistently ordered, and has every quantity set that its own methods need.',
 ['inputs', 'programs', 'configurations'],
 'every model with any combination of settings and every sequence of transformations followed by any method call',
 'Tests transform models with default settings only and compare energies; a setting that falls back to its default is invisible unless a non-default value is combined with a later operation.',
 [E + m for m in ('el.py', 'ph.py', 'elph.py', 'elel.py')],
 [('field-by-field copying in supercell, unit_cell, order_*, shift_*', 'el, ph, elph, elel models')])
prop('C09', 'Cached and derived quantities never go stale',
 'Whenever an operation changes the data or lattice vectors a model has cached results for or derived tables from, the caches are discarded or the tables rebuilt in that same operation, so that every later evaluation reflects the current state of the model for every history of operations.',
 ['histories', 'inputs'],
 'every sequence of evaluations and modifying operations on a model',
 'Tests evaluate freshly built models; a stale cache needs evaluate - modify - evaluate with the same arguments.',
 [E + 'elph.py', E + 'ph.py', E + 'el.py', E + 'elel.py'],
 [('q-dependent cache of the electron-phonon model', E + 'elph.py: Model.gR, Model.g'), ('long-range tables', E + 'ph.py: prepare_long_range')])
prop('C10', 'Written files read back to the same data',
 'For every file format the package both writes and reads, writer and reader agree on the order of records and columns, the index assigned to each record (including the offset of one-based indices), the unit conversions and mass factors (which are mutually inverse), and the keywords, so that reading a file the package has written restores what was written up to the printed precision.',
 ['inputs', 'programs'],
 'every model or data set that can be written, with any number of orbitals, atoms, mesh points and settings',
 'No existing test writes a file at all; a swapped loop or index is invisible whenever the two extents coincide or the data are symmetric.',
 [E + m for m in ('bravais.py', 'el.py', 'elel.py', 'elph.py', 'misc.py', 'ph.py')],
 [('writer/reader pairs', 'hrdat, bands, flfrc, fildyn0, quadrupole, Wmat, wigner/epmatwp, xsf, coupling data, input files')])
prop('C11', 'No code path runs into undefined names or mismatched calls',
 'On every path through every routine, each name, module attribute and object attribute that is used is defined at that point, and each call to a routine of the package passes arguments its signature accepts, so that no combination of options ends in a name, attribute, unbound-variable or argument error.',
 ['inputs', 'configurations', 'programs'],
 'every path through every function and method, for all options',
 'Python finds such errors only when the path is executed; the tests execute a minority of the functions and few non-default options.',
 [E + m for m in ('MPI.py', 'bravais.py', 'diagrams.py', 'dispersion.py', 'dos.py', 'el.py', 'elel.py', 'eliashberg.py', 'elph.py', 'md.py', 'misc.py', 'occupations.py', 'ph.py', 'plot.py')],
 [('module namespaces and signatures', 'all modules')])
prop('C12', 'Degenerate energies take the analytic limit instead of dividing by zero',
 'Wherever electronic response quantities divide by differences of band energies, every element is assigned exactly one of the regular quotient, evaluated only where each divisor exceeds the tolerance in absolute value irrespective of its sign, or the corresponding derivative limit, so that degenerate or nearly degenerate states never produce zero divisors, stale or unassigned elements.',
 ['inputs'],
 'all band structures including exact and near degeneracies, of either sign of the energy difference',
 'Exact degeneracies and both signs of nearly vanishing differences hardly occur for the few generic dispersions tested.',
 [E + 'diagrams.py', E + 'md.py'],
 [('masks on energy differences and derivative fill-in', E + 'diagrams.py, ' + E + 'md.py')])
prop('C13', 'Momentum arguments are periodic',
 'Mesh indices computed from crystal momenta are folded back into the first period, with the period of the axis they belong to, before they are used to address or shift mesh data, so that momenta outside the first period, negative momenta and momenta that round up to the full period give the same results as their equivalents inside.',
 ['inputs'],
 'all momenta, inside and outside the first period, for every mesh including meshes with different extents along different axes',
 'Tests pass momenta within the first period on square meshes.',
 [E + 'diagrams.py', E + 'bravais.py', E + 'elph.py', E + 'dispersion.py', E + 'plot.py'],
 [('rounding and reduction modulo the mesh extent', E + 'diagrams.py')])
prop('C14', 'Unit constants are mutually consistent and correct',
 'The unit-conversion constants agree with the CODATA values to the relative precision to which they are quoted and with each other, and derived constants are formed from the same base constants, so that converting there and back is the identity.',
 ['configurations'],
 'all exported conversion constants',
 'Tests use the constants on both sides of each comparison, so that a wrong value cancels.',
 [E + 'misc.py', E + 'elph.py', E + 'models/graphene.py'],
 [('constants', E + 'misc.py')])
prop('C15', 'Unit and mass conventions are applied exactly once on the way in and out',
 'For every combination of the unit and mass-division settings of a model and of the data handed to or taken from it, the net conversion factor is the one required by the two conventions: data are converted exactly once where the conventions differ and left alone where they agree.',
 ['configurations', 'inputs'],
 'all combinations of unit and mass settings of models, readers, writers and transforms',
 'Tests use default settings; for the built-in models several factors are one.',
 [E + 'el.py', E + 'ph.py', E + 'elph.py', E + 'elel.py', E + 'md.py'],
 [('rydberg and divide_mass flags', E + 'el.py, ' + E + 'ph.py, ' + E + 'elph.py')])
prop('C16', 'Every documented broadening, Bravais lattice and lattice angle is handled',
 'Every documented name of a broadening function, in any capitalisation, selects the function it stands for, which comes with its delta function, the derivative of that and (where it exists) its entropy; every routine that takes such a name translates it before use. Every Bravais-lattice index and every unit of explicit lattice vectors yields lattice vectors, and every routine that distinguishes lattice angles handles 60, 90 and 120 degrees. A documented value never silently falls through, ends in an error or leaves a quantity undefined that is used afterwards.',
 ['configurations', 'programs'],
 'all documented option values of all routines that take them, on every path',
 'Tests iterate over a fixed list of a few option values; most routines are called with the default only.',
 [E + 'occupations.py', E + 'bravais.py', E + 'diagrams.py', E + 'dispersion.py', E + 'misc.py', E + 'plot.py'],
 [('tables of option values', E + 'occupations.py: smearing; ' + E + 'bravais.py: primitives')])
prop('C17', 'Lattices follow the documented conventions for all lattice parameters',
 'For all lattice parameters, given as conventional constants or in the form of Quantum ESPRESSO and in either unit of length, the primitive vectors of each Bravais lattice are those documented for PWscf; reciprocal vectors are dual to the lattice vectors; volumes are positive determinants; supercell vectors and reciprocal supercell vectors fulfil the duality relation with the number of unit cells for every orientation; two-dimensional lattice vectors, rotations and squared distances belong to the same lattice angle; and the tabulated special points are those of the chosen lattice.',
 ['inputs'],
 'all lattice types and all values of the lattice parameters, supercell vectors and angles',
 'Tests sample a few lattices with fixed numbers; several terms vanish or coincide for orthogonal axes, equal lattice constants or right-handed supercells.',
 [E + 'bravais.py'],
 [('closed formulas for lattice vectors', E + 'bravais.py: primitives, reciprocals, supercell, translations'), ('table of special points', E + 'bravais.py: path')])
prop('C18', 'Broadening functions are consistent with their derivatives and entropies',
 'For every real argument, however large in magnitude, every order of the Methfessel-Paxton expansion and every separation of the double and two-level Fermi functions, each delta function is the negative derivative of its step function, each second-derivative function is the derivative of the delta function, and the derivative of each entropy is minus the argument times the delta function. The step functions have their documented values and go from one to zero, while the delta functions and entropies vanish far from the Fermi level without overflow. For complex arguments, the Fermi and Bose functions and their derivatives are the analytic continuations.',
 ['inputs', 'configurations'],
 'all real arguments, all broadening functions and all values of their parameters; complex arguments of the Fermi and Bose functions',
 'Tests compare a few functions on a grid for the default order and separation.',
 [E + 'occupations.py'],
 [('formulas of step and delta functions and entropies', E + 'occupations.py')])
prop('C19', 'Model matrices have their physical symmetries and match the Fourier transforms',
 'For all momenta, the Hamiltonians, dynamical matrices and interaction matrices of the built-in example models are Hermitian, periodic in the reciprocal lattice and complex conjugate at opposite momenta, and their spectra do not change under the rotations and reflections of the lattice; their dynamical matrices fulfil the acoustic sum rule, their electron-phonon coupling is the adjoint of the one for the opposite momentum transfer, and a rigid translation of the crystal does not couple to the electrons. In the general electron, phonon, interaction and coupling models, the matrix at a momentum is the Fourier sum of the real-space data with positive sign for arbitrary lattice vectors and data, the velocity operator is the derivative of the Hamiltonian with respect to the momentum, and the transforms from a mesh of momenta to real space are the inverse of these sums in sign, conjugation and normalisation.',
 ['inputs'],
 'all momenta, all real-space data and all meshes; the parameters of the built-in models are those of the sources',
 'Tests look at a few quantities of a few models on coarse meshes, where opposite momenta coincide, and at moduli and eigenvalues, which do not depend on signs of phases.',
 [E + 'models/' + m for m in ('graphene.py', 'tas2.py', 'chain.py')] + [E + m for m in ('el.py', 'ph.py', 'elel.py', 'elph.py')],
 [('elements of model matrices', E + 'models'), ('Fourier sums and transforms', 'el, ph, elel and elph models')])
prop('C20', 'Supercells and transformed models describe the same crystal',
 'Mapping an electron, phonon, interaction or short-range coupling model onto a supercell, diagonal or not and of either orientation, yields exactly the matrix elements the original model has between the corresponding unit cells, no more and no less; atomic positions, masses, Born charges and lattice vectors follow, and mapping back to the unit cell restores the original model. Sparse matrices of a supercell are the sums over all its lattice vectors. Looking up the matrix of a lattice vector returns the stored one or zero. Reordering the basis, moving basis functions across the boundary of the cell and summing up repeated lattice vectors change the labels but not the matrix elements or positions they stand for, and symmetrization averages each element with the adjoint one.',
 ['inputs', 'configurations'],
 'all lattice vectors and real-space data; supercells along the axes, skewed and left-handed; all orders and shifts',
 'Tests compare eigenvalues of a few models whose symmetries hide exchanged indices, mainly for diagonal supercells.',
 [E + m for m in ('el.py', 'ph.py', 'elel.py', 'elph.py', 'bravais.py')],
 [('supercell, unit-cell and basis transformations', 'el, ph, elel and elph models'), ('supercell geometry', E + 'bravais.py: supercell, to_supercell')])
prop('C21', 'Sum-rule corrections make the sums vanish that they promise to',
 'After the respective correction, whatever the force constants, masses and positions, the forces vanish for a rigid displacement of the crystal (acoustic sum rule) and for a rigid infinitesimal rotation (Born-Huang rotation sum rule), the force constants remain the same in opposite directions and change as little as possible, the simple correction only changes on-site force constants, the Born effective charges add up to zero, and electrons do not couple to rigid displacements, no matter if data are divided by masses.',
 ['inputs', 'configurations'],
 'all force constants, effective charges, couplings, masses and positions; both mass conventions',
 'Tests apply the corrections to one crystal of equal or nearly fulfilled sums and hardly look at the result.',
 [E + m for m in ('ph.py', 'elph.py')],
 [('sum-rule corrections', E + 'ph.py: asr, zasr, sum_rule_correction; ' + E + 'elph.py: Model.asr')])
prop('C22', 'Response functions and diagrams equal the sums that define them',
 'Static and dynamic susceptibilities, the polarization in the orbital basis (also if transitions within a subspace are excluded), the phonon self-energy for all combinations of couplings, frequencies, energy windows and screening, the shift from a change of the Fermi level, the renormalization of the coupling, the double Fermi-surface average, the grand potential and its first- and third-order diagrams, the Fan-Migdal self-energy and the Green-Kubo conductivity equal the sums over bands, momenta, and frequencies that define them for all energies, including degenerate ones and those far from the Fermi level, and for all couplings, eigenvectors, and temperatures; momenta are equivalent modulo reciprocal lattice vectors, and no imaginary part is lost.',
 ['inputs', 'configurations'],
 'all energies including degeneracies, complex couplings and eigenvectors, temperatures, momenta in any Brillouin zone, meshes, options',
 'Tests compare two implementations of the static bubble for one model or two bases for one coupling; degenerate limits, subspaces, dynamic and screened self-energies are not sampled.',
 [E + m for m in ('diagrams.py', 'occupations.py')],
 [('response functions', E + 'diagrams.py: susceptibility, polarization, phonon_self_energy, renormalize_coupling_band, triangle, fan_migdal_self_energy')])
prop('C23', 'Interpolated and integrated mesh data follow from the data around each point',
 'For every mesh of periodic data and every point, inside or outside the mesh, linear interpolation returns the average of the data at the corners of the smallest triangle, rectangle or line around the point, weighted such that linear functions are reproduced, for all lattice angles, selected axes and data types; values on a periodic axis and complex phases are interpolated across the shortest distance; resizing returns these values at the points of the new mesh, open or periodic. Fourier interpolation returns the data at the mesh points, whatever their magnitude, and in between the sum over the shortest lattice vectors. The density of states and the weighted spectrum on a triangular mesh are the integrals over the isoline of the interpolated energies, also if energies are degenerate and for restricted windows; points where two isolines intersect are each counted once with the inverse Jacobian as weight, and isolines consist of points of the given energy, also where they pass through mesh points.',
 ['inputs', 'configurations'],
 'all data including degenerate, small, integer and complex data, all points and meshes, all lattice angles and axes, all energies',
 'Tests interpolate one smooth function on the same mesh; wrong behaviour beyond the mesh boundary, for other angles and axes or for degenerate data is not sampled.',
 [E + 'bravais.py', E + 'dos.py'],
 [('interpolation', E + 'bravais.py: linear_interpolation, resize, Fourier_interpolation'), ('triangle integration', E + 'dos.py: hexDOS, hexa2F, double_delta, isoline')])
prop('C24', 'Symmetry-equivalent points, shortest vectors, paths and zones are complete',
 'For meshes of any size and all lattice angles, the points found to be equivalent are exactly those the rotations and reflections of the lattice map onto each other; exactly one of them, the first, is chosen as irreducible; symmetries found in data are exactly those under which the data do not change, with correct rotation angle and mapping of points; missing data are completed by those of equivalent points, for two momenta by a common symmetry. The shortest lattice vectors equivalent to a given one, in two and three dimensions and between different atoms, are all found with their number and length. Points on a periodic axis are stacked as closely as possible. Paths consist of straight, evenly spaced segments through the given corners, with distances that are true lengths and consistent corner indices; the outline and picture of the Brillouin zone, however the lattice is oriented, cover this zone and nothing else and show the data at the right place. Uniform meshes, conversions between crystal and Cartesian coordinates and tests whether a point is on a path are exact.',
 ['inputs', 'configurations'],
 'all mesh sizes, lattice angles and orientations, data with any symmetry, options of paths',
 'Tests compare two implementations of the Wigner-Seitz construction and look at one path; rotated lattices, other angles and incomplete data are not sampled.',
 [E + 'bravais.py', E + 'plot.py'],
 [('equivalent and irreducible points, symmetries', E + 'bravais.py: images, irreducibles, symmetries, complete, complete_k'), ('Wigner-Seitz construction', E + 'bravais.py: to_Voronoi, wigner_2d, wigner'), ('paths and outlines', E + 'bravais.py: path, GMKG, BZ, mesh; ' + E + 'plot.py: toBZ')])
prop('C25', 'Long-range terms of polar crystals follow the referenced electrostatics',
 'For all Born effective charges, quadrupole and dielectric tensors, atomic positions, masses, lattice vectors and momenta, with or without quadrupoles and division by masses, in three dimensions as well as in two dimensions with vanishing or finite thickness and with or without perpendicular fields, the long-range part of the dynamical matrix is the sum over reciprocal lattice vectors defined in the referenced literature minus the on-site terms that make it fulfil the acoustic sum rule, it is Hermitian, and the long-range coupling of all electronic states is the sum of the same terms; the macroscopic term is left out at zero momentum. Both are added exactly once to the short-range parts, and preparing them anew, however often, neither changes the charges nor the result.',
 ['inputs', 'configurations', 'history'],
 'all charges, tensors, positions, masses, momenta; all settings of dimension, thickness, quadrupoles and masses; repeated preparation',
 'Tests only check one bulk and one layered crystal for consistency; most combinations of settings are never evaluated.',
 [E + 'ph.py', E + 'elph.py'],
 [('long-range terms', E + 'ph.py: Model.prepare_long_range, generate_long_range, D_lr, D; ' + E + 'elph.py: Model.g_lr, g')])
