#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the statements are readable and diffable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=' '.join(statement.split()),
        quantifier=dict(over=over, text=' '.join(text.split())), why_tests_cant=' '.join(why.split()),
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism],
                     observe_at=observe, hook_needed=hook, **({'state': state} if state else {}))))

prop('C01', 'Finite-system Hamiltonian equals the tight-binding definition, and is Hermitian',
 """For every lattice definition (any sublattices with scalar, vector or matrix onsite energy, any real, complex or
 matrix-valued hoppings including ones between sublattices with different orbital counts, any aliases and any order of
 definition) and every finite block of unit cells, each element of the built Hamiltonian equals exactly the energy which
 the lattice definition assigns to that ordered pair of orbitals, with the conjugate transpose for the opposite direction
 and zero everywhere else. The matrix is therefore Hermitian. Its element type is real when, and only when, all the
 energies are real.""",
 ['inputs', 'configurations'], """all lattice definitions and all block sizes; the checker enumerates every definition
 within stated bounds (number of sublattices, orbital counts, relative indices, energies, block sizes).""",
 """The tests check element sums or a few entries for one or two fixed lattices; a wrong conjugate, transposed matrix hopping,
 swapped orbital offset or lost boundary term shows up only for particular combinations of orbital counts, directions and sizes.""",
 ['cppcore/src/Lattice.cpp', 'cppcore/src/system/Foundation.cpp', 'cppcore/src/system/HoppingBlocks.cpp',
  'cppcore/include/hamiltonian/Hamiltonian.hpp', 'cppcore/include/system/System.hpp', 'cppcore/include/hamiltonian/HamiltonianModifiers.hpp'],
 [('building the Hamiltonian from onsite and hopping blocks', 'cppcore/include/hamiltonian/Hamiltonian.hpp build_main'),
  ('collecting hoppings of every site pair once', 'cppcore/src/system/System.cpp detail::populate_system')],
 ['the sparse Hamiltonian of a model', 'site positions and sublattices of its system'])

prop('C02', 'Periodic Hamiltonian equals the Bloch sum for every wave vector',
 """For every lattice, every set of directions with translational symmetry of any period and every wave vector, the built
 Hamiltonian equals the finite Hamiltonian of one period plus the sum of the hoppings which leave the period, each wrapped to
 the equivalent site inside it and multiplied by the phase of the wave vector over the translation that was crossed. It is
 Hermitian, and changing the wave vector changes nothing but those phases, whatever wave vectors were set before.""",
 ['inputs', 'configurations'], """all lattices, periods and wave vectors; enumerated within bounds on sublattices, hopping
 range, dimensions, periods 1..4 per direction and a grid of wave vectors.""",
 """The tests check a handful of eigenvalues or sums for nearest-neighbour lattices; the boundary bookkeeping differs per
 direction combination, period and hopping range, which a few samples cannot cover.""",
 ['cppcore/src/system/Symmetry.cpp', 'cppcore/src/system/System.cpp', 'cppcore/include/system/Foundation.hpp',
  'cppcore/src/system/Foundation.cpp', 'cppcore/include/hamiltonian/Hamiltonian.hpp'],
 [('translations and boundary slices', 'cppcore/src/system/Symmetry.cpp'),
  ('populating boundary hoppings', 'cppcore/src/system/System.cpp detail::populate_boundaries'),
  ('phase factors', 'cppcore/include/hamiltonian/Hamiltonian.hpp build_periodic')],
 ['the sparse Hamiltonian of a model', 'system boundaries (shift and hoppings)'])

prop('C03', 'A shape carves out exactly the lattice sites inside it, minus dangling sites',
 """For every lattice and every finite shape, the system consists of exactly those lattice sites whose position lies inside
 the shape, after repeatedly removing the sites left with fewer neighbours than the lattice minimum, each exactly once and at its lattice
 position; two kept sites are connected precisely when the lattice connects them. Moving the lattice offset moves the lattice
 under the shape consistently, and no site inside the shape is missed because of how the search area is bounded.""",
 ['inputs', 'configurations'], """all lattices, shapes and offsets; enumerated over lattice bases of 1-3 dimensions, site sets, polygon, line, circle
 and predicate shapes, offsets and neighbour minimums within bounds.""",
 """The tests carve a few fixed shapes and compare a site count; missed or duplicated sites depend on how the shape lies across
 the skewed cell grid and on the removal order.""",
 ['cppcore/src/system/Foundation.cpp', 'cppcore/include/system/Foundation.hpp', 'cppcore/src/system/Shape.cpp', 'cppcore/src/system/System.cpp'],
 [('bounding box to cell bounds', 'cppcore/src/system/Foundation.cpp detail::find_bounds'),
  ('dangling removal', 'cppcore/src/system/Foundation.cpp remove_dangling')],
 ['site positions, sublattices and hoppings of the built system'])

prop('C04', 'Site and orbital indices, sublattice ranges and position queries always agree',
 """In every built system, each site owns one contiguous run of Hamiltonian indices with as many entries as its sublattice has orbitals,
 the runs of all sites tile the index range without gap or overlap, and the lists of sublattices, positions and
 expanded positions all describe the same sites in that same order. Range queries by sublattice name, conversion of site indices
 to Hamiltonian indices, nearest-site search (with or without a sublattice filter), and the sub-orbital registry return exactly what a direct scan over the sites gives, and unknown
 names or sites are rejected with an error.""",
 ['inputs', 'configurations'], """all systems: lattices with any mixture of orbital counts and aliases, shapes, removals and generated sites within bounds; every site, sublattice
 and query position of each.""",
 """Tests check a few indices on two or three systems; the compressed index arithmetic fails only for particular mixes of orbital counts, empty
 sublattices or removals.""",
 ['cppcore/src/system/System.cpp', 'cppcore/src/system/CompressedSublattices.cpp', 'cppcore/include/system/CompressedSublattices.hpp', 'cppcore/src/system/Registry.cpp'],
 [('run-length encoded sublattices', 'cppcore/src/system/CompressedSublattices.cpp'), ('find_nearest and index conversion', 'cppcore/src/system/System.cpp')],
 ['System queries', 'CompressedSublattices queries', 'size of the Hamiltonian'])

prop('C05', 'A model always equals a freshly built model with the same parameters',
 """After any sequence of adding parameters, setting the wave vector, clearing modifiers and asking for results, everything a model reports (system, Hamiltonian,
 leads) equals what a new model given the same accepted parameters in the same order reports. Asking for a result never changes later
 results, an already obtained system or Hamiltonian never changes afterwards, and a rejected parameter leaves the model as it was.""",
 ['histories'], """all operation sequences; every interleaving of build steps, queries, clears and rejected steps up to a depth.""",
 """Tests build each model once; a stale cache, or a partial update by a failing step, needs a particular order of queries and changes.""",
 ['cppcore/src/Model.cpp', 'cppcore/include/Model.hpp', 'cppcore/src/leads/Leads.cpp', 'cppcore/src/system/Registry.cpp'],
 [('cache invalidation on each add/set', 'cppcore/src/Model.cpp clear_structure / clear_hamiltonian')],
 ['Model::system, hamiltonian, leads'])

prop('C06', 'Structure modifiers and generators act on the sites they describe',
 """For every sequence of site-state modifiers, position modifiers, site generators and hopping generators, the resulting system is the one
 obtained by applying them one after the other to a list of labelled sites and bonds: each modifier sees the current sites with their right
 sublattice and position, removing a site removes exactly that site and its bonds (plus sites which thereby fall below the requested neighbour
 minimum), and every remaining bond and generated bond joins the same physical sites with the same energy as before. This also holds
 across periodic boundaries. A generated bond which names a site that does not exist, or whose energy does not fit the orbitals of its sites, is rejected.""",
 ['programs', 'inputs'], """all modifier sequences up to a length over small structures, with every subset of sites removed.""",
 """Tests apply one modifier at a time to one structure; re-indexing mistakes appear only when a removal follows or precedes another
 kind of modifier with bonds beyond the removed site.""",
 ['cppcore/src/system/StructureModifiers.cpp', 'cppcore/include/system/StructureModifiers.hpp', 'cppcore/src/system/System.cpp', 'cppcore/src/system/HoppingBlocks.cpp', 'cppcore/src/Model.cpp', 'cppcore/src/system/Foundation.cpp'],
 [('apply() on foundation and on system', 'cppcore/src/system/StructureModifiers.cpp'), ('filtering of hopping blocks', 'cppcore/src/system/HoppingBlocks.cpp')],
 ['positions, sublattices and hoppings of the built system', 'Hamiltonian'])

prop('C07', 'Energy modifiers hit the right sites and bonds, in order, for any element type',
 """For every sequence of onsite and hopping modifiers and every system, each element of the Hamiltonian equals the value
 obtained by applying the modifiers in the order given to the base energy of that site or bond, where each call is handed the true positions,
 sublattice or hopping name and current energies of the elements it modifies. The result does not depend on how elements are grouped into calls, and it
 is the same (to its precision) in single or double precision; it is complex exactly when an input energy is
 complex, the model is periodic, or a modifier is declared or found to return complex values.""",
 ['programs', 'inputs', 'configurations'], """all modifier sequences up to a length over small systems (finite, periodic, with leads), all element-type combinations, and bond counts around the internal buffer size.""",
 """Tests use one modifier on one lattice; order, batching at the buffer boundary, and type promotion interact.""",
 ['cppcore/include/hamiltonian/HamiltonianModifiers.hpp', 'cppcore/src/hamiltonian/HamiltonianModifiers.cpp', 'cppcore/include/hamiltonian/Hamiltonian.hpp', 'cppcore/src/Model.cpp'],
 [('apply_to_onsite / apply_to_hoppings', 'cppcore/include/hamiltonian/HamiltonianModifiers.hpp'), ('scalar type selection', 'cppcore/src/Model.cpp make_hamiltonian')],
 ['the sparse Hamiltonian of a model', 'arguments received by modifier callbacks'])

prop('C08', 'Leads attach to the right sites and carry the right Hamiltonians',
 """For every lead attached to a finite system, its sites are one period of the lattice cross-section cut by the lead shape, its onsite matrix and
 its coupling matrix equal the lattice hoppings within one period and from one period to the next away from the system, and its index list names, in the order of its own sites, the
 system sites it connects to, which together fill the junction completely. A lead which cannot be attached (bad direction, 1D lattice, or a
 cross-section which misses the system fully or in part) is rejected with an error, and two leads do not disturb each other.""",
 ['inputs', 'configurations'], """all lattices, system and lead shapes, and directions within bounds.""",
 """Tests attach leads to square and graphene sheets in a few positions; the junction search depends on direction sign, extent, offsets and lattice skew.""",
 ['cppcore/src/leads/Spec.cpp', 'cppcore/src/leads/Structure.cpp', 'cppcore/src/leads/Leads.cpp', 'cppcore/include/leads/HamiltonianPair.hpp', 'cppcore/include/leads/Leads.hpp'],
 [('junction search', 'cppcore/src/leads/Spec.cpp'), ('lead system construction', 'cppcore/src/leads/Structure.cpp')],
 ['Lead indices, system, h0 and h1'])

prop('C09', 'Lattice definitions accept exactly the valid steps and stay consistent',
 """For every sequence of lattice-definition calls (sublattices, aliases, named and anonymous hoppings, offset), a call is rejected exactly when it is invalid
 (blank or duplicate name, unknown name, size mismatch, duplicate or conjugate-duplicate bond, onsite self-bond, non-square or complex-diagonal onsite
 matrix, too large offset) and a rejected call leaves the definition unchanged. After every accepted call the identifiers are unique and dense, aliases share the identity of their
 original, equal anonymous energies share one family, and the derived tables (names, energies, maximum hopping count, optimized cell) match the definition.""",
 ['histories'], """all call sequences up to a depth over a small alphabet of names, indices and energies.""",
 """Tests exercise each rejection once in one order; identifier and alias bookkeeping depends on the order of definitions.""",
 ['cppcore/src/Lattice.cpp', 'cppcore/include/Lattice.hpp', 'cppcore/src/system/Registry.cpp'],
 [('identifier assignment and validation', 'cppcore/src/Lattice.cpp')],
 ['Lattice getters', 'site and hopping registries', 'optimized unit cell'])

prop('C10', 'Solver results always belong to the current model and match their formulas',
 """After any sequence of solving, querying, clearing and changing the model, the eigenvalues, eigenvectors and every derived quantity (density of states, local density of states) come from
 the current model's Hamiltonian and equal their defining sums over eigenstates and orbitals; a result is computed at most once per model and nothing stale is returned after the model is replaced.""",
 ['histories', 'inputs'], """all operation sequences up to a depth over two or more models; all small spectra, energies and broadenings of a grid for the formulas.""",
 """Tests cover one solve; stale caches need a particular order, and formula errors with multi-orbital sites or repeated positions need particular systems.""",
 ['cppcore/src/solver/Solver.cpp', 'cppcore/include/solver/Solver.hpp'],
 [('is_solved flag and strategy change', 'cppcore/include/solver/Solver.hpp')],
 ['BaseSolver eigenvalues, eigenvectors, calc_dos, calc_spatial_ldos'])

prop('C11', 'KPM results equal the Chebyshev expansion whatever the optimization settings',
 """For every Hamiltonian and every combination of matrix format, reordering, slicing, interleaving and vectorization settings, the KPM moments and everything
 reconstructed from them (Green's functions, local and total density of states, conductivity) equal, to floating-point accuracy, those of the plain Chebyshev recursion on
 the same scaled Hamiltonian. The settings change speed only.""",
 ['inputs', 'configurations'], """all small Hamiltonian graphs (connected or not, real and complex), every index pair, every moment count and every combination of settings.""",
 """Tests are not even built for this part here, and upstream they sample one lattice; the reordered slices differ for every graph and index pair.""",
 ['cppcore/src/kpm/OptimizedHamiltonian.cpp', 'cppcore/include/kpm/OptimizedHamiltonian.hpp', 'cppcore/include/kpm/calc_moments.hpp', 'cppcore/src/kpm/Moments.cpp',
  'cppcore/src/kpm/Starter.cpp', 'cppcore/src/kpm/Core.cpp', 'cppcore/include/compute/kernel_polynomial.hpp', 'cppcore/src/kpm/default/Compute.cpp', 'cppcore/src/kpm/default/collectors.cpp', 'cppcore/include/kpm/reconstruct.hpp'],
 [('reordering and slice map', 'cppcore/src/kpm/OptimizedHamiltonian.cpp create_reordered'), ('optimal-size moment loops', 'cppcore/include/kpm/calc_moments.hpp')],
 ['KPM Core moments, greens, ldos, dos, conductivity'])

prop('C12', 'KPM results do not depend on what was computed before',
 """Each KPM calculation returns the same result whatever other calculations, Hamiltonian or bounds changes were performed on the same object before it. Results requested for
 several index pairs at once equal the results of separate requests, and changing the Hamiltonian or its bounds takes effect in every later result.""",
 ['histories'], """all sequences of calculations with all index pairs up to a depth on small Hamiltonians.""",
 """Tests call each function once; the cached scaling, reordered matrix and index map are stale only after particular sequences.""",
 ['cppcore/src/kpm/Core.cpp', 'cppcore/include/kpm/Core.hpp', 'cppcore/src/KPM.cpp', 'cppcore/src/kpm/OptimizedHamiltonian.cpp', 'cppcore/include/kpm/Bounds.hpp'],
 [('optimize_for caching by index', 'cppcore/src/kpm/OptimizedHamiltonian.cpp optimize_for')],
 ['KPM Core results'])

prop('C13', 'Parallel KPM gives the same stochastic result under every thread schedule',
 """For a fixed number of random vectors, the stochastic KPM moments, and hence the density of states, are the same (to summation
 rounding) for every number of threads and every interleaving of the worker threads, equal to the average over the fixed sequence of starting vectors. No
 interleaving accesses shared data without synchronization, deadlocks, or drops or duplicates a vector or progress report.""",
 ['schedules', 'configurations'], """all interleavings of 1-3 worker threads up to a preemption bound, for all small vector counts.""",
 """A test runs under one schedule; the shared random sequence and the accumulated moments are only corrupted by rare interleavings.""",
 ['cppcore/src/kpm/default/Compute.cpp', 'cppcore/src/kpm/Starter.cpp', 'cppcore/include/kpm/Starter.hpp', 'cppcore/src/kpm/Moments.cpp', 'cppcore/include/kpm/Moments.hpp', 'cppcore/include/detail/thread.hpp'],
 [('starter lock and moment accumulation lock', 'cppcore/src/kpm/default/Compute.cpp, cppcore/src/kpm/Moments.cpp')],
 ['moments of a stochastic calculation', 'progress callbacks'])

prop('C14', 'parallel_for runs every job through all stages exactly once and then returns',
 """For every number of jobs, threads and every queue size, under every interleaving, each job is produced once and in order by one thread, computed once on the
 value produced for it, and retired once with that job's own number and computed value, one at a time; the call returns exactly after the last job retires. It never
 deadlocks or races, and no more than queue size plus thread count plus one jobs have been produced but not yet computed.""",
 ['schedules'], """all interleavings (up to a preemption bound, complete for the smallest configurations) for 0-4 jobs, 1-3 threads, and queue sizes 0-3, including spurious wakeups.""",
 """No test uses it at all here, and a test would see one schedule; lost wakeups and early shutdown depend on exact interleavings.""",
 ['cppcore/include/detail/thread.hpp', 'cppmodule/include/thread.hpp'],
 [('two bounded queues with producer counts', 'cppcore/include/detail/thread.hpp Queue, parallel_for')],
 ['produce, compute and retire callbacks', 'return of the call'])

prop('C15', 'The thread pool and the work queue never lose, duplicate or strand an item',
 """Under every interleaving of any producers and consumers, every item pushed is popped exactly once and in push order, a push waits only while the queue is full, a consumer gets the end-of-work signal only once all producers have left and the
 queue is empty, and nobody waits forever. Every task given to a thread pool runs exactly once before join or the destructor returns, and joining twice is harmless.""",
 ['schedules', 'histories'], """all interleavings up to a preemption bound of small producer/consumer programs with bounded queues, and of pools with 0-4 tasks and 1-3 threads.""",
 """Not tested at all here; lost-wakeup and shutdown bugs need specific interleavings.""",
 ['cppcore/include/detail/thread.hpp'],
 [('condition variables and producer count', 'cppcore/include/detail/thread.hpp Queue, ThreadPool')],
 ['items received by consumers', 'tasks executed'])

prop('C16', 'Sparse and dense array primitives equal their dense definitions',
 """Every matrix conversion (row-compressed to ELLPACK and back), matrix-vector product (plain, partial rows, with fused dot products, vectorized or not, for vectors and batches), slice, concatenation,
 random-vector scaling, and untyped array view gives exactly the data of its dense definition for every size, sparsity pattern, row range, alignment and element type. No primitive reads or writes outside its operands.""",
 ['inputs', 'configurations'], """all sparsity patterns of small matrices, all row ranges and alignments, all four element types, both generic and vectorized builds.""",
 """These files are not in the test build here, and tests sample one matrix; loop peeling and remainders depend on size and alignment.""",
 ['cppcore/include/numeric/ellmatrix.hpp', 'cppcore/include/numeric/sparse.hpp', 'cppcore/include/numeric/dense.hpp', 'cppcore/include/compute/kernel_polynomial.hpp', 'cppcore/include/support/simd.hpp', 'cppcore/include/numeric/arrayref.hpp'],
 [('csr_to_ell, kpm_spmv', 'cppcore/include/numeric/ellmatrix.hpp, cppcore/include/compute/kernel_polynomial.hpp')],
 ['output arrays'])

prop('C17', 'Shape containment agrees with exact geometry',
 """For every simple polygon, a point strictly inside is contained and a point strictly outside is not, whatever the vertex order, orientation or collinear vertices; a line shape contains exactly the points whose projection falls within its span; a freeform
 shape contains exactly what its function says. The bounding vertices of every shape enclose it, and the shape used as a lead cross-section keeps its contained points.""",
 ['inputs'], """all simple polygons on a small integer grid with 3-6 vertices, and every point of a finer grid.""",
 """Tests use one or two polygons; crossing counts go wrong only for vertices at the height of the point or particular edge directions.""",
 ['cppcore/src/system/Shape.cpp', 'cppcore/include/system/Shape.hpp'],
 [('crossing-number test', 'cppcore/src/system/Shape.cpp detail::WithinPolygon')],
 ['Shape::contains'])

prop('C18', 'KPM requests are validated: bad ones are rejected, good ones never fault',
 """For every Hamiltonian and every request (orbital indices, positions, sublattices, shapes, direction letters, numbers of moments, vectors and points, broadening, vectors and operators), a request which is out of range or malformed is rejected with an error, and every request that is in range completes with finite results of the documented shape (for energies within the bounds). No request reads outside the Hamiltonian or leaves the object unusable.""",
 ['inputs', 'histories'], """all index values around the valid range, all strings up to two letters from the direction alphabet plus foreign letters, for all small systems; each followed by a valid request.""",
 """Tests check one bad index; off-by-one validation errors show only at the boundary value.""",
 ['cppcore/src/KPM.cpp', 'cppcore/src/kpm/Core.cpp', 'cppcore/src/kpm/Kernel.cpp'],
 [('argument checks', 'cppcore/src/KPM.cpp')],
 ['KPM facade results and exceptions'])

prop('C19', 'KPM spectrum bounds and kernels satisfy their defining guarantees',
 """The automatically found energy bounds enclose the whole spectrum up to the tolerance of the scale (and are not much wider), whatever the hoppings, offset and units of the Hamiltonian, so that the rescaled spectrum lies within the Chebyshev interval. For every moment count each kernel's damping starts at one, never grows with
 the order and stays in the unit interval; the number of moments chosen for a broadening is the smallest admissible one that reaches that broadening, decreases as broadening grows, and reconstruction rounds it as documented.""",
 ['inputs', 'configurations'], """all small Hermitian matrices of an enumerated family, all kernels and moment counts and a grid of broadenings.""",
 """Tests check one kernel at one moment count, and the bounds of one lattice.""",
 ['cppcore/include/compute/lanczos.hpp', 'cppcore/include/compute/eigen3/lanczos.hpp', 'cppcore/src/kpm/Bounds.cpp', 'cppcore/include/kpm/Bounds.hpp', 'cppcore/src/kpm/Kernel.cpp', 'cppcore/include/kpm/Kernel.hpp'],
 [('Lanczos bounds', 'cppcore/include/compute/lanczos.hpp'), ('kernel formulas', 'cppcore/src/kpm/Kernel.cpp')],
 ['bounds, scaling factors and damping coefficients'])

prop('C20', 'Stored form of a structure restores to an identical structure',
 """For every built system, taking its stored representation (compressed sublattices, hopping blocks, registries, positions) and restoring it gives a system
 with the same sites, bonds, names, counts, sparse connectivity matrix and query results. Inconsistent stored data (mismatching lengths) is rejected, and restoring never depends on the order in which sites were added.""",
 ['inputs', 'histories'], """all small systems of the structure enumeration, plus all modifier sequences applied before storing.""",
 """Tests round-trip one graphene system in Python only; here no test covers it.""",
 ['cppcore/include/system/HoppingBlocks.hpp', 'cppcore/src/system/HoppingBlocks.cpp', 'cppcore/src/system/CompressedSublattices.cpp', 'cppcore/include/system/CompressedSublattices.hpp', 'cppcore/src/system/Registry.cpp', 'cppcore/include/system/Registry.hpp'],
 [('serialized block accessors and restoring constructors', 'cppcore/include/system/HoppingBlocks.hpp, cppcore/include/system/CompressedSublattices.hpp')],
 ['accessors of the restored objects'])

prop('C21', 'Python modifiers see exactly what they request; their results reach the model',
 """(Python layer: pybinding/modifier.py, support/inspect.py, support/alias.py.) Whatever subset of the allowed arguments a modifier or generator function requests, in whatever order and with
 whatever defaults or decorations, each argument carries the values of its own quantity, one per site or hopping, in the documented shape (also with several orbitals); sublattice and
 hopping arguments compare equal to their names exactly where they have that name. What the function returns (real or complex, any memory layout, arrays or scalars as documented)
 arrives in the memory layout which the core reads, in the order of return, without changing the arrays of the caller. Functions with unknown or missing arguments and results of a wrong number, shape or type are refused.
 The recorded call signature of a decorated maker function shows the arguments of that call.""",
 ['inputs', 'configurations'], """all subsets and orders of arguments, orbital shapes, site counts, element types and ways of returning a result, within bounds.""",
 """The Python tests (which cannot run here: they need the compiled module) use a handful of modifiers with one orbital; mixed-up arguments or memory orders show only for particular combinations of requested
 arguments, orbital counts and returned layouts.""",
 ['pybinding/modifier.py', 'pybinding/support/inspect.py', 'pybinding/support/alias.py'],
 [('requested arguments', 'pybinding/modifier.py _process_modifier_args, _check_modifier_spec'), ('results', 'pybinding/modifier.py _sanitize_modifier_result'), ('names', 'pybinding/support/alias.py AliasIndex')],
 ['arguments received by the function', 'arrays passed on to the core', 'exceptions'])

prop('C22', 'Composed and displaced Python shapes contain exactly the points they should',
 """(Python layer: pybinding/shape.py and the helpers in support/.) For all shapes, a union, intersection, difference or symmetric difference contains a point exactly if the Boolean combination of its parts does, and
 its vertices enclose the whole of it in every direction; a shape displaced by a vector of any length (1 to 3) contains a point exactly if the original contains the point moved back, and its vertices are moved too. This
 nests to any depth and never changes the operands. Rectangles, regular polygons, circles, lines and freeform shapes have the documented extent, centre and membership; translational symmetry and primitive parameters
 reach the core in the documented form.""",
 ['inputs', 'configurations'], """all expression trees over the basic shapes up to a depth, all offsets of a grid, all points of a grid.""",
 """Tests check the picture of two or three compositions; wrong vertices or offsets lose sites only for particular combinations of shape, operation and displacement.""",
 ['pybinding/shape.py', 'pybinding/support/fuzzy_set.py'],
 [('operators', 'pybinding/shape.py _CompositionMixin, CompositeShape'), ('displacement', 'pybinding/shape.py with_offset'), ('basic shapes', 'pybinding/shape.py rectangle, regular_polygon, circle, line')],
 ['contains() and vertices of the shape passed to the core'])

prop('C23', 'Slicing, cropping and storing Python structures keeps all data with its site',
 """(Python layer: pybinding/results.py Structure, StructureMap and SpatialMap, pybinding/system.py, support/structure.py, alias.py, fuzzy_set.py, pickle.py.) For every system and every selection (index list, slice, mask, name, limits of a crop), the selected structure has exactly
 the selected sites in order, with their own positions, sublattice ids and names and data; exactly the hoppings and boundary hoppings whose ends are both selected, with their own ids, energies and renumbered indices; selections of
 selections agree with a single one. Summing over orbitals gives every site the sum of its own orbitals. Names (also of aliases and split names) compare equal exactly where they should, in arrays of any shape. Fuzzy sets
 behave as sets up to the tolerance and never change their operands; the set of periodic images to draw has each image once. Whatever is saved, in any form of file argument, loads as an equal object.""",
 ['inputs', 'histories'], """all selections and pairs of selections on a set of small systems, all arrays and sets over small alphabets, all forms of storage.""",
 """Tests slice one system twice; a hopping attached to a wrong site after slicing is visible only for selections that reorder or drop particular sites.""",
 ['pybinding/results.py', 'pybinding/system.py', 'pybinding/support/structure.py', 'pybinding/support/alias.py', 'pybinding/support/fuzzy_set.py', 'pybinding/support/pickle.py'],
 [('slicing', 'pybinding/support/structure.py Sites, Hoppings, Boundary; pybinding/results.py Structure.__getitem__'), ('orbitals to sites', 'pybinding/system.py System.reduce_orbitals / expanded positions'),
  ('storage', 'pybinding/support/pickle.py')],
 ['attributes of the resulting objects', 'loaded objects'])

prop('C24', 'Python solvers, leads and kwant export follow from the current Hamiltonian',
 """(Python layer: pybinding/solver.py, leads.py, chebyshev.py, support/kwant.py, pybinding/model.py.) For every Hamiltonian, the Python solvers' eigenvalues (ascending) and eigenvectors solve it after any sequence of setting models, queries and clearing; density of states, local density of states, probabilities,
 band structures and degenerate levels equal their defining sums over that solution, for every position, sublattice, orbital count, broadening and energy; the bands of a lead are those of h0 + h1 exp(ik) + its adjoint; the kwant layer
 returns the same matrices with their orbital counts; the Python KPM reconstruction equals the defining sum. Parts given to a model, however nested, are added once each, in order.""",
 ['inputs', 'histories'], """all operation sequences up to a depth on a set of systems with several orbitals, and all combinations of request arguments on a grid.""",
 """Tests compare against stored results of one or two models; mixing up site and orbital indices, or keeping results of an old model, shows only for multi-orbital systems and particular sequences.""",
 ['pybinding/solver.py', 'pybinding/leads.py', 'pybinding/chebyshev.py', 'pybinding/support/kwant.py', 'pybinding/model.py'],
 [('solver', 'pybinding/solver.py Solver, _SolverPythonImpl'), ('lead bands', 'pybinding/leads.py Lead.calc_bands'), ('export', 'pybinding/support/kwant.py'), ('nesting', 'pybinding/model.py Model.add')],
 ['returned results'])

prop('C25', 'A Python sweep puts every result in its place for every order of completion',
 """(Python layer: pybinding/parallel.py and the result objects in pybinding/results.py.) For every number of jobs, every order in which the jobs are produced and completed, every list of swept variables (also of several dimensions) and every save interval, a sweep's data has the result
 of each combination of parameters at the index of that combination and nothing else; every partial save holds exactly the results that were complete, in place; reports count every job once. Sweep, NDSweep, Series, Eigenvalues, Bands and Path
 objects keep data and axes together through indexing, slicing, cropping, mirroring, interpolation at the given points, storing and text export; a path through k-points passes all of them in order, in equal steps of about the given size.""",
 ['schedules', 'inputs', 'histories'], """all orders of production and completion of up to 4 (thorough: 5) jobs, all sizes of result objects up to 4 by 4 and all index expressions on them.""",
 """Tests run a sweep once, where jobs end nearly in order; a result stored at the position of another job shows only when jobs complete out of order.""",
 ['pybinding/parallel.py', 'pybinding/results.py'],
 [('sweeps', 'pybinding/parallel.py sweep, ndsweep, parallel_for'), ('result objects', 'pybinding/results.py Sweep, NDSweep, Series, Eigenvalues, Bands, Path, make_path')],
 ['data passed to the result object, saved files, hooks'])

prop('C26', 'Drawings show every site, hopping, image and value exactly where it is',
 """(Python layer: pybinding/system.py plot_sites, plot_hoppings, plot_periodic_boundaries, plot_site_indices, plot_hopping_values; pybinding/results.py plot methods; pybinding/leads.py Lead.plot; support/collections.py; pltutils.py direct_cmap_norm.)
 For every structure, selection of sites, number of periods, choice and order of axes, flat or 3D view and offset, the circles drawn are exactly the sites of the structure and of each of its periodic images up to that number of periods, each with its own value, colour and radius
 (also after the circles are sorted by depth and when a 3D view is turned), and the lines drawn are exactly the hoppings inside of the images and the boundary hoppings between them, with their own ids and colours; filters (draw_only) and zero widths hide exactly what they name. The size
 of a site of a map follows its own value. Bands, sweeps and their slices, eigenvalues (with probability and degenerate levels), series and maps are drawn with every number at its own coordinate and every tick or label at its own point. Drawing changes neither the structure nor the arguments.""",
 ['inputs', 'histories'], """all combinations of arguments on a set of structures with zero to three periodic directions, all selections of two sites, up to 2 (thorough: 3) periods, pairs (thorough: triples) of successive views in 3D.""",
 """There are no tests of drawing. A wrong image, a radius of another site or a slice of another parameter looks plausible and shows only for particular periods, axes or orders.""",
 ['pybinding/system.py', 'pybinding/results.py', 'pybinding/leads.py', 'pybinding/support/collections.py', 'pybinding/pltutils.py'],
 [('sites and hoppings', 'pybinding/system.py plot_sites, plot_hoppings'), ('periodic images', 'pybinding/system.py plot_periodic_boundaries, _make_shift_set'), ('maps', 'pybinding/results.py StructureMap.plot, Structure.plot'),
  ('results', 'pybinding/results.py Bands.plot, Sweep.plot, Eigenvalues.plot'), ('3D', 'pybinding/support/collections.py Circle3DCollection')],
 ['collections and calls handed to matplotlib'])

prop('C27', 'Lattice geometry and the ready-made materials match their definitions',
 """(Python layer: pybinding/lattice.py and pybinding/repository.) For every set of primitive vectors, the reciprocal vectors have products of 2 pi or 0 with them and lie in their span; the Brillouin zone (1D, and 2D in the xy plane) is the cell of points nearer to the origin than to any other
 reciprocal lattice point, its corners in counterclockwise order, whichever primitive vectors describe the lattice; copies with another offset or minimum number of neighbours share nothing with the original. Every material of the repository has, for all its options, exactly the bonds
 between all pairs of sites at the distance of each family; its bands equal the published closed form and have its symmetry at every wave vector, and the different descriptions of one material have the same bands. The modifiers of the repository (mass, impurity, magnetic field, strain)
 give exactly the documented energies and displacements; a magnetic field gives every closed loop the flux through it, anywhere, and conjugates reversed hoppings. The armchair hexagon has armchair edges and sixfold symmetry for every size.""",
 ['inputs'], """all vectors of small integers, sheared, scaled and turned, all angles in steps of 4 degrees; all options of all materials on a grid of wave vectors; all widths up to 5 nm (thorough: 12.5 nm) in steps of 0.05 nm.""",
 """Tests compare the zone of two lattices and the bonds of a few materials with stored results; a wrong bond of a further neighbour, a skewed unit cell or a loop away from the origin is not seen.""",
 ['pybinding/lattice.py', 'pybinding/repository/graphene', 'pybinding/repository/group6_tmd.py', 'pybinding/repository/phosphorene.py', 'pybinding/repository/examples.py'],
 [('reciprocal space', 'pybinding/lattice.py reciprocal_vectors, brillouin_zone'), ('materials', 'pybinding/repository'), ('modifiers', 'pybinding/repository/graphene/modifiers.py'), ('shape', 'pybinding/repository/graphene/shape.py')],
 ['returned vectors, zones and lattices', 'results of modifiers'])

prop('C28', 'Pictures of lattices, zones, shapes, models and contacts show what they are',
 """(Python layer: the plot methods of Lattice, shapes, Path, Lead and Model.) For every lattice and view, the picture of a lattice shows each primitive vector which is not seen head-on as an arrow of its own length and direction with its own name, the visible sublattice at every place with its
 name, the sites and hoppings of the cell and its neighbours, and the index of every neighbouring cell joined by a hopping at the place of that cell. The picture of a Brillouin zone is its boundary with the reciprocal vectors and the coordinates of every corner (1D: the interval with its ticks).
 A polygon or line is drawn through its vertices (closed, in their order); the silhouette of any other shape covers exactly the points it contains, at their coordinates, at any resolution. The contact of a lead is drawn at its place with the arrow, name and shaded area along the signed
 lattice vector of the lead; the picture of a model is that of its structure and of each of its leads; a path is drawn point after point and the bands of a lead are those of the infinite lead. A model takes all of its parts, however nested, in their order.""",
 ['inputs'], """all combinations of a set of lattices in 1 to 3 dimensions, sites, sets of hoppings, views and positions; all pairs of small vectors; all orders of 3 to 5 vertices; shapes x resolutions x offsets; all contacts between 5 points; 0 to 3 leads; all orders of up to 4 parts.""",
 """There are no tests of drawing. A picture which is upside down or in the wrong plane, or a label on the opposite cell, looks plausible and shows only for shapes without symmetry, other views or other resolutions.""",
 ['pybinding/lattice.py', 'pybinding/shape.py', 'pybinding/leads.py', 'pybinding/model.py', 'pybinding/results.py'],
 [('lattices and zones', 'pybinding/lattice.py plot, plot_vectors, plot_brillouin_zone'), ('shapes', 'pybinding/shape.py plot methods, _plot_freeform_shape'), ('contacts', 'pybinding/leads.py plot_contact, plot_bands'), ('models', 'pybinding/model.py plot, add'),
  ('paths', 'pybinding/results.py Path.plot')],
 ['calls of the plotting library'])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        f.write(json.dumps(p) + '\n')
