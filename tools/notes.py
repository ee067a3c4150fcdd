SCHED = 'stateless schedule exploration of the real code (controlled scheduler, preemption-bounded DFS with happens-before caching, vector-clock race detection)'
ENUM = 'bounded-exhaustive execution of the real code (every input or operation sequence within stated bounds) compared against an explicit reference model at every step'
PENUM = 'bounded-exhaustive execution of the real Python code (every input, operation sequence or completion order within stated bounds) compared against an explicit reference model'
STUB = 'pybind11, matplotlib and kwant are not installed: the compiled module is a stand-in with the same conversions and layouts (the core itself is checked by C01-C20).'
NOTES = {
 'C14': (SCHED, 'model_checking', '''Every interleaving of the real parallel_for within the stated preemption bounds (unbounded for the smallest
   configurations) for up to 4 jobs, 3 compute threads, queue sizes 0-3, plus three fixed schedules of bigger configurations. Assumes sequential consistency between
   synchronization operations; violations of that (data races) are detected in every explored execution.'''),
 'C15': (SCHED, 'model_checking', '''Every interleaving of small producer/consumer and thread pool programs on the real queue and pool within the
   stated preemption bounds (unbounded for the smallest), including spurious wakeups and every choice of the woken waiter. Same assumptions as C14.'''),
 'C01': (ENUM, 'model_checking', '''Every lattice definition within the bounds (dimension, sublattices, orbitals, aliases, hopping subsets, order of definition, energies)
   is built by the real code and compared element by element with an independent construction from the definition.'''),
 'C02': (ENUM, 'model_checking', '''Every hopping subset within bounds, symmetry direction set, period, foundation kind and a set of wave vectors that determines all the
   phases; compared with an independent Bloch sum. Also sequences of wave vector changes.'''),
 'C03': (ENUM, 'model_checking', '''Every combination of named lattices, offsets, neighbour minimums and a grid of shapes, compared with an independent carving. Shapes are a
   finite grid; sites within 1e-3 of an edge make a case ambiguous and it is skipped.'''),
 'C04': (ENUM, 'model_checking', '''Every sequence of structure operations up to a length on a set of base structures (mixed orbital counts, aliases,
   periodic, carved); in every resulting system every site, sublattice, name and a grid of query positions is compared with a direct scan.'''),
 'C05': (ENUM, 'model_checking', '''Every sequence of operations (add any parameter, rejected parameters, wave vectors, clears, queries) up to a depth from every
   subset-of-parameters start state; after every query the results are compared with those of a model built afresh, and all earlier results are checked to be unchanged.'''),
 'C07': (ENUM, 'model_checking', '''Every sequence (up to a length) of onsite and hopping modifiers of several kinds on a set of finite, periodic and generated systems in all element types,
   and hopping counts around the internal buffer size; the arguments of every call and every element of the result are compared with an independent evaluation.'''),
 'C08': (ENUM, 'model_checking', '''Every lead and every pair of leads of a grid of directions, positions and widths on named lattices and shapes, with modifiers and structure changes;
   cross-section, attachment indices, filled sites, h0 and h1 are compared with the lattice definition. Hoppings which reach further than one unit cell along the lead are outside of h1 by design.'''),
 'C06': (ENUM, 'model_checking', '''Every sequence (up to a length) of modifiers and generators, with every subset of sites removed, is run on the real code and on a list of
   labelled sites and bonds; sites, bonds, Hamiltonian and the arguments seen by the callbacks are compared.'''),
 'C09': (ENUM, 'model_checking', '''Every sequence of definition calls up to a depth over an alphabet of valid and invalid steps, from several
   start definitions; after every call the outcome (accepted or which kind of error) and all getters, the registries and the optimized cell are compared with a plain list of what was accepted.'''),
 'C10': (ENUM, 'model_checking', '''Every sequence of solve, query, clear, set-model (valid and failing) and failing-solve operations up to a depth over several models
   (real, complex, both precisions) with an exact dense strategy; results are compared with those of the current model, and the number of solves is counted. The formulas are compared on a grid of
   given spectra. The FEAST and LAPACK strategies and the Python wrapper are not built here.'''),
 'C11': (ENUM, 'model_checking', '''Every labelled graph of up to 4 (thorough: 5) vertices and families of bigger ones as the Hamiltonian, four element types,
   all 8 combinations of format, reordering/slicing and interleaving, vectorized and generic code; all index pairs and lists, moment counts and kernels are compared with a dense Chebyshev recursion in
   double precision. The vectorized code runs on a shim of libsimdpp (not installed) with the register sizes of SSE2; AVX sizes and the CUDA backend are not covered.'''),
 'C12': (ENUM, 'model_checking', '''Every sequence of calculations, queries, rejected requests and changes of the Hamiltonian (model) up to a depth of 3 to 4 over 4 Hamiltonians
   and 5 models, in all optimization settings, with automatic and given bounds; every result is compared with that of a new object, and results for several indices with separate requests.'''),
 'C13': (SCHED, 'model_checking', '''Every interleaving of the worker threads of the real stochastic density of states and batched local density of states (both through the public Core
   interface) within the stated preemption bounds, for up to 9 vectors and 3 threads in all element types and optimization settings, plus three fixed schedules of bigger configurations; results against a dense
   recursion over the fixed vectors, progress reports, data races and termination are checked in every execution. Same assumptions as C14.'''),
 'C16': (ENUM, 'model_checking', '''Every sparsity pattern of small matrices (and families around the alignment sizes), element type, row range, batch width and
   alignment runs through the real conversions, products, slices, concatenations and array views between guard zones with AddressSanitizer, and is compared with dense loops. The vectorized
   code runs on a shim of libsimdpp with SSE2 register sizes.'''),
 'C17': (ENUM, 'model_checking', '''Every simple polygon (every vertex order, orientation, collinear vertices) of up to 6 (thorough: 9) vertices on small grids, in several units and with
   vertices moved by a few ulp, against exact integer winding numbers; every line on a 3D grid against exact projections; boxes and functions; every line and thick shape as a lead contact of small blocks.
   Points on the boundary of a polygon are not judged.'''),
 'C18': (ENUM, 'model_checking', '''Seven models (one site, real, complex with several orbitals, periodic, without hoppings, with an empty sublattice, double precision) in all settings, with every
   combination of arguments around their limits for every kind of request: accepted exactly if in range, results finite, of the right shape and belonging to the right sites, and the object gives the same results afterwards.
   Energies outside of the bounds and temperatures which are not positive are not judged.'''),
 'C19': (ENUM, 'model_checking', '''Every labelled graph of up to 5 (thorough: 6) vertices and families of up to 200 (thorough: 700), in every element type, with offsets, units,
   Laplacians and impurities: real Lanczos bounds and scales against a dense solver; every small tridiagonal matrix of an alphabet; every moment count up to 1500 (thorough: 4000) for all kernels against
   the defining formulas, and broadenings around each. Single precision spectra with an offset of many widths are not judged.''') ,
 'C20': (ENUM, 'model_checking', '''The systems of C04, sent through the getters and constructors which the Python pickling code uses (twice); also every truncation
   of the stored arrays. The pickle byte stream itself and the Python wrapper are not covered.'''),
 'C21': (PENUM, 'model_checking', '''Every subset and order of requested arguments of every kind of modifier and generator, orbital shape, number of sites, element type and way of returning the result, every refused form and
   call signature; received arguments and passed-on memory are compared with the definition. ''' + STUB),
 'C22': (PENUM, 'model_checking', '''Every expression tree of up to three basic shapes with every operation and offsets at any node, against exact point membership on a grid that avoids all sides, and support functions
   for the vertices. ''' + STUB),
 'C23': (PENUM, 'model_checking', '''Every selection and pair of selections on small systems, crop limits, orbital counts, arrays of names, sets with a tolerance, stored forms; compared with plain lists. ''' + STUB),
 'C24': (PENUM, 'model_checking', '''Every sequence of solver operations up to a depth, and every combination of requests on given systems and Hamiltonians, compared with dense linear algebra and loops. ''' + STUB),
 'C25': (PENUM, 'model_checking', '''Every order of production and completion of the jobs of every sweep within the bounds, with every save interval; every index, slice, crop and mirror of result objects; all paths through
   lists of k-points. The loop that runs the jobs is replaced by one that plays every order it allows (C14 checks the real loop). ''' + STUB),
 'C26': (PENUM, 'model_checking', '''Every combination of structure, selection, number of periods, axes, 2D or 3D, offset, hidden or filtered parts and colours within the bounds, all small result objects; the collections and calls handed to
   the plotting library are compared with those of a plain list of sites, bonds and images. matplotlib is replaced by a recorder. ''' + STUB),
 'C27': (PENUM, 'model_checking', '''All lattices of small integer vectors (and sheared, scaled, turned ones), against half-plane clipping; every ready-made material and modifier over all options and a grid of wave vectors and places, against
   brute-force neighbour search and published closed forms. ''' + STUB),
 'C28': (PENUM, 'model_checking', '''Every combination of lattice, sites, hoppings, view and position of the vectors, of shape, resolution and offset, of contact, direction and size within the bounds; the calls handed to the plotting library are compared with
   plain geometry. matplotlib is replaced by a recorder. ''' + STUB),
}
NOT_APPLICABLE = {}
