AMG = "dune/istl/paamg/"
prop("C06", "The parallel multigrid hierarchy represents the global problem on every level",
     "On every level of a parallel algebraic multigrid hierarchy (overlapping decompositions) each unknown is owned by exactly one process and all processes that hold it know its owner; every fine unknown belongs to exactly one aggregate on which all its holders agree (or is left out everywhere); the owned rows of the coarse matrices together are exactly the Galerkin product of the finer level with that aggregation. Accumulating a level on fewer processes loses, duplicates or changes no unknown or entry, and values moved there return unchanged. All processes agree on the number of levels, recomputing the matrices after a change of values keeps all of this, and a requested fixed order makes the hierarchy reproducible.",
     ["schedules", "inputs", "configurations"], "any matrix graph, partition (also processes without unknowns), block size, strength norm, aggregate size, level and size limits, accumulation mode, isolated vertices, history of recalculations; " + ALLSCHED,
     "Tests build a hierarchy for one structured Laplace problem and look at convergence only, which survives wrong aggregates, lost couplings or inconsistent halo entries.",
     [AMG + "matrixhierarchy.hh", AMG + "parameters.hh", AMG + "hierarchy.hh", AMG + "aggregates.hh", AMG + "indicescoarsener.hh", AMG + "galerkin.hh", AMG + "globalaggregates.hh", AMG + "graph.hh", "dune/istl/repartition.hh", "dune/istl/matrixredistribute.hh"],
     [("aggregation and exchange of aggregate numbers", AMG + "matrixhierarchy.hh"), ("coarse index sets", AMG + "indicescoarsener.hh"), ("Galerkin product with overlap", AMG + "galerkin.hh"), ("accumulation of levels", "dune/istl/repartition.hh")],
     ["index sets, aggregates and matrices of all levels on all processes"])

prop("C07", "Every multigrid application is the textbook cycle on the global problem",
     "Applying a parallel algebraic multigrid preconditioner (overlapping decompositions) gives, on every process, exactly the configured cycle (V or W, additive, any number of smoothing steps, damping) executed on the global matrices of its levels, with a consistent result, an unchanged defect and the same answer when repeated. This holds for every way to construct it (from an operator, a configuration tree, or a hierarchy with a user supplied coarse solver), for copies, after a recalculation with new values, and wherever levels are accumulated. Solves with it, also with Krylov cycles, report convergence only if the true global residual is reduced as requested, and symmetric cycles converge fast.",
     ["schedules", "inputs", "configurations", "histories"], "any matrix graph, partition (also processes without unknowns), block size, smoother, number of levels, accumulation mode, cycle form, construction path, history of applications, copies and recalculations; " + ALLSCHED,
     "Tests solve one structured problem with one cycle and only look at whether it ran; a wrong correction merely changes the convergence rate.",
     [AMG + "amg.hh", AMG + "kamg.hh", AMG + "transfer.hh", AMG + "smoother.hh", AMG + "hierarchy.hh", AMG + "construction.hh", AMG + "parameters.hh", AMG + "pinfo.hh", "dune/istl/repartition.hh", "dune/istl/matrixredistribute.hh"],
     [("recursive and additive cycles with redistribution of levels", AMG + "amg.hh"), ("restriction and prolongation", AMG + "transfer.hh"), ("Krylov cycles", AMG + "kamg.hh"), ("set-up of hierarchy, smoothers and coarse solver", AMG + "amg.hh")],
     ["update vectors of every application on every process", "solutions and statistics of solves"])
prop("C20", "Every process learns of a failing coarse solver, and later cycles work again",
     "If the solver on the coarsest level of a parallel multigrid preconditioner does not converge on any subset of the processes, the application fails with an exception on all processes (none of them hangs or carries on), also with a single level, additive cycles, and levels held by few processes; and no failure is invented. After such a failure the same preconditioner, and copies of it, can be applied again with correct results.",
     ["fault_sequences", "schedules", "configurations"], "a failure at any application of the coarse solver on any subset of processes; " + ALLSCHED,
     "No test lets a coarse solver fail, and a failure on one process only needs a parallel run.",
     [AMG + "amg.hh", AMG + "fastamg.hh"], [("agreement on the coarse solver's convergence", AMG + "amg.hh")], ["exceptions and updates on every process"])

prop("C08", "Repartitioning loses, duplicates and changes no unknown or matrix entry",
     "Repartitioning a distributed matrix (overlapping decompositions), be it onto a requested number of parts or onto processes chosen by the caller, leaves every unknown owned by exactly one process (at most the requested number of them hold any, or exactly the chosen one), makes every owner know all neighbours of its unknowns, and gives index sets on which all exchanges work. The moved matrix has exactly the rows of the original global matrix at the owners, identity rows at the copies, and again so after values were changed and moved a second time; the source stays as it was. All processes learn correctly whether they take part.",
     ["schedules", "inputs", "configurations"], "any matrix graph, partition (also processes without unknowns), number of parts, chosen target, method, order of local indices; " + ALLSCHED,
     "The test moves one structured matrix once and prints it; a lost coupling or a wrongly placed row is not noticed, and messages are matched by arrival from any source.",
     ["dune/istl/repartition.hh", "dune/istl/matrixredistribute.hh", AMG + "graph.hh", OOC],
     [("domain assignment and exchange of vertices", "dune/istl/repartition.hh"), ("transport of sparsity patterns and rows", "dune/istl/matrixredistribute.hh")], ["new index sets and matrices on all processes"])
prop("C09", "Vectors moved to a new distribution and back keep their values",
     "For every repartitioning, moving a vector to the new distribution puts the value of each unknown's old owner at its new owner and changes nothing else, moving backwards does the reverse, and a round trip returns every owned value exactly. This holds for any entry type, repeatedly, in any order of forward and backward transports and matrix transports using the same redistribution, also for processes that hold nothing before or after.",
     ["schedules", "inputs", "histories"], "any distribution pair, any history of up to ten forward, backward and matrix transports; " + ALLSCHED,
     "The tests never move a vector backwards except inside multigrid, where a misplaced value only slows convergence.",
     ["dune/istl/matrixredistribute.hh", "dune/istl/repartition.hh"], [("interfaces between the old and the new distribution", "dune/istl/repartition.hh"), ("forward and backward communication", "dune/istl/matrixredistribute.hh")], ["vectors after every transport"])

MM = "dune/istl/matrixmarket.hh"
prop("C10", "What is stored in a Matrix Market file is what is read back",
     "Storing a matrix, a vector, or a distributed system with its index information and loading it again, with any number of processes and whatever each of them does in between, gives back exactly the stored entries (scalar and blocked, real and complex, integer values, zero rows or columns), the same distribution (indices, attributes, neighbours, on which all exchanges work), and leaves nothing of the target's former content. A file of the Matrix Market format gives the matrix or vector it describes whatever of the format's freedom it uses (general, symmetric, skew-symmetric, Hermitian, pattern; comments, blank lines, letter case and spacing of the banner, any order of entries, missing diagonals); files of another kind than the one asked for are rejected, never misread.",
     ["inputs", "configurations", "schedules"], "any matrix graph, entry type, block size, partition (also processes without unknowns), precision, file layout the format allows; " + ALLSCHED,
     "The tests write and read a single positive definite matrix with one layout, so an entry that is dropped, transposed, conjugated or put in the wrong block, or a neighbour that is not reconstructed, remains unseen.",
     [MM, OOC, "dune/istl/io.hh"], [("banner and entry parsing, symmetric completion", MM), ("one matrix file and one index file per process", MM)],
     ["loaded matrices, vectors and index sets on all processes"],
     note=None)
prop("C11", "Failing storage is reported, never mistaken for success",
     "If the disk is full, a write is refused or only partly carried out, a file cannot be opened, or the close fails at any point of storing a matrix or vector, the caller is told; when no error is reported, the complete file is on the disk. If a file is missing, unreadable, ends early (at any byte) or contains garbage, loading it throws or gives exactly what the intact file holds, in finite time and without touching memory out of bounds; afterwards the same objects can be loaded from the intact file. Interrupted and short transfers that are no errors change nothing.",
     ["fault_sequences", "inputs", "crash_points"], "any failing open, read, write or close call, any truncation point, any damaged byte, for every kind of file written or read",
     "No test lets a file operation fail or reads an incomplete file.",
     [MM, "dune/istl/io.hh"], [("stream states after writing and reading", MM), ("header and entry validation", MM)],
     ["exceptions, files on the simulated disk, loaded objects"])

BC = "dune/istl/bcrsmatrix.hh"
SEQC = [BC, "dune/istl/matrixindexset.hh", "dune/istl/matrix.hh", "dune/istl/bdmatrix.hh", "dune/istl/btdmatrix.hh", "dune/istl/bvector.hh", "dune/istl/basearray.hh", "dune/istl/vbvector.hh"]
prop("C14", "Matrices and vectors contain what was put in, through any history",
     "Through any history of building (in every build mode, in any order of entries, with too little, enough or too much reserved space), resizing, copying, moving, assigning, arithmetic and destroying, a sparse, dense, block diagonal or tridiagonal matrix and every vector has exactly the size, pattern and values that the history describes; products with vectors and norms follow from them; other objects, also copies, are never affected. Wrong use that is documented to be refused (indices that do not fit, a build step at the wrong time, too little room) is refused with an exception and changes nothing; objects abandoned half built can be destroyed and rebuilt. No operation reads or writes memory that is not its own.",
     ["histories", "inputs", "fault_sequences"], "any history of up to forty operations on four objects of each kind, all build modes, block types, sizes including zero, any refused operation at any point",
     "Tests build each kind of matrix in one way and order and use it once; reuse of objects in other stages, sharing of patterns between copies and exhausted space are not reached.",
     SEQC, [("build stages and modes, shared column indices", BC), ("window sizes of blocks", "dune/istl/vbvector.hh")], ["size, pattern, values of all objects after every operation"],
     state=["build stage, reserved space and overflow entries of each matrix"])
prop("C15", "Running out of memory damages nothing",
     "If any memory allocation fails at any point of building, resizing, copying, assigning or combining matrices and vectors, the caller gets std::bad_alloc; nothing is leaked, freed twice or written out of bounds, no other object changes, and the object that was being modified can be destroyed and assigned or built anew with correct results. Without a failing allocation the result is not affected by where memory happens to come from.",
     ["fault_sequences", "histories", "inputs"], "failure of any single allocation, of every allocation from some point on, or of any of several ones, at any operation of any history",
     "No test lets an allocation fail.",
     SEQC, [("allocation of rows, blocks and indices", BC), ("allocation of blocks", "dune/istl/vbvector.hh")], ["exceptions, live memory blocks, contents of all objects afterwards"])

DS = ["dune/istl/umfpack.hh", "dune/istl/ldl.hh", "dune/istl/spqr.hh", "dune/istl/superlu.hh", "dune/istl/cholmod.hh", "dune/istl/bccsmatrix.hh", "dune/istl/bccsmatrixinitializer.hh", "dune/istl/superlumatrix.hh"]
prop("C16", "A direct solver reports convergence only if it solved the current system",
     "Through any history of constructing, setting matrices (whole, a subset of rows, excluded unknowns), replacing and releasing them, storing and loading decompositions, and solving, each direct solver (UMFPack, LDL, SPQR, Cholmod, SuperLU; real and complex, scalar and block entries) reports convergence only when the returned vector solves the system with the matrix set last (in the least squares sense where it offers that), and solves every well conditioned system. A singular matrix, vectors of the wrong size, no matrix, an unreadable file or a failing allocation is reported by an exception or by converged = false; afterwards the solver can be given another matrix, and nothing is leaked or freed twice.",
     ["histories", "fault_sequences", "inputs"], "any history of up to 14 operations; regular, singular and zero matrices, zero sizes, any subset; failure of any allocation, of any file operation, truncation of the stored file anywhere",
     "The tests solve one regular system per solver; replaced and singular matrices, failed decompositions and reloads are not tried.",
     DS, [("status of the decomposition and of the solve", "dune/istl/umfpack.hh"), ("matrix in compressed column storage", "dune/istl/bccsmatrixinitializer.hh")], ["solution against an independent elimination, residual, InverseOperatorResult, exceptions, live memory blocks, files"])

prop("C17", "Threads that use their own copies and solvers do not influence each other",
     "Threads may at the same time read the same constant matrices, vectors, operators and scalar products, and each create, copy, use and destroy its own preconditioners, Krylov solvers, direct solvers, AMG, FastAMG, KAMG and TwoLevelMethod objects (also copies of one shared prototype that is fresh, prepared or used), matrices, products and solvers from the solver factory. Under every interleaving each of them gets, bit by bit, the result it gets when it works alone, no two threads access the same memory without an order unless both read, and nothing handed over is kept alive beyond its use.",
     ["schedules", "histories"], "two to five threads, one to four jobs each out of 18 kinds, preempted at any memory access",
     "The tests start threads on copies of AMG once, without controlling where they are preempted, and compare with a tolerance or not at all.",
     [AMG + "amg.hh", "dune/istl/paamg/fastamg.hh", "dune/istl/paamg/kamg.hh", "dune/istl/paamg/twolevelmethod.hh", "dune/istl/solverfactory.hh", "dune/istl/overlappingschwarz.hh", "dune/istl/bcrsmatrix.hh", "dune/istl/preconditioners.hh"],
     [("copies of the methods", AMG + "amg.hh"), ("copies of smoothers and coarse solvers", "dune/istl/paamg/twolevelmethod.hh"), ("registration of preconditioners", "dune/istl/solverfactory.hh")], ["results of every job, memory accesses of all threads with their order"])

prop("C18", "A method that runs out of memory fails cleanly and works again afterwards",
     "If any memory allocation fails while a preconditioner, multigrid method (AMG, FastAMG, KAMG, TwoLevelMethod with any smoother), Krylov solver, factory-made solver, matrix product or index set is constructed, copied, used, given new matrix values or destroyed, the call throws or reports that it did not converge; nothing is leaked, released twice or accessed outside its bounds, matrices, right hand sides' owners and other objects keep their values, and every call that succeeds, also on an object whose earlier call failed, gives bit by bit the result of a fresh object that was never disturbed.",
     ["fault_sequences", "histories", "inputs"], "failure of any single allocation or of all from some point on, in any operation of histories of up to ten operations on up to two objects; matrices with up to 30 blocks, isolated rows, all coarsening depths",
     "No test lets an allocation fail, and none uses an object again after an exception.",
     [AMG + "amg.hh", AMG + "matrixhierarchy.hh", AMG + "graphcreator.hh", AMG + "galerkin.hh", AMG + "aggregates.hh", AMG + "fastamg.hh", AMG + "kamg.hh", AMG + "twolevelmethod.hh", AMG + "smoother.hh", "dune/istl/overlappingschwarz.hh", "dune/istl/ilusubdomainsolver.hh", "dune/istl/preconditioners.hh", "dune/istl/ilu.hh", "dune/istl/ildl.hh", "dune/istl/solvers.hh", "dune/istl/solverfactory.hh", "dune/istl/matrixmatrix.hh", "dune/istl/matrixindexset.hh"],
     [("set-up of the hierarchy", AMG + "matrixhierarchy.hh"), ("coarse solvers that fail", AMG + "amg.hh"), ("subdomain solvers and their assemblers", "dune/istl/overlappingschwarz.hh")], ["exceptions, convergence flags, results, matrix entries and live memory blocks after every operation"])

prop("C19", "Parallel objects release everything they acquired, however they are left",
     "When communication objects, distributed operators, preconditioners and solvers, parallel AMG and KAMG objects and their copies, repartitioned index sets, moved matrices, loaded files and factory-made solvers are destroyed, every memory block, communicator, datatype and request they acquired on any process is released and no message is left undelivered; nothing is released twice or used after its release. This holds in every order of construction and destruction, with any number of processes (also some that hold nothing), and also if they are left by an exception (breakdown of a solver, an exception of a user's preconditioner, a refused configuration, an unreadable file), and a second round gives the same result as the first.",
     ["histories", "schedules", "inputs", "configurations"], "one to six processes, one to three activities of nine kinds in two rounds; any decomposition, coarsening and accumulation mode; exceptions at any application of the preconditioner",
     "Tests end right after one use and nobody counts what is left.",
     ["dune/istl/owneroverlapcopy.hh", "dune/istl/repartition.hh", "dune/istl/matrixredistribute.hh", AMG + "matrixhierarchy.hh", AMG + "hierarchy.hh", AMG + "amg.hh", AMG + "kamg.hh", AMG + "pinfo.hh", AMG + "indicescoarsener.hh", AMG + "globalaggregates.hh", "dune/istl/matrixmarket.hh", "dune/istl/solverfactory.hh"],
     [("gathering the graph on one process", "dune/istl/repartition.hh"), ("interfaces between distributions", "dune/istl/matrixredistribute.hh"), ("aggregates and redistributed levels", AMG + "matrixhierarchy.hh")], ["live heap blocks, communicators, datatypes and requests of every process, undelivered messages, results of exact operations"])

# Pure functions of their arguments: nothing a simulator could decide about them
NOSEAM = "A pure function of its arguments: no schedule, clock, I/O, randomness, fault or second party for a simulator to decide, so the family does not apply; a search over inputs alone would be another technique. "
def pure(id, title, statement, text, files, reason):
    prop(id, title, statement, ["inputs"], text, "Tests compare a handful of small matrices.", files, [("computation on one object", files[0])], ["returned values"], None, NOSEAM + reason)
pure("C21", "Sequential smoothers and factorisations compute their textbook formulas",
     "One step of Richardson, Jacobi, Gauss-Seidel, SOR, SSOR, ILU, ILDL and DILU on one process equals the documented formula for every matrix, block size and relaxation factor, and an incomplete factorisation reproduces the matrix on its pattern.",
     "any matrix, block size, relaxation factor", ["dune/istl/preconditioners.hh", "dune/istl/ilu.hh", "dune/istl/ildl.hh", "dune/istl/dilu.hh", "dune/istl/gsetc.hh"],
     "Their use in parallel methods (C04, C07), after faults (C13, C18) and within solves (C05, C12) is covered there.")
pure("C22", "Sparse matrix products are the products of the matrices",
     "The product, transposed product and product with a transposed matrix of any two compatible sparse matrices hold exactly the mathematical product, with a pattern containing every structurally nonzero entry.",
     "any two compatible patterns and values", ["dune/istl/matrixmatrix.hh"], "Failing allocations inside the products are covered by C18.")
pure("C23", "Eigenvalue estimates bound or approximate the true spectrum",
     "Power iteration, inverse and shifted iterations and the Arnoldi interface return eigenpairs whose residual is below the requested tolerance or report that they did not converge.",
     "any symmetric matrix, shift, tolerance", ["dune/istl/eigenvalue/poweriteration.hh", "dune/istl/eigenvalue/arpackpp.hh"], "ARPACK++ is not installed here, so half of it does not even compile.")
pure("C24", "Nested and statically sized containers act as the flat matrix they represent",
     "Multi type block matrices and vectors, scaled identities and arbitrarily nested blocks give, for every product, norm and flat traversal, the result of the flat scalar matrix or vector with the same entries.",
     "any nesting and sizes", ["dune/istl/multitypeblockmatrix.hh", "dune/istl/multitypeblockvector.hh", "dune/istl/foreach.hh", "dune/istl/scaledidmatrix.hh"], "Histories of the dynamic containers are covered by C14 and C15.")
pure("C25", "Printed and drawn matrices show exactly the stored entries",
     "Matlab, SVG and text output of a matrix or vector to a working stream lists every stored entry at its position with the requested precision and leaves the formatting state of the stream as it was.",
     "any matrix, options, precision", ["dune/istl/io.hh"], "Output to failing files is covered by C11.")
