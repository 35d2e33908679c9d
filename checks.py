"""Which workloads decide which property, and how long they search."""
REAL = ["dune-istl (all headers of /repo used by the workload, unmodified)", "dune-common parallel index sets, communicators and variable size exchange"]
MPI = ["MPI: simulated in process (point to point, collectives, requests, packing, communicators); message order, delay, eager/rendezvous, completion order and rank scheduling decided by the seed"]
CLK = ["clock_gettime/gettimeofday/time/clock/rand: simulated"]
LIBS = {
    "comm": {}, "ops": {}, "solve": {}, "factory": {}, "hier": {}, "amg": {"maxsteps": 12000000, "runtimeout": 120}, "amgsolve": {}, "multi": {}, "redist": {}, "files": {}, "matrix": {}, "containers": {}, "direct": {}, "setup": {}, "life": {}, "threads": {"flags": ["-fsanitize=thread"]},
}
def par(libs, **kw):
    d = dict(libs=libs, real=REAL, stub=MPI + CLK, assumptions=["the simulated MPI implements the semantics of the MPI standard for the calls used", "matrix and vector values are small integers where exact equality is demanded"])
    d.update(kw); return d
MEM = ["malloc/operator new: simulated heap with guarded blocks, freed memory is poisoned, any allocation can be made to fail"]
def seq(libs, **kw):
    d = dict(libs=libs, real=REAL[:1], stub=MEM + CLK, assumptions=["values are small integers so that all results are exact"])
    d.update(kw); return d
CHECKS = {
    "C01": par([("comm", 1, ["exchange", "interleaved"])]),
    "C02": par([("comm", 1, ["dots"])]),
    "C03": par([("ops", 1, ["overlapping_op", "nonoverlapping_op"])]),
    "C04": par([("ops", 1, ["preconditioners"])]),
    "C05": par([("solve", 3, ["par_solve"]), ("factory", 1, ["factory_solve"]), ("multi", 1, ["multi_solve"])]),
    "C06": par([("hier", 1, ["hierarchy"])]),
    "C07": par([("amg", 2, ["cycle"]), ("amgsolve", 1, ["amg_solve"])]),
    "C08": par([("redist", 1, ["repartition"])]),
    "C09": par([("redist", 1, ["transport"])]),
    "C10": par([("files", 1, ["mm_parallel", "mm_text"])]),
    "C11": par([("files", 1, ["io_store_faults", "io_load_faults"])]),
    "C12": par([("solve", 1, ["faulty_solve"])]),
    "C13": par([("solve", 1, ["solve_history"])]),
    "C14": seq([("matrix", 1, ["matrix_history"]), ("containers", 1, ["container_history"])]),
    "C15": seq([("matrix", 1, ["matrix_memory"]), ("containers", 1, ["container_memory"])]),
    "C16": seq([("direct", 1, ["direct_history", "direct_memory"])], real=REAL[:1] + ["UMFPack, LDL, SPQR, Cholmod, SuperLU libraries (linked in; their allocations and file accesses go to the simulator)"],
               stub=MEM + CLK + ["files below /simfs: in memory"], assumptions=["SuperLU itself exits when malloc fails and crashes on structurally singular matrices: its own allocations never fail and matrices have their diagonal in the pattern", "LDL and Cholmod do not pivot: for matrices that are not diagonally dominant only exact zero pivots are judged"]),
    "C17": seq([("threads", 1, ["threads"])], stub=["thread scheduling: one thread runs at a time, the seed decides at any instrumented memory access or lock operation who continues"] + CLK,
               assumptions=["uninstrumented code (UMFPack, SuperLU, LDL, SPQR, Cholmod, libstdc++ streams, allocator) runs atomically; its calls are ordered only by the locks they take", "sequentially consistent memory; weaker orders appear only as reported data races"]),
    "C18": seq([("setup", 1, ["setup_memory"])], real=REAL[:1] + ["UMFPack library (linked in; its allocations go to the simulator)"],
               assumptions=["one process: in a parallel set-up a process that runs out of memory leaves the others waiting, which is inherent to collective calls"]),
    "C19": par([("life", 1, ["life"])], stub=MPI + CLK + MEM + ["files below /simfs: in memory"]),
    "C20": par([("amg", 1, ["coarse_failure"])]),
}
