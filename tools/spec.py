#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: writes both. Every property with an entry in checks.CHECKS is claimed."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks import CHECKS
P = []
def prop(id, title, statement, over, text, why, files, mech, obs=None, note=None, na=None, state=None):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=files, state=state or [], mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=obs or [], hook_needed=None)), note, na))
OOC = "dune/istl/owneroverlapcopy.hh"
ALLSCHED = "all interleavings of the ranks, message delays, eager/rendezvous modes and completion orders the message passing standard permits"

prop("C01", "Vector exchange between processes follows the ownership attributes",
     "After an owner-to-all (or copy-to-copy) exchange every entry with a receiving attribute on any rank holds exactly the value of its owner (or the last matching copy), all other entries are untouched and the source is unchanged; after an additive exchange every participating entry is exactly its own value plus each participating remote value once. This holds for every index set distribution, attribute assignment, block type, process count and repetition of exchanges on the same communication object, also after its index set was changed, in place or between two vectors, and never depends on message timing.",
     ["schedules", "inputs", "histories"], "any distribution of indices over 1..n ranks (also ranks without entries or neighbours, shuffled local numbering, entries outside the index set), any history of exchanges and changes of the index set; " + ALLSCHED,
     "The tests exchange on one fixed striped distribution under whatever message order the host happens to produce; wrong pairing of overlapping exchanges, stale interfaces or order dependence need other schedules and histories.",
     [OOC, "dune/istl/owneroverlapcopy.hh"], [("interfaces built from remote indices, cached per communication object", OOC), ("gather/scatter policies for copy and add", OOC)],
     ["values of the vectors on every rank after each exchange"])
prop("C02", "Distributed dot products and norms count every unknown exactly once",
     "The distributed scalar product and norm of any vectors equal, on every rank, the sequential scalar product and norm of the corresponding global vectors, counting each globally owned unknown exactly once whatever its copies contain, and projecting a vector keeps exactly its owned entries. The value is the same on all ranks, conjugates the first argument for complex numbers, and does not change with repeated use, changes of the index set or vector length, index sets not covering all entries, or message timing.",
     ["schedules", "inputs", "histories"], "any distribution and vector contents (also non finite garbage in copies), any history of dots with vectors of different lengths; " + ALLSCHED,
     "Tests use one distribution with real numbers and one vector length per communication object.",
     [OOC, "dune/istl/scalarproducts.hh", "dune/istl/novlpschwarz.hh"], [("mask of owned entries", OOC), ("global sum reduction", OOC), ("scalar product classes per solver category", "dune/istl/scalarproducts.hh")],
     ["return values on all ranks"])
prop("C03", "Distributed operators act as the global matrix",
     "Applying (or scaled-adding) an overlapping or nonoverlapping distributed operator to a consistent vector gives, at every entry that the decomposition makes meaningful, exactly the corresponding entry of the global matrix applied to the global vector, and a consistent result on all ranks holding it. The arguments that are inputs stay unchanged, and the result is independent of the decomposition, the number of ranks and message timing.",
     ["schedules", "inputs", "configurations"], "any matrix graph, partition (also empty ranks), halo width, local numbering, block size; " + ALLSCHED,
     "Tests only drive operators inside solves on one structured grid, where an error shows up as slower convergence at most.",
     ["dune/istl/schwarz.hh", "dune/istl/novlpschwarz.hh", OOC], [("local product followed by projection or additive exchange", "dune/istl/schwarz.hh"), ("exclusion of couplings already handled by another rank", "dune/istl/novlpschwarz.hh")],
     ["result vectors of every apply"])
prop("C04", "Parallel preconditioners are the local one followed by the exchange",
     "Every application of a parallel preconditioner yields, on every rank, the result of the sequential preconditioner on the local matrix followed by the exchange documented for the decomposition (owner value copied to all holders for overlapping ones, additive for nonoverlapping ones), leaves the defect unchanged, and reports the category of the decomposition. Preparation makes the start vector consistent in the overlapping case, and neither repeated use nor message timing changes any of this.",
     ["schedules", "inputs", "histories"], "any decomposition, wrapped smoother, number of smoothing steps, relaxation, history of applications; " + ALLSCHED,
     "Tests only look at convergence of a solver, which hides inconsistent or unsymmetric updates.",
     ["dune/istl/schwarz.hh", "dune/istl/novlpschwarz.hh", "dune/istl/preconditioners.hh"], [("block preconditioners wrap a sequential one and exchange afterwards", "dune/istl/schwarz.hh"), ("nonoverlapping block preconditioner", "dune/istl/novlpschwarz.hh")],
     ["update vectors after each application"])
prop("C05", "A distributed solve that reports convergence solved the global system",
     "When an iterative solver reports convergence, the defect of the returned solution with respect to the global system is reduced by the requested factor (the one passed to the call, if any, otherwise the configured one), the solution is consistent on all ranks, and all ranks agree on converged flag, iteration count and reduction, which describe the actual solve. It never exceeds the iteration limit, does not stop early without convergence or miss convergence it has reached, needs no more than a bounded number of iterations on symmetric positive definite systems where theory guarantees this, and always terminates. Multiplying the system by a power of two changes none of this. Several right hand sides solved at once (SIMD numbers) are solved independently: each meets the requested reduction, also when others are solved already or converge earlier, and their order does not matter. A solver or preconditioner that the factories make from a configuration behaves exactly as the one built by hand, and is refused on all ranks if it cannot be made.",
     ["schedules", "inputs", "configurations"], "every solver, preconditioner, decomposition, start vector (also the exact solution or zero right hand side), restart length, iteration limit, reduction, verbosity, units of the matrix, 1..n ranks, one or several right hand sides; built by hand, from a configuration, or by the factories; " + ALLSCHED,
     "Tests run a few solvers on one Laplace problem and mostly check only that they ran; agreement between ranks and the true global residual are not examined.",
     ["dune/istl/solver.hh", "dune/istl/solvers.hh", "dune/istl/schwarz.hh", "dune/istl/novlpschwarz.hh", "dune/istl/scalarproducts.hh", "dune/istl/solverfactory.hh"],
     [("iteration bookkeeping and convergence test", "dune/istl/solver.hh"), ("Krylov iterations", "dune/istl/solvers.hh")], ["solution vectors", "solver statistics on each rank"])
prop("C12", "A disturbed solve is never reported as converged",
     "If a value produced by the operator, preconditioner or scalar product becomes non-finite on any rank at any point of a solve, or one of them throws, the solver either ends with an exception or a not-converged result, or the returned vector really satisfies the requested reduction. All ranks observe the same outcome, a result left behind by an exception is not marked converged, and no such solve hangs.",
     ["fault_sequences", "schedules", "inputs"], "a non-finite value, exception or abort at any call of any ingredient on any rank, for every solver; " + ALLSCHED,
     "No test injects faults into a solve.",
     ["dune/istl/solver.hh", "dune/istl/solvers.hh"], [("finiteness check of the defect norm", "dune/istl/solver.hh"), ("breakdown checks", "dune/istl/solvers.hh")], ["outcome and statistics on each rank"])
prop("C13", "Solvers and preconditioners stay usable after a failed solve",
     "After any history of successful, aborted, non-converged or disturbed solves on the same objects, a further solve gives exactly the same result as the same solve with freshly built objects. In particular configured reductions, iteration limits, search spaces, and cached data of earlier solves never leak into later ones.",
     ["histories", "fault_sequences", "schedules"], "any sequence of up to 5 solves with different reductions and faults at any call, followed by an undisturbed solve; " + ALLSCHED,
     "Tests use a solver object once, and never after a failure.",
     ["dune/istl/solver.hh", "dune/istl/solvers.hh", OOC], [("per-solve state kept in members of the solver", "dune/istl/solvers.hh"), ("temporary override of the configured reduction", "dune/istl/solver.hh")], ["results compared with freshly built objects"])
exec(open(os.path.join(HERE, "tools", "spec_more.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "spec_more.py")) else None

LEVEL = "Randomised exploration: every simulated execution is repeatable from its seed and every violation is re-executed from its replay file, but a clean batch is evidence for the sampled data, schedules and faults, not a proof. "
NOTE = "Trusts the simulated message passing layer, the reference model in the workload and the compilers; real dune-istl code runs unmodified."
def main():
    ids = [p[0]["id"] for p in P]
    assert len(set(ids)) == len(ids)
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p, _, _ in sorted(P, key=lambda x: x[0]["id"]):
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p, note, reason in sorted(P, key=lambda x: x[0]["id"]):
        i = p["id"]
        if i in CHECKS:
            c = CHECKS[i]
            checks.append(dict(property=i, quick_cmd="python3 run.py check " + i, thorough_cmd="VERIF_TIER=thorough python3 run.py check " + i, evidence_file="evidence/%s.json" % i,
                               technique="deterministic simulation with fault injection: " + c.get("technique", "seeded search over schedules and data, reference model as oracle"),
                               level="exploration", level_note=LEVEL + (note or NOTE)))
        else:
            na.append(dict(property=i, reason=reason or "no check yet"))
    m = dict(version=1, setup_cmd="python3 run.py build", checks=checks, not_applicable=na,
             notes="No hooks in /repo: the library is header only and templated over its communication, allocator and stream arguments; the simulator provides MPI, threads, clock, allocation and file I/O below it. fix: commits in /repo are recorded in known_findings.txt.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
    missing = [i for i in CHECKS if i not in ids]
    assert not missing, missing
main()
