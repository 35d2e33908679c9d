// C05: solvers and preconditioners configured by text, made by the factories for distributed operators
#include "system.hh"
#include <dune/istl/paamg/amg.hh>
#include <dune/istl/umfpack.hh>
#include <dune/istl/solverfactory.hh>
using namespace wl;

static const char* solverType(int k) { static const char* n[] = {"loopsolver", "gradientsolver", "cgsolver", "bicgstabsolver", "minressolver", "restartedgmressolver", "restartedflexiblegmressolver", "generalizedpcgsolver", "restartedfcgsolver", "completefcgsolver", "umfpack", "nosuchsolver"}; return n[k]; }
enum { JAC, SSOR, ILU, RICHARDSON, SOR, GS, DILU, ILDL, PAMG, PASSED, NOPREC };
static const char* precType(int k) { static const char* n[] = {"jac", "ssor", "ilu", "richardson", "sor", "gs", "dilu", "ildl", "amg", "jac", "nosuchpreconditioner"}; return n[k]; }
template <class Pr> struct Counting : Dune::Preconditioner<typename Pr::domain_type, typename Pr::range_type> { // a preconditioner the caller passes
  std::shared_ptr<Pr> o; int calls = 0; Counting(std::shared_ptr<Pr> o_) : o(o_) {}
  void pre(typename Pr::domain_type& x, typename Pr::range_type& d) override { o->pre(x, d); } void apply(typename Pr::domain_type& v, const typename Pr::range_type& d) override { ++calls; o->apply(v, d); } void post(typename Pr::domain_type& x) override { o->post(x); }
  Dune::SolverCategory::Category category() const override { return o->category(); }
};
template <class B, class F, class Op> void factorySolve(System<B, F>& S, std::shared_ptr<Op> op, Rng& g) {
  typedef System<B, F> T; typedef typename T::V V; Runner<B, F> R(S, g); Dune::initSolverFactories<Op>();
  int k = P("fsolver", 0, NSOLVERS + 1), pk = P("fprec", 0, NOPREC); if (pk == PAMG && S.nonov) pk = ILU;
  int restartKind = P("restart", 0, 2), restart = restartKind == 0 ? 2 : restartKind == 1 ? 5 : S.N * T::b + 5, maxit = P("maxit", 1, 60), it = P("fiters", 1, 2); double w = 0.6 + 0.2 * P("frelax", 0, 2), red = std::pow(10.0, -P("red", 1, 8));
  char b[40]; Dune::ParameterTree t; t["type"] = solverType(k); snprintf(b, sizeof b, "%.17g", red); t["reduction"] = b; t["maxit"] = std::to_string(maxit); t["verbose"] = "0"; t["restart"] = t["mmax"] = std::to_string(restart);
  Dune::ParameterTree p; p["type"] = precType(pk); p["iterations"] = std::to_string(it); snprintf(b, sizeof b, "%.17g", w); p["relaxation"] = b; p["verbosity"] = "0"; p["smoother"] = "ssor"; p["coarsenTarget"] = "5"; p["maxLevel"] = "4";
  t.sub("preconditioner") = p;
  bool nonsense = k > NSOLVERS || (pk == NOPREC && k < NSOLVERS), direct = k == NSOLVERS;
  std::shared_ptr<Counting<typename T::Pr>> mine; std::shared_ptr<Dune::InverseOperator<V, V>> s; bool refused = false;
  try {
    if (pk == PASSED) { mine = std::make_shared<Counting<typename T::Pr>>(S.prec); s = Dune::getSolverFromFactory(op, t, mine); }
    else s = Dune::getSolverFromFactory(op, t);
  } catch (Dune::Exception& e) { refused = true; sim_log("refused: %s", e.what()); }
  int mn = refused, mx = refused; MPI_Allreduce(MPI_IN_PLACE, &mn, 1, MPI_INT, MPI_MIN, MPI_COMM_WORLD); MPI_Allreduce(MPI_IN_PLACE, &mx, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
  bool blockIldl = pk == ILDL; const char* who = k < NSOLVERS ? solverName(k) : solverType(k);
  if (mn != mx) { WL_CHECK(blockIldl, "ranks-disagree", "only some ranks get %s with %s from the factory", who, precType(pk)); return; }
  if (refused) { sim_probe("factory-refuses"); WL_CHECK(nonsense || direct || blockIldl || pk == PAMG, "factory-refuses", "the factory refuses %s with %s", who, precType(pk)); return; }
  WL_CHECK(!nonsense, "factory-invents", "the factory makes %s with %s", solverType(k), precType(pk));
  WL_CHECK(!direct || sim_size() == 1, "factory-invents", "the factory makes a sequential direct solver for a distributed operator");
  WL_CHECK(direct || s->category() == op->category(), "wrong-category", "the solver from the factory has category %d, the operator %d", (int)s->category(), (int)op->category());
  auto solve = [&](Dune::InverseOperator<V, V>& sol, V& x) { V d; R.scatter(R.X0, x); R.scatter(R.Bv, d); Dune::InverseOperatorResult r; r.converged = true; Verdict v{0, 0, 0, 0, 0};
    try { sol.apply(x, d, r); } catch (Dune::SolverAbort& e) { sim_log("SolverAbort: %s", e.what()); v.outcome = 1; }
    v.converged = r.converged; v.iterations = r.iterations; v.reduction = r.reduction; v.conv_rate = r.conv_rate; return v; };
  R.data(P("rhs", 0, 4)); V x; Verdict v = solve(*s, x); R.agree(v, who); hash(v.reduction); hash(v.iterations); sim_probe(precType(pk)); sim_probe("factory-solve");
  double d0 = R.startDefect();
  if (mine && !direct) WL_CHECK(mine->calls > 0 || v.iterations == 0, "passed-preconditioner-unused", "%s did %d iterations without the preconditioner that was passed", who, v.iterations);
  WL_CHECK(v.iterations <= maxit + (k == BICGSTAB), "too-many-iterations", "%s from the factory did %d iterations, configured %d", who, v.iterations, maxit);
  if (v.outcome) { WL_CHECK(!v.converged, "converged-and-aborted", "%s threw SolverAbort and reports converged=true", who); return; }
  double d1 = R.trueDefect(x, who, true), ro = R.roundoff();
  double slack = k == GMRES || k == MINRES ? 1e4 : 1.0001;
  // ildl factorises the lower triangle only; the local matrix of a distributed operator (identity rows for copies) is not symmetric, so that
  // the preconditioner can be close to singular and the preconditioned residual says nothing about the true one;
  // MINRES needs a symmetric positive definite preconditioner
  bool spd = pk == JAC || pk == RICHARDSON || (pk == PASSED && S.spdPrec) || (sim_size() == 1 && (pk == SSOR || pk == ILU || pk == DILU || pk == ILDL));
  bool poor = (pk == ILDL && sim_size() > 1) || (k == MINRES && !spd);
  if (v.converged) { sim_probe("converged"); WL_CHECK(poor || d1 <= slack * red * d0 + ro, "false-convergence", "%s with %s from the factory reports convergence (%g configured, %g reported, %d iterations) but the true global residual went from %g to %g", who, precType(pk), red, v.reduction, v.iterations, d0, d1); }
  else WL_CHECK(v.iterations >= maxit - 1 || k == BICGSTAB || direct, "stopped-early", "%s from the factory stopped after %d of %d iterations without convergence", who, v.iterations, maxit);
  // the same by hand
  if (pk > GS || direct || P("sim.redorder", 0, 1)) return;
  typedef Dune::BlockPreconditioner<V, V, typename T::C> OB; typedef Dune::NonoverlappingBlockPreconditioner<typename T::C, typename T::Pr> NB;
  std::shared_ptr<typename T::Pr> loc, par; typedef typename T::Mat Mat;
  switch (pk) { case JAC: loc = std::make_shared<Dune::SeqJac<Mat, V, V>>(*S.A, it, w); break; case ILU: loc = std::make_shared<Dune::SeqILU<Mat, V, V>>(*S.A, 0, w); break; default: loc = localPrec<Mat, V>(pk, S.A, it, w); }
  if (S.nonov) par = std::make_shared<NB>(loc, *S.comm); else par = std::make_shared<OB>(loc, *S.comm);
  auto hand = makeSolver<V>(k, S.op, S.sp, par, red, maxit, 0, restart, true); V y; Verdict u = solve(*hand, y); sim_probe("compared-with-hand-made");
  if (S.nonov) return; // additive exchanges of nonoverlapping preconditioners may sum in any order
  WL_CHECK(u.outcome == v.outcome && u.converged == v.converged && u.iterations == v.iterations, "factory-differs", "%s with %s: from the factory %d iterations (converged %d), by hand %d (%d)", who, precType(pk), v.iterations, v.converged, u.iterations, u.converged);
  for (size_t j = 0; j < x.size(); ++j) for (int c = 0; c < T::b; ++c) WL_CHECK(same(x[j][c], y[j][c]), "factory-differs", "%s with %s: from the factory %.17g, by hand %.17g", who, precType(pk), x[j][c], y[j][c]);
}
template <class B, class F> void run() {
  Rng g = dataRng(41); auto S = makeSystem<B, F>(g, P("nmax", 2, 24)); typedef System<B, F> T;
  typedef Dune::OverlappingSchwarzOperator<typename T::Mat, typename T::V, typename T::V, typename T::C> OO; typedef Dune::NonoverlappingSchwarzOperator<typename T::Mat, typename T::V, typename T::V, typename T::C> NO;
  if constexpr (F::dimension == 1) if (S.nonov) { factorySolve<B, F, NO>(S, std::dynamic_pointer_cast<NO>(S.op), g); return; }
  factorySolve<B, F, OO>(S, std::dynamic_pointer_cast<OO>(S.op), g);
}
static void factory_solve() { if (P("system", 0, 3) == 2 || P("type", 0, 1)) run<Dune::FieldMatrix<double, 1, 1>, Dune::FieldVector<double, 1>>(); else run<Dune::FieldMatrix<double, 2, 2>, Dune::FieldVector<double, 2>>(); }
WL_TABLE({"factory_solve", SIM_RANKS, 1, 5, nullptr, factory_solve, nullptr, 1})
