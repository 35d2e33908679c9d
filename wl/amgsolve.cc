// C07 complete solves with algebraic multigrid (V/W cycles, additive, Krylov cycles) as preconditioner
#include "system.hh"
#include "hier.hh"
#include <dune/istl/paamg/kamg.hh>
using namespace wl;
namespace {
template <class B, class F> struct AmgSolve {
  typedef System<B, F> T; typedef typename T::V V; typedef typename T::Mat Mat; typedef Dune::OverlappingSchwarzOperator<Mat, V, V, C> Op;
  template <class S> static void go(bool sym) {
    typedef Dune::BlockPreconditioner<V, V, C, S> Sm; typedef Dune::Amg::AMG<Op, V, Sm, C> AMG; typedef Dune::Amg::KAMG<Op, V, Sm, C> KAMG; typedef typename Dune::Amg::SmootherTraits<Sm>::Arguments Args; typedef Dune::Amg::MatrixHierarchy<Op, C, std::allocator<V>> H;
    int me = sim_rank(), np = sim_size(); (void)me; Rng g = dataRng(21); T s; s.p = makeProblem(g, np, 1, P("big", 0, 3) ? 50 : 160, 1, 0); s.N = s.p.N; s.A = localMatrix<B>(s.p, me); scaleSystem(s); s.comm = problemComm<C>(s.p, MPI_COMM_WORLD); auto op = std::make_shared<Op>(s.A, *s.comm); s.op = op; s.sp = Dune::createScalarProduct<V>(*s.comm, op->category());
    typedef Dune::Amg::CoarsenCriterion<Dune::Amg::SymmetricCriterion<Mat, Dune::Amg::RowSum>> Crit; bool k = P("kamg", 0, 2) == 2; int accu = P("accu", 0, 2); bool additive = !k && P("additive", 0, 4) == 4;
    int pre = P("pre", 1, 2), post = P("post", 0, 3) == 0 ? P("pre", 1, 2) % 2 + 1 : pre; bool damp = P("damp", 0, 2) == 2;
    Crit c(P("maxlevel", 1, 6), P("target", 1, 12), 1.2, damp ? 1.6 : 1.0, (Dune::Amg::AccumulationMode)accu, true); c.setDefaultValuesIsotropic(2); if (P("aggsize", 0, 1)) { c.setMinAggregateSize(1); c.setMaxAggregateSize(3); }
    c.setGamma(P("gamma", 1, 2)); c.setNoPreSmoothSteps(pre); c.setNoPostSmoothSteps(post); c.setAdditive(additive); c.setDebugLevel(0);
    Args args; args.iterations = P("iters", 1, 2); args.relaxationFactor = 0.6 + 0.1 * P("relax", 0, 2);
    size_t maxl = 0; bool direct;
    { H h(op, s.comm ? std::shared_ptr<C>(s.comm.get(), [](C*) {}) : nullptr); h.template build<Dune::NegateSet<typename C::OwnerSet>>(c); maxl = h.maxlevels(); auto i = h.parallelInformation().coarsest(); bool mine = h.levels() == h.maxlevels() && !(i->communicator().size() == 1 || (i.isRedistributed() && i.getRedistributed().communicator().size() <= 1)); direct = !s.comm->communicator().max((int)mine); }
    std::shared_ptr<AMG> amg; std::shared_ptr<KAMG> kamg; if (k) s.prec = kamg = std::make_shared<KAMG>(*op, c, args, (size_t)P("ksteps", 1, 3), 0.1, *s.comm); else s.prec = amg = std::make_shared<AMG>(*op, c, args, *s.comm);
    WL_CHECK((k ? kamg->maxlevels() : amg->maxlevels()) == maxl, "amg-levels", "%zu levels instead of %zu", k ? kamg->maxlevels() : amg->maxlevels(), maxl);
    if (direct) sim_probe("direct-coarse"); if (maxl > 2) sim_probe("three-levels"); if (k) sim_probe("krylov-cycle");
    bool spd = sym && pre == post && !damp && !additive && direct && !k;
    static const int flex[] = {BICGSTAB, GMRES, LOOP, CG, FGMRES, RFCG, GPCG}; int kind = flex[P("solver", 0, 6)];
    if (k || !direct) kind = kind == GMRES || kind == BICGSTAB || kind == LOOP ? kind == LOOP ? LOOP : kind == GMRES ? FGMRES : BICGSTAB : kind; // a varying preconditioner: flexible methods
    if (!spd && (kind == CG || kind == RFCG || kind == GPCG)) kind = FGMRES;
    int maxit = P("capped", 0, 5) == 5 ? P("maxit", 1, 5) : 300; double red = std::pow(10.0, -P("red", 1, 9)); auto solver = makeSolver<V>(kind, s.op, s.sp, s.prec, red, maxit, 0, 40, false); const char* who = solverName(kind);
    Runner<B, F> R(s, g); int rounds = P("rounds", 1, 2);
    for (int q = 0; q < rounds; ++q) {
      R.data(P(q ? "rhs2" : "rhs", 0, 4)); V x; Verdict v = R.run(*solver, false, 0, x); R.agree(v, who); hash(v.iterations); WL_CHECK(v.outcome != 2, "unexpected", "impossible"); double d0 = R.startDefect();
      if (v.outcome == 1) { WL_CHECK(!v.converged, "converged-and-aborted", "%s aborted and reports converged", who); WL_CHECK(!spd || (kind != CG && kind != GPCG && kind != RFCG), "spurious-abort", "%s with a symmetric multigrid cycle aborts on a symmetric positive definite problem (n=%d, initial defect %g)", who, s.N * T::b, d0); sim_probe("abort-breakdown"); return; }
      double d1 = R.trueDefect(x, who, true), ro = R.roundoff() * 100;
      if (v.converged) { sim_probe("converged"); WL_CHECK(d1 <= (kind == GMRES ? 1e4 : 1.0001) * red * d0 + ro, "false-convergence", "%s with multigrid (%zu levels) reports convergence after %d iterations (requested %g, reported %g) but the true residual went from %g to %g", who, maxl, v.iterations, red, v.reduction, d0, d1); }
      else if (maxit == 300) WL_CHECK(!spd || (kind != CG && kind != GPCG && kind != RFCG), "no-convergence", "%s with a symmetric multigrid cycle (%zu levels) does not converge (%d iterations, residual %g -> %g)", who, maxl, v.iterations, d0, d1);
      if (spd && v.converged && kind == CG) { WL_CHECK(v.iterations <= 60, "slow-convergence", "%s with multigrid (%zu levels) needs %d iterations for %d unknowns", who, maxl, v.iterations, s.N * T::b); if (maxl == 1) WL_CHECK(v.iterations <= 2, "direct-slow", "an exact coarse solve needs %d iterations", v.iterations); }
      if (std::isnan(d1) || std::isinf(d1)) return;
    }
  }
  static void pick() { switch (P("smoother", 0, 2)) { case 0: go<Dune::SeqJac<Mat, V, V>>(true); break; case 1: go<Dune::SeqSOR<Mat, V, V>>(true); break; default: go<Dune::SeqSSOR<Mat, V, V>>(true); } }
};
void amgSolve() { if (P("block", 1, 2) == 1) AmgSolve<Dune::FieldMatrix<double, 1, 1>, Dune::FieldVector<double, 1>>::pick(); else AmgSolve<Dune::FieldMatrix<double, 2, 2>, Dune::FieldVector<double, 2>>::pick(); }
} // namespace
WL_TABLE({"amg_solve", SIM_RANKS, 1, 6, nullptr, amgSolve, nullptr, 1})
