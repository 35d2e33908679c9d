// C05 parallel Krylov solves; C12 corrupted solves are never reported as converged; C13 objects stay usable after an aborted solve
#include "system.hh"
using namespace wl;

// fault plan shared by the wrappers of one rank. Calls are counted over all wrapped operations of a solve.
struct Plan { int kind = 0, at = -1, rank = 0; long calls = 0; int fired = 0; bool collectiveThrow = true; int entry = 0;
  void arm(int k, int a, int r, int e) { kind = k; at = a; rank = r; calls = 0; fired = 0; entry = e; }
  void disarm() { kind = 0; at = -1; calls = 0; }
  bool now() { return kind && calls++ == at; } };
enum { F_NONE, F_THROW, F_NAN, F_INF, F_ABORT };
template <class V> void corrupt(V& v, Plan& pl, const char* where) {
  if (!pl.now()) return;
  if (pl.kind == F_THROW) { pl.fired++; sim_fault_fired("op-throws"); sim_log("%s throws", where); DUNE_THROW(InjectedFault, "injected failure of " << where); }
  if (pl.kind == F_ABORT) { pl.fired++; sim_fault_fired("op-aborts"); DUNE_THROW(Dune::SolverAbort, "injected abort of " << where); }
  if (sim_rank() == pl.rank % sim_size() && v.size()) { pl.fired++; sim_fault_fired(pl.kind == F_NAN ? "nan-result" : "inf-result"); sim_log("%s returns a non-finite entry", where); auto& e = v[pl.entry % v.size()]; e = pl.kind == F_NAN ? NAN : INFINITY; }
}
template <class V> struct FOp : Dune::LinearOperator<V, V> { std::shared_ptr<Dune::LinearOperator<V, V>> o; Plan& p; FOp(std::shared_ptr<Dune::LinearOperator<V, V>> o_, Plan& p_) : o(o_), p(p_) {}
  void apply(const V& x, V& y) const override { o->apply(x, y); corrupt(y, p, "the operator"); }
  void applyscaleadd(typename V::field_type a, const V& x, V& y) const override { o->applyscaleadd(a, x, y); corrupt(y, p, "the operator"); }
  Dune::SolverCategory::Category category() const override { return o->category(); } };
template <class V> struct FPrec : Dune::Preconditioner<V, V> { std::shared_ptr<Dune::Preconditioner<V, V>> o; Plan& p; int depth = 0, pre_ = 0, post_ = 0; FPrec(std::shared_ptr<Dune::Preconditioner<V, V>> o_, Plan& p_) : o(o_), p(p_) {}
  void pre(V& x, V& b) override { pre_++; o->pre(x, b); }
  void apply(V& v, const V& d) override { o->apply(v, d); corrupt(v, p, "the preconditioner"); }
  void post(V& x) override { post_++; o->post(x); }
  Dune::SolverCategory::Category category() const override { return o->category(); } };
template <class V> struct FSp : Dune::ScalarProduct<V> { std::shared_ptr<Dune::ScalarProduct<V>> o; Plan& p; FSp(std::shared_ptr<Dune::ScalarProduct<V>> o_, Plan& p_) : o(o_), p(p_) {}
  typename V::field_type dot(const V& x, const V& y) const override { auto d = o->dot(x, y); return f(d); }
  typename Dune::ScalarProduct<V>::real_type norm(const V& x) const override { return f(o->norm(x)); }
  double f(double d) const { if (!p.now()) return d; if (p.kind == F_THROW || p.kind == F_ABORT) { p.fired++; sim_fault_fired("dot-throws"); DUNE_THROW(InjectedFault, "injected failure of a reduction"); } p.fired++; sim_fault_fired("nan-dot"); return NAN; } // (an infinite scalar can act like a finite perturbation: x/inf == 0) // every rank sees the same corrupted value
  Dune::SolverCategory::Category category() const override { return o->category(); } };

template <class B, class F> void parSolve() {
  Rng g = dataRng(21); auto S = makeSystem<B, F>(g, P("nmax", 2, 30)); typedef System<B, F> T; typedef typename T::V V; Runner<B, F> R(S, g);
  int k = P("solver", 0, NSOLVERS - 1); int restartKind = P("restart", 0, 3); int restart = restartKind == 0 ? 2 : restartKind == 1 ? 5 : restartKind == 2 ? 1 : S.N * T::b + 5;
  if (!S.spdPrec && (k == CG || k == MINRES || k == GPCG || k == RFCG || k == CFCG || k == GRADIENT)) k = k % 2 ? BICGSTAB : P("alt", 0, 1) ? GMRES : FGMRES;
  if (restart == 1 && (k == RFCG || k == CFCG)) restart = 0; // number of old directions
  bool capped = P("capped", 0, 5) == 5; int maxit = capped ? P("maxit", 1, 8) : 600; int verbose = P("verbose", 0, 2);
  double red = std::pow(10.0, -P("red", 1, 10)), ctorRed = red; bool withRed = P("withred", 0, 1); if (withRed) ctorRed = P("ctorred", 0, 1) ? 0.5 : 1e-13;
  auto solver = makeSolver<V>(k, S.op, S.sp, S.prec, ctorRed, maxit, verbose, restart, P("config", 0, 1));
  R.data(P("rhs", 0, 4)); const char* who = solverName(k);
  V x; Verdict v = R.run(*solver, withRed, red, x); R.agree(v, who); hash(v.reduction); hash(v.iterations);
  WL_CHECK(v.outcome != 2, "unexpected", "impossible");
  WL_CHECK(v.outcome || v.iterations <= maxit || (k == BICGSTAB && v.iterations <= maxit + 1), "too-many-iterations", "%s did %d iterations with maxit=%d", who, v.iterations, maxit);
  double d0 = R.startDefect();
  if (v.outcome == 1) {
    WL_CHECK(!v.converged, "converged-and-aborted", "%s threw SolverAbort and reports converged=true", who);
    // documented breakdowns only: nothing can break down in a symmetric positive definite solve before it converged
    if (k == CG || k == LOOP || k == GRADIENT || k == RFCG || k == CFCG || k == GPCG) { if (k == LOOP) return; sim_violation("spurious-abort", "%s aborts on a symmetric positive definite system (n=%d, initial defect %g)", who, S.N * T::b, d0); }
    sim_probe("abort-breakdown"); return;
  }
  double d1 = R.trueDefect(x, who, true), ro = R.roundoff();
  if (v.converged) {
    sim_probe("converged");
    WL_CHECK(v.reduction <= red * (1 + 1e-12) || d0 <= 1e-25 || std::isnan(v.reduction) || d1 <= ro, "reduction-not-reached", "%s reports convergence with reduction %g, requested %g", who, v.reduction, red);
    double slack = k == GMRES || k == MINRES ? 1e4 : 1.0001;
    WL_CHECK(d1 <= slack * red * d0 + ro, "false-convergence", "%s reports convergence (reduction %g requested, %g reported, %d iterations) but the true global residual went from %g to %g", who, red, v.reduction, v.iterations, d0, d1);
  } else {
    bool must = !capped && S.spdPrec && (k == CG || k == MINRES || k == GPCG || ((k == RFCG || k == CFCG) && restart > 0) || ((k == GMRES || k == FGMRES) && restart > S.N * T::b));
    WL_CHECK(!must, "no-convergence", "%s does not converge on a symmetric positive definite system with %d unknowns within %d iterations (reported reduction %g, true defect %g -> %g)", who, S.N * T::b, v.iterations, v.reduction, d0, d1);
    WL_CHECK(v.iterations >= maxit - 1 || k == BICGSTAB, "stopped-early", "%s stopped after %d of %d iterations without convergence", who, v.iterations, maxit);
    if (k != GMRES && k != MINRES && !(k == GPCG || k == RFCG || k == CFCG)) WL_CHECK(std::isnan(v.reduction) || d1 > 0.999 * red * d0 - ro, "convergence-not-reported", "%s reports no convergence although the true defect went from %g to %g (reduction %g requested)", who, d0, d1, red);
  }
  if (!capped && (k == CG || (k == CFCG && restart > S.N * T::b)) && v.converged) { WL_CHECK(v.iterations <= 3 * S.N * T::b + 20, "slow-convergence", "%s needs %d iterations for %d unknowns", who, v.iterations, S.N * T::b); }
  // the reported reduction is the one of the true residual (solvers that measure the unpreconditioned defect)
  if (k != GMRES && k != MINRES && d0 > 1e-10) WL_CHECK(std::abs(v.reduction * d0 - d1) <= 1e-6 * d0 * std::max(v.reduction, 1e-9) + ro * 100, "reported-reduction", "%s reports reduction %g, the true residuals are %g and %g", who, v.reduction, d0, d1);
  // the same solve again: same objects, same data, same result
  if (P("again", 0, 1)) { V y; Verdict u = R.run(*solver, withRed, red, y); R.agree(u, who); bool exact = !S.nonov && P("sim.redorder", 0, 1) == 0;
    if (u.outcome) { WL_CHECK(!exact && (k == MINRES || k == GMRES || k == FGMRES || k == BICGSTAB), "second-solve-differs", "%s: the second identical solve aborts, the first did not", who); return; } // rounding may turn an exact convergence into a documented breakdown
    double e1 = R.trueDefect(y, who, true);
    if (exact && u.converged != v.converged) WL_CHECK(false, "second-solve-differs", "%s: the second identical solve reports converged=%d, the first %d", who, u.converged, v.converged);
    if (u.converged) { double slack = k == GMRES || k == MINRES ? 1e4 : 1.0001; WL_CHECK(e1 <= slack * red * d0 + ro, "false-convergence", "%s: second solve with the same objects: true global residual %g -> %g, requested %g", who, d0, e1, red); }
    if (exact) { WL_CHECK(u.iterations == v.iterations, "second-solve-differs", "%s: %d iterations, then %d", who, v.iterations, u.iterations); for (size_t j = 0; j < x.size(); ++j) for (int c = 0; c < T::b; ++c) WL_CHECK(same(x[j][c], y[j][c]), "second-solve-differs", "%s: the second identical solve gives %.17g, the first %.17g", who, y[j][c], x[j][c]); } }
}
static void runParSolve() { if (P("type", 0, 2) < 2) parSolve<Dune::FieldMatrix<double, 1, 1>, Dune::FieldVector<double, 1>>(); else parSolve<Dune::FieldMatrix<double, 2, 2>, Dune::FieldVector<double, 2>>(); }

// ---- C12/C13: a history of solves with one solver object, some of them disturbed
template <class B, class F, bool judgeFaulty> void faultHistory() {
  Rng g = dataRng(22); auto S = makeSystem<B, F>(g, P("nmax", 2, 20)); typedef System<B, F> T; typedef typename T::V V; Runner<B, F> R(S, g);
  int k = P("solver", 0, NSOLVERS - 1); if (!S.spdPrec && (k == CG || k == MINRES || k == GPCG || k == RFCG || k == CFCG || k == GRADIENT)) k = k % 2 ? BICGSTAB : P("alt", 0, 1) ? GMRES : FGMRES;
  Plan pl; auto op = std::make_shared<FOp<V>>(S.op, pl); auto pr = std::make_shared<FPrec<V>>(S.prec, pl); auto sp = std::make_shared<FSp<V>>(S.sp, pl);
  int restart = P("restart", 2, 9), maxit = P("maxit", 3, 80); double red = std::pow(10.0, -P("red", 2, 9)); const char* who = solverName(k);
  auto solver = makeSolver<V>(k, op, sp, pr, red, maxit, P("verbose", 0, 2), restart, false);
  int steps = P("steps", 1, 5); bool exact = !S.nonov && P("sim.redorder", 0, 1) == 0;
  for (int st = 0; st < steps; ++st) {
    char nm[32]; snprintf(nm, sizeof nm, "fault%d", st); int fk = P(nm, 0, 4); snprintf(nm, sizeof nm, "at%d", st); int at = P(nm, 0, 30); if (at > 12) at = (at - 12) * (at - 12) / 4; if (at < 0) at = 0;
    snprintf(nm, sizeof nm, "rank%d", st); int fr = P(nm, 0, 7); snprintf(nm, sizeof nm, "entry%d", st); int en = P(nm, 0, 9);
    bool withRed = g.below(2); double r2 = g.below(2) ? 1e-3 : 1e-11;
    R.data((int)g.below(5)); double d0 = R.startDefect(); V x, y;
    if (fk) {
      pl.arm(fk, at, fr, en); Verdict v = R.run(*solver, withRed, r2, x); int fired = 0; MPI_Allreduce(&pl.fired, &fired, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD); pl.disarm();
      if (fired) sim_probe("fault-hit-a-solve");
      if (judgeFaulty) {
        R.agree(v, who);
        WL_CHECK(!(v.outcome && v.converged), "converged-and-threw", "step %d: %s left the solve with an exception (%s) and reports converged=true", st, who, v.outcome == 1 ? "SolverAbort" : "injected exception");
        if (!v.outcome && v.converged) { double rd = withRed ? r2 : red; double d1 = R.trueDefect(x, who, false), ro = R.roundoff(); double slack = k == GMRES || k == MINRES ? 1e5 : 2;
          WL_CHECK(d1 <= slack * rd * d0 + ro, "false-convergence-under-fault", "step %d: %s reports convergence after a non-finite value appeared in call %d: true global residual %g -> %g, requested reduction %g", st, who, at, d0, d1, rd); }
      }
      if (v.outcome) sim_probe("solve-aborted");
      continue;
    }
    // an undisturbed solve must behave like a solve with fresh objects
    pl.disarm(); Verdict v = R.run(*solver, withRed, r2, x); R.agree(v, who);
    double dv = v.outcome ? 0 : R.trueDefect(x, who, true);
    auto fresh = makeSolver<V>(k, S.op, S.sp, S.prec, red, maxit, 0, restart, false); Verdict u = R.run(*fresh, withRed, r2, y); R.agree(u, who);
    if (exact) {
      WL_CHECK(v.outcome == u.outcome && v.converged == u.converged && v.iterations == u.iterations && same(v.reduction, u.reduction), "history-dependent", "step %d: %s with a history gives outcome %d converged %d iterations %d reduction %g; fresh objects give %d %d %d %g", st, who, v.outcome, v.converged, v.iterations, v.reduction, u.outcome, u.converged, u.iterations, u.reduction);
      for (size_t j = 0; j < x.size(); ++j) for (int c = 0; c < T::b; ++c) WL_CHECK(same(x[j][c], y[j][c]), "history-dependent", "step %d: %s with a history gives x=%.17g, fresh objects give %.17g", st, who, x[j][c], y[j][c]);
    } else if (!v.outcome && v.converged) { double rd = withRed ? r2 : red, slack = k == GMRES || k == MINRES ? 1e5 : 1.001; WL_CHECK(dv <= slack * rd * d0 + R.roundoff(), "history-dependent", "step %d: %s with a history reports convergence, true residual %g -> %g (requested %g)", st, who, d0, dv, rd); }
    hash(v.reduction);
  }
}
typedef Dune::FieldMatrix<double, 1, 1> M1; typedef Dune::FieldVector<double, 1> V1;
static void runFaults() { faultHistory<M1, V1, true>(); }
static void runHistory() { faultHistory<M1, V1, false>(); }

WL_TABLE({"par_solve", SIM_RANKS, 1, 4, nullptr, runParSolve, nullptr, 1},
         {"faulty_solve", SIM_RANKS, 1, 4, nullptr, runFaults, nullptr, 1},
         {"solve_history", SIM_RANKS, 1, 4, nullptr, runHistory, nullptr, 1})
