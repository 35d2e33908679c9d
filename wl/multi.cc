// C05 Krylov solves with several right hand sides at once: every lane of the SIMD numbers is a solve of its own
#include "system.hh"
#include <dune/common/simd/loop.hh>
using namespace wl;
namespace {
enum { L = 3 };
typedef Dune::LoopSIMD<double, L> W; typedef Dune::FieldMatrix<double, 1, 1> B; typedef Dune::FieldVector<W, 1> F;
typedef System<B, F> T; typedef T::V V; typedef std::vector<double> Vec;
struct Multi {
  T& S; int me = sim_rank(); Vec Bv[L], X0[L];
  explicit Multi(T& s) : S(s) {}
  void data(Rng& g) { for (int l = 0; l < L; ++l) { int kind = P("rhs", 0, 4); if (l) kind = (int)g.below(6); int n = S.N; X0[l].assign(n, 0.); Vec xs(n); for (double& d : xs) d = (double)g.range(-9, 9);
      if (kind == 1) std::fill(xs.begin(), xs.end(), 0.); Bv[l] = globalApply<B>(S.p, xs); if (kind == 2) for (double& d : X0[l]) d = (double)g.range(-9, 9); if (kind == 4) X0[l] = xs;
      if (kind == 3 || kind == 5) { double f = kind == 3 ? std::ldexp(1., -20) : std::ldexp(1., 20); for (double& d : Bv[l]) d *= f; } } }
  void scatter(const Vec* G, const int* perm, V& v) { v.resize(S.p.s.nloc[me]); for (int i = 0; i < S.N; ++i) if (S.p.s.att[me][i]) for (int l = 0; l < L; ++l) Dune::Simd::lane(l, v[S.p.s.loc[me][i]][0]) = G[perm[l]][i]; }
  Vec gather(const V& x, int l, const char* who) { Vec m(S.N, 0.), G(S.N); for (int i = 0; i < S.N; ++i) if (S.p.s.att[me][i] == OWNER) m[i] = Dune::Simd::lane(l, x[S.p.s.loc[me][i]][0]);
    MPI_Allreduce(m.data(), G.data(), S.N, MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD); double sc = 1; for (double d : G) sc = std::max(sc, std::abs(d));
    for (int i = 0; i < S.N; ++i) if (S.p.s.att[me][i] == COPY || S.p.s.att[me][i] == OVERLAP) { double h = Dune::Simd::lane(l, x[S.p.s.loc[me][i]][0]); WL_CHECK(std::abs(h - G[i]) <= 1e-9 * sc || std::isnan(G[i]), "solution-inconsistent", "%s: lane %d of unknown %d is %.17g on rank %d and %.17g on its owner", who, l, i, h, me, G[i]); }
    return G; }
  double defect(const Vec& X, int l) { Vec R = globalApply<B>(S.p, X); double s = 0; for (size_t k = 0; k < R.size(); ++k) s += (Bv[l][k] - R[k]) * (Bv[l][k] - R[k]); return std::sqrt(s); }
  double roundoff(const Vec& X, int l) { double m = 0, x = 0, bb = 0; for (auto& r : S.p.A) for (auto& c : r) m = std::max(m, std::abs(c.second)); m *= S.p.unit; for (double d : X) x = std::max(x, std::abs(d)); for (double d : X0[l]) x = std::max(x, std::abs(d)); for (double d : Bv[l]) bb = std::max(bb, std::abs(d)); return 1e-11 * (m * x + bb) * std::sqrt((double)S.N); }
  Verdict run(Dune::IterativeSolver<V, V>& solver, const int* perm, V& x) {
    V d; scatter(X0, perm, x); scatter(Bv, perm, d); Dune::InverseOperatorResult r; r.converged = true; Verdict v{0, 0, 0, 0, 0};
    try { solver.apply(x, d, r); } catch (Dune::SolverAbort& e) { sim_log("SolverAbort: %s", e.what()); v.outcome = 1; }
    v.converged = r.converged; v.iterations = r.iterations; v.reduction = r.reduction; double a[3] = {(double)v.outcome, (double)v.converged, (double)v.iterations}; std::vector<double> all(3 * sim_size());
    MPI_Allgather(a, 3, MPI_DOUBLE, all.data(), 3, MPI_DOUBLE, MPI_COMM_WORLD);
    for (int q = 0; q < sim_size(); ++q) for (int k = 0; k < 3; ++k) WL_CHECK(same(all[3 * q + k], a[k]), "ranks-disagree", "ranks %d and %d disagree about the outcome of a solve with several right hand sides", me, q);
    return v;
  }
};
void multiSolve() {
  Rng g = dataRng(51); auto S = makeSystem<B, F>(g, P("nmax", 2, 24)); Multi R(S);
  static const int kinds[] = {CG, BICGSTAB, MINRES, GMRES, GPCG, RFCG, CFCG, GRADIENT, LOOP}; int k = kinds[P("solver", 0, 8)];
  if (!S.spdPrec && k != BICGSTAB && k != GMRES && k != LOOP) k = P("alt", 0, 1) ? GMRES : BICGSTAB;
  bool capped = P("capped", 0, 5) == 5; int maxit = capped ? P("maxit", 1, 8) : 600; double red = std::pow(10.0, -P("red", 1, 10)); int restart = P("restart", 0, 1) ? S.N + 5 : 5; const char* who = solverName(k);
  auto solver = makeSolver<V>(k, S.op, S.sp, S.prec, red, maxit, 0, restart, false);
  int rounds = P("rounds", 1, 2);
  for (int q = 0; q < rounds; ++q) {
    R.data(g); int id[L], perm[L]; for (int l = 0; l < L; ++l) { id[l] = l; perm[l] = (l + 1) % L; }
    V x; Verdict v = R.run(*solver, id, x); hash(v.iterations);
    bool good = k == CG || k == GPCG || k == RFCG || k == CFCG || k == GRADIENT;
    if (v.outcome) { WL_CHECK(!v.converged, "converged-and-aborted", "%s aborted and reports converged", who); WL_CHECK(!good, "spurious-abort", "%s aborts on symmetric positive definite systems with several right hand sides", who); sim_probe("abort-breakdown"); }
    else {
      Vec X[L]; for (int l = 0; l < L; ++l) X[l] = R.gather(x, l, who);
      if (v.converged) { sim_probe("converged"); for (int l = 0; l < L; ++l) { double d0 = R.defect(R.X0[l], l), d1 = R.defect(X[l], l); WL_CHECK(d1 <= (k == GMRES || k == MINRES ? 1e4 : 1.0001) * red * d0 + R.roundoff(X[l], l) + 1e-29, "false-convergence", "%s reports convergence (reduction %g requested, %d iterations) but the true residual of right hand side %d went from %g to %g", who, red, v.iterations, l, d0, d1); } }
      else if (!capped) WL_CHECK(!S.spdPrec || !good || k == GRADIENT || ((k == RFCG) && restart < S.N), "no-convergence", "%s does not converge on a symmetric positive definite system with %d unknowns and several right hand sides", who, S.N);
    }
    // the right hand sides do not know each other: in another order they give the same results
    if (P("sim.redorder", 0, 1) == 0 && !S.nonov && P("permute", 0, 1)) {
      V y; Verdict u = R.run(*solver, perm, y); WL_CHECK(u.outcome == v.outcome && u.converged == v.converged && u.iterations == v.iterations, "order-of-right-hand-sides", "%s: outcome %d, converged %d, %d iterations, with the right hand sides in another order %d, %d, %d", who, v.outcome, v.converged, v.iterations, u.outcome, u.converged, u.iterations);
      sim_probe("permuted");
      for (size_t j = 0; j < x.size() && !v.outcome; ++j) for (int l = 0; l < L; ++l) { double a = Dune::Simd::lane(perm[l], x[j][0]), b = Dune::Simd::lane(l, y[j][0]); WL_CHECK(same(a, b) || (std::isnan(a) && std::isnan(b)), "order-of-right-hand-sides", "%s: right hand side %d gives %.17g, in another position %.17g", who, perm[l], a, b); }
    }
  }
}
} // namespace
WL_TABLE({"multi_solve", SIM_RANKS, 1, 5, nullptr, multiSolve, nullptr, 1})
