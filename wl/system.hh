// A distributed linear system with operator, scalar product and preconditioner, for the solver workloads.
#ifndef WL_SYSTEM_HH
#define WL_SYSTEM_HH
#include "par.hh"
#include <dune/istl/schwarz.hh>
#include <dune/istl/novlpschwarz.hh>
#include <dune/istl/preconditioners.hh>
#include <dune/istl/solvers.hh>
#include <dune/istl/scalarproducts.hh>
namespace wl {
template <class B, class F> struct System {
  typedef Dune::BCRSMatrix<B> Mat; typedef Dune::BlockVector<F> V; typedef Dune::OwnerOverlapCopyCommunication<long, int> C;
  typedef Dune::Preconditioner<V, V> Pr; typedef Dune::LinearOperator<V, V> Op; typedef Dune::ScalarProduct<V> SP;
  static constexpr int b = (int)F::dimension;
  Problem p; std::unique_ptr<C> comm; std::shared_ptr<Mat> A; std::shared_ptr<Op> op; std::shared_ptr<SP> sp; std::shared_ptr<Pr> prec;
  bool spdPrec = false, nonov = false; int N = 0;
};
template <class Mat, class V> std::shared_ptr<Dune::Preconditioner<V, V>> localPrec(int kind, std::shared_ptr<const Mat> A, int it, double w) {
  switch (kind) {
    case 0: return std::make_shared<Dune::SeqJac<Mat, V, V>>(*A, 1, w);
    case 1: return std::make_shared<Dune::SeqSSOR<Mat, V, V>>(*A, it, w);
    case 2: return std::make_shared<Dune::SeqILU<Mat, V, V>>(*A, 0, w);
    case 3: return std::make_shared<Dune::Richardson<V, V>>(w);
    case 4: return std::make_shared<Dune::SeqSOR<Mat, V, V>>(*A, it, w);
    default: return std::make_shared<Dune::SeqGS<Mat, V, V>>(*A, it, w);
  }
}
// nonoverlapping decomposition of a symmetric, strictly diagonally dominant matrix: shared indices are owner/copy, every pair of
// indices is coupled only if some rank holds both; if the owners of both hold the pair it is split between them
inline void makeNonoverlapping(Problem& p, Rng& g, int np, int N, int dens, std::vector<std::vector<std::map<int, double>>>& loc) {
  p.N = N; p.P = np; Scenario& s = p.s; s = Scenario(); s.P = np; s.N = N; for (int i = 0; i < N; ++i) s.gid.push_back(3L * i + 1);
  s.att.assign(np, std::vector<int>(N, 0)); s.loc.assign(np, std::vector<int>(N, -1)); s.nloc.assign(np, 0); s.extra.resize(np); s.owner.resize(N); p.inSet.assign(np, std::vector<char>(N, 1));
  for (int i = 0; i < N; ++i) { s.owner[i] = (int)((long)i * np / N); s.att[s.owner[i]][i] = OWNER; for (int r = 0; r < np; ++r) if (r != s.owner[i] && g.chance(150 + 200 * dens)) s.att[r][i] = COPY; }
  p.part = s.owner;
  for (int r = 0; r < np; ++r) { std::vector<int> m; for (int i = 0; i < N; ++i) if (s.att[r][i]) m.push_back(i); if (g.below(2)) g.shuffle(m); for (size_t k = 0; k < m.size(); ++k) s.loc[r][m[k]] = (int)k; s.nloc[r] = (int)m.size(); }
  p.A.assign(N, {}); loc.assign(np, std::vector<std::map<int, double>>(N));
  for (int i = 0; i < N; ++i) for (int j = 0; j < i; ++j) { bool any = false; for (int r = 0; r < np; ++r) any = any || (s.att[r][i] && s.att[r][j]); if (any && g.below(3) == 0) p.A[i][j] = p.A[j][i] = -(double)g.range(1, 4); }
  for (int i = 0; i < N; ++i) { double d = 1; for (auto& c : p.A[i]) d -= c.second; p.A[i][i] = d; }
  for (int i = 0; i < N; ++i) for (auto& c : p.A[i]) { int j = c.first, oi = s.owner[i], oj = s.owner[j]; bool split = oi != oj && s.att[oi][j] && s.att[oj][i]; for (int r = 0; r < np; ++r) if (s.att[r][i] && s.att[r][j]) loc[r][i][j] = split && (r == oi || r == oj) ? c.second / 2 : c.second; }
}
// units do not matter: the whole matrix times a power of two
template <class S_> void scaleSystem(S_& S) {
  int k = P("units", 0, 8); if (k < 5) return; double f = std::ldexp(1.0, k == 5 ? -30 : k == 6 ? -60 : k == 7 ? 30 : 60);
  *S.A *= f; S.p.unit = f;
}
template <class B, class F> System<B, F> makeSystem(Rng& g, int nmax) {
  System<B, F> S; typedef System<B, F> T; int np = sim_size(), me = sim_rank();
  int kind = P("system", 0, 3); int prec = P("prec", 0, 5), it = P("iters", 1, 2); double w = P("relax", 0, 2) * 0.2 + 0.6;
  S.nonov = kind == 2;
  if (!S.nonov) {
    S.p = makeProblem(g, np, 1, nmax, 2); S.comm = problemComm<typename T::C>(S.p, MPI_COMM_WORLD); S.A = localMatrix<B>(S.p, me); scaleSystem(S);
    S.op = std::make_shared<Dune::OverlappingSchwarzOperator<typename T::Mat, typename T::V, typename T::V, typename T::C>>(S.A, *S.comm);
    bool onelayer = P("halo", 1, 2) == 1;
    if (kind == 3) { S.prec = std::make_shared<Dune::ParSSOR<typename T::Mat, typename T::V, typename T::V, typename T::C>>(*S.A, it, w, *S.comm); S.spdPrec = onelayer; }
    else { S.prec = std::make_shared<Dune::BlockPreconditioner<typename T::V, typename T::V, typename T::C>>(localPrec<typename T::Mat, typename T::V>(prec, S.A, it, w), *S.comm); S.spdPrec = onelayer && prec < 4; if (prec == 3) S.spdPrec = true; }
  } else {
    std::vector<std::vector<std::map<int, double>>> loc; makeNonoverlapping(S.p, g, np, P("n", 1, nmax), P("sharing", 0, 2), loc);
    const Scenario& s = S.p.s; int n = s.nloc[me]; std::vector<int> inv(n); for (int i = 0; i < S.p.N; ++i) if (s.loc[me][i] >= 0) inv[s.loc[me][i]] = i;
    S.A = std::make_shared<typename T::Mat>(n, n, T::Mat::row_wise);
    for (auto row = S.A->createbegin(); row != S.A->createend(); ++row) for (auto& c : loc[me][inv[row.index()]]) row.insert(s.loc[me][c.first]);
    for (auto row = S.A->begin(); row != S.A->end(); ++row) for (auto c = row->begin(); c != row->end(); ++c) fillBlock(*c, inv[row.index()], inv[c.index()], loc[me][inv[row.index()]].at(inv[c.index()]));
    scaleSystem(S);
    S.comm = problemComm<typename T::C>(S.p, MPI_COMM_WORLD, Dune::SolverCategory::nonoverlapping);
    S.op = std::make_shared<Dune::NonoverlappingSchwarzOperator<typename T::Mat, typename T::V, typename T::V, typename T::C>>(S.A, *S.comm);
    S.prec = std::make_shared<Dune::NonoverlappingBlockPreconditioner<typename T::C, typename T::Pr>>(localPrec<typename T::Mat, typename T::V>(prec, S.A, it, w), *S.comm); S.spdPrec = prec < 4;
  }
  S.N = S.p.N;
  S.sp = Dune::createScalarProduct<typename T::V>(*S.comm, S.op->category());
  return S;
}

enum { LOOP, GRADIENT, CG, BICGSTAB, MINRES, GMRES, FGMRES, GPCG, RFCG, CFCG, NSOLVERS };
inline const char* solverName(int k) { static const char* n[] = {"LoopSolver", "GradientSolver", "CGSolver", "BiCGSTABSolver", "MINRESSolver", "RestartedGMResSolver", "RestartedFlexibleGMResSolver", "GeneralizedPCGSolver", "RestartedFCGSolver", "CompleteFCGSolver"}; return n[k]; }
template <class V> std::shared_ptr<Dune::IterativeSolver<V, V>> makeSolver(int k, std::shared_ptr<const Dune::LinearOperator<V, V>> op, std::shared_ptr<const Dune::ScalarProduct<V>> sp, std::shared_ptr<Dune::Preconditioner<V, V>> pr, double red, int maxit, int verbose, int restart, bool config) {
  using namespace Dune; ParameterTree t;
  if (config) { char b[40]; snprintf(b, sizeof b, "%.17g", red); t["reduction"] = b; t["maxit"] = std::to_string(maxit); t["verbose"] = std::to_string(verbose); t["restart"] = t["mmax"] = std::to_string(restart); }
#define WL_S(K, S, ...) case K: if (config) return std::make_shared<S<V>>(op, sp, pr, t); return std::make_shared<S<V>>(op, sp, pr, red, __VA_ARGS__);
  switch (k) {
    WL_S(LOOP, LoopSolver, maxit, verbose) WL_S(GRADIENT, GradientSolver, maxit, verbose) WL_S(CG, CGSolver, maxit, verbose) WL_S(BICGSTAB, BiCGSTABSolver, maxit, verbose) WL_S(MINRES, MINRESSolver, maxit, verbose)
    WL_S(GMRES, RestartedGMResSolver, restart, maxit, verbose) WL_S(FGMRES, RestartedFlexibleGMResSolver, restart, maxit, verbose) WL_S(GPCG, GeneralizedPCGSolver, maxit, verbose, restart) WL_S(RFCG, RestartedFCGSolver, maxit, verbose, restart)
    default: if (config) return std::make_shared<CompleteFCGSolver<V>>(op, sp, pr, t); return std::make_shared<CompleteFCGSolver<V>>(op, sp, pr, red, maxit, verbose, restart);
  }
#undef WL_S
}

struct InjectedFault : Dune::Exception {};
struct Verdict { int outcome; /*0 ok,1 abort,2 injected*/ int converged, iterations; double reduction, conv_rate; };
template <class B, class F> struct Runner {
  typedef System<B, F> S_; typedef typename S_::V V; static constexpr int b = S_::b;
  S_& S; Rng& g; std::vector<double> X0, X, Bv; int me = sim_rank();
  double def0 = 0;
  Runner(S_& s, Rng& g_) : S(s), g(g_) {}
  void data(int kind) { // right hand side and initial guess, as global vectors
    int n = S.N * b; X0.assign(n, 0.0); Bv.assign(n, 0.0); std::vector<double> xs(n); for (double& d : xs) d = (double)g.range(-9, 9);
    if (kind == 1) std::fill(xs.begin(), xs.end(), 0.0);
    Bv = globalApply<B>(S.p, xs); if (kind == 3) { Shape sh(g); for (int i = 0; i < n; ++i) Bv[i] = sh(S.p.part[i / b], g.sym()); }
    if (kind == 2) { Shape sh(g); for (int i = 0; i < n; ++i) X0[i] = sh(S.p.part[i / b], (double)g.range(-9, 9)); } if (kind == 4) X0 = xs;
  }
  void scatter(const std::vector<double>& G, V& v) { v.resize(S.p.s.nloc[me]); for (int i = 0; i < S.N; ++i) if (S.p.s.att[me][i]) for (int c = 0; c < b; ++c) v[S.p.s.loc[me][i]][c] = G[i * b + c]; }
  Verdict run(Dune::IterativeSolver<V, V>& solver, bool withRed, double red, V& x) {
    V d; scatter(X0, x); scatter(Bv, d); Dune::InverseOperatorResult r; r.converged = true; r.iterations = 12345; Verdict v{0, 0, 0, 0, 0};
    try { if (withRed) solver.apply(x, d, red, r); else solver.apply(x, d, r); }
    catch (Dune::SolverAbort& e) { sim_log("SolverAbort: %s", e.what()); v.outcome = 1; } catch (InjectedFault&) { v.outcome = 2; }
    v.converged = r.converged; v.iterations = r.iterations; v.reduction = r.reduction; v.conv_rate = r.conv_rate;
    return v;
  }
  // true relative residual of the distributed x, with the reference matrix; collective
  double trueDefect(V& x, const char* who, bool checkConsistent) {
    std::vector<double> mine((size_t)S.N * b, 0.0), G(mine.size());
    for (int i = 0; i < S.N; ++i) if (S.p.s.att[me][i] == OWNER) for (int c = 0; c < b; ++c) mine[i * b + c] = x[S.p.s.loc[me][i]][c];
    MPI_Allreduce(mine.data(), G.data(), (int)mine.size(), MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD);
    double sc = 0; for (double d : G) sc = std::max(sc, std::abs(d));
    if (checkConsistent) for (int i = 0; i < S.N; ++i) if (S.p.s.att[me][i] == COPY || S.p.s.att[me][i] == OVERLAP) for (int c = 0; c < b; ++c) { double h = x[S.p.s.loc[me][i]][c]; WL_CHECK(std::abs(h - G[i * b + c]) <= 1e-9 * (1 + sc), "solution-inconsistent", "%s: global unknown %d has value %.17g on rank %d (attribute %d) and %.17g on its owner", who, i, h, me, S.p.s.att[me][i], G[i * b + c]); }
    X = G; std::vector<double> R = globalApply<B>(S.p, G); double s = 0; for (size_t k = 0; k < R.size(); ++k) s += (Bv[k] - R[k]) * (Bv[k] - R[k]); return std::sqrt(s);
  }
  double startDefect() { std::vector<double> R = globalApply<B>(S.p, X0); double s = 0; for (size_t k = 0; k < R.size(); ++k) s += (Bv[k] - R[k]) * (Bv[k] - R[k]); return std::sqrt(s); }
  double roundoff() { double m = 0; for (int i = 0; i < S.N; ++i) for (auto& c : S.p.A[i]) m = std::max(m, std::abs(c.second)); m *= S.p.unit; double x = 0; for (double d : X) x = std::max(x, std::abs(d)); for (double d : X0) x = std::max(x, std::abs(d)); double bb = 0; for (double d : Bv) bb = std::max(bb, std::abs(d)); return 1e-11 * (m * x + bb) * std::sqrt((double)Bv.size()); }
  void agree(const Verdict& v, const char* who) {
    double a[5] = {(double)v.outcome, (double)v.converged, (double)v.iterations, v.reduction, v.conv_rate}; std::vector<double> all(5 * sim_size());
    MPI_Allgather(a, 5, MPI_DOUBLE, all.data(), 5, MPI_DOUBLE, MPI_COMM_WORLD);
    for (int r = 0; r < sim_size(); ++r) for (int k = 0; k < 5; ++k) WL_CHECK(same(all[5 * r + k], a[k]), "ranks-disagree", "%s: rank %d and rank %d disagree about the outcome of the same solve (outcome %g/%g converged %g/%g iterations %g/%g reduction %g/%g)", who, me, r, a[0], all[5 * r], a[1], all[5 * r + 1], a[2], all[5 * r + 2], a[3], all[5 * r + 3]);
  }
};
}
#endif
