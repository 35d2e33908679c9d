// C03 distributed operators, C04 parallel preconditioners: against the same arithmetic on the replicated global problem
#include "par.hh"
#include <dune/istl/schwarz.hh>
#include <dune/istl/novlpschwarz.hh>
#include <dune/istl/preconditioners.hh>
#include <dune/istl/solvers.hh>
using namespace wl;

template <class B, class F> void overlappingOp() {
  typedef Dune::BCRSMatrix<B> Mat; typedef Dune::BlockVector<F> V; typedef Dune::OwnerOverlapCopyCommunication<long, int> C;
  int me = sim_rank(), np = sim_size(); Rng g = dataRng(10); constexpr int b = std::is_arithmetic_v<B> ? 1 : (int)sizeof(F) / 8;
  Problem p = makeProblem(g, np, 1, 24, 3); auto A = localMatrix<B>(p, me); auto comm = problemComm<C>(p, MPI_COMM_WORLD);
  Dune::OverlappingSchwarzOperator<Mat, V, V, C> op(A, *comm);
  WL_CHECK(op.category() == Dune::SolverCategory::overlapping && &op.getmat() == A.get(), "operator-interface", "overlapping operator reports the wrong category or matrix");
  int steps = P("steps", 1, 4);
  for (int st = 0; st < steps; ++st) {
    std::vector<double> X(p.N * b), Y0(p.N * b); for (double& d : X) d = 2.0 * (double)g.range(-50, 50); for (double& d : Y0) d = (double)g.range(-50, 50);
    double alpha = (double)g.range(-3, 3); bool scale = g.below(2);
    V x(p.s.nloc[me]), y(p.s.nloc[me]);
    for (int i = 0; i < p.N; ++i) if (p.s.att[me][i]) for (int c = 0; c < b; ++c) { bool own = p.s.att[me][i] == OWNER; comp(x, p.s.loc[me][i], c) = own || !scale ? X[i * b + c] : 777; comp(y, p.s.loc[me][i], c) = Y0[i * b + c]; }
    if (scale) comm->copyOwnerToAll(x, x);
    std::vector<double> R = globalApply<B>(p, X);
    if (scale) op.applyscaleadd(alpha, x, y); else op.apply(x, y);
    for (int i = 0; i < p.N; ++i) if (p.s.att[me][i]) for (int c = 0; c < b; ++c) {
      double want = p.s.att[me][i] == COPY ? 0 : scale ? Y0[i * b + c] + alpha * R[i * b + c] : R[i * b + c], have = comp(y, p.s.loc[me][i], c); hash(have);
      WL_CHECK(have == want, "operator-wrong", "step %d: %s on rank %d gives %g at global row %d (attribute %d), the global matrix-vector product gives %g", st, scale ? "applyscaleadd" : "apply", me, have, i, p.s.att[me][i], want);
    }
    comm->copyOwnerToAll(y, y);
    for (int i = 0; i < p.N; ++i) if (p.s.att[me][i]) for (int c = 0; c < b; ++c) WL_CHECK(comp(y, p.s.loc[me][i], c) == (scale ? Y0[i * b + c] + alpha * R[i * b + c] : R[i * b + c]), "operator-wrong", "step %d: after copyOwnerToAll the result is not the global product on rank %d row %d", st, me, i);
  }
}
static void runOverlapping() { switch (P("type", 0, 2)) { case 0: overlappingOp<Dune::FieldMatrix<double, 1, 1>, Dune::FieldVector<double, 1>>(); break; case 1: overlappingOp<Dune::FieldMatrix<double, 2, 2>, Dune::FieldVector<double, 2>>(); break; default: overlappingOp<double, double>(); } }

// nonoverlapping: indices are shared as owner/copy, additional ghosts are overlap. Couplings between two shared indices are
// stored with their full value by every rank that holds both, except that the owner of the row and the owner of the column share
// it additively if they are different ranks that both hold the pair (the operator sums those).
static void runNonoverlapping() {
  typedef Dune::FieldMatrix<double, 1, 1> B; typedef Dune::BCRSMatrix<B> Mat; typedef Dune::BlockVector<Dune::FieldVector<double, 1>> V; typedef Dune::OwnerOverlapCopyCommunication<long, int> C;
  int me = sim_rank(), np = sim_size(); Rng g = dataRng(11);
  int N = P("n", 1, 14); int dens = P("sharing", 0, 2);
  Scenario s; s.P = np; s.N = N; for (int i = 0; i < N; ++i) s.gid.push_back(3L * i + 1);
  s.att.assign(np, std::vector<int>(N, 0)); s.loc.assign(np, std::vector<int>(N, -1)); s.nloc.assign(np, 0); s.extra.resize(np); s.owner.resize(N);
  for (int i = 0; i < N; ++i) { s.owner[i] = (int)g.below(np); s.att[s.owner[i]][i] = OWNER; for (int r = 0; r < np; ++r) if (r != s.owner[i]) { int k = (int)g.below(1000); s.att[r][i] = k < 150 + 200 * dens ? COPY : k < 250 + 200 * dens ? OVERLAP : NONE; } }
  bool ghosts = P("ghosts", 0, 1); if (!ghosts) for (auto& a : s.att) for (int& x : a) if (x == OVERLAP) x = NONE;
  for (int r = 0; r < np; ++r) { std::vector<int> m; for (int i = 0; i < N; ++i) if (s.att[r][i]) m.push_back(i); if (g.below(2)) g.shuffle(m); for (size_t k = 0; k < m.size(); ++k) s.loc[r][m[k]] = (int)k; s.nloc[r] = (int)m.size(); }
  auto full = [&](int r, int i) { return s.att[r][i] == OWNER || s.att[r][i] == COPY; };
  std::vector<std::map<int, double>> A(N); std::vector<std::vector<std::map<int, double>>> loc(np, std::vector<std::map<int, double>>(N));
  for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) {
    std::vector<int> h; for (int r = 0; r < np; ++r) if (full(r, i) && full(r, j)) h.push_back(r);
    if (h.empty() || (i != j && g.below(3) == 0)) continue;
    double v = i == j ? (double)g.range(10, 20) : (double)g.range(-5, 5); A[i][j] = v;
    int oi = s.owner[i], oj = s.owner[j]; bool split = oi != oj && full(oi, j) && full(oj, i);
    double part = (double)g.range(-5, 5);
    for (int r : h) loc[r][i][j] = split ? (r == oi ? part : r == oj ? v - part : v) : v;
  }
  // entries towards ghosts may be present; they must not contribute
  for (int r = 0; r < np; ++r) for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) if (s.att[r][i] && s.att[r][j] && (s.att[r][i] == OVERLAP || s.att[r][j] == OVERLAP) && g.below(2)) loc[r][i][j] = 9;
  int n = s.nloc[me]; std::vector<int> inv(n); for (int i = 0; i < N; ++i) if (s.loc[me][i] >= 0) inv[s.loc[me][i]] = i;
  auto M = std::make_shared<Mat>(n, n, Mat::row_wise);
  for (auto row = M->createbegin(); row != M->createend(); ++row) { for (auto& c : loc[me][inv[row.index()]]) row.insert(s.loc[me][c.first]); }
  for (auto row = M->begin(); row != M->end(); ++row) for (auto c = row->begin(); c != row->end(); ++c) *c = loc[me][inv[row.index()]].at(inv[c.index()]);
  auto comm = buildComm<long>(s, g, P("build", 0, 2), MPI_COMM_WORLD, Dune::SolverCategory::nonoverlapping);
  Dune::NonoverlappingSchwarzOperator<Mat, V, V, C> op(M, *comm);
  int steps = P("steps", 1, 4);
  for (int st = 0; st < steps; ++st) {
    Shape sx(g), sy(g); std::vector<double> X(N), Y0(N), R(N, 0.0); for (int i = 0; i < N; ++i) X[i] = sx(s.owner[i], (double)g.range(-50, 50)); for (int i = 0; i < N; ++i) Y0[i] = sy(s.owner[i], (double)g.range(-50, 50));
    for (int i = 0; i < N; ++i) for (auto& c : A[i]) R[i] += c.second * X[c.first];
    double alpha = (double)g.range(-3, 3); bool scale = g.below(2); V x(n), y(n);
    for (int i = 0; i < N; ++i) if (s.att[me][i]) { x[s.loc[me][i]] = X[i]; y[s.loc[me][i]] = Y0[i]; }
    if (scale) op.applyscaleadd(alpha, x, y); else op.apply(x, y);
    for (int i = 0; i < N; ++i) if (full(me, i)) { double want = scale ? Y0[i] + alpha * R[i] : R[i], have = y[s.loc[me][i]]; hash(have);
      WL_CHECK(have == want, "operator-wrong", "step %d: nonoverlapping %s on rank %d gives %g at index %d (attribute %d), the assembled global product is %g", st, scale ? "applyscaleadd" : "apply", me, have, i, s.att[me][i], want); }
  }
}

// ---- C04
// a user's preconditioner: prepares, counts its applications, and cleans up
template <class V> struct Custom : Dune::Preconditioner<V, V> {
  double w; int n = 0; explicit Custom(double w_) : w(w_) {}
  void pre(V& x, V& b) override { for (auto& e : x) e += 1.0; b *= 2; }
  void apply(V& v, const V& d) override { ++n; v = d; v *= w; for (auto& e : v) e += (double)n; }
  void post(V& x) override { x *= 4; }
  Dune::SolverCategory::Category category() const override { return Dune::SolverCategory::sequential; }
};
template <class Mat, class V> std::shared_ptr<Dune::Preconditioner<V, V>> seqPrec(int kind, std::shared_ptr<const Mat> A, int it, double w) {
  switch (kind) {
    case 0: return std::make_shared<Dune::SeqJac<Mat, V, V>>(*A, it, w);
    case 1: return std::make_shared<Dune::SeqSOR<Mat, V, V>>(*A, it, w);
    case 2: return std::make_shared<Dune::SeqSSOR<Mat, V, V>>(*A, it, w);
    case 3: return std::make_shared<Dune::SeqGS<Mat, V, V>>(*A, it, w);
    case 4: return std::make_shared<Dune::SeqILU<Mat, V, V>>(*A, 0, w);
    case 5: return std::make_shared<Dune::SeqILU<Mat, V, V>>(*A, 1, w);
    case 6: return std::make_shared<Dune::Richardson<V, V>>(w);
    case 8: return std::make_shared<Custom<V>>(w);
    default: return std::make_shared<Dune::SeqDILU<Mat, V, V>>(*A, w);
  }
}
template <class B, class F> void precs() {
  typedef Dune::BCRSMatrix<B> Mat; typedef Dune::BlockVector<F> V; typedef Dune::OwnerOverlapCopyCommunication<long, int> C; typedef Dune::Preconditioner<V, V> Pr;
  int me = sim_rank(), np = sim_size(); Rng g = dataRng(12); constexpr int b = std::is_arithmetic_v<B> ? 1 : (int)sizeof(F) / 8;
  Problem p = makeProblem(g, np, 1, 20, 2); int kind = P("prec", 0, 8), wrapper = P("wrapper", 0, 4), iters = P("iters", 1, 3); double w = P("relax", 0, 2) * 0.25 + 0.5;
  bool nonov = wrapper == 1 || wrapper == 4; if (wrapper > 2) kind = 1; const Scenario& s = p.s;
  auto comm = problemComm<C>(p, MPI_COMM_WORLD, nonov ? Dune::SolverCategory::nonoverlapping : Dune::SolverCategory::overlapping);
  std::vector<std::shared_ptr<Mat>> mats; for (int r = 0; r < np; ++r) mats.push_back(localMatrix<B>(p, r));
  std::shared_ptr<Pr> mine; 
  std::shared_ptr<Pr> inner = seqPrec<Mat, V>(kind, mats[me], iters, w);
  std::shared_ptr<Dune::BlockPreconditioner<V, V, C, Pr>> bp; std::shared_ptr<Dune::NonoverlappingBlockPreconditioner<C, Pr>> nb; std::shared_ptr<Dune::ParSSOR<Mat, V, V, C>> ps;
  typedef Dune::SeqSOR<Mat, V, V> Sor; std::shared_ptr<Dune::BlockPreconditioner<V, V, C, Sor>> db; std::shared_ptr<Dune::NonoverlappingBlockPreconditioner<C, Sor>> dn; auto mySor = std::make_shared<Sor>(*mats[me], iters, w);
  if (wrapper == 3) mine = db = std::make_shared<Dune::BlockPreconditioner<V, V, C, Sor>>(mySor, *comm); else if (wrapper == 4) mine = dn = std::make_shared<Dune::NonoverlappingBlockPreconditioner<C, Sor>>(mySor, *comm); else
  if (wrapper == 0) mine = bp = std::make_shared<Dune::BlockPreconditioner<V, V, C, Pr>>(inner, *comm); else if (wrapper == 1) mine = nb = std::make_shared<Dune::NonoverlappingBlockPreconditioner<C, Pr>>(inner, *comm); else mine = ps = std::make_shared<Dune::ParSSOR<Mat, V, V, C>>(*mats[me], iters, w, *comm);
  WL_CHECK(mine->category() == comm->category(), "prec-category", "the parallel preconditioner reports category %d", (int)mine->category());
  // model: the sequential preconditioner of every rank, then the documented exchange
  std::vector<std::shared_ptr<Pr>> seq; for (int r = 0; r < np; ++r) seq.push_back(seqPrec<Mat, V>(wrapper == 2 ? 2 : kind, mats[r], iters, w));
  int steps = P("steps", 1, 4);
  std::vector<V> mx(np), md(np); 
  Shape sx(g), sd(g);
  for (int r = 0; r < np; ++r) { mx[r].resize(s.nloc[r]); md[r].resize(s.nloc[r]); for (int j = 0; j < s.nloc[r]; ++j) for (int c = 0; c < b; ++c) { comp(mx[r], j, c) = sx(r, g.sym()); comp(md[r], j, c) = sd(r, g.sym()); } }
  auto ownerCopy = [&](std::vector<V>& v) { std::vector<V> o = v; for (int i = 0; i < p.N; ++i) for (int r = 0; r < np; ++r) if (r != s.owner[i] && s.att[r][i]) for (int c = 0; c < b; ++c) comp(v[r], s.loc[r][i], c) = comp(o[s.owner[i]], s.loc[s.owner[i]][i], c); };
  auto addOC = [&](std::vector<V>& v) { std::vector<V> o = v; for (int i = 0; i < p.N; ++i) for (int r = 0; r < np; ++r) if (s.att[r][i] == OWNER || s.att[r][i] == COPY) for (int q = 0; q < np; ++q) if (q != r && (s.att[q][i] == OWNER || s.att[q][i] == COPY)) for (int c = 0; c < b; ++c) comp(v[r], s.loc[r][i], c) += comp(o[q], s.loc[q][i], c); };
  auto cmp = [&](V& v, V& m, const char* what, int st, double tol) { for (int j = 0; j < (int)v.size(); ++j) for (int c = 0; c < b; ++c) { double h = comp(v, j, c), e = comp(m, j, c); WL_CHECK(std::abs(h - e) <= tol * (1 + std::abs(e)), "prec-wrong", "step %d: %s: rank %d local entry %d is %.17g, the model (sequential preconditioner of every rank followed by the exchange) gives %.17g", st, what, me, j, h, e); hash(h); } };
  V x = mx[me], d = md[me];
  mine->pre(x, d); std::vector<V> mb = md; for (int r = 0; r < np; ++r) if (wrapper != 2) seq[r]->pre(mx[r], mb[r]); if (!nonov) ownerCopy(mx);
  cmp(x, mx[me], "pre", -1, 0); cmp(d, mb[me], "pre (right hand side)", -1, 0);
  for (int st = 0; st < steps; ++st) {
    std::vector<V> mv(np); bool zero = g.below(2); Shape sv(g), sw(g);
    for (int r = 0; r < np; ++r) { mv[r].resize(s.nloc[r]); for (int j = 0; j < s.nloc[r]; ++j) for (int c = 0; c < b; ++c) { comp(mv[r], j, c) = zero ? 0 : sv(r, g.sym()); comp(md[r], j, c) = sw(r, g.sym()); } }
    V v = mv[me]; d = md[me]; V d0 = d;
    int dir = wrapper > 2 ? (int)g.below(3) : 0; typedef Sor* SP;
    if (dir == 0) { mine->apply(v, d); for (int r = 0; r < np; ++r) seq[r]->apply(mv[r], md[r]); }
    else if (dir == 1) { if (db) db->template apply<true>(v, d); else dn->template apply<true>(v, d); for (int r = 0; r < np; ++r) dynamic_cast<SP>(seq[r].get())->template apply<true>(mv[r], md[r]); sim_probe("forward-sweep"); }
    else { if (db) db->template apply<false>(v, d); else dn->template apply<false>(v, d); for (int r = 0; r < np; ++r) dynamic_cast<SP>(seq[r].get())->template apply<false>(mv[r], md[r]); sim_probe("backward-sweep"); }
    if (nonov) addOC(mv); else ownerCopy(mv);
    cmp(v, mv[me], "apply", st, nonov ? 1e-12 : 0); cmp(d, d0, "apply (defect argument)", st, 0);
    for (int r = 0; r < np; ++r) mv[r] = v.size() ? mv[r] : mv[r];
  }
  V xp = mx[me]; if (wrapper != 2) seq[me]->post(xp); mine->post(x); cmp(x, xp, "post", steps, 0);
}
static void runPrecs() { switch (P("type", 0, 1)) { case 0: precs<Dune::FieldMatrix<double, 1, 1>, Dune::FieldVector<double, 1>>(); break; default: precs<Dune::FieldMatrix<double, 2, 2>, Dune::FieldVector<double, 2>>(); } }

WL_TABLE({"overlapping_op", SIM_RANKS, 1, 5, nullptr, runOverlapping, nullptr, 1},
         {"nonoverlapping_op", SIM_RANKS, 1, 5, nullptr, runNonoverlapping, nullptr, 1},
         {"preconditioners", SIM_RANKS, 1, 4, nullptr, runPrecs, nullptr, 1})
