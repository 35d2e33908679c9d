// C17: threads with their own copies of AMG methods, their own solvers and preconditioners on shared constant matrices,
// operators and scalar products; preempted at any memory access. Every result must be bitwise the one of the same
// work done alone, and no two accesses may conflict without an order.
#include "wl.hh"
#include <sstream>
#include <dune/common/fmatrix.hh>
#include <dune/common/fvector.hh>
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/bdmatrix.hh>
#include <dune/istl/btdmatrix.hh>
#include <dune/istl/bvector.hh>
#include <dune/istl/cholmod.hh>
#include <dune/istl/ldl.hh>
#include <dune/istl/matrix.hh>
#include <dune/istl/matrixindexset.hh>
#include <dune/istl/matrixmarket.hh>
#include <dune/istl/matrixmatrix.hh>
#include <dune/istl/operators.hh>
#include <dune/istl/overlappingschwarz.hh>
#include <dune/istl/paamg/amg.hh>
#include <dune/istl/paamg/fastamg.hh>
#include <dune/istl/paamg/kamg.hh>
#include <dune/istl/paamg/twolevelmethod.hh>
#include <dune/istl/preconditioners.hh>
#include <dune/istl/scalarproducts.hh>
#include <dune/istl/solverfactory.hh>
#include <dune/istl/solvers.hh>
#include <dune/istl/spqr.hh>
#include <dune/istl/superlu.hh>
#include <dune/istl/umfpack.hh>
#include <dune/istl/vbvector.hh>
using namespace wl; namespace Amg = Dune::Amg;
template <class B, class E> struct Kit {
  typedef Dune::BCRSMatrix<B> M; typedef Dune::BlockVector<E> V; typedef Dune::MatrixAdapter<M, V, V> Op;
};
typedef Dune::FieldMatrix<double, 1, 1> D1; typedef Dune::FieldMatrix<double, 2, 2> D2; typedef Dune::FieldMatrix<float, 1, 1> F1; typedef Dune::FieldMatrix<std::complex<double>, 1, 1> Z1;
typedef Kit<D1, Dune::FieldVector<double, 1>> K1; typedef Kit<D2, Dune::FieldVector<double, 2>> K2; typedef Kit<F1, Dune::FieldVector<float, 1>> KF; typedef Kit<Z1, Dune::FieldVector<std::complex<double>, 1>> KZ;
typedef K1::V V1; typedef K1::M M1;
typedef std::vector<double> Out;
template <class V> static void add(Out& o, const V& v) { for (auto& e : v) for (auto& c : e) { o.push_back((double)std::real(c)); o.push_back((double)std::imag(c)); } }
template <class M> static void addM(Out& o, const M& A) { for (auto r = A.begin(); r != A.end(); ++r) for (auto c = r->begin(); c != r->end(); ++c) { o.push_back((double)r.index()); o.push_back((double)c.index()); for (auto& x : *c) for (auto& y : x) o.push_back((double)std::real(y)); } }
// symmetric, diagonally dominant: a one or two dimensional grid with a few random links
template <class M> static std::shared_ptr<M> gridMatrix(Rng& g, int nx, int ny) {
  int n = nx * ny; std::vector<std::set<int>> pat(n); auto link = [&](int i, int j) { pat[i].insert(j); pat[j].insert(i); };
  for (int y = 0; y < ny; ++y) for (int x = 0; x < nx; ++x) { int i = y * nx + x; pat[i].insert(i); if (x) link(i, i - 1); if (y) link(i, i - nx); }
  for (int k = (int)g.below(n / 4 + 1); k-- > 0;) link((int)g.below(n), (int)g.below(n));
  Dune::MatrixIndexSet is(n, n); for (int i = 0; i < n; ++i) for (int j : pat[i]) is.add(i, j); auto A = std::make_shared<M>(); is.exportIdx(*A); *A = 0;
  int aniso = (int)g.range(1, 4);
  for (int i = 0; i < n; ++i) { int d = 1; for (int j : pat[i]) if (j != i) { int w = std::abs(i - j) == 1 ? aniso : 1; d += w; for (size_t q = 0; q < M::block_type::rows; ++q) (*A)[i][j][q][q] = -w; } for (size_t p = 0; p < M::block_type::rows; ++p) for (size_t q = 0; q < M::block_type::rows; ++q) (*A)[i][i][p][q] = p == q ? d + 1 : 0.25; }
  return A;
}
template <class V> static V randomVector(Rng& g, size_t n) { V v(n); for (auto& e : v) for (auto& c : e) c = (float)g.range(-8, 8) / 8; return v; }

template <class K, class S> struct AmgKit {
  typedef Amg::AMG<typename K::Op, typename K::V, S> A; std::shared_ptr<typename K::M> mat; std::shared_ptr<typename K::Op> op; std::unique_ptr<A> proto;
  typename Amg::SmootherTraits<S>::Arguments args() { typename Amg::SmootherTraits<S>::Arguments a; a.iterations = P("iters", 1, 2); a.relaxationFactor = 1; return a; }
  typedef Amg::CoarsenCriterion<std::conditional_t<std::is_same<K, KZ>::value, Amg::UnSymmetricCriterion<typename K::M, Amg::RowSum>, Amg::SymmetricCriterion<typename K::M, Amg::FirstDiagonal>>> Crit;
  static Crit crit() { Crit c(P("maxlevel", 1, 4), P("target", 1, 6)); c.setDefaultValuesIsotropic(2); c.setGamma(P("gamma", 1, 2)); c.setNoPreSmoothSteps(P("pre", 1, 2)); c.setNoPostSmoothSteps(P("post", 0, 2)); c.setAdditive(P("additive", 0, 3) == 3); c.setDebugLevel(0); return c; }
  void build(Rng& g) { mat = gridMatrix<typename K::M>(g, P("nx", 2, 6), P("ny", 1, 5)); op = std::make_shared<typename K::Op>(mat); }
  void makeProto(Rng& g) { proto = std::make_unique<A>(*op, crit(), args()); int used = P("used", 0, 2); if (used) { auto x = randomVector<typename K::V>(g, mat->N()), b = x; proto->pre(x, b); if (used == 2) { x = 0; proto->apply(x, b); proto->post(x); } } }
};
struct World {
  AmgKit<K1, Dune::SeqSSOR<M1, V1, V1>> a1; AmgKit<K2, Dune::SeqJac<K2::M, K2::V, K2::V>> a2; AmgKit<KF, Dune::SeqILU<KF::M, KF::V, KF::V>> af; AmgKit<KZ, Dune::SeqSSOR<KZ::M, KZ::V, KZ::V>> az;
  typedef Amg::FastAMG<K1::Op, V1> Fast; std::unique_ptr<Fast> fast;
  typedef Amg::KAMG<K1::Op, V1, Dune::SeqSSOR<M1, V1, V1>> Kamg; std::unique_ptr<Kamg> kamg;
  typedef Amg::CoarsenCriterion<Amg::UnSymmetricCriterion<M1, Amg::FirstDiagonal>> TCrit; typedef Amg::AggregationLevelTransferPolicy<K1::Op, TCrit> Transfer; typedef Dune::SeqJac<M1, V1, V1> CS; typedef Amg::OneStepAMGCoarseSolverPolicy<K1::Op, CS, TCrit> Coarse;
  typedef Dune::SeqSSOR<M1, V1, V1> FS1; typedef Dune::SeqOverlappingSchwarz<M1, V1, Dune::AdditiveSchwarzMode, Dune::UMFPack<M1>> FS2;
  typedef Amg::TwoLevelMethod<K1::Op, Coarse, FS1> Two1; typedef Amg::TwoLevelMethod<K1::Op, Coarse, FS2> Two2; std::unique_ptr<Two1> two1; std::unique_ptr<Two2> two2;
  Dune::SeqScalarProduct<V1> sp; std::unique_ptr<Dune::BDMatrix<D2>> bd; std::unique_ptr<Dune::BTDMatrix<D1>> btd; std::unique_ptr<Dune::Matrix<D1>> dense; std::unique_ptr<Dune::VariableBlockVector<double>> vb; V1 vec;
  std::string text;
};
static World* W = nullptr;
template <class Prec, class Op> static Out usePrec(Prec& p, const std::shared_ptr<Op>& op, Rng& g, bool solve) {
  typedef typename Op::domain_type V; size_t n = op->getmat().N(); Out o; V x = randomVector<V>(g, n), b = randomVector<V>(g, n);
  if (solve) { Dune::SeqScalarProduct<V> sp; Dune::InverseOperatorResult res; Dune::GeneralizedPCGSolver<V> s(*op, sp, p, 1e-6, 6, 0); s.apply(x, b, res); o.push_back(res.iterations); o.push_back(res.converged); }
  else { p.pre(x, b); for (int k = (int)g.range(1, 2); k-- > 0;) { V v(n); v = 0; p.apply(v, b); add(o, v); b = randomVector<V>(g, n); } p.post(x); }
  add(o, x); return o;
}
template <class Kt> static Out amgJob(Kt& k, Rng& g) { typename Kt::A copy(*k.proto); bool second = g.chance(300); Out o = usePrec(copy, k.op, g, g.chance(400)); if (second) { typename Kt::A again(copy); Out q = usePrec(again, k.op, g, false); o.insert(o.end(), q.begin(), q.end()); } return o; }
enum { NJOB = 18 };
static Out job(int kind, Rng g) {
  World& w = *W; Out o; auto op = w.a1.op; const M1& A = *w.a1.mat; size_t n = A.N();
  switch (kind) {
  case 1: { V1 x = randomVector<V1>(g, n), y = x; A.mv(x, y); add(o, y); A.umtv(x, y); A.usmv(0.5, w.vec, y); add(o, y); o.push_back(A.frobenius_norm()); o.push_back(A.infinity_norm()); o.push_back((double)A.nonzeroes()); for (size_t i = 0; i < n; ++i) { size_t j = g.below(n); if (A.exists(i, j)) o.push_back(A[i][j][0][0]); }
    const auto& d = w.bd; if (d->N()) { K2::V u = randomVector<K2::V>(g, d->N()), v = u; d->mv(u, v); add(o, v); } V1 p = randomVector<V1>(g, w.btd->N()), q = p; w.btd->mv(p, q); add(o, q); V1 s = randomVector<V1>(g, w.dense->M()), t(w.dense->N()); t = 0; w.dense->umv(s, t); add(o, t); o.push_back(w.vb->two_norm()); o.push_back(w.sp.dot(w.vec, w.vec)); } break;
  case 2: { M1 B(A), C; C = A; if (n) { B[0] *= 2; B *= 3; B[n - 1][n - 1] = 7; } V1 x = randomVector<V1>(g, n), y = x; B.mv(x, y); add(o, y); C.mv(x, y); add(o, y); B = C; C -= A; o.push_back(C.frobenius_norm()); B += A; addM(o, B); M1 D(std::move(B)); addM(o, D); auto bd(*w.bd); bd *= 2; o.push_back(bd.frobenius_norm()); auto vb(*w.vb); vb *= 2; o.push_back(vb.one_norm()); V1 z(w.vec); z *= 2; add(o, z); } break;
  case 3: { std::unique_ptr<Dune::Preconditioner<V1, V1>> p; switch (g.below(9)) { case 0: p.reset(new Dune::SeqJac<M1, V1, V1>(A, 2, 0.9)); break; case 1: p.reset(new Dune::SeqSOR<M1, V1, V1>(A, 1, 0.9)); break; case 2: p.reset(new Dune::SeqSSOR<M1, V1, V1>(A, 2, 1)); break; case 3: p.reset(new Dune::SeqGS<M1, V1, V1>(A, 1, 1)); break;
      case 4: p.reset(new Dune::SeqILU<M1, V1, V1>(A, 0, 1, g.chance(500))); break; case 5: p.reset(new Dune::SeqILU<M1, V1, V1>(A, 1, 1, g.chance(500))); break; case 6: p.reset(new Dune::SeqILDL<M1, V1, V1>(A, 1)); break; case 7: p.reset(new Dune::SeqDILU<M1, V1, V1>(A, 1)); break; default: p.reset(new Dune::Richardson<V1, V1>(0.1)); }
    o = usePrec(*p, op, g, g.chance(300)); } break;
  case 4: { Dune::SeqSSOR<M1, V1, V1> p(A, 1, 1); V1 x = randomVector<V1>(g, n), b = randomVector<V1>(g, n); Dune::InverseOperatorResult r; std::unique_ptr<Dune::InverseOperator<V1, V1>> s;
    switch (g.below(9)) { case 0: s.reset(new Dune::LoopSolver<V1>(*op, w.sp, p, 1e-6, 5, 0)); break; case 1: s.reset(new Dune::GradientSolver<V1>(*op, w.sp, p, 1e-6, 5, 0)); break; case 2: s.reset(new Dune::CGSolver<V1>(*op, w.sp, p, 1e-6, 5, 0)); break; case 3: s.reset(new Dune::BiCGSTABSolver<V1>(*op, w.sp, p, 1e-6, 5, 0)); break;
      case 4: s.reset(new Dune::MINRESSolver<V1>(*op, w.sp, p, 1e-6, 5, 0)); break; case 5: s.reset(new Dune::RestartedGMResSolver<V1>(*op, w.sp, p, 1e-6, 3, 5, 0)); break; case 6: s.reset(new Dune::RestartedFlexibleGMResSolver<V1>(*op, w.sp, p, 1e-6, 3, 5, 0)); break; case 7: s.reset(new Dune::RestartedFCGSolver<V1>(*op, w.sp, p, 1e-6, 5, 0, 3)); break; default: s.reset(new Dune::CompleteFCGSolver<V1>(*op, w.sp, p, 1e-6, 5, 0, 3)); }
    try { s->apply(x, b, r); } catch (const Dune::SolverAbort&) { o.push_back(-1); } o.push_back(r.iterations); o.push_back(r.converged); add(o, x); } break;
  case 5: case 6: o = amgJob(w.a1, g); break;
  case 7: o = amgJob(w.a2, g); break;
  case 8: o = amgJob(w.af, g); break;
  case 9: o = amgJob(w.az, g); break;
  case 10: { World::Fast f(*w.fast); o = usePrec(f, op, g, g.chance(400)); } break;
  case 11: { World::Kamg k(*w.kamg); o = usePrec(k, op, g, g.chance(400)); } break;
  case 12: { World::Two1 t(*w.two1); o = usePrec(t, op, g, g.chance(400)); } break;
  case 13: { World::Two2 t(*w.two2); o = usePrec(t, op, g, g.chance(400)); } break;
  case 14: { typedef decltype(w.a1) Kt; Kt::A a(*op, Kt::crit(), w.a1.args()); o = usePrec(a, op, g, false); } break;
  case 15: { std::unique_ptr<Dune::InverseOperator<V1, V1>> s; switch (g.below(5)) { case 0: s.reset(new Dune::UMFPack<M1>(A, 0)); break; case 1: s.reset(new Dune::SuperLU<M1>(A, false)); break; case 2: s.reset(new Dune::LDL<M1>(A, 0)); break; case 3: s.reset(new Dune::SPQR<M1>(A, 0)); break; default: { auto c = new Dune::Cholmod<V1>(); s.reset(c); c->setMatrix(A); } }
    for (int k = 0; k < 2; ++k) { V1 x(n), b = randomVector<V1>(g, n); x = 0; Dune::InverseOperatorResult r; s->apply(x, b, r); o.push_back(r.converged); add(o, x); } } break;
  case 16: { M1 B, C; Dune::matMultMat(B, A, A); addM(o, B); Dune::transposeMatMultMat(C, A, A); addM(o, C); Dune::MatrixIndexSet is(n, n); is.import(A); M1 D; is.exportIdx(D); D = 1; addM(o, D); } break;
  case 17: { std::ostringstream s; Dune::writeMatrixMarket(A, s); o.push_back((double)s.str().size()); std::istringstream in(w.text); M1 B; Dune::readMatrixMarket(B, in); addM(o, B); } break;
  default: { Dune::ParameterTree t; static const char* solvers[] = {"loopsolver", "cgsolver", "bicgstabsolver", "restartedgmressolver", "umfpack", "minressolver"}; static const char* precs[] = {"jac", "ssor", "ilu", "ildl", "dilu", "richardson", "amg"}; t["type"] = solvers[g.below(6)]; t["verbose"] = "0"; t["maxit"] = "4"; t["reduction"] = "1e-5"; t["restart"] = "3"; t["preconditioner.type"] = precs[g.below(7)]; t["preconditioner.iterations"] = "1"; t["preconditioner.relaxation"] = "1"; t["preconditioner.verbosity"] = "0"; t["preconditioner.smoother"] = "ssor";
    std::shared_ptr<Dune::Preconditioner<V1, V1>> own; std::weak_ptr<Dune::Preconditioner<V1, V1>> alive; double relax = 0.5 + 0.01 * g.below(50); if (g.chance(400)) { own = std::make_shared<Dune::SeqSSOR<M1, V1, V1>>(A, 1, relax); alive = own; }
    auto s = Dune::getSolverFromFactory(op, t, own); own = nullptr; V1 x = randomVector<V1>(g, n), b = randomVector<V1>(g, n); Dune::InverseOperatorResult r; try { s->apply(x, b, r); } catch (const Dune::SolverAbort&) { o.push_back(-1); } o.push_back(r.iterations); add(o, x); s = nullptr; o.push_back(alive.use_count()); }
  }
  return o;
}
static std::vector<std::vector<std::pair<int, Out>>> expected; // per thread and step
static const char* jobName(int k) { static const char* n[] = {"?", "constant matrices", "copies of matrices", "preconditioners", "Krylov solvers", "copies of AMG", "copies of AMG", "copies of AMG (2x2 blocks)", "copies of AMG (float)", "copies of AMG (complex)", "copies of FastAMG", "copies of KAMG", "copies of TwoLevelMethod", "copies of TwoLevelMethod with overlapping Schwarz", "AMG set-up", "direct solvers", "matrix products", "Matrix Market streams", "solver factory"}; return n[k]; }
static Rng jobRng(int t, int s, int k) { return dataRng(1000 + 64 * t + s + 7919 * k); }
static int jobOf(int t, int s) { char b[40]; snprintf(b, sizeof b, "job.%d.%d", t, s); int f = P("focus", 0, 2); int k = P(b, 0, NJOB); if (!k || !f) return k; return f == 1 ? (k % 3 == 0 ? k : P("kind", 1, NJOB)) : P("kind", 1, NJOB); }
static void setup() {
  Dune::dwarn.push(false); Dune::dinfo.push(false); Dune::dverb.push(false);
  Rng g = dataRng(3); W = new World; World& w = *W; int nt = P("tasks", 1, 4); int steps = P("steps", 1, 3);
  std::set<int> kinds; for (int t = 0; t < nt; ++t) for (int s = 0; s < steps; ++s) kinds.insert(jobOf(t, s));
  auto any = [&](int a, int b) { for (int k = a; k <= b; ++k) if (kinds.count(k)) return true; return false; };
  w.a1.build(g); const auto& A = *w.a1.mat; w.vec = randomVector<V1>(g, A.N());
  w.bd = std::make_unique<Dune::BDMatrix<D2>>((int)g.range(1, 4)); *w.bd = 0; for (size_t i = 0; i < w.bd->N(); ++i) for (int p = 0; p < 2; ++p) for (int q = 0; q < 2; ++q) (*w.bd)[i][i][p][q] = (double)g.range(1, 5);
  w.btd = std::make_unique<Dune::BTDMatrix<D1>>((int)g.range(2, 5)); *w.btd = 2.0; w.dense = std::make_unique<Dune::Matrix<D1>>(3, 4); *w.dense = 0.5; w.vb = std::make_unique<Dune::VariableBlockVector<double>>(3, 2); *w.vb = 1.5;
  if (any(5, 6)) w.a1.makeProto(g); if (any(7, 7)) { w.a2.build(g); w.a2.makeProto(g); } if (any(8, 8)) { w.af.build(g); w.af.makeProto(g); } if (any(9, 9)) { w.az.build(g); w.az.makeProto(g); }
  auto used = [&](auto& p) { int u = P("used", 0, 2); if (!u) return; auto x = randomVector<V1>(g, A.N()), b = x; p.pre(x, b); if (u == 2) { x = 0; p.apply(x, b); p.post(x); } };
  if (any(10, 10)) { Amg::Parameters q; q.setDefaultValuesIsotropic(2); Amg::CoarsenCriterion<Amg::SymmetricCriterion<M1, Amg::FirstDiagonal>> c = decltype(w.a1)::crit(); c.setNoPreSmoothSteps(1); c.setNoPostSmoothSteps(1); c.setAdditive(false); w.fast = std::make_unique<World::Fast>(*w.a1.op, c, c, g.chance(500)); used(*w.fast); }
  if (any(11, 11)) { auto c = decltype(w.a1)::crit(); c.setAdditive(false); c.setGamma(1); w.kamg = std::make_unique<World::Kamg>(*w.a1.op, c, w.a1.args(), 2, 1e-1); used(*w.kamg); }
  if (any(12, 13)) { World::TCrit c(P("maxlevel", 1, 4), P("target", 1, 6)); c.setDebugLevel(0); World::Coarse cp(Amg::SmootherTraits<World::CS>::Arguments(), c); World::Transfer tp(c);
    if (any(12, 12)) { w.two1 = std::make_unique<World::Two1>(*w.a1.op, std::make_shared<World::FS1>(A, 1, 1.0), tp, cp, P("pre", 1, 2), P("post", 0, 2)); used(*w.two1); }
    if (any(13, 13)) { World::FS2::subdomain_vector sd((A.N() + 2) / 3); for (size_t i = 0; i < A.N(); ++i) { sd[i / 3].insert(i); if (i && i % 3 == 0) sd[i / 3].insert(i - 1); } w.two2 = std::make_unique<World::Two2>(*w.a1.op, std::make_shared<World::FS2>(A, sd, 1.0, g.chance(500)), tp, cp, P("pre", 1, 2), P("post", 0, 2)); used(*w.two2); } }
  if (any(17, 17)) { std::ostringstream s; Dune::writeMatrixMarket(A, s); w.text = s.str(); }
  if (any(18, 18)) Dune::initSolverFactories<K1::Op>();
  expected.assign(nt, {}); bool late = P("late", 0, 1); // the reference may also be computed afterwards, so that lazy initialisation happens in the threads
  for (int t = 0; t < nt; ++t) for (int s = 0; s < steps; ++s) { int k = jobOf(t, s); expected[t].push_back({k, k && !late ? job(k, jobRng(t, s, k)) : Out()}); }
}
static void compare(int t, int s, int k, const Out& got, const Out& want) {
  WL_CHECK(got.size() == want.size(), "disturbed", "thread %d, step %d (%s): %zu numbers instead of %zu", t, s, jobName(k), got.size(), want.size());
  for (size_t i = 0; i < got.size(); ++i) WL_CHECK(same(got[i], want[i]), "disturbed", "thread %d, step %d (%s): number %zu is %.17g instead of %.17g", t, s, jobName(k), i, got[i], want[i]);
}
static std::vector<std::vector<Out>> results(8);
static void run() {
  int t = sim_rank(), steps = P("steps", 1, 3);
  for (int s = 0; s < steps; ++s) { int k = expected[t][s].first; Out o; if (k) o = job(k, jobRng(t, s, k)); results[t].push_back(o); for (double d : o) hash(d); if (k) sim_probe(jobName(k)); }
}
static void check() {
  bool late = P("late", 0, 1);
  for (size_t t = 0; t < expected.size(); ++t) for (size_t s = 0; s < expected[t].size(); ++s) { int k = expected[t][s].first; if (!k) continue; compare((int)t, (int)s, k, results[t][s], late ? job(k, jobRng((int)t, (int)s, k)) : expected[t][s].second); }
}
WL_TABLE({"threads", SIM_THREADS, 2, 4, setup, run, check, 0})
