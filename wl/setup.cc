// C18: preconditioners, multigrid methods, Krylov solvers and products of matrices while allocations fail, in histories of
// construction, copy, use, Krylov solves, new matrix values and destruction. A failed operation throws; whatever succeeds gives
// bitwise the result of an undisturbed fresh object; the operands are untouched; nothing is lost.
#include "wl.hh"
#include <functional>
#include <iostream>
#include <new>
#include <sstream>
#include <dune/common/fmatrix.hh>
#include <dune/common/fvector.hh>
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/bvector.hh>
#include <dune/istl/matrixindexset.hh>
#include <dune/istl/matrixmatrix.hh>
#include <dune/istl/operators.hh>
#include <dune/istl/overlappingschwarz.hh>
#include <dune/istl/paamg/amg.hh>
#include <dune/istl/paamg/fastamg.hh>
#include <dune/istl/paamg/kamg.hh>
#include <dune/istl/paamg/twolevelmethod.hh>
#include <dune/istl/preconditioners.hh>
#include <dune/istl/scalarproducts.hh>
#include <dune/istl/solverfactory.hh>
#include <dune/istl/solvers.hh>
#include <dune/istl/superlu.hh>
#include <dune/istl/umfpack.hh>
using namespace wl; namespace Amg = Dune::Amg;
typedef std::vector<double> Out;
template <class V> static void add(Out& o, const V& v) { for (auto& e : v) for (auto& c : e) o.push_back((double)c); }
template <class M> static void addM(Out& o, const M& A) { for (auto r = A.begin(); r != A.end(); ++r) for (auto c = r->begin(); c != r->end(); ++c) { o.push_back((double)r.index()); o.push_back((double)c.index()); for (auto& x : *c) for (auto& y : x) o.push_back((double)y); } }
template <int bs> struct Kit {
  typedef Dune::BCRSMatrix<Dune::FieldMatrix<double, bs, bs>> M; typedef Dune::BlockVector<Dune::FieldVector<double, bs>> V; typedef Dune::MatrixAdapter<M, V, V> Op; typedef Dune::Preconditioner<V, V> Prec;
  static std::shared_ptr<M> grid(Rng& g, int nx, int ny) {
    int n = nx * ny; std::vector<std::set<int>> pat(n); auto link = [&](int i, int j) { pat[i].insert(j); pat[j].insert(i); };
    for (int y = 0; y < ny; ++y) for (int x = 0; x < nx; ++x) { int i = y * nx + x; pat[i].insert(i); if (x) link(i, i - 1); if (y) link(i, i - nx); }
    for (int k = (int)g.below(n / 4 + 1); k-- > 0;) link((int)g.below(n), (int)g.below(n));
    Dune::MatrixIndexSet is(n, n); for (int i = 0; i < n; ++i) for (int j : pat[i]) is.add(i, j);
    auto A = std::make_shared<M>(); is.exportIdx(*A); values(*A, (int)g.range(1, 4)); return A;
  }
  static void values(M& A, int aniso) {
    // some rows may be coupled to no others, like those of Dirichlet nodes
    const int every[] = {1 << 20, 7, 2, 1}, iso = every[P("isolated", 0, 3)];
    A = 0; for (auto r = A.begin(); r != A.end(); ++r) { int i = (int)r.index(), d = 1; for (auto c = r->begin(); c != r->end(); ++c) if ((int)c.index() != i && i % iso != iso - 1 && (int)c.index() % iso != iso - 1) { int w = std::abs(i - (int)c.index()) == 1 ? aniso : 1; d += w; for (int q = 0; q < bs; ++q) (*c)[q][q] = -w; }
      for (int p = 0; p < bs; ++p) for (int q = 0; q < bs; ++q) (*r)[i][p][q] = p == q ? d + 1 : 0.25; }
  }
  static V vec(Rng g, size_t n) { V v(n); for (auto& e : v) for (auto& c : e) c = (float)g.range(-8, 8) / 8; return v; }
};
// a method under test: how to make one, how to copy one, how to tell it that the values of the matrix changed
template <class K> struct Method {
  typedef typename K::Prec Prec; const char* name = ""; std::function<std::unique_ptr<Prec>()> make; std::unique_ptr<Prec> (*copy)(const Prec&) = nullptr; void (*assign)(Prec&, const Prec&) = nullptr; void (*renew)(Prec&) = nullptr; bool krylov = true, dataOnly = false;
  template <class T> void canCopy() { if constexpr (std::is_copy_constructible_v<T>) copy = [](const Prec& p) -> std::unique_ptr<Prec> { return std::make_unique<T>(dynamic_cast<const T&>(p)); };
    if constexpr (std::is_copy_constructible_v<T> && std::is_copy_assignable_v<T>) assign = [](Prec& t, const Prec& p) { dynamic_cast<T&>(t) = dynamic_cast<const T&>(p); }; }
  template <class T> void canRenew() { renew = [](Prec& p) { dynamic_cast<T&>(p).recalculateHierarchy(); }; }
};
template <class K> struct World {
  typedef typename K::M M; typedef typename K::V V; typedef typename K::Op Op; typedef typename K::Prec Prec;
  std::shared_ptr<M> mat; std::shared_ptr<Op> op; Method<K> m; Dune::SeqScalarProduct<V> sp; std::vector<std::set<typename M::size_type>> sets; Dune::ParameterTree tree;
  template <class C> static C criterion(bool full) { C c(P("maxlevel", 1, 4), P("target", 1, 6)); c.setDefaultValuesIsotropic(2); c.setGamma(full ? P("gamma", 1, 2) : 1); c.setNoPreSmoothSteps(full ? P("pre", 1, 2) : 1); c.setNoPostSmoothSteps(full ? P("post", 0, 2) : 1); c.setAdditive(full && P("additive", 0, 3) == 3); c.setSkipIsolated(P("skip", 0, 1)); c.setDebugLevel(0); return c; }
  typedef Amg::CoarsenCriterion<Amg::SymmetricCriterion<M, Amg::FirstDiagonal>> Sym; typedef Amg::CoarsenCriterion<Amg::UnSymmetricCriterion<M, Amg::RowSum>> Unsym;
  template <class T> static std::unique_ptr<Prec> un(T* t) { return std::unique_ptr<Prec>(t); }
  template <class S, class C> void amg(const char* n) { m.name = n; typedef Amg::AMG<Op, V, S> A; m.make = [this] { typename Amg::SmootherTraits<S>::Arguments a; a.iterations = P("iters", 1, 2); a.relaxationFactor = 1; return un(new A(*op, criterion<C>(true), a)); }; m.template canCopy<A>(); m.template canRenew<A>(); }
  template <class S, bool copies = true> void schwarz(const char* n) { m.name = n; m.make = [this] { return un(new S(*mat, sets, 1.0, P("fly", 0, 1))); }; if constexpr (copies) m.template canCopy<S>(); }
  template <class T, class... X> void plain(const char* n, X... x) { m.name = n; m.make = [this, x...] { return un(new T(*mat, x...)); }; m.template canCopy<T>(); }
  template <class FS> void twoLevel(const char* n, std::function<std::shared_ptr<FS>()> fine) {
    typedef Amg::AggregationLevelTransferPolicy<Op, Unsym> Transfer; typedef Dune::SeqJac<M, V, V> CS; typedef Amg::OneStepAMGCoarseSolverPolicy<Op, CS, Unsym> Coarse; typedef Amg::TwoLevelMethod<Op, Coarse, FS> T; m.name = n;
    m.make = [this, fine] { Unsym c(P("maxlevel", 1, 4), P("target", 1, 6)); c.setDebugLevel(0); Coarse cp(typename Amg::SmootherTraits<CS>::Arguments(), c); Transfer tp(c); return un(new T(*op, fine(), tp, cp, P("pre", 1, 2), P("post", 0, 2))); }; m.template canCopy<T>();
  }
  enum { NMETHOD = 28 };
  void choose(int k) {
    typedef Dune::SeqSSOR<M, V, V> Ssor; typedef Dune::SeqJac<M, V, V> Jac; typedef Dune::SeqILU<M, V, V> Ilu; typedef Dune::UMFPack<M> Umf; using Dune::SeqOverlappingSchwarz;
    switch (k) {
    case 0: plain<Jac>("Jacobi", 2, 0.9); break; case 1: plain<Dune::SeqSOR<M, V, V>>("SOR", 1, 0.9); break; case 2: plain<Ssor>("SSOR", 1, 1.0); break; case 3: plain<Ilu>("ILU(0)", 0, 1.0, false); break; case 4: plain<Ilu>("ILU(0) resorted", 0, 1.0, true); break;
    case 5: plain<Ilu>("ILU(1)", 1, 1.0, false); break; case 6: plain<Ilu>("ILU(2) resorted", 2, 1.0, true); break; case 7: plain<Dune::SeqILDL<M, V, V>>("ILDL", 1.0); break; case 8: plain<Dune::SeqDILU<M, V, V>>("DILU", 1.0); break;
    case 9: { typedef Dune::InverseOperator2Preconditioner<Dune::CGSolver<V>> I; struct Own : Dune::Preconditioner<V, V> { std::shared_ptr<Ssor> s; std::shared_ptr<Dune::CGSolver<V>> c; I i; Own(World& w) : s(std::make_shared<Ssor>(*w.mat, 1, 1.0)), c(std::make_shared<Dune::CGSolver<V>>(*w.op, w.sp, *s, 1e-2, 3, 0)), i(*c) {} void pre(V& x, V& b) override { i.pre(x, b); } void apply(V& v, const V& d) override { i.apply(v, d); } void post(V& x) override { i.post(x); } Dune::SolverCategory::Category category() const override { return i.category(); } };
        m.name = "CG as preconditioner"; m.make = [this] { return un(new Own(*this)); }; } break;
    case 10: schwarz<SeqOverlappingSchwarz<M, V, Dune::AdditiveSchwarzMode, Umf>, false>("additive Schwarz with UMFPack"); break; case 11: schwarz<SeqOverlappingSchwarz<M, V, Dune::MultiplicativeSchwarzMode, Dune::ILU0SubdomainSolver<M, V, V>>>("multiplicative Schwarz with ILU(0)"); break;
    case 12: schwarz<SeqOverlappingSchwarz<M, V, Dune::SymmetricMultiplicativeSchwarzMode, Dune::ILUNSubdomainSolver<M, V, V>>>("symmetric Schwarz with ILU(n)"); break; case 13: schwarz<SeqOverlappingSchwarz<M, V, Dune::MultiplicativeSchwarzMode, Umf>, false>("multiplicative Schwarz with UMFPack"); break;
    case 14: case 15: amg<Ssor, Sym>("AMG with SSOR"); break; case 16: amg<Ilu, Unsym>("AMG with ILU"); break; case 17: amg<Jac, Unsym>("AMG with Jacobi"); break;
    case 18: { typedef Amg::AMG<Op, V, SeqOverlappingSchwarz<M, V, Dune::SymmetricMultiplicativeSchwarzMode, Umf>> A; m.name = "AMG with overlapping Schwarz"; m.make = [this] { typename A::SmootherArgs a; a.overlap = (typename decltype(a)::Overlap)(P("overlap", 0, 2) + (P("overlap", 0, 2) > 0)); a.onthefly = P("fly", 0, 1); return un(new A(*op, criterion<Sym>(true), a)); }; m.template canCopy<A>(); } break;
    case 19: case 20: { typedef Amg::FastAMG<Op, V> A; m.name = "FastAMG"; m.make = [this] { auto c = criterion<Sym>(false); c.setGamma(P("gamma", 1, 2)); return un(new A(*op, c, c, P("fly", 0, 1))); }; m.template canCopy<A>(); m.template canRenew<A>(); } break;
    case 21: case 22: { typedef Amg::KAMG<Op, V, Ssor> A; m.name = "KAMG"; m.make = [this] { typename Amg::SmootherTraits<Ssor>::Arguments a; a.iterations = P("iters", 1, 2); a.relaxationFactor = 1; return un(new A(*op, criterion<Sym>(false), a, 2, 1e-1)); }; m.template canCopy<A>(); } break;
    case 23: twoLevel<Ssor>("TwoLevelMethod with SSOR", [this] { return std::make_shared<Ssor>(*mat, 1, 1.0); }); break;
    case 24: { typedef SeqOverlappingSchwarz<M, V, Dune::AdditiveSchwarzMode, Umf> S; twoLevel<S>("TwoLevelMethod with overlapping Schwarz", [this] { return std::make_shared<S>(*mat, sets, 1.0, P("fly", 0, 1)); }); } break;
    case 25: m.name = "solver factory"; m.dataOnly = true; break; case 26: m.name = "matrix products"; m.dataOnly = true; break; default: m.name = "index sets"; m.dataOnly = true;
    }
  }
  // one use of an object: a few applications, or a Krylov solve; always ends in the same numbers
  enum { NUSE = 12 };
  Out use(Prec& p, int kind, int seed) {
    Out o; size_t n = mat->N(); V x = K::vec(dataRng(50 + seed), n), b = K::vec(dataRng(70 + seed), n);
    if (kind < 3) { p.pre(x, b); for (int k = 0; k <= kind; ++k) { V v(n); v = 0; p.apply(v, b); add(o, v); b = K::vec(dataRng(90 + seed + k), n); } p.post(x); add(o, x); return o; }
    Dune::InverseOperatorResult r; std::unique_ptr<Dune::InverseOperator<V, V>> s;
    switch (kind) { case 3: s.reset(new Dune::LoopSolver<V>(*op, sp, p, 1e-6, 5, 0)); break; case 4: s.reset(new Dune::GradientSolver<V>(*op, sp, p, 1e-6, 5, 0)); break; case 5: s.reset(new Dune::CGSolver<V>(*op, sp, p, 1e-6, 5, 0)); break; case 6: s.reset(new Dune::BiCGSTABSolver<V>(*op, sp, p, 1e-6, 5, 0)); break;
      case 7: s.reset(new Dune::MINRESSolver<V>(*op, sp, p, 1e-6, 5, 0)); break; case 8: s.reset(new Dune::RestartedGMResSolver<V>(*op, sp, p, 1e-6, 3, 5, 0)); break; case 9: s.reset(new Dune::RestartedFlexibleGMResSolver<V>(*op, sp, p, 1e-6, 3, 5, 0)); break; case 10: s.reset(new Dune::RestartedFCGSolver<V>(*op, sp, p, 1e-6, 5, 0, 3)); break; default: s.reset(new Dune::CompleteFCGSolver<V>(*op, sp, p, 1e-6, 5, 0, 3)); }
    try { s->apply(x, b, r); } catch (const Dune::SolverAbort&) { o.push_back(-1); }
    o.push_back(r.iterations); o.push_back(r.converged); if (x.size() != n) sim_violation("shape", "the solution has %zu blocks instead of %zu", x.size(), n); add(o, x);
    return o;
  }
  Out data(int kind, int seed) {
    Out o; const M& A = *mat; size_t n = A.N();
    if (!strcmp(m.name, "matrix products")) { M B, C; switch (kind % 3) { case 0: Dune::matMultMat(B, A, A); break; case 1: Dune::transposeMatMultMat(B, A, A); break; default: Dune::matMultTransposeMat(B, A, A); } addM(o, B); if (kind > 3) { C = B; Dune::matMultMat(C, A, B); addM(o, C); } return o; }
    if (!strcmp(m.name, "index sets")) { Dune::MatrixIndexSet is(n, n), js; is.import(A); js = is; js.add(0, n - 1); M D; js.exportIdx(D); D = 1; addM(o, D); if (kind > 3) { is.exportIdx(D); D = 2; addM(o, D); } return o; }
    Dune::ParameterTree t = tree; auto s = Dune::getSolverFromFactory(op, t); V x = K::vec(dataRng(50 + seed), n), b = K::vec(dataRng(70 + seed), n); Dune::InverseOperatorResult r; try { s->apply(x, b, r); } catch (const Dune::SolverAbort&) { o.push_back(-1); } if (!r.converged && sim_alloc_fired()) throw Dune::SolverAbort(); // the direct solvers report a failure this way
    o.push_back(r.iterations); o.push_back(r.converged); add(o, x); return o;
  }
};
struct Off { ~Off() { sim_alloc_arm(0, 0); } };
template <class K> static void history() {
  typedef World<K> W; typedef typename K::Prec Prec; auto w = std::make_unique<W>(); Rng g = dataRng(1);
  w->mat = K::grid(g, P("nx", 2, 6), P("ny", 1, 5)); w->op = std::make_shared<typename K::Op>(w->mat); size_t n = w->mat->N();
  w->sets.resize((n + 2) / 3); for (size_t i = 0; i < n; ++i) { w->sets[i / 3].insert(i); if (i && i % 3 == 0) w->sets[i / 3].insert(i - 1); }
  { static const char* solvers[] = {"loopsolver", "cgsolver", "bicgstabsolver", "restartedgmressolver", "umfpack", "minressolver"}; static const char* precs[] = {"jac", "ssor", "ilu", "ildl", "dilu", "richardson", "amg"}; auto& t = w->tree; t["type"] = solvers[P("solver", 0, 5)]; t["verbose"] = "0"; t["maxit"] = "4"; t["reduction"] = "1e-5"; t["restart"] = "3"; t["preconditioner.type"] = precs[P("prec", 0, 6)]; t["preconditioner.iterations"] = "1"; t["preconditioner.relaxation"] = "1"; t["preconditioner.verbosity"] = "0"; t["preconditioner.smoother"] = "ssor"; }
  w->choose(P("method", 0, W::NMETHOD - 1)); const char* name = w->m.name; sim_probe(name); if (!strcmp(name, "solver factory")) Dune::initSolverFactories<typename K::Op>();
  int aniso[2] = {(int)g.range(1, 4), (int)g.range(1, 4)}; int version = 0; K::values(*w->mat, aniso[0]);
  // what undisturbed, fresh objects do: [version of the matrix][use][seed], and how many allocations each operation needs
  // (recalculateHierarchy() renews the Galerkin products only, so an object also remembers the values it was made with)
  enum { NS = 2 }; typedef std::array<int, 4> Key; std::map<Key, Out> ref; std::map<Key, long> count; long makes = 0, copies = 0, renews = 0;
  struct Count { long& c; Count(long& x) : c(x) { sim_alloc_arm(1ll << 60, 1); } ~Count() { c = std::max<long>(c, sim_alloc_count()); sim_alloc_arm(0, 0); } };
  auto reference = [&](int made, int v, int u, int s) -> const Out& {
    Key key{made, v, u, s}; auto f = ref.find(key); if (f != ref.end()) return f->second;
    int old = version; K::values(*w->mat, aniso[made]);
    Out o;
    if (w->m.dataOnly) { K::values(*w->mat, aniso[v]); Count c(count[key]); o = w->data(u, s); }
    else {
      std::unique_ptr<Prec> p; { Count c(makes); p = w->m.make(); } if (w->m.copy) { Count c(copies); auto q = w->m.copy(*p); }
      K::values(*w->mat, aniso[v]); if (w->m.renew) { Count c(renews); if (v != made) w->m.renew(*p); } Count c(count[key]); o = w->use(*p, u, s);
    }
    K::values(*w->mat, aniso[old]);
    return ref[key] = o;
  };
  int uses[3] = {P("use0", 0, W::NUSE - 1), P("use1", 0, W::NUSE - 1), P("use2", 0, 2)};
  for (int m = 0; m < (w->m.renew ? 2 : 1); ++m) for (int v = 0; v < (w->m.renew ? 2 : 1); ++v) for (int u : uses) for (int s = 0; s < NS; ++s) reference(m, v, u, s);
  auto bytes = [&] { Out o; addM(o, *w->mat); return o; }; Out before[2]; before[0] = bytes(); K::values(*w->mat, aniso[1]); before[1] = bytes(); K::values(*w->mat, aniso[0]);
  int steps = P("steps", 1, 10), slots = P("slots", 1, 2);
  sim_alloc_mark();
  {
    struct Slot { std::unique_ptr<Prec> p; int made = 0, version = 0; bool bad = false; } slot[2]; Out got; long opNo = 0; const char* opName = "";
    // true: done; false: an allocation failed and the operation said so
    auto attempt = [&](long allocs, auto&& f) {
      unsigned k = allocs > 0 ? sim_decide("alloc", (unsigned)std::min<long>(allocs, 100000) + 1, 400) : 0; if (k) sim_alloc_arm(k, P("burst", 0, 2) == 2 ? 1000000 : 1);
      Off off;
      try { f(); }
      catch (const std::bad_alloc&) { if (!sim_alloc_fired()) sim_violation("spurious-bad-alloc", "operation %ld (%s, %s) threw bad_alloc although no allocation failed", opNo, name, opName); return false; }
      catch (const std::exception& e) { bool fired = sim_alloc_fired(); sim_alloc_arm(0, 0); if (!fired) sim_violation("refused", "operation %ld (%s, %s) threw although no allocation failed: %s", opNo, name, opName, e.what()); return false; }
      return true;
    };
    auto untouched = [&] { sim_alloc_check(); Out o = bytes(); if (o.size() != before[version].size() || !std::equal(o.begin(), o.end(), before[version].begin())) sim_violation("operand-changed", "after operation %ld (%s, %s) the matrix has changed", opNo, name, opName); };
    auto judge = [&](const Out& want) {
      if (got.size() != want.size()) sim_violation("wrong-result", "operation %ld (%s, %s) gave %zu numbers instead of %zu", opNo, name, opName, got.size(), want.size());
      for (size_t i = 0; i < got.size(); ++i) if (!same(got[i], want[i])) sim_violation("wrong-result", "operation %ld (%s, %s): number %zu is %.17g instead of the %.17g of an undisturbed object", opNo, name, opName, i, got[i], want[i]);
      for (double d : got) hash(d);
    };
    for (opNo = 1; opNo <= steps; ++opNo) {
      unsigned what = sim_decide("operation", 10, 960); if (!what) continue;
      int si = opNo % slots; Slot& s = slot[si]; int u = uses[(what + opNo) % 3], sd = (int)(opNo % NS);
      if (w->m.dataOnly) { opName = "compute"; bool ok = attempt(count[{version, version, u, sd}], [&] { got = w->data(u, sd); }); untouched(); if (ok) judge(reference(version, version, u, sd)); continue; }
      if (!s.p || what == 1) { opName = "construct"; s.p = nullptr; sim_alloc_check(); if (attempt(makes, [&] { s.p = w->m.make(); })) s.made = s.version = version; s.bad = false; untouched(); continue; }
      if (what == 2) { opName = "destroy"; s.p = nullptr; untouched(); continue; }
      if (what == 3 && w->m.copy && slots == 2 && !s.bad) { opName = "copy"; Slot& t = slot[1 - si]; t.p = nullptr; if (attempt(copies, [&] { t.p = w->m.copy(*s.p); })) { t.made = s.made; t.version = s.version; sim_probe("copied"); } t.bad = false; untouched(); continue; }
      if (what == 4 && w->m.assign && slots == 2 && !s.bad && slot[1 - si].p) { opName = "assign"; Slot& t = slot[1 - si]; if (attempt(copies, [&] { w->m.assign(*t.p, *s.p); })) { t.made = s.made; t.version = s.version; t.bad = false; sim_probe("assigned"); sim_probe(name); } else t.p = nullptr; untouched(); continue; }
      if (what == 4 && w->m.renew && slots == 1 && !s.bad) { opName = "new values"; version = 1 - version; K::values(*w->mat, aniso[version]); bool ok = attempt(renews, [&] { w->m.renew(*s.p); }); untouched(); if (ok) s.version = version; else s.bad = true; if (s.bad) { s.p = nullptr; s.bad = false; } else sim_probe("values renewed"); continue; }
      if (s.version != version) continue; // set up for other values
      opName = u < 3 ? "apply" : "solve"; const Out& want = reference(s.made, version, u, sd); if (s.bad) sim_probe("used after a failure");
      bool ok = attempt(count[{s.made, version, u, sd}], [&] { got = w->use(*s.p, u, sd); }); untouched(); if (ok) judge(want); s.bad = !ok;
    }
    opName = "destruction"; for (auto& s : slot) s.p = nullptr;
    Out().swap(got);
  }
  sim_alloc_check();
  if (sim_alloc_live_blocks()) { char b[400]; sim_alloc_describe(b, sizeof b); sim_violation("leak", "%lld blocks of memory were not released after all objects (%s) were destroyed: %s", sim_alloc_live_blocks(), name, b); }
  sim_alloc_unmark();
}
static void run() { Dune::dwarn.push(false); Dune::dinfo.push(false); Dune::dverb.push(false); if (P("blocks", 1, 2) == 1) history<Kit<1>>(); else history<Kit<2>>(); Dune::dverb.pop(); Dune::dinfo.pop(); Dune::dwarn.pop(); }
WL_TABLE({"setup_memory", SIM_SINGLE, 1, 1, nullptr, run, nullptr, 0})
