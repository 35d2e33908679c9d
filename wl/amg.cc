// C07, C20 multigrid cycles: every application equals the textbook cycle on the global problem
#include "hier.hh"
#include <dune/istl/solvers.hh>
#include <dune/istl/paamg/kamg.hh>
using namespace wl;
namespace {
std::vector<double> luSolve(std::vector<std::vector<long double>> a, std::vector<long double> r, bool& ok) {
  int n = (int)r.size(); ok = true;
  for (int k = 0; k < n; ++k) { int p = k; for (int i = k; i < n; ++i) if (fabsl(a[i][k]) > fabsl(a[p][k])) p = i; if (fabsl(a[p][k]) < 1e-12L) { ok = false; return {}; } std::swap(a[k], a[p]); std::swap(r[k], r[p]); for (int i = k + 1; i < n; ++i) { long double f = a[i][k] / a[k][k]; if (f == 0) continue; for (int j = k; j < n; ++j) a[i][j] -= f * a[k][j]; r[i] -= f * r[k]; } }
  for (int k = n - 1; k >= 0; --k) { for (int j = k + 1; j < n; ++j) r[k] -= a[k][j] * r[j]; r[k] /= a[k][k]; }
  return std::vector<double>(r.begin(), r.end());
}
// a user supplied coarse solver: gathers the system of the coarsest level on every process and solves it exactly
template <class Mat, class V> struct GatherSolve : Dune::InverseOperator<V, V> {
  const Mat& A; const C& comm; int failAt, failMask, calls = 0; bool bad = false; int bads = 0;
  GatherSolve(const Mat& a, const C& c, int fa, int fm) : A(a), comm(c), failAt(fa), failMask(fm) {}
  static constexpr int b = Mat::block_type::rows;
  void apply(V& x, V& r, double, Dune::InverseOperatorResult& res) override { apply(x, r, res); }
  void apply(V& x, V& r, Dune::InverseOperatorResult& res) override {
    Lev l = describe(A, comm); std::vector<double> mine; int ec = 2 + b * b;
    for (int i = 0; i < l.n; ++i) if (l.att[i] == OWNER) { mine.push_back((double)l.gid[i]); for (int k = 0; k < b; ++k) mine.push_back(r[i][k]); int cnt = 0; size_t at = mine.size(); mine.push_back(0); for (size_t e = 0; e < l.ent.size(); e += ec) if ((int)l.ent[e] == i) { mine.push_back((double)l.gid[(int)l.ent[e + 1]]); for (int k = 0; k < b * b; ++k) mine.push_back(l.ent[e + 2 + k]); ++cnt; } mine[at] = cnt; }
    int np = comm.communicator().size(); std::vector<int> cnt(np), dis(np + 1, 0); int m = (int)mine.size(); MPI_Comm mc = comm.communicator();
    MPI_Allgather(&m, 1, MPI_INT, cnt.data(), 1, MPI_INT, mc); for (int k = 0; k < np; ++k) dis[k + 1] = dis[k] + cnt[k]; std::vector<double> all(dis[np] + 1); mine.push_back(0);
    MPI_Allgatherv(mine.data(), m, MPI_DOUBLE, all.data(), cnt.data(), dis.data(), MPI_DOUBLE, mc);
    std::map<long, int> pos; for (int o = 0; o < dis[np];) { int q = (int)pos.size(); pos[(long)all[o]] = q; o += 1 + b; o += 1 + (int)all[o] * (1 + b * b); }
    int n = (int)pos.size() * b; std::vector<std::vector<long double>> M(n, std::vector<long double>(n, 0)); std::vector<long double> rhs(n, 0);
    for (int o = 0; o < dis[np];) { int q = pos[(long)all[o++]] * b; for (int k = 0; k < b; ++k) rhs[q + k] = all[o++]; int cs = (int)all[o++]; for (int c = 0; c < cs; ++c) { int j = pos.at((long)all[o++]) * b; for (int k = 0; k < b * b; ++k) M[q + k / b][j + k % b] = all[o++]; } }
    bool ok; auto sol = luSolve(M, rhs, ok); WL_CHECK(ok, "coarse-singular", "the coarse system is singular");
    for (int i = 0; i < l.n; ++i) if (l.gid[i] >= 0) for (int k = 0; k < b; ++k) x[i][k] = sol[pos.at(l.gid[i]) * b + k];
    r = -3.0; // a solver may overwrite its right hand side
    res.clear(); res.converged = true; res.iterations = 1; res.reduction = 0;
    if (++calls == failAt && ((failMask >> sim_rank()) & 1)) { res.converged = false; bad = true; ++bads; sim_fault_fired("coarse-solver-not-converged"); }
  }
  Dune::SolverCategory::Category category() const override { return Dune::SolverCategory::overlapping; }
};
template <class B> struct Run {
  static constexpr int b = B::rows;
  typedef Dune::BCRSMatrix<B> Mat; typedef Dune::BlockVector<Dune::FieldVector<double, b>> V; typedef Dune::OverlappingSchwarzOperator<Mat, V, V, C> Op;
  typedef Dune::Amg::MatrixHierarchy<Op, C, std::allocator<V>> H;
  template <class S> static void go(bool failing) {
    typedef Dune::BlockPreconditioner<V, V, C, S> Sm; typedef Dune::Amg::AMG<Op, V, Sm, C> AMG; typedef Dune::Amg::KAMG<Op, V, Sm, C> KAMG; typedef typename Dune::Amg::SmootherTraits<Sm>::Arguments Args;
    int me = sim_rank(), np = sim_size(); Rng g = dataRng(21);
    Problem p = makeProblem(g, np, 1, 50, 1, 0); auto A = localMatrix<B>(p, me); std::shared_ptr<C> comm = problemComm<C>(p, MPI_COMM_WORLD);
    typedef Dune::Amg::CoarsenCriterion<Dune::Amg::SymmetricCriterion<Mat, Dune::Amg::RowSum>> Crit;
    int accu = P("accu", 0, 2), ctor = failing ? 0 : P("ctor", 0, 2), additive = P("additive", 0, 4) == 1;
    Crit c(P("maxlevel", 1, 6), P("target", 1, 8), 1.0 + 0.2 * P("rate", 0, 1), P("damp", 0, 1) ? 1.6 : 1.0, (Dune::Amg::AccumulationMode)accu, true);
    c.setDefaultValuesIsotropic(2); if (P("aggsize", 0, 1)) { c.setMinAggregateSize(1); c.setMaxAggregateSize(3); }
    c.setGamma(P("gamma", 1, P("maxlevel", 1, 6) > 4 ? 2 : 3)); c.setNoPreSmoothSteps(P("pre", 0, 2)); c.setNoPostSmoothSteps(P("post", 0, 2)); c.setAdditive(additive); c.setDebugLevel(0); c.setSkipIsolated(P("skipisolated", 0, 1) && ctor != 2);
    bool krylov = P("krylov", 0, 3) == 1 && ctor != 2 && !additive && P("pre", 0, 2) + P("post", 0, 2) > 0; int ksteps = P("ksteps", 1, 4); double kred = std::pow(0.1, P("kred", 0, 2)) * 0.5;
    Args args; args.iterations = P("iters", 1, 2); args.relaxationFactor = 0.6 + 0.2 * P("relax", 0, 2);
    auto op = std::make_shared<Op>(A, *comm); auto h = std::make_unique<H>(op, comm); h->template build<Dune::NegateSet<typename C::OwnerSet>>(c);
    dump<V>(*h, 0, true);
    { std::vector<double> l0; for (int i = 0; i < p.N; ++i) if (p.s.loc[me][i] >= 0) { l0.push_back(p.s.loc[me][i]); l0.push_back(i); } putv("map", l0); }
    GatherSolve<Mat, V>* gs = nullptr; std::unique_ptr<AMG> amg; std::unique_ptr<KAMG> kamg; std::unique_ptr<GatherSolve<Mat, V>> own; GatherSolve<Mat, V>* dummy = nullptr;
    bool direct = true; // is the coarse system solved exactly
    if (ctor == 0) {
      auto m = h->matrices().coarsest(); auto i = h->parallelInformation().coarsest(); bool red = m.isRedistributed();
      int fa = failing ? P("failcall", 1, 6) : 0, fm = failing ? P("failmask", 1, 63) : 0;
      own.reset(gs = new GatherSolve<Mat, V>(red ? m.getRedistributed().getmat() : m->getmat(), red ? i.getRedistributed() : *i, fa, fm)); (void)dummy;
      if (krylov) kamg.reset(new KAMG(*h, *gs, args, c, ksteps, kred)); else amg.reset(new AMG(*h, *gs, args, c));
    } else {
      if (krylov) kamg.reset(new KAMG(*op, c, args, ksteps, kred, *comm)); else if (ctor == 1) amg.reset(new AMG(*op, c, args, *comm));
      else { // a parameter tree describes the same
        Dune::ParameterTree t; auto I = [](double v) { char s[40]; snprintf(s, sizeof s, "%.17g", v); return std::string(s); };
        t["smootherIterations"] = I(args.iterations); t["smootherRelaxation"] = I(args.relaxationFactor); t["maxLevel"] = I(P("maxlevel", 1, 6)); t["coarsenTarget"] = I(P("target", 1, 8)); t["minCoarseningRate"] = I(1.0 + 0.2 * P("rate", 0, 1)); t["accumulationMode"] = accu == 0 ? "none" : accu == 1 ? "atOnce" : "successive";
        t["prolongationDampingFactor"] = P("damp", 0, 1) ? "1.6" : "1"; t["defaultAggregationSizeMode"] = "isotropic"; t["defaultAggregationDimension"] = "2"; if (P("aggsize", 0, 1)) { t["minAggregateSize"] = "1"; t["maxAggregateSize"] = "3"; }
        t["gamma"] = I(P("gamma", 1, P("maxlevel", 1, 6) > 4 ? 2 : 3)); t["preSteps"] = I(P("pre", 0, 2)); t["postSteps"] = I(P("post", 0, 2)); t["additive"] = additive ? "true" : "false"; t["strengthMeasure"] = P("keycase", 0, 1) ? "rowSum" : "rowsum"; t["criterionSymmetric"] = "true"; t["verbosity"] = "0";
        amg.reset(new AMG(std::shared_ptr<const Op>(op), t, *comm)); sim_probe("parameter-tree");
      }
      bool fixedOrder = ctor == 1 || np == 1; // a tree cannot ask for an aggregation independent of the message order
      size_t nlev = krylov ? kamg->maxlevels() : amg->maxlevels(); if (fixedOrder) WL_CHECK(nlev == h->maxlevels(), "amg-levels", "the preconditioner has %zu levels, a hierarchy built with the same settings %zu", nlev, h->maxlevels());
      auto i = h->parallelInformation().coarsest(); bool mine = h->levels() == h->maxlevels() && !(i->communicator().size() == 1 || (i.isRedistributed() && i.getRedistributed().communicator().size() <= 1));
      direct = !comm->communicator().max((int)mine) && fixedOrder;
    }
    Dune::Preconditioner<V, V>* first = krylov ? (Dune::Preconditioner<V, V>*)kamg.get() : amg.get(); if (krylov) sim_probe("krylov-cycle");
    WL_CHECK(first->category() == Dune::SolverCategory::overlapping, "category", "the preconditioner reports category %d", (int)first->category());
    put("direct", (int)direct); put("krylov", (int)krylov);
    std::unique_ptr<Dune::Preconditioner<V, V>> second; int copies = P("copies", 0, 1); int napp = 0, pass = 0;
    int cycles = P("cycles", 1, 3);
    for (int k = 0; k < cycles; ++k) {
      if (k && ctor == 0 && !krylov && P("recalc", 0, 1)) { // new matrix values, same pattern
        for (auto r = A->begin(); r != A->end(); ++r) for (auto cc = r->begin(); cc != r->end(); ++cc) { bool dir = false; for (int i = 0; i < p.N; ++i) if (p.s.loc[me][i] == (int)r.index() && p.s.att[me][i] == COPY) dir = true; if (!dir) *cc *= 2.0; }
        amg->recalculateHierarchy(); dump<V>(*h, ++pass, false); sim_probe("recalculated");
      }
      Dune::Preconditioner<V, V>* use = first; if (copies && k == 1) { if (krylov) second.reset(new KAMG(*kamg)); else second.reset(new AMG(*amg)); use = second.get(); sim_probe("copied"); }
      V x(A->N()), rhs(A->N()); Rng gl = dataRng(300 + k); std::map<long, std::vector<double>> bg; 
      for (int i = 0; i < p.N; ++i) { std::vector<double> v(2 * b); for (auto& e : v) e = (double)gl.range(-9, 9); int j = p.s.loc[me][i]; if (j >= 0) for (int q = 0; q < b; ++q) { rhs[j][q] = v[q]; x[j][q] = p.s.att[me][i] == OWNER || P("garbage", 0, 1) == 0 ? v[b + q] : 77; } }
      V rhs0(rhs), x0(x);
      use->pre(x, rhs);
      // pre: the start vector is consistent, rows without couplings are solved
      for (int i = 0; i < p.N; ++i) { int j = p.s.loc[me][i]; if (j < 0) continue; bool dir = p.A[i].size() == 1; if (p.s.att[me][i] == OWNER) { for (int q = 0; q < b; ++q) WL_CHECK(rhs[j][q] == rhs0[j][q], "pre-rhs", "preparing changed the right hand side at local index %d", j); if (!dir) for (int q = 0; q < b; ++q) WL_CHECK(x[j][q] == x0[j][q], "pre-start", "preparing changed the start vector at the coupled local index %d", j);
          if (dir) { B blk; fillBlock(blk, i, i, p.A[i].at(i)); for (int q = 0; q < pass; ++q) blk *= 2.0; Dune::FieldVector<double, b> y(0.0); blk.mv(x[j], y); y -= rhs0[j]; WL_CHECK(y.two_norm() < 1e-9 * (1 + rhs0[j].two_norm()), "pre-dirichlet", "the uncoupled row with local index %d was not solved", j); } } }
      for (size_t j = 0; j < x.size(); ++j) for (int q = 0; q < b; ++q) { char nm[40]; (void)nm; }
      { std::vector<double> xs; for (auto& e : x) for (double v : e) xs.push_back(v); putv(key("x", 0, k).c_str(), xs); }
      int apps = P("apps", 1, 2);
      for (int a = 0; a < apps; ++a, ++napp) {
        Rng ga = dataRng(400 + 10 * k + a); V d(A->N()), v(A->N()); d = 0.0; v = 0.0; Shape sh(ga);
        for (int i = 0; i < p.N; ++i) { std::vector<double> q(b); for (auto& e : q) e = sh(p.part[i], (double)ga.range(-50, 50)); int j = p.s.loc[me][i]; if (j >= 0 && p.s.att[me][i] == OWNER) for (int s = 0; s < b; ++s) d[j][s] = q[s]; }
        V d0(d); if (gs) gs->bad = false; int threw = 0;
        try { use->apply(v, d); } catch (Dune::MathError&) { threw = 1; } catch (Dune::Exception& e) { if (direct || !dynamic_cast<Dune::ISTLError*>(&e)) WL_CHECK(false, "exception", "applying the preconditioner threw: %s", e.what()); threw = 2; }
        WL_CHECK([&] { for (size_t j = 0; j < d.size(); ++j) for (int s = 0; s < b; ++s) if (d[j][s] != d0[j][s]) return false; return true; }(), "defect-changed", "the application changed its defect");
        int bad = gs && gs->bad; std::vector<double> info{(double)pass, (double)threw, (double)bad}; putv(key("i", 0, napp).c_str(), info);
        std::vector<double> dv, vv; for (auto& e : d) for (double q : e) dv.push_back(q); for (auto& e : v) for (double q : e) vv.push_back(q); putv(key("d", 0, napp).c_str(), dv); putv(key("v", 0, napp).c_str(), vv);
        for (double q : vv) hash(q);
        if (threw == 2) break; // a disturbed inexact coarse solver: not judged further
        if (!failing && !threw && direct && P("repeat", 0, 1) && !(krylov && P("sim.redorder", 0, 1))) { V v2(A->N()); v2 = 0.0; bool was = gs && gs->bads; use->apply(v2, d); if (!gs || (was == (gs->bads > 0))) for (size_t j = 0; j < v2.size(); ++j) for (int s = 0; s < b; ++s) WL_CHECK(same(v2[j][s], v[j][s]), "not-repeatable", "a second application to the same defect gives %g instead of %g at local index %zu", v2[j][s], v[j][s], j); }
      }
      V y(x); if (P("postcall", 0, 3)) use->post(y);
    }
    put("napp", napp); put("cycles", cycles); if (np > 1) sim_probe("parallel");
    if (ctor != 0 || true) { amg.reset(); kamg.reset(); second.reset(); }
    if (gs && P("ownsolver", 0, 1) == 0) {}
  }
};
template <class B> void runS(bool f) { typedef Run<B> R; switch (P("smoother", 0, 2)) { case 0: R::template go<Dune::SeqJac<typename R::Mat, typename R::V, typename R::V>>(f); break; case 1: R::template go<Dune::SeqSOR<typename R::Mat, typename R::V, typename R::V>>(f); break; default: R::template go<Dune::SeqSSOR<typename R::Mat, typename R::V, typename R::V>>(f); } }
void runAny(bool f) { put("b", (int)P("block", 1, 2)); if (P("block", 1, 2) == 1) runS<Dune::FieldMatrix<double, 1, 1>>(f); else runS<Dune::FieldMatrix<double, 2, 2>>(f); }
void cycle() { runAny(false); }
void coarseFail() { runAny(true); }

// ---- reference: the textbook cycle on the global matrices of the levels
typedef std::vector<double> Vec;
struct Level { std::vector<Lev> D; std::map<long, int> idx; std::vector<std::vector<std::pair<int, Vec>>> A; std::vector<std::vector<int>> pos; std::vector<std::vector<std::vector<std::pair<int, Vec>>>> local; std::vector<int> agg; int n = 0; };
struct Ref {
  int np, b, smoother, iters, gamma, pre, post; double w, damp; bool additive; std::vector<Level> L;
  void solveBlock(const Vec& blk, const double* r, double* x) const { std::vector<std::vector<long double>> a(b, std::vector<long double>(b)); std::vector<long double> q(r, r + b); for (int i = 0; i < b; ++i) for (int j = 0; j < b; ++j) a[i][j] = blk[i * b + j]; bool ok; auto s = luSolve(a, q, ok); WL_CHECK(ok, "singular-block", "singular diagonal block on a level"); for (int i = 0; i < b; ++i) x[i] = s[i]; }
  Vec matvec(const Level& l, const Vec& x) const { Vec y(l.n * b, 0.0); for (int i = 0; i < l.n; ++i) for (auto& e : l.A[i]) for (int r = 0; r < b; ++r) for (int c = 0; c < b; ++c) y[i * b + r] += e.second[r * b + c] * x[e.first * b + c]; return y; }
  Vec smooth(const Level& l, const Vec& rhs, bool preS) const {
    Vec out(l.n * b, 0.0);
    for (int r = 0; r < np; ++r) { if (!l.D[r].present) continue; int n = l.D[r].n; Vec d(n * b, 0.0), x(n * b, 0.0); for (int i = 0; i < n; ++i) if (l.D[r].att[i] == OWNER) for (int k = 0; k < b; ++k) d[i * b + k] = rhs[l.pos[r][i] * b + k];
      auto row = [&](int i, Vec& res) { for (int k = 0; k < b; ++k) res[k] = d[i * b + k]; const Vec* dg = nullptr; for (auto& e : l.local[r][i]) { if (e.first == i) dg = &e.second; for (int k = 0; k < b; ++k) for (int c = 0; c < b; ++c) res[k] -= e.second[k * b + c] * x[e.first * b + c]; } return dg; };
      Vec res(b), u(b); auto sweep = [&](bool fwd) { for (int q = 0; q < n; ++q) { int i = fwd ? q : n - 1 - q; const Vec* dg = row(i, res); solveBlock(*dg, res.data(), u.data()); for (int k = 0; k < b; ++k) x[i * b + k] += w * u[k]; } };
      for (int it = 0; it < iters; ++it) { if (smoother == 0) { Vec nx(x); for (int i = 0; i < n; ++i) { const Vec* dg = row(i, res); solveBlock(*dg, res.data(), u.data()); for (int k = 0; k < b; ++k) nx[i * b + k] += w * u[k]; } x = nx; } else if (smoother == 1) sweep(preS); else { sweep(true); sweep(false); } }
      for (int i = 0; i < n; ++i) if (l.D[r].att[i] == OWNER) for (int k = 0; k < b; ++k) out[l.pos[r][i] * b + k] = x[i * b + k]; }
    return out;
  }
  Vec coarse(const Level& l, const Vec& r) const { int n = l.n * b; std::vector<std::vector<long double>> M(n, std::vector<long double>(n, 0)); for (int i = 0; i < l.n; ++i) for (auto& e : l.A[i]) for (int k = 0; k < b * b; ++k) M[i * b + k / b][e.first * b + k % b] += e.second[k]; bool ok; auto s = luSolve(M, std::vector<long double>(r.begin(), r.end()), ok); WL_CHECK(ok, "coarse-singular", "the coarse matrix is singular"); return s; }
  Vec restrictTo(int l, const Vec& r) const { Vec c(L[l + 1].n * b, 0.0); for (int i = 0; i < L[l].n; ++i) if (L[l].agg[i] >= 0) for (int k = 0; k < b; ++k) c[L[l].agg[i] * b + k] += r[i * b + k]; return c; }
  void prolong(int l, const Vec& c, Vec& f, double s) const { for (int i = 0; i < L[l].n; ++i) if (L[l].agg[i] >= 0) for (int k = 0; k < b; ++k) f[i * b + k] += s * c[L[l].agg[i] * b + k]; }
  // one cycle for A u = r starting from zero
  void cyc(int l, Vec& u, Vec r) const { // improves u, r is the residual of the current u
    const Level& v = L[l]; auto sub = [&](const Vec& x) { Vec y = matvec(v, x); for (size_t i = 0; i < r.size(); ++i) { r[i] -= y[i]; u[i] += x[i]; } };
    if (l + 1 == (int)L.size()) { Vec x = coarse(v, r); for (size_t i = 0; i < u.size(); ++i) u[i] = x[i]; return; }
    for (int s = 0; s < pre; ++s) sub(smooth(v, r, true));
    Vec rc = restrictTo(l, r), uc(rc.size(), 0.0);
    for (int g = 0; g < gamma; ++g) { Vec res = matvec(L[l + 1], uc); for (size_t i = 0; i < rc.size(); ++i) res[i] = rc[i] - res[i]; cyc(l + 1, uc, res); if (l + 2 == (int)L.size()) break; }
    Vec x(r.size(), 0.0); prolong(l, uc, x, damp); sub(x);
    for (int s = 0; s < post; ++s) sub(smooth(v, r, false));
  }
  // the Krylov cycle: two grids, the coarse correction from a few steps of a preconditioned Krylov method
  bool krylov = false; int ksteps = 0; double kred = 0; mutable bool unclear = false;
  Vec twoGrid(int l, const Vec& d) const {
    const Level& v = L[l]; if (l + 1 == (int)L.size()) return coarse(v, d);
    Vec u(d.size(), 0.0), r(d); auto sub = [&](const Vec& x) { Vec y = matvec(v, x); for (size_t i = 0; i < r.size(); ++i) { r[i] -= y[i]; u[i] += x[i]; } };
    for (int s = 0; s < pre; ++s) sub(smooth(v, r, true));
    Vec x(r.size(), 0.0), rc = restrictTo(l, r); prolong(l, l + 2 == (int)L.size() ? coarse(L[l + 1], rc) : pcg(l + 1, rc), x, damp); sub(x);
    for (int s = 0; s < post; ++s) sub(smooth(v, r, false));
    return u;
  }
  static double dot(const Vec& a, const Vec& c) { double s = 0; for (size_t i = 0; i < a.size(); ++i) s += a[i] * c[i]; return s; }
  static void axpy(Vec& y, double f, const Vec& x) { for (size_t i = 0; i < y.size(); ++i) y[i] += f * x[i]; }
  Vec pcg(int l, Vec r) const {
    Vec x(r.size(), 0.0); double d0 = std::sqrt(dot(r, r)); if (d0 < 1e-30) return x; std::vector<Vec> p; std::vector<double> pp;
    for (int k = 0; k < ksteps; ++k) {
      Vec z = twoGrid(l, r), q = matvec(L[l], z); double zz = std::abs(dot(z, q)); for (size_t j = 0; j < p.size(); ++j) axpy(z, -dot(q, p[j]) / pp[j], p[j]);
      q = matvec(L[l], z); p.push_back(z); pp.push_back(dot(z, q)); if (!(pp.back() > 1e-8 * zz)) unclear = true; // breakdown
      double a = dot(z, r) / pp.back(); axpy(x, a, z); axpy(r, -a, q); double d = std::sqrt(dot(r, r)); if (std::abs(d - kred * d0) < 1e-7 * d0) unclear = true; // rounding decides whether it goes on
      if (d < kred * d0) break;
    }
    return x;
  }
  Vec add(const Vec& d) const { // additive: sum of the corrections of all levels
    std::vector<Vec> R{d}; for (int l = 0; l + 1 < (int)L.size(); ++l) R.push_back(restrictTo(l, R[l])); Vec c = coarse(L.back(), R.back());
    for (int l = (int)L.size() - 2; l >= 0; --l) { Vec x = smooth(L[l], R[l], true); prolong(l, c, x, 1.0); c = x; }
    return c;
  }
};
void check() {
  int np = sim_size(), b = 1, napp = 0, direct = 0, cycles = 0; get("b", 0, b); get("napp", 0, napp); get("direct", 0, direct); get("cycles", 0, cycles); int ec = 2 + b * b;
  Problem p; { Rng g = dataRng(21); p = makeProblem(g, np, 1, 50, 1, 0); }
  for (int r = 0; r < np; ++r) { int d = 0; get("direct", r, d); WL_CHECK(d == direct, "direct", "rank %d", r); }
  for (int k = 0; k < cycles; ++k) { std::vector<std::vector<double>> x(np); for (int r = 0; r < np; ++r) x[r] = getv<double>(key("x", 0, k).c_str(), r); for (int i = 0; i < p.N; ++i) { int o = p.part[i]; for (int r = 0; r < np; ++r) if (p.s.loc[r][i] >= 0) for (int q = 0; q < b; ++q) { double have = x[r][p.s.loc[r][i] * b + q], want = x[o][p.s.loc[o][i] * b + q]; WL_CHECK(have == want, "pre-inconsistent", "after preparing, unknown %d is %g on rank %d but %g on its owner", i, have, r, want); } } }
  int lastpass = -1; Ref ref; ref.np = np; ref.b = b; ref.smoother = P("smoother", 0, 2); ref.iters = P("iters", 1, 2); ref.w = 0.6 + 0.2 * P("relax", 0, 2); ref.gamma = P("gamma", 1, P("maxlevel", 1, 6) > 4 ? 2 : 3); ref.pre = P("pre", 0, 2); ref.post = P("post", 0, 2); ref.damp = P("damp", 0, 1) ? 1.6 : 1.0;
  ref.additive = P("additive", 0, 4) == 1; ref.ksteps = P("ksteps", 1, 4); ref.kred = std::pow(0.1, P("kred", 0, 2)) * 0.5;
  { int kr = 0; get("krylov", 0, kr); ref.krylov = kr; }
  for (int a = 0; a < napp; ++a) {
    auto info = getv<double>(key("i", 0, a).c_str(), 0); bool anyBad = false; for (int r = 0; r < np; ++r) if (getv<double>(key("i", 0, a).c_str(), r)[2] != 0) anyBad = true;
    for (int r = 0; r < np; ++r) { auto o = getv<double>(key("i", 0, a).c_str(), r); if (!direct && (info[1] != 0 || o[1] != 0)) { continue; } WL_CHECK((o[1] != 0) == anyBad, anyBad ? "failure-unseen" : "failure-invented", anyBad ? "the coarse solver failed on some rank but rank %d did not notice (application %d)" : "rank %d reports a coarse solver failure that did not happen (application %d)", r, a); }
    if (anyBad) { sim_probe("failure-reported"); continue; }
    if (info[1] != 0) continue;
    std::vector<Vec> v(np); for (int r = 0; r < np; ++r) v[r] = getv<double>(key("v", 0, a).c_str(), r);
    double mx = 0; for (auto& q : v) for (double e : q) { WL_CHECK(std::isfinite(e), "not-finite", "the update of application %d contains %g", a, e); mx = std::max(mx, std::abs(e)); }
    for (int i = 0; i < p.N; ++i) { int o = p.part[i]; for (int r = 0; r < np; ++r) if (p.s.loc[r][i] >= 0) for (int q = 0; q < b; ++q) { double have = v[r][p.s.loc[r][i] * b + q], want = v[o][p.s.loc[o][i] * b + q]; WL_CHECK(std::abs(have - want) <= 1e-12 * (1 + mx), "update-inconsistent", "application %d: unknown %d is %.15g on rank %d but %.15g on its owner", a, i, have, r, want); } }
    if (!direct) { sim_probe("inexact-coarse"); continue; }
    int pass = (int)info[0];
    if (pass != lastpass) { // assemble the levels
      lastpass = pass; ref.L.clear(); auto S = getv<double>(key("S", pass, 0).c_str(), 0); int nl = (int)S[1]; ref.L.resize(nl);
      for (int l = 0; l < nl; ++l) { Level& v = ref.L[l]; v.D.resize(np); v.pos.resize(np); v.local.resize(np);
        for (int r = 0; r < np; ++r) if (has(key("D", pass, l).c_str(), r)) { v.D[r] = Lev::unpack(getv<double>(key("D", pass, l).c_str(), r)); for (int i = 0; i < v.D[r].n; ++i) if (v.D[r].att[i] == OWNER) v.idx[v.D[r].gid[i]] = 0; }
        for (auto& e : v.idx) e.second = v.n++; v.A.resize(v.n); v.agg.assign(v.n, -2);
        for (int r = 0; r < np; ++r) { Lev& d = v.D[r]; v.local[r].resize(d.n); for (int i = 0; i < d.n; ++i) v.pos[r].push_back(v.idx.at(d.gid[i])); for (size_t e = 0; e < d.ent.size(); e += ec) { int i = (int)d.ent[e], j = (int)d.ent[e + 1]; Vec blk(d.ent.begin() + e + 2, d.ent.begin() + e + ec); v.local[r][i].push_back({j, blk}); if (d.att[i] == OWNER) v.A[v.pos[r][i]].push_back({v.pos[r][j], blk}); } } }
      for (int l = 0; l + 1 < nl; ++l) { Level& v = ref.L[l]; std::vector<Lev> R(np), N(np); bool red = false; for (int r = 0; r < np; ++r) { if (has(key("R", pass, l).c_str(), r)) R[r] = Lev::unpack(getv<double>(key("R", pass, l).c_str(), r)); if (R[r].present) red = true; N[r] = ref.L[l + 1].D[r]; }
        for (int r = 0; r < np; ++r) { Lev& t = red ? R[r] : v.D[r]; if (!N[r].present) continue; for (int i = 0; i < t.n && i < (int)t.agg.size(); ++i) if (t.att[i] == OWNER) { int fine; if (red) { int o = (int)(t.old[i] / 1000000), oi = (int)(t.old[i] % 1000000); fine = v.pos[o][oi]; } else fine = v.pos[r][i]; v.agg[fine] = t.agg[i] < 0 ? -2 : ref.L[l + 1].idx.at(N[r].gid[t.agg[i]]); } } }
      if (nl > 2) sim_probe("three-levels");
    }
    Level& f = ref.L[0]; Vec d(f.n * b, 0.0); for (int r = 0; r < np; ++r) { auto dr = getv<double>(key("d", 0, a).c_str(), r); for (int i = 0; i < f.D[r].n; ++i) if (f.D[r].att[i] == OWNER) for (int k = 0; k < b; ++k) d[f.pos[r][i] * b + k] = dr[i * b + k]; }
    Vec u(d.size(), 0.0); ref.unclear = false; if (ref.additive) u = ref.add(d); else if (ref.krylov) u = ref.twoGrid(0, d); else ref.cyc(0, u, d); if (ref.unclear) { sim_probe("krylov-unclear"); continue; } if (ref.krylov && ref.L.size() > 2) sim_probe("krylov-compared");
    double m = 0; for (double e : u) m = std::max(m, std::abs(e));
    for (int r = 0; r < np; ++r) for (int i = 0; i < f.D[r].n; ++i) for (int k = 0; k < b; ++k) { double have = v[r][i * b + k], want = u[f.pos[r][i] * b + k]; WL_CHECK(std::abs(have - want) <= 1e-8 * (1e-3 + m), "cycle", "application %d (%d levels, %s): the update of unknown %ld on rank %d is %.12g, the global cycle gives %.12g", a, (int)ref.L.size(), ref.additive ? "additive" : ref.krylov ? "Krylov" : "multiplicative", f.D[r].gid[i], r, have, want); }
    if (ref.additive) sim_probe("additive");
  }
}
void coarseFailRun() { int one = 1; put("fail", one); coarseFail(); }
} // namespace
WL_TABLE({"cycle", SIM_RANKS, 1, 6, nullptr, cycle, check, 2}, {"coarse_failure", SIM_RANKS, 1, 6, nullptr, coarseFailRun, check, 1})
