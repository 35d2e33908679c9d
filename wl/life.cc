// C19: whatever is set up and used in parallel is released again. Every rank runs the same history of activities twice; the first
// pass warms up everything that is created once per process, the second pass is accounted for.
#include "system.hh"
#include "hier.hh"
#include <dune/istl/matrixmarket.hh>
#include <dune/istl/matrixredistribute.hh>
#include <dune/istl/repartition.hh>
#include <dune/istl/solverfactory.hh>
#include <dune/istl/paamg/graph.hh>
#include <dune/istl/paamg/kamg.hh>
using namespace wl;
namespace {
struct Stop : Dune::Exception {};
// a preconditioner that throws on every rank at its n-th application
template <class V> struct Throwing : Dune::Preconditioner<V, V> {
  std::shared_ptr<Dune::Preconditioner<V, V>> p; int left; Throwing(std::shared_ptr<Dune::Preconditioner<V, V>> q, int n) : p(q), left(n) {}
  void pre(V& x, V& b) override { p->pre(x, b); } void apply(V& v, const V& d) override { if (left-- == 0) { sim_probe("exception-passes"); DUNE_THROW(Stop, "stop"); } p->apply(v, d); } void post(V& x) override { p->post(x); }
  Dune::SolverCategory::Category category() const override { return p->category(); }
};
template <class B, class F> struct Life {
  static constexpr int b = B::rows; typedef System<B, F> T; typedef typename T::Mat Mat; typedef typename T::V V; typedef Dune::OverlappingSchwarzOperator<Mat, V, V, C> Op; typedef std::vector<double> Out;
  static void add(Out& o, const V& v) { for (auto& e : v) for (double d : e) o.push_back(d); }
  // communication objects and exchanges: exact data movement
  static void exchanges(Rng g, Out& o) {
    Scenario s = makeScenario(sim_size(), g, P("n", 1, 60), P("share", 0, 2), P("extras", 0, 1)); int me = sim_rank(); auto c = buildComm<long>(s, g, P("build", 0, 2), MPI_COMM_WORLD); int n = s.nloc[me]; V x(n), y(n); for (int i = 0; i < s.N; ++i) if (s.loc[me][i] >= 0) x[s.loc[me][i]] = i + 1; 
    if (!c->remoteIndices().isSynced()) c->remoteIndices().template rebuild<false>();
    for (int k = 0, m = P("ops", 1, 6); k < m; ++k) switch (P(("op" + std::to_string(k)).c_str(), 0, 7)) {
      case 0: c->copyOwnerToAll(x, y); add(o, y); break; case 1: c->addOwnerCopyToAll(x, y); add(o, y); break; case 2: c->addOwnerOverlapToAll(x, y); add(o, y); break; case 3: c->addOwnerCopyToOwnerCopy(x, y); add(o, y); break; case 4: c->copyCopyToAll(x, y); add(o, y); break;
      case 5: { double d = 0; c->dot(x, x, d); o.push_back(d); } break; case 6: c->buildGlobalLookup(n); if (P("again", 0, 1)) c->buildGlobalLookup(n); if (P("free", 0, 1)) c->freeGlobalLookup(); sim_probe("lookup"); break;
      default: c->project(y); add(o, y); }
    if (P("index", 0, 1)) { C d(MPI_COMM_WORLD); typedef typename C::ParallelIndexSet::LocalIndex LI; d.indexSet().beginResize(); for (auto& q : c->indexSet()) d.indexSet().add(q.global(), LI(q.local().local(), q.local().attribute(), q.local().isPublic())); d.indexSet().endResize(); if (P("sync", 0, 1)) { d.remoteIndices().template rebuild<false>(); V z(n); z = 0; d.copyOwnerToAll(x, z); add(o, z); } }
    sim_probe("exchanges");
  }
  static void solve(Rng g, Out&) {
    T s = makeSystem<B, F>(g, 40); Runner<B, F> R(s, g); R.data(P("rhs", 0, 2)); int kind = P("solver", 0, NSOLVERS - 1); std::shared_ptr<typename T::Pr> pr = s.prec; if (P("throws", 0, 3) == 3) pr = std::make_shared<Throwing<V>>(s.prec, P("when", 0, 4));
    auto solver = makeSolver<V>(kind, s.op, s.sp, pr, 1e-6, P("maxit", 1, 12), 0, P("restart", 2, 5), P("config", 0, 1)); V x; 
    try { V d; R.scatter(R.X0, x); R.scatter(R.Bv, d); Dune::InverseOperatorResult r; solver->apply(x, d, r); if (P("again", 0, 1)) { R.scatter(R.Bv, d); solver->apply(x, d, r); } } catch (Dune::SolverAbort&) { sim_probe("abort"); } catch (Stop&) {}
    sim_probe("solve");
  }
  struct World { Problem p; std::shared_ptr<Mat> A; std::shared_ptr<C> comm; std::shared_ptr<Op> op; std::shared_ptr<Dune::ScalarProduct<V>> sp; World(Rng& g, int nmax) { p = makeProblem(g, sim_size(), 1, P("large", 0, 3) == 3 ? nmax : std::min(nmax, 18), 1, 0); A = localMatrix<B>(p, sim_rank()); comm = problemComm<C>(p, MPI_COMM_WORLD); op = std::make_shared<Op>(A, *comm); sp = Dune::createScalarProduct<V>(*comm, op->category()); } };
  static void bicg(World& w, Rng& g, typename T::Pr& pr, int its) {
    V x(w.A->N()), d(w.A->N()); Rng q(g.next()); x = 0; for (int i = 0; i < w.p.N; ++i) { double v = (double)q.range(-9, 9); if (w.p.s.loc[sim_rank()][i] >= 0) d[w.p.s.loc[sim_rank()][i]] = v; }
    std::shared_ptr<typename T::Pr> own(&pr, [](auto*) {}); Throwing<V> thr(own, P("throws", 0, 3) == 3 ? P("when", 0, 4) : -1); Dune::InverseOperatorResult r; int k = P("krylov", 0, 2);
    try { if (k == 0) { Dune::LoopSolver<V> s(*w.op, *w.sp, thr, 1e-6, its, 0); s.apply(x, d, r); } else if (k == 1) { Dune::BiCGSTABSolver<V> s(*w.op, *w.sp, thr, 1e-6, its, 0); s.apply(x, d, r); } else { Dune::RestartedFlexibleGMResSolver<V> s(*w.op, *w.sp, thr, 1e-6, 3, its, 0); s.apply(x, d, r); } } catch (Dune::SolverAbort&) { sim_probe("abort"); } catch (Stop&) {}
  }
  typedef Dune::Amg::CoarsenCriterion<Dune::Amg::SymmetricCriterion<Mat, Dune::Amg::RowSum>> Crit; typedef Dune::Amg::CoarsenCriterion<Dune::Amg::UnSymmetricCriterion<Mat, Dune::Amg::FirstDiagonal>> UCrit;
  template <class K> static K criterion() { K c(P("maxlevel", 1, 6), P("target", 1, 10), 1.0 + 0.2 * P("rate", 0, 1), 1.6, (Dune::Amg::AccumulationMode)P("accu", 0, 2), P("fixed", 0, 1)); c.setDefaultValuesIsotropic(2); if (P("aggsize", 0, 1)) { c.setMinAggregateSize(1); c.setMaxAggregateSize(3); } c.setGamma(P("gamma", 1, 2)); c.setAdditive(P("additive", 0, 5) == 5); c.setSkipIsolated(P("skip", 0, 1)); c.setDebugLevel(0); return c; }
  template <class K, class S> static void multigrid(Rng& g, bool k) {
    typedef Dune::BlockPreconditioner<V, V, C, S> Sm; typedef Dune::Amg::AMG<Op, V, Sm, C> AMG; typedef Dune::Amg::KAMG<Op, V, Sm, C> KAMG; typename Dune::Amg::SmootherTraits<Sm>::Arguments args; args.iterations = 1; args.relaxationFactor = 0.8; World w(g, 80); K c = criterion<K>();
    if (k) { c.setAdditive(false); KAMG a(*w.op, c, args, (size_t)P("ksteps", 1, 3), 0.1, *w.comm); bicg(w, g, a, 4); std::unique_ptr<KAMG> a2; if (P("copy", 0, 1)) { a2 = std::make_unique<KAMG>(a); bicg(w, g, *a2, 3); } sim_probe("krylov-multigrid"); return; }
    auto a = std::make_unique<AMG>(*w.op, c, args, *w.comm); int use = P("use", 0, 2); for (int q = 0; q < use; ++q) { bicg(w, g, *a, 4); if (q == 0 && P("recalc", 0, 1)) { *w.A *= 2; a->recalculateHierarchy(); } }
    if (P("copy", 0, 1)) { AMG a2(*a); if (P("first", 0, 1)) a.reset(); bicg(w, g, a2, 3); sim_probe("multigrid-copied"); }
    if (P("half", 0, 3) == 3 && a) { V x(w.A->N()), d(w.A->N()); x = 1; d = 1; a->pre(x, d); if (P("twice", 0, 1)) a->pre(x, d); if (P("halfpost", 0, 1)) a->post(x); } // prepared, never finished
    sim_probe("multigrid");
  }
  static void anyMultigrid(Rng g, bool k) { int q = P("smoother", 0, 3); if (q == 0) multigrid<Crit, Dune::SeqJac<Mat, V, V>>(g, k); else if (q == 1) multigrid<UCrit, Dune::SeqSSOR<Mat, V, V>>(g, k); else if (q == 2) multigrid<Crit, Dune::SeqILU<Mat, V, V>>(g, k); else multigrid<UCrit, Dune::SeqSOR<Mat, V, V>>(g, k); }
  static void hierarchy(Rng g) {
    typedef Dune::Amg::MatrixHierarchy<Op, C, std::allocator<V>> H; World w(g, 100); Crit c = criterion<Crit>(); auto h = std::make_unique<H>(w.op, w.comm); h->template build<Dune::NegateSet<typename C::OwnerSet>>(c);
    if (P("coarsen", 0, 1)) { Dune::Amg::Hierarchy<V> vh(std::make_shared<V>(w.A->N())); h->coarsenVector(vh); if (P("copyvector", 0, 1)) { Dune::Amg::Hierarchy<V> v2(vh); } } if (P("recalc", 0, 1)) h->recalculateGalerkin(Dune::NegateSet<typename C::OwnerSet>()); std::vector<std::size_t> cm; bool all = h->levels() > 1 && h->levels() == h->maxlevels() && P("accu", 0, 2) == 0; if (w.comm->communicator().min((int)all)) { h->getCoarsestAggregatesOnFinest(cm); sim_probe("aggregate-numbers"); } sim_probe("hierarchy");
  }
  static void move(Rng g, Out& o) {
    World w(g, 60); C& comm = *w.comm; int me = sim_rank(), np = sim_size(), method = P("method", 0, 2); if (!comm.remoteIndices().isSynced()) comm.remoteIndices().template rebuild<false>(); std::shared_ptr<C> nc; Dune::RedistributeInformation<C> ri; int parts = P("nparts", 1, np); typedef Dune::Amg::MatrixGraph<Mat> G; G graph(*w.A);
    if (method == 0) Dune::graphRepartition(graph, comm, parts, nc, ri.getInterface(), false); else if (method == 1) Dune::commGraphRepartition(*w.A, comm, parts, nc, ri.getInterface(), false);
    else { comm.buildGlobalLookup(w.A->N()); std::vector<int> part(w.A->N(), -1); int sh = P("shift", 0, np); for (int i = 0; i < w.p.N; ++i) if (w.p.s.att[me][i] == OWNER) part[w.p.s.loc[me][i]] = sh == np ? 0 : (w.p.part[i] + sh) % np; comm.copyOwnerToAll(part, part); Dune::buildCommunication(graph, part, comm, nc, ri.getInterface(), false); comm.freeGlobalLookup(); }
    if (P("moves", 0, 3) == 0) { sim_probe("not-moved"); return; }
    ri.setSetup(); Mat N; Dune::redistributeMatrix(*w.A, N, comm, *nc, ri); V x(w.A->N()), y(N.N()), z(w.A->N()); y = 0; z = 0; for (int i = 0; i < w.p.N; ++i) if (w.p.s.loc[me][i] >= 0) x[w.p.s.loc[me][i]] = i; ri.redistribute(x, y); ri.redistributeBackward(z, y); add(o, z);
    if (P("values", 0, 1)) { comm.buildGlobalLookup(w.A->N()); Dune::redistributeMatrixEntries(*w.A, N, comm, *nc, ri); comm.freeGlobalLookup(); } if (P("tworounds", 0, 1)) { Mat N2; Dune::redistributeMatrix(*w.A, N2, comm, *nc, ri); } sim_probe("moved");
  }
  static void files(Rng g, Out& o) {
    World w(g, 30); std::string f = "/simfs/life"; Dune::storeMatrixMarket(*w.A, f, *w.comm); V x(w.A->N()); x = 3; Dune::storeMatrixMarket(x, f + "v", *w.comm, false); w.comm->communicator().barrier();
    { C c(MPI_COMM_WORLD); Mat A; V y; Dune::loadMatrixMarket(A, f, c); Dune::loadMatrixMarket(y, f + "v", c, false); add(o, y); }
    int bad = P("bad", 0, 3); if (bad) { C c(MPI_COMM_WORLD); Mat A; std::string name = "/simfs/life_" + std::to_string(sim_rank()) + ".mm"; size_t n; const char* t = sim_fs_get(name.c_str(), &n); if (bad == 2 && t) { std::string s(t, n / 2); sim_fs_set(name.c_str(), s.data(), s.size()); } try { Dune::loadMatrixMarket(A, bad == 1 ? std::string("/simfs/nothing") : f, c); } catch (Dune::Exception&) { sim_probe("load-fails"); } catch (std::exception&) { sim_probe("load-fails"); } }
    sim_probe("files");
  }
  static void factory(Rng g) {
    World w(g, 50); Dune::initSolverFactories<Op>(); static const char* solvers[] = {"loopsolver", "cgsolver", "bicgstabsolver", "restartedgmressolver", "minressolver", "gradientsolver", "umfpack", "nonsense"}; static const char* precs[] = {"jac", "ssor", "ilu", "ildl", "dilu", "richardson", "amg", "amg", "nonsense"}; static const char* sm[] = {"ssor", "jac", "sor", "ilu", "nonsense"};
    Dune::ParameterTree t; t["type"] = solvers[P("ftype", 0, 7)]; t["verbose"] = "0"; t["maxit"] = "4"; t["reduction"] = "1e-5"; t["restart"] = "3"; t["preconditioner.type"] = precs[P("fprec", 0, 8)]; t["preconditioner.iterations"] = "1"; t["preconditioner.relaxation"] = "1"; t["preconditioner.verbosity"] = "0"; t["preconditioner.smoother"] = sm[P("fsm", 0, 4)]; t["preconditioner.coarsenTarget"] = "4"; if (P("badvalue", 0, 7) == 7) t["preconditioner.accumulationMode"] = "whatever";
    try { auto s = Dune::getSolverFromFactory(w.op, t); V x(w.A->N()), d(w.A->N()); x = 0; d = 1; w.comm->copyOwnerToAll(d, d); Dune::InverseOperatorResult r; s->apply(x, d, r); sim_probe("factory"); } catch (Dune::SolverAbort&) { sim_probe("abort"); } catch (Dune::Exception&) { sim_probe("factory-refuses"); }
  }
  static Out pass() { Out o; int m = P("activities", 1, 3); for (int k = 0; k < m; ++k) { Rng g = dataRng(500 + k); switch (P(("act" + std::to_string(k)).c_str(), 0, 8)) { case 0: exchanges(g, o); break; case 1: solve(g, o); break; case 2: case 3: anyMultigrid(g, false); break; case 4: anyMultigrid(g, true); break; case 5: hierarchy(g); break; case 6: move(g, o); break; case 7: files(g, o); break; default: factory(g); } } return o; }
};
const char* what(int k) { static const char* n[] = {"communicators", "datatypes", "requests"}; return n[k]; }
template <class L> void run() {
  std::vector<double> first = L::pass(); long long live[3]; for (int k = 0; k < 3; ++k) live[k] = sim_mpi_live(k);
  MPI_Barrier(MPI_COMM_WORLD);
  { std::vector<double> second; sim_alloc_mark(); { second = L::pass(); } if (second.size()) sim_alloc_unmark(); size_t n = second.size(); WL_CHECK(n == first.size(), "differs", "the second pass gives %zu numbers, the first %zu", n, first.size()); for (size_t k = 0; k < n; ++k) WL_CHECK(same(first[k], second[k]), "differs", "number %zu of the second pass is %.17g, in the first it was %.17g", k, second[k], first[k]); }
  sim_alloc_unmark(); sim_alloc_check(); if (long long n = sim_alloc_live_blocks()) { char d[600]; sim_alloc_describe(d, sizeof d); sim_violation("not-released", "rank %d: %lld blocks were not released: %s", sim_rank(), n, d); }
  for (int k = 0; k < 3; ++k) WL_CHECK(sim_mpi_live(k) == live[k], "mpi-not-released", "rank %d: the second pass left %lld %s more than it found", sim_rank(), sim_mpi_live(k) - live[k], what(k));
  WL_CHECK(live[0] == 0, "mpi-not-released", "rank %d: %lld communicators are left", sim_rank(), live[0]); WL_CHECK(live[2] == 0, "mpi-not-released", "rank %d: %lld requests are left", sim_rank(), live[2]);
}
void life() { if (P("block", 1, 2) == 1) run<Life<Dune::FieldMatrix<double, 1, 1>, Dune::FieldVector<double, 1>>>(); else run<Life<Dune::FieldMatrix<double, 2, 2>, Dune::FieldVector<double, 2>>>(); }
} // namespace
WL_TABLE({"life", SIM_RANKS, 1, 6, nullptr, life, nullptr, 1})
