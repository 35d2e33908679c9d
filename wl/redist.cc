// C08 repartitioning and moving matrices; C09 moving vectors there and back
#include "hier.hh"
#include <dune/istl/matrixredistribute.hh>
#include <dune/istl/repartition.hh>
#include <dune/istl/paamg/graph.hh>
using namespace wl;
namespace {
template <class B> struct Run {
  static constexpr int b = B::rows; typedef Dune::BCRSMatrix<B> Mat; typedef Dune::RedistributeInformation<C> RI;
  static void scale(Mat& A, const Problem& p, double f) { int me = sim_rank(); for (int i = 0; i < p.N; ++i) if (p.s.att[me][i] == OWNER) { int j = p.s.loc[me][i]; for (auto c = A[j].begin(); c != A[j].end(); ++c) *c *= f; } }
  static void go(bool vectors) {
    int me = sim_rank(), np = sim_size(); Rng g = dataRng(31); int method = P("method", 0, 2); Problem p = makeProblem(g, np, 1, 60, 1, 0);
    auto A = localMatrix<B>(p, me); auto comm = problemComm<C>(p, MPI_COMM_WORLD); if (!comm->remoteIndices().isSynced()) comm->remoteIndices().template rebuild<false>();
    int nparts = P("nparts", 1, np); std::shared_ptr<C> nc; RI ri; bool exists = false; bool verbose = P("verbose", 0, 7) == 7;
    // where every unknown goes, if the caller decides
    std::vector<int> target(p.N); { Rng t = dataRng(32); int tk = (int)t.below(4), fixed = (int)t.below(np), off = (int)t.below(np); for (int i = 0; i < p.N; ++i) target[i] = tk == 0 ? (int)t.below(np) : tk == 1 ? fixed : tk == 2 ? (p.part[i] + off) % np : (int)((long)i * nparts / p.N); }
    typedef Dune::Amg::MatrixGraph<Mat> G; std::vector<std::pair<long, int>> before; for (auto& q : comm->indexSet()) before.push_back({q.global(), (int)q.local().local()});
    if (method == 0) { G graph(*A); exists = Dune::graphRepartition(graph, *comm, nparts, nc, ri.getInterface(), verbose); }
    else if (method == 1) exists = Dune::commGraphRepartition(*A, *comm, nparts, nc, ri.getInterface(), verbose);
    else { G graph(*A); comm->buildGlobalLookup(A->N()); std::vector<int> part(A->N(), -1); for (int i = 0; i < p.N; ++i) if (p.s.att[me][i] == OWNER) part[p.s.loc[me][i]] = target[i]; comm->copyOwnerToAll(part, part); exists = Dune::buildCommunication(graph, part, *comm, nc, ri.getInterface(), verbose); comm->freeGlobalLookup(); }
    WL_CHECK(nc != nullptr, "no-communication", "no communication object was created");
    WL_CHECK(exists == (nc->communicator().size() > 0), "exists", "the return value %d does not tell whether this rank takes part (communicator of size %d)", (int)exists, (int)nc->communicator().size());
    { size_t k = 0; for (auto& q : comm->indexSet()) { WL_CHECK(k < before.size() && before[k].first == q.global() && before[k].second == (int)q.local().local(), "source-changed", "repartitioning changed the original index set"); ++k; } WL_CHECK(k == before.size(), "source-changed", "repartitioning changed the original index set"); }
    if (P("setup", 0, 1)) ri.setSetup();
    Mat N; Dune::redistributeMatrix(*A, N, *comm, *nc, ri); if (!ri.isSetup()) ri.setSetup();
    Lev d = describe(N, *nc); d.present = exists; putv("new0", d.pack()); std::vector<double> info{(double)method, (double)nparts, (double)exists}; putv("info", info);
    int n0 = (int)A->N(), n1 = (int)N.N(); WL_CHECK((size_t)d.nset == N.N(), "entries-outside", "the new matrix has %d rows, the new index set %d entries", n1, d.nset);
    if (exists && nc->communicator().size() > 0) { typedef Dune::BlockVector<Dune::FieldVector<double, b>> V; checkExchange<C, V>(*nc, n1, "the new distribution", 0); }
    // history of transports
    typedef Dune::BlockVector<Dune::FieldVector<double, 3>> W; int steps = P("steps", vectors ? 2 : 0, vectors ? 10 : 2); int mats = 0; double f = 1;
    for (int k = 0; k < steps; ++k) {
      const RI& r = ri; int kind = P(("step" + std::to_string(k)).c_str(), 0, 4); auto val = [&](long gid, int c) { return (double)(gid * 16 + 3 * k + c + 1); };
      if (kind == 0 || kind == 1) { W x(n0), y(n1); x = -7; y = -8; for (auto& q : comm->indexSet()) if (q.local().attribute() == Att::owner) for (int c = 0; c < 3; ++c) x[q.local().local()][c] = val(q.global(), c); W x0(x);
        r.redistribute(x, y); for (int j = 0; j < n0; ++j) for (int c = 0; c < 3; ++c) WL_CHECK(x[j][c] == x0[j][c], "source-changed", "moving a vector changed its source");
        for (int j = 0; j < n1; ++j) for (int c = 0; c < 3; ++c) { double want = d.att[j] == OWNER ? val(d.gid[j], c) : -8; WL_CHECK(y[j][c] == want, "forward", "step %d: new local index %d (global %ld, attribute %ld) holds %g instead of %g", k, j, d.gid[j], d.att[j], y[j][c], want); }
        if (kind == 1) { if (exists) nc->copyOwnerToAll(y, y); y *= 2; W z(n0); z = -9; r.redistributeBackward(z, y); for (auto& q : comm->indexSet()) for (int c = 0; c < 3; ++c) { double want = q.local().attribute() == Att::owner ? 2 * val(q.global(), c) : -9, have = z[q.local().local()][c]; WL_CHECK(have == want, "roundtrip", "step %d: the value of global id %ld came back as %g instead of %g", k, (long)q.global(), have, want); } sim_probe("round-trip"); } }
      else if (kind == 2) { W y(n1), z(n0); y = -5; z = -6; for (int j = 0; j < n1; ++j) if (d.att[j] == OWNER) for (int c = 0; c < 3; ++c) y[j][c] = val(d.gid[j], c) + 0.5; r.redistributeBackward(z, y); for (auto& q : comm->indexSet()) for (int c = 0; c < 3; ++c) { double want = q.local().attribute() == Att::owner ? val(q.global(), c) + 0.5 : -6, have = z[q.local().local()][c]; WL_CHECK(have == want, "backward", "step %d: the value of global id %ld came back as %g instead of %g", k, (long)q.global(), have, want); } sim_probe("backward"); }
      else if (kind == 3) { std::vector<long> x(n0, -1), y(n1, -2); for (auto& q : comm->indexSet()) if (q.local().attribute() == Att::owner) x[q.local().local()] = 5 * q.global() + k; r.redistribute(x, y); for (int j = 0; j < n1; ++j) { long want = d.att[j] == OWNER ? 5 * d.gid[j] + k : -2; WL_CHECK(y[j] == want, "forward", "step %d: new local index %d holds %ld instead of %ld", k, j, y[j], want); } }
      else { scale(*A, p, 2); f *= 2; comm->buildGlobalLookup(A->N()); N = 0; Dune::redistributeMatrixEntries(*A, N, *comm, *nc, ri); comm->freeGlobalLookup(); Lev e = describe(N, *nc); e.present = exists; ++mats; putv(("new" + std::to_string(mats)).c_str(), e.pack()); sim_probe("entries-again"); }
    }
    put("mats", mats);
  }
};
void any(bool v) { put("b", (int)P("block", 1, 2)); if (P("block", 1, 2) == 1) Run<Dune::FieldMatrix<double, 1, 1>>::go(v); else Run<Dune::FieldMatrix<double, 2, 2>>::go(v); }
void repartition() { any(false); }
void transport() { any(true); }
template <class B> void checkT() {
  int np = sim_size(); constexpr int b = B::rows; Rng g = dataRng(31); P("method", 0, 2); Problem p = makeProblem(g, np, 1, 60, 1, 0); std::map<long, int> idx; for (int i = 0; i < p.N; ++i) idx[p.s.gid[i]] = i;
  int mats = 0; get("mats", 0, mats); auto info = getv<double>("info", 0); int ec = 2 + b * b; int owners = 0;
  for (int m = 0; m <= mats; ++m) { std::vector<int> owner(p.N, -1); double f = std::pow(2.0, m); std::vector<Lev> L(np);
    for (int r = 0; r < np; ++r) { L[r] = Lev::unpack(getv<double>(("new" + std::to_string(m)).c_str(), r)); if (!L[r].present) WL_CHECK(L[r].n == 0, "data-on-idle", "rank %d does not take part but holds %d rows", r, L[r].n); for (int k = 0; k < L[r].n; ++k) { WL_CHECK(idx.count(L[r].gid[k]), "invented", "rank %d holds an unknown with the global id %ld", r, L[r].gid[k]); int i = idx[L[r].gid[k]]; if (L[r].att[k] == OWNER) { WL_CHECK(owner[i] < 0, "owned-twice", "the unknown %ld is owned by the ranks %d and %d", L[r].gid[k], owner[i], r); owner[i] = r; } } }
    std::set<int> used; for (int i = 0; i < p.N; ++i) { WL_CHECK(owner[i] >= 0, "lost", "the unknown %ld has no owner any more", p.s.gid[i]); used.insert(owner[i]); } owners = (int)used.size();
    if (info[0] != 2) WL_CHECK((int)used.size() <= (int)info[1], "too-many-parts", "%d processes hold unknowns, %d parts were requested", (int)used.size(), (int)info[1]);
    if (info[0] == 2) { Rng t = dataRng(32); int tk = (int)t.below(4), fixed = (int)t.below(np), off = (int)t.below(np); for (int i = 0; i < p.N; ++i) { int want = tk == 0 ? (int)t.below(np) : tk == 1 ? fixed : tk == 2 ? (p.part[i] + off) % np : (int)((long)i * (int)info[1] / p.N); WL_CHECK(owner[i] == want, "wrong-process", "the unknown %ld went to rank %d instead of %d", p.s.gid[i], owner[i], want); } }
    for (int r = 0; r < np; ++r) { std::set<long> have(L[r].gid.begin(), L[r].gid.end()); for (int k = 0; k < L[r].n; ++k) if (L[r].att[k] == OWNER) for (auto& c : p.A[idx[L[r].gid[k]]]) WL_CHECK(have.count(p.s.gid[c.first]), "halo-missing", "rank %d owns the unknown %ld but does not know its neighbour %ld", r, L[r].gid[k], p.s.gid[c.first]);
      std::vector<std::map<int, std::vector<double>>> rows(L[r].n); for (size_t e = 0; e < L[r].ent.size(); e += ec) rows[(int)L[r].ent[e]][(int)L[r].ent[e + 1]] = std::vector<double>(L[r].ent.begin() + e + 2, L[r].ent.begin() + e + ec);
      for (int k = 0; k < L[r].n; ++k) { int i = idx[L[r].gid[k]];
        if (L[r].att[k] == OWNER) { WL_CHECK(rows[k].size() == p.A[i].size(), "row-pattern", "row %ld has %zu entries on rank %d instead of %zu", L[r].gid[k], rows[k].size(), r, p.A[i].size());
          for (auto& c : rows[k]) { int j = idx[L[r].gid[c.first]]; WL_CHECK(p.A[i].count(j), "row-pattern", "row %ld got an entry in column %ld", L[r].gid[k], L[r].gid[c.first]); B blk; fillBlock(blk, i, j, p.A[i].at(j)); for (int q = 0; q < b * b; ++q) WL_CHECK(c.second[q] == f * blk[q / b][q % b], "row-values", "entry (%ld,%ld) is %g instead of %g on rank %d", L[r].gid[k], L[r].gid[c.first], c.second[q], f * blk[q / b][q % b], r); } }
        else { WL_CHECK(L[r].att[k] == COPY, "attribute", "unknown %ld has attribute %ld", L[r].gid[k], L[r].att[k]); WL_CHECK(rows[k].count(k), "dirichlet", "the row of the copy %ld has no diagonal entry on rank %d", L[r].gid[k], r); for (auto& c : rows[k]) for (int q = 0; q < b * b; ++q) { double want = c.first == k && q / b == q % b ? 1 : 0; WL_CHECK(c.second[q] == want, "dirichlet", "the row of the copy %ld is no identity row on rank %d (column %ld holds %g)", L[r].gid[k], r, L[r].gid[c.first], c.second[q]); } } } } }
  if (owners < np) sim_probe("fewer-processes"); if (mats) sim_probe("values-again"); if (owners > 1) sim_probe("several-parts");
}
void check() { int b = 1; get("b", 0, b); if (b == 1) checkT<Dune::FieldMatrix<double, 1, 1>>(); else checkT<Dune::FieldMatrix<double, 2, 2>>(); }
} // namespace
WL_TABLE({"repartition", SIM_RANKS, 1, 7, nullptr, repartition, check, 1}, {"transport", SIM_RANKS, 1, 7, nullptr, transport, check, 1})
