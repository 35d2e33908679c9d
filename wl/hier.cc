// C06 the parallel multigrid hierarchy: aggregates, coarse index sets, Galerkin matrices, accumulation on fewer processes
#include "hier.hh"
using namespace wl;
namespace {
template <class B> struct Run {
  static constexpr int b = B::rows;
  typedef Dune::BCRSMatrix<B> Mat; typedef Dune::BlockVector<Dune::FieldVector<double, b>> V; typedef Dune::OverlappingSchwarzOperator<Mat, V, V, C> Op;
  typedef Dune::Amg::MatrixHierarchy<Op, C> H;
  template <class Crit> static std::unique_ptr<H> make(const Problem& p, std::shared_ptr<Mat> A, std::shared_ptr<C> comm, const Crit& c, std::shared_ptr<Op>& op) {
    op = std::make_shared<Op>(A, *comm); auto h = std::make_unique<H>(op, comm); h->template build<Dune::NegateSet<typename C::OwnerSet>>(c); (void)p;
    WL_CHECK(h->isBuilt(), "not-built", "the hierarchy is not marked as built"); return h;
  }
  template <class Norm> static void go() {
    int me = sim_rank(), np = sim_size(); Rng g = dataRng(20);
    Problem p = makeProblem(g, np, 1, 60, 1, 0);
    auto A = localMatrix<B>(p, me); std::shared_ptr<C> comm = problemComm<C>(p, MPI_COMM_WORLD);
    typedef Dune::Amg::CoarsenCriterion<Dune::Amg::SymmetricCriterion<Mat, Norm>> Crit;
    int accu = P("accu", 0, 2); bool fixed = P("fixedorder", 0, 1);
    Crit c(P("maxlevel", 1, 8), P("target", 1, 12), P("rate", 0, 3) * 0.3 + 1.0, 1.6, (Dune::Amg::AccumulationMode)accu, fixed);
    int size = P("aggsize", 0, 3); if (size == 1) c.setDefaultValuesIsotropic(2); else if (size == 2) { c.setMinAggregateSize(1); c.setMaxAggregateSize(2); c.setMaxDistance(1); } else if (size == 3) { c.setMinAggregateSize(2); c.setMaxAggregateSize(2); }
    c.setSkipIsolated(P("skipisolated", 0, 1)); c.setDebugLevel(P("debug", 0, 3)); c.setAlpha(P("alpha", 0, 2) * 0.3);
    std::shared_ptr<Op> op, op2; auto h = make(p, A, comm, c, op);
    dump<V>(*h, 0, true);
    { std::vector<double> l0; for (int i = 0; i < p.N; ++i) if (p.s.loc[me][i] >= 0) { l0.push_back(p.s.loc[me][i]); l0.push_back(i); } putv("map", l0); }
    // vectors follow the hierarchy
    { typedef Dune::Amg::Hierarchy<V> VH; VH vh(std::make_shared<V>(A->N())); h->coarsenVector(vh); WL_CHECK(vh.levels() == h->levels(), "vector-hierarchy", "the vector hierarchy has %zu levels, the matrices %zu", vh.levels(), h->levels());
      auto v = vh.finest(); auto m = h->matrices().finest(); for (size_t l = 0; l < h->levels(); ++l, ++v, ++m) { WL_CHECK(v->size() == m->getmat().N() && v.isRedistributed() == m.isRedistributed() && (!v.isRedistributed() || v.getRedistributed().size() == m.getRedistributed().getmat().N()), "vector-hierarchy", "vector sizes differ from the matrix sizes on level %zu", l); } }
    if (accu == 0) { // which coarsest aggregate an unknown ends up in
      std::vector<std::size_t> data, at(A->N()); h->getCoarsestAggregatesOnFinest(data); std::iota(at.begin(), at.end(), 0); std::vector<char> iso(A->N(), 0); typedef typename H::AggregatesMap AM; size_t l = 0;
      for (auto* map : h->aggregatesMaps()) { if (++l == h->levels()) break; for (size_t i = 0; i < at.size(); ++i) if (!iso[i]) { auto d = (*map)[at[i]]; if (d >= AM::ISOLATED) iso[i] = 1; else at[i] = d; } }
      WL_CHECK(data.size() == A->N(), "coarsest-aggregates", "the numbers of the coarsest aggregates have length %zu for %zu unknowns", data.size(), A->N()); sim_probe(h->levels() == 1 ? "coarsest-aggregates-one-level" : "coarsest-aggregates");
      std::map<std::size_t, std::size_t> to, back; for (size_t i = 0; i < at.size(); ++i) if (!iso[i]) { auto a = to.emplace(at[i], data[i]), b = back.emplace(data[i], at[i]); WL_CHECK(a.first->second == data[i] && b.first->second == at[i], "coarsest-aggregates", "unknown %zu has number %zu, its coarsest aggregate is %zu of %zu levels", i, data[i], at[i], h->levels()); }
    }
    int passes = P("recalc", 0, 2);
    for (int k = 1; k <= passes; ++k) { // new values with the same pattern
      for (auto r = A->begin(); r != A->end(); ++r) for (auto cc = r->begin(); cc != r->end(); ++cc) { bool dir = false; for (int i = 0; i < p.N; ++i) if (p.s.loc[me][i] == (int)r.index() && p.s.att[me][i] == COPY) dir = true; if (!dir) *cc *= (double)(k + 1); }
      h->recalculateGalerkin(typename Dune::NegateSet<typename C::OwnerSet>()); dump<V>(*h, k, false);
    }
    put("passes", passes);
    if (fixed && P("again", 0, 1)) { // reproducible: a second build yields the same hierarchy
      sim_probe("second-build"); auto A2 = localMatrix<B>(p, me); std::shared_ptr<C> comm2 = problemComm<C>(p, MPI_COMM_WORLD); auto h2 = make(p, A2, comm2, c, op2); dump<V>(*h2, 9, true);
      std::vector<double> s0 = getv<double>(key("S", 0, 0).c_str(), me), s1 = getv<double>(key("S", 9, 0).c_str(), me); bool eq = s0 == s1;
      for (int l = 0; eq && l < (int)s0[0]; ++l) eq = getv<double>(key("D", 0, l).c_str(), me) == getv<double>(key("D", 9, l).c_str(), me) && getv<double>(key("R", 0, l).c_str(), me) == getv<double>(key("R", 9, l).c_str(), me);
      WL_CHECK(eq, "not-reproducible", "with a fixed order requested, two builds for the same matrix give different hierarchies on rank %d", me);
    }
    if (np > 1) sim_probe("parallel");
  }
};
template <class B> void runB() { if (P("norm", 0, 1)) Run<B>::template go<Dune::Amg::RowSum>(); else Run<B>::template go<Dune::Amg::FirstDiagonal>(); }
void run() { put("b", (int)P("block", 1, 2)); if (P("block", 1, 2) == 1) runB<Dune::FieldMatrix<double, 1, 1>>(); else runB<Dune::FieldMatrix<double, 2, 2>>(); }

// ---- after the run: assemble the global picture of every level
typedef std::map<long, std::map<long, std::vector<double>>> GMat;
void check() {
  int np = sim_size(), passes = 0, b = 1; get("passes", 0, passes); get("b", 0, b); int ec = 2 + b * b;
  int fixedPass[] = {0, 1, 2, 9};
  std::vector<double> S0 = getv<double>(key("S", 0, 0).c_str(), 0); int maxl = (int)S0[1], any = 0, accu = P("accu", 0, 2);
  for (int r = 0; r < np; ++r) { auto s = getv<double>(key("S", 0, 0).c_str(), r); WL_CHECK((int)s[1] == maxl, "maxlevels", "rank %d reports %d levels at most, rank 0 reports %d", r, (int)s[1], maxl); WL_CHECK(s[0] <= maxl, "maxlevels", "rank %d has more levels than the maximum", r); if (s[0] == maxl) any++; }
  WL_CHECK(any > 0, "maxlevels", "no rank has the coarsest level"); WL_CHECK(maxl <= P("maxlevel", 1, 8) + 1, "maxlevels", "%d levels were built although at most %d coarsenings were allowed", maxl, (int)P("maxlevel", 1, 8));
  if (maxl > 1) sim_probe("coarsened"); if (maxl > 3) sim_probe("four-levels");
  Problem p; { Rng g = dataRng(20); p = makeProblem(g, np, 1, 60, 1, 0); }
  std::vector<GMat> first; 
  for (int pass : fixedPass) {
    if (pass != 9 && pass > passes) continue; if (pass == 9 && !has(key("S", 9, 0).c_str(), 0)) continue;
    GMat prev; // global matrix of the previous level, in terms of the ids of its active distribution
    std::map<long, long> coarseOf; // active fine id -> coarse id
    for (int l = 0; l < maxl; ++l) {
      std::vector<Lev> D(np), R(np); for (int r = 0; r < np; ++r) if (has(key("D", pass, l).c_str(), r)) { D[r] = Lev::unpack(getv<double>(key("D", pass, l).c_str(), r)); R[r] = Lev::unpack(getv<double>(key("R", pass, l).c_str(), r)); }
      auto assemble = [&](std::vector<Lev>& L, const char* what) {
        GMat m; std::map<long, int> own; 
        for (int r = 0; r < np; ++r) for (int i = 0; i < L[r].n; ++i) { if (L[r].att[i] != OWNER) continue; WL_CHECK(!own.count(L[r].gid[i]), "two-owners", "level %d (%s): global id %ld is owned by ranks %d and %d", l, what, L[r].gid[i], own[L[r].gid[i]], r); own[L[r].gid[i]] = r; m[L[r].gid[i]]; }
        for (int r = 0; r < np; ++r) { WL_CHECK(L[r].nset == L[r].n, "index-missing", "level %d (%s): rank %d has %d rows but %d indices", l, what, r, L[r].n, L[r].nset); for (int i = 0; i < L[r].n; ++i) WL_CHECK(own.count(L[r].gid[i]), "no-owner", "level %d (%s): global id %ld held by rank %d has no owner", l, what, L[r].gid[i], r); }
        std::map<long, std::vector<double>> diag;
        for (int r = 0; r < np; ++r) for (size_t e = 0; e < L[r].ent.size(); e += ec) { int i = (int)L[r].ent[e], j = (int)L[r].ent[e + 1]; std::vector<double> v(L[r].ent.begin() + e + 2, L[r].ent.begin() + e + ec); if (L[r].att[i] == OWNER) { bool z = std::all_of(v.begin(), v.end(), [](double d) { return d == 0; }); if (!z) m[L[r].gid[i]][L[r].gid[j]] = v; if (i == j) diag[L[r].gid[i]] = v; } }
        if (l > 0 && what[0] == 'o') for (int r = 0; r < np; ++r) for (size_t e = 0; e < L[r].ent.size(); e += ec) { int i = (int)L[r].ent[e], j = (int)L[r].ent[e + 1]; if (L[r].att[i] != OWNER && i == j) { std::vector<double> v(L[r].ent.begin() + e + 2, L[r].ent.begin() + e + ec); WL_CHECK(v == diag[L[r].gid[i]], "copy-diagonal", "level %d: the diagonal entry of global id %ld is %g on rank %d but %g on its owner", l, L[r].gid[i], v[0], r, diag[L[r].gid[i]].empty() ? 0 : diag[L[r].gid[i]][0]); } }
        return m;
      };
      GMat m = assemble(D, "original");
      if (l == 0) { // the finest level is the given problem
        GMat want; double f = 1; for (int k = 1; k <= (pass == 9 ? 0 : pass); ++k) f *= k + 1; 
        for (int i = 0; i < p.N; ++i) for (auto& c : p.A[i]) { std::vector<double> v(b * b, 0.0); if (b == 1) { Dune::FieldMatrix<double, 1, 1> x; fillBlock(x, i, c.first, c.second); v[0] = x[0][0] * f; } else { Dune::FieldMatrix<double, 2, 2> x; fillBlock(x, i, c.first, c.second); for (int r = 0; r < 2; ++r) for (int k = 0; k < 2; ++k) v[r * 2 + k] = x[r][k] * f; } want[p.s.gid[i]][p.s.gid[c.first]] = v; }
        WL_CHECK(m == want, "fine-matrix", "the finest level of the hierarchy is not the given matrix (pass %d)", pass);
      } else {
        GMat want; for (auto& r : prev) { auto ci = coarseOf.find(r.first); if (ci == coarseOf.end() || ci->second < 0) continue; want[ci->second]; for (auto& c : r.second) { auto cj = coarseOf.find(c.first); if (cj == coarseOf.end() || cj->second < 0) continue; auto& t = want[ci->second][cj->second]; t.resize(b * b, 0.0); for (int k = 0; k < b * b; ++k) t[k] += c.second[k]; } }
        for (auto& r : want) for (auto c = r.second.begin(); c != r.second.end();) if (std::all_of(c->second.begin(), c->second.end(), [](double d) { return d == 0; })) c = r.second.erase(c); else ++c;
        WL_CHECK(m.size() == want.size(), "coarse-unknowns", "level %d (pass %d): %zu unknowns are owned by some rank, the aggregates of the finer level define %zu", l, pass, m.size(), want.size());
        for (auto& r : want) { WL_CHECK(m.count(r.first), "coarse-unknowns", "level %d: the aggregate with global id %ld is missing", l, r.first); auto& mr = m[r.first];
          for (auto& c : r.second) { WL_CHECK(mr.count(c.first), "galerkin", "level %d (pass %d): the coarse entry (%ld,%ld) is missing, the Galerkin product has %g", l, pass, r.first, c.first, c.second[0]); WL_CHECK(mr[c.first] == c.second, "galerkin", "level %d (pass %d): the coarse entry (%ld,%ld) is %g, the Galerkin product is %g", l, pass, r.first, c.first, mr[c.first][0], c.second[0]); }
          WL_CHECK(mr.size() == r.second.size(), "galerkin", "level %d (pass %d): row %ld of the coarse matrix has %zu nonzero entries, the Galerkin product %zu", l, pass, r.first, mr.size(), r.second.size()); }
      }
      std::vector<Lev>* act = &D; bool red = false; for (int r = 0; r < np; ++r) if (R[r].present) red = true;
      if (red) {
        std::map<long, long> o2n; std::map<long, int> seen; int data = 0;
        for (int r = 0; r < np; ++r) { if (D[r].present) WL_CHECK(R[r].present, "redistribution-inconsistent", "level %d is redistributed on some ranks only", l); if (R[r].n) data++; for (int i = 0; i < R[r].n; ++i) if (R[r].att[i] == OWNER) { long o = R[r].old[i]; int orank = (int)(o / 1000000), oi = (int)(o % 1000000); WL_CHECK(o >= 0 && orank < np && oi < D[orank].n && D[orank].att[oi] == OWNER, "redistribution-origin", "level %d: the redistributed unknown %ld on rank %d received no value from an owner (got %ld)", l, R[r].gid[i], r, o); long og = D[orank].gid[oi]; WL_CHECK(!o2n.count(og), "redistribution-duplicate", "level %d: unknown %ld was sent to two new owners", l, og); o2n[og] = R[r].gid[i]; } }
        GMat rm = assemble(R, "redistributed"), want; WL_CHECK(o2n.size() == m.size(), "redistribution-lost", "level %d: %zu unknowns before, %zu after the redistribution", l, m.size(), o2n.size());
        for (auto& r : m) { want[o2n[r.first]]; for (auto& c : r.second) { WL_CHECK(o2n.count(c.first), "redistribution-lost", "level %d: unknown %ld vanished", l, c.first); want[o2n[r.first]][o2n[c.first]] = c.second; } }
        WL_CHECK(rm == want, "redistributed-matrix", "level %d (pass %d): the redistributed matrix is not the original one", l, pass);
        for (int r = 0; r < np; ++r) if (R[r].present) WL_CHECK((R[r].csize > 0) == (R[r].n > 0), "redistribution-comm", "level %d: rank %d has %d rows but is %sin the communicator of the redistributed level", l, r, R[r].n, R[r].csize > 0 ? "" : "not ");
        for (int r = 0; r < np; ++r) if (R[r].csize) WL_CHECK(R[r].csize == data, "redistribution-comm", "level %d: the new communicator has %d processes, %d have data", l, R[r].csize, data);
        if (data > 1) sim_probe("redistributed-to-several"); act = &R; m = rm;
      }
if (accu && l + 1 == maxl) { bool wide = false; for (int r = 0; r < np; ++r) if (D[r].csize > 1) wide = true; WL_CHECK(!wide || red, "not-accumulated", "accumulation was requested but the data of the coarsest level stays on all processes"); }
      if (!accu) WL_CHECK(!red, "unexpected-accumulation", "level %d was redistributed although no accumulation was requested", l);
      // aggregates: defined by the owners, known to everybody else
      coarseOf.clear();
      if (l + 1 < maxl) {
        std::vector<Lev> N(np); for (int r = 0; r < np; ++r) if (has(key("D", pass, l + 1).c_str(), r)) N[r] = Lev::unpack(getv<double>(key("D", pass, l + 1).c_str(), r));
        std::set<long> used; long iso = 0;
        for (int step = 0; step < 2; ++step) for (int r = 0; r < np; ++r) { Lev& a = (*act)[r]; if (!N[r].present) { WL_CHECK(a.n == 0 || !a.csize, "level-missing", "rank %d has data on level %d but not on level %d", r, l, l + 1); continue; } WL_CHECK((int)a.agg.size() == a.n, "aggregates-size", "rank %d level %d", r, l);
          for (int i = 0; i < a.n; ++i) { long c = a.agg[i]; WL_CHECK(c != -1, "unaggregated", "level %d: vertex %ld on rank %d belongs to no aggregate", l, a.gid[i], r); WL_CHECK(c < N[r].n, "aggregate-range", "level %d: vertex %ld on rank %d is in aggregate %ld of %d", l, a.gid[i], r, c, N[r].n); long cg = c < 0 ? -2 : N[r].gid[c];
            if (step == 0 && a.att[i] == OWNER) { coarseOf[a.gid[i]] = cg; if (c >= 0) { WL_CHECK(N[r].att[c] == OWNER, "aggregate-owner", "level %d: rank %d owns vertex %ld but not its aggregate", l, r, a.gid[i]); used.insert(cg); } else iso++; }
            if (step == 1 && a.att[i] != OWNER) { WL_CHECK(coarseOf.count(a.gid[i]), "no-owner", "level %d: vertex %ld on rank %d", l, a.gid[i], r); WL_CHECK(coarseOf[a.gid[i]] == cg, "aggregate-disagreement", "level %d: vertex %ld belongs to aggregate %ld for its owner but to aggregate %ld on rank %d", l, a.gid[i], coarseOf[a.gid[i]], cg, r); } } }
        if (iso) sim_probe("isolated"); if (iso) WL_CHECK(P("skipisolated", 0, 1), "isolated", "level %d: %ld vertices are left out of the coarse level although isolated vertices are not to be skipped", l, iso);
        for (int r = 0; r < np; ++r) for (int i = 0; i < N[r].n; ++i) WL_CHECK(used.count(N[r].gid[i]), "empty-aggregate", "level %d: coarse unknown %ld on rank %d has no fine vertex", l + 1, N[r].gid[i], r);
        prev = m;
      }
    }
  }
}
} // namespace
WL_TABLE({"hierarchy", SIM_RANKS, 1, 6, nullptr, run, check, 1})
