// C01 owner/overlap/copy exchanges, C02 parallel dot/norm, against a replicated global model
#include "par.hh"
#include <dune/common/fvector.hh>
#include <dune/istl/scalarproducts.hh>
using namespace wl;

template <class B> struct Comp { static constexpr int n = 1; static double& c(B& b, int) { return reinterpret_cast<double*>(&b)[0]; } };
template <int k> struct Comp<Dune::FieldVector<double, k>> { static constexpr int n = k; static double& c(Dune::FieldVector<double, k>& b, int i) { return b[i]; } };
template <int k> struct Comp<Dune::FieldVector<std::complex<double>, k>> { static constexpr int n = 2 * k; static double& c(Dune::FieldVector<std::complex<double>, k>& b, int i) { return reinterpret_cast<double*>(&b[i / 2])[i % 2]; } };

// model of one distributed vector: per rank, per local entry, per component
typedef std::vector<std::vector<std::vector<double>>> Model;

static Model randomModel(const Scenario& s, Rng& g, int comps, bool consistentCopies) {
  Model m(s.P); Shape sh(g);
  for (int r = 0; r < s.P; ++r) { m[r].assign(s.nloc[r], std::vector<double>(comps)); for (auto& e : m[r]) for (double& d : e) d = sh(r, (double)g.range(-1000, 1000)); }
  if (consistentCopies) for (int i = 0; i < s.N; ++i) { int f = -1; for (int r = 0; r < s.P; ++r) if (s.att[r][i] == COPY) { if (f < 0) f = r; else m[r][s.loc[r][i]] = m[f][s.loc[f][i]]; } }
  return m;
}
template <class V> void fill(V& v, const Model& m, int me) {
  typedef typename V::block_type B;
  v.resize(m[me].size());
  for (size_t j = 0; j < m[me].size(); ++j) for (int c = 0; c < Comp<B>::n; ++c) Comp<B>::c(v[j], c) = m[me][j][c];
}
template <class V> void compare(V& v, const Model& m, int me, const char* op, const char* what, int step) {
  typedef typename V::block_type B;
  WL_CHECK(v.size() == m[me].size(), "exchange-size", "%s changed the length of the %s vector", op, what);
  for (size_t j = 0; j < v.size(); ++j) for (int c = 0; c < Comp<B>::n; ++c) {
    double d = Comp<B>::c(v[j], c); hash(d);
    WL_CHECK(d == m[me][j][c], "exchange-wrong-value", "step %d: after %s the %s vector holds %g at local entry %d component %d of rank %d, expected %g", step, op, what, d, (int)j, c, me, m[me][j][c]);
  }
}

static bool inSet(int a, int mask) { return a && (mask >> a & 1); }

template <class G, class B> void exchange(int sharing) {
  typedef Dune::BlockVector<B> V; constexpr int nc = Comp<B>::n;
  int me = sim_rank(), np = sim_size();
  Rng g = dataRng(1);
  Scenario s = makeScenario(np, g, P("indices", 1, 14), sharing, P("extras", 0, 1));
  auto comm = buildComm<G>(s, g, P("build", 0, 2), MPI_COMM_WORLD);
  if (P("badinfo", 0, 5) == 0) { // a remote index nobody has locally is reported
    Dune::IndexInfoFromGrid<G, int> info; G bad = 4242; bool none = g.below(2), thrown = false;
    for (int i = 0; i < s.N; ++i) { if ((G)s.gid[i] == bad) bad = s.gid[i] + 1; }
    for (int k = 0; k < s.N; ++k) for (int i = 0; i < s.N; ++i) if ((G)s.gid[i] == bad) ++bad;
    if (!none) for (int i = 0; i < s.N; ++i) if (s.att[me][i]) info.addLocalIndex(std::tuple<G, int, int>((G)s.gid[i], s.loc[me][i], s.att[me][i]));
    info.addRemoteIndex(std::tuple<int, G, int>((me + 1) % np, bad, (int)COPY));
    try { Dune::OwnerOverlapCopyCommunication<G, int> c(info, MPI_COMM_WORLD); } catch (Dune::ISTLError&) { thrown = true; }
    WL_CHECK(thrown, "bad-index-info", "a remote index without local index was accepted"); sim_probe("bad-index-info");
  }
  int nsteps = P("steps", 1, 6);
  Model x = randomModel(s, g, nc, false), y = randomModel(s, g, nc, false);
  V vx, vy; fill(vx, x, me); fill(vy, y, me);
  static const char* names[] = {"copyOwnerToAll", "addOwnerOverlapToAll", "addOwnerCopyToAll", "addOwnerCopyToOwnerCopy", "copyCopyToAll", "project"};
  for (int st = 0; st < nsteps; ++st) {
    int op = (int)g.below(6); bool inplace = g.below(2); bool consistent = g.below(2);
    char nm[24]; snprintf(nm, sizeof nm, "op%d", st); op = P(nm, 0, 5);
    if (st && P("refill", 0, 2) == 0 && g.below(3) == 0) { // the index set changes between two exchanges
      s = changedScenario(s, g, 14, sharing, P("extras", 0, 1)); refillComm(*comm, s, g); sim_probe("index-set-changed");
      x = randomModel(s, g, nc, false); y = randomModel(s, g, nc, false); fill(vx, x, me); fill(vy, y, me);
    }
    if (P("lookup", 0, 2) == 0 && g.below(2)) { // local -> global, always for the index set as it is now
      int top = 0; for (int i = 0; i < s.N; ++i) if (s.att[me][i]) top = std::max(top, s.loc[me][i] + 1);
      if (g.below(4) == 0) comm->freeGlobalLookup();
      if (g.below(2)) comm->buildGlobalLookup(); else comm->buildGlobalLookup(s.nloc[me]);
      std::vector<int> at(top, -1); for (int i = 0; i < s.N; ++i) if (s.att[me][i]) at[s.loc[me][i]] = i;
      sim_probe("global-lookup");
      for (int l = 0; l < top; ++l) {
        auto* pr = comm->globalLookup().pair(l);
        WL_CHECK((pr != nullptr) == (at[l] >= 0), "lookup-wrong", "step %d: the lookup of rank %d %s local index %d", st, me, pr ? "knows the unshared" : "does not know", l);
        if (pr) WL_CHECK((long)pr->global() == (long)(G)s.gid[at[l]] && (int)pr->local().attribute() == s.att[me][at[l]], "lookup-wrong", "step %d: the lookup of rank %d takes local index %d for global %ld, attribute %d", st, me, l, (long)pr->global(), (int)pr->local().attribute());
      }
    }
    if (op == 4) { // copies may disagree: any copy's value is acceptable then
      x = randomModel(s, g, nc, consistent); y = randomModel(s, g, nc, false); fill(vx, x, me); fill(vy, y, me);
    }
    Model& d = inplace ? x : y; V& vd = inplace ? vx : vy; const V& vs = vx; Model src = x;
    sim_log("step %d %s%s", st, names[op], inplace ? " in place" : "");
    int from = op == 0 ? 1 << OWNER : op == 1 ? (1 << OWNER | 1 << OVERLAP) : op == 4 ? 1 << COPY : (1 << OWNER | 1 << COPY);
    int to = op == 3 ? (1 << OWNER | 1 << COPY) : (1 << OWNER | 1 << OVERLAP | 1 << COPY);
    switch (op) {
      case 0: comm->copyOwnerToAll(vs, vd); break;
      case 1: comm->addOwnerOverlapToAll(vs, vd); break;
      case 2: comm->addOwnerCopyToAll(vs, vd); break;
      case 3: comm->addOwnerCopyToOwnerCopy(vs, vd); break;
      case 4: comm->copyCopyToAll(vs, vd); break;
      case 5: comm->project(vd); break;
    }
    if (op == 5) { for (int r = 0; r < np; ++r) for (int i = 0; i < s.N; ++i) if (s.att[r][i] == COPY) for (int c = 0; c < nc; ++c) d[r][s.loc[r][i]][c] = 0; }
    else if (op == 4) {
      for (int i = 0; i < s.N; ++i) for (int r = 0; r < np; ++r) if (s.att[r][i]) {
        std::vector<const std::vector<double>*> cand; for (int q = 0; q < np; ++q) if (q != r && s.att[q][i] == COPY) cand.push_back(&src[q][s.loc[q][i]]);
        if (cand.empty()) continue;
        if (r == me) {
          bool ok = false; for (auto c : cand) { bool eq = true; for (int k = 0; k < nc; ++k) if (Comp<B>::c(vd[s.loc[r][i]], k) != (*c)[k]) eq = false; ok = ok || eq; }
          WL_CHECK(ok, "exchange-wrong-value", "step %d: after copyCopyToAll rank %d holds %g for shared index %ld, which is the value of none of its %d copies elsewhere", st, me, Comp<B>::c(vd[s.loc[r][i]], 0), s.gid[i], (int)cand.size());
          for (int k = 0; k < nc; ++k) d[r][s.loc[r][i]][k] = Comp<B>::c(vd[s.loc[r][i]], k);
        }
      }
      compare(vd, d, me, names[op], "destination", st);
      // other ranks' choices are unknown here: continue with fresh data
      if (!inplace) compare(vx, x, me, names[op], "source", st);
      x = randomModel(s, g, nc, false); y = randomModel(s, g, nc, false); fill(vx, x, me); fill(vy, y, me);
      continue;
    } else {
      for (int i = 0; i < s.N; ++i) for (int r = 0; r < np; ++r) if (inSet(s.att[r][i], to)) for (int q = 0; q < np; ++q) if (q != r && inSet(s.att[q][i], from)) for (int c = 0; c < nc; ++c) {
        if (op == 0) d[r][s.loc[r][i]][c] = src[q][s.loc[q][i]][c]; else d[r][s.loc[r][i]][c] += src[q][s.loc[q][i]][c]; }
    }
    compare(vd, d, me, names[op], "destination", st);
    if (!inplace) compare(vx, x, me, names[op], "source", st);
  }
  if (g.below(2)) { comm.reset(); sim_probe("comm-destroyed-early"); }
}
static void runExchange() {
  int t = P("type", 0, 4), sh = P("sharing", 0, 2);
  switch (t) {
    case 0: exchange<int, Dune::FieldVector<double, 1>>(sh); break;
    case 1: exchange<long, Dune::FieldVector<double, 3>>(sh); break;
    case 2: exchange<unsigned, double>(sh); break;
    case 3: exchange<int, Dune::FieldVector<std::complex<double>, 2>>(sh); break;
    case 4: exchange<std::size_t, Dune::FieldVector<double, 2>>(sh); break;
  }
}

// several communication objects and vector types in flight on the same communicator: fast ranks run ahead
static void runInterleaved() {
  int me = sim_rank(), np = sim_size(); Rng g = dataRng(2);
  Scenario a = makeScenario(np, g, P("indices", 1, 10), P("sharing", 0, 2), false), b = makeScenario(np, g, P("indices2", 1, 10), P("sharing2", 0, 2), true);
  auto ca = buildComm<int>(a, g, P("build", 0, 2), MPI_COMM_WORLD);
  auto cb = buildComm<int>(b, g, P("build2", 0, 2), MPI_COMM_WORLD);
  typedef Dune::BlockVector<Dune::FieldVector<double, 2>> V;
  Model xa = randomModel(a, g, 2, false), xb = randomModel(b, g, 2, false); V va, vb; fill(va, xa, me); fill(vb, xb, me);
  int nsteps = P("steps", 1, 8);
  for (int st = 0; st < nsteps; ++st) {
    bool first = g.below(2); int op = (int)g.below(3); Scenario& s = first ? a : b; auto& c = first ? ca : cb; Model& m = first ? xa : xb; V& v = first ? va : vb;
    Model src = m;
    if (op == 0) { c->copyOwnerToAll(v, v); for (int i = 0; i < s.N; ++i) for (int r = 0; r < np; ++r) if (s.att[r][i] && r != s.owner[i]) m[r][s.loc[r][i]] = src[s.owner[i]][s.loc[s.owner[i]][i]]; }
    else if (op == 1) { c->addOwnerCopyToAll(v, v); for (int i = 0; i < s.N; ++i) for (int r = 0; r < np; ++r) if (s.att[r][i]) for (int q = 0; q < np; ++q) if (q != r && (s.att[q][i] == OWNER || s.att[q][i] == COPY)) for (int k = 0; k < 2; ++k) m[r][s.loc[r][i]][k] += src[q][s.loc[q][i]][k]; }
    else { double res; c->dot(v, v, res); double ex = 0; for (int r = 0; r < np; ++r) { std::vector<char> own(s.nloc[r], 1); for (int i = 0; i < s.N; ++i) if (s.att[r][i] && s.att[r][i] != OWNER) own[s.loc[r][i]] = 0; for (int j = 0; j < s.nloc[r]; ++j) if (own[j]) for (double d : m[r][j]) ex += d * d; }
      WL_CHECK(res == ex || ex > 1e15, "dot-wrong", "interleaved dot product is %.17g, expected %.17g", res, ex); }
    compare(v, m, me, "interleaved exchange", first ? "first" : "second", st);
    double mx = 0; for (auto& r : m) for (auto& e : r) for (double d : e) mx = std::max(mx, std::abs(d));
    if (mx > 1e12) { m = randomModel(s, g, 2, false); fill(v, m, me); }
  }
}

// C02
template <class F> F conjx(F f) { return f; }
template <class R> std::complex<R> conjx(std::complex<R> f) { return std::conj(f); }
template <class B, class F> void dots(Dune::SolverCategory::Category cat) {
  typedef Dune::BlockVector<B> V; constexpr int nc = Comp<B>::n; constexpr bool cplx = !std::is_same<F, double>::value;
  int me = sim_rank(), np = sim_size(); Rng g = dataRng(3);
  Scenario s = makeScenario(np, g, P("indices", 1, 16), P("sharing", 0, 2), P("extras", 0, 1));
  auto comm = buildComm<int>(s, g, P("build", 0, 2), MPI_COMM_WORLD, cat);
  auto sp = Dune::createScalarProduct<V>(*comm, cat); // non-owning reference
  WL_CHECK(sp->category() == cat, "scalar-product-category", "the scalar product reports category %d, requested %d", (int)sp->category(), (int)cat);
  int nsteps = P("steps", 1, 5); bool viaComm = P("viacomm", 0, 1); bool poison = P("poison", 0, 1);
  for (int st = 0; st < nsteps; ++st) {
    if (st && P("refill", 0, 2) == 0 && g.below(3) == 0) { s = changedScenario(s, g, 16, P("sharing", 0, 2), P("extras", 0, 1)); refillComm(*comm, s, g); sim_probe("index-set-changed"); }
    Model x = randomModel(s, g, nc, false), y = randomModel(s, g, nc, false);
    // vectors are consistent on the owner partition only: whatever the others hold must not matter
    std::vector<std::vector<char>> own(np);
    for (int r = 0; r < np; ++r) { own[r].assign(s.nloc[r], 1); for (int i = 0; i < s.N; ++i) if (s.att[r][i] && s.att[r][i] != OWNER) { own[r][s.loc[r][i]] = 0; if (poison) for (double& d : x[r][s.loc[r][i]]) d = 1e9; } }
    V vx, vy; fill(vx, x, me); fill(vy, y, me);
    F ex{0}; double n2 = 0;
    for (int r = 0; r < np; ++r) for (int j = 0; j < s.nloc[r]; ++j) if (own[r][j]) {
      for (double d : x[r][j]) n2 += d * d;
      if constexpr (cplx) for (int c = 0; c < nc; c += 2) ex += std::conj(F(x[r][j][c], x[r][j][c + 1])) * F(y[r][j][c], y[r][j][c + 1]);
      else for (int c = 0; c < nc; ++c) ex += x[r][j][c] * y[r][j][c]; }
    F res{}; if (viaComm) comm->dot(vx, vy, res); else res = sp->dot(vx, vy);
    double nrm = viaComm ? comm->norm(vx) : sp->norm(vx);
    sim_hash(&res, sizeof res); hash(nrm);
    WL_CHECK(res == ex, "dot-wrong", "step %d: the parallel dot product differs from the sum over owned entries: got (%.17g,%.17g), expected (%.17g,%.17g)", st, std::real(res), std::imag(res), std::real(ex), std::imag(ex));
    WL_CHECK(nrm == std::sqrt(n2), "norm-wrong", "step %d: the parallel norm is %.17g, the square root of the sum over owned entries is %.17g", st, nrm, std::sqrt(n2));
    // real-valued data: every rank must see bitwise the same number
    V u(vx); for (size_t j = 0; j < u.size(); ++j) for (int c = 0; c < nc; ++c) Comp<B>::c(u[j], c) *= 1.0 / 3.0;
    F r2 = sp->dot(u, vy); double nn = sp->norm(u); char k[32]; snprintf(k, sizeof k, "dot%d", st); put(k, r2); snprintf(k, sizeof k, "norm%d", st); put(k, nn);
  }
}
static void runDots() {
  auto cat = P("cat", 0, 1) ? Dune::SolverCategory::nonoverlapping : Dune::SolverCategory::overlapping;
  switch (P("type", 0, 3)) {
    case 0: dots<Dune::FieldVector<double, 1>, double>(cat); break;
    case 1: dots<Dune::FieldVector<double, 3>, double>(cat); break;
    case 2: dots<double, double>(cat); break;
    case 3: dots<Dune::FieldVector<std::complex<double>, 2>, std::complex<double>>(cat); break;
  }
}
static void checkDots() {
  int n = (int)sim_param("steps", 1, 5);
  for (int st = 0; st < n; ++st) for (const char* what : {"dot", "norm"}) {
    char k[32]; snprintf(k, sizeof k, "%s%d", what, st); size_t n0; const void* p0 = sim_get(k, 0, &n0);
    for (int r = 1; r < sim_size(); ++r) { size_t n1; const void* p1 = sim_get(k, r, &n1); WL_CHECK(p0 && p1 && n0 == n1 && !memcmp(p0, p1, n0), "rank-disagreement", "rank %d and rank 0 received different values for the same parallel %s (step %d)", r, what, st); }
  }
}
WL_TABLE({"exchange", SIM_RANKS, 1, 5, nullptr, runExchange, nullptr, 1},
         {"interleaved", SIM_RANKS, 2, 5, nullptr, runInterleaved, nullptr, 1},
         {"dots", SIM_RANKS, 1, 5, nullptr, runDots, checkDots, 1})
