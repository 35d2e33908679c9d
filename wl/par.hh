// Random distributed index sets, shared by the parallel workloads.
#ifndef WL_PAR_HH
#define WL_PAR_HH
#include "wl.hh"
#include <dune/common/parallel/mpihelper.hh>
#include <dune/common/parallel/mpicommunication.hh>
#include <dune/istl/owneroverlapcopy.hh>
#include <dune/istl/bvector.hh>

namespace wl {
typedef Dune::OwnerOverlapCopyAttributeSet Att;
enum { NONE = 0, OWNER = 1, OVERLAP = 2, COPY = 3 };

// degenerate vectors: dense, zero on some ranks, sparse, zero, constant
struct Shape {
  int kind; unsigned ranks; Rng g;
  explicit Shape(Rng& r) : kind((int)r.below(10)), ranks((unsigned)r.below(256)), g(r.next()) {}
  double operator()(int r, double v) { switch (kind) { case 5: case 6: return ranks >> (r & 7) & 1 ? v : 0; case 7: return g.below(6) ? 0 : v; case 8: return 0; case 9: return 3; default: return v; } }
};

// a complete description of a distributed index set; every rank generates the same one
struct Scenario {
  int P = 1, N = 0;
  std::vector<long> gid;                    // global id of index i
  std::vector<int> owner;                   // owner rank of i
  std::vector<std::vector<int>> att, loc;   // [rank][i] attribute / local index (-1)
  std::vector<int> nloc;                    // local vector length per rank
  std::vector<std::vector<int>> extra;      // local entries that are not in the index set
  bool shared(int i) const { return holders(i).size() > 1; }
  std::vector<int> holders(int i) const { std::vector<int> h; for (int r = 0; r < P; ++r) if (att[r][i]) h.push_back(r); return h; }
};

inline Scenario makeScenario(int P_, Rng& g, int nmax, int shareKind, bool extras) {
  Scenario s; s.P = P_; s.N = nmax;
  std::set<long> ids; int idKind = (int)g.below(3);
  while ((int)ids.size() < s.N) ids.insert(idKind == 0 ? (long)ids.size() : idKind == 1 ? (long)ids.size() * 7 + 3 : g.range(0, 100000));
  s.gid.assign(ids.begin(), ids.end()); g.shuffle(s.gid);
  s.owner.resize(s.N); s.att.assign(P_, std::vector<int>(s.N, 0)); s.loc.assign(P_, std::vector<int>(s.N, -1)); s.nloc.assign(P_, 0); s.extra.resize(P_);
  int ownKind = (int)g.below(4); int lonely = (int)g.below(P_ + 2); // rank `lonely` may share nothing
  for (int i = 0; i < s.N; ++i) {
    int o = ownKind == 0 ? (int)g.below(P_) : ownKind == 1 ? (int)((long)i * P_ / std::max(1, s.N)) : ownKind == 2 ? i % P_ : (int)(g.below(2) ? 0 : g.below(P_));
    s.owner[i] = o; s.att[o][i] = OWNER;
    if (o == lonely && g.below(2)) continue;
    int dens = shareKind == 0 ? 150 : shareKind == 1 ? 400 : 800;
    for (int r = 0; r < P_; ++r) if (r != o && r != lonely && g.chance(dens)) s.att[r][i] = g.below(2) ? OVERLAP : COPY;
  }
  for (int r = 0; r < P_; ++r) {
    std::vector<int> mine; for (int i = 0; i < s.N; ++i) if (s.att[r][i]) mine.push_back(i);
    int ex = extras ? (int)g.below(4) : 0; int n = (int)mine.size() + ex; s.nloc[r] = n;
    std::vector<int> perm(n); std::iota(perm.begin(), perm.end(), 0); if (g.below(3)) g.shuffle(perm);
    for (size_t k = 0; k < mine.size(); ++k) s.loc[r][mine[k]] = perm[k];
    for (int k = (int)mine.size(); k < n; ++k) s.extra[r].push_back(perm[k]);
  }
  return s;
}

// indices only one process knows need not be public
struct Publicity { int mode; Rng g; Publicity(Rng& r, int me) : mode((int)r.below(3)), g(0) { g = Rng(r.next() + me); } bool operator()(bool shared) { bool b = mode == 2 ? false : mode == 1 ? g.below(2) : true; return shared || b; } };

template <class G, class L = int>
std::unique_ptr<Dune::OwnerOverlapCopyCommunication<G, L>> buildComm(const Scenario& s, Rng& g, int kind, MPI_Comm mc, Dune::SolverCategory::Category cat = Dune::SolverCategory::overlapping) {
  typedef Dune::OwnerOverlapCopyCommunication<G, L> C;
  int me; MPI_Comm_rank(mc, &me);
  std::vector<int> mine; for (int i = 0; i < s.N; ++i) if (s.att[me][i]) mine.push_back(i);
  Rng gl(g.next() + me); gl.shuffle(mine);
  if (kind == 0) {
    Dune::IndexInfoFromGrid<G, L> info;
    for (int i : mine) {
      info.addLocalIndex(std::tuple<G, L, int>((G)s.gid[i], (L)s.loc[me][i], s.att[me][i]));
      for (int r = 0; r < s.P; ++r) if (r != me && s.att[r][i]) info.addRemoteIndex(std::tuple<int, G, int>(r, (G)s.gid[i], s.att[r][i]));
    }
    return std::make_unique<C>(info, mc, cat);
  }
  auto c = std::make_unique<C>(mc, cat);
  typedef typename C::ParallelIndexSet::LocalIndex LI;
  c->indexSet().beginResize(); Publicity pub(g, me);
  for (int i : mine) c->indexSet().add((G)s.gid[i], LI((L)s.loc[me][i], (Att::AttributeSet)s.att[me][i], pub(s.shared(i))));
  c->indexSet().endResize();
  if (kind == 2) { // neighbour hints: usable only if no rank is without neighbours (an empty hint means "no hint")
    std::vector<std::set<int>> nb(s.P); bool ok = true;
    for (int i = 0; i < s.N; ++i) for (int q = 0; q < s.P; ++q) for (int r = 0; r < s.P; ++r) if (r != q && s.att[r][i] && s.att[q][i]) nb[q].insert(r);
    for (auto& n : nb) if (n.empty()) ok = false;
    if (ok) { c->remoteIndices().setNeighbours(nb[me]); sim_probe("neighbour-hints"); }
  }
  c->remoteIndices().template rebuild<false>();
  return c;
}
// the index set of an existing communication object becomes the one of t (collective)
template <class G, class L>
void refillComm(Dune::OwnerOverlapCopyCommunication<G, L>& c, const Scenario& t, Rng& g) {
  typedef typename Dune::OwnerOverlapCopyCommunication<G, L>::ParallelIndexSet::LocalIndex LI;
  int me = c.communicator().rank();
  std::map<G, int> want; for (int i = 0; i < t.N; ++i) if (t.att[me][i]) want[(G)t.gid[i]] = i;
  bool everything = g.below(2); std::set<G> kept;
  c.indexSet().beginResize();
  for (auto it = c.indexSet().begin(); it != c.indexSet().end(); ++it) {
    auto w = want.find(it->global());
    if (!everything && w != want.end() && (int)it->local().local() == t.loc[me][w->second] && (int)it->local().attribute() == t.att[me][w->second] && (it->local().isPublic() || !t.shared(w->second))) kept.insert(it->global());
    else c.indexSet().markAsDeleted(it);
  }
  std::vector<int> mine; for (auto& w : want) if (!kept.count(w.first)) mine.push_back(w.second);
  Rng gl(g.next() + me); gl.shuffle(mine); Publicity pub(g, me);
  for (int i : mine) c.indexSet().add((G)t.gid[i], LI((L)t.loc[me][i], (Att::AttributeSet)t.att[me][i], pub(t.shared(i))));
  c.indexSet().endResize();
  c.remoteIndices().setNeighbours(std::set<int>());
  c.remoteIndices().template rebuild<false>();
}
// a second index set for the same ranks: unrelated, or the same indices distributed and attributed anew
inline Scenario changedScenario(const Scenario& s, Rng& g, int nmax, int shareKind, bool extras) {
  Scenario t = makeScenario(s.P, g, g.below(2) ? s.N : 1 + (int)g.below(nmax), shareKind, extras);
  if (g.below(3) == 0) return t;
  if (t.N == s.N && g.below(3)) t.gid = s.gid;
  if (g.below(2)) { // same local indices, other owners and attributes: nothing but the attributes tells the two apart
    t = s; for (int i = 0; i < t.N; ++i) { auto h = t.holders(i); int o = h[g.below(h.size())]; t.owner[i] = o; for (int r : h) t.att[r][i] = r == o ? OWNER : g.below(2) ? OVERLAP : COPY; }
  }
  return t;
}
}
#endif
#ifndef WL_PROBLEM_HH
#define WL_PROBLEM_HH
#include <dune/common/fmatrix.hh>
#include <dune/common/fvector.hh>
#include <dune/istl/bcrsmatrix.hh>
namespace wl {
// A global sparse matrix (integer valued, symmetric, weakly diagonally dominant M-matrix unless stated) and a
// decomposition: every row has one owner; a rank also stores a halo of neighbouring rows.
struct Problem {
  int N = 0, P = 1; double unit = 1; /* of all matrix entries */ std::vector<std::map<int, double>> A; std::vector<int> part;
  Scenario s;                                     // index sets; att: OWNER / COPY (Dirichlet halo row) / OVERLAP (complete halo row)
  std::vector<std::vector<char>> inSet;           // is the index part of the parallel index set
};

inline void makeMatrix(Problem& p, Rng& g, int kind, int n) {
  int N = 0; std::vector<std::pair<int, int>> e;
  if (kind == 0) { N = n; for (int i = 0; i + 1 < N; ++i) e.push_back({i, i + 1}); }
  else if (kind == 1) { int nx = std::max(1, (int)std::sqrt((double)n)), ny = std::max(1, n / nx); N = nx * ny; for (int y = 0; y < ny; ++y) for (int x = 0; x < nx; ++x) { if (x + 1 < nx) e.push_back({y * nx + x, y * nx + x + 1}); if (y + 1 < ny) e.push_back({y * nx + x, (y + 1) * nx + x}); } }
  else { N = n; for (int i = 1; i < N; ++i) e.push_back({(int)g.below(i), i}); for (int k = 0; k < N; ++k) { int a = (int)g.below(N), b = (int)g.below(N); if (a != b) e.push_back({a, b}); } }
  p.N = N; p.A.assign(N, {});
  int wk = (int)g.below(3);
  for (auto& x : e) { double w = wk == 0 ? 1 : wk == 1 ? (double)g.range(1, 8) : (g.below(3) ? 1 : 64); p.A[x.first][x.second] = p.A[x.second][x.first] = -w; }
  for (int i = 0; i < N; ++i) { double d = 0; for (auto& c : p.A[i]) if (c.first != i) d -= c.second; p.A[i][i] = d + (i % 3 == 0 ? (double)g.range(1, 3) : 0); if (p.A[i][i] <= 0) p.A[i][i] = 1; }
  p.A[0][0] += 1;
}
inline void makePartition(Problem& p, Rng& g, int P_, int kind) {
  p.P = P_; p.part.resize(p.N);
  for (int i = 0; i < p.N; ++i) p.part[i] = kind == 0 ? (int)((long)i * P_ / p.N) : kind == 1 ? (int)g.below(P_) : kind == 2 ? i % P_ : 0;
  if (kind == 3) { // grown regions, possibly empty ranks
    std::fill(p.part.begin(), p.part.end(), -1); std::vector<int> front; for (int r = 0; r < P_; ++r) { int v = (int)g.below(p.N); if (p.part[v] < 0) { p.part[v] = r; front.push_back(v); } }
    while (!front.empty()) { size_t k = g.below((long)front.size()); int v = front[k]; std::vector<int> nb; for (auto& c : p.A[v]) if (p.part[c.first] < 0) nb.push_back(c.first); if (nb.empty()) { front.erase(front.begin() + k); continue; } int w = nb[g.below((long)nb.size())]; p.part[w] = p.part[v]; front.push_back(w); }
    for (int& x : p.part) if (x < 0) x = 0;
  }
}
// halo: number of extra layers (>=1). Rows in the outermost layer get COPY with identity rows, inner halo rows OVERLAP
inline void makeHalo(Problem& p, Rng& g, int layers, int order, bool sparseSet) {
  Scenario& s = p.s; s.P = p.P; s.N = p.N; int idKind = (int)g.below(3);
  std::vector<long> ids; for (int i = 0; i < p.N; ++i) ids.push_back(idKind == 0 ? i : idKind == 1 ? 5L * i + 2 : 100000L - 3L * i); s.gid = ids; s.owner = p.part;
  s.att.assign(p.P, std::vector<int>(p.N, 0)); s.loc.assign(p.P, std::vector<int>(p.N, -1)); s.nloc.assign(p.P, 0); s.extra.assign(p.P, {}); p.inSet.assign(p.P, std::vector<char>(p.N, 1));
  for (int r = 0; r < p.P; ++r) {
    std::vector<int> lay(p.N, -1); std::vector<int> cur; for (int i = 0; i < p.N; ++i) if (p.part[i] == r) { lay[i] = 0; cur.push_back(i); }
    for (int l = 1; l <= layers; ++l) { std::vector<int> nx; for (int i : cur) for (auto& c : p.A[i]) if (lay[c.first] < 0) { lay[c.first] = l; nx.push_back(c.first); } cur = nx; }
    for (int i = 0; i < p.N; ++i) if (lay[i] >= 0) s.att[r][i] = lay[i] == 0 ? OWNER : lay[i] == layers ? COPY : OVERLAP;
    std::vector<int> mine; for (int i = 0; i < p.N; ++i) if (s.att[r][i] && (order == 1 || s.att[r][i] == OWNER)) mine.push_back(i);
    if (order != 1) for (int i = 0; i < p.N; ++i) if (s.att[r][i] && s.att[r][i] != OWNER) mine.push_back(i);
    if (order == 2) g.shuffle(mine);
    for (size_t k = 0; k < mine.size(); ++k) s.loc[r][mine[k]] = (int)k; s.nloc[r] = (int)mine.size();
  }
  if (sparseSet) for (int r = 0; r < p.P; ++r) for (int i = 0; i < p.N; ++i) if (s.att[r][i] == OWNER) { bool shared = false; for (int q = 0; q < p.P; ++q) if (q != r && s.att[q][i]) shared = true; if (!shared) p.inSet[r][i] = 0; }
}
template <class M> void setBlock(M& b, double v, bool diag) { if constexpr (std::is_arithmetic_v<M>) b = v; else { b = 0; for (int k = 0; k < (int)M::rows; ++k) b[k][k] = v; (void)diag; } }
// block coupling inside a block: symmetric, keeps dominance
template <class M> void fillBlock(M& b, int i, int j, double v) {
  setBlock(b, v, i == j);
  if constexpr (!std::is_arithmetic_v<M>) if (i == j) for (int k = 0; k < (int)M::rows; ++k) { b[k][k] += 1; if (k + 1 < (int)M::rows) { b[k][k + 1] = b[k + 1][k] = -0.5; } }
}
template <class B> std::shared_ptr<Dune::BCRSMatrix<B>> localMatrix(const Problem& p, int r) {
  typedef Dune::BCRSMatrix<B> Mat; int n = p.s.nloc[r];
  std::vector<int> inv(n, -1); for (int i = 0; i < p.N; ++i) if (p.s.loc[r][i] >= 0) inv[p.s.loc[r][i]] = i;
  auto A = std::make_shared<Mat>(n, n, Mat::row_wise);
  for (auto row = A->createbegin(); row != A->createend(); ++row) { int i = inv[row.index()]; if (p.s.att[r][i] == COPY) row.insert(row.index()); else for (auto& c : p.A[i]) row.insert(p.s.loc[r][c.first]); }
  for (auto row = A->begin(); row != A->end(); ++row) { int i = inv[row.index()]; for (auto c = row->begin(); c != row->end(); ++c) { if (p.s.att[r][i] == COPY) setBlock(*c, 1.0, true); else fillBlock(*c, i, inv[c.index()], p.A[i].at(inv[c.index()])); } }
  return A;
}
template <class C> std::unique_ptr<C> problemComm(const Problem& p, MPI_Comm mc, Dune::SolverCategory::Category cat = Dune::SolverCategory::overlapping) {
  int me; MPI_Comm_rank(mc, &me); auto c = std::make_unique<C>(mc, cat); typedef typename C::ParallelIndexSet::LocalIndex LI; const Scenario& s = p.s;
  c->indexSet().beginResize();
  for (int i = 0; i < p.N; ++i) if (s.att[me][i] && p.inSet[me][i]) { bool shared = false; for (int q = 0; q < p.P; ++q) if (q != me && s.att[q][i]) shared = true; c->indexSet().add(s.gid[i], LI(s.loc[me][i], (Att::AttributeSet)s.att[me][i], shared)); }
  c->indexSet().endResize(); c->remoteIndices().template rebuild<false>();
  return c;
}
inline Problem makeProblem(Rng& g, int np, int nmin, int nmax, int layersMax = 1, int sparseMax = 1, int orderMax = 2) {
  Problem p; makeMatrix(p, g, P("matrix", 0, 2), P("n", nmin, nmax)); makePartition(p, g, np, P("partition", 0, 3)); makeHalo(p, g, P("halo", 1, layersMax), P("order", 0, orderMax), P("sparseset", 0, sparseMax)); return p;
}
// global reference y = A x with b x b blocks as in fillBlock
template <class B> std::vector<double> globalApply(const Problem& p, const std::vector<double>& x) {
  int b = 1; if constexpr (!std::is_arithmetic_v<B>) b = (int)B::rows;
  std::vector<double> y(x.size(), 0.0);
  for (int i = 0; i < p.N; ++i) for (auto& c : p.A[i]) { B blk; fillBlock(blk, i, c.first, c.second); for (int r = 0; r < b; ++r) for (int k = 0; k < b; ++k) { double v; if constexpr (std::is_arithmetic_v<B>) v = blk; else v = blk[r][k]; y[i * b + r] += v * x[c.first * b + k]; } }
  if (p.unit != 1) for (double& v : y) v *= p.unit;
  return y;
}
template <class V> double& comp(V& v, int j, int c) { if constexpr (std::is_arithmetic_v<typename V::block_type>) { (void)c; return v[j]; } else return v[j][c]; }
}
#endif
