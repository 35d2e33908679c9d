// C10 stored matrices and vectors come back; C11 file faults are reported
#include "hier.hh"
#include <dune/istl/io.hh>
#include <dune/istl/matrixmarket.hh>
#include <fstream>
#include <sstream>
using namespace wl;
namespace {
struct NullBuf : std::streambuf { int overflow(int c) override { return c; } };
// a value with many digits; `ints`: small integers
template <class T> void val(T& v, Rng& g, int kind) {
  if constexpr (std::is_floating_point_v<T>) { double m = kind == 0 ? (double)g.range(-9, 9) : kind == 1 ? g.sym() : g.sym() * std::pow(10.0, (double)g.range(-30, 30)); v = (T)m; if (g.below(20) == 0) v = 0; }
  else if constexpr (Dune::IsNumber<T>::value) { typename T::value_type a, b; val(a, g, kind); val(b, g, kind); v = T(a, b); }
  else for (auto& e : v) val(e, g, kind);
}
template <class T> void flat(const T& v, std::vector<double>& out) {
  if constexpr (std::is_floating_point_v<T>) out.push_back((double)v);
  else if constexpr (Dune::IsNumber<T>::value) { out.push_back((double)v.real()); out.push_back((double)v.imag()); }
  else for (auto& e : v) flat(e, out);
}
template <class B> struct Traits { static constexpr int r = 1, c = 1; typedef B scalar; };
template <class T, int n, int m> struct Traits<Dune::FieldMatrix<T, n, m>> { static constexpr int r = n, c = m; typedef T scalar; };
template <class M> M randomMatrix(Rng& g, int n, int m, int kind) {
  std::vector<std::set<int>> pat(n); int dens = (int)g.below(4); for (int i = 0; i < n && m > 0; ++i) { int k = dens == 0 ? 0 : (int)g.below(dens == 1 ? 2 : 6); while (k-- > 0) pat[i].insert((int)g.below(m)); if (i < m && dens) pat[i].insert(i); }
  M A; A.setBuildMode(M::row_wise); A.setSize(n, m); for (auto r = A.createbegin(); r != A.createend(); ++r) for (int j : pat[r.index()]) r.insert(j);
  for (auto r = A.begin(); r != A.end(); ++r) for (auto c = r->begin(); c != r->end(); ++c) val(*c, g, kind);
  return A;
}
// relative accuracy of what was written with `prec` digits after the point
double tol(int prec, bool single) { if (single && prec >= 9) return 0; if (prec >= 17) return 0; return std::pow(10.0, -(prec > 0 ? prec : 6)) * 0.51 + (single ? 1e-7 : 1e-15); }
bool close(double a, double b, double t) { return t == 0 ? a == b : std::abs(a - b) <= t * std::abs(a); }
template <class M> std::string differ(const M& A, const M& B, double t, long allowLast = 0) {
  char b[200]; if (A.N() != B.N() || A.M() != B.M()) { snprintf(b, sizeof b, "%zu x %zu instead of %zu x %zu", B.N(), B.M(), A.N(), A.M()); return b; }
  struct E { size_t i, j; std::vector<double> v; }; auto all = [](const M& X) { std::vector<E> e; for (auto r = X.begin(); r != X.end(); ++r) for (auto c = r->begin(); c != r->end(); ++c) { E x; x.i = r.index(); x.j = c.index(); flat(*c, x.v); e.push_back(x); } return e; };
  auto x = all(A), y = all(B); if (x.size() != y.size() || (A.nonzeroes() != B.nonzeroes())) { snprintf(b, sizeof b, "%zu entries (%zu reported) instead of %zu", y.size(), (size_t)B.nonzeroes(), x.size()); return b; }
  for (size_t k = 0; k < x.size(); ++k) { if (x[k].i != y[k].i || x[k].j != y[k].j) { snprintf(b, sizeof b, "entry (%zu,%zu) instead of (%zu,%zu)", y[k].i, y[k].j, x[k].i, x[k].j); return b; }
    for (size_t q = 0; q < x[k].v.size(); ++q) if (!close(x[k].v[q], y[k].v[q], t) && !(allowLast && k + 1 == x.size() && q + allowLast >= x[k].v.size())) { snprintf(b, sizeof b, "entry (%zu,%zu)[%zu] is %.17g instead of %.17g", x[k].i, x[k].j, q, y[k].v[q], x[k].v[q]); return b; } }
  return "";
}
template <class V> std::string differV(const V& A, const V& B, double t, long allowLast = 0) {
  char b[200]; std::vector<double> x, y; flat(A, x); flat(B, y); if (A.N() != B.N() || x.size() != y.size()) { snprintf(b, sizeof b, "%zu entries instead of %zu", B.N(), A.N()); return b; }
  for (size_t k = 0; k < x.size(); ++k) if (!close(x[k], y[k], t) && !(k + allowLast >= x.size())) { snprintf(b, sizeof b, "component %zu is %.17g instead of %.17g", k, y[k], x[k]); return b; }
  return "";
}
std::string fileName(int rank, int ext, const char* suffix) { return "/simfs/data_" + std::to_string(rank) + (suffix ? suffix : ext == 2 ? ".mtx" : ".mm"); }

template <class B, class BV, class G> void parallel() {
  typedef Dune::BCRSMatrix<B> M; typedef Dune::BlockVector<BV> V; typedef Dune::OwnerOverlapCopyCommunication<G> CC; typedef typename Traits<B>::scalar T; constexpr bool single = std::is_same_v<T, float> || std::is_same_v<T, std::complex<float>>;
  int me = sim_rank(), np = sim_size(); Rng g = dataRng(41); int n = P("n", 0, 24); Scenario s = makeScenario(np, g, n, P("share", 0, 2), false); auto comm = buildComm<G>(s, g, P("build", 0, 2), MPI_COMM_WORLD);
  Rng l(g.next() + me); int nl = s.nloc[me], ml = P("rect", 0, 3) == 0 ? (int)l.below(12) : nl; int prec = P("prec", 0, 3); prec = prec == 0 ? 17 : prec == 1 ? 20 : prec == 2 ? -1 : 9; int kind = P("values", 0, 2); double t = tol(prec, single);
  M A = randomMatrix<M>(l, nl, ml, kind); V x(nl); for (auto& e : x) val(e, l, kind);
  int ext = P("ext", 0, 2), lext = P("loadext", 0, 1) ? ext : 0; auto name = [&](const char* b, int e) { return std::string("/simfs/") + b + (e == 1 ? ".mm" : e == 2 ? ".mtx" : ""); };
  const M A0(A); bool vecFirst = P("vectorcarries", 0, 3) == 3; int rounds = P("rounds", 1, 2); M A2; V x2; if (P("dirty", 0, 1)) { A2 = randomMatrix<M>(l, 3, 3, 0); x2.resize(5); }
  auto put1 = [&] { Dune::storeMatrixMarket(A, name("mat", ext), *comm, !vecFirst, prec); }; auto put2 = [&] { Dune::storeMatrixMarket(x, name(vecFirst ? "mat" : "vec", vecFirst ? (ext == 2 ? 1 : 2) : ext), *comm, vecFirst, prec); };
  for (int k = 0; k < rounds; ++k) {
    put1(); put2(); WL_CHECK(sim_fs_open() == 0 || np > 1, "file-left-open", "a file was left open after storing"); WL_CHECK(differ(A0, A, 0).empty(), "source-changed", "storing changed the matrix");
    CC c2(MPI_COMM_WORLD); if (vecFirst) { Dune::loadMatrixMarket(x2, name("mat", ext == 2 ? 1 : 2), c2, true); Dune::loadMatrixMarket(A2, name("mat", ext == 0 ? 1 : ext), c2, false); } else { Dune::loadMatrixMarket(A2, name("mat", lext), c2, true); Dune::loadMatrixMarket(x2, name("vec", lext), c2, false); }
    std::string d = differ(A, A2, t); WL_CHECK(d.empty(), "matrix-differs", "rank %d, pass %d: the loaded matrix differs: %s", me, k, d.c_str()); d = differV(x, x2, t); WL_CHECK(d.empty(), "vector-differs", "rank %d, pass %d: the loaded vector differs: %s", me, k, d.c_str());
    WL_CHECK(c2.indexSet().size() == comm->indexSet().size(), "indices-differ", "rank %d: %zu indices instead of %zu", me, (size_t)c2.indexSet().size(), (size_t)comm->indexSet().size());
    auto a = comm->indexSet().begin(); for (auto& b : c2.indexSet()) { WL_CHECK(a->global() == b.global() && a->local().local() == b.local().local() && a->local().attribute() == b.local().attribute() && a->local().isPublic() == b.local().isPublic(), "indices-differ", "rank %d: index %ld came back as %ld (local %zu, attribute %d)", me, (long)a->global(), (long)b.global(), (size_t)b.local().local(), (int)b.local().attribute()); ++a; }
    WL_CHECK(c2.remoteIndices().isSynced(), "not-synced", "the remote indices of the loaded communication object are not up to date"); typedef Dune::BlockVector<Dune::FieldVector<double, 2>> W; if (s.N) checkExchange<CC, W>(c2, nl, "the loaded distribution", 0);
    for (auto& e : x) val(e, l, kind); if (k == 0 && rounds == 2) sim_probe("stored-again");
  }
  if (nl == 0) sim_probe("empty-rank"); if (t == 0) sim_probe("exact");
}
void mm_parallel() {
  switch (P("type", 0, 7)) {
    case 0: parallel<double, double, long>(); break;
    case 1: parallel<Dune::FieldMatrix<double, 1, 1>, Dune::FieldVector<double, 1>, long>(); break;
    case 2: parallel<Dune::FieldMatrix<double, 2, 2>, Dune::FieldVector<double, 2>, int>(); break;
    case 3: parallel<Dune::FieldMatrix<double, 3, 2>, Dune::FieldVector<double, 3>, long>(); break;
    case 4: parallel<std::complex<double>, std::complex<double>, long>(); break;
    case 5: parallel<Dune::FieldMatrix<std::complex<double>, 2, 2>, Dune::FieldVector<std::complex<double>, 2>, int>(); break;
    case 6: parallel<Dune::FieldMatrix<float, 2, 3>, Dune::FieldVector<float, 2>, int>(); break;
    default: parallel<Dune::FieldMatrix<double, 1, 4>, Dune::FieldVector<double, 4>, long>(); break;
  }
}

// standard texts not written by the library: a description, its text, and what has to be read
std::string caseOf(std::string s, Rng& g) { if (g.below(3) == 0) for (auto& c : s) if (g.below(2)) c = (char)toupper(c); return s; }
std::string num(double v, Rng& g, bool integer) { char b[64]; if (integer) snprintf(b, sizeof b, "%ld", (long)v); else if (g.below(3) == 0) snprintf(b, sizeof b, "%.17e", v); else if (g.below(2) && v == (long)v) snprintf(b, sizeof b, "%ld", (long)v); else snprintf(b, sizeof b, "%.17g", v); return b; }
std::string sp(Rng& g) { return std::string(1 + g.below(3), ' '); }
template <class B> void text() {
  typedef Dune::BCRSMatrix<B> M; constexpr int br = Traits<B>::r, bc = Traits<B>::c; typedef typename Traits<B>::scalar T; constexpr bool cplx = !std::is_floating_point_v<T>;
  Rng g = dataRng(43); int structure = br == bc ? P("structure", 0, cplx ? 3 : 2) : 0; bool integer = !cplx && P("integer", 0, 2) == 0; int n = P("rows", 0, 9), m = structure ? n : P("cols", 0, 9); int R = n * br, Cc = m * bc; bool diag = P("fulldiagonal", 0, 1);
  typedef std::complex<double> Z; std::map<std::pair<int, int>, Z> e; int want = R && Cc ? (int)g.below(3 * R + 1) : 0; for (int k = 0; k < want; ++k) { int i = (int)g.below(R), j = (int)g.below(Cc); if (structure) { if (i < j) std::swap(i, j); if (structure == 2 && i == j) continue; } double a = integer ? (double)g.range(-99, 99) : g.sym() * 100, b = cplx && !(structure == 3 && i == j) ? g.sym() : 0; e[{i, j}] = Z(a, b); }
  if (diag && structure != 2) for (int i = 0; i < std::min(R, Cc); ++i) if (!e.count({i, i})) e[{i, i}] = Z(integer ? (double)g.range(1, 9) : g.unit() + 1, 0);
  std::vector<std::pair<std::pair<int, int>, Z>> list(e.begin(), e.end()); if (P("shuffle", 0, 1)) g.shuffle(list);
  std::string t; bool comments = P("comments", 0, 1), blanks = P("blanks", 0, 1), lead = P("leading", 0, 1), head = !cplx && !structure && P("header", 0, 5) == 5 ? false : true; const char* st[] = {"general", "symmetric", "skew-symmetric", "hermitian"};
  if (head) { t = "%%MatrixMarket matrix " + caseOf("coordinate", g) + sp(g) + caseOf(cplx ? "complex" : integer ? "integer" : "real", g) + sp(g) + caseOf(st[structure], g) + "\n"; if (comments) for (int k = (int)g.range(1, 3); k > 0; --k) t += g.below(4) ? "% a comment % 1 2 3\n" : "%\n"; }
  if (blanks && g.below(2)) t += "\n";
  t += (lead && g.below(2) ? sp(g) : "") + std::to_string(R) + sp(g) + std::to_string(Cc) + sp(g) + std::to_string(list.size()) + "\n";
  for (auto& x : list) { if (blanks && g.below(8) == 0) t += "\n"; if (lead) t += g.below(2) ? sp(g) : ""; t += std::to_string(x.first.first + 1) + sp(g) + std::to_string(x.first.second + 1) + sp(g) + num(x.second.real(), g, integer); if (cplx) t += sp(g) + num(x.second.imag(), g, false); if (g.below(6) == 0) t += ' '; t += '\n'; }
  if (!list.empty() && P("nonewline", 0, 3) == 3) { while (t.back() == '\n' || t.back() == ' ') t.pop_back(); sim_probe("no-final-newline"); }
  // expected
  std::map<std::pair<int, int>, Z> full(e); if (structure) for (auto& x : e) if (x.first.first != x.first.second) full[{x.first.second, x.first.first}] = structure == 2 ? -x.second : structure == 3 ? std::conj(x.second) : x.second;
  M A; if (P("dirty", 0, 1)) A = randomMatrix<M>(g, 2, 4, 0); if (P("viafile", 0, 1)) { sim_fs_set("/simfs/text.mm", t.data(), t.size()); Dune::loadMatrixMarket(A, std::string("/simfs/text") + (P("ext", 0, 1) ? ".mm" : "")); WL_CHECK(sim_fs_open() == 0, "file-left-open", "a file was left open after loading"); } else { std::istringstream is(t); Dune::readMatrixMarket(A, is); }
  WL_CHECK((int)A.N() == n && (int)A.M() == m, "size", "read a %zu x %zu matrix instead of %d x %d", A.N(), A.M(), n, m);
  std::set<std::pair<int, int>> blocks, have; for (auto& x : full) blocks.insert({x.first.first / br, x.first.second / bc});
  for (auto r = A.begin(); r != A.end(); ++r) for (auto c = r->begin(); c != r->end(); ++c) { int I = (int)r.index(), J = (int)c.index(); have.insert({I, J}); std::vector<double> v; flat(*c, v); size_t o = 0;
    for (int i = 0; i < br; ++i) for (int j = 0; j < bc; ++j) { auto f = full.find({I * br + i, J * bc + j}); Z w = f == full.end() ? Z(0) : f->second; double re = v[o++], im = cplx ? v[o++] : 0; WL_CHECK(re == w.real() && im == w.imag(), "value", "entry (%d,%d) is (%.17g,%.17g) instead of (%.17g,%.17g)", I * br + i, J * bc + j, re, im, w.real(), w.imag()); } }
  WL_CHECK(have == blocks && A.nonzeroes() == blocks.size(), "pattern", "%zu blocks (%zu reported) instead of %zu", have.size(), (size_t)A.nonzeroes(), blocks.size());
  if (structure && !diag) sim_probe("diagonal-not-stored"); if (br > 1) sim_probe("partial-blocks");
}
template <class BV> void textV() {
  typedef Dune::BlockVector<BV> V; Rng g = dataRng(44); int n = P("rows", 0, 9); V ref(n); for (auto& e : ref) val(e, g, P("values", 0, 2)); std::vector<double> f; flat(ref, f); constexpr bool cplx = !std::is_floating_point_v<typename Dune::FieldTraits<BV>::field_type>;
  std::string t; if (cplx || P("header", 0, 3)) t = "%%MatrixMarket matrix " + caseOf("array", g) + sp(g) + caseOf(cplx ? "complex" : "real", g) + sp(g) + caseOf("general", g) + "\n"; else if (P("comments", 0, 1)) t = ""; if (!t.empty() && P("comments", 0, 1)) t += "% comment\n%\n"; t += std::to_string(f.size() / (cplx ? 2 : 1)) + sp(g) + "1\n";
  for (size_t k = 0; k < f.size(); ++k) { t += num(f[k], g, false); if (cplx && k % 2 == 0) t += ' '; else t += '\n'; }
  V x(2); if (P("viafile", 0, 1)) { sim_fs_set("/simfs/text.mm", t.data(), t.size()); Dune::loadMatrixMarket(x, std::string("/simfs/text")); } else { std::istringstream is(t); Dune::readMatrixMarket(x, is); }
  std::string d = differV(ref, x, 0); WL_CHECK(d.empty(), "vector-differs", "the vector read from a standard text differs: %s", d.c_str());
}
void mm_text() {
  switch (P("type", 0, 7)) {
    case 0: text<double>(); break; case 1: text<Dune::FieldMatrix<double, 1, 1>>(); break; case 2: text<Dune::FieldMatrix<double, 2, 2>>(); break; case 3: text<Dune::FieldMatrix<double, 2, 3>>(); break;
    case 4: text<std::complex<double>>(); break; case 5: text<Dune::FieldMatrix<std::complex<double>, 2, 2>>(); break;
    case 6: textV<double>(); break; default: if (P("vtype", 0, 2) == 0) textV<Dune::FieldVector<double, 3>>(); else if (P("vtype", 0, 2) == 1) textV<std::complex<double>>(); else textV<Dune::FieldVector<std::complex<double>, 2>>(); break;
  }
}

// faults
std::string diskContent(const std::string& p, bool& there) { size_t n = 0; const char* d = sim_fs_get(p.c_str(), &n); there = d != nullptr; return d ? std::string(d, n) : ""; }
template <class B, class BV> void storeFaults() {
  typedef Dune::BCRSMatrix<B> M; typedef Dune::BlockVector<BV> V; int me = sim_rank(), np = sim_size(); Rng g = dataRng(45); Scenario s = makeScenario(np, g, P("n", 1, 40), 1, false); auto comm = buildComm<long>(s, g, 0, MPI_COMM_WORLD); Rng l(g.next() + me);
  M A = randomMatrix<M>(l, s.nloc[me], s.nloc[me], 2); V x(s.nloc[me]); for (auto& e : x) val(e, l, 2); int what = P("what", 0, 6); std::string base = "/simfs/f" + std::to_string(me); bool withRank = what <= 1;
  auto store = [&] { switch (what) { case 0: Dune::storeMatrixMarket(A, std::string("/simfs/f"), *comm, true, 17); break; case 1: Dune::storeMatrixMarket(x, std::string("/simfs/f"), *comm, false, 17); break; case 2: Dune::storeMatrixMarket(A, base, 17); break; case 3: Dune::storeMatrixMarket(x, base + ".mtx", 17); break; case 4: Dune::writeMatrixToMatlab(A, base + ".txt", 17); break; case 5: Dune::writeVectorToMatlab(x, base + ".txt", 17); break; default: { std::string f = base + ".txt"; std::ofstream o(f.c_str()); o.precision(17); Dune::writeMatrixMarket(A, o); o.close(); if (!o) DUNE_THROW(Dune::IOError, "user sees it"); } } };
  std::vector<std::string> files; if (withRank) { files.push_back("/simfs/f_" + std::to_string(me) + ".mm"); if (what == 0) files.push_back("/simfs/f_" + std::to_string(me) + ".idx"); } else files.push_back(what == 2 ? base + ".mm" : what == 3 ? base + ".mtx" : base + ".txt");
  store(); std::vector<std::string> good; for (auto& f : files) { bool th; good.push_back(diskContent(f, th)); WL_CHECK(th && (!good.back().empty() || what >= 4), "not-stored", "%s was not written", f.c_str()); }
  int attempts = P("attempts", 1, 4); size_t total = 0; for (auto& q : good) total += q.size();
  for (int k = 0; k < attempts; ++k) {
    if (l.below(2)) for (auto& f : files) sim_fs_remove(f.c_str()); int kinds[] = {0, 1, 2, 3, 5}; int kind = kinds[l.below(5)]; long at = kind == 3 ? l.range(0, (long)total + 10) : kind == 2 ? l.range(0, (long)total / 3 + 2) : l.range(0, (long)files.size() - 1); if (kind == 2 && l.below(2)) at = l.range(0, 3);
    sim_fs_arm(kind, at); bool thrown = false; try { store(); } catch (Dune::IOError&) { thrown = true; } int fired = sim_fs_fired(); sim_fs_arm(0, 0);
    if (!fired) WL_CHECK(!thrown, "invented-error", "storing without a fault threw an I/O error");
    if (!thrown) for (size_t q = 0; q < files.size(); ++q) { bool th; std::string c = diskContent(files[q], th); WL_CHECK(th && c == good[q], "lost-silently", "rank %d: %s holds %zu of %zu bytes, but storing it reported no error (fault kind %d at %ld)", me, files[q].c_str(), c.size(), good[q].size(), kind, at); }
    if (fired && thrown) sim_probe("error-reported");
  }
  WL_CHECK(np > 1 || sim_fs_open() == 0, "file-left-open", "%d files were left open", sim_fs_open());
  store(); for (size_t q = 0; q < files.size(); ++q) { bool th; WL_CHECK(diskContent(files[q], th) == good[q], "not-stored", "storing again after the fault did not write the right data"); }
}
void io_store_faults() { if (P("block", 0, 1)) storeFaults<Dune::FieldMatrix<double, 2, 2>, Dune::FieldVector<double, 2>>(); else storeFaults<double, double>(); }
template <class B, class BV> void loadFaults() {
  typedef Dune::BCRSMatrix<B> M; typedef Dune::BlockVector<BV> V; typedef Dune::OwnerOverlapCopyCommunication<long> CC; typedef typename Traits<B>::scalar T; constexpr long two = std::is_floating_point_v<T> ? 1 : 2; int me = sim_rank(), np = sim_size(); Rng g = dataRng(46); Scenario s = makeScenario(np, g, P("n", 1, 24), 1, false); auto comm = buildComm<long>(s, g, 0, MPI_COMM_WORLD); Rng l(g.next() + me);
  M A = randomMatrix<M>(l, s.nloc[me], s.nloc[me], 1); V x(s.nloc[me]); for (auto& e : x) val(e, l, 1); int what = P("what", 0, np == 1 ? 4 : 3); // 4: with indices
  std::string base = "/simfs/f" + std::to_string(me), mm = what == 0 || what == 1 ? base + ".mm" : "/simfs/f_" + std::to_string(me) + ".mm", idx = "/simfs/f_" + std::to_string(me) + ".idx"; bool vec = what == 1 || what == 3;
  if (what == 0) Dune::storeMatrixMarket(A, base, 17); else if (what == 1) Dune::storeMatrixMarket(x, base, 17); else if (what == 3) Dune::storeMatrixMarket(x, std::string("/simfs/f"), *comm, false, 17); else Dune::storeMatrixMarket(A, std::string("/simfs/f"), *comm, what == 4, 17);
  bool th; const std::string goodM = diskContent(mm, th), goodI = diskContent(idx, th); int attempts = P("attempts", 1, 6);
  for (int k = 0; k <= attempts; ++k) {
    bool onIdx = what == 4 && l.below(2); const std::string& good = onIdx ? goodI : goodM; std::string bad = good; int kind = k == attempts ? 0 : (int)l.range(1, 6); bool tail = false; long cut = 0; size_t headEnd = 0; if (!onIdx) { for (int q = 0; q < 3 && headEnd != std::string::npos; ++q) headEnd = good.find('\n', headEnd) + 1; }
    if (kind == 1) { cut = l.range(0, (long)good.size()); bad = good.substr(0, cut); tail = true; } // truncated
    else if (kind == 2) { long p = l.range(two == 2 ? (long)good.find('\n') : 0, (long)good.size() - 1); if (!onIdx && good.rfind('\n', p - (p > 0)) != std::string::npos && std::count(good.begin(), good.begin() + p, '\n') == 2) p = (long)good.size() - 1; /* the rest of the size line is ignored */ if (vec && p + 1 < (long)good.size() && good[p] == '\n' && good[p + 1] != '%' && good[good.rfind('\n', p - (p > 0)) + 1] == '%') p = (long)good.size() - 1; /* and a vector may take the first column of several */ bad[p] = "xX;?!"[l.below(5)]; size_t last = good.find_last_of('\n', good.size() - 2); tail = !onIdx && last != std::string::npos && p > (long)last; } // garbage
    else if (kind == 3) sim_fs_remove((onIdx ? idx : mm).c_str());
    else if (kind == 4) sim_fs_arm(1, onIdx ? 1 : 0); else if (kind == 5) sim_fs_arm(4, l.range(0, l.below(2) ? 2 : (long)(good.size() / 20))); 
    else if (kind == 6) { size_t p = l.below((long)good.size()); size_t b = good.find_last_of('\n', p), e = good.find('\n', p); b = b == std::string::npos ? 0 : b + 1; e = e == std::string::npos ? good.size() : e + 1; if (b < headEnd) continue; if (onIdx) continue; bad.erase(b, e - b); } // one data line is lost
    if (kind == 1 || kind == 2 || kind == 6) { sim_fs_set((onIdx ? idx : mm).c_str(), bad.data(), bad.size()); sim_fault_fired(kind == 1 ? "file-truncated" : kind == 2 ? "file-garbage" : "file-line-lost"); } if (kind == 3) sim_fault_fired("file-missing");
    M B0; V y; CC c2(MPI_COMM_WORLD); bool thrown = false; std::string why; sim_log("attempt %d kind %d what %d", k, kind, what);
    try { if (what == 0) Dune::loadMatrixMarket(B0, base); else if (what == 1) Dune::loadMatrixMarket(y, base); else if (what == 3) Dune::loadMatrixMarket(y, std::string("/simfs/f"), c2, false); else Dune::loadMatrixMarket(B0, std::string("/simfs/f"), c2, what == 4); } catch (Dune::Exception& e) { thrown = true; why = e.what(); }
    int fired = sim_fs_fired(); sim_fs_arm(0, 0); sim_log("thrown %d fired %d", thrown, fired); WL_CHECK(sim_fs_open() == 0 || np > 1, "file-left-open", "a file was left open by a %s load", thrown ? "failed" : "successful");
    if (kind == 0 || ((kind == 4 || kind == 5) && !fired)) WL_CHECK(!thrown, "invented-error", "loading an intact file failed: %s", why.c_str());
    if (thrown) sim_probe("load-error-reported");
    if (!thrown) { WL_CHECK(kind != 3 && !(kind == 4 && fired), "missing-ignored", "a file that could not be opened was loaded");
      std::string d = vec ? differV(x, y, 0, tail && !onIdx ? two : 0) : differ(A, B0, 0, tail && !onIdx ? two : 0); 
      WL_CHECK(d.empty(), "wrong-data-silently", "attempt %d (kind %d, %s, byte %ld of %zu): loading reported no error, but %s", k, kind, onIdx ? "indices" : "data", cut, good.size(), d.c_str());
      if (what == 4) { size_t have = 0; auto a = comm->indexSet().begin(); for (auto& b : c2.indexSet()) { WL_CHECK(a != comm->indexSet().end() && a->global() == b.global() && a->local().local() == b.local().local() && a->local().attribute() == b.local().attribute() && a->local().isPublic() == b.local().isPublic(), "wrong-indices-silently", "attempt %d (kind %d): index (%ld, %zu, %d) was loaded that was not stored", k, kind, (long)b.global(), (size_t)b.local().local(), (int)b.local().attribute()); ++a; ++have; }
        size_t lines = (size_t)std::count(bad.begin(), bad.end(), '\n'); // a file cut between two lines cannot be told from a complete one
        WL_CHECK(have == comm->indexSet().size() || (onIdx && kind == 1 && (have == lines || have == lines + 1)), "wrong-indices-silently", "attempt %d (kind %d): %zu of %zu indices were loaded without an error", k, kind, have, (size_t)comm->indexSet().size()); } }
    sim_fs_set(mm.c_str(), goodM.data(), goodM.size()); if (what == 4) sim_fs_set(idx.c_str(), goodI.data(), goodI.size());
  }
}
void io_load_faults() { switch (P("block", 0, 2)) { case 0: loadFaults<double, double>(); break; case 1: loadFaults<Dune::FieldMatrix<double, 2, 2>, Dune::FieldVector<double, 2>>(); break; default: loadFaults<std::complex<double>, std::complex<double>>(); } }
} // namespace
WL_TABLE({"mm_parallel", SIM_RANKS, 1, 6, nullptr, mm_parallel, nullptr, 1}, {"mm_text", SIM_RANKS, 1, 1, nullptr, mm_text, nullptr, 1}, {"io_store_faults", SIM_RANKS, 1, 4, nullptr, io_store_faults, nullptr, 1}, {"io_load_faults", SIM_RANKS, 1, 4, nullptr, io_load_faults, nullptr, 1})
