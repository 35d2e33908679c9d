// C16: histories of direct solvers: matrices of any kind (also singular ones) set, replaced and released, solves with fitting
// and other vectors, stored and loaded decompositions, failing allocations inside the wrapper and the wrapped library.
#include "wl.hh"
#include <complex>
#include <sstream>
#include <dune/common/fmatrix.hh>
#include <dune/common/fvector.hh>
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/bvector.hh>
#include <dune/istl/cholmod.hh>
#include <dune/istl/ldl.hh>
#include <dune/istl/matrixindexset.hh>
#include <dune/istl/spqr.hh>
#include <dune/istl/superlu.hh>
#include <dune/istl/umfpack.hh>
#include <iostream>
using namespace wl;
typedef std::size_t sz;
typedef std::complex<long double> LC;
static bool faulty = false; static bool singularMet = false; static long opNo = 0; static const char* opName = "";
enum Outcome { ok, failed };
static bool arming = true;
struct Quiet { std::streambuf* o; std::ostringstream s; Quiet() { o = std::cout.rdbuf(s.rdbuf()); } ~Quiet() { std::cout.rdbuf(o); } };
template <class F> static Outcome attempt(F&& f, std::string& why) {
  unsigned k = faulty && arming ? sim_decide("alloc", 60, 300) : 0;
  if (k) sim_alloc_arm(k > 45 ? k - 45 : k, k > 45 ? 1000000 : 1);
  struct Off { ~Off() { sim_alloc_arm(0, 0); } } off;
  try { f(); }
  catch (const std::bad_alloc&) { if (!sim_alloc_fired()) sim_violation("spurious-bad-alloc", "operation %ld (%s) threw bad_alloc although no allocation failed", opNo, opName); why = "bad_alloc"; return failed; }
  catch (const std::length_error&) { sim_violation("spurious-length-error", "operation %ld (%s) asked for an impossible amount of memory", opNo, opName); }
  catch (const Dune::Exception& e) { sim_alloc_arm(0, 0); why = e.what(); return failed; }
  return ok;
}
// a global scalar system
struct Dense { sz n = 0, m = 0; std::vector<LC> a; LC& operator()(sz i, sz j) { return a[i * m + j]; } const LC& operator()(sz i, sz j) const { return a[i * m + j]; } };
static bool solveDense(Dense A, std::vector<LC> b, std::vector<LC>& x) { // A square; false if (almost) singular
  sz n = A.n; for (sz k = 0; k < n; ++k) { sz p = k; for (sz i = k; i < n; ++i) if (std::abs(A(i, k)) > std::abs(A(p, k))) p = i; if (std::abs(A(p, k)) < 1e-9L) return false;
    if (p != k) { for (sz j = 0; j < n; ++j) std::swap(A(p, j), A(k, j)); std::swap(b[p], b[k]); }
    for (sz i = k + 1; i < n; ++i) { LC f = A(i, k) / A(k, k); for (sz j = k; j < n; ++j) A(i, j) -= f * A(k, j); b[i] -= f * b[k]; } }
  x.assign(n, 0); for (sz k = n; k-- > 0;) { LC s = b[k]; for (sz j = k + 1; j < n; ++j) s -= A(k, j) * x[j]; x[k] = s / A(k, k); } return true;
}
template <class T> struct Sc { static T make(int re, int) { return T(re); } }; template <class R> struct Sc<std::complex<R>> { static std::complex<R> make(int re, int im) { return {R(re), R(im)}; } };
template <class B> struct Bl { enum { R = 1, C = 1 }; typedef B T; static B& at(B& b, int, int) { return b; } }; template <class T_, int r, int c> struct Bl<Dune::FieldMatrix<T_, r, c>> { enum { R = r, C = c }; typedef T_ T; static T_& at(Dune::FieldMatrix<T_, r, c>& b, int i, int j) { return b[i][j]; } };
template <class B> static auto& el(B& b, int k) { if constexpr (Dune::IsNumber<B>::value) { (void)k; return b; } else return b[k]; }

struct Sys { bool good = false, spd = false, exact = false;   // exact: a zero row, which any elimination meets as an exact zero
  sz rows = 0, cols = 0; Dense a; const char* what = "?"; };
enum Kind { plain, symmetric, leastSquares, diagonal };   // diagonal: SuperLU crashes if there is no entry to choose as pivot
// a block matrix and its scalar equivalent; good: well conditioned and diagonally dominant (symmetric positive definite if asked for)
template <class M> static Sys makeMatrix(M& A, Rng& g, Kind kind) {
  typedef typename M::block_type B; typedef typename Bl<B>::T T; enum { R = Bl<B>::R, C = Bl<B>::C };
  Sys s; sz n = g.chance(80) ? 0 : g.range(1, 5), m = n; if (kind == leastSquares && n && g.chance(400)) n = m + g.range(1, 3);
  std::vector<std::set<sz>> pat(n); int dens = (int)g.range(0, 100); bool noDiag = kind == plain && g.chance(80);
  for (sz i = 0; i < n; ++i) { if (i < m && !noDiag) pat[i].insert(i); for (sz j = 0; j < m; ++j) if (g.below(100) < dens) { pat[i].insert(j); if (kind == symmetric) pat[j].insert(i); } }
  if (R != C && !noDiag) for (sz i = 0; i < std::min(n * R, m * C); ++i) pat[i / R].insert(i / C);
  Dune::MatrixIndexSet is(n, m); for (sz i = 0; i < n; ++i) for (sz j : pat[i]) is.add(i, j); A = M(); is.exportIdx(A);
  s.rows = n * R; s.cols = m * C; s.a.n = s.rows; s.a.m = s.cols; s.a.a.assign(s.rows * s.cols, 0);
  std::vector<std::pair<sz, sz>> es; for (sz i = 0; i < n; ++i) for (sz j : pat[i]) for (int p = 0; p < R; ++p) for (int q = 0; q < C; ++q) es.push_back({i * R + p, j * C + q});
  std::map<std::pair<sz, sz>, LC> v; for (auto& e : es) { LC z((int)g.range(-3, 3), g.chance(500) ? (int)g.range(-3, 3) : 0); if (!Dune::IsNumber<T>::value || std::is_floating_point<T>::value) z = z.real(); v[e] = z; }
  auto has = [&](sz i, sz j) { return v.count({i, j}) != 0; };
  if (kind == symmetric) for (auto& e : v) if (e.first.first < e.first.second) v[{e.first.second, e.first.first}] = e.second;
  int how = (int)g.below(10); s.good = how < 7 && !noDiag && n; s.spd = kind == symmetric && s.good;
  s.what = s.good ? "regular" : "arbitrary";
  if (s.good) for (sz i = 0; i < std::min(s.rows, s.cols); ++i) { long double t = 1; for (sz j = 0; j < std::max(s.rows, s.cols); ++j) if (j != i) { if (j < s.cols && has(i, j)) t += std::abs(v[{i, j}]); if (kind == leastSquares && j < s.rows && has(j, i)) t += std::abs(v[{j, i}]); }
    v[{i, i}] = std::ceil(t) * ((kind == plain || kind == diagonal) && g.chance(300) ? -1 : 1); }
  else if (how == 7 && n) { sz z = g.below(std::min(s.rows, s.cols)); for (auto& e : v) if (e.first.first == z || (kind == symmetric && e.first.second == z)) e.second = 0; s.what = "matrix with a zero row"; s.exact = true; }
  else if (how == 8 && n) { for (sz i = 0; i < std::min(s.rows, s.cols); ++i) if (has(i, i)) { v[{i, i}] = 0; LC t = 0; for (sz j = 0; j < s.cols; ++j) if (has(i, j)) t += v[{i, j}]; v[{i, i}] = -t; } s.what = "matrix with zero row sums"; }
  else if (how == 9 && n) { for (auto& e : v) e.second = 0; s.what = "zero matrix"; s.exact = true; }
  for (auto& e : v) { s.a(e.first.first, e.first.second) = e.second; Bl<B>::at(A[e.first.first / R][e.first.second / C], (int)(e.first.first % R), (int)(e.first.second % C)) = Sc<T>::make((int)e.second.real(), (int)e.second.imag()); }
  return s;
}
template <class M> static Sys subSystem(const Sys& s, const std::set<sz>& keep, int R) {
  Sys t; std::vector<sz> l; for (sz i : keep) for (int p = 0; p < R; ++p) l.push_back(i * R + p);
  t.rows = t.cols = l.size(); t.a.n = t.a.m = l.size(); t.good = s.good && t.rows; t.spd = s.spd && t.rows; t.what = "part of a matrix"; t.a.a.assign(l.size() * l.size(), 0);
  for (sz i = 0; i < l.size(); ++i) for (sz j = 0; j < l.size(); ++j) t.a(i, j) = s.a(l[i], l[j]); return t;
}

struct UMF { enum { files = 1, ignore = 1, sub = 1, frees = 1 }; static constexpr const char* name = "UMFPack"; static constexpr Kind kind = plain; static constexpr double tol = 1e-8; };
template <class B> struct Umf : UMF { typedef Dune::BCRSMatrix<B> M; typedef Dune::UMFPack<M> S; typedef typename S::domain_type X; typedef typename S::range_type Y;
  static std::unique_ptr<S> make(const M& A, Rng& g) { switch (g.below(3)) { case 0: return std::make_unique<S>(A); case 1: return std::make_unique<S>(A, 0, true); default: { Dune::ParameterTree p; return std::make_unique<S>(A, p); } } } };
template <class B> struct Ldl { enum { files = 0, ignore = 0, sub = 1, frees = 1 }; static constexpr const char* name = "LDL"; static constexpr Kind kind = symmetric; static constexpr double tol = 1e-8;
  typedef Dune::BCRSMatrix<B> M; typedef Dune::LDL<M> S; typedef typename S::domain_type X; typedef typename S::range_type Y;
  static std::unique_ptr<S> make(const M& A, Rng& g) { switch (g.below(3)) { case 0: return std::make_unique<S>(A); case 1: return std::make_unique<S>(A, 0, true); default: { Dune::ParameterTree p; return std::make_unique<S>(A, p); } } } };
template <class B> struct Spqr { enum { files = 0, ignore = 0, sub = 1, frees = 1 }; static constexpr const char* name = "SPQR"; static constexpr Kind kind = leastSquares; static constexpr double tol = 1e-8;
  typedef Dune::BCRSMatrix<B> M; typedef Dune::SPQR<M> S; typedef typename S::domain_type X; typedef typename S::range_type Y;
  static std::unique_ptr<S> make(const M& A, Rng& g) { switch (g.below(3)) { case 0: return std::make_unique<S>(A); case 1: return std::make_unique<S>(A, 0, true); default: { Dune::ParameterTree p; return std::make_unique<S>(A, p); } } } };
template <class B> struct Slu { enum { files = 0, ignore = 0, sub = 1, frees = 1 }; static constexpr const char* name = "SuperLU"; static constexpr Kind kind = diagonal;
  typedef Dune::BCRSMatrix<B> M; typedef Dune::SuperLU<M> S; typedef typename S::domain_type X; typedef typename S::range_type Y;
  static constexpr double tol = std::is_same<typename Dune::FieldTraits<B>::real_type, float>::value ? 1e-3 : 1e-8;
  static std::unique_ptr<S> make(const M& A, Rng& g) { switch (g.below(3)) { case 0: return std::make_unique<S>(A); case 1: return std::make_unique<S>(A, false, false); default: { Dune::ParameterTree p; p["reuseVector"] = g.chance(500) ? "true" : "false"; return std::make_unique<S>(A, p); } } } };
template <class B, class I> struct Chol { enum { files = 0, ignore = 1, sub = 0, frees = 0 }; static constexpr const char* name = "Cholmod"; static constexpr Kind kind = symmetric; static constexpr double tol = 1e-8;
  typedef Dune::BCRSMatrix<B> M; typedef std::conditional_t<Dune::IsNumber<B>::value, double, Dune::FieldVector<double, Bl<B>::R>> E; typedef Dune::BlockVector<E> X, Y; typedef Dune::Cholmod<X, I> S;
  static std::unique_ptr<S> make(const M& A, Rng&) { auto s = std::make_unique<S>(); s->setMatrix(A); return s; } };

template <class K> struct Hist {
  typedef typename K::M M; typedef typename K::S S; typedef typename K::X X; typedef typename K::Y Y; typedef typename M::block_type B; enum { R = Bl<B>::R, C = Bl<B>::C };
  enum State { none, set, bad, loaded };
  std::unique_ptr<S> s; State st = none; Sys sys; std::vector<bool> ign; sz full = 0;   // ign: scalar indices excluded (Cholmod keeps vectors at full length)
  bool stored = false; Sys fileSys;   // what the file must hold
  void use(Outcome o,  const Sys& y, const std::string& why) {
    if (!y.good) singularMet = true;
    sys = y; ign.clear(); full = 0; st = o == ok ? set : bad;
    if (o == failed && (y.good) && !sim_alloc_fired() && !nofault()) sim_violation("refused", "operation %ld (%s): %s refuses a %zu x %zu %s: %s", opNo, opName, K::name, y.rows, y.cols, y.what, why.c_str());
    if (o == failed) sim_probe(y.good ? "set-up failed" : "set-up refused");
  }
  bool maybe = false;
  static bool fsFault(Rng& g) { if (!faulty || !g.chance(400)) return false; int kinds[] = {1, 2, 3, 4, 5}; int k = kinds[g.below(5)]; sim_fs_arm(k, k == 3 ? g.below(3000) : k == 1 || k == 5 ? 0 : g.below(12)); return true; }
  bool nofault() { return lastFired; }
  bool lastFired = false;
  template <class F> Outcome go(F&& f, std::string& why) { lastFired = false; Outcome o = attempt([&] { struct L { Hist& h; ~L() { h.lastFired = sim_alloc_fired() || sim_fs_fired(); } } l{*this}; f(); }, why); return o; }
  void apply(Rng& g) {
    sz n = sys.rows, m = sys.cols; bool wrong = g.chance(80); sz nb = (full ? full : n) / R, mb = (full ? full : m) / C; if (st == none) { nb = mb = g.range(1, 4); }
    if (wrong) { if (g.chance(500) && nb) --nb; else ++nb; if (C == R && nb != mb && g.chance(500)) mb = nb; }
    X x(mb); Y b(nb); x = 7.0; for (sz i = 0; i < nb; ++i) for (int q = 0; q < R; ++q) el(b[i], q) = Sc<typename Bl<B>::T>::make((int)g.range(-9, 9), (int)g.range(-9, 9));
    Y b0 = b; Dune::InverseOperatorResult res; std::string why; bool red = g.chance(300); arming = !wrong || true; opName = "solve";
    // statistics left by another solver
    if (g.chance(300)) { res.converged = true; res.iterations = 77; }
    bool left = res.converged;
    Outcome o = go([&] { if (red) s->apply(x, b, 1e-3, res); else s->apply(x, b, res); }, why);
    if (o == failed) { if ((st == set || st == loaded) && sys.good && !wrong && !nofault()) sim_violation("refused", "operation %ld: solving with %s and a %zu x %zu %s failed: %s", opNo, K::name, n, m, sys.what, why.c_str()); sim_probe(wrong ? "wrong size refused" : "solve refused"); return; }
    if (!res.converged) { if ((st == set || st == loaded) && (sys.good || n == 0) && !wrong && !nofault()) sim_violation("not-solved", "operation %ld: %s did not solve a system with a %zu x %zu %s", opNo, K::name, n, m, sys.what); sim_probe("not converged"); return; }
    if (st != set && st != loaded && nb == 0 && mb == 0) return;
    if (n == 0) return;
    if (wrong) sim_violation("accepted-misuse", "operation %ld: %s reports convergence for vectors of %zu and %zu blocks and a %zu x %zu matrix", opNo, K::name, mb, nb, n, m);
    if (st != set && st != loaded) sim_violation("false-convergence", "operation %ld: %s reports convergence although it %s", opNo, K::name, st == none ? "has no matrix" : "could not decompose the matrix");
    std::vector<LC> xs, bs; for (sz i = 0; i < mb; ++i) for (int q = 0; q < C; ++q) { LC z = LC(std::complex<double>(el(x[i], q))); if (full && ign[i * C + q]) { WL_CHECK(z == LC(7), "wrong-vector", "operation %ld: %s changed an entry that was to be ignored", opNo, K::name); } else xs.push_back(z); }
    for (sz i = 0; i < nb; ++i) for (int q = 0; q < R; ++q) if (!(full && ign[i * R + q])) bs.push_back(LC(std::complex<double>(el(b0[i], q))));
    if (xs.size() != m || bs.size() != n) sim_violation("harness", "sizes %zu %zu %zu %zu", xs.size(), m, bs.size(), n);
    long double err = 0, scale = 1e-30L; std::vector<LC> r(n);
    for (sz i = 0; i < n; ++i) { LC t = bs[i]; long double c = std::abs(bs[i]); for (sz j = 0; j < m; ++j) { t -= sys.a(i, j) * xs[j]; c += std::abs(sys.a(i, j)) * std::abs(xs[j]); } r[i] = t; if (K::kind != leastSquares) { err = std::max(err, std::abs(t)); if (!(std::abs(t) <= 1e300L)) err = 1e300L; } scale = std::max(scale, c); }
    if (K::kind == leastSquares) for (sz j = 0; j < m; ++j) { LC t = 0; for (sz i = 0; i < n; ++i) t += std::conj(sys.a(i, j)) * r[i]; if (!(std::abs(t) <= err)) err = std::abs(t) <= 1e300L ? std::abs(t) : 1e300L; }
    // LDL and Cholmod do not choose pivots: rounding can make any pivot of a matrix that is not diagonally dominant meaningless
    if (K::kind != symmetric || sys.good || sys.exact) WL_CHECK(err <= K::tol * 10 * scale, "false-convergence", "operation %ld: %s reports convergence for a %zu x %zu %s, but the residual is %Lg (scale %Lg)", opNo, K::name, n, m, sys.what, err, scale);
    if (sys.good && n == m && n) { std::vector<LC> ref; if (solveDense(sys.a, bs, ref)) for (sz i = 0; i < n; ++i) WL_CHECK(std::abs(ref[i] - xs[i]) <= K::tol * 1e3 * (1 + std::abs(ref[i])), "wrong-solution", "operation %ld: %s gives x[%zu] = %Lg instead of %Lg (%zu x %zu %s)", opNo, K::name, i, xs[i].real(), ref[i].real(), n, m, sys.what); }
    WL_CHECK(res.iterations == 1 || res.iterations == 0 || n == 0, "wrong-statistics", "operation %ld: %s reports %d iterations", opNo, K::name, res.iterations);
    sim_probe(sys.good ? "solved" : "solved an arbitrary system"); for (auto& z : xs) hash((double)z.real());
  }
  void step(unsigned what) {
    Rng g = dataRng(91 + 1000 * (u64)opNo); M A; Sys y; std::string why; Outcome o;
    switch (what) {
    case 0: case 1: opName = "construction"; { y = makeMatrix(A, g, K::kind); std::unique_ptr<S> t; o = go([&] { t = K::make(A, g); }, why);
        if (o == ok) { s = std::move(t); use(o, y, why); } else { if (!y.good) singularMet = true; if (y.good && !nofault()) use(o, y, why); sim_probe("construction failed"); } } break;
    case 2: case 3: opName = "setMatrix"; y = makeMatrix(A, g, K::kind); if (!s) s = std::make_unique<S>(); o = go([&] { s->setMatrix(A); }, why); use(o, y, why); break;
    case 4: opName = "setSubMatrix"; if constexpr (K::sub || K::ignore) { y = makeMatrix(A, g, K::kind); if (y.rows != y.cols || !A.N()) return; std::set<sz> keep; for (sz i = 0; i < A.N(); ++i) if (g.chance(600)) keep.insert(i);
        if (!s) s = std::make_unique<S>();
        if constexpr (K::sub) { if (keep.empty()) return; if (!K::ignore || g.chance(500)) { bool diag = true; for (sz i = 0; i < A.N(); ++i) if (!A.exists(i, i)) diag = false; if (!diag) return; o = go([&] { s->setSubMatrix(A, keep); }, why); use(o, subSystem<M>(y, keep, R), why); return; } }
        if constexpr (K::ignore) { opName = "setMatrix with excluded unknowns"; X bits(A.N()); bits = 0.0; std::vector<bool> ig(y.rows); 
          std::conditional_t<Dune::IsNumber<B>::value, std::vector<char>, std::vector<std::array<char, R>>> bv(A.N());
          for (sz i = 0; i < A.N(); ++i) for (int q = 0; q < R; ++q) { bool e = R > 1 && !K::sub && g.chance(200) ? g.chance(500) : !keep.count(i); ig[i * R + q] = e; if constexpr (Dune::IsNumber<B>::value) bv[i] = e; else bv[i][q] = e; }
          Sys t; std::vector<sz> l; for (sz i = 0; i < y.rows; ++i) if (!ig[i]) l.push_back(i); t.rows = t.cols = t.a.n = t.a.m = l.size(); t.good = y.good && t.rows; t.spd = y.spd && t.rows; t.what = "part of a matrix"; t.a.a.assign(t.rows * t.rows, 0); for (sz i = 0; i < l.size(); ++i) for (sz j = 0; j < l.size(); ++j) t.a(i, j) = y.a(l[i], l[j]);
          if constexpr (K::sub) { if constexpr (Dune::IsNumber<B>::value) { Dune::BlockVector<char> q(A.N()); for (sz i = 0; i < A.N(); ++i) q[i] = bv[i]; o = go([&] { s->setMatrix(A, q); }, why); } else { Dune::BlockVector<Dune::FieldVector<char, R>> q(A.N()); for (sz i = 0; i < A.N(); ++i) for (int p = 0; p < R; ++p) q[i][p] = bv[i][p]; o = go([&] { s->setMatrix(A, q); }, why); } use(o, t, why); }
          else { if constexpr (Dune::IsNumber<B>::value) { Dune::BlockVector<char> q(A.N()); for (sz i = 0; i < A.N(); ++i) q[i] = bv[i]; o = go([&] { s->setMatrix(A, &q); }, why); } else { Dune::BlockVector<Dune::FieldVector<char, R>> q(A.N()); for (sz i = 0; i < A.N(); ++i) for (int p = 0; p < R; ++p) q[i][p] = bv[i][p]; o = go([&] { s->setMatrix(A, &q); }, why); }
            use(o, t, why); ign = ig; full = y.rows; }
        } } break;
    case 5: opName = "release"; if constexpr (K::frees) { if (!s || st == none) return; s->free(); st = none; sys = Sys(); full = 0; } break;
    case 6: opName = "destruction"; s = nullptr; st = none; sys = Sys(); full = 0; if (g.chance(500)) s = std::make_unique<S>(); break;
    case 12: opName = "storing the decomposition"; if constexpr (K::files) { if (!s || st == none || (sys.rows == 0 && st != bad)) return; bool fault = fsFault(g);
        o = go([&] { s->saveDecomposition("/simfs/lu"); }, why); bool fired = lastFired; sim_fs_arm(0, 0); (void)fault;
        if (o == ok && st == bad) sim_violation("stored-nothing", "operation %ld: storing succeeds although the matrix could not be decomposed", opNo);
        if (o == failed && st != bad && !fired) sim_violation("refused", "operation %ld: the decomposition cannot be stored: %s", opNo, why.c_str());
        if (o == ok) { stored = true; fileSys = sys; sim_probe("decomposition stored"); } else { stored = false; sim_fs_remove("/simfs/lu"); sim_probe("storing failed"); }
        WL_CHECK(sim_fs_open() == 0, "file-left-open", "operation %ld left a file open", opNo);
        if (stored && fired) { stored = false; maybe = true; } else maybe = false; } break;
    case 13: opName = "construction from a file"; if constexpr (K::files) { bool damage = g.chance(200); if (damage) { size_t len = 0; const char* d = sim_fs_get("/simfs/lu", &len); if (d && len) { std::string c(d, g.below(len)); sim_fs_set("/simfs/lu", c.data(), c.size()); stored = maybe = false; sim_fault_fired("file-truncated"); } }
        fsFault(g); std::unique_ptr<S> t; o = go([&] { t = std::make_unique<S>("/simfs/lu"); }, why); bool fired = lastFired; sim_fs_arm(0, 0); WL_CHECK(sim_fs_open() == 0, "file-left-open", "operation %ld left a file open", opNo);
        if (o == failed && stored && !fired) sim_violation("refused", "operation %ld: the stored decomposition cannot be loaded: %s", opNo, why.c_str());
        if (o == ok && !stored && !maybe) sim_violation("loaded-garbage", "operation %ld: loading a damaged or missing file succeeded", opNo);
        if (o == ok) { s = std::move(t); use(o, fileSys, why); st = loaded; sim_probe("decomposition loaded"); } else sim_probe("loading failed"); } break;
    case 14: opName = "construction from a matrix and a file"; if constexpr (K::files) { if (g.chance(300)) { sim_fs_remove("/simfs/lu"); stored = maybe = false; }
        if (stored || maybe) { s = nullptr; st = none; return; } // the file would have to belong to the new matrix
        y = makeMatrix(A, g, K::kind); if (!y.good) return; fsFault(g); std::unique_ptr<S> t; o = go([&] { t = std::make_unique<S>(A, "/simfs/lu"); }, why); bool fired = lastFired; sim_fs_arm(0, 0);
        if (o == failed && !fired) sim_violation("refused", "operation %ld: the decomposition cannot be computed and stored: %s", opNo, why.c_str());
        if (o == ok) { s = std::move(t); use(o, y, why); fileSys = y; stored = !fired; maybe = fired;
          if (stored && g.chance(500)) { o = go([&] { t = std::make_unique<S>(A, "/simfs/lu"); }, why); if (o == ok) { s = std::move(t); use(o, y, why); st = set; sim_probe("decomposition reused"); } else if (!lastFired) sim_violation("refused", "operation %ld: the stored decomposition is not reused: %s", opNo, why.c_str()); } }
        else { stored = maybe = false; sim_fs_remove("/simfs/lu"); }
        WL_CHECK(sim_fs_open() == 0, "file-left-open", "operation %ld left a file open", opNo); } break;
    default: if (!s) return; if (st == none && !g.chance(300)) return; apply(g);
    }
  }
};
template <class K> static void history() {
  int steps = P("steps", 1, 14); singularMet = false;
  sim_alloc_mark();
  { Quiet q; Hist<K> h;
    for (opNo = 1; opNo <= steps; ++opNo) { unsigned w = sim_decide("operation", 16, 960); if (!w) continue; arming = true; h.step(w - 1); sim_alloc_check(); }
    opName = "destruction"; h.s = nullptr; }
  sim_alloc_check();
  // SuperLU (6.0) itself loses three blocks whenever a matrix is singular
  if (sim_alloc_live_blocks() && !(singularMet && !strcmp(K::name, "SuperLU"))) { char b[400]; sim_alloc_describe(b, sizeof b); sim_violation("leak", "%lld blocks of memory were not released after %s was destroyed: %s", sim_alloc_live_blocks(), K::name, b); }
  sim_alloc_unmark();
}
static void run() {
  typedef Dune::FieldMatrix<double, 1, 1> F1; typedef Dune::FieldMatrix<double, 2, 2> F2; typedef std::complex<double> Z; typedef Dune::FieldMatrix<Z, 2, 2> Z2;
  Dune::dwarn.push(false); Dune::dinfo.push(false);
  switch (P("solver", 0, 13)) {
  case 0: history<Umf<double>>(); break; case 1: history<Umf<F2>>(); break; case 2: history<Umf<Z>>(); break; case 3: history<Umf<Z2>>(); break;
  case 4: history<Ldl<F1>>(); break; case 5: history<Ldl<F2>>(); break;
  case 6: history<Spqr<F1>>(); break; case 7: switch (P("complex", 0, 2)) { case 0: history<Spqr<F2>>(); break; case 1: history<Spqr<Z2>>(); break; default: history<Spqr<Dune::FieldMatrix<double, 2, 1>>>(); } break;
  case 8: history<Slu<double>>(); break; case 9: history<Slu<F2>>(); break; case 10: history<Slu<Z>>(); break; case 11: history<Slu<Dune::FieldMatrix<float, 1, 1>>>(); break;
  case 12: history<Chol<double, int>>(); break; default: history<Chol<F2, SuiteSparse_long>>(); break;
  }
  Dune::dinfo.pop(); Dune::dwarn.pop();
}
static void runHistory() { faulty = false; run(); }
static void runNoMemory() { faulty = true; run(); }
WL_TABLE({"direct_history", SIM_SINGLE, 1, 1, nullptr, runHistory, nullptr, 0},
         {"direct_memory", SIM_SINGLE, 1, 1, nullptr, runNoMemory, nullptr, 0})
