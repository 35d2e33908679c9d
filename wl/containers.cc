// C14/C15: histories of vectors and dense, block diagonal and block tridiagonal matrices with failing allocations,
// against reference models.
#include "wl.hh"
#include <dune/common/fmatrix.hh>
#include <dune/common/fvector.hh>
#include <dune/istl/bdmatrix.hh>
#include <dune/istl/btdmatrix.hh>
#include <dune/istl/bvector.hh>
#include <dune/istl/matrix.hh>
#include <dune/istl/vbvector.hh>
#include <optional>
using namespace wl;
typedef std::size_t sz;
static bool faulty = false, arming = true;
static long opNo = 0;
static const char* opName = "?";
enum Outcome { ok, nomem, refused };
template <class F> Outcome attempt(F&& f, std::string* what = nullptr) {
  unsigned k = faulty && arming ? sim_decide("alloc", 24, 300) : 0;
  if (k) sim_alloc_arm(k > 12 ? k - 12 : k, k > 12 ? 1000000 : 1);
  struct Off { ~Off() { sim_alloc_arm(0, 0); } } off;
  try { f(); }
  catch (const std::bad_alloc&) { if (!sim_alloc_fired()) sim_violation("spurious-bad-alloc", "%s (operation %ld) threw bad_alloc although no allocation failed", opName, opNo); return nomem; }
  catch (const std::exception& e) { sim_alloc_arm(0, 0); if (what) *what = e.what(); return refused; }
  return ok;
}
#define MUST(o) do { if ((o) == nomem) return nomem; if ((o) != ok) sim_violation("refused", "%s (operation %ld) failed: %s", opName, opNo, why.c_str()); } while (0)

// Every kind: T (object), Model, op() = one operation on slot a (b another sane slot), equal(), touch() = write everything
// an object that failed claims to have.
struct Plain {
  typedef Dune::FieldVector<double, 2> B; typedef Dune::BlockVector<B> T; typedef std::vector<double> Model;
  static constexpr const char* name = "BlockVector";
  static void set(B& b, double v) { b[0] = v; b[1] = -v; }
  static void touch(T& t) { for (sz i = 0; i < t.size(); ++i) set(t[i], 0); for (auto& b : t) set(b, 0); }
  static bool fits(const Model& a, const Model& b) { return a.size() == b.size(); }
  static void fillM(T& t, Model& m, Rng& g, sz from = 0) { for (sz i = from; i < m.size(); ++i) { m[i] = (double)g.range(-9, 9); set(t[i], m[i]); } }
  static void equal(const T& t, const Model& m, const char* w) {
    WL_CHECK(t.size() == m.size() && t.N() == m.size() && t.dim() == 2 * m.size() && t.capacity() >= m.size(), "wrong-size", "%s: a vector has %zu instead of %zu blocks after operation %ld", w, (sz)t.size(), m.size(), opNo);
    sz i = 0; for (auto it = t.begin(); it != t.end(); ++it, ++i) WL_CHECK(it.index() == i && same((*it)[0], m[i]) && same((*it)[1], -m[i]), "wrong-value", "%s: entry %zu is (%g,%g) instead of (%g,%g) after operation %ld", w, i, (*it)[0], (*it)[1], m[i], -m[i], opNo);
    WL_CHECK(i == m.size(), "wrong-size", "%s: iteration ends too early", w);
  }
  static Outcome op(std::unique_ptr<T>& t, Model& m, Rng& g, const T* o, const Model* om) {
    std::string why; sz n = g.below(7);
    switch (g.below(8)) {
    case 0: { opName = "construction"; std::unique_ptr<T> q; int how = (int)g.below(3); Outcome r = attempt([&] { q = how == 0 ? std::make_unique<T>(n) : how == 1 ? std::make_unique<T>(n, n + 3) : std::make_unique<T>(std::initializer_list<B>{B(1.), B(2.)}); }, &why); MUST(r); t = std::move(q); m.assign(how == 2 ? 2 : n, 0); fillM(*t, m, g); return ok; }
    case 1: { opName = "resize"; sz old = m.size(); Outcome r = attempt([&] { t->resize(n); }, &why); if (r == nomem) { equal(*t, m, "a vector whose size could not be changed"); return nomem; } MUST(r); m.resize(n); fillM(*t, m, g, std::min(old, n)); return ok; }
    case 2: { opName = "reserve"; sz cap = g.below(30); Outcome r = attempt([&] { t->reserve(cap); }, &why); if (r == nomem) equal(*t, m, "a vector whose capacity could not be changed"); MUST(r); WL_CHECK(t->capacity() >= cap, "wrong-size", "reserve(%zu) gives the capacity %zu", cap, (sz)t->capacity()); return ok; }
    case 3: { opName = "arithmetic"; double a = (double)g.range(-2, 2); int how = (int)g.below(5); if (how >= 2 && (!o || !fits(m, *om))) return ok;
      Outcome r = attempt([&] { switch (how) { case 0: *t *= a; break; case 1: *t = a; break; case 2: *t += *o; break; case 3: *t -= *o; break; default: t->axpy(a, *o); } }, &why); MUST(r);
      if (how == 1) { fillM(*t, m, g); return ok; }
      for (sz i = 0; i < m.size(); ++i) m[i] = how == 0 ? m[i] * a : m[i] + (how == 2 ? 1 : how == 3 ? -1 : a) * (*om)[i]; return ok; }
    case 4: { opName = "scalar product"; if (!o || !fits(m, *om)) return ok; double d = 0, r2 = 0; for (sz i = 0; i < m.size(); ++i) { d += 2 * m[i] * (*om)[i]; r2 += 2 * m[i] * m[i]; } double e = 0, f = 0; Outcome r = attempt([&] { e = *t * *o; f = t->two_norm2(); }, &why); MUST(r); WL_CHECK(same(d, e) && same(r2, f), "wrong-value", "scalar product %g instead of %g or squared norm %g instead of %g", e, d, f, r2); return ok; }
    case 5: opName = "changing entries"; fillM(*t, m, g); return ok;
    case 6: { opName = "move"; if (g.chance(500)) { T q(std::move(*t)); equal(q, m, "a moved vector"); *t = std::move(q); } else { T q(3); q = std::move(*t); equal(q, m, "a moved vector"); t->swap(q); } return ok; }
    default: { opName = "copying to a larger one"; Outcome r = attempt([&] { T q(*t); q.resize(m.size() + 2); set(q[m.size()], 3); }, &why); MUST(r); return ok; }
    }
  }
};
struct Variable {
  typedef Dune::VariableBlockVector<Dune::FieldVector<double, 1>> T; typedef std::vector<std::vector<double>> Model;
  static constexpr const char* name = "VariableBlockVector";
  static void touch(T& t) { for (sz i = 0; i < t.N(); ++i) if (t[i].getptr()) for (sz j = 0; j < t[i].size(); ++j) t[i][j] = 0; } // blocks without memory: still being created
  static void fillM(T& t, Model& m, Rng& g) { for (sz i = 0; i < m.size(); ++i) for (sz j = 0; j < m[i].size(); ++j) t[i][j] = m[i][j] = (double)g.range(-9, 9); }
  static bool fits(const Model& a, const Model& b) { if (a.size() != b.size()) return false; for (sz i = 0; i < a.size(); ++i) if (a[i].size() != b[i].size()) return false; return true; }
  static void equal(const T& t, const Model& m, const char* w) {
    sz dim = 0, i = 0; for (auto& b : m) dim += b.size();
    WL_CHECK(t.N() == m.size() && t.size() == m.size() && t.dim() == dim, "wrong-size", "%s: a vector has %zu blocks and %zu entries instead of %zu and %zu after operation %ld", w, (sz)t.N(), (sz)t.dim(), m.size(), dim, opNo);
    for (auto it = t.begin(); it != t.end(); ++it, ++i) {
      WL_CHECK(it.index() == i && it->size() == m[i].size(), "wrong-size", "%s: block %zu has %zu instead of %zu entries after operation %ld", w, i, (sz)it->size(), m[i].size(), opNo);
      for (sz j = 0; j < m[i].size(); ++j) WL_CHECK(same((*it)[j][0], m[i][j]), "wrong-value", "%s: entry (%zu,%zu) is %g instead of %g after operation %ld", w, i, j, (*it)[j][0], m[i][j], opNo);
    }
  }
  static Outcome create(T& t, Model& m, Rng& g, std::string& why) {
    for (auto& b : m) b.assign(g.chance(200) ? 0 : g.below(4), 0.);
    int how = (int)g.below(3);
    Outcome r = attempt([&] { sz i = 0; auto end = t.createend(); if (how == 2) { auto it = t.createbegin(); for (; i < m.size(); ++i) *it++ = m[i].size(); } else for (auto it = t.createbegin(); it != end; ++it, ++i) { if (!m[i].size() && g.chance(500)) continue; if (how) *it = m[i].size(); else it.setblocksize(m[i].size()); } }, &why);
    MUST(r); fillM(t, m, g); return ok;
  }
  static Outcome op(std::unique_ptr<T>& t, Model& m, Rng& g, const T* o, const Model* om) {
    std::string why; sz n = g.below(6), k = g.below(5);
    switch (g.below(9)) {
    case 0: { opName = "construction"; std::unique_ptr<T> q; Outcome r = attempt([&] { q = std::make_unique<T>(n, k); }, &why); MUST(r); t = std::move(q); m.assign(n, std::vector<double>(k)); fillM(*t, m, g); return ok; }
    case 1: { opName = "construction with a create iterator"; std::unique_ptr<T> q; Outcome r = attempt([&] { q = std::make_unique<T>(n); }, &why); MUST(r); Model qm(n); r = create(*q, qm, g, why); if (r != ok) { t = std::move(q); return r; } t = std::move(q); m = qm; return ok; }
    case 2: { opName = "resize with block size"; Outcome r = attempt([&] { t->resize(n, k); }, &why); MUST(r); m.assign(n, std::vector<double>(k)); fillM(*t, m, g); return ok; }
    case 3: { opName = "resize and create iterator"; Outcome r = attempt([&] { t->resize(n); }, &why); MUST(r); m.assign(n, {}); return create(*t, m, g, why); }
    case 4: { opName = "arithmetic"; double a = (double)g.range(-2, 2); int how = (int)g.below(5); if (how >= 2 && (!o || !fits(m, *om))) return ok;
      Outcome r = attempt([&] { switch (how) { case 0: *t *= a; break; case 1: *t = a; break; case 2: *t += *o; break; case 3: *t -= *o; break; default: t->axpy(a, *o); } }, &why); MUST(r);
      for (sz i = 0; i < m.size(); ++i) for (sz j = 0; j < m[i].size(); ++j) m[i][j] = how == 0 ? m[i][j] * a : how == 1 ? a : m[i][j] + (how == 2 ? 1 : how == 3 ? -1 : a) * (*om)[i][j]; return ok; }
    case 5: opName = "changing entries"; fillM(*t, m, g); return ok;
    case 6: { opName = "move"; T q(std::move(*t)); equal(q, m, "a moved vector"); *t = std::move(q); return ok; }
    case 7: { opName = "creation of a copy"; // what was only resized may be copied, moved or exchanged before its blocks get their sizes
      int how = (int)g.below(6); T q(how & 1 ? 2 : 0, 3); Outcome r = attempt([&] { t->resize(n); switch (how) { case 0: case 1: q = *t; break; case 2: { T c(*t); q = std::move(c); } break; case 3: { T c(std::move(*t)); q = std::move(c); } break; default: { using std::swap; swap(q, *t); } } }, &why);
      MUST(r); WL_CHECK(q.N() == n, "wrong-size", "a copy of a vector of %zu blocks without sizes has %zu blocks", n, (sz)q.N());
      Model qm(n); r = create(q, qm, g, why); if (r != ok) return r; equal(q, qm, "a vector created from a copy");
      if (how >= 4) { Model e(how & 1 ? 2 : 0, std::vector<double>(3)); fillM(*t, e, g); equal(*t, e, "a vector exchanged with one without sizes"); sim_probe("exchanged before creation"); }
      *t = std::move(q); m = qm; sim_probe("created from a copy"); return ok; }
    default: { opName = "copying blocks"; if (m.empty()) return ok; sz i = g.below(m.size()); Outcome r = attempt([&] { T::block_type b = (*t)[i]; for (sz j = 0; j < m[i].size(); ++j) b[j] += 1; std::copy(b.begin(), b.end(), (*t)[i].begin()); }, &why); MUST(r); for (auto& v : m[i]) v += 1; return ok; }
    }
  }
};
struct Dense {
  typedef Dune::Matrix<double> T; struct Model { sz n = 0, c = 0; std::vector<double> v; };
  static constexpr const char* name = "Matrix";
  static void touch(T& t) { for (sz i = 0; i < t.N(); ++i) for (sz j = 0; j < t.M(); ++j) t[i][j] = 0; }
  static bool fits(const Model& a, const Model& b) { return a.n == b.n && a.c == b.c; }
  static void fillM(T& t, Model& m, Rng& g) { for (sz i = 0; i < m.n; ++i) for (sz j = 0; j < m.c; ++j) t[i][j] = m.v[i * m.c + j] = (double)g.range(-9, 9); }
  static void equal(const T& t, const Model& m, const char* w) {
    WL_CHECK(t.N() == m.n && t.M() == m.c, "wrong-size", "%s: a matrix is %zu x %zu instead of %zu x %zu after operation %ld", w, (sz)t.N(), (sz)t.M(), m.n, m.c, opNo);
    if (!m.c) return;
    sz i = 0; for (auto r = t.begin(); r != t.end(); ++r, ++i) { sz j = 0; for (auto c = r->begin(); c != r->end(); ++c, ++j) WL_CHECK(i < m.n && j < m.c && same(*c, m.v[i * m.c + j]) && r.index() == i && c.index() == j, "wrong-value", "%s: entry (%zu,%zu) is %g instead of %g after operation %ld", w, i, j, *c, i < m.n && j < m.c ? m.v[i * m.c + j] : NAN, opNo); WL_CHECK(j == m.c, "wrong-size", "%s: a row ends too early", w); }
    WL_CHECK(i == m.n, "wrong-size", "%s: the rows end too early", w);
  }
  static Outcome op(std::unique_ptr<T>& t, Model& m, Rng& g, const T* o, const Model* om) {
    std::string why; sz n = g.below(5), c = g.below(5);
    switch (g.below(7)) {
    case 0: { opName = "construction"; std::unique_ptr<T> q; Outcome r = attempt([&] { q = std::make_unique<T>(n, c); }, &why); MUST(r); t = std::move(q); m.n = n; m.c = c; m.v.assign(n * c, 0); fillM(*t, m, g); return ok; }
    case 1: case 2: { opName = "setSize"; Outcome r = attempt([&] { t->setSize(n, c); }, &why); MUST(r); m.n = n; m.c = c; m.v.assign(n * c, 0); fillM(*t, m, g); return ok; }
    case 3: { opName = "arithmetic"; double a = (double)g.range(-2, 2); int how = (int)g.below(4); if (how >= 2 && (!o || !fits(m, *om))) return ok;
      Outcome r = attempt([&] { switch (how) { case 0: *t *= a; break; case 1: *t = a; break; case 2: *t += *o; break; default: *t -= *o; } }, &why); MUST(r);
      for (sz i = 0; i < m.v.size(); ++i) m.v[i] = how == 0 ? m.v[i] * a : how == 1 ? a : m.v[i] + (how == 2 ? 1 : -1) * om->v[i]; return ok; }
    case 4: { opName = "transpose"; Outcome r = attempt([&] { T q = t->transpose(); *t = q; }, &why); MUST(r); Model x; x.n = m.c; x.c = m.n; x.v.resize(m.v.size()); for (sz i = 0; i < m.n; ++i) for (sz j = 0; j < m.c; ++j) x.v[j * m.n + i] = m.v[i * m.c + j]; m = x; return ok; }
    case 5: { opName = "product"; if (!o || om->n != m.c) return ok; for (double v : m.v) if (std::abs(v) > 1e6) return ok; for (double v : om->v) if (std::abs(v) > 1e6) return ok; Outcome r = attempt([&] { T q = *t * *o; *t = q; }, &why); MUST(r); Model x; x.n = m.n; x.c = om->c; x.v.assign(x.n * x.c, 0); for (sz i = 0; i < m.n; ++i) for (sz j = 0; j < x.c; ++j) for (sz k = 0; k < m.c; ++k) x.v[i * x.c + j] += m.v[i * m.c + k] * om->v[k * om->c + j]; m = x; return ok; }
    default: { opName = "matrix-vector product"; Dune::BlockVector<double> x(m.c), y(m.n), z(m.c); std::vector<double> Y(m.n, 0.), Z(m.c, 0.); for (sz j = 0; j < m.c; ++j) x[j] = (double)g.range(-3, 3); for (sz i = 0; i < m.n; ++i) for (sz j = 0; j < m.c; ++j) Y[i] += m.v[i * m.c + j] * x[j];
      for (sz i = 0; i < m.n; ++i) for (sz j = 0; j < m.c; ++j) Z[j] += m.v[i * m.c + j] * Y[i];
      Outcome r = attempt([&] { t->mv(x, y); t->mtv(y, z); }, &why); MUST(r); for (sz i = 0; i < m.n; ++i) WL_CHECK(m.c == 0 || same(y[i], Y[i]), "wrong-product", "row %zu: %g instead of %g", i, y[i], Y[i]); for (sz i = 0; i < m.c; ++i) WL_CHECK(m.n == 0 || same(z[i], Z[i]), "wrong-product", "transposed, row %zu: %g instead of %g", i, z[i], Z[i]); return ok; }
    }
  }
};
template <int TRI> struct Banded {
  typedef std::conditional_t<TRI, Dune::BTDMatrix<double>, Dune::BDMatrix<Dune::FieldMatrix<double, 2, 2>>> T; struct Model { sz n = 0; std::map<std::pair<sz, sz>, double> v; };
  static constexpr const char* name = TRI ? "BTDMatrix" : "BDMatrix";
  template <class E> static void put(E& e, double v) { if constexpr (TRI) e = v; else { e = 0; e[0][0] = v; e[1][1] = -v; e[0][1] = 1; } }
  template <class E> static bool is(const E& e, double v) { if constexpr (TRI) return same(e, v); else return same(e[0][0], v) && same(e[1][1], -v) && same(e[1][0], 0); }
  static void touch(T& t) { if (t.buildStage() != T::built) return; for (auto& r : t) for (auto& e : r) e = 0.; }
  static bool fits(const Model& a, const Model& b) { return a.n == b.n; }
  static void size(Model& m, sz n) { m.n = n; m.v.clear(); for (sz i = 0; i < n; ++i) { m.v[{i, i}] = 0; if (TRI) { if (i) m.v[{i, i - 1}] = 0; if (i + 1 < n) m.v[{i, i + 1}] = 0; } } }
  static void fillM(T& t, Model& m, Rng& g) { for (auto& p : m.v) { p.second = p.first.first == p.first.second ? (double)(4 << g.below(3)) : (double)g.range(-1, 1); put(t[p.first.first][p.first.second], p.second); } }
  static void equal(const T& t, const Model& m, const char* w) {
    WL_CHECK(t.N() == m.n && t.M() == m.n && t.nonzeroes() == m.v.size(), "wrong-size", "%s: a matrix is %zu x %zu with %zu entries instead of %zu x %zu with %zu after operation %ld", w, (sz)t.N(), (sz)t.M(), (sz)t.nonzeroes(), m.n, m.n, m.v.size(), opNo);
    auto it = m.v.begin(); for (auto r = t.begin(); r != t.end(); ++r) for (auto c = r->begin(); c != r->end(); ++c, ++it) WL_CHECK(it != m.v.end() && it->first == std::make_pair((sz)r.index(), (sz)c.index()) && is(*c, it->second), "wrong-value", "%s: the entry (%zu,%zu) is wrong after operation %ld", w, (sz)r.index(), (sz)c.index(), opNo);
    WL_CHECK(it == m.v.end(), "lost-entries", "%s: entries are missing after operation %ld", w, opNo);
  }
  static Outcome op(std::unique_ptr<T>& t, Model& m, Rng& g, const T* o, const Model* om) {
    std::string why; sz n = g.below(6);
    switch (g.below(5)) {
    case 0: { opName = "construction"; std::unique_ptr<T> q; Outcome r = attempt([&] { q = std::make_unique<T>(n); }, &why); MUST(r); t = std::move(q); size(m, n); fillM(*t, m, g); return ok; }
    case 1: { opName = "setSize"; Outcome r = attempt([&] { t->setSize(n); }, &why); MUST(r); size(m, n); fillM(*t, m, g); return ok; }
    case 2: { opName = "arithmetic"; int how = (int)g.below(3); if (how == 2 && (!o || !fits(m, *om) || t->buildStage() != T::built || o->buildStage() != T::built)) return ok; for (auto& p : m.v) if (std::abs(p.second) > 1e6) return ok;
      Outcome r = attempt([&] { if (how == 0) *t *= 2; else if (how == 1) *t /= 2; else *t += *o; }, &why); MUST(r);
      if (how == 2 || !TRI) { fillM(*t, m, g); return ok; }
      for (auto& p : m.v) p.second *= how ? 0.5 : 2; return ok; }
    case 3: opName = "changing entries"; fillM(*t, m, g); return ok;
    default: { opName = "solve"; if (!m.n) return ok; typedef std::conditional_t<TRI, double, Dune::FieldVector<double, 2>> E; typedef Dune::BlockVector<E> V; V x(m.n), b(m.n), y(m.n); x = 0.; for (sz i = 0; i < m.n; ++i) b[i] = (double)g.range(-5, 5);
      Model sv = m; fillM(*t, m, g); V b0 = b; Outcome r = attempt([&] { t->solve(x, b); }, &why); MUST(r); equal(*t, m, "a matrix after solving with it"); t->mv(x, y);
      for (sz i = 0; i < m.n; ++i) { double e, f; if constexpr (TRI) { e = std::abs(y[i] - b0[i]); f = b[i] - b0[i]; } else { auto d = y[i]; d -= b0[i]; e = d.two_norm(); auto q = b[i]; q -= b0[i]; f = q.two_norm(); } WL_CHECK(e < 1e-9 && f == 0, "wrong-solution", "the residual of row %zu is %g (right hand side changed by %g)", i, e, f); }
      if constexpr (!TRI) { if (g.chance(500)) { r = attempt([&] { T q(*t); q.invert(); V z(m.n); q.mv(b, z); z -= x; if (z.two_norm() > 1e-9) sim_violation("wrong-inverse", "the inverse does not solve the system"); }, &why); MUST(r); } }
      return ok; }
    }
  }
};
template <class K> static void history() {
  int steps = P("steps", 1, 30); typedef typename K::T T; typedef typename K::Model Model;
  sim_alloc_mark();
  {
    Rng g = dataRng(77); enum { S = 3 }; std::unique_ptr<T> t[S]; Model m[S]; bool bad[S] = {false, false, false};
    for (auto& x : t) x = std::make_unique<T>();
    auto all = [&](const char* w) { for (int k = 0; k < S; ++k) if (!bad[k]) K::equal(*t[k], m[k], w); sim_alloc_check(); };
    for (opNo = 1; opNo <= steps; ++opNo) {
      unsigned what = sim_decide("operation", 10, 960); if (!what) continue; --what; g = dataRng(77 + 1000 * (u64)opNo);
      int a = (int)g.below(S), b = (int)g.below(S); std::string why; Outcome r = ok;
      switch (what) {
      case 0: opName = "copy construction"; if (a == b) continue; { std::unique_ptr<T> q; r = attempt([&] { q = std::make_unique<T>(*t[b]); }, &why); if (r == ok) { t[a] = std::move(q); m[a] = m[b]; } else if (r == refused) sim_violation("refused", "copying a %s failed: %s", K::name, why.c_str()); else r = ok; } break;
      case 1: case 2: opName = "assignment"; r = attempt([&] { *t[a] = *t[b]; }, &why); if (r == refused) sim_violation("refused", "assigning a %s failed: %s", K::name, why.c_str()); if (r == ok) m[a] = m[b]; break;
      case 3: opName = "swap"; if (a == b) continue; r = attempt([&] { using std::swap; swap(*t[a], *t[b]); }, &why); if (r == refused) sim_violation("refused", "swapping failed: %s", why.c_str()); if (r == ok) std::swap(m[a], m[b]); else bad[b] = true; break;
      case 4: opName = "destruction"; t[a] = nullptr; t[a] = std::make_unique<T>(); m[a] = Model(); break;
      default: { std::string o; r = K::op(t[a], m[a], g, a == b ? nullptr : t[b].get(), a == b ? nullptr : &m[b]); }
      }
      if (r == nomem) { bad[a] = true; sim_probe("operation out of memory"); }
      char w[64]; snprintf(w, sizeof w, "%s, %s", K::name, opName); all(w);
      for (int k = 0; k < S; ++k) if (bad[k]) {
        K::touch(*t[k]); sim_alloc_check(); all("an object after the failure of another one");
        arming = false; int f = (k + 1) % S; Outcome q = ok;
        switch (g.below(3)) {
        case 0: t[k] = std::make_unique<T>(); m[k] = Model(); break;
        case 1: if (bad[f]) { t[k] = std::make_unique<T>(); m[k] = Model(); } else { q = attempt([&] { *t[k] = *t[f]; }, &why); if (q != ok) sim_violation("refused", "a %s whose last operation (%s) failed cannot be assigned to: %s", K::name, opName, why.c_str()); m[k] = m[f]; sim_probe("repaired by assignment"); } break;
        default: { T q2(*t[k]); (void)q2; *t[k] = T(); m[k] = Model(); sim_probe("repaired by emptying"); }
        }
        arming = true; bad[k] = false; all("repair");
      }
    }
  }
  sim_alloc_check();
  if (sim_alloc_live_blocks()) { char b[400]; sim_alloc_describe(b, sizeof b); sim_violation("leak", "%lld blocks of memory were not released after all objects were destroyed: %s", sim_alloc_live_blocks(), b); }
  sim_alloc_unmark();
}
static void run() {
  Dune::dwarn.push(false);
  switch (P("kind", 0, 4)) { case 0: history<Plain>(); break; case 1: history<Variable>(); break; case 2: history<Dense>(); break; case 3: history<Banded<0>>(); break; default: history<Banded<1>>(); }
  Dune::dwarn.pop();
}
static void runHistory() { faulty = false; run(); }
static void runNoMemory() { faulty = true; run(); }
WL_TABLE({"container_history", SIM_SINGLE, 1, 1, nullptr, runHistory, nullptr, 0},
         {"container_memory", SIM_SINGLE, 1, 1, nullptr, runNoMemory, nullptr, 0})
