// C14/C15: histories of building, copying, assigning, changing and using sparse matrices and vectors, with wrong use, too
// small buffers and failing allocations, against a reference model of every object.
#include "wl.hh"
#include <dune/common/fmatrix.hh>
#include <dune/common/fvector.hh>
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/bdmatrix.hh>
#include <dune/istl/btdmatrix.hh>
#include <dune/istl/bvector.hh>
#include <dune/istl/matrix.hh>
#include <dune/istl/matrixindexset.hh>
#include <dune/istl/matrixmatrix.hh>
#include <dune/istl/vbvector.hh>
#include <limits>
#include <optional>
using namespace wl;
typedef std::size_t sz;
static bool faulty = false;            // allocations may fail
static long opNo = 0;
typedef std::array<double, 4> Val;

template <class B> struct Block;
template <> struct Block<double> {
  enum { C = 1, D = 1 };
  static void set(double& b, const Val& v) { b = v[0]; }
  static Val get(const double& b) { return Val{b, 0, 0, 0}; }
};
template <> struct Block<Dune::FieldMatrix<double, 2, 2>> {
  enum { C = 4, D = 2 };
  static void set(Dune::FieldMatrix<double, 2, 2>& b, const Val& v) { for (int k = 0; k < 4; ++k) b[k / 2][k % 2] = v[k]; }
  static Val get(const Dune::FieldMatrix<double, 2, 2>& b) { return Val{b[0][0], b[0][1], b[1][0], b[1][1]}; }
};
typedef Dune::Matrix<double> Dyn;      // a block that owns memory of its own
template <> struct Block<Dyn> {
  enum { C = 2, D = 0 };
  static void set(Dyn& b, const Val& v) { if (b.N() != 2 || b.M() != 1) b.setSize(2, 1); b[0][0] = v[0]; b[1][0] = v[1]; }
  static Val get(const Dyn& b) { if (b.N() != 2 || b.M() != 1) sim_violation("wrong-block", "operation %ld: a block has %zu x %zu entries instead of 2 x 1", opNo, (sz)b.N(), (sz)b.M()); return Val{b[0][0], b[1][0], 0, 0}; }
};
template <class B> Val randVal(Rng& g) { Val v{0, 0, 0, 0}; for (int k = 0; k < Block<B>::C; ++k) v[k] = (double)g.range(-9, 9); return v; }

// run one library call; true if it returned normally. Failing allocations are chosen by the simulator.
enum Outcome { ok, nomem, refused, exhausted };
static bool arming = true;             // false while the workload repairs an object
template <class F> Outcome attempt(F&& f, std::string* what = nullptr) {
  unsigned k = faulty && arming ? sim_decide("alloc", 60, 250) : 0;
  if (k) sim_alloc_arm(k > 40 ? k - 40 : k, k > 40 ? 1000000 : 1);
  struct Off { ~Off() { sim_alloc_arm(0, 0); } } off;
  try { f(); }
  catch (const std::bad_alloc&) { if (!sim_alloc_fired()) sim_violation("spurious-bad-alloc", "operation %ld threw bad_alloc although no allocation failed", opNo); return nomem; }
  catch (const std::length_error&) { sim_violation("spurious-length-error", "operation %ld asked for an impossible amount of memory", opNo); }
  catch (const Dune::ImplicitModeCompressionBufferExhausted& e) { sim_alloc_arm(0, 0); if (what) *what = e.what(); return exhausted; }
  catch (const Dune::Exception& e) { sim_alloc_arm(0, 0); if (what) *what = e.what(); return refused; }
  return ok;
}

template <class B> struct Hist {
  typedef Dune::BCRSMatrix<B> M;
  enum { C = Block<B>::C, D = Block<B>::D };
  enum Stage { empty, built, broken };
  struct Slot { std::unique_ptr<M> m; Stage st = empty; sz n = 0, c = 0; std::map<std::pair<sz, sz>, Val> e; const char* made = "new"; };
  enum { S = 4 };
  Slot s[S]; Rng g;
  explicit Hist(u64 salt) : g(dataRng(salt)) { for (auto& x : s) x.m = std::make_unique<M>(); }
  sz nrows(Slot& x) { sz k = 0; (void)x; return k; }

  void verify(int k, const char* after, bool count) {
    Slot& x = s[k]; const M& A = *x.m;
    if (x.st != built) return;
    WL_CHECK(A.N() == x.n && A.M() == x.c, "wrong-size", "after %s (operation %ld): matrix %d (%s) is %zu x %zu instead of %zu x %zu", after, opNo, k, x.made, (sz)A.N(), (sz)A.M(), x.n, x.c);
    WL_CHECK(A.buildStage() == M::built, "wrong-stage", "after %s (operation %ld): matrix %d (%s) is not built (%d)", after, opNo, k, x.made, (int)A.buildStage());
    auto it = x.e.begin(); sz rows = 0;
    for (auto r = A.begin(); r != A.end(); ++r, ++rows) {
      sz cnt = 0;
      for (auto c = r->begin(); c != r->end(); ++c, ++it, ++cnt) {
        WL_CHECK(it != x.e.end() && it->first == std::make_pair((sz)r.index(), (sz)c.index()), "wrong-pattern", "after %s (operation %ld): matrix %d (%s, %zu x %zu) has the entry (%zu,%zu) where %s is expected", after, opNo, k, x.made, x.n, x.c, (sz)r.index(), (sz)c.index(), it == x.e.end() ? "no further entry" : ("(" + std::to_string(it->first.first) + "," + std::to_string(it->first.second) + ")").c_str());
        Val v = Block<B>::get(*c);
        for (int q = 0; q < C; ++q) WL_CHECK(same(v[q], it->second[q]), "wrong-value", "after %s (operation %ld): entry (%zu,%zu)[%d] of matrix %d (%s) is %g instead of %g", after, opNo, it->first.first, it->first.second, q, k, x.made, v[q], it->second[q]);
      }
      WL_CHECK(A.getrowsize(r.index()) == cnt && r->size() == cnt, "wrong-row-size", "after %s (operation %ld): row %zu of matrix %d (%s) has %zu entries but says %zu", after, opNo, (sz)r.index(), k, x.made, cnt, (sz)A.getrowsize(r.index()));
    }
    WL_CHECK(it == x.e.end() && rows == x.n, "lost-entries", "after %s (operation %ld): matrix %d (%s) lost the entry (%zu,%zu)", after, opNo, k, x.made, it->first.first, it->first.second);
    if (count) WL_CHECK((sz)A.nonzeroes() == x.e.size(), "wrong-count", "after %s (operation %ld): matrix %d (%s, %zu x %zu) with %zu entries says that it has %zu", after, opNo, k, x.made, x.n, x.c, x.e.size(), (sz)A.nonzeroes());
  }
  void verifyAll(const char* after) {
    for (int k = 0; k < S; ++k) verify(k, after, g.chance(300));
    sim_alloc_check();
  }

  // fill the values of a matrix whose pattern is there
  bool fill(Slot& x) {
    for (auto& p : x.e) p.second = randVal<B>(g);
    Outcome o = attempt([&] { for (auto r = x.m->begin(); r != x.m->end(); ++r) for (auto c = r->begin(); c != r->end(); ++c) { auto i = x.e.find({(sz)r.index(), (sz)c.index()}); if (i == x.e.end()) sim_violation("wrong-pattern", "operation %ld: the new matrix (%s, %zu x %zu) has an entry (%zu,%zu) that was not asked for", opNo, x.made, x.n, x.c, (sz)r.index(), (sz)c.index()); Block<B>::set(*c, i->second); } });
    if (o == ok) { x.st = built; return true; }
    x.st = broken; return false;
  }
  // an implicit matrix has to be emptied before another build mode can be chosen; true unless it can be chosen right away
  bool plain(Slot& x) {
    if (x.m->buildMode() == M::implicit) { if (x.m->buildStage() != M::notAllocated) *x.m = M(); x.m->setBuildMode(M::unknown); }
    return x.m->buildStage() != M::notAllocated;
  }
  // ---- building
  bool build(int k, bool fresh) {
    Slot& x = s[k]; if (x.m->buildMode() == M::implicit && x.m->buildStage() == M::building) fresh = true;
    sz n = g.chance(60) ? 0 : g.range(1, 6), m = g.chance(60) ? 0 : g.range(1, 6);
    std::vector<std::set<sz>> pat(n); sz total = 0;
    int dens = (int)g.range(0, 100);
    for (auto& r : pat) { for (sz j = 0; j < m; ++j) if (g.below(100) < dens) r.insert(j); if (g.chance(150)) r.clear(); total += r.size(); }
    if (n && m && g.chance(300)) { // diagonal heavy ones, so that matrices can be combined
      sz q = std::min(n, m); for (sz i = 0; i < q; ++i) if (pat[i].insert(i).second) ++total;
    }
    int kind = (int)g.below(6); x.st = broken; x.n = n; x.c = m; x.e.clear(); x.made = "?";
    for (sz i = 0; i < n; ++i) for (sz j : pat[i]) x.e[{i, j}] = Val{0, 0, 0, 0};
    std::string why;
    if (kind == 0 || kind == 1) {         // random order
      x.made = kind ? "random, setIndices" : "random, addindex";
      std::vector<sz> size(n), extra(n, 0); sz tot = 0, wasted = 0;
      bool waste = kind == 0 && g.chance(350);
      for (sz i = 0; i < n; ++i) { if (waste && g.chance(500)) { extra[i] = g.range(1, 3); wasted += extra[i]; } size[i] = pat[i].size() + extra[i]; tot += size[i]; }
      sz nnz = 0; int how = (int)g.below(4); if (how == 1) nnz = tot; else if (how == 2) nnz = tot + g.range(1, 5); else if (how == 3 && tot > 1 && g.chance(300)) nnz = tot - 1;
      bool tooFew = nnz && nnz < tot, give = g.chance(60);
      if (waste && wasted) x.made = "random with unused space"; else if (how == 2) x.made = "random with more space than needed";
      Outcome o = attempt([&] {
        if (fresh) { x.m = nnz ? std::make_unique<M>(n, m, nnz, M::random) : std::make_unique<M>(n, m, M::random); }
        else if (plain(x) || g.chance(300)) { x.m->setSize(n, m, nnz); x.m->setBuildMode(M::random); }
        else { x.m->setBuildMode(M::random); x.m->setSize(n, m, nnz); } }, &why);
      if (o == ok) o = attempt([&] {
        for (sz i = 0; i < n; ++i) { if (g.chance(500)) x.m->setrowsize(i, size[i]); else { x.m->setrowsize(i, 0); for (sz q = 0; q < size[i]; ++q) x.m->incrementrowsize(i); } }
        if (!give) x.m->endrowsizes(); }, &why);
      if (give && o == ok) { sim_probe("abandoned before the row sizes end"); return false; }
      if (tooFew) { if (o == ok) sim_violation("accepted-misuse", "operation %ld: %zu entries fit into space for %zu", opNo, tot, nnz); if (o == refused) sim_probe("row sizes exceed the given space"); return false; }
      if (o == nomem) return false;
      if (o != ok) sim_violation("refused", "operation %ld: building a matrix (%s) failed: %s", opNo, x.made, why.c_str());
      if (kind == 0) {
        std::vector<std::pair<sz, sz>> es; for (auto& p : x.e) { es.push_back(p.first); if (g.chance(200)) es.push_back(p.first); }
        g.shuffle(es);
        for (auto& p : es) {
          o = attempt([&] { x.m->addindex(p.first, p.second); }, &why);
          if (o == nomem) sim_violation("allocation", "operation %ld: addindex allocates", opNo);
          if (o != ok) sim_violation("refused", "operation %ld: adding the index (%zu,%zu) to a row of size %zu failed: %s", opNo, p.first, p.second, size[p.first], why.c_str());
        }
        if (n && g.chance(300)) { // wrong use has to be refused and to change nothing
          sz i = g.below(n); bool full = !extra[i];
          for (sz j = 0; j <= m; ++j) if (j == m || (full && !pat[i].count(j))) {
            o = attempt([&] { x.m->addindex(i, j); }, &why);
            if (o == ok) sim_violation("accepted-misuse", "operation %ld: the index (%zu,%zu) was added to a %s", opNo, i, j, j == m ? "matrix with fewer columns" : "row that is full");
            sim_probe("index refused"); break;
          }
        }
      } else for (sz i = 0; i < n; ++i) {
        std::vector<sz> v(pat[i].begin(), pat[i].end()); bool sorted = g.chance(400);
        if (!sorted) g.shuffle(v);
        o = attempt([&] { if (sorted) x.m->setIndicesNoSort(i, v.begin(), v.end()); else x.m->setIndices(i, v.begin(), v.end()); }, &why);
        if (o != ok) sim_violation("refused", "operation %ld: setting all indices of a row failed: %s", opNo, why.c_str());
      }
      if (g.chance(60)) { sim_probe("abandoned while building"); return false; }
      o = attempt([&] { x.m->endindices(); }, &why);
      if (o == nomem) return false;
      if (o != ok) sim_violation("refused", "operation %ld: building a matrix (%s) failed: %s", opNo, x.made, why.c_str());
    } else if (kind == 2 || kind == 3) {  // row by row
      sz nnz = 0; if (kind == 3) nnz = total + (g.chance(400) ? g.range(1, 4) : 0);
      bool tooFew = kind == 3 && total > 1 && g.chance(150); if (tooFew) nnz = total - g.range(1, (long)total - 1);
      x.made = kind == 2 ? "row by row" : nnz > total ? "row by row with more space than needed" : "row by row in given space";
      Outcome o = attempt([&] {
        if (fresh) x.m = nnz ? std::make_unique<M>(n, m, nnz, M::row_wise) : std::make_unique<M>(n, m, M::row_wise);
        else if (plain(x) || g.chance(300)) { x.m->setSize(n, m, nnz); x.m->setBuildMode(M::row_wise); }
        else { x.m->setBuildMode(M::row_wise); x.m->setSize(n, m, nnz); }
      }, &why);
      if (o == nomem) return false;
      if (o != ok) sim_violation("refused", "operation %ld: building a matrix (%s) failed: %s", opNo, x.made, why.c_str());
      bool stop = g.chance(60); sz stopAt = n ? g.below(n) : 0;
      o = attempt([&] {
        auto end = x.m->createend();
        for (auto it = x.m->createbegin(); it != end; ++it) {
          if (stop && it.index() == stopAt) return;
          std::vector<sz> v(pat[it.index()].begin(), pat[it.index()].end()); Rng h(it.index() + 7 * opNo); h.shuffle(v);
          for (sz j : v) { it.insert(j); if (h.chance(200)) it.insert(j); }
          for (sz j = 0; j < m; ++j) if (it.contains(j) != (pat[it.index()].count(j) != 0)) sim_violation("wrong-pattern", "operation %ld: the create iterator does not know its columns", opNo);
        }
      }, &why);
      if (stop && n && o == ok) { sim_probe("abandoned while building"); return false; }
      if (tooFew) { if (o == ok && !(stop && n)) sim_violation("accepted-misuse", "operation %ld: %zu entries fit into space for %zu", opNo, total, nnz); if (o == refused) sim_probe("row by row exceeds the given space"); return false; }
      if (o == nomem) return false;
      if (o != ok) sim_violation("refused", "operation %ld: building a matrix (%s) failed: %s", opNo, x.made, why.c_str());
    } else if (kind == 4) {               // implicit
      x.made = "implicit";
      sz avg = g.below(5); double frac = g.below(4) * 0.25; if (g.chance(300)) avg = n ? (total + n - 1) / n : 0;
      Outcome o = attempt([&] {
        if (fresh) x.m = std::make_unique<M>(n, m, avg, frac, M::implicit);
        else { if (x.m->buildStage() != M::notAllocated) { if (g.chance(500) || x.m->buildStage() != M::built) x.m = std::make_unique<M>(); else *x.m = M(); }
          if (x.m->buildStage() != M::notAllocated) x.m = std::make_unique<M>();
          if (g.chance(300)) { // the parameters come from a copy of another matrix without size
            M q; q.setBuildMode(M::implicit); q.setImplicitBuildModeParameters(avg, frac); sim_probe("parameters from a copy"); if (g.below(2)) x.m = std::make_unique<M>(q); else *x.m = q; }
          else { x.m->setBuildMode(M::implicit); x.m->setImplicitBuildModeParameters(avg, frac); }
          x.m->setSize(n, m); }
      }, &why);
      if (o == nomem) return false;
      if (o != ok) sim_violation("refused", "operation %ld: building a matrix (implicit) failed: %s", opNo, why.c_str());
      bool again = g.chance(200);          // abandon once and start over with the same parameters
      for (int round = 0; round < (again ? 2 : 1); ++round) {
        if (round) { sim_probe("implicit matrix resized while building");
          if (g.chance(500)) { sz n2 = g.range(0, (long)n), m2 = g.range(0, (long)m); for (auto i = x.e.begin(); i != x.e.end();) if (i->first.first >= n2 || i->first.second >= m2) i = x.e.erase(i); else ++i; x.n = n = n2; x.c = m = m2; for (auto& r : pat) for (auto i = r.begin(); i != r.end();) if (*i >= m2) i = r.erase(i); else ++i; pat.resize(n2); total = x.e.size(); }
          o = attempt([&] { x.m->setSize(n, m); }, &why); if (o == nomem) return false; if (o != ok) sim_violation("refused", "operation %ld: changing the size of an implicit matrix failed: %s", opNo, why.c_str()); }
        std::vector<std::pair<sz, sz>> es; for (auto& p : x.e) { es.push_back(p.first); if (g.chance(200)) es.push_back(p.first); }
        g.shuffle(es);
        std::set<std::pair<sz, sz>> seen; std::vector<sz> have(n, 0); sz over = 0;
        for (auto& p : x.e) p.second = Val{0, 0, 0, 0};
        for (auto& p : es) {
          Val& want = x.e[p]; bool first = seen.insert(p).second;
          if (first) { if (have[p.first] < avg) ++have[p.first]; else ++over; }
          Val now{0, 0, 0, 0}, nv = randVal<B>(g); bool read = !first;
          o = attempt([&] { B& b = x.m->entry(p.first, p.second); if (read) now = Block<B>::get(b); Block<B>::set(b, nv); }, &why);
          if (o == nomem) return false;
          if (o != ok) sim_violation("refused", "operation %ld: entry(%zu,%zu) failed: %s", opNo, p.first, p.second, why.c_str());
          if (read) for (int q = 0; q < C; ++q) WL_CHECK(same(now[q], want[q]), "wrong-value", "operation %ld: entry(%zu,%zu)[%d] of a matrix under construction is %g instead of %g", opNo, p.first, p.second, q, now[q], want[q]);
          want = nv;
        }
        if (round == 0 && again) continue;
        if (g.chance(60)) { sim_probe("abandoned while building"); return false; }
        Dune::CompressionStatistics<sz> st{};
        o = attempt([&] { auto q = x.m->compress(); st.avg = q.avg; st.maximum = q.maximum; st.overflow_total = q.overflow_total; st.mem_ratio = q.mem_ratio; }, &why);
        sz room = (sz)((sz)(n * avg) * frac) + 4 * avg;
        if (o == nomem) return false;
        if (o == exhausted) { sim_probe("compression buffer exhausted"); if (over + avg <= room) sim_violation("refused", "operation %ld: compress() ran out of space although only %zu entries exceed %zu per row and there is space for %zu", opNo, over, avg, room); return false; }
        if (o != ok) sim_violation("refused", "operation %ld: compress() failed: %s", opNo, why.c_str());
        sz mx = 0; for (auto& r : pat) mx = std::max(mx, r.size());
        WL_CHECK(st.overflow_total == over && st.maximum == mx && (n == 0 || same(st.avg, (double)total / (double)n)), "wrong-statistics", "operation %ld: compress() reports maximum %zu, overflow %zu, average %g instead of %zu, %zu, %g", opNo, (sz)st.maximum, (sz)st.overflow_total, st.avg, mx, over, n ? (double)total / (double)n : 0.);
      }
      x.st = built;
      if (over_(x)) sim_probe("implicit");
      return true;
    } else {                              // through an index set
      x.made = "index set";
      std::optional<Dune::MatrixIndexSet> is; sz maxv = g.chance(500) ? 2048 : g.below(4);
      Outcome o = attempt([&] { if (g.chance(500)) is.emplace(n, m, maxv); else { is.emplace(maxv); is->resize(n, m); } }, &why);
      if (o == nomem) return false;
      if (o != ok) sim_violation("refused", "operation %ld: making an index set failed: %s", opNo, why.c_str());
      std::vector<std::pair<sz, sz>> es; for (auto& p : x.e) { es.push_back(p.first); if (g.chance(200)) es.push_back(p.first); }
      g.shuffle(es);
      for (auto& p : es) { o = attempt([&] { is->add(p.first, p.second); }, &why); if (o == nomem) { arming = false; o = attempt([&] { is->add(p.first, p.second); }, &why); arming = true; } if (o != ok) sim_violation("refused", "operation %ld: adding an index failed: %s", opNo, why.c_str()); }
      WL_CHECK((sz)is->size() == total && (sz)is->rows() == n && (sz)is->cols() == m, "wrong-index-set", "operation %ld: an index set with %zu entries says that it has %zu", opNo, total, (sz)is->size());
      for (sz i = 0; i < n; ++i) WL_CHECK((sz)is->rowsize(i) == pat[i].size(), "wrong-index-set", "operation %ld: a row of an index set has %zu instead of %zu entries", opNo, (sz)is->rowsize(i), pat[i].size());
      o = attempt([&] {
        if (fresh) x.m = std::make_unique<M>();
        else plain(x);
        is->exportIdx(*x.m); }, &why);
      if (o == nomem) return false;
      if (o != ok) sim_violation("refused", "operation %ld: exporting an index set failed: %s", opNo, why.c_str());
    }
    return fill(x);
  }
  bool over_(Slot&) { return true; }
  // make a broken object usable again the way a user would
  void repair(int k) {
    Slot& x = s[k]; arming = false;
    if (x.m && x.m->buildStage() == M::built) { // whoever calls itself built has entries that can be used
      sim_probe("built after a failure"); for (auto r = x.m->begin(); r != x.m->end(); ++r) for (auto c = r->begin(); c != r->end(); ++c) { if (c.index() >= x.m->M()) sim_violation("wrong-pattern", "operation %ld: after a failed operation a built matrix has an entry in column %zu of %zu", opNo, (sz)c.index(), (sz)x.m->M()); B copy = *c; (void)copy; }
    }
    bool busy = x.m && x.m->buildStage() == M::building; if (x.m && x.m->buildStage() == M::rowSizesBuilt) busy = true;
    int how = (int)g.below(3); Outcome o = ok; std::string why;
    if (!x.m) { x.m = std::make_unique<M>(); x.st = empty; x.e.clear(); x.n = x.c = 0; x.made = "new"; }
    else if (how == 0) { x.m.reset(); sim_alloc_check(); x.m = std::make_unique<M>(); x.st = empty; x.e.clear(); x.n = x.c = 0; x.made = "new"; sim_probe("repaired by destruction"); }
    else if (how == 1 && !busy) {
      int f = -1; for (int q = 0; q < S; ++q) if (q != k && s[q].st == built) f = q;
      if (f >= 0) { o = attempt([&] { *x.m = *s[f].m; }, &why); if (o != ok) sim_violation("refused", "operation %ld: a matrix cannot be assigned to one whose last operation failed: %s", opNo, why.c_str()); x.st = built; x.n = s[f].n; x.c = s[f].c; x.e = s[f].e; x.made = "assigned to after a failure"; sim_probe("repaired by assignment"); }
      else { x.m = std::make_unique<M>(); x.st = empty; x.e.clear(); x.n = x.c = 0; x.made = "new"; }
    } else {
      if (build(k, false)) sim_probe("repaired by building again"); else { x.m = std::make_unique<M>(); x.st = empty; x.e.clear(); x.n = x.c = 0; x.made = "new"; }
    }
    arming = true;
  }
  bool subset(Slot& a, Slot& b) { if (a.n != b.n || a.c != b.c) return false; for (auto& p : a.e) if (!b.e.count(p.first)) return false; return true; }
  typedef std::conditional_t<D == 2, Dune::FieldVector<double, 2>, double> VB;
  typedef Dune::BlockVector<VB> V;
  static double& comp(V& v, sz i, int q) { if constexpr (D == 2) return v[i][q]; else return v[i]; }

  void products(int k) {
    if constexpr (D == 0) return; else {
      Slot& x = s[k]; const M& A = *x.m; int op = (int)g.below(7); bool tr = op >= 4; double a = (double)g.range(-3, 3);
      sz nx = tr ? x.n : x.c, ny = tr ? x.c : x.n; V vx(nx), vy(ny); std::vector<double> X(nx * D), Y(ny * D);
      for (sz i = 0; i < nx; ++i) for (int q = 0; q < D; ++q) comp(vx, i, q) = X[i * D + q] = (double)g.range(-5, 5);
      for (sz i = 0; i < ny; ++i) for (int q = 0; q < D; ++q) comp(vy, i, q) = Y[i * D + q] = (double)g.range(-5, 5);
      static const char* nm[] = {"mv", "umv", "mmv", "usmv", "mtv", "umtv", "usmtv"};
      double f = op == 2 ? -1 : op == 3 || op == 6 ? a : 1; if (op == 0 || op == 4) std::fill(Y.begin(), Y.end(), 0.);
      for (auto& p : x.e) for (int r = 0; r < D; ++r) for (int c = 0; c < D; ++c) {
        double v = p.second[r * D + c]; if (tr) Y[p.first.second * D + c] += f * v * X[p.first.first * D + r]; else Y[p.first.first * D + r] += f * v * X[p.first.second * D + c]; }
      Outcome o = attempt([&] { switch (op) { case 0: A.mv(vx, vy); break; case 1: A.umv(vx, vy); break; case 2: A.mmv(vx, vy); break; case 3: A.usmv(a, vx, vy); break; case 4: A.mtv(vx, vy); break; case 5: A.umtv(vx, vy); break; default: A.usmtv(a, vx, vy); } });
      if (o == nomem) return;
      WL_CHECK(o == ok, "refused", "operation %ld: %s of a built matrix failed", opNo, nm[op]);
      for (sz i = 0; i < ny; ++i) for (int q = 0; q < D; ++q) WL_CHECK(same(comp(vy, i, q), Y[i * D + q]), "wrong-product", "operation %ld: %s with a %zu x %zu matrix (%s) gives %g instead of %g in row %zu", opNo, nm[op], x.n, x.c, x.made, comp(vy, i, q), Y[i * D + q], i);
    }
  }
  void step() {
    unsigned what = sim_decide("operation", 15, 960); if (!what) return;
    g = dataRng(41 + 1000 * (u64)opNo);
    int k = (int)g.below(S), f = (int)g.below(S); Slot& x = s[k]; Slot& y = s[f]; const char* name = "?"; Outcome o = ok; std::string why;
    bool xsane = x.st != broken, ysane = y.st != broken;
    switch (what - 1) {
    case 0: case 1: case 2: name = "building"; if (!build(k, g.chance(400))) x.st = broken; break;
    case 3: case 4: // copy construction
      if (!ysane || k == f) return; name = "copy construction"; { std::unique_ptr<M> t; o = attempt([&] { t = std::make_unique<M>(*y.m); }, &why);
        if (o == nomem) break; WL_CHECK(o == ok, "refused", "operation %ld: copying a matrix (%s) failed: %s", opNo, y.made, why.c_str());
        x.m = std::move(t); x.st = y.st; x.n = y.n; x.c = y.c; x.e = y.e; x.made = "copy"; } break;
    case 5: case 6: // assignment (also to itself)
      if (!ysane || !xsane) return; name = "assignment"; o = attempt([&] { *x.m = *y.m; }, &why);
      if (o == nomem) { if (k == f) sim_violation("allocation", "self assignment allocates"); x.st = broken; break; }
      WL_CHECK(o == ok, "refused", "operation %ld: assigning a matrix (%s) to another (%s) failed: %s", opNo, y.made, x.made, why.c_str());
      if (k != f) { x.st = y.st; x.n = y.n; x.c = y.c; x.e = y.e; x.made = "assigned"; } break;
    case 7: // scaling
      if (x.st != built) return; { double a = (double)(1 << g.below(3)); int op = (int)g.below(3); name = op == 0 ? "scaling" : op == 1 ? "division" : "scalar assignment";
        o = attempt([&] { if (op == 0) *x.m *= a; else if (op == 1) *x.m /= a; else *x.m = a; }, &why);
        if (o == nomem) { x.st = broken; break; }
        WL_CHECK(o == ok, "refused", "operation %ld: %s failed: %s", opNo, name, why.c_str());
        for (auto& p : x.e) for (int q = 0; q < C; ++q) if (op == 0) p.second[q] *= a; else if (op == 1) p.second[q] /= a; else p.second[q] = C == 4 && (q == 1 || q == 2) ? a : a;
      } break;
    case 8: case 9: // sums
      if (x.st != built || y.st != built || k == f || !subset(y, x)) return; { int op = (int)g.below(3); double a = (double)g.range(-3, 3); if (x.e.size() != y.e.size()) sim_probe("sum with a smaller pattern");
        name = op == 0 ? "addition" : op == 1 ? "subtraction" : "axpy";
        o = attempt([&] { if (op == 0) *x.m += *y.m; else if (op == 1) *x.m -= *y.m; else if constexpr (D != 0) x.m->axpy(a, *y.m); else *x.m += *y.m; }, &why);
        if (o == nomem) { x.st = broken; break; }
        WL_CHECK(o == ok, "refused", "operation %ld: %s failed: %s", opNo, name, why.c_str());
        for (auto& p : y.e) for (int q = 0; q < C; ++q) x.e[p.first][q] += (op == 0 ? 1 : op == 1 ? -1 : D ? a : 1) * p.second[q]; sim_probe("sums"); } break;
    case 10: if (x.st != built) return; name = "a product"; products(k); break;
    case 11: // single entries
      if (x.st != built || x.e.empty()) return; name = "changing an entry"; { auto i = x.e.begin(); std::advance(i, g.below(x.e.size())); Val v = randVal<B>(g);
        o = attempt([&] { Block<B>::set((*x.m)[i->first.first][i->first.second], v); }); if (o == ok) i->second = v; else x.st = broken; 
        for (sz r = 0; r < x.n; ++r) for (sz c = 0; c < x.c; ++c) WL_CHECK(x.m->exists(r, c) == (x.e.count({r, c}) != 0), "wrong-pattern", "operation %ld: exists(%zu,%zu) is wrong for a matrix (%s)", opNo, r, c, x.made); } break;
    case 12: // swap
      if (!xsane || !ysane || k == f) return; name = "swap"; o = attempt([&] { using std::swap; swap(*x.m, *y.m); }, &why);
      if (o == nomem) { // either may have been left without a value
        x.st = y.st = broken; break; }
      WL_CHECK(o == ok, "refused", "operation %ld: swapping matrices failed: %s", opNo, why.c_str());
      std::swap(x.st, y.st); std::swap(x.n, y.n); std::swap(x.c, y.c); std::swap(x.e, y.e); std::swap(x.made, y.made); break;
    default: name = "destruction"; { x.m.reset(); x.m = std::make_unique<M>(); x.st = empty; x.n = x.c = 0; x.e.clear(); x.made = "new"; } break;
    }
    if (o == nomem) sim_probe("operation out of memory");
    verifyAll(name);
    for (int q = 0; q < S; ++q) if (s[q].st == broken) { repair(q); verifyAll("the repair"); }
  }
};
template <class B> static void history() {
  int n = P("steps", 1, 24);
  sim_alloc_mark();
  {
    Hist<B> h(41);
    for (opNo = 1; opNo <= n; ++opNo) h.step();
  }
  sim_alloc_check();
  if (sim_alloc_live_blocks()) { char b[400]; sim_alloc_describe(b, sizeof b); sim_violation("leak", "%lld blocks of memory were not released after all objects were destroyed: %s", sim_alloc_live_blocks(), b); }
  sim_alloc_unmark();
}
static void run() {
  Dune::dwarn.push(false);
  switch (P("block", 0, 2)) { case 0: history<double>(); break; case 1: history<Dune::FieldMatrix<double, 2, 2>>(); break; default: history<Dyn>(); }
  Dune::dwarn.pop();
}
static void runHistory() { faulty = false; run(); }
static void runNoMemory() { faulty = true; run(); }
WL_TABLE({"matrix_history", SIM_SINGLE, 1, 1, nullptr, runHistory, nullptr, 0},
         {"matrix_memory", SIM_SINGLE, 1, 1, nullptr, runNoMemory, nullptr, 0})
