// Description of a multigrid hierarchy on one rank, shared by the multigrid workloads.
#ifndef WL_HIER_HH
#define WL_HIER_HH
#include "par.hh"
#include <dune/istl/schwarz.hh>
#include <dune/istl/preconditioners.hh>
#include <dune/istl/paamg/amg.hh>
#include <dune/istl/paamg/pinfo.hh>
namespace wl {
typedef Dune::OwnerOverlapCopyCommunication<long, int> C;
// everything one rank knows about one level (of one of its two distributions)
struct Lev {
  int present = 0, csize = 0, n = 0, nset = 0; std::vector<long> gid, att, old, agg; std::vector<double> ent; // ent: i j values...
  std::vector<double> pack() const { std::vector<double> v{(double)present, (double)csize, (double)n, (double)nset, (double)gid.size(), (double)agg.size(), (double)ent.size()}; auto add = [&](const std::vector<long>& x) { for (long k : x) v.push_back((double)k); }; add(gid); add(att); add(old); add(agg); v.insert(v.end(), ent.begin(), ent.end()); return v; }
  static Lev unpack(const std::vector<double>& v) { Lev l; if (v.size() < 7) return l; l.present = v[0]; l.csize = v[1]; l.n = v[2]; l.nset = v[3]; size_t g = v[4], a = v[5], e = v[6], o = 7; auto get = [&](std::vector<long>& x, size_t k) { x.resize(k); for (auto& y : x) y = (long)v[o++]; }; get(l.gid, g); get(l.att, g); get(l.old, g); get(l.agg, a); l.ent.assign(v.begin() + o, v.begin() + o + e); return l; }
};
inline std::string key(const char* p, int pass, int l) { return std::string(p) + std::to_string(pass) + "." + std::to_string(l); }
template <class Mat, class I> Lev describe(const Mat& m, const I& info) {
  Lev l; l.present = 1; l.csize = info.communicator().size(); l.n = (int)m.N(); l.gid.assign(l.n, -1); l.att.assign(l.n, 0); l.old.assign(l.n, -1);
  WL_CHECK(m.N() == m.M(), "level-matrix", "a level matrix is %zu x %zu", m.N(), m.M());
  for (auto& p : info.indexSet()) { size_t k = p.local().local(); l.nset++; WL_CHECK(k < m.N(), "index-out-of-range", "local index %zu of global id %ld on a level with %zu rows", k, (long)p.global(), m.N()); WL_CHECK(l.gid[k] < 0, "index-duplicate", "local index %zu belongs to the global ids %ld and %ld", k, l.gid[k], (long)p.global()); l.gid[k] = p.global(); l.att[k] = p.local().attribute(); }
  typedef typename Mat::block_type B; constexpr int b = B::rows;
  for (auto r = m.begin(); r != m.end(); ++r) for (auto c = r->begin(); c != r->end(); ++c) { l.ent.push_back(r.index()); l.ent.push_back(c.index()); for (int i = 0; i < b; ++i) for (int j = 0; j < b; ++j) l.ent.push_back((*c)[i][j]); }
  return l;
}
// the remote index lists of a rank describe exactly what the other ranks hold: checked by an exchange
template <class I, class V> void checkExchange(const I& info, int n, const char* where, int lev) {
  V x(n), y(n); std::vector<char> in(n, 0); 
  for (auto& p : info.indexSet()) { int k = (int)p.local().local(); in[k] = 1; for (auto& e : x[k]) e = p.local().attribute() == Att::owner ? 3.0 * (double)(long)p.global() + 1 : -5; }
  info.copyOwnerToAll(x, y);
  for (auto& p : info.indexSet()) { int k = (int)p.local().local(); double want = 3.0 * (double)(long)p.global() + 1; double have = p.local().attribute() == Att::owner ? x[k][0] : y[k][0]; WL_CHECK(have == want, "level-exchange", "%s of level %d: the entry with global id %ld received %g instead of the value %g of its owner", where, lev, (long)p.global(), have, want); }
}
template <class V, class H> void dump(H& h, int pass, bool fresh) {
    auto info = h.parallelInformation().finest(); auto agg = h.aggregatesMaps().begin(); auto ri = h.redistributeInformation().begin(); int l = 0;
    auto mat = h.matrices().finest();
    for (int nl = (int)h.levels(); l < nl; ++l, ++info, ++mat, ++agg, ++ri) {
      Lev d = describe(mat->getmat(), *info);
      if (fresh) checkExchange<C, V>(*info, d.n, "the original distribution", l);
      const C* inner = &*info; Lev dr;
      if (mat.isRedistributed()) {
        WL_CHECK(ri->isSetup() && info.isRedistributed(), "redistribution-inconsistent", "level %d has a redistributed matrix but no redistributed index set", l);
        sim_probe("redistributed-level");
        V from(d.n), to(mat.getRedistributed().getmat().N()); for (auto& e : to) e = -1; for (int i = 0; i < d.n; ++i) from[i] = i;
        // carry rank and local index of the origin
        V from2(d.n); for (auto& e : from2) e = sim_rank(); V to2(to.size()); for (auto& e : to2) e = -1;
        ri->redistribute(from, to); ri->redistribute(from2, to2);
        dr = describe(mat.getRedistributed().getmat(), info.getRedistributed()); inner = &info.getRedistributed();
        if (d.csize > 1 && info.getRedistributed().communicator().size() > 0 && fresh) checkExchange<C, V>(info.getRedistributed(), dr.n, "the redistributed version", l);
        // backward transport returns every value to the origin
        V back(d.n); for (auto& e : back) e = -1; ri->redistributeBackward(back, to);
        if (fresh) { info->copyOwnerToAll(back, back); for (int i = 0; i < d.n; ++i) if (d.att[i] == OWNER) WL_CHECK(back[i][0] == i, "redistribute-roundtrip", "level %d: local value %d came back as %g", l, i, back[i][0]); }
        for (int i = 0; i < dr.n; ++i) if (dr.att[i] == OWNER) dr.old[i] = (long)to2[i][0] * 1000000 + (long)to[i][0];
      } else WL_CHECK(!ri->isSetup() && !info.isRedistributed(), "redistribution-inconsistent", "level %d has redistribution information but no redistributed matrix", l);
      if (l + 1 < nl) { WL_CHECK((int)(*agg)->noVertices() == (mat.isRedistributed() ? dr.n : d.n), "aggregates-size", "level %d: the aggregates map covers %d vertices, the matrix has %d", l, (int)(*agg)->noVertices(), mat.isRedistributed() ? dr.n : d.n);
        Lev& t = mat.isRedistributed() ? dr : d; for (size_t i = 0; i < (*agg)->noVertices(); ++i) { auto a = (**agg)[i]; typedef std::decay_t<decltype(**agg)> AM; t.agg.push_back(a == AM::ISOLATED ? -2 : a == AM::UNAGGREGATED ? -1 : (long)a); } }
      (void)inner;
      putv(key("D", pass, l).c_str(), d.pack()); putv(key("R", pass, l).c_str(), dr.pack());
    }
    std::vector<double> s{(double)h.levels(), (double)h.maxlevels()}; putv(key("S", pass, 0).c_str(), s);
  }
}
#endif
