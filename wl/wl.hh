// Support code for workloads. Compiled together with the real dune-istl headers of /repo.
#ifndef WL_HH
#define WL_HH
#include <config.h>
#include "../sim/api.h"
#include "../sim/workload.h"
#include <algorithm>
#include <array>
#include <cmath>
#include <complex>
#include <cstdarg>
#include <cstdint>
#include <cstring>
#include <map>
#include <memory>
#include <numeric>
#include <set>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

namespace wl {
typedef uint64_t u64;
struct Rng {
  u64 s;
  explicit Rng(u64 seed) : s(seed * 0x9e3779b97f4a7c15ull + 0x1234567) { next(); }
  u64 next() { s += 0x9e3779b97f4a7c15ull; u64 z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
  long below(long n) { return n <= 1 ? 0 : (long)(next() % (u64)n); }
  long range(long lo, long hi) { return lo + below(hi - lo + 1); }
  bool chance(int permille) { return below(1000) < permille; }
  double unit() { return (double)(next() >> 11) * (1.0 / 9007199254740992.0); }
  double sym() { return 2 * unit() - 1; }
  template <class V> void shuffle(V& v) { for (long i = (long)v.size() - 1; i > 0; --i) std::swap(v[i], v[below(i + 1)]); }
};
inline Rng dataRng(u64 salt) { return Rng((u64)sim_seed() ^ (salt * 0x2545F4914F6CDD1Dull)); }
inline int P(const char* n, int lo, int hi) { return (int)sim_param(n, lo, hi); }

#define WL_CHECK(cond, kind, ...) do { if (!(cond)) sim_violation(kind, __VA_ARGS__); } while (0)
// bit-level equality that treats any NaN as equal to any NaN (never used where NaN would be wrong) and -0 == 0
inline bool same(double a, double b) { return a == b || (a != a && b != b); }

// every task publishes a value; the post-run check compares
template <class T> void put(const char* key, const T& v) { sim_put(key, &v, sizeof v); }
template <class T> void putv(const char* key, const std::vector<T>& v) { sim_put(key, v.data(), v.size() * sizeof(T)); }
template <class T> bool get(const char* key, int r, T& v) { size_t n; const void* p = sim_get(key, r, &n); if (!p || n != sizeof v) return false; memcpy(&v, p, n); return true; }
template <class T> std::vector<T> getv(const char* key, int r) { size_t n; const void* p = sim_get(key, r, &n); std::vector<T> v(n / sizeof(T)); if (n) memcpy(v.data(), p, n); return v; }
inline bool has(const char* key, int r) { size_t n; return sim_get(key, r, &n) != nullptr; }
inline void hash(double d) { sim_hash(&d, sizeof d); }

#define WL_TABLE(...) \
  extern "C" __attribute__((visibility("default"))) const SimWorkload* sim_workloads(int* n) { static const SimWorkload t[] = {__VA_ARGS__}; *n = (int)(sizeof t / sizeof t[0]); return t; }
}
#endif
