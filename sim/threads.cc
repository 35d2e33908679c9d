// Simulated shared-memory threads: runtime for code compiled with -fsanitize=thread (instrumentation only,
// the real ThreadSanitizer runtime is not linked). Every instrumented access is a potential preemption point
// chosen by the simulator, and a vector-clock detector reports unsynchronised conflicting accesses.
#include "threads.hh"
#include <cxxabi.h>
#include <dlfcn.h>
#include <link.h>
#include <unordered_map>
#include <sys/mman.h>
#include <sys/single_threaded.h>

namespace sim {
bool threadsActive = false;
namespace {
constexpr int MT = 8;
struct VC { u32 c[MT] = {0}; };
inline void join(VC& a, const VC& b) { for (int i = 0; i < MT; ++i) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }
VC clk[MT]; int nThreads = 0;
struct Rec { u32 epoch; unsigned char mask; unsigned char tid, write, atomic; void* pc; };
struct Cell { Rec r[2 * MT]; unsigned char n; };
// open-addressing shadow map, keyed by 8-byte granule
constexpr size_t SH = 1u << 20;
struct Slot { u64 g; u32 idx; };
Slot* sh = nullptr; std::vector<Cell>* cells = nullptr; size_t nUsed = 0;
std::unordered_map<const void*, VC>* syncs = nullptr;
struct Mtx { int owner = -1; int depth = 0; VC vc; };
std::unordered_map<const void*, Mtx>* mtx = nullptr;
std::unordered_map<const void*, int>* guards = nullptr; // 1 in progress
thread_local long long quantum = -1; thread_local int inRt = 0;
u64 totalAccesses = 0;

inline int tid() { return tls_task ? tls_task->id : -1; }
inline bool act() { return threadsActive && tls_task && !inRt; }

Cell* cell(u64 g, bool create) {
  for (size_t i = (size_t)(mix64(g) & (SH - 1));; i = (i + 1) & (SH - 1)) {
    if (sh[i].g == g) return &(*cells)[sh[i].idx];
    if (!sh[i].g) {
      if (!create) return nullptr;
      if (++nUsed > SH * 3 / 4) E->skip("shadow memory full");
      sh[i].g = g; sh[i].idx = (u32)cells->size(); cells->push_back(Cell{}); return &cells->back();
    }
  }
}
std::string where(void* pc) {
  Dl_info di; if (!dladdr(pc, &di)) return "?";
  std::string s; 
  if (di.dli_sname) { int st; char* d = abi::__cxa_demangle(di.dli_sname, nullptr, nullptr, &st); s = d ? d : di.dli_sname; free(d); } else s = "(static function)";
  if (s.size() > 600) s = s.substr(0, 600) + "...";
  char b[64]; snprintf(b, sizeof b, " [+0x%llx]", (unsigned long long)((char*)pc - (char*)di.dli_fbase)); return s + b;
}
void race(const Rec& o, bool write, bool atomic, void* pc, u64 addr) {
  ++inRt;
  E->violation("data-race", "thread %d: %s%s in %s\n  conflicts without any happens-before order with an earlier %s%s of thread %d in %s\n  (address offset within granule %llu)", tid(), atomic ? "atomic " : "", write ? "write" : "read", where(pc).c_str(), o.atomic ? "atomic " : "", o.write ? "write" : "read", (int)o.tid, where(o.pc).c_str(), (unsigned long long)(addr & 7));
}
void check(u64 a, size_t n, bool write, bool atomic, void* pc) {
  int t = tid(); VC& c = clk[t];
  while (n) {
    u64 g = a >> 3; unsigned off = a & 7; size_t l = std::min<size_t>(8 - off, n);
    unsigned char m = (unsigned char)(((1u << l) - 1) << off);
    Cell* e = cell(g + 1, true);
    bool stored = false;
    for (int i = 0; i < e->n; ++i) {
      Rec& r = e->r[i];
      if (r.tid == t) { if (r.write == write && r.atomic == atomic) { r.epoch == c.c[t] ? (void)(r.mask |= m) : (void)(r.mask = m | r.mask); r.epoch = c.c[t]; r.pc = pc; stored = true; } continue; }
      if (!(r.mask & m)) continue;
      if (!r.write && !write) continue;
      if (r.atomic && atomic) continue;
      if (r.epoch <= c.c[r.tid]) continue;
      race(r, write, atomic, pc, a);
    }
    if (!stored) {
      if (e->n < 2 * MT) e->r[e->n++] = Rec{c.c[t], m, (unsigned char)t, write, atomic, pc};
      else { // drop records already ordered before us
        int k = 0; for (int i = 0; i < e->n; ++i) if (!(e->r[i].epoch <= c.c[e->r[i].tid])) e->r[k++] = e->r[i];
        e->n = (unsigned char)k; if (e->n < 2 * MT) e->r[e->n++] = Rec{c.c[t], m, (unsigned char)t, write, atomic, pc};
      }
    }
    a += l; n -= l;
  }
}
void drawQuantum() {
  // 0: run until the thread blocks or ends; otherwise preempt after a bounded number of accesses
  static const int q[] = {0, 1, 2, 3, 5, 8, 13, 30, 70, 150, 400, 1000, 3000, 10000, 40000, 100000};
  u32 k = E->choice(16, [&]() -> u32 { return E->rng.below(16); });
  quantum = k ? q[k] : -1;
}
void tick(const char* what) {
  if (quantum < 0) return;
  if (--quantum > 0) return;
  ++inRt; E->yield(what); --inRt; drawQuantum();
}
inline void access(const volatile void* p, size_t n, bool write, void* pc) {
  if (!act()) return;
  ++totalAccesses; E->shm->simns += 1;
  tick(write ? "write" : "read");
  ++inRt; check((u64)p, n, write, false, pc); --inRt;
}
inline void acq(const volatile void* p) { auto it = syncs->find((const void*)p); if (it != syncs->end()) join(clk[tid()], it->second); }
inline void rel(const volatile void* p) { VC& v = (*syncs)[(const void*)p]; join(v, clk[tid()]); clk[tid()].c[tid()]++; }
inline void relStore(const volatile void* p) { (*syncs)[(const void*)p] = clk[tid()]; clk[tid()].c[tid()]++; }
}
void threadsSetup() {
  __libc_single_threaded = 0; // libstdc++ then counts references atomically
  sh = (Slot*)mmap(nullptr, SH * sizeof(Slot), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  cells = new std::vector<Cell>; cells->reserve(1 << 16); syncs = new std::unordered_map<const void*, VC>; mtx = new std::unordered_map<const void*, Mtx>; guards = new std::unordered_map<const void*, int>;
}
void threadsBegin(int n) { nThreads = n; for (int i = 0; i < n; ++i) { clk[i] = VC(); clk[i].c[i] = 1; } threadsActive = true; }
void threadsEnd() { threadsActive = false; char b[64]; (void)b; E->probe("instrumented-accesses", totalAccesses); }
void threadsMalloc(void* p, size_t n) {
  if (!act()) return; ++inRt;
  if (n < (1u << 20)) for (u64 g = (u64)p >> 3; g <= ((u64)p + n - 1) >> 3; ++g) { Cell* c = cell(g + 1, false); if (c) c->n = 0; }
  --inRt;
}
void threadsFree(void* p, size_t n, void* pc) {
  if (!act()) return; ++inRt;
  if (n < (1u << 20)) {
    int t = tid(); VC& c = clk[t];
    for (u64 g = (u64)p >> 3; g <= ((u64)p + n - 1) >> 3; ++g) { Cell* e = cell(g + 1, false); if (!e) continue;
      for (int i = 0; i < e->n; ++i) { Rec& r = e->r[i]; if (r.tid == t || r.epoch <= c.c[r.tid]) continue; race(r, true, false, pc, (u64)p); }
      e->n = 0; }
  }
  --inRt;
}
}
using namespace sim;
#define PC __builtin_return_address(0)
extern "C" {
void sim_thread_begin(void) { drawQuantum(); }
void __tsan_init(void) {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit(void) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
#define RW(n) void __tsan_read##n(void* p) { access(p, n, false, PC); } void __tsan_write##n(void* p) { access(p, n, true, PC); } \
  void __tsan_unaligned_read##n(void* p) { access(p, n, false, PC); } void __tsan_unaligned_write##n(void* p) { access(p, n, true, PC); } \
  void __tsan_volatile_read##n(void* p) { access(p, n, false, PC); } void __tsan_volatile_write##n(void* p) { access(p, n, true, PC); } \
  void __tsan_read_write##n(void* p) { access(p, n, true, PC); } void __tsan_unaligned_read_write##n(void* p) { access(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { access(p, n, false, PC); }
void __tsan_write_range(void* p, unsigned long n) { access(p, n, true, PC); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) access(p, 8, true, PC); }
void __tsan_vptr_read(void** p) { access(p, 8, false, PC); }
void* __tsan_memcpy(void* d, const void* s, unsigned long n) { if (n) { access(s, n, false, PC); access(d, n, true, PC); } return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, unsigned long n) { if (n) { access(s, n, false, PC); access(d, n, true, PC); } return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, unsigned long n) { if (n) access(d, n, true, PC); return memset(d, c, n); }

static void atomicPre(const volatile void* p, size_t n, bool write, void* pc) { if (!act()) return; ++totalAccesses; tick("atomic"); ++inRt; check((u64)p, n, write, true, pc); --inRt; }
enum { relaxed, consume, acquire, release, acq_rel, seq_cst };
static void doAcq(const volatile void* p, int mo) { if (act() && mo != relaxed && mo != release) { ++inRt; acq(p); --inRt; } }
static void doRel(const volatile void* p, int mo, bool store) { if (act()) { ++inRt; if (mo == release || mo == acq_rel || mo == seq_cst) { if (store) relStore(p); else rel(p); } else if (store) syncs->erase((const void*)p); --inRt; } }
#define AT(bits, T) \
  T __tsan_atomic##bits##_load(const volatile T* a, int mo) { atomicPre(a, sizeof(T), false, PC); T v = *a; doAcq(a, mo); return v; } \
  void __tsan_atomic##bits##_store(volatile T* a, T v, int mo) { atomicPre(a, sizeof(T), true, PC); doRel(a, mo, true); *a = v; } \
  T __tsan_atomic##bits##_exchange(volatile T* a, T v, int mo) { atomicPre(a, sizeof(T), true, PC); doAcq(a, mo); doRel(a, mo, false); T o = *a; *a = v; return o; } \
  T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int mo) { atomicPre(a, sizeof(T), true, PC); doAcq(a, mo); doRel(a, mo, false); T o = *a; *a = o + v; return o; } \
  T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int mo) { atomicPre(a, sizeof(T), true, PC); doAcq(a, mo); doRel(a, mo, false); T o = *a; *a = o - v; return o; } \
  T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int mo) { atomicPre(a, sizeof(T), true, PC); doAcq(a, mo); doRel(a, mo, false); T o = *a; *a = o & v; return o; } \
  T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int mo) { atomicPre(a, sizeof(T), true, PC); doAcq(a, mo); doRel(a, mo, false); T o = *a; *a = o | v; return o; } \
  T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int mo) { atomicPre(a, sizeof(T), true, PC); doAcq(a, mo); doRel(a, mo, false); T o = *a; *a = o ^ v; return o; } \
  T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int mo) { atomicPre(a, sizeof(T), true, PC); doAcq(a, mo); doRel(a, mo, false); T o = *a; *a = ~(o & v); return o; } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) { atomicPre(a, sizeof(T), true, PC); T o = *a; if (o == *c) { doAcq(a, mo); doRel(a, mo, false); *a = v; return 1; } doAcq(a, fmo); *c = o; return 0; } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) { atomicPre(a, sizeof(T), true, PC); T o = *a; if (o == *c) { doAcq(a, mo); doRel(a, mo, false); *a = v; return 1; } doAcq(a, fmo); *c = o; return 0; } \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) { atomicPre(a, sizeof(T), true, PC); T o = *a; if (o == c) { doAcq(a, mo); doRel(a, mo, false); *a = v; } else doAcq(a, fmo); return o; }
typedef unsigned char a8; typedef unsigned short a16; typedef unsigned a32; typedef unsigned long a64;
AT(8, a8) AT(16, a16) AT(32, a32) AT(64, a64)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// ---- synchronisation primitives of the code under test
static bool simThread() { return threadsActive && tls_task; }
int __real_lock(pthread_mutex_t*);
typedef int (*mfn)(pthread_mutex_t*);
static mfn realFn(const char* n) { return (mfn)dlsym(RTLD_NEXT, n); }
int pthread_mutex_lock(pthread_mutex_t* m) noexcept {
  if (!simThread()) { static mfn f = realFn("pthread_mutex_lock"); return f(m); }
  if (inRt) return 0;
  ++inRt; E->yield("pthread_mutex_lock"); 
  int t = tid();
  if ((*mtx)[m].owner != t) E->block("pthread_mutex_lock", [m] { return (*mtx)[m].owner < 0; });
  Mtx& x = (*mtx)[m]; x.owner = t; x.depth++; join(clk[t], x.vc); --inRt; return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept {
  if (!simThread()) { static mfn f = realFn("pthread_mutex_trylock"); return f(m); }
  if (inRt) return 0;
  ++inRt; E->yield("pthread_mutex_trylock"); int t = tid(); Mtx& x = (*mtx)[m]; int r = 0;
  if (x.owner >= 0 && x.owner != t) { r = 16; E->pollFail(); } else { x.owner = t; x.depth++; join(clk[t], x.vc); }
  --inRt; return r;
}
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept {
  if (!simThread()) { static mfn f = realFn("pthread_mutex_unlock"); return f(m); }
  if (inRt) return 0;
  ++inRt; int t = tid(); Mtx& x = (*mtx)[m]; if (x.owner == t && --x.depth == 0) { x.vc = clk[t]; clk[t].c[t]++; x.owner = -1; } E->yield("pthread_mutex_unlock"); --inRt; return 0;
}
// function-local statics
typedef int (*gfn)(void*); typedef void (*gvfn)(void*);
int __cxa_guard_acquire(__cxxabiv1::__guard* g) noexcept(false) {
  if (!simThread()) { static gfn f = (gfn)dlsym(RTLD_NEXT, "__cxa_guard_acquire"); return f(g); }
  ++inRt;
  E->block("static initialiser", [g] { return (*guards)[g] == 0; });
  int r = 0; if (!*(volatile char*)g) { (*guards)[g] = 1; r = 1; } acq(g); --inRt; return r;
}
void __cxa_guard_release(__cxxabiv1::__guard* g) noexcept {
  if (!simThread()) { static gvfn f = (gvfn)dlsym(RTLD_NEXT, "__cxa_guard_release"); f(g); return; }
  ++inRt; *(volatile char*)g = 1; (*guards)[g] = 0; rel(g); --inRt;
}
void __cxa_guard_abort(__cxxabiv1::__guard* g) noexcept {
  if (!simThread()) { static gvfn f = (gvfn)dlsym(RTLD_NEXT, "__cxa_guard_abort"); f(g); return; }
  ++inRt; (*guards)[g] = 0; --inRt;
}
}
