// Simulated allocator: a seam in front of malloc. Normally a pass-through. While a task tracks allocations
// (sim_alloc_mark) every block requested by the code under test is registered, filled with a pattern, fenced
// with a canary and quarantined when freed; while armed (sim_alloc_arm) chosen requests fail.
#include "alloc.hh"
#include "threads.hh"
#include <cerrno>
#include <execinfo.h>
#include <link.h>
#include <malloc.h>
#include <sys/mman.h>
#include <algorithm>

extern "C" {
void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t);
}
namespace sim {
namespace {
struct Range { uintptr_t a, b; bool fail; };
Range mods[256]; int nmods = 0;
bool mayFail = true;
bool scribble = false; // fill fresh and released memory with patterns
bool tested(void* pc) { uintptr_t p = (uintptr_t)pc; for (int i = 0; i < nmods; ++i) if (p >= mods[i].a && p < mods[i].b) { mayFail = mods[i].fail; return true; } return false; }

struct Blk { void* p; size_t n; u32 seq; unsigned short state, owner; }; // state 1 live, 2 quarantined; owner: the task that requested it
constexpr size_t TAB = 1u << 21;
Blk* tab = nullptr; u32* order = nullptr; size_t used = 0; u32 seqNo = 0; size_t quarBytes = 0;
inline size_t slot(void* p) { return (size_t)(mix64((u64)p) & (TAB - 1)); }
Blk* lookup(void* p) { if (!tab) return nullptr; for (size_t i = slot(p);; i = (i + 1) & (TAB - 1)) { if (tab[i].p == p) return &tab[i]; if (!tab[i].p) return nullptr; } }
Blk* insert(void* p) { for (size_t i = slot(p);; i = (i + 1) & (TAB - 1)) { if (!tab[i].p) { if (++used > TAB / 2) E->violation("harness", "allocation table overflow"); order[used - 1] = (u32)i; tab[i].p = p; return &tab[i]; } if (tab[i].p == p) return &tab[i]; } }

long long lives[64]; unsigned short owners = 0; thread_local unsigned short owner = 0;
thread_local bool tracking = false;
thread_local long long armAt = 0, burst = 0, counted = 0; thread_local int fired = 0;
constexpr unsigned char FENCE = 0xf7, DEAD = 0xdd; unsigned char FRESH = 0xcb; constexpr size_t FL = 16, SCRIBBLE = 1 << 18;

// debugging aid: SIM_ALLOC_TRACE=n prints where block n comes from and where allocations fail
void trace(const char* what, long long n) { static const char* e = getenv("SIM_ALLOC_TRACE"); if (!e || (n && n != atoll(e))) return; void* f[48]; int k = backtrace(f, 48); fprintf(stderr, "%s %lld\n", what, n); backtrace_symbols_fd(f, k, 2); }
bool failNow() {
  if (!armAt || !mayFail) return false;
  ++counted;
  if (counted >= armAt && counted < armAt + burst) { ++fired; E->fault("alloc-failure"); E->log("allocation #%lld fails", counted); errno = ENOMEM; trace("failing allocation", 0); return true; }
  return false;
}
void* reg(void* p, size_t n, bool zero) {
  Blk* b = insert(p); b->n = n; b->seq = ++seqNo; b->state = 1; b->owner = owner; ++lives[owner]; trace("block", b->seq);
  memset(p, zero ? 0 : FRESH, n); memset((char*)p + n, FENCE, FL);
  return p;
}
void checkFence(Blk* b) { for (size_t i = 0; i < FL; ++i) if (((unsigned char*)b->p)[b->n + i] != FENCE) E->violation("heap-overflow", "block #%u of %zu bytes was written %zu bytes past its end", b->seq, b->n, i); }
void dead(Blk* b) {
  checkFence(b); memset(b->p, DEAD, b->n); b->state = 2; --lives[b->owner]; quarBytes += b->n;
}
}
void allocInit() {}
void allocScribble(int kind) { static const unsigned char fill[] = {0xcb, 0xcb, 0x00, 0xff, 0x3f}; scribble = kind; FRESH = fill[kind]; } // what fresh memory happens to hold
static int cb(struct dl_phdr_info* i, size_t, void*) {
  const char* n = i->dlpi_name ? i->dlpi_name : "";
  bool t = strstr(n, "/proc/self/fd/") || strstr(n, "/libwl_") || strstr(n, "libumfpack") || strstr(n, "libsuitesparseconfig") || strstr(n, "libamd") || strstr(n, "libldl") || strstr(n, "libcamd") || strstr(n, "libcolamd") || strstr(n, "libccolamd") || strstr(n, "libcholmod") || strstr(n, "libspqr");
  bool only = strstr(n, "libsuperlu"); // blocks are registered, but requests never fail: the library ends the process then
  if (!t && !only) return 0;
  for (int k = 0; k < i->dlpi_phnum; ++k) if (i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_X) && nmods < 256) { uintptr_t a = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr; mods[nmods++] = Range{a, a + i->dlpi_phdr[k].p_memsz, t}; }
  return 0;
}
void allocFindModules() { nmods = 0; dl_iterate_phdr(cb, nullptr); }
void allocTaskInit() { tracking = false; armAt = 0; }

static void* doMalloc(size_t n, void* pc, bool zero, size_t align) {
  void* p;
  if (__builtin_expect((tracking || armAt) && tested(pc), 0)) {
    if (failNow()) return nullptr;
    if (tracking) {
      if (n > (size_t(1) << 40)) { errno = ENOMEM; return nullptr; }
      p = align ? __libc_memalign(align, n + FL) : __libc_malloc(n + FL);
      if (p) reg(p, n, zero);
      return p;
    }
  }
  p = align ? __libc_memalign(align, n) : zero ? __libc_calloc(1, n) : __libc_malloc(n);
  if (scribble && p && !zero) memset(p, FRESH, n < SCRIBBLE ? n : SCRIBBLE);
  if (__builtin_expect(threadsActive, 0) && p) threadsMalloc(p, malloc_usable_size(p));
  return p;
}
static void doFree(void* p, void* pc) {
  if (!p) return;
  if (__builtin_expect(tab != nullptr, 0)) {
    Blk* b = lookup(p);
    if (b) {
      if (b->state == 2) { if (tested(pc)) E->violation("double-free", "block #%u of %zu bytes was freed twice", b->seq, b->n); return; }
      if (b->state == 1) { dead(b); return; }
    }
  }
  if (__builtin_expect(threadsActive, 0)) threadsFree(p, malloc_usable_size(p), pc);
  if (scribble) { size_t n = malloc_usable_size(p); memset(p, DEAD, n < SCRIBBLE ? n : SCRIBBLE); }
  __libc_free(p);
}
}
using namespace sim;
extern "C" {
void* malloc(size_t n) noexcept { return doMalloc(n, __builtin_return_address(0), false, 0); }
void* calloc(size_t a, size_t b) noexcept { size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; } return doMalloc(n, __builtin_return_address(0), true, 0); }
void free(void* p) noexcept { doFree(p, __builtin_return_address(0)); }
void* realloc(void* p, size_t n) noexcept {
  void* pc = __builtin_return_address(0);
  if (!p) return doMalloc(n, pc, false, 0);
  Blk* b = tab ? lookup(p) : nullptr;
  if (b && b->state == 1) { void* q = doMalloc(n, pc, false, 0); if (!q) return nullptr; memcpy(q, p, n < b->n ? n : b->n); doFree(p, pc); return q; }
  if (b && b->state == 2) E->violation("use-after-free", "realloc of freed block #%u", b->seq);
  if ((tracking || armAt) && tested(pc) && failNow()) return nullptr;
  if (threadsActive) threadsFree(p, malloc_usable_size(p), pc);
  void* q = __libc_realloc(p, n);
  if (threadsActive && q) threadsMalloc(q, malloc_usable_size(q));
  return q;
}
void* memalign(size_t a, size_t n) noexcept { return doMalloc(n, __builtin_return_address(0), false, a); }
void* aligned_alloc(size_t a, size_t n) noexcept { return doMalloc(n, __builtin_return_address(0), false, a); }
int posix_memalign(void** r, size_t a, size_t n) noexcept { void* p = doMalloc(n, __builtin_return_address(0), false, a); if (!p) return ENOMEM; *r = p; return 0; }

void sim_alloc_arm(long long k, long long b) { armAt = k; burst = b; counted = 0; fired = 0; }
long long sim_alloc_count(void) { return counted; }
int sim_alloc_fired(void) { return fired; }
void sim_alloc_mark(void) {
  if (!tab) { tab = (Blk*)mmap(nullptr, TAB * sizeof(Blk), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); order = (u32*)mmap(nullptr, TAB * sizeof(u32), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
  if (!owner) { if (owners > 62) E->violation("harness", "too many tasks"); owner = ++owners; }
  lives[owner] = 0; for (size_t i = 0; i < used; ++i) if (tab[order[i]].state == 1 && tab[order[i]].owner == owner) tab[order[i]].owner = 0;
  tracking = true;
}
void sim_alloc_unmark(void) { tracking = false; }
long long sim_alloc_live_blocks(void) { return lives[owner]; }
void sim_alloc_check(void) {
  if (!tab) return;
  for (size_t i = 0; i < used; ++i) {
    Blk& b = tab[order[i]];
    if (b.state == 1) checkFence(&b);
    else for (size_t j = 0; j < b.n; ++j) if (((unsigned char*)b.p)[j] != DEAD) E->violation("use-after-free", "freed block #%u of %zu bytes was written at offset %zu after it was freed", b.seq, b.n, j);
  }
}
void sim_alloc_describe(char* out, size_t n) {
  size_t o = 0; if (n) out[0] = 0; if (!tab) return; int c = 0;
  std::vector<Blk> v; // pass-through allocation: called from the host
  for (size_t i = 0; i < used; ++i) if (tab[order[i]].state == 1 && tab[order[i]].owner == owner) v.push_back(tab[order[i]]);
  std::sort(v.begin(), v.end(), [](const Blk& a, const Blk& b) { return a.seq < b.seq; });
  for (auto& b : v) { if (++c > 12) break; int k = snprintf(out + o, n - o, "#%u(%zu bytes) ", b.seq, b.n); if (k < 0 || (size_t)k >= n - o) break; o += k; }
}
}
