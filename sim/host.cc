// Simulator host: loads a workload library (one private copy per simulated rank), owns every seam
// (MPI, threads, allocator, clocks, rand) and runs one simulated execution per forked child.
#include "core.hh"
#include "mpi_sim.hh"
#include "alloc.hh"
#include "threads.hh"
#include "workload.h"
#include <dlfcn.h>
#include <fcntl.h>
#include <link.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <time.h>
#include <fstream>

using namespace sim;

extern "C" void sim_thread_begin(void);
namespace {
constexpr int MAXRANKS = 8;
int g_size = 1;

struct RankHost : Host {
  std::vector<void*> handles;                       // copies
  std::vector<const SimWorkload*> tables; int nw = 0;
  std::string lib;
  void loadCopy(int i) {
    std::string path = lib;
    if (i > 0) {
      // a distinct inode makes the dynamic linker load a private copy with private static data
      int in = open(lib.c_str(), O_RDONLY | O_CLOEXEC), out = memfd_create("simcopy", MFD_CLOEXEC);
      if (in < 0 || out < 0) { perror("copy"); exit(3); }
      char buf[1 << 16]; ssize_t n;
      while ((n = read(in, buf, sizeof buf)) > 0) for (ssize_t o = 0; o < n;) { ssize_t w = write(out, buf + o, n - o); if (w <= 0) { perror("write"); exit(3); } o += w; }
      close(in); path = "/proc/self/fd/" + std::to_string(out);
    }
    void* h = dlopen(path.c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!h) { fprintf(stderr, "dlopen: %s\n", dlerror()); exit(3); }
    auto f = (const SimWorkload* (*)(int*))dlsym(h, "sim_workloads");
    if (!f) { fprintf(stderr, "no sim_workloads\n"); exit(3); }
    handles.push_back(h); tables.push_back(f(&nw));
    // leave the memfd open: harmless
  }
  const SimWorkload* find(const std::string& n, int copy) { for (int i = 0; i < nw; ++i) if (n == tables[copy][i].name) return &tables[copy][i]; return nullptr; }
  void load(int argc, char** argv) override {
    int copies = MAXRANKS;
    for (int i = 1; i + 1 < argc; i += 2) { if (!strcmp(argv[i], "--lib")) lib = argv[i + 1]; if (!strcmp(argv[i], "--copies")) copies = atoi(argv[i + 1]); }
    allocInit();
    if (lib.empty()) { fprintf(stderr, "--lib missing\n"); exit(3); }
    loadCopy(0);
    int need = 1; for (int i = 0; i < nw; ++i) if (tables[0][i].mode == SIM_RANKS) need = std::max(need, tables[0][i].maxTasks);
    need = std::min(need, copies);
    for (int i = 1; i < need; ++i) loadCopy(i);
    for (int i = 1; i + 1 < argc; i += 2) if (!strcmp(argv[i], "--workload") && !find(argv[i + 1], 0)) { fprintf(stderr, "unknown workload %s\n", argv[i + 1]); exit(3); }
    allocFindModules();
  }
  void child(Engine& e) override {
    const SimWorkload* w = find(e.spec.workload, 0);
    if (!w) { fprintf(stderr, "unknown workload\n"); _exit(3); }
    int n = (int)e.param("tasks", w->minTasks, w->mode == SIM_RANKS ? std::min<int>(w->maxTasks, (int)tables.size()) : w->maxTasks);
    g_size = n;
    if (w->mode == SIM_THREADS) { mpiSetup(n); e.net = nullptr; threadsSetup(); if (w->setup) w->setup(); }
    else mpiSetup(n);
    for (int i = 0; i < n; ++i) {
      const SimWorkload* wi = w->mode == SIM_RANKS ? find(e.spec.workload, i) : w;
      e.addTask([wi, i] {
        allocTaskInit();
        if (threadsActive) sim_thread_begin();
        wi->run();
      });
    }
    if (w->mode == SIM_THREADS) threadsBegin(n);
    allocScribble((int)e.param("sim.memfill", 0, 4));
    e.runAll();
    if (w->mode == SIM_THREADS) threadsEnd();
    else mpiTeardown(w->strict != 0);
    if (w->check) w->check();
  }
};
}

extern "C" {
int sim_size(void) { return g_size; }
// ---- clocks: every clock the code can read is simulated
int clock_gettime(clockid_t, struct timespec* ts) { long long t = sim_clock_ns(); ts->tv_sec = t / 1000000000; ts->tv_nsec = t % 1000000000; return 0; }
int gettimeofday(struct timeval* tv, void*) noexcept { long long t = sim_clock_ns(); if (tv) { tv->tv_sec = t / 1000000000; tv->tv_usec = (t % 1000000000) / 1000; } return 0; }
time_t time(time_t* p) noexcept { time_t t = sim_clock_ns() / 1000000000; if (p) *p = t; return t; }
clock_t clock(void) noexcept { return sim_clock_ns() / 1000; }
// ---- rand(): one deterministic stream per rank (a real deployment has one process per rank)
int rand(void) noexcept { unsigned& s = mpiRandState(); s = s * 1103515245u + 12345u; unsigned r = (s >> 16) & 0x7fff; s = s * 1103515245u + 12345u; return (int)((r << 16 | ((s >> 16) & 0xffff)) & 0x7fffffff); }
void srand(unsigned x) noexcept { mpiRandState() = x; }
long random(void) noexcept { return rand(); }
void srandom(unsigned x) noexcept { srand(x); }
}

int main(int argc, char** argv) {
  RankHost h;
  return hostMain(argc, argv, h);
}
