// Core of the deterministic simulator: seeded decisions, parked-thread scheduler, shared run record.
// Host side only (never included by code that includes dune).
#ifndef SIM_CORE_HH
#define SIM_CORE_HH
#include "api.h"
#include <atomic>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <string>
#include <vector>
#include <pthread.h>
#include <unistd.h>

namespace sim {
typedef uint64_t u64;
typedef uint32_t u32;
typedef int64_t i64;

inline u64 mix64(u64 z) {
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
inline u64 hashStr(const char* s) {
  u64 h = 1469598103934665603ull;
  for (; *s; ++s) { h ^= (unsigned char)*s; h *= 1099511628211ull; }
  return h;
}
struct Rng {
  u64 s;
  explicit Rng(u64 seed = 0) : s(seed) {}
  u64 next() { s += 0x9e3779b97f4a7c15ull; u64 z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
  u32 below(u32 n) { return n <= 1 ? 0 : (u32)(next() % n); }
  bool chance(u32 permille) { return below(1000) < permille; }
};

// ---------------------------------------------------------------- run record in shared memory
constexpr int MAXDEC = 1 << 17, MAXPARAM = 96, MAXPROBE = 96, TRACEBYTES = 1 << 18;
struct Dec { u32 idx, val; };
struct Param { char name[40]; i64 val, lo, hi; };
struct Counter { char name[48]; u64 n; };
enum Status { RUNNING = 0, OK = 1, VIOLATION = 2, SKIP = 3, CRASH = 4, HANG = 5 };
struct Shm {
  volatile int status;
  char kind[64];
  char msg[6000];
  u64 hash;      // event log hash (everything observable, incl. payload)
  u64 sched;     // interleaving hash (order of scheduling/delivery/completion only)
  u64 steps, choices, switches;
  u64 simns;     // simulated time
  u32 ndec, decOverflow, nparam, nprobe, nfault, skipWhy;
  u32 crashSig; u64 crashPc;
  Dec dec[MAXDEC];
  Param param[MAXPARAM];
  Counter probe[MAXPROBE];
  Counter fault[MAXPROBE];
  u32 tracePos; u32 traceWrapped;
  char trace[TRACEBYTES];
};

struct RunSpec {
  std::string workload;
  u64 seed = 0;              // run seed
  bool replay = false;
  std::map<std::string, i64> params;      // overrides
  std::map<u32, u32> decisions;           // replay: sparse non-default decisions
  bool trace = false;
  u64 maxSteps = 3000000;
};

// ---------------------------------------------------------------- engine (one per child process)
struct Task {
  int id = 0;
  pthread_t th{};
  std::atomic<int> go{0};
  enum State { Ready, Blocked, Done } state = Ready;
  std::function<bool()> ready;
  const char* what = "start";
  char detail[160] = "";
  bool polling = false;
  u64 prio = 0;
  u64 lastRun = 0;
  std::function<void()> body;
  i64 tick = 0; // per task step counter
};

struct NetAction { u64 key; std::function<void()> run; u64 prio = 0; u64 since = 0; };

// provider of non-task actions (network); may be empty
struct ActionSource {
  virtual ~ActionSource() {}
  virtual void list(std::vector<NetAction>& out) = 0;
  virtual void describe(std::string&) {}
};

struct Engine {
  Shm* shm = nullptr;
  RunSpec spec;
  Rng rng{0};       // search-mode scheduling decisions
  Rng fltRng{0};    // search-mode fault decisions
  std::vector<Task*> tasks;
  Task* current = nullptr;
  ActionSource* net = nullptr;
  std::atomic<int> mainGo{0};
  // strategy
  int strategy = 0; u32 stickiness = 0, netEager = 500; int victim = -1; u64 pctBase = 0; u32 pctChange = 0; u64 prioSalt = 0;
  std::map<std::string, std::map<int, std::string>> board;

  void init(Shm* s, const RunSpec& sp);
  u32 choice(u32 n, const std::function<u32()>& searchPick);
  i64 param(const char* name, i64 lo, i64 hi);
  void ev(u64 a, u64 b = 0, u64 c = 0) { shm->hash = mix64(shm->hash ^ a) + mix64(b + 0x51ull) * 3 + mix64(c + 0x77ull); }
  void evSched(u64 a) { shm->sched = mix64(shm->sched ^ a) + a; }
  void evBytes(const void* p, size_t n) {
    u64 h = 1469598103934665603ull; const unsigned char* c = (const unsigned char*)p; size_t i = 0;
    for (; i + 8 <= n; i += 8) { u64 v; memcpy(&v, c + i, 8); h = (h ^ v) * 1099511628211ull; h ^= h >> 29; }
    for (; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; }
    shm->hash = mix64(shm->hash ^ h) + n;
  }
  void log(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
  void vlog(const char* fmt, va_list ap);
  [[noreturn]] void violation(const char* kind, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
  [[noreturn]] void vviolation(const char* kind, const char* fmt, va_list ap);
  [[noreturn]] void skip(const char* why);
  [[noreturn]] void finish(int status);
  void count(Counter* tab, u32& n, const char* name, u64 by = 1);
  void fault(const char* name, u64 by = 1) { count(shm->fault, shm->nfault, name, by); }
  void probe(const char* name, u64 by = 1) { count(shm->probe, shm->nprobe, name, by); }

  Task* addTask(std::function<void()> body);
  void runAll();                 // start all tasks, return when all are done
  void yield(const char* what);  // called by a task
  void block(const char* what, std::function<bool()> ready); // returns once ready() holds
  void pollFail() { if (current) current->polling = true; }
  bool onTask() const;
  std::string blockedReport();

 private:
  void schedule();               // choose and switch; called by the running task (or at start / task end)
  void switchTo(Task* t);
  static void* trampoline(void*);
};
extern Engine* E;
extern thread_local Task* tls_task;

void futexWait(std::atomic<int>& a);
void futexWake(std::atomic<int>& a);

// ---------------------------------------------------------------- process level driver
struct Host {
  virtual ~Host() {}
  virtual void load(int argc, char** argv) = 0;     // once, in the parent
  virtual void child(Engine& e) = 0;                // one run; returns normally if OK
};
int hostMain(int argc, char** argv, Host& h);
}
#endif
