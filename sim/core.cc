#include "core.hh"
#include <cerrno>
#include <dlfcn.h>
#include <execinfo.h>
#include <csignal>
#include <ctime>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <linux/futex.h>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unordered_set>
#include <algorithm>

namespace sim {
Engine* E = nullptr;
thread_local Task* tls_task = nullptr;

void futexWait(std::atomic<int>& a) {
  while (a.load(std::memory_order_acquire) == 0)
    syscall(SYS_futex, (int*)&a, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
  a.store(0, std::memory_order_relaxed);
}
void futexWake(std::atomic<int>& a) {
  a.store(1, std::memory_order_release);
  syscall(SYS_futex, (int*)&a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

static double realNow() {
  timespec ts; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + 1e-9 * ts.tv_nsec;
}

void Engine::init(Shm* s, const RunSpec& sp) {
  shm = s; spec = sp;
  rng = Rng(mix64(sp.seed ^ 0xabcdef12345ull));
  fltRng = Rng(mix64(sp.seed ^ 0x5511ull));
  if (!sp.replay) {
    u32 r = rng.below(100);
    strategy = r < 22 ? 0 : r < 36 ? 1 : r < 60 ? 2 : r < 74 ? 3 : r < 86 ? 4 : r < 94 ? 5 : 6;
    stickiness = rng.below(3) ? 0 : 300 + rng.below(650);
    netEager = rng.below(1001);
    victim = (int)rng.below(16);
    prioSalt = rng.next();
    pctChange = 1 + rng.below(40);
  }
}

u32 Engine::choice(u32 n, const std::function<u32()>& pick) {
  if (n <= 1) return 0;
  u32 idx = (u32)shm->choices++;
  u32 v = 0;
  if (spec.replay) {
    auto it = spec.decisions.find(idx);
    if (it != spec.decisions.end()) v = it->second % n;
  } else v = pick() % n;
  if (v) {
    if (shm->ndec < MAXDEC) shm->dec[shm->ndec++] = Dec{idx, v};
    else shm->decOverflow = 1;
  }
  return v;
}

i64 Engine::param(const char* name, i64 lo, i64 hi) {
  for (u32 i = 0; i < shm->nparam; ++i)
    if (!strcmp(shm->param[i].name, name)) { i64 v = shm->param[i].val; return v > hi && hi >= lo ? hi : v < lo ? lo : v; }
  i64 v;
  auto it = spec.params.find(name);
  if (it != spec.params.end()) { v = it->second; if (v < lo) v = lo; if (v > hi) v = hi; }
  else if (hi <= lo) v = lo;
  else v = lo + (i64)(mix64(spec.seed ^ hashStr(name)) % (u64)(hi - lo + 1));
  if (shm->nparam < MAXPARAM) {
    Param& p = shm->param[shm->nparam++];
    snprintf(p.name, sizeof p.name, "%s", name);
    p.val = v; p.lo = lo; p.hi = hi;
  }
  return v;
}

void Engine::vlog(const char* fmt, va_list ap) {
  if (!spec.trace) return;
  char buf[512];
  int n = snprintf(buf, sizeof buf, "[%llu t%d] ", (unsigned long long)shm->steps, tls_task ? tls_task->id : -1);
  n += vsnprintf(buf + n, sizeof buf - n - 2, fmt, ap);
  if (n > (int)sizeof buf - 2) n = sizeof buf - 2;
  buf[n++] = '\n';
  if (shm->tracePos + n >= (u32)TRACEBYTES) { shm->traceWrapped++; return; }
  memcpy(shm->trace + shm->tracePos, buf, n);
  shm->tracePos += n;
}
void Engine::log(const char* fmt, ...) { if (!spec.trace) return; va_list ap; va_start(ap, fmt); vlog(fmt, ap); va_end(ap); }

void Engine::finish(int status) { shm->status = status; _exit(0); }
void Engine::vviolation(const char* kind, const char* fmt, va_list ap) {
  snprintf(shm->kind, sizeof shm->kind, "%s", kind);
  int n = vsnprintf(shm->msg, sizeof shm->msg, fmt, ap);
  (void)n;
  log("VIOLATION %s: %s", kind, shm->msg);
  finish(VIOLATION);
}
void Engine::violation(const char* kind, const char* fmt, ...) { va_list ap; va_start(ap, fmt); vviolation(kind, fmt, ap); }
void Engine::skip(const char* why) { snprintf(shm->kind, sizeof shm->kind, "skip"); snprintf(shm->msg, sizeof shm->msg, "%s", why); finish(SKIP); }

void Engine::count(Counter* tab, u32& n, const char* name, u64 by) {
  for (u32 i = 0; i < n; ++i) if (!strcmp(tab[i].name, name)) { tab[i].n += by; return; }
  if (n < (u32)MAXPROBE) { snprintf(tab[n].name, sizeof tab[n].name, "%s", name); tab[n].n = by; ++n; }
}

Task* Engine::addTask(std::function<void()> body) {
  Task* t = new Task; t->id = (int)tasks.size(); t->body = body; tasks.push_back(t);
  t->prio = mix64(prioSalt ^ (t->id * 7919 + 1));
  return t;
}
bool Engine::onTask() const { return tls_task != nullptr && tls_task == current; }

void* Engine::trampoline(void* p) {
  Task* t = (Task*)p;
  tls_task = t;
  futexWait(t->go);
  try { t->body(); }
  catch (std::exception& e) { E->violation("uncaught-exception", "task %d: exception escaped from a call that must succeed: %s", t->id, e.what()); }
  t->state = Task::Done; t->what = "done";
  E->log("task %d done", t->id);
  E->schedule();
  return nullptr;
}

void Engine::runAll() {
  pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 8 << 20);
  for (Task* t : tasks) if (pthread_create(&t->th, &a, trampoline, t)) { fprintf(stderr, "pthread_create failed\n"); _exit(3); }
  current = nullptr;
  schedule();
  futexWait(mainGo);
  for (Task* t : tasks) pthread_join(t->th, nullptr);
  tasks.clear(); current = nullptr;
}

std::string Engine::blockedReport() {
  std::string s;
  for (Task* t : tasks) {
    char b[300];
    snprintf(b, sizeof b, "task %d: %s %s%s; ", t->id, t->state == Task::Done ? "finished" : t->what, t->detail, t->polling ? " (polling)" : "");
    s += b;
  }
  if (net) net->describe(s);
  return s;
}

void Engine::switchTo(Task* t) {
  Task* me = tls_task;
  t->state = Task::Ready; t->polling = false; t->lastRun = shm->steps; t->tick++;
  if (t == current && t == me) return;
  current = t; shm->switches++;
  if (me) me->go.store(me->go.load()); // no-op
  bool meDone = me && me->state == Task::Done;
  futexWake(t->go);
  if (me && !meDone) futexWait(me->go);
}

void Engine::schedule() {
  for (;;) {
    if (++shm->steps > spec.maxSteps)
      violation("no-progress", "no termination within %llu scheduler steps (bounded liveness): %s", (unsigned long long)spec.maxSteps, blockedReport().c_str());
    shm->simns += 1000;
    // canonical action order: current task, other runnable tasks, network actions, polling tasks
    std::vector<Task*> run, poll;
    bool allDone = true;
    for (Task* t : tasks) {
      if (t->state == Task::Done) continue;
      allDone = false;
      bool r = t->state == Task::Ready || (t->state == Task::Blocked && t->ready());
      if (!r) continue;
      if (t->polling) poll.push_back(t); else run.push_back(t);
    }
    if (allDone) { current = nullptr; futexWake(mainGo); return; }
    for (size_t i = 0; i < run.size(); ++i) if (run[i] == current && i) { Task* c = run[i]; run.erase(run.begin() + i); run.insert(run.begin(), c); break; }
    std::vector<NetAction> na;
    if (net) net->list(na);
    size_t nr = run.size(), nn = na.size(), np = poll.size(), n = nr + nn + np;
    if (n == 0) violation("deadlock", "no task can make progress and no message is in flight: %s", blockedReport().c_str());
    u32 k = choice((u32)n, [&]() -> u32 {
      auto pollPick = [&]() -> u32 { return (u32)(nr + nn + rng.below((u32)np)); };
      if (np && rng.below(8) == 0) return pollPick();   // fairness for polling loops
      if (nr + nn == 0) return pollPick();
      bool netRnd = false;
      switch (strategy) {
        case 1: // run to block; deliver at random moments
          if (nn && (nr == 0 || rng.chance(netEager))) netRnd = true;
          else { if (nr && run[0] == current && !rng.chance(20)) return 0; return rng.below((u32)nr); }
          break;
        case 2: { // PCT: random priorities for tasks and channels with occasional re-draw
          if (rng.below(400) < pctChange) { u64 s = rng.next(); if (nr && rng.below(2)) run[rng.below((u32)nr)]->prio = s; else prioSalt = s; }
          u32 best = 0; u64 bp = 0; bool have = false;
          for (u32 i = 0; i < nr; ++i) if (!have || run[i]->prio > bp) { bp = run[i]->prio; best = i; have = true; }
          for (u32 i = 0; i < nn; ++i) { u64 p = mix64(prioSalt ^ na[i].key); if (!have || p > bp) { bp = p; best = (u32)nr + i; have = true; } }
          return best; }
        case 3: { // starve one task (a stalled rank/thread); it only moves when nothing else can, or rarely
          std::vector<u32> c; int v = victim % (int)tasks.size();
          for (u32 i = 0; i < nr; ++i) if (run[i]->id != v) c.push_back(i);
          for (u32 i = 0; i < nn; ++i) c.push_back((u32)nr + i);
          if (c.empty() || rng.below(300) == 0) break;
          return c[rng.below((u32)c.size())]; }
        case 4: // maximal delay: deliver only when no task can run
          if (nr) return rng.chance(stickiness) && run[0] == current ? 0 : rng.below((u32)nr);
          netRnd = true; break;
        case 5: // newest message first, else random task
          if (nn && (nr == 0 || rng.chance(netEager))) { u32 b = 0; for (u32 i = 1; i < nn; ++i) if (na[i].since > na[b].since) b = i; return (u32)nr + b; }
          return rng.below((u32)nr);
        case 6: // deliver as soon as possible
          if (nn) { netRnd = true; break; }
          return rng.below((u32)nr);
        default:
          if (stickiness && nr && run[0] == current && rng.chance(stickiness)) return 0;
      }
      if (netRnd) return (u32)(nr + rng.below((u32)nn));
      return rng.below((u32)(nr + nn));
    });
    if (k < nr) { evSched(run[k]->id + 1); if (run[k] != current && current && current->state == Task::Ready) fault("preempt"); switchTo(run[k]); return; }
    if (k < nr + nn) { evSched(na[k - nr].key); na[k - nr].run(); continue; }
    evSched(poll[k - nr - nn]->id + 101);
    switchTo(poll[k - nr - nn]); return;
  }
}

void Engine::yield(const char* what) {
  Task* t = tls_task; if (!t || t != current) return;
  t->what = what; t->detail[0] = 0;
  schedule();
}
void Engine::block(const char* what, std::function<bool()> ready) {
  Task* t = tls_task;
  if (!t) { if (!ready()) violation("deadlock", "blocking call %s outside of a task", what); return; }
  t->what = what; t->polling = false;
  t->ready = ready; t->state = Task::Blocked;
  schedule();
  t->ready = nullptr; t->detail[0] = 0;
}
} // namespace sim

// ---------------------------------------------------------------- C API (generic part)
using namespace sim;
extern "C" {
int sim_rank(void) { return tls_task ? tls_task->id : 0; }
long long sim_param(const char* n, long long lo, long long hi) { return E->param(n, lo, hi); }
unsigned long long sim_seed(void) { return (unsigned long long)E->param("dataseed", 0, 0x7fffffffffffll); }
unsigned sim_decide(const char* site, unsigned n, unsigned permille) {
  unsigned v = E->choice(n, [&]() -> u32 { return E->fltRng.chance(permille) ? 1 + E->fltRng.below(n - 1) : 0; });
  if (v) { E->log("decide %s -> %u", site, v); E->ev(hashStr(site), v); }
  return v;
}
void sim_violation(const char* kind, const char* fmt, ...) { va_list ap; va_start(ap, fmt); E->vviolation(kind, fmt, ap); }
void sim_skip(const char* why) { E->skip(why); }
void sim_probe(const char* name) { E->probe(name); }
void sim_fault_fired(const char* k) { E->fault(k); }
void sim_hash(const void* p, size_t n) { E->evBytes(p, n); }
void sim_log(const char* fmt, ...) { va_list ap; va_start(ap, fmt); E->vlog(fmt, ap); va_end(ap); }
void sim_yield(const char* what) { E->yield(what); }
void sim_put(const char* key, const void* p, size_t n) {
  E->board[key][sim_rank()] = std::string((const char*)p, n);
  E->ev(hashStr(key), (u64)sim_rank(), n); E->evBytes(p, n);
}
const void* sim_get(const char* key, int rank, size_t* n) {
  auto it = E->board.find(key); if (it == E->board.end()) { if (n) *n = 0; return nullptr; }
  auto jt = it->second.find(rank); if (jt == it->second.end()) { if (n) *n = 0; return nullptr; }
  if (n) *n = jt->second.size();
  return jt->second.data();
}
}

// ---------------------------------------------------------------- process level
namespace sim {
static Shm* g_shm;
static void onCrash(int sig, siginfo_t* si, void* uc) {
  if (g_shm->status == RUNNING) {
    g_shm->crashSig = (u32)sig;
#if defined(__x86_64__)
    g_shm->crashPc = (u64)((ucontext_t*)uc)->uc_mcontext.gregs[REG_RIP];
#endif
    g_shm->status = CRASH;
    if (getenv("SIM_DEBUG")) { auto* G = ((ucontext_t*)uc)->uc_mcontext.gregs; Dl_info di; dladdr((void*)G[REG_RIP], &di); fprintf(stderr, "fault address %p rip %s+%llx rax %llx rbx %llx rcx %llx rdx %llx rsi %llx rdi %llx\n", si->si_addr, di.dli_fname, (unsigned long long)(G[REG_RIP] - (long long)di.dli_fbase), (unsigned long long)G[REG_RAX], (unsigned long long)G[REG_RBX], (unsigned long long)G[REG_RCX], (unsigned long long)G[REG_RDX], (unsigned long long)G[REG_RSI], (unsigned long long)G[REG_RDI]); }
    // best effort: where did it happen
    void* bt[24]; int n = backtrace(bt, 24); int o = snprintf(g_shm->msg, sizeof g_shm->msg, "the code under test died with signal %d at", sig);
    for (int i = 0; i < n && o < 3500; ++i) { Dl_info di; if (dladdr(bt[i], &di) && di.dli_sname) { o += snprintf(g_shm->msg + o, sizeof g_shm->msg - o, "\n  %.220s", di.dli_sname); } }
  }
  (void)si;
  _exit(0);
}

struct Outcome { int status; std::string kind, msg; u64 hash, sched, steps, choices, switches, simns; std::vector<Dec> dec; bool decOverflow; std::vector<Param> params; std::vector<Counter> probes, faults; std::string trace; double wall; };

static double g_runTimeout = 30;

static Outcome runOnce(Host& h, const RunSpec& sp) {
  // reset without touching the big arrays
  memset((void*)g_shm, 0, offsetof(Shm, dec));
  g_shm->tracePos = g_shm->traceWrapped = 0;
  fflush(stdout); fflush(stderr);
  double t0 = realNow();
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); exit(3); }
  if (pid == 0) {
    int dn = open("/dev/null", O_RDWR);
    if (!getenv("SIM_KEEP_OUT")) { dup2(dn, 1); dup2(dn, 2); }
    struct rlimit rl = {0, 0}; if (!getenv("SIM_NOCATCH")) setrlimit(RLIMIT_CORE, &rl);
    rl.rlim_cur = rl.rlim_max = (rlim_t)(g_runTimeout * 2 + 5); setrlimit(RLIMIT_CPU, &rl);
#ifndef SIM_ASAN
    rl.rlim_cur = rl.rlim_max = 3ull << 30; setrlimit(RLIMIT_AS, &rl);
#endif
    static char alt[65536]; stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
    struct sigaction sa{}; sa.sa_sigaction = onCrash; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    if (!getenv("SIM_NOCATCH")) for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) sigaction(s, &sa, nullptr);
    Engine e; E = &e; e.init(g_shm, sp);
    h.child(e);
    g_shm->status = OK;
    _exit(0);
  }
  int st = 0; double waited = 0;
  for (;;) {
    pid_t r = waitpid(pid, &st, WNOHANG);
    if (r == pid) break;
    double w = realNow() - t0;
    if (w > g_runTimeout) { kill(pid, SIGKILL); waitpid(pid, &st, 0); if (g_shm->status == RUNNING) g_shm->status = HANG; break; }
    usleep(w < 0.004 ? 100 : w < 0.05 ? 500 : 3000);
    waited = w;
  }
  (void)waited;
  Outcome o;
  o.status = g_shm->status;
  if (o.status == RUNNING) { // died without verdict
    o.status = CRASH; g_shm->crashSig = WIFSIGNALED(st) ? WTERMSIG(st) : 0;
    if (WIFEXITED(st)) snprintf(g_shm->msg, sizeof g_shm->msg, "process exited with status %d inside the run", WEXITSTATUS(st));
  }
  if (o.status == CRASH) {
    int s = (int)g_shm->crashSig;
    snprintf(g_shm->kind, sizeof g_shm->kind, s == SIGABRT ? "abort" : s == SIGSEGV || s == SIGBUS ? "memory-fault" : s == SIGFPE ? "fpe" : "crash");
    if (!g_shm->msg[0]) snprintf(g_shm->msg, sizeof g_shm->msg, "the code under test died with signal %d", s);
  }
  if (o.status == HANG) { snprintf(g_shm->kind, sizeof g_shm->kind, "hang"); snprintf(g_shm->msg, sizeof g_shm->msg, "a task did not reach its next simulated event within %.0f s", g_runTimeout); }
  o.kind = g_shm->kind; o.msg = g_shm->msg;
  o.hash = g_shm->hash; o.sched = g_shm->sched; o.steps = g_shm->steps; o.choices = g_shm->choices; o.switches = g_shm->switches; o.simns = g_shm->simns;
  o.dec.assign(g_shm->dec, g_shm->dec + g_shm->ndec); o.decOverflow = g_shm->decOverflow;
  o.params.assign(g_shm->param, g_shm->param + g_shm->nparam);
  o.probes.assign(g_shm->probe, g_shm->probe + g_shm->nprobe);
  o.faults.assign(g_shm->fault, g_shm->fault + g_shm->nfault);
  o.trace.assign(g_shm->trace, g_shm->tracePos);
  o.wall = realNow() - t0;
  return o;
}

static std::string esc(const std::string& s) {
  std::string r;
  for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if (c < 32 || c > 126) r += '?'; else r += c; }
  return r;
}

static void writeReplay(const std::string& path, const std::string& prop, const RunSpec& sp, const Outcome& o, const char* note) {
  std::ofstream f(path);
  f << "property " << prop << "\nworkload " << sp.workload << "\nseed " << sp.seed << "\n";
  for (auto& p : o.params) f << "param " << p.name << " " << p.val << "\n";
  for (auto& d : o.dec) f << "decision " << d.idx << " " << d.val << "\n";
  f << "expect " << o.kind << "\n";
  char hb[40]; snprintf(hb, sizeof hb, "%016llx", (unsigned long long)o.hash);
  f << "hash " << hb << "\n";
  f << "# " << note << "\n";
  std::istringstream m(o.msg); std::string l;
  while (std::getline(m, l)) f << "# violation: " << l << "\n";
  if (!o.trace.empty()) {
    f << "# --- event trace of this run (" << o.steps << " steps) ---\n";
    std::istringstream t(o.trace); std::vector<std::string> ls;
    while (std::getline(t, l)) ls.push_back(l);
    size_t from = 0; if (ls.size() > 1500) { for (size_t i = 0; i < 300; ++i) f << "# " << ls[i] << "\n"; f << "# ... (" << ls.size() - 1500 << " lines omitted)\n"; from = ls.size() - 1200; }
    for (size_t i = from; i < ls.size(); ++i) f << "# " << ls[i] << "\n";
  }
}

static bool readReplay(const std::string& path, RunSpec& sp, std::string& prop, std::string& expect, u64& hash) {
  std::ifstream f(path); if (!f) return false;
  sp.replay = true; std::string l;
  while (std::getline(f, l)) {
    if (l.empty() || l[0] == '#') continue;
    std::istringstream s(l); std::string k; s >> k;
    if (k == "property") s >> prop;
    else if (k == "workload") s >> sp.workload;
    else if (k == "seed") s >> sp.seed;
    else if (k == "param") { std::string n; i64 v; s >> n >> v; sp.params[n] = v; }
    else if (k == "decision") { u32 a, b; s >> a >> b; sp.decisions[a] = b; }
    else if (k == "expect") s >> expect;
    else if (k == "hash") { std::string h; s >> h; hash = strtoull(h.c_str(), nullptr, 16); }
  }
  return true;
}

static bool bad(const Outcome& o) { return o.status == VIOLATION || o.status == CRASH || o.status == HANG; }
// same violation class: compare the kind only
static bool same(const Outcome& a, const std::string& kind) { return bad(a) && a.kind == kind; }

static RunSpec specOf(const RunSpec& base, const Outcome& o) {
  RunSpec s = base; s.replay = true; s.params.clear(); s.decisions.clear();
  for (auto& p : o.params) s.params[p.name] = p.val;
  for (auto& d : o.dec) s.decisions[d.idx] = d.val;
  return s;
}

static Outcome minimise(Host& h, RunSpec base, Outcome o, double budget, int& tried) {
  std::string kind = o.kind;
  double t0 = realNow();
  auto time = [&] { return realNow() - t0 < budget; };
  RunSpec cur = specOf(base, o);
  Outcome best = runOnce(h, cur); ++tried;
  if (!same(best, kind)) return o; // replay without decisions complete? (overflow) keep original
  cur = specOf(base, best);
  auto accept = [&](const RunSpec& s) {
    Outcome r = runOnce(h, s); ++tried;
    if (!same(r, kind)) return false;
    best = r; cur = specOf(base, r); return true;
  };
  // 1. all decisions default?
  { RunSpec s = cur; s.decisions.clear(); if (!cur.decisions.empty()) accept(s); }
  bool again = true;
  for (int round = 0; round < 4 && again && time(); ++round) {
    again = false;
    // 2. shrink parameters
    std::vector<Param> ps = best.params;
    for (auto& p : ps) {
      if (!strcmp(p.name, "dataseed")) continue;
      i64 v = cur.params[p.name];
      std::vector<i64> cand; i64 lo = p.lo;
      if (v > lo) { cand.push_back(lo); if (lo + 1 < v) cand.push_back(lo + 1); i64 m = lo + (v - lo) / 2; if (m > lo + 1 && m < v) cand.push_back(m); if (v - 1 > m) cand.push_back(v - 1); }
      for (i64 c : cand) { if (!time()) break; RunSpec s = cur; s.params[p.name] = c; if (accept(s)) { again = true; break; }
        if (!cur.decisions.empty()) { s.decisions.clear(); if (time() && accept(s)) { again = true; break; } } }
    }
    // 3. ddmin over decisions
    std::vector<std::pair<u32, u32>> d(cur.decisions.begin(), cur.decisions.end());
    size_t chunk = d.size() ? (d.size() + 1) / 2 : 0;
    while (chunk >= 1 && !d.empty() && time()) {
      bool any = false;
      for (size_t i = 0; i < d.size() && time();) {
        RunSpec s = cur; size_t e = std::min(d.size(), i + chunk);
        for (size_t j = i; j < e; ++j) s.decisions.erase(d[j].first);
        if (accept(s)) { any = true; again = true; d.assign(cur.decisions.begin(), cur.decisions.end()); if (i >= d.size()) break; }
        else i = e;
      }
      if (chunk == 1 && !any) break;
      chunk = chunk == 1 ? 1 : (chunk + 1) / 2;
      if (chunk == 1 && !any && d.size() > 400) break;
    }
  }
  return best;
}

int hostMain(int argc, char** argv, Host& h) {
  // deterministic address layout: re-exec once without ASLR (falls back silently where forbidden)
  if (!getenv("SIM_NOASLR_DONE")) {
    int p = personality(0xffffffff);
    if (p != -1 && !(p & ADDR_NO_RANDOMIZE) && personality(p | ADDR_NO_RANDOMIZE) != -1) {
      setenv("SIM_NOASLR_DONE", "1", 1);
      execv("/proc/self/exe", argv);
    }
  }
  setenv("OPENBLAS_NUM_THREADS", "1", 1); setenv("OMP_NUM_THREADS", "1", 1);
  std::map<std::string, std::string> opt; std::vector<std::string> workloads;
  for (int i = 1; i + 1 < argc; i += 2) { std::string k = argv[i]; if (k == "--workload") workloads.push_back(argv[i + 1]); opt[k] = argv[i + 1]; }
  auto get = [&](const char* k, const char* d) { auto it = opt.find(k); return it == opt.end() ? std::string(d) : it->second; };
  g_shm = (Shm*)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (g_shm == MAP_FAILED) { perror("mmap"); return 3; }
  g_runTimeout = atof(get("--run-timeout", "30").c_str());
  h.load(argc, argv);
  { void* bt[4]; backtrace(bt, 4); }
  std::string prop = get("--property", "?"), out = get("--out", "-");
  double minBudget = atof(get("--min-budget", "60").c_str());
  FILE* fo = out == "-" ? stdout : fopen(out.c_str(), "w");
  if (!fo) { perror("out"); return 3; }
  auto emit = [&](const std::string& s) { fputs(s.c_str(), fo); fputc('\n', fo); fflush(fo); };

  if (opt.count("--replay")) {
    RunSpec sp; std::string ex, pr; u64 hv = 0; 
    if (!readReplay(opt["--replay"], sp, pr, ex, hv)) { fprintf(stderr, "cannot read replay file\n"); return 3; }
    sp.trace = get("--trace", "0") == "1"; sp.maxSteps = strtoull(get("--max-steps", "3000000").c_str(), nullptr, 10);
    if (opt.count("--workload")) {}
    Outcome o = runOnce(h, sp);
    char b[200]; snprintf(b, sizeof b, "\",\"hash\":\"%016llx\",\"steps\":%llu,\"wall\":%.3f}", (unsigned long long)o.hash, (unsigned long long)o.steps, o.wall);
    emit(std::string("{\"replay\":1,\"status\":") + std::to_string(o.status) + ",\"kind\":\"" + esc(o.kind) + "\",\"msg\":\"" + esc(o.msg) + b);
    if (sp.trace) { fputs(o.trace.c_str(), fo); fflush(fo); }
    return 0;
  }

  u64 vseed = strtoull(get("--seed", "1").c_str(), nullptr, 10);
  u64 start = strtoull(get("--start", "0").c_str(), nullptr, 10), count = strtoull(get("--count", "100").c_str(), nullptr, 10), stride = strtoull(get("--stride", "1").c_str(), nullptr, 10);
  double tlimit = atof(get("--time", "1e9").c_str());
  u64 maxSteps = strtoull(get("--max-steps", "3000000").c_str(), nullptr, 10);
  std::string repdir = get("--replay-dir", "/tmp");
  bool hashes = get("--hashes", "0") == "1";
  u64 selfcheck = strtoull(get("--selfcheck", "0").c_str(), nullptr, 10); // re-run every n-th run and compare
  double t0 = realNow();
  u64 n = 0, skipped = 0, nontrivial = 0, steps = 0, simns = 0, switches = 0, choices = 0, rechecked = 0, mismatches = 0; double wall = 0;
  std::unordered_set<u64> sched, full; std::map<std::string, u64> probes, faults, skips; std::map<std::string, u64> perWl; 
  std::vector<std::string> samples;
  bool found = false;
  for (u64 i = start; i < count && realNow() - t0 < tlimit; i += stride) {
    RunSpec sp; sp.workload = workloads[mix64(i ^ 0x77aa) % workloads.size()]; // a function of the run number only, not of the worker layout
    sp.seed = mix64(mix64(vseed) ^ hashStr(prop.c_str()) ^ mix64(i * 2654435761ull + 17));
    sp.maxSteps = maxSteps;
    Outcome o = runOnce(h, sp);
    ++n; steps += o.steps; simns += o.simns; switches += o.switches; choices += o.choices; wall += o.wall; perWl[sp.workload]++;
    if (hashes) { char b[200]; snprintf(b, sizeof b, "{\"run\":%llu,\"status\":%d,\"hash\":\"%016llx\",\"sched\":\"%016llx\",\"wall\":%.4f,\"steps\":%llu}", (unsigned long long)i, o.status, (unsigned long long)o.hash, (unsigned long long)o.sched, o.wall, (unsigned long long)o.steps); emit(b); }
    if (o.status == SKIP) { ++skipped; skips[o.msg]++; continue; }
    for (auto& c : o.probes) probes[c.name] += c.n;
    for (auto& c : o.faults) faults[c.name] += c.n;
    if (!bad(o)) {
      if (!o.dec.empty()) ++nontrivial;
      sched.insert(o.sched); if (!o.dec.empty() || !o.faults.empty()) full.insert(o.hash);
      if (samples.size() < 3 && n % 7 == 1) {
        std::string s = "{\"run_seed\":" + std::to_string(sp.seed) + ",\"workload\":\"" + sp.workload + "\",\"params\":{";
        bool first = true; for (auto& p : o.params) { s += std::string(first ? "" : ",") + "\"" + p.name + "\":" + std::to_string(p.val); first = false; }
        s += "},\"steps\":" + std::to_string(o.steps) + ",\"nondefault_decisions\":" + std::to_string(o.dec.size()) + ",\"faults\":{";
        first = true; for (auto& c : o.faults) { s += std::string(first ? "" : ",") + "\"" + c.name + "\":" + std::to_string(c.n); first = false; }
        s += "}}"; samples.push_back(s);
      }
      if (selfcheck && n % selfcheck == 0) { Outcome o2 = runOnce(h, sp); ++rechecked; if (o2.hash != o.hash || o2.status != o.status) { ++mismatches; emit("{\"mismatch\":1,\"run\":" + std::to_string(i) + "}"); } }
      continue;
    }
    // candidate violation: same seed again must give the same log
    Outcome o2 = runOnce(h, sp);
    bool det = bad(o2) && o2.kind == o.kind && (o.status == HANG || o2.hash == o.hash);
    int tried = 0;
    std::string raw = repdir + "/" + prop + "-" + std::to_string(sp.seed) + ".raw.replay", mn = repdir + "/" + prop + "-" + std::to_string(sp.seed) + ".replay";
    Outcome m = o;
    if (det) {
      double saved = g_runTimeout; double mb = minBudget;
      if (o.status == HANG) { mb = std::min(mb, 0.0); }
      if (mb > 0) m = minimise(h, sp, o, mb, tried);
      g_runTimeout = saved;
      RunSpec fin = specOf(sp, m); fin.trace = true;
      Outcome t = o.status == HANG ? m : runOnce(h, fin);
      if (same(t, o.kind)) { writeReplay(mn, prop, sp, t, "minimised; trace below"); m = t; }
      else { writeReplay(mn, prop, sp, m, "minimised"); }
    } else writeReplay(mn, prop, sp, o, "NOT deterministic");
    emit("{\"violation\":1,\"run\":" + std::to_string(i) + ",\"seed\":" + std::to_string(sp.seed) + ",\"workload\":\"" + sp.workload + "\",\"deterministic\":" + (det ? "true" : "false") + ",\"kind\":\"" + esc(o.kind) + "\",\"msg\":\"" + esc(m.msg) + "\",\"decisions_before\":" + std::to_string(o.dec.size()) + ",\"decisions_after\":" + std::to_string(m.dec.size()) + ",\"minimise_runs\":" + std::to_string(tried) + ",\"replay\":\"" + mn + "\"}");
    if (det) { found = true; if (get("--keep-going", "0") != "1") break; }
  }
  (void)found;
  std::string s = "{\"summary\":1,\"runs\":" + std::to_string(n) + ",\"skipped\":" + std::to_string(skipped) + ",\"steps\":" + std::to_string(steps) + ",\"switches\":" + std::to_string(switches) + ",\"choices\":" + std::to_string(choices) + ",\"simns\":" + std::to_string(simns) + ",\"rechecked\":" + std::to_string(rechecked) + ",\"mismatches\":" + std::to_string(mismatches);
  char b[64]; snprintf(b, sizeof b, ",\"wall\":%.3f", realNow() - t0); s += b;
  auto mp = [&](const char* nm, const std::map<std::string, u64>& m) { s += std::string(",\"") + nm + "\":{"; bool f = true; for (auto& p : m) { s += std::string(f ? "" : ",") + "\"" + esc(p.first) + "\":" + std::to_string(p.second); f = false; } s += "}"; };
  mp("probes", probes); mp("faults", faults); mp("skips", skips); mp("workloads", perWl);
  s += ",\"samples\":["; for (size_t i = 0; i < samples.size(); ++i) s += (i ? "," : "") + samples[i]; s += "]";
  s += ",\"sched\":["; { bool f = true; char hb[24]; for (u64 x : sched) { snprintf(hb, sizeof hb, "%s\"%llx\"", f ? "" : ",", (unsigned long long)x); s += hb; f = false; } } s += "]";
  s += ",\"full\":["; { bool f = true; char hb[24]; for (u64 x : full) { snprintf(hb, sizeof hb, "%s\"%llx\"", f ? "" : ",", (unsigned long long)x); s += hb; f = false; } } s += "]";
  s += ",\"nontrivial_runs\":" + std::to_string(nontrivial) + "}";
  emit(s);
  if (fo != stdout) fclose(fo);
  return 0;
}
} // namespace sim
