// Simulated files: every path below /simfs/ lives in memory. The C library calls libstdc++'s file streams use are
// interposed; short transfers and interrupted calls are seeded decisions, errors are armed by the workload.
#include "core.hh"
#include <cerrno>
#include <dlfcn.h>
#include <fcntl.h>
#include <set>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/uio.h>

namespace sim {
namespace {
struct Open { std::string path; bool write = false; size_t at = 0; bool lost = false; };
std::map<std::string, std::string> disk; std::map<int, Open> fds; std::map<FILE*, int> streams;
struct Plan { int kind = 0; i64 at = 0, seen = 0; int fired = 0; };
std::map<int, Plan> plans; i64 full = -1, usedBytes = 0; bool active = false;
Plan& plan() { return plans[tls_task ? tls_task->id : -1]; }
bool hit(int kind, const char* name) { Plan& p = plan(); if (p.kind != kind) return false; if (p.seen++ != p.at) return false; p.fired++; E->fault(name); E->log("%s at operation %lld", name, (long long)p.at); return true; }
bool mine(const char* p) { return E && E->shm && !strncmp(p, "/simfs/", 7); }
}
}
using namespace sim;
extern "C" {
ssize_t read(int fd, void* b, size_t n) {
  if (!active) return syscall(SYS_read, fd, b, n);
  auto it = fds.find(fd); if (it == fds.end()) return syscall(SYS_read, fd, b, n);
  if (E->onTask()) E->yield("read");
  if (hit(4, "read-error")) { errno = EIO; return -1; }
  unsigned d = n > 1 ? sim_decide("io-read", 3, 200) : 0; if (d == 2) { E->fault("io-interrupted"); errno = EINTR; return -1; } if (d == 1) { E->fault("short-read"); n = 1 + n / 7 % 40; }
  return syscall(SYS_read, fd, b, n);
}
ssize_t write(int fd, const void* b, size_t n) {
  if (!active) return syscall(SYS_write, fd, b, n);
  auto it = fds.find(fd); if (it == fds.end()) return syscall(SYS_write, fd, b, n);
  if (E->onTask()) E->yield("write");
  if (hit(2, "write-error")) { errno = EIO; return -1; }
  { Plan& p = plan(); if (p.kind == 3) { if (p.seen >= p.at) { p.fired++; E->fault("disk-full"); errno = ENOSPC; return -1; } if (p.seen + (i64)n > p.at) n = p.at - p.seen; p.seen += n; } }
  unsigned d = n > 1 ? sim_decide("io-write", 3, 200) : 0; if (d == 2) { E->fault("io-interrupted"); errno = EINTR; return -1; } if (d == 1) { E->fault("short-write"); n = 1 + n / 3; }
  E->evBytes(b, n);
  return syscall(SYS_write, fd, b, n);
}
ssize_t writev(int fd, const struct iovec* v, int n) {
  if (!active || !fds.count(fd)) return syscall(SYS_writev, fd, v, n);
  for (int i = 0; i < n; ++i) if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len); // a short write
  return 0;
}
static FILE* simOpen(const char* path, const char* mode) {
  bool w = strchr(mode, 'w') || strchr(mode, 'a') || strchr(mode, '+'); if (E->onTask()) E->yield("open");
  if (hit(1, "open-error")) { errno = w ? EACCES : ENFILE; return nullptr; }
  auto it = disk.find(path); if (!w && it == disk.end()) { errno = ENOENT; return nullptr; }
  int fd = memfd_create("simfs", MFD_CLOEXEC); if (fd < 0) return nullptr;
  if (it != disk.end() && !strchr(mode, 'w')) { size_t o = 0; while (o < it->second.size()) o += syscall(SYS_write, fd, it->second.data() + o, it->second.size() - o); lseek(fd, strchr(mode, 'a') ? 0 : 0, strchr(mode, 'a') ? SEEK_END : SEEK_SET); }
  if (strchr(mode, 'w')) disk[path] = "";
  FILE* f = fdopen(fd, mode); Open o; o.path = path; o.write = w; fds[fd] = o; streams[f] = fd; active = true; E->log("open %s (%s)", path, mode); return f;
}
typedef FILE* (*fopen_t)(const char*, const char*);
FILE* fopen(const char* path, const char* mode) { static fopen_t f = (fopen_t)dlsym(RTLD_NEXT, "fopen"); return mine(path) ? simOpen(path, mode) : f(path, mode); }
FILE* fopen64(const char* path, const char* mode) { static fopen_t f = (fopen_t)dlsym(RTLD_NEXT, "fopen64"); return mine(path) ? simOpen(path, mode) : f(path, mode); }
int fclose(FILE* f) {
  static int (*real)(FILE*) = (int (*)(FILE*))dlsym(RTLD_NEXT, "fclose");
  if (!active) return real(f); auto it = streams.find(f); if (it == streams.end()) return real(f);
  fflush(f); int fd = it->second; Open o = fds[fd]; bool bad = o.write && hit(5, "close-error"); if (E->onTask()) E->yield("close");
  if (o.write) { std::string c; off_t n = lseek(fd, 0, SEEK_END); c.resize(n > 0 ? n : 0); lseek(fd, 0, SEEK_SET); size_t k = 0; while (k < c.size()) { ssize_t r = syscall(SYS_read, fd, &c[k], c.size() - k); if (r <= 0) break; k += r; } if (bad) c.resize(c.size() / 2); disk[o.path] = c; }
  fds.erase(fd); streams.erase(it); int r = real(f); if (bad) { errno = EIO; return EOF; } return r;
}
// stdio on simulated files is unbuffered
size_t fwrite(const void* b, size_t s, size_t n, FILE* f) {
  static size_t (*real)(const void*, size_t, size_t, FILE*) = (size_t (*)(const void*, size_t, size_t, FILE*))dlsym(RTLD_NEXT, "fwrite");
  if (!active) return real(b, s, n, f); auto it = streams.find(f); if (it == streams.end()) return real(b, s, n, f);
  size_t k = 0, t = s * n; while (k < t) { ssize_t r = write(it->second, (const char*)b + k, t - k); if (r < 0 && errno == EINTR) continue; if (r <= 0) break; k += r; } return s ? k / s : 0;
}
size_t fread(void* b, size_t s, size_t n, FILE* f) {
  static size_t (*real)(void*, size_t, size_t, FILE*) = (size_t (*)(void*, size_t, size_t, FILE*))dlsym(RTLD_NEXT, "fread");
  if (!active) return real(b, s, n, f); auto it = streams.find(f); if (it == streams.end()) return real(b, s, n, f);
  size_t k = 0, t = s * n; while (k < t) { ssize_t r = read(it->second, (char*)b + k, t - k); if (r < 0 && errno == EINTR) continue; if (r <= 0) break; k += r; } return s ? k / s : 0;
}
void sim_fs_set(const char* path, const void* p, size_t n) { disk[path] = std::string((const char*)p, n); }
const char* sim_fs_get(const char* path, size_t* n) { auto it = disk.find(path); if (it == disk.end()) return nullptr; if (n) *n = it->second.size(); return it->second.data(); }
void sim_fs_remove(const char* path) { disk.erase(path); }
void sim_fs_arm(int kind, long long at) { Plan& p = plan(); p.kind = kind; p.at = at; p.seen = 0; p.fired = 0; }
int sim_fs_fired(void) { return plan().fired; }
int sim_fs_open(void) { return (int)fds.size(); }
}
