/* Interface between the simulator host and the code that runs inside a simulated run
   (workloads, compiled against the real dune-istl sources of /repo). */
#ifndef SIM_API_H
#define SIM_API_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
/* --- identity of the calling task (rank or thread) --- */
int sim_rank(void);
int sim_size(void);
/* --- run parameters: pure functions of (seed,name), identical on every task, overridable by a replay file.
       Minimisation shrinks them towards lo. --- */
long long sim_param(const char* name, long long lo, long long hi);
/* data seed of this run (not minimised) */
unsigned long long sim_seed(void);
/* a decision of the simulator: 0 = benign default, otherwise a fault/variation number < n.
   `permille` is the probability (of a value != 0) in search mode. */
unsigned sim_decide(const char* site, unsigned n, unsigned permille);
/* --- verdicts --- */
void sim_violation(const char* kind, const char* fmt, ...) __attribute__((noreturn, format(printf, 2, 3)));
/* the run is not a valid instance (e.g. generated data not usable): counted, not judged */
void sim_skip(const char* why) __attribute__((noreturn));
/* --- observation --- */
void sim_probe(const char* name);              /* coverage probe: "this rare condition was hit" */
void sim_fault_fired(const char* kind);        /* a fault really fired */
void sim_hash(const void* p, size_t n);        /* fold an observation into the run's event hash */
void sim_put(const char* key, const void* p, size_t n); /* per-rank blackboard */
const void* sim_get(const char* key, int rank, size_t* n);
void sim_log(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
/* explicit yield point */
void sim_yield(const char* what);
/* --- allocation faults: the k-th .. (k+burst-1)-th allocation from now on the calling task fails; k==0 disarms --- */
void sim_alloc_arm(long long k, long long burst);
long long sim_alloc_count(void);      /* allocations seen since arming */
int sim_alloc_fired(void);
/* hardened accounting of the blocks allocated by the code under test on the calling task */
void sim_alloc_mark(void);
void sim_alloc_unmark(void);
long long sim_alloc_live_blocks(void);
void sim_alloc_check(void);           /* fences and quarantine intact? */
void sim_alloc_describe(char* out, size_t n);
/* objects of the message passing library the calling rank has not released: 0 communicators, 1 datatypes, 2 requests */
long long sim_mpi_live(int what);
/* --- simulated files (paths below /simfs/). Faults of the calling task from now on: 1 the at-th open fails, 2 the at-th write
       fails, 3 the disk is full after `at` more bytes, 4 the at-th read fails, 5 the at-th close fails and loses data; 0 none --- */
void sim_fs_set(const char* path, const void* p, size_t n);
const char* sim_fs_get(const char* path, size_t* n);
void sim_fs_remove(const char* path);
void sim_fs_arm(int kind, long long at);
int sim_fs_fired(void);
int sim_fs_open(void);                /* files still open */
#ifdef __cplusplus
}
#endif
#endif
