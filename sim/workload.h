#ifndef SIM_WORKLOAD_H
#define SIM_WORKLOAD_H
enum { SIM_RANKS = 0,   /* one private library copy per task, MPI between them */
       SIM_THREADS = 1, /* one shared library copy, instrumented accesses are yield points */
       SIM_SINGLE = 2   /* one task */ };
struct SimWorkload {
  const char* name; int mode; int minTasks, maxTasks;
  void (*setup)(void);  /* THREADS: before the tasks start */
  void (*run)(void);    /* every task */
  void (*check)(void);  /* after all tasks ended */
  int strict;           /* RANKS: report unreceived messages / unfinished requests */
};
#ifdef __cplusplus
extern "C" {
#endif
__attribute__((visibility("default"))) const struct SimWorkload* sim_workloads(int* n);
#ifdef __cplusplus
}
#endif
#endif
