#ifndef SIM_THREADS_HH
#define SIM_THREADS_HH
#include "core.hh"
namespace sim {
extern bool threadsActive;   // tasks of a THREADS run are running
void threadsSetup();
void threadsBegin(int n);
void threadsEnd();
void threadsMalloc(void* p, size_t n);
void threadsFree(void* p, size_t n, void* pc);
}
#endif
