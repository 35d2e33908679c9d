#ifndef SIM_MPI_SIM_HH
#define SIM_MPI_SIM_HH
#include "core.hh"
extern "C" long long sim_clock_ns(void);
namespace sim {
void mpiSetup(int nranks);
void mpiTeardown(bool strict); // unmatched messages, unfinished requests
u64 mpiMessages();
unsigned& mpiRandState();
}
#endif
