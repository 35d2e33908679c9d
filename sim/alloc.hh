#ifndef SIM_ALLOC_HH
#define SIM_ALLOC_HH
#include "core.hh"
namespace sim {
void allocInit();
void allocScribble(int kind);
void allocFindModules();
void allocTaskInit();
}
#endif
