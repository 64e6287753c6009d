// Random histories of operations.
#ifndef SIM_HIST_H
#define SIM_HIST_H
#include "world.h"
struct Mix { int create, remove, state, topo, variant, multi; };
void genOps(Plan& p, Rng& r, size_t n, const Mix& m);      // appends n operations
void shape(Plan& p, Rng& r, int maxEq);                     // configuration of buildNetwork
void runOps(World& w, const Plan& p);
void buildAndRun(World& w, const Plan& p);                  // buildNetwork, then every operation of the plan; a working variant is selected afterwards
extern const char* const EXT_OPS[16];
#endif
