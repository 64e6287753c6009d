// Helpers to run client threads under the simulated scheduler, as told by a plan.
#ifndef SIM_CONC_H
#define SIM_CONC_H
#include <functional>

#include "util.h"
void genSched(Plan& p, Rng& r);
simrt::SchedCfg schedOf(const Plan& p);
void runThreads(const Plan& p, int n, const std::function<void(int)>& body);
#endif
