// Runs a plan against the real storage manager inside the simulator.
#ifndef VERIF_EXEC_H
#define VERIF_EXEC_H
#include "plan.h"
// phase 0: run the plan; 1: recovery after a crash, a power loss or a reported failure in phase 0
// how: 1 killed, 2 power loss (see Plan::crashSeed), 3 reported failure
void execute(const Plan &plan, sim::Shared *sh, int phase, int how, const unsigned char *wlog, size_t wlen, int64_t opStarted, int64_t opDone);
#endif
