// Executes a plan on the simulated machine against the real libiff and judges every step.
#pragma once
#include "plan.h"
// solo >= 0: only set-up operations and those of one thread;  ref: the fault-free execution of the same plan
void execPlan(const Plan& p, int solo, bool dry, const Shared* ref);
void probeDeepNesting(int depth, size_t stack);   // known finding: reads a deeply nested file on a small stack (may crash)
