// Cooperative tasks under a seeded scheduler: a task can be preempted wherever
// the library calls its environment (allocator, callbacks, file system).
#pragma once
#include "sim.h"
#include <functional>

namespace sched {
// runs all tasks to completion; every switch is a decision of the tape.
void run(const std::vector<std::function<void()>> &tasks, unsigned max_gap);
int current();           // running task, -1 outside
uint32_t fired(int t);   // faults injected into a task during the last run
void reset();            // after an abandoned run
}
