// Controlled scheduler for real threads running UMF code compiled with
// -fsanitize=thread and linked against the run time in sched.cpp.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <vector>
// Runs the bodies as threads under every schedule with at most `preemptions`
// preemptive switches (the engine enumerates; one call = one schedule).
void mt_run(const std::vector<std::function<void()>> &bodies, int preemptions);
void mt_mark();       // explicit scheduling point (operation boundary)
int mt_self();        // logical thread, 0.. ; -1 outside mt_run
bool mt_active();
uint64_t mt_clock();  // strictly increasing event counter
// wait until pred() holds (predicate over harness state), as a blocking op
void mt_wait(const std::function<bool()> &pred);
