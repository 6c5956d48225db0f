#pragma once
#include <functional>
enum { MAX_THREADS = 4 };
void sched_run(int nthreads, uint32_t granularity, const std::function<bool(int)> &step);
int sched_tid();
