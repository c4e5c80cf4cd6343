// Controlled two-thread scheduler driven by the compiler's memory-access instrumentation (see conc_rt.cpp).
#pragma once
#include <cstddef>
#include <cstdint>
struct RtAccess { uintptr_t g; int flags; };  // 8-byte granule address; 1 read, 2 write
struct RtConfig
{
  bool record = false;          // log shared accesses
  bool all_points = false;      // every shared access is a scheduling point (otherwise only granules in `points`)
  const uintptr_t *points = nullptr;
  size_t npoints = 0;           // sorted
  int first = 0;                // thread that starts
  long preempt[3] = { -1, -1, -1 };  // scheduling points at which the running thread is preempted
  RtAccess *log[2] = { nullptr, nullptr };
  size_t cap = 0;
  uintptr_t *wseen = nullptr;   // distinct granules written (up to wcap)
  size_t wcap = 0;
};
struct RtResult
{
  long npoints = 0;             // scheduling points met
  long naccess[2] = { 0, 0 };   // shared accesses per thread
  size_t nlog[2] = { 0, 0 };
  long nwrites[2] = { 0, 0 };   // writes to shared memory per thread
  bool blocked = false;         // both threads blocked (deadlock)
};
// run f0 and f1 (f1 may be null) as two threads under the scheduler
void rt_run(const RtConfig &cfg, void (*f0)(void *), void *a0, void (*f1)(void *), void *a1, RtResult &res);
