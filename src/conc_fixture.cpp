// Self-test of the scheduler (instrumented like the library): a query object with unprotected scratch memory, and one without.
#include "conc_fixture.hpp"
double Racy::query(double x) const { scratch = x * x; double r = 0; for (int i = 0; i < 3; ++i) { asm volatile("" ::: "memory"); r += scratch + i; } return r; }
double Clean::query(double x) const { double s = x * x, r = 0; for (int i = 0; i < 3; ++i) r += s + i; return r * gain; }
static double key = 0, val = 1;   // a cache: wrong only if preempted between the two writes
double Cached::query(double x) const { if (x == key) return val; double v = x * x + 1; key = x; val = v; return v; }
