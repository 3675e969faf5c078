// Controlled OpenMP runtime with a happens-before race detector; see rt_omp.cpp.
#ifndef RT_HPP
#define RT_HPP
#include <cstdint>
#include <string>
#include <vector>
struct RtRace {
  std::string key, text;
};
struct RtStats {
  uint64_t regions, switches, accesses, syncs, points, counts;
};
// The explorer's decisions: free(n) and costly(n) return an alternative below n; 0 continues the running thread
// (costly) or takes the lowest thread (free).
typedef unsigned long (*RtChoose)(unsigned long n, bool costly);
void rt_begin(RtChoose);             // from now on, parallel regions are explored and their accesses recorded
std::vector<RtRace> rt_end();        // the races found since
void rt_name(const char* name, const void* p, unsigned long size);  // races here are reported under this name
RtStats rt_stats();
extern "C" void rt_yield();          // a scheduling point, if inside a region
void rt_yields(long n);              // only the next n yields count
extern "C" int rt_team();            // number of threads of the current region (1 outside)
#endif
