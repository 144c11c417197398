// What a variant process leaves for its parent (a shared mapping), and the overrides a replay gives to it.
#pragma once
#include <cstdint>
#include <string>
#include <vector>

namespace sim {
constexpr int kMaxFail = 16, kMaxHist = 8192, kMaxProbe = 96, kMaxStat = 160, kMaxParam = 192, kMaxEv = 40000;
struct FailRec {
  char cls[24], msg[400], phase[64];
  int count;
  uint64_t step;
};
struct HistRec {
  char label[24];
  uint64_t h;
};
struct ProbeRec {
  char name[40];
  long n;
};
struct StatRec {
  char name[40];
  double sum;
};
struct ParamRec {
  char name[40];
  int lo, hi, calm, val;
};
struct EvRec {
  uint64_t pos, val;
  char kind;
};
enum Cnt {
  C_ALLOC, C_HEAP_REUSE, C_HEAP_QUARANTINE, C_GARBAGE, C_SWITCH, C_PREEMPT, C_DISPATCH, C_STALL, C_REGION, C_TEAM,
  C_CHUNK, C_DRAW, C_RNGX, C_ENTROPY, C_CLOCK, C_RACE_OVERFLOW, C_N
};
static const char* const kCntNames[C_N] = {"heap_allocations", "heap_immediate_reuse", "heap_quarantined", "garbage_filled_blocks",
  "fiber_switches", "preemptions", "dispatches", "stall_decisions", "parallel_regions", "multi_thread_teams", "loop_chunks",
  "random_draws", "extreme_random_draws", "entropy_reads", "clock_reads", "race_table_overflow"};
enum { ST_NONE = 0, ST_DONE = 1, ST_ABORTED = 2 };
struct Shared {
  int status, nfail, failTotal, nhist, nprobe, nstat, nparam, nev, max_team;
  uint64_t histHash, steps, il_hash;
  uint64_t cnt[C_N];
  char phase[64];
  FailRec fails[kMaxFail];
  HistRec hist[kMaxHist];
  ProbeRec probes[kMaxProbe];
  StatRec stats[kMaxStat];
  ParamRec params[kMaxParam];
  EvRec ev[kMaxEv];
};
struct Overrides {
  std::vector<std::pair<std::string, int>> params;
  std::vector<EvRec> evs;
  bool explicit_mode = false;
  bool param(const char* n, int& v) const {
    for (auto& p : params)
      if (p.first == n) {
        v = p.second;
        return true;
      }
    return false;
  }
};
extern Shared* sh;
extern Overrides ovr;
int run_variant(uint64_t seed, const char* variant, void (*fn)(), unsigned wall);
}  // namespace sim
