// Interface between the simulator runtime (rt.cpp, not instrumented) and the harness (instrumented).
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>

extern "C" {
extern int sim_active;  // 1 while code under test runs: arena, preemption, race and memory checks
void heu_sim_point(const void* solver, int stage) noexcept;
}

namespace sim {

// ---------------------------------------------------------------- hashing / pseudo-random numbers
inline uint64_t mix64(uint64_t z) {
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
inline uint64_t hcomb(uint64_t h, uint64_t v) { return mix64(h ^ (v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2))); }
uint64_t hstr(const char* s);
uint64_t hbytes(const void* p, size_t n, uint64_t h = 0x1234567);
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed) {}
  uint64_t next() { return mix64(s++); }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  double unit() { return double(next() >> 11) * (1.0 / 9007199254740992.0); }
};

// ---------------------------------------------------------------- scopes
// code under test runs inside Sut, everything of ours inside Pause
struct Pause {
  int s;
  Pause() : s(sim_active) { sim_active = 0; }
  ~Pause() { sim_active = s; }
  Pause(const Pause&) = delete;
};
struct Sut {
  int s;
  Sut() : s(sim_active) { sim_active = 1; }
  ~Sut() { sim_active = s; }
  Sut(const Sut&) = delete;
};

// ---------------------------------------------------------------- named parameters (overridable, recorded)
// value in [lo,hi], a function of (case seed, name) unless overridden; calm is what a minimiser tries first
int param(const char* name, int lo, int hi, int calm);
int param1(const char* name, int lo, int hi);                     // calm = lo
double paramD(const char* name, double lo, double hi);            // 1/1000 resolution
template <class... A>
int pick(const char* name, A... vals) {                           // one of the values, first is calm
  int v[] = {int(vals)...};
  return v[param(name, 0, int(sizeof...(A)) - 1, 0)];
}
uint64_t case_seed();

// ---------------------------------------------------------------- reporting
void fail(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void hist(const char* label, uint64_t h);   // one entry of the history of observables
void phase(const char* what);               // label of what is being done (for crash reports)
void probe(const char* name, int n = 1);    // "this rare condition was reached"
void stat(const char* name, double v);      // accumulated over cases
int failures();

// ---------------------------------------------------------------- simulated environment
struct Env {
  int threads = 0;     // 0: teams of one; 1: seeded teams and interleavings
  int heap = 0;        // arena layout / reuse policy
  int fill = 0;        // contents of fresh memory
  int clock = 0;       // wall clock base
  int hw = 4;          // reported processor count
  int maxth = 4;       // OpenMP nthreads-var
  int mean = 0;        // mean steps between preemptions (0: none)
  int stall = -1;      // stalled member of each team
  int rngx = 0;        // extreme random draws
  uint64_t stream = 0; // seed of the entropy device
};
extern Env env;
int  cur_thread();         // number of the simulated thread in its team
int  team_size();          // size of the current team (1 outside)
int  region_ordinal();
void preempt_point();      // explicit preemption point for callbacks
bool live(const void* p, size_t n);   // arena memory that is allocated (true for memory outside the arena)
bool in_arena(const void* p);
size_t live_blocks();                 // blocks of arena memory that are allocated
uint64_t steps();
uint64_t rng_draws();
void set_step_limit(uint64_t more);   // allow so many more steps
void rng_redirect(int on);            // company stream on/off
void seed_rand(uint64_t s);
void rng_tape(int mode);              // 1: record the engine's draws, 2: play them back, 0: neither
long rng_tape_left();                 // recorded draws not played back yet (negative: more were asked for)
void* arena_new(size_t n, size_t align);
void arena_delete(void* p);
void poison_stack(size_t n = 160 * 1024);
uint64_t obj_concurrency();           // max number of threads inside the objective at once
struct InObjective {                  // marks a thread as running the user's objective
  InObjective();
  ~InObjective();
};
void set_configured_threads(int n);   // 0: not configured, the processor count applies
bool company_on();                    // variant with company solvers
}  // namespace sim
