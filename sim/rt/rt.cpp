// Runtime of the deterministic simulator: fibers + OpenMP runtime, memory-access hooks (preemption, race and
// lifetime detection), heap, randomness, clocks.  Compiled without instrumentation; see DESIGN.md.
#include "rt.h"
#include "shared.h"

#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <cmath>
#include <ctime>
#include <link.h>
#include <new>
#include <random>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <thread>
#include <unistd.h>
#include <dlfcn.h>

extern "C" {
int sim_active = 0;
void* __real_malloc(size_t);
void __real_free(void*);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
}

namespace sim {

Shared* sh = nullptr;
Env env;
Overrides ovr;

// ================================================================= helpers
uint64_t hstr(const char* s) {
  uint64_t h = 0xcbf29ce484222325ull;
  while (*s) h = (h ^ (unsigned char)*s++) * 0x100000001b3ull;
  return mix64(h);
}
uint64_t hbytes(const void* p, size_t n, uint64_t h) {
  const unsigned char* c = (const unsigned char*)p;
  uint64_t w;
  while (n >= 8) {
    __real_memcpy(&w, c, 8);
    h = hcomb(h, w);
    c += 8;
    n -= 8;
  }
  if (n) {
    w = 0;
    __real_memcpy(&w, c, n);
    h = hcomb(h, w + n * 0x100);
  }
  return h;
}

static uint64_t g_seed;
static char g_variant[16];
uint64_t case_seed() { return g_seed; }

void phase(const char* what) { snprintf(sh->phase, sizeof sh->phase, "%s", what); }

void fail(const char* cls, const char* fmt, ...) {
  Pause p;
  char buf[400];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  sh->failTotal++;
  for (int i = 0; i < sh->nfail; i++)
    if (!strcmp(sh->fails[i].cls, cls)) {
      sh->fails[i].count++;
      return;
    }
  if (sh->nfail >= kMaxFail) return;
  FailRec& f = sh->fails[sh->nfail];
  snprintf(f.cls, sizeof f.cls, "%s", cls);
  snprintf(f.msg, sizeof f.msg, "%s", buf);
  snprintf(f.phase, sizeof f.phase, "%s", sh->phase);
  f.count = 1;
  f.step = sh->steps;
  sh->nfail++;
}
int failures() { return sh->failTotal; }

void hist(const char* label, uint64_t h) {
  Pause p;
  sh->histHash = hcomb(sh->histHash, hcomb(hstr(label), h));
  if (sh->nhist < kMaxHist) {
    HistRec& r = sh->hist[sh->nhist];
    snprintf(r.label, sizeof r.label, "%s", label);
    r.h = h;
  }
  sh->nhist++;
}

void probe(const char* name, int n) {
  Pause p;
  for (int i = 0; i < sh->nprobe; i++)
    if (!strcmp(sh->probes[i].name, name)) {
      sh->probes[i].n += n;
      return;
    }
  if (sh->nprobe >= kMaxProbe) return;
  snprintf(sh->probes[sh->nprobe].name, sizeof sh->probes[0].name, "%s", name);
  sh->probes[sh->nprobe].n = n;
  sh->nprobe++;
}
void stat(const char* name, double v) {
  Pause p;
  for (int i = 0; i < sh->nstat; i++)
    if (!strcmp(sh->stats[i].name, name)) {
      sh->stats[i].sum += v;
      return;
    }
  if (sh->nstat >= kMaxStat) return;
  snprintf(sh->stats[sh->nstat].name, sizeof sh->stats[0].name, "%s", name);
  sh->stats[sh->nstat].sum = v;
  sh->nstat++;
}

// ================================================================= parameters
int param(const char* name, int lo, int hi, int calm) {
  Pause p;
  for (int i = 0; i < sh->nparam; i++)
    if (!strcmp(sh->params[i].name, name)) return sh->params[i].val;
  int v;
  if (!ovr.param(name, v)) {
    Rng r(hcomb(g_seed, hstr(name)));
    v = lo + int(r.below(uint64_t(int64_t(hi) - lo + 1)));
  } else {
    if (v < lo) v = lo;
    if (v > hi) v = hi;
  }
  if (sh->nparam < kMaxParam) {
    ParamRec& q = sh->params[sh->nparam++];
    snprintf(q.name, sizeof q.name, "%s", name);
    q.lo = lo;
    q.hi = hi;
    q.calm = calm;
    q.val = v;
  }
  return v;
}
int param1(const char* name, int lo, int hi) { return param(name, lo, hi, lo); }
double paramD(const char* name, double lo, double hi) { return lo + (hi - lo) * param(name, 0, 1000, 0) / 1000.0; }

static int vparam(const char* name, int lo, int hi, int calm) {
  char b[64];
  snprintf(b, sizeof b, "%s.%s", g_variant, name);
  return param(b, lo, hi, calm);
}

// ================================================================= arena
static const uintptr_t kArena = 0x600000000000ull;
static const size_t kArenaSize = 512ull << 20;
static const uintptr_t kShadow = 0x500000000000ull;
static const size_t kShadowSize = kArenaSize / 8;
static const size_t kRed = 32;
static unsigned char* const shadow = (unsigned char*)kShadow;
enum : unsigned char { SH_FREED = 0xFD, SH_RED = 0xFA };
struct Head {            // lies directly below the user memory
  uint32_t magic, size;  // user size
  uint32_t block, off;   // block size incl. redzones, offset of user memory from block start
};
static const uint32_t kLive = 0x51A11FE5, kDead = 0xDEADBEEF;
static uintptr_t a_lo, a_hi;  // bump pointers (up from a_lo, down from a_hi)
static const int kClasses = 4096;
static uintptr_t a_free[kClasses];  // free lists, link stored in Head of the dead block
static Rng a_rng(0);
static size_t a_live;  // live blocks
size_t live_blocks() { return a_live; }
static bool arena_mapped = false;

bool in_arena(const void* p) { return uintptr_t(p) - kArena < kArenaSize; }

static void fill_mem(void* p, size_t n, int mode) {
  unsigned char* c = (unsigned char*)p;
  switch (mode) {
    case 0: __real_memset(c, 0, n); break;
    case 1: __real_memset(c, 0xFF, n); break;
    case 2: __real_memset(c, 0x7F, n); break;
    case 3: __real_memset(c, 0x01, n); break;
    case 4: {
      for (size_t i = 0; i + 8 <= n; i += 8) {
        double d = (double(int64_t(a_rng.next() % 2001)) - 1000) / 64.0;
        __real_memcpy(c + i, &d, 8);
      }
      break;
    }
    default:
      for (size_t i = 0; i < n; i++) c[i] = (unsigned char)(a_rng.next() >> 13);
  }
}

static void arena_reset() {
  if (!arena_mapped) {
    void* a = mmap((void*)kArena, kArenaSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    void* b = mmap((void*)kShadow, kShadowSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (a != (void*)kArena || b != (void*)kShadow) {
      fprintf(stderr, "simrt: cannot map the arena\n");
      _exit(97);
    }
    arena_mapped = true;
  }
  a_live = 0;
  a_lo = kArena + 4096;
  a_hi = kArena + kArenaSize - 4096;
  __real_memset(a_free, 0, sizeof a_free);
  a_rng = Rng(hcomb(g_seed, hstr("arena")) + uint64_t(env.heap * 16 + env.fill));
}

// race-table hooks (below)
static void race_alloc(uintptr_t p, size_t n);
static void race_free(uintptr_t p, size_t n, uintptr_t pc);
extern "C" void sim_abort_case(int code);

void* arena_new(size_t n, size_t align) {
  if (align < 16) align = 16;
  if (n > 64u << 20) {
    fail("crash", "allocation request of %zu bytes", n);
    sim_abort_case(3);
  }
  size_t user = (n + 7) & ~size_t(7);
  if (user == 0) user = 8;
  size_t blk = (sizeof(Head) + kRed + align + user + kRed + 15) & ~size_t(15);
  size_t cls = blk / 16;
  uintptr_t b = 0;
  const int mode = env.heap;
  bool reuse = mode == 0 || mode == 2 || ((mode == 3 || mode == 4) && (a_rng.next() & 3));
  if (reuse && cls < kClasses && a_free[cls]) {
    if (mode == 3 && (a_rng.next() & 1)) {  // not the most recently freed one
      uintptr_t first = a_free[cls];
      uintptr_t second = *(uintptr_t*)first;
      if (second) {
        b = second;
        *(uintptr_t*)first = *(uintptr_t*)second;
      }
    }
    if (!b) {
      b = a_free[cls];
      a_free[cls] = *(uintptr_t*)b;
    }
    sh->cnt[C_HEAP_REUSE]++;
  } else {
    bool down = mode == 2 || (mode == 4 && (a_rng.next() & 1));
    size_t gap = (mode == 3 || mode == 4) ? (a_rng.next() & 15) * 16 : 0;
    if (down) {
      a_hi -= blk + gap;
      b = a_hi;
    } else {
      b = a_lo;
      a_lo += blk + gap;
    }
    if (a_lo + (1 << 20) > a_hi) {
      fail("crash", "the simulated heap is exhausted");
      sim_abort_case(3);
    }
  }
  uintptr_t u = (b + sizeof(uintptr_t) + kRed + sizeof(Head) + align - 1) & ~(align - 1);
  // poison everything of the block, then open the user part
  __real_memset(shadow + (b - kArena) / 8, SH_RED, blk / 8);
  Head* h = (Head*)(u - sizeof(Head));
  h->magic = kLive;
  a_live++;
  h->size = uint32_t(n);
  h->block = uint32_t(blk);
  h->off = uint32_t(u - b);
  size_t full = n / 8;
  __real_memset(shadow + (u - kArena) / 8, 8, full);
  if (n & 7) shadow[(u - kArena) / 8 + full] = (unsigned char)(n & 7);
  fill_mem((void*)u, user, env.fill);
  sh->cnt[C_ALLOC]++;
  if (env.fill) sh->cnt[C_GARBAGE]++;
  race_alloc(u, n);
  return (void*)u;
}

static void arena_free_at(void* p, uintptr_t pc) {
  uintptr_t u = uintptr_t(p);
  Head* h = (Head*)(u - sizeof(Head));
  if ((u & 15) || u < kArena + 64 || h->magic != kLive) {
    if (h->magic == kDead)
      fail("mem", "double free of a heap block (size %u) pc=0x%lx", h->size, (unsigned long)pc);
    else
      fail("mem", "free of an address that is not a live heap block pc=0x%lx", (unsigned long)pc);
    sim_abort_case(3);
  }
  race_free(u, h->size, pc);
  h->magic = kDead;
  a_live--;
  size_t g = (h->size + 7) / 8;
  if (!g) g = 1;
  __real_memset(shadow + (u - kArena) / 8, SH_FREED, g);
  uintptr_t b = u - h->off;
  size_t cls = h->block / 16;
  if (env.heap && env.fill) fill_mem((void*)u, h->size, env.fill == 5 ? 3 : env.fill);
  if (env.heap != 1 && cls < kClasses) {
    *(uintptr_t*)b = a_free[cls];
    a_free[cls] = b;
  } else {
    sh->cnt[C_HEAP_QUARANTINE]++;
  }
}
void arena_delete(void* p) { arena_free_at(p, (uintptr_t)__builtin_return_address(0)); }

static size_t arena_size(void* p) { return ((Head*)(uintptr_t(p) - sizeof(Head)))->size; }

static bool shadow_ok(uintptr_t a, size_t n) {
  uintptr_t e = a + n;
  while (a < e) {
    unsigned char s = shadow[(a - kArena) / 8];
    if (s == 0 || s > 8) return false;
    uintptr_t g = a & ~uintptr_t(7);
    uintptr_t stop = e < g + 8 ? e : g + 8;
    if (stop - g > s) return false;
    a = g + 8;
  }
  return true;
}
bool live(const void* p, size_t n) { return !in_arena(p) || shadow_ok(uintptr_t(p), n); }

// ================================================================= fibers
static const int kMaxTeam = 12;
static const size_t kStack = 1 << 20;
static const uintptr_t kStacks = 0x5f0000000000ull;
struct VC {
  uint32_t c[kMaxTeam];
};
struct WorkShare {
  long next = 0, end = 0, incr = 1, chunk = 1;
  unsigned long long unext = 0, uend = 0, uincr = 1, uchunk = 1;
  bool init = false, guided = false, ull = false, up = true;
  bool single = false;
  void* copy = nullptr;
  int kind = 0;
  int arrived = 0;
  long ordered_next = 0;
};
static const int kMaxWs = 4096;
struct Team {
  int n = 1;
  void (*fn)(void*) = nullptr;
  void* data = nullptr;
  WorkShare* ws = nullptr;  // [kMaxWs ring]
  int barrier_in = 0;
  unsigned barrier_gen = 0;
  VC barrier_vc;
  Team* parent = nullptr;
  int level = 0;
  int parent_tid = 0;
  WorkShare preset;
  bool has_preset = false;
};
enum FState { F_FREE, F_RUN, F_BLOCK, F_DONE };
struct Fiber {
  void* sp = nullptr;
  char* stack = nullptr;
  FState st = F_FREE;
  const void* wait = nullptr;
  Team* team = nullptr;
  int tid = 0;
  int wsn = 0;          // next work share ordinal
  VC vc;
  char* tls = nullptr;
  int in_obj = 0;
};
static Fiber fibers[kMaxTeam + 1];  // [0..] members of the active team; member 0 runs on the main stack
static Fiber* cur = &fibers[0];
static Team serial_team;            // implicit team of the initial thread
static int g_team_n = 1;            // >1 while a multi-fiber team is active
static Team* active = nullptr;
static uint64_t step_next;          // step at which something has to be done
static uint64_t g_steps, step_limit, preempt_at;
static uint32_t g_region;
static Rng s_rng(0);
static size_t ev_pos;               // replay position of explicit events
static bool explicit_ev;
static int g_icv = 4;
static uint64_t il_hash;            // interleaving signature
static int conf_threads = 0, obj_now = 0, obj_max = 0;

int cur_thread() { return cur->tid; }
int team_size() { return cur->team ? cur->team->n : 1; }
int region_ordinal() { return int(g_region); }
uint64_t steps() { return g_steps; }
uint64_t obj_concurrency() { return obj_max; }
void set_configured_threads(int n) {
  conf_threads = n > 0 ? n : (env.hw > 0 ? env.hw : 1);
  obj_max = 0;
}
bool company_on() { return !strcmp(g_variant, "co"); }

extern "C" void sim_abort_case(int code) {
  sim_active = 0;
  sh->steps = g_steps;
  sh->il_hash = il_hash;
  sh->status = ST_ABORTED;
  fflush(nullptr);
  _exit(code);
}

static void log_ev(char kind, uint64_t pos, uint64_t val) {
  if (sh->nev < kMaxEv) {
    EvRec& e = sh->ev[sh->nev];
    e.kind = kind;
    e.pos = pos;
    e.val = val;
  }
  sh->nev++;
}

static void limit_hit() {
  fail("hang", "no end within %lu simulated steps", (unsigned long)step_limit);
  sim_abort_case(4);
}
void set_step_limit(uint64_t more) {
  step_limit = g_steps + more;
  step_next = step_limit < preempt_at ? step_limit : preempt_at;
}

// ---- TLS of the executable is swapped with fibers
static char* tls_lo = nullptr;
static size_t tls_n = 0;
static const void* tls_img = nullptr;
static size_t tls_img_n = 0;
static int tls_cb(struct dl_phdr_info* info, size_t, void*) {
  static int first = 1;
  if (!first) return 0;
  first = 0;
  for (int i = 0; i < info->dlpi_phnum; i++)
    if (info->dlpi_phdr[i].p_type == PT_TLS) {
      tls_n = (info->dlpi_phdr[i].p_memsz + info->dlpi_phdr[i].p_align - 1) & ~(info->dlpi_phdr[i].p_align - 1);
      tls_img = (void*)(info->dlpi_addr + info->dlpi_phdr[i].p_vaddr);
      tls_img_n = info->dlpi_phdr[i].p_filesz;
    }
  return 1;
}
static void tls_init() {
  dl_iterate_phdr(tls_cb, nullptr);
  if (tls_n) {
    char* fs;
    asm("mov %%fs:0,%0" : "=r"(fs));
    tls_lo = fs - tls_n;
  }
}
static inline bool in_tls(uintptr_t a) { return a - uintptr_t(tls_lo) < tls_n; }

// ---- context switch (System V x86-64)
extern "C" void sim_switch(void** save, void* to);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  subq $8,%rsp
  stmxcsr (%rsp)
  fnstcw 4(%rsp)
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  ldmxcsr (%rsp)
  fldcw 4(%rsp)
  addq $8,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_switch,.-sim_switch
)");

static void switch_to(Fiber* f) {
  if (f == cur) return;
  Fiber* old = cur;
  if (tls_n) {
    __real_memcpy(old->tls, tls_lo, tls_n);
    __real_memcpy(tls_lo, f->tls, tls_n);
  }
  cur = f;
  sh->cnt[C_SWITCH]++;
  int a = sim_active;
  sim_switch(&old->sp, f->sp);
  sim_active = a;
}

static void arm_preemption() {
  preempt_at = UINT64_MAX;
  if (g_team_n > 1) {
    if (explicit_ev) {
      while (ev_pos < ovr.evs.size() && !(ovr.evs[ev_pos].kind == 'P' && ovr.evs[ev_pos].pos > g_steps)) ev_pos++;
      if (ev_pos < ovr.evs.size()) preempt_at = ovr.evs[ev_pos].pos;
    } else if (env.threads && env.mean > 0) {
      double u = s_rng.unit();
      uint64_t d = 1 + uint64_t(-std::log(1 - u) * env.mean);
      preempt_at = g_steps + d;
    }
  }
  step_next = step_limit < preempt_at ? step_limit : preempt_at;
}

// pick a runnable member; the stalled one only if there is no other
static int runnable(int* out) {
  int n = 0;
  for (int i = 0; i < g_team_n; i++)
    if (fibers[i].st == F_RUN) out[n++] = i;
  if (n > 1 && env.stall >= 0 && env.threads) {
    int s = env.stall % g_team_n, m = 0;
    for (int i = 0; i < n; i++)
      if (out[i] != s) out[m++] = out[i];
    if (m != n) {
      sh->cnt[C_STALL]++;
      n = m;
    }
  }
  return n;
}
static uint64_t disp_ord;
// the current fiber cannot go on: choose another
static void dispatch() {
  int r[kMaxTeam], n = runnable(r);
  if (n == 0) {
    fail("hang", "deadlock: no simulated thread can run");
    sim_abort_case(4);
  }
  uint64_t ord = disp_ord++;
  int v = 0;
  if (n > 1) {
    if (explicit_ev) {
      for (auto& e : ovr.evs)
        if (e.kind == 'D' && e.pos == ord) v = int(e.val % uint64_t(n));
    } else if (env.threads) {
      v = int(s_rng.below(n));
      if (v) log_ev('D', ord, v);
    }
  }
  sh->cnt[C_DISPATCH]++;
  il_hash = hcomb(il_hash, 0xD00 + uint64_t(r[v]));
  arm_preemption();
  switch_to(&fibers[r[v]]);
}

static void at_limit() {  // g_steps reached step_next
  if (g_steps >= step_limit) limit_hit();
  if (g_team_n > 1 && g_steps >= preempt_at) {
    int r[kMaxTeam], n = runnable(r), m = 0;
    int me = int(cur - fibers);
    for (int i = 0; i < n; i++)
      if (r[i] != me) r[m++] = r[i];
    if (m) {
      int v;
      if (explicit_ev)
        v = int(ovr.evs[ev_pos].val % uint64_t(m));
      else {
        v = int(s_rng.below(m));
        log_ev('P', g_steps, v);
      }
      sh->cnt[C_PREEMPT]++;
      il_hash = hcomb(hcomb(il_hash, g_steps), uint64_t(r[v]));
      arm_preemption();
      switch_to(&fibers[r[v]]);
      return;
    }
  }
  arm_preemption();
}
static inline void tick() {
  if (__builtin_expect(++g_steps >= step_next, 0)) at_limit();
}
void preempt_point() {
  if (!sim_active) return;
  tick();
}

InObjective::InObjective() {
  if (cur->in_obj++) return;  // a solver run inside the objective of another one
  obj_now++;
  if (obj_now > obj_max) obj_max = obj_now;
  if (conf_threads > 0 && obj_now > conf_threads)
    fail("threads", "%d threads run the objective at the same time, configured are %d", obj_now, conf_threads);
}
InObjective::~InObjective() {
  if (--cur->in_obj == 0) obj_now--;
}

// ================================================================= race detection
struct Acc {
  uint32_t clock;
  uint8_t tid, write, mask, atomic;
  uint32_t pc;
};
struct Gran {
  uintptr_t key;
  uint32_t region;
  uint8_t n;
  Acc a[6];
};
static const size_t kGran = 1 << 15;
static Gran* grans = nullptr;
static size_t gran_used;

static Gran* gran(uintptr_t key, bool create) {
  size_t i = mix64(key) & (kGran - 1);
  for (;;) {
    Gran& g = grans[i];
    if (g.region != g_region || g.key == 0) {
      if (!create) return nullptr;
      if (gran_used > kGran * 3 / 4) {
        sh->cnt[C_RACE_OVERFLOW]++;
        return nullptr;
      }
      gran_used++;
      g.region = g_region;
      g.key = key;
      g.n = 0;
      return &g;
    }
    if (g.key == key) return &g;
    i = (i + 1) & (kGran - 1);
  }
}

static void race_one(uintptr_t key, uint8_t mask, bool write, uintptr_t pc, bool atomic) {
  Gran* g = gran(key, true);
  if (!g) return;
  const int me = cur->tid;
  for (int i = 0; i < g->n; i++) {
    Acc& r = g->a[i];
    if (r.tid != me && (r.mask & mask) && (write || r.write) && !(atomic && r.atomic) && cur->vc.c[r.tid] < r.clock) {
      fail("race", "data race on %s memory: %s by thread %d pc=0x%lx and %s by thread %d pc=0x%x",
           in_arena((void*)(key << 3)) ? "heap" : "other", write ? "write" : "read", me, (unsigned long)pc,
           r.write ? "write" : "read", r.tid, r.pc);
      return;
    }
  }
  const uint32_t ck = cur->vc.c[me];
  for (int i = 0; i < g->n; i++) {
    Acc& r = g->a[i];
    if (r.tid == me && r.write == write && r.atomic == atomic) {
      if (r.clock == ck) {
        r.mask |= mask;
        return;
      }
      if ((r.mask & ~mask) == 0) {
        r.clock = ck;
        r.mask = mask;
        r.pc = uint32_t(pc);
        return;
      }
    }
  }
  int slot;
  if (g->n < 6)
    slot = g->n++;
  else
    slot = int(mix64(key + ck) % 6);
  g->a[slot] = Acc{ck, uint8_t(me), uint8_t(write), mask, uint8_t(atomic), uint32_t(pc)};
}
static void race_access(uintptr_t a, size_t n, bool write, uintptr_t pc, bool atomic = false) {
  if (in_tls(a)) return;
  if (cur->stack && a - uintptr_t(cur->stack) < kStack) return;  // own fiber stack
  uintptr_t e = a + n;
  while (a < e) {
    uintptr_t g = a & ~uintptr_t(7);
    uintptr_t stop = e < g + 8 ? e : g + 8;
    uint8_t mask = uint8_t(((1u << (stop - a)) - 1) << (a - g));
    race_one(g >> 3, mask, write, pc, atomic);
    a = g + 8;
  }
}
static void race_alloc(uintptr_t p, size_t n) {
  if (g_team_n < 2) return;
  for (uintptr_t g = p >> 3; g <= (p + n) >> 3; g++)
    if (Gran* q = gran(g, false)) q->n = 0;
}
static void race_free(uintptr_t p, size_t n, uintptr_t pc) {
  if (g_team_n < 2 || !n) return;
  race_access(p, n, true, pc);
}

// happens-before edges through synchronisation objects
struct SyncObj {
  uintptr_t key;
  uint32_t region;
  VC vc;
};
static const int kSync = 4096;
static SyncObj* syncs = nullptr;
static SyncObj* sync_of(uintptr_t key) {
  size_t i = mix64(key * 31 + 7) & (kSync - 1);
  for (int k = 0; k < kSync; k++) {
    SyncObj& s = syncs[i];
    if (s.region != g_region) {
      s.region = g_region;
      s.key = key;
      __real_memset(&s.vc, 0, sizeof s.vc);
      return &s;
    }
    if (s.key == key) return &s;
    i = (i + 1) & (kSync - 1);
  }
  return &syncs[i];
}
static void vc_join(VC& a, const VC& b) {
  for (int i = 0; i < kMaxTeam; i++)
    if (a.c[i] < b.c[i]) a.c[i] = b.c[i];
}
static void hb_acquire(const void* o) {
  if (g_team_n > 1) vc_join(cur->vc, sync_of(uintptr_t(o))->vc);
}
static void hb_release(const void* o) {
  if (g_team_n > 1) {
    vc_join(sync_of(uintptr_t(o))->vc, cur->vc);
    cur->vc.c[cur->tid]++;
  }
}

// ================================================================= memory access hook
static void bad_access(uintptr_t a, size_t n, bool write, uintptr_t pc) {
  const char* what = "outside any live block";
  for (uintptr_t q = a; q < a + n; q++) {
    unsigned char s = shadow[(q - kArena) / 8];
    if (s == SH_FREED) what = "in a freed block";
    else if (s == SH_RED) what = "out of the bounds of a block";
    else continue;
    break;
  }
  fail("mem", "%s of %zu bytes %s pc=0x%lx", write ? "write" : "read", n, what, (unsigned long)pc);
}
static inline void access(uintptr_t a, size_t n, bool write, uintptr_t pc) {
  if (a == uintptr_t(&sim_active)) return;
  if (!sim_active) return;
  tick();
  if (a - kArena < kArenaSize) {
    unsigned char s = shadow[(a - kArena) >> 3];
    if (__builtin_expect(!(s <= 8 && s != 0 && (a & 7) + n <= s), 0))
      if (!shadow_ok(a, n)) bad_access(a, n, write, pc);
  }
  if (g_team_n > 1) race_access(a, n, write, pc);
}

// ================================================================= lock support
struct LockRec {
  const void* key;
  int owner;  // fiber index, -1 free
  int depth;
};
static LockRec locks[256];
static int nlocks;
static LockRec* lock_of(const void* k) {
  for (int i = 0; i < nlocks; i++)
    if (locks[i].key == k) return &locks[i];
  if (nlocks >= 256) nlocks = 0;
  locks[nlocks] = LockRec{k, -1, 0};
  return &locks[nlocks++];
}
static void lock(const void* k, bool recursive = false) {
  if (g_team_n < 2) {
    LockRec* l = lock_of(k);
    if (l->owner >= 0 && !recursive) {
      fail("hang", "deadlock on a lock");
      sim_abort_case(4);
    }
    l->owner = 0;
    l->depth++;
    return;
  }
  tick();
  for (;;) {
    LockRec* l = lock_of(k);
    int me = int(cur - fibers);
    if (l->owner < 0 || (recursive && l->owner == me)) {
      l->owner = me;
      l->depth++;
      break;
    }
    cur->st = F_BLOCK;
    cur->wait = k;
    dispatch();
  }
  hb_acquire(k);
}
static bool trylock(const void* k) {
  LockRec* l = lock_of(k);
  if (l->owner >= 0) return false;
  l->owner = int(cur - fibers);
  l->depth = 1;
  hb_acquire(k);
  return true;
}
static void unlock(const void* k) {
  hb_release(k);
  LockRec* l = lock_of(k);
  if (--l->depth > 0) return;
  l->depth = 0;
  l->owner = -1;
  for (int i = 0; i < g_team_n; i++)
    if (fibers[i].st == F_BLOCK && fibers[i].wait == k) {
      fibers[i].st = F_RUN;
      fibers[i].wait = nullptr;
    }
  if (sim_active) tick();
}

// ================================================================= teams
static void barrier() {
  Team* t = cur->team;
  if (!t || t->n < 2) return;
  vc_join(t->barrier_vc, cur->vc);
  if (++t->barrier_in == t->n) {
    t->barrier_in = 0;
    t->barrier_gen++;
    VC all = t->barrier_vc;
    for (int i = 0; i < t->n; i++) {
      vc_join(fibers[i].vc, all);
      fibers[i].vc.c[i]++;
      if (fibers[i].st == F_BLOCK && fibers[i].wait == t) {
        fibers[i].st = F_RUN;
        fibers[i].wait = nullptr;
      }
    }
    tick();
    return;
  }
  cur->st = F_BLOCK;
  cur->wait = t;
  unsigned gen = t->barrier_gen;
  while (t->barrier_gen == gen) {
    cur->st = F_BLOCK;
    cur->wait = t;
    dispatch();
  }
  cur->st = F_RUN;
}

static void fiber_main() {
  sim_active = 1;
  Fiber* f = cur;
  f->team->fn(f->team->data);
  f->st = F_DONE;
  // the master waits for everybody
  if (fibers[0].st == F_BLOCK && fibers[0].wait == &fibers[0]) {
    bool all = true;
    for (int i = 1; i < g_team_n; i++)
      if (fibers[i].st != F_DONE) all = false;
    if (all) fibers[0].st = F_RUN;
  }
  dispatch();
  abort();
}

static void fiber_prepare(int i) {
  Fiber& f = fibers[i];
  if (!f.stack) {
    void* want = (void*)(kStacks + size_t(i + 2) * 4 * kStack);
    void* m = mmap(want, kStack, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (m != want) {
      fprintf(stderr, "simrt: cannot map a stack\n");
      _exit(97);
    }
    f.stack = (char*)m;
    if (env.fill) fill_mem(f.stack + kStack - 48 * 1024, 48 * 1024, env.fill);
    if (tls_n) {
      f.tls = (char*)__real_calloc(1, tls_n);
      __real_memcpy(f.tls, tls_img, tls_img_n);
    }
  }
  uintptr_t top = (uintptr_t(f.stack) + kStack - 64) & ~uintptr_t(15);
  uintptr_t* s = (uintptr_t*)top;
  *--s = 0;                       // keeps the stack 16-byte aligned at function entry
  *--s = (uintptr_t)&fiber_main;  // return address of sim_switch
  for (int k = 0; k < 6; k++) *--s = 0;
  uint32_t csr;
  uint16_t cw;
  asm volatile("stmxcsr %0" : "=m"(csr));
  asm volatile("fnstcw %0" : "=m"(cw));
  --s;
  *s = uint64_t(csr) | (uint64_t(cw) << 32);
  f.sp = s;
}

static void run_team(void (*fn)(void*), void* data, unsigned nreq, const WorkShare* preset) {
  sh->cnt[C_REGION]++;
  Team t;
  t.fn = fn;
  t.data = data;
  t.parent = cur->team ? cur->team : &serial_team;
  t.level = t.parent->level + 1;
  t.parent_tid = cur->tid;
  int want = nreq ? int(nreq) : g_icv;
  if (want < 1) want = 1;
  bool nested = t.level > 1 && cur->team && cur->team != &serial_team;
  int n = 1;
  if (!nested && sim_active) {
    uint64_t ord = sh->cnt[C_REGION];
    int cap = want < kMaxTeam ? want : kMaxTeam;
    if (explicit_ev) {
      for (auto& e : ovr.evs)
        if (e.kind == 'T' && e.pos == ord) n = int(e.val);
      if (n > cap) n = cap;
    } else if (env.threads && cap > 1) {
      // mostly everything that was asked for, sometimes less (OpenMP may grant fewer threads)
      uint64_t r = s_rng.below(8);
      n = r < 5 ? cap : r == 5 ? 2 : 1 + int(s_rng.below(cap));
      if (n != 1) log_ev('T', ord, n);
    }
    if (n < 1) n = 1;
  }
  t.n = n;
  t.ws = (WorkShare*)__real_calloc(n > 1 ? 64 : 4, sizeof(WorkShare));
  const int ring = n > 1 ? 64 : 4;
  (void)ring;
  if (preset) {
    t.preset = *preset;
    t.has_preset = true;
    t.ws[0] = *preset;
  }
  Team* oldTeam = cur->team;
  int oldTid = cur->tid, oldWs = cur->wsn;
  if (n == 1) {
    cur->team = &t;
    cur->tid = 0;
    cur->wsn = 0;
    int keep = g_team_n;
    // a serialised nested region keeps the identity of its thread for race detection
    int rt = oldTid;
    cur->tid = (keep > 1) ? rt : 0;
    fn(data);
    cur->team = oldTeam;
    cur->tid = oldTid;
    cur->wsn = oldWs;
    __real_free(t.ws);
    return;
  }
  sh->cnt[C_TEAM]++;
  if (n > sh->max_team) sh->max_team = n;
  g_region++;
  gran_used = 0;
  g_team_n = n;
  active = &t;
  __real_memset(&t.barrier_vc, 0, sizeof(VC));
  if (tls_n && !fibers[0].tls) fibers[0].tls = (char*)__real_calloc(1, tls_n);
  for (int i = 0; i < n; i++) {
    Fiber& f = fibers[i];
    if (i) fiber_prepare(i);
    f.team = &t;
    f.tid = i;
    f.wsn = 0;
    f.st = F_RUN;
    f.in_obj = 0;
    __real_memset(&f.vc, 0, sizeof(VC));
    f.vc.c[i] = 1;
  }
  il_hash = hcomb(il_hash, 0x7EA0 + uint64_t(n));
  arm_preemption();
  // who starts?
  {
    uint64_t ord = disp_ord++;
    int v = 0, r[kMaxTeam], m = runnable(r);
    if (explicit_ev) {
      for (auto& e : ovr.evs)
        if (e.kind == 'D' && e.pos == ord) v = int(e.val % uint64_t(m));
    } else if (env.threads) {
      v = int(s_rng.below(m));
      if (v) log_ev('D', ord, v);
    }
    if (&fibers[r[v]] != cur) switch_to(&fibers[r[v]]);
  }
  fn(data);
  // join
  for (;;) {
    bool all = true;
    for (int i = 1; i < n; i++)
      if (fibers[i].st != F_DONE) all = false;
    if (all) break;
    fibers[0].st = F_BLOCK;
    fibers[0].wait = &fibers[0];
    dispatch();
    fibers[0].st = F_RUN;
  }
  g_team_n = 1;
  active = nullptr;
  g_region++;
  cur->team = oldTeam;
  cur->tid = oldTid;
  cur->wsn = oldWs;
  __real_free(t.ws);
  arm_preemption();
}

static WorkShare* next_ws(bool& first) {
  Team* t = cur->team ? cur->team : &serial_team;
  if (!t->ws) t->ws = (WorkShare*)__real_calloc(64, sizeof(WorkShare));
  const int ring = t->n > 1 ? 64 : 4;
  int o = cur->wsn++;
  WorkShare* w = &t->ws[o % ring];
  int arrived = w->arrived;
  if (arrived == 0 || arrived >= t->n) {
    if (!(o == 0 && t->has_preset && !w->kind)) {
      *w = WorkShare();
    }
    w->kind = 1;
    w->arrived = 0;
    first = true;
  } else {
    first = false;
  }
  w->arrived++;
  return w;
}
static WorkShare* cur_ws() {
  Team* t = cur->team ? cur->team : &serial_team;
  const int ring = t->n > 1 ? 64 : 4;
  int o = cur->wsn > 0 ? cur->wsn - 1 : 0;
  return &t->ws[o % ring];
}

static void ws_init(WorkShare* w, long start, long end, long incr, long chunk, bool guided) {
  w->init = true;
  w->next = start;
  w->incr = incr;
  w->guided = guided;
  w->chunk = chunk;
  if (incr > 0)
    w->end = start > end ? start : end;
  else
    w->end = start < end ? start : end;
}
static bool ws_next(WorkShare* w, long* a, long* b) {
  tick();
  if (w->next == w->end) return false;
  long left = (w->end - w->next);
  long iters = w->incr > 0 ? (left + w->incr - 1) / w->incr : (left + w->incr + 1) / w->incr;
  long c = w->chunk;
  if (w->guided) {
    long q = (iters + team_size() - 1) / team_size();
    c = q > w->chunk ? q : w->chunk;
  }
  // like libgomp: a chunk of zero iterations is handed out over and over
  if (c > iters) c = iters;
  *a = w->next;
  long e = w->next + c * w->incr;
  if (c == iters) e = w->end;
  *b = e;
  w->next = e;
  sh->cnt[C_CHUNK]++;
  il_hash = hcomb(il_hash, uint64_t(cur->tid) * 131071 + uint64_t(*a));
  return true;
}

}  // namespace sim

using namespace sim;

// ================================================================= libgomp / omp API
extern "C" {
typedef void (*ompfn)(void*);
void GOMP_parallel(ompfn fn, void* data, unsigned nth, unsigned) { run_team(fn, data, nth, nullptr); }
unsigned GOMP_parallel_reductions(ompfn fn, void* data, unsigned nth, unsigned) {
  run_team(fn, data, nth, nullptr);
  return 1;
}
static void par_loop(ompfn fn, void* data, unsigned nth, long start, long end, long incr, long chunk, bool guided) {
  WorkShare w;
  ws_init(&w, start, end, incr, chunk, guided);
  run_team(fn, data, nth, &w);
}
// in combined constructs the body starts with GOMP_loop_*_next: the preset share is share number 0
#define PARLOOP(name, guided)                                                                                       \
  void GOMP_parallel_loop_##name(ompfn fn, void* data, unsigned nth, long s, long e, long i, long c, unsigned) {    \
    par_loop(fn, data, nth, s, e, i, c, guided);                                                                    \
  }
PARLOOP(dynamic, false)
PARLOOP(nonmonotonic_dynamic, false)
PARLOOP(guided, true)
PARLOOP(nonmonotonic_guided, true)
PARLOOP(static, false)
void GOMP_parallel_loop_runtime(ompfn fn, void* data, unsigned nth, long s, long e, long i, unsigned) {
  par_loop(fn, data, nth, s, e, i, 1, false);
}
void GOMP_parallel_loop_nonmonotonic_runtime(ompfn fn, void* data, unsigned nth, long s, long e, long i, unsigned) {
  par_loop(fn, data, nth, s, e, i, 1, false);
}
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(ompfn fn, void* data, unsigned nth, long s, long e, long i, unsigned) {
  par_loop(fn, data, nth, s, e, i, 1, false);
}
static bool loop_next(long* a, long* b) {
  Team* t = cur->team ? cur->team : &serial_team;
  if (cur->wsn == 0 && t->has_preset) {  // join the preset share
    bool first;
    next_ws(first);
  }
  return ws_next(cur_ws(), a, b);
}
static bool loop_start(long s, long e, long i, long c, bool g, long* a, long* b) {
  bool first;
  WorkShare* w = next_ws(first);
  if (first) ws_init(w, s, e, i, c, g);
  return ws_next(w, a, b);
}
#define LOOPS(name, guided)                                                                                    \
  bool GOMP_loop_##name##_start(long s, long e, long i, long c, long* a, long* b) {                            \
    return loop_start(s, e, i, c, guided, a, b);                                                               \
  }                                                                                                            \
  bool GOMP_loop_##name##_next(long* a, long* b) { return loop_next(a, b); }
LOOPS(dynamic, false)
LOOPS(nonmonotonic_dynamic, false)
LOOPS(guided, true)
LOOPS(nonmonotonic_guided, true)
LOOPS(ordered_dynamic, false)
LOOPS(ordered_static, false)
LOOPS(ordered_guided, true)
bool GOMP_loop_static_start(long s, long e, long i, long c, long* a, long* b) {
  return loop_start(s, e, i, c ? c : 1, false, a, b);
}
bool GOMP_loop_static_next(long* a, long* b) { return loop_next(a, b); }
#define LOOPR(name)                                                                                                     \
  bool GOMP_loop_##name##_start(long s, long e, long i, long* a, long* b) { return loop_start(s, e, i, 1, false, a, b); } \
  bool GOMP_loop_##name##_next(long* a, long* b) { return loop_next(a, b); }
LOOPR(runtime)
LOOPR(nonmonotonic_runtime)
LOOPR(maybe_nonmonotonic_runtime)
void GOMP_loop_end(void) { barrier(); }
void GOMP_loop_end_nowait(void) {}
bool GOMP_loop_end_cancel(void) {
  barrier();
  return false;
}
// unsigned long long loops are mapped to long ones (ranges beyond 2^63 are not used)
typedef unsigned long long ull;
#define LOOPU(name, guided)                                                                                           \
  bool GOMP_loop_ull_##name##_start(bool, ull s, ull e, ull i, ull c, ull* a, ull* b) {                               \
    return loop_start(long(s), long(e), long(i), long(c), guided, (long*)a, (long*)b);                                \
  }                                                                                                                   \
  bool GOMP_loop_ull_##name##_next(ull* a, ull* b) { return loop_next((long*)a, (long*)b); }
LOOPU(dynamic, false)
LOOPU(nonmonotonic_dynamic, false)
LOOPU(guided, true)
LOOPU(nonmonotonic_guided, true)
LOOPU(static, false)
#define LOOPUR(name)                                                                     \
  bool GOMP_loop_ull_##name##_start(bool, ull s, ull e, ull i, ull* a, ull* b) {         \
    return loop_start(long(s), long(e), long(i), 1, false, (long*)a, (long*)b);          \
  }                                                                                      \
  bool GOMP_loop_ull_##name##_next(ull* a, ull* b) { return loop_next((long*)a, (long*)b); }
LOOPUR(runtime)
LOOPUR(nonmonotonic_runtime)
LOOPUR(maybe_nonmonotonic_runtime)

void GOMP_barrier(void) { barrier(); }
bool GOMP_barrier_cancel(void) {
  barrier();
  return false;
}
static char crit_default, atomic_default;
void GOMP_critical_start(void) { lock(&crit_default); }
void GOMP_critical_end(void) { unlock(&crit_default); }
void GOMP_critical_name_start(void** p) { lock(p); }
void GOMP_critical_name_end(void** p) { unlock(p); }
void GOMP_atomic_start(void) { lock(&atomic_default); }
void GOMP_atomic_end(void) { unlock(&atomic_default); }
bool GOMP_single_start(void) {
  bool first;
  next_ws(first);
  return first;
}
void* GOMP_single_copy_start(void) {
  bool first;
  WorkShare* w = next_ws(first);
  if (first) return nullptr;
  while (!w->copy) {
    int r[kMaxTeam];
    (void)r;
    barrier();
  }
  return w->copy;
}
void GOMP_single_copy_end(void* d) {
  cur_ws()->copy = d;
  barrier();
}
unsigned GOMP_sections_start(unsigned n) {
  bool first;
  WorkShare* w = next_ws(first);
  if (first) ws_init(w, 1, long(n) + 1, 1, 1, false);
  long a, b;
  return ws_next(w, &a, &b) ? unsigned(a) : 0;
}
unsigned GOMP_sections_next(void) {
  long a, b;
  return loop_next(&a, &b) ? unsigned(a) : 0;
}
void GOMP_sections_end(void) { barrier(); }
void GOMP_sections_end_nowait(void) {}
void GOMP_parallel_sections(ompfn fn, void* data, unsigned nth, unsigned count, unsigned) {
  par_loop(fn, data, nth, 1, long(count) + 1, 1, 1, false);
}
void GOMP_ordered_start(void) { lock(&crit_default); }
void GOMP_ordered_end(void) { unlock(&crit_default); }
void GOMP_task(ompfn fn, void* data, void (*cpyfn)(void*, void*), long size, long align, bool, unsigned, void**, int, void*) {
  if (cpyfn) {
    char* buf = (char*)__real_malloc(size_t(size + align));
    char* a = (char*)((uintptr_t(buf) + size_t(align) - 1) & ~uintptr_t(align - 1));
    cpyfn(a, data);
    fn(a);
    __real_free(buf);
  } else
    fn(data);
}
void GOMP_taskwait(void) {}
void GOMP_taskyield(void) { tick(); }
void GOMP_taskgroup_start(void) {}
void GOMP_taskgroup_end(void) {}

int omp_get_num_threads(void) { return team_size(); }
int omp_get_thread_num(void) { return team_size() > 1 ? cur->tid : 0; }
int omp_get_max_threads(void) { return g_icv; }
int omp_get_num_procs(void) { return env.hw > 0 ? env.hw : 1; }
int omp_in_parallel(void) { return g_team_n > 1; }
void omp_set_num_threads(int n) { g_icv = n > 0 ? n : 1; }
void omp_set_dynamic(int) {}
int omp_get_dynamic(void) { return 0; }
void omp_set_nested(int) {}
int omp_get_nested(void) { return 0; }
void omp_set_max_active_levels(int) {}
int omp_get_max_active_levels(void) { return 1; }
int omp_get_level(void) { return cur->team ? cur->team->level : 0; }
int omp_get_active_level(void) { return g_team_n > 1; }
int omp_get_thread_limit(void) { return 1 << 30; }
int omp_get_ancestor_thread_num(int l) { return l == 0 ? 0 : cur->tid; }
int omp_get_team_size(int l) { return l == 0 ? 1 : team_size(); }
static double sim_clock() { return 1.6e9 + env.clock * 86400.0 * 997 + double(g_steps) * 1e-8; }
double omp_get_wtime(void) { return sim_clock(); }
double omp_get_wtick(void) { return 1e-9; }
void omp_init_lock(void** l) { *l = nullptr; }
void omp_destroy_lock(void**) {}
void omp_set_lock(void** l) { lock(l); }
void omp_unset_lock(void** l) { unlock(l); }
int omp_test_lock(void** l) { return trylock(l); }
void omp_init_nest_lock(void** l) { *l = nullptr; }
void omp_destroy_nest_lock(void**) {}
void omp_set_nest_lock(void** l) { lock(l, true); }
void omp_unset_nest_lock(void** l) { unlock(l); }

// ---------------------------------------------------------------- pthread locks used by instrumented code
int __wrap_pthread_mutex_lock(void* m) {
  if (!sim_active) return 0;
  lock(m);
  return 0;
}
int __wrap_pthread_mutex_trylock(void* m) {
  if (!sim_active) return 0;
  return trylock(m) ? 0 : EBUSY;
}
int __wrap_pthread_mutex_unlock(void* m) {
  if (!sim_active) return 0;
  unlock(m);
  return 0;
}
int __wrap_pthread_once(int* c, void (*fn)()) {
  if (!*c) {
    *c = 1;
    fn();
  }
  return 0;
}

// ---------------------------------------------------------------- guards of function-local statics
int __cxa_guard_acquire(unsigned char* g) {
  for (;;) {
    if (g[0]) {
      if (g_team_n > 1) hb_acquire(g);
      return 0;
    }
    if (!g[1]) {
      g[1] = 1;
      return 1;
    }
    if (g_team_n < 2) {
      fail("hang", "recursive initialisation of a static");
      sim_abort_case(4);
    }
    cur->st = F_BLOCK;
    cur->wait = g;
    dispatch();
  }
}
static void guard_done(unsigned char* g, bool ok) {
  g[1] = 0;
  if (ok) g[0] = 1;
  if (g_team_n > 1) hb_release(g);
  for (int i = 0; i < g_team_n; i++)
    if (fibers[i].st == F_BLOCK && fibers[i].wait == g) {
      fibers[i].st = F_RUN;
      fibers[i].wait = nullptr;
    }
}
void __cxa_guard_release(unsigned char* g) { guard_done(g, true); }
void __cxa_guard_abort(unsigned char* g) { guard_done(g, false); }

// ---------------------------------------------------------------- instrumentation callbacks
#define PC ((uintptr_t)__builtin_return_address(0))
void __tsan_init(void) {}
void __tsan_func_entry(void*) {
  if (sim_active) tick();
}
void __tsan_func_exit(void) {}
#define RW(n)                                                                  \
  void __tsan_read##n(void* p) { access(uintptr_t(p), n, false, PC); }         \
  void __tsan_write##n(void* p) { access(uintptr_t(p), n, true, PC); }         \
  void __tsan_unaligned_read##n(void* p) { access(uintptr_t(p), n, false, PC); } \
  void __tsan_unaligned_write##n(void* p) { access(uintptr_t(p), n, true, PC); } \
  void __tsan_volatile_read##n(void* p) { access(uintptr_t(p), n, false, PC); }  \
  void __tsan_volatile_write##n(void* p) { access(uintptr_t(p), n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) {
  if (n) access(uintptr_t(p), n, false, PC);
}
void __tsan_write_range(void* p, size_t n) {
  if (n) access(uintptr_t(p), n, true, PC);
}
void __tsan_vptr_update(void** p, void* v) {
  if (*p != v) access(uintptr_t(p), 8, true, PC);
}
void __tsan_vptr_read(void** p) { access(uintptr_t(p), 8, false, PC); }

static void atomic_pre(const volatile void* p, size_t n, bool write, int mo, uintptr_t pc) {
  if (!sim_active) return;
  tick();
  uintptr_t a = uintptr_t(p);
  if (in_arena((void*)a) && !shadow_ok(a, n)) bad_access(a, n, write, pc);
  if (g_team_n > 1) {
    race_access(a, n, write, pc, true);
    if (mo != 0) {
      hb_acquire((void*)a);
      if (write) hb_release((void*)a);
    }
  }
}
#define ATOM(bits, T)                                                                                                  \
  T __tsan_atomic##bits##_load(const volatile T* p, int mo) {                                                          \
    atomic_pre(p, sizeof(T), false, mo, PC);                                                                           \
    return *p;                                                                                                         \
  }                                                                                                                    \
  void __tsan_atomic##bits##_store(volatile T* p, T v, int mo) {                                                       \
    atomic_pre(p, sizeof(T), true, mo, PC);                                                                            \
    *p = v;                                                                                                            \
  }                                                                                                                    \
  T __tsan_atomic##bits##_exchange(volatile T* p, T v, int mo) {                                                       \
    atomic_pre(p, sizeof(T), true, mo, PC);                                                                            \
    T o = *p;                                                                                                          \
    *p = v;                                                                                                            \
    return o;                                                                                                          \
  }                                                                                                                    \
  T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int mo) {                                                      \
    atomic_pre(p, sizeof(T), true, mo, PC);                                                                            \
    T o = *p;                                                                                                          \
    *p = T(o + v);                                                                                                     \
    return o;                                                                                                          \
  }                                                                                                                    \
  T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int mo) {                                                      \
    atomic_pre(p, sizeof(T), true, mo, PC);                                                                            \
    T o = *p;                                                                                                          \
    *p = T(o - v);                                                                                                     \
    return o;                                                                                                          \
  }                                                                                                                    \
  T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int mo) {                                                      \
    atomic_pre(p, sizeof(T), true, mo, PC);                                                                            \
    T o = *p;                                                                                                          \
    *p = o & v;                                                                                                        \
    return o;                                                                                                          \
  }                                                                                                                    \
  T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int mo) {                                                       \
    atomic_pre(p, sizeof(T), true, mo, PC);                                                                            \
    T o = *p;                                                                                                          \
    *p = o | v;                                                                                                        \
    return o;                                                                                                          \
  }                                                                                                                    \
  T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int mo) {                                                      \
    atomic_pre(p, sizeof(T), true, mo, PC);                                                                            \
    T o = *p;                                                                                                          \
    *p = o ^ v;                                                                                                        \
    return o;                                                                                                          \
  }                                                                                                                    \
  T __tsan_atomic##bits##_fetch_nand(volatile T* p, T v, int mo) {                                                     \
    atomic_pre(p, sizeof(T), true, mo, PC);                                                                            \
    T o = *p;                                                                                                          \
    *p = T(~(o & v));                                                                                                  \
    return o;                                                                                                          \
  }                                                                                                                    \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int) {                           \
    atomic_pre(p, sizeof(T), true, mo, PC);                                                                            \
    if (*p == *e) {                                                                                                    \
      *p = v;                                                                                                          \
      return 1;                                                                                                        \
    }                                                                                                                  \
    *e = *p;                                                                                                           \
    return 0;                                                                                                          \
  }                                                                                                                    \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int fmo) {                         \
    return __tsan_atomic##bits##_compare_exchange_strong(p, e, v, mo, fmo);                                            \
  }                                                                                                                    \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T e, T v, int mo, int) {                                 \
    atomic_pre(p, sizeof(T), true, mo, PC);                                                                            \
    T o = *p;                                                                                                          \
    if (o == e) *p = v;                                                                                                \
    return o;                                                                                                          \
  }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// ---------------------------------------------------------------- wrapped C functions (only calls from our objects)
void* __wrap_memcpy(void* d, const void* s, size_t n) {
  if (sim_active && n) {
    access(uintptr_t(s), n, false, PC);
    access(uintptr_t(d), n, true, PC);
  }
  return __real_memcpy(d, s, n);
}
void* __wrap_memmove(void* d, const void* s, size_t n) {
  if (sim_active && n) {
    access(uintptr_t(s), n, false, PC);
    access(uintptr_t(d), n, true, PC);
  }
  return __real_memmove(d, s, n);
}
void* __wrap_memset(void* d, int c, size_t n) {
  if (sim_active && n) access(uintptr_t(d), n, true, PC);
  return __real_memset(d, c, n);
}
void* __wrap_malloc(size_t n) { return sim_active ? arena_new(n, 16) : __real_malloc(n); }
void __wrap_free(void* p) {
  if (!p) return;
  if (in_arena(p))
    arena_free_at(p, PC);
  else
    __real_free(p);
}
void* __wrap_calloc(size_t a, size_t b) {
  if (!sim_active) return __real_calloc(a, b);
  void* p = arena_new(a * b, 16);
  __real_memset(p, 0, a * b);
  return p;
}
void* __wrap_realloc(void* p, size_t n) {
  if (!p) return __wrap_malloc(n);
  if (!in_arena(p)) return __real_realloc(p, n);
  void* q = sim_active ? arena_new(n, 16) : __real_malloc(n);
  size_t o = arena_size(p);
  __real_memcpy(q, p, o < n ? o : n);
  arena_free_at(p, PC);
  return q;
}
int __wrap_posix_memalign(void** out, size_t al, size_t n) {
  *out = sim_active ? arena_new(n, al) : aligned_alloc(al, (n + al - 1) / al * al);
  return 0;
}
void* __wrap_aligned_alloc(size_t al, size_t n) { return sim_active ? arena_new(n, al) : aligned_alloc(al, n); }

// ---------------------------------------------------------------- clocks
int __real_clock_gettime(clockid_t, struct timespec*);
time_t __wrap_time(time_t* t) {
  sh->cnt[C_CLOCK]++;
  time_t v = time_t(sim_clock());
  if (t) *t = v;
  return v;
}
int __wrap_clock_gettime(clockid_t, struct timespec* ts) {
  sh->cnt[C_CLOCK]++;
  double v = sim_clock();
  ts->tv_sec = time_t(v);
  ts->tv_nsec = long((v - double(ts->tv_sec)) * 1e9);
  return 0;
}
int __wrap_gettimeofday(struct timeval* tv, void*) {
  sh->cnt[C_CLOCK]++;
  double v = sim_clock();
  tv->tv_sec = time_t(v);
  tv->tv_usec = 0;
  return 0;
}
clock_t __wrap_clock(void) {
  sh->cnt[C_CLOCK]++;
  return clock_t(g_steps) + env.clock * 100003;
}
}  // extern "C"

// clocks that live in libstdc++
namespace std {
namespace chrono {
inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept {
  if (sh) sh->cnt[C_CLOCK]++;
  return time_point(duration(int64_t(sim_clock() * 1e9)));
}
steady_clock::time_point steady_clock::now() noexcept {
  if (sh) sh->cnt[C_CLOCK]++;
  return time_point(duration(int64_t(sim_clock() * 1e9)));
}
}  // namespace _V2
}  // namespace chrono
unsigned int thread::hardware_concurrency() noexcept { return unsigned(env.hw); }

// ---------------------------------------------------------------- entropy device
static uint64_t entropy_n;
void random_device::_M_init(const std::string&) {}
void random_device::_M_fini() {}
random_device::result_type random_device::_M_getval() {
  if (sh) sh->cnt[C_ENTROPY]++;
  entropy_n++;
  // once numbers have been drawn, what the device says is different in every variant
  return result_type(mix64(env.stream + 0x51ull * entropy_n + (sim::rng_draws() ? sim::hstr(sim::g_variant) : 0)));
}
}  // namespace std

// ---------------------------------------------------------------- the random engine
namespace sim {
static uint64_t n_draws, n_rand;
static int redirect = 0;
static std::minstd_rand company_engine(12345);
static uint64_t rand_state = 88172645463325252ull, rand_company = 4711;
static Rng x_rng(0);
static int burst_left;
static uint32_t burst_val;
static uint64_t next_burst;
uint64_t rng_draws() { return n_draws + n_rand; }
void rng_redirect(int on) { redirect = on; }
static std::vector<uint32_t> tape;   // draws recorded (mode 1) and played back (mode 2)
static size_t tape_pos;
static int tape_mode;
void rng_tape(int mode) {
  Pause p;
  if (mode == 1) tape.clear();
  tape_pos = 0;
  tape_mode = mode;
}
long rng_tape_left() { return long(tape.size()) - long(tape_pos); }
void seed_rand(uint64_t s) { rand_state = mix64(s); }

static void draw_guard(const void* engine) {
  if (g_team_n > 1 && sim_active && !in_tls(uintptr_t(engine)) &&
      !(cur->stack && uintptr_t(engine) - uintptr_t(cur->stack) < kStack))
    fail("rngpar", "a random number is drawn from a shared generator while %d threads are working", g_team_n);
}
// seeded or explicit perturbation: bounded bursts of extreme values
static uint64_t perturb(uint64_t v, uint64_t max) {
  uint64_t k = n_draws + n_rand;
  if (explicit_ev) {
    for (auto& e : ovr.evs)
      if (e.kind == 'R' && e.pos == k) return e.val ? max : 0;
    return v;
  }
  if (!env.rngx) return v;
  if (burst_left > 0) {
    burst_left--;
  } else if (k >= next_burst) {
    burst_left = int(x_rng.below(3)) == 0 ? int(x_rng.below(12)) : int(x_rng.below(3));
    burst_val = uint32_t(x_rng.next() & 1);
    next_burst = k + 1 + x_rng.below(env.rngx == 1 ? 40 : env.rngx == 2 ? 400 : 8);
  } else
    return v;
  log_ev('R', k, burst_val);
  sh->cnt[C_RNGX]++;
  return burst_val ? max : 0;
}
}  // namespace sim

template <>
std::mt19937::result_type std::mt19937::operator()() {
  if (sim_active) tick();
  if (redirect) {
    return (uint32_t(company_engine()) << 7) ^ uint32_t(company_engine());
  }
  if (tape_mode == 2) return tape_pos < tape.size() ? tape[tape_pos++] : (tape_pos++, 0x5bd1e995u);
  if (_M_p >= state_size) _M_gen_rand();
  result_type z = _M_x[_M_p++];
  z ^= (z >> 11) & 0xffffffffUL;
  z ^= (z << 7) & 0x9d2c5680UL;
  z ^= (z << 15) & 0xefc60000UL;
  z ^= (z >> 18);
  if (!sh) return z;
  n_draws++;
  sh->cnt[C_DRAW]++;
  draw_guard(this);
  z = perturb(z, 0xffffffffUL);
  if (tape_mode == 1) {
    Pause p;
    tape.push_back(uint32_t(z));
  }
  return z;
}
extern "C" {
int __wrap_rand(void) {
  if (redirect) return int((rand_company = mix64(rand_company)) >> 33);
  if (sim_active) tick();
  n_rand++;
  sh->cnt[C_DRAW]++;
  draw_guard(&rand_state);
  rand_state = rand_state * 6364136223846793005ull + 1442695040888963407ull;
  return int(perturb(rand_state >> 33, 0x7fffffff));
}
long __wrap_random(void) { return __wrap_rand(); }
void __wrap_srand(unsigned s) {
  if (!redirect) rand_state = s;
}
}

// ---------------------------------------------------------------- operator new / delete
void* operator new(size_t n) { return sim_active ? arena_new(n, 16) : __real_malloc(n ? n : 1); }
void* operator new[](size_t n) { return sim_active ? arena_new(n, 16) : __real_malloc(n ? n : 1); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return sim_active ? arena_new(n, 16) : __real_malloc(n ? n : 1); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return sim_active ? arena_new(n, 16) : __real_malloc(n ? n : 1); }
void* operator new(size_t n, std::align_val_t a) { return sim_active ? arena_new(n, size_t(a)) : aligned_alloc(size_t(a), (n + size_t(a) - 1) / size_t(a) * size_t(a)); }
void* operator new[](size_t n, std::align_val_t a) { return sim_active ? arena_new(n, size_t(a)) : aligned_alloc(size_t(a), (n + size_t(a) - 1) / size_t(a) * size_t(a)); }
#define DEL(p)                                                    \
  {                                                               \
    if (!p) return;                                               \
    if (in_arena(p))                                              \
      arena_free_at(p, (uintptr_t)__builtin_return_address(0));   \
    else                                                          \
      __real_free(p);                                             \
  }
void operator delete(void* p) noexcept DEL(p)
void operator delete[](void* p) noexcept DEL(p)
void operator delete(void* p, size_t) noexcept DEL(p)
void operator delete[](void* p, size_t) noexcept DEL(p)
void operator delete(void* p, std::align_val_t) noexcept DEL(p)
void operator delete[](void* p, std::align_val_t) noexcept DEL(p)
void operator delete(void* p, size_t, std::align_val_t) noexcept DEL(p)
void operator delete[](void* p, size_t, std::align_val_t) noexcept DEL(p)

// ================================================================= running one variant of one case
namespace sim {
static void (*case_fn)();
static void* main_sp;
static void* case_sp;
static char* case_stack;

void poison_stack(size_t n) {
  // leave garbage in the part of the stack that the code under test is going to use
  char* p = (char*)__builtin_alloca(n);
  if (env.fill)
    fill_mem(p, n, env.fill);
  else
    __real_memset(p, 0, n);
  asm volatile("" : : "r"(p) : "memory");
}

static void case_entry() {
  case_fn();
  sim_active = 0;
  sim_switch(&case_sp, main_sp);
  abort();
}

static void on_alarm(int) {
  // wall-clock backstop for loops without instrumented accesses
  sim_active = 0;
  fail("hang", "no end within the wall-clock limit");
  sim_abort_case(4);
}
static void on_crash(int sig) {
  sim_active = 0;
  const char* n = sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "SIGABRT" : sig == SIGFPE ? "SIGFPE" : sig == SIGILL ? "SIGILL" : "SIGBUS";
  fail("crash", "%s", n);
  sim_abort_case(5);
}

static size_t stack_shift = 0;
void setup_env(const char* variant) {
  snprintf(g_variant, sizeof g_variant, "%s", variant);
  env = Env();
  env.stream = hcomb(g_seed, hstr("stream"));
  const bool all = !strcmp(variant, "all"), thr = all || !strcmp(variant, "thr"), heap = all || !strcmp(variant, "heap");
  if (thr) {
    static const int hws[] = {4, 2, 3, 8, 1, 0, 5, 7, 16, 64, 128, 6};
    static const int mts[] = {4, 2, 3, 8, 5, 12, 1, 64};
    static const int means[] = {0, 3, 12, 40, 150, 700, 4000};
    env.hw = hws[vparam("hw", 0, 11, 0)];
    env.maxth = mts[vparam("maxth", 0, 7, 0)];
    env.threads = 1;
    env.mean = means[vparam("mean", 0, 6, 0)];
    env.stall = vparam("stall", 0, 2, 0) == 1 ? vparam("stalled", 0, 7, 0) : -1;
  }
  if (heap) {
    env.heap = vparam("heap", 1, 4, 1);
    env.fill = vparam("fill", 0, 5, 0);
    env.clock = vparam("clock", -20, 20, 0);
    stack_shift = size_t(vparam("stack", 0, 4000, 0)) * 16;
  }
  if (all) {
    env.rngx = vparam("rngx", 0, 3, 0);
    env.stream = hcomb(env.stream, 77);
  }
  explicit_ev = vparam("explicit", 0, 1, 0) && ovr.explicit_mode;
  g_icv = env.maxth;
}

// returns 0 if the case body returned
int run_variant(uint64_t seed, const char* variant, void (*fn)(), unsigned wall) {
  g_seed = seed;
  signal(SIGALRM, on_alarm);
  static char alt[64 * 1024];
  stack_t ss{};
  ss.ss_sp = alt;
  ss.ss_size = sizeof alt;
  sigaltstack(&ss, nullptr);
  struct sigaction sa{};
  sa.sa_handler = on_crash;
  sa.sa_flags = SA_ONSTACK;
  for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGILL, SIGBUS}) sigaction(s, &sa, nullptr);
  sa.sa_handler = on_alarm;
  sigaction(SIGALRM, &sa, nullptr);
  itimerval it{};
  it.it_value.tv_sec = wall;
  setitimer(ITIMER_REAL, &it, nullptr);
  setup_env(variant);
  arena_reset();
  tls_init();
  grans = (Gran*)mmap(nullptr, kGran * sizeof(Gran), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  syncs = (SyncObj*)mmap(nullptr, kSync * sizeof(SyncObj), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  g_region = 1;
  s_rng = Rng(hcomb(hcomb(g_seed, hstr(variant)), hstr("sched")));
  x_rng = Rng(hcomb(hcomb(g_seed, hstr(variant)), hstr("rngx")));
  next_burst = x_rng.below(30);
  seed_rand(env.stream);
  step_limit = 120000000;
  preempt_at = UINT64_MAX;
  step_next = step_limit;
  void* want = (void*)kStacks;
  case_stack = (char*)mmap(want, 8 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (case_stack != want) {
    fprintf(stderr, "simrt: cannot map the case stack\n");
    _exit(97);
  }
  case_fn = fn;
  uintptr_t top = (uintptr_t(case_stack) + (8 << 20) - 64 - stack_shift) & ~uintptr_t(15);
  uintptr_t* s = (uintptr_t*)top;
  *--s = 0;
  *--s = (uintptr_t)&case_entry;
  for (int k = 0; k < 6; k++) *--s = 0;
  uint32_t csr;
  uint16_t cw;
  asm volatile("stmxcsr %0" : "=m"(csr));
  asm volatile("fnstcw %0" : "=m"(cw));
  --s;
  *s = uint64_t(csr) | (uint64_t(cw) << 32);
  sim_switch(&main_sp, s);
  sh->steps = g_steps;
  sh->il_hash = il_hash;
  sh->status = ST_DONE;
  return 0;
}
}  // namespace sim
