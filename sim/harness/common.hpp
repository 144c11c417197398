// Shared by all workloads: objective landscapes, recording of calls, company solvers, solver memory.
#pragma once
#include <Eigen/Dense>
#include <algorithm>
#include <array>
#include <cmath>
#include <cstring>
#include <limits>
#include <list>
#include <map>
#include <new>
#include <string>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <vector>

#include <HeuristicFlow/Genetic>
#include <HeuristicFlow/PSO>
#include <HeuristicFlow/AOS>

#include "../rt/rt.h"
#include "../rt/scenario.h"

namespace hx {
using namespace sim;
using Vec = std::vector<double>;
constexpr double kInf = std::numeric_limits<double>::infinity();

template <class V>
Vec content(const V& v) {
  const size_t n = size_t(v.size());
  Vec r(n);
  for (size_t i = 0; i < n; i++) r[i] = double(v.data()[i]);
  return r;
}
inline uint64_t dbits(double d) {
  if (d == 0) d = 0;  // -0 and 0 are the same value
  uint64_t u;
  memcpy(&u, &d, 8);
  return u;
}
inline uint64_t vhash(const Vec& v, uint64_t h = 99) {
  h = hcomb(h, v.size());
  for (double d : v) h = hcomb(h, dbits(d));
  return h;
}
inline bool same(const Vec& a, const Vec& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); i++)
    if (dbits(a[i]) != dbits(b[i])) return false;
  return true;
}
std::string show(const Vec& v);

// ------------------------------------------------------------------ objective landscapes (pure functions)
struct Land {
  int mode = 0;
  uint64_t salt = 1;
  int M = 1;           // objectives
  bool greater = false;
  double span = 1;     // scale of the variable
};
double land(const Land& L, const Vec& x, int obj);
inline Vec landv(const Land& L, const Vec& x) {
  Vec f(size_t(L.M));
  for (int j = 0; j < L.M; j++) f[size_t(j)] = land(L, x, j);
  return f;
}
// With a generation limit that is only a backstop the run must end by its failures: few different values.
inline bool fewValues(const Land& L) { return L.M == 1 && (L.mode == 2 || L.mode == 7 || L.mode == 8); }
template <class C>
void backstop(C& c, Land& L, bool fresh) {
  if (c.maxGen < 500) return;
  if (fresh && !fewValues(L)) L.mode = 7;
  if (!fewValues(L)) c.maxGen = 3;
  else probe("generation limit as a backstop");
}
Land pickLand(const char* prefix, int M, bool greater, bool allowInf);

// Now and then one extent leaves the range of a byte, a machine word of flags or a small buffer.
enum { EX_NONE = 0, EX_CANDIDATES = 1, EX_GENERATIONS = 2, EX_COMPONENTS = 3, EX_OBJECTIVES = 4, EX_LIMIT = 5 };
inline int drawSize(const char* name, int lo, int hi, int calm, int most, int every = 12) {
  const std::string n = name;
  if (param((n + "Large").c_str(), 0, every - 1, 0) < every - 1) return param(name, lo, hi, calm);
  return param((n + "Many").c_str(), hi + 1, most, hi + 1);
}
template <class In>
int drawExtent(In&& in) {
  static const int kinds[] = {EX_CANDIDATES, EX_GENERATIONS, EX_COMPONENTS, EX_OBJECTIVES, EX_LIMIT};
  const int e = in("extent", 0, 59, 0) - 55;
  if (e < 0) return EX_NONE;
  static const char* const names[] = {"hundreds of candidates", "hundreds of generations", "dozens of components", "many objectives", "a failure limit of hundreds"};
  probe(names[e]);
  return kinds[e];
}

// ------------------------------------------------------------------ recording what the solver asked its functions to do
struct Rec {
  bool on = false;
  Land land;
  uint64_t tag = 0;  // the argument object must carry it
  std::vector<Vec> calls;
  std::vector<Vec> born;  // results of the initialisation function
  struct Cross {
    Vec p1, p2, c1, c2, q1, q2;
    int kind;
    double rate;
  };
  struct Mut {
    Vec src, dst, src2;
  };
  std::vector<Cross> cross;
  std::vector<Mut> mut;
  int wrongArgs = 0;
  const void* own = nullptr;  // the solver's own argument object
  void clearBirths() {
    born.clear();
    cross.clear();
    mut.clear();
  }
};
extern Rec mainRec, companyRec;
extern int inCompany;
inline Rec& rec() { return inCompany ? companyRec : mainRec; }

// company solvers, driven at hooks, between operations and inside the objective
struct CompanyBase {
  virtual void act(Rng& r) = 0;
  virtual ~CompanyBase() {}
};
extern CompanyBase* company;
void companyTurn(int where, int percent);

template <class V, class F>
void objective(const V* v, F* f) {
  InObjective io;
  preempt_point();
  // plain instrumented reads of the variable and, later, a plain write of the result
  double acc = 0;
  const size_t n = size_t(v->size());
  for (size_t i = 0; i < n; i++) acc += double(v->data()[i]);
  volatile double sink = acc;
  (void)sink;
  Vec r;
  {
    Pause p;
    Rec& R = rec();
    Vec x = content(*v);
    if (R.on) R.calls.push_back(x);
    r = landv(R.land, x);
    if (!inCompany) companyTurn(9, 3);
  }
  preempt_point();
  if constexpr (std::is_same_v<F, double>) {
    *f = r[0];
  } else {
    for (size_t j = 0; j < r.size(); j++) (*f)[long(j)] = r[j];
  }
  {
    Pause p;
    r = Vec();
  }
  preempt_point();
}

// ------------------------------------------------------------------ observing solvers
struct ObsBase {
  const char *lo = nullptr, *hi = nullptr;
  virtual void stage(int st) = 0;
  virtual ~ObsBase() {}
};
void observe(ObsBase* o);
void unobserve(ObsBase* o);

template <class F>
__attribute__((noinline)) void sut(F&& f) {
  poison_stack();
  Sut s;
  f();
}
// the same for short operations
template <class F>
__attribute__((noinline)) void sutOp(F&& f) {
  poison_stack(4 * 1024);
  Sut s;
  f();
}
template <class S>
S* make() {
  void* m = arena_new(sizeof(S), alignof(S) < 16 ? 16 : alignof(S));
  S* s = nullptr;
  if constexpr (sizeof(S) < 400) sutOp([&] { s = new (m) S; });
  else sut([&] { s = new (m) S; });
  return s;
}
template <class S>
void unmake(S* s) {
  if constexpr (sizeof(S) < 400) sutOp([&] { s->~S(); });
  else sut([&] { s->~S(); });
  arena_delete(s);
}
// ------------------------------------------------------------------ copies of solvers
template <class S>
S* copyMake(const S& s) {
  void* m = arena_new(sizeof(S), alignof(S) < 16 ? 16 : alignof(S));
  S* n = nullptr;
  sut([&] { n = new (m) S(s); });
  return n;
}
// Replaces the solver of a workload by a copy of it and destroys the original, or lets a copy live for a while.
// What the solver reports must stay the same.
template <class H>
void relocate(H& h, int how) {
  if (!how) return;
  using S = typename H::S;
  phase("copy");
  const uint64_t before = h.fingerprint();
  S* old = h.s;
  S* n = nullptr;
  const bool on = mainRec.on;
  mainRec.on = false;
  mainRec.own = nullptr;
  switch (how) {
    case 1:
      n = copyMake(*old);
      break;
    case 2:
      n = make<S>();
      sut([&] { *n = *old; });
      break;
    case 3:  // into a solver that has a population and results of its own
      n = copyMake(*old);
      sut([&] { n->initializePop(); });
      sut([&] { n->run(); });
      sut([&] { *n = *old; });
      break;
    case 4: {
      void* m = arena_new(sizeof(S), alignof(S) < 16 ? 16 : alignof(S));
      sut([&] { n = new (m) S(std::move(*old)); });
      break;
    }
    case 5: {  // the copy runs and goes
      S* side = copyMake(*old);
      sut([&] { side->run(); });
      unmake(side);
      break;
    }
    default: {
      S& self = *old;
      sut([&] { *old = self; });
    }
  }
  if (n) {
    unobserve(&h);
    unmake(old);
    h.s = n;
    h.lo = (const char*)n;
    h.hi = h.lo + sizeof(S);
    observe(&h);
  }
  h.resnap();
  if (h.fingerprint() != before)
    fail("C05:copy", how == 5 ? "running a copy of a solver changed the original" : "a copied solver does not report what the original reported");
  mainRec.on = on;
  mainRec.calls.clear();
  probe("solver copied");
}
int pickThreads(const char* name);  // value for setThreadNum, 0: leave alone

// multiset of keys
struct Bag {
  std::unordered_map<uint64_t, int> m;
  size_t n = 0;
  void add(uint64_t k) {
    m[k]++;
    n++;
  }
  bool take(uint64_t k) {
    auto it = m.find(k);
    if (it == m.end() || it->second <= 0) return false;
    it->second--;
    n--;
    return true;
  }
  bool has(uint64_t k) const { return m.count(k) > 0; }
};
// candidates compared by content
struct Snap {
  const void* addr = nullptr;
  Vec x, fit;
  bool computed = false;
  uint64_t xkey = 0, key = 0;
  void keys() {
    xkey = vhash(x);
    key = vhash(fit, xkey);
  }
};
inline bool better(double a, double b, bool greater) { return greater ? a > b : a < b; }

template <class S>
auto ownArgs(const S& s, int) -> decltype((const void*)&s.args()) { return &s.args(); }
template <class S>
auto ownArgs(const S& s, long) -> decltype((const void*)&s.arg()) { return &s.arg(); }
template <class S>
const void* ownArgs(const S&, ...) { return nullptr; }
template <class Args>
void checkArgs(const Args* a, uint64_t tag, bool objective = false) {
  Pause p;
  Rec& R = rec();
  if (objective && !inCompany && R.own && R.own != a) fail("C01:args", "the objective was called with an argument object that is not the solver's own one");
  if (!a || a->tag != tag || a->payload.size() != 3 || a->payload[0] != double(tag % 1000) || a->payload[2] != double(tag % 77)) {
    R.wrongArgs++;
    if (!inCompany) fail("C01:args", "a user function was called with a foreign argument object");
    else fail("C05:args", "a user function of one solver was called with the argument object of another one");
  }
}
}  // namespace hx
