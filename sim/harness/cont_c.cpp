// Containers shared by the threads of a parallel loop, and carried in a solver's arguments.
#include "cont.hpp"
#include "ga.hpp"

namespace hx {
namespace {
struct CArgs {
  heu::MatrixDynamicSize<double> dist;
  heu::MatrixFixedSize<double, 2, 3> bonus;
  heu::multiBitSet<5> code;
};
using CV = std::array<double, 3>;
int K = 7;                 // rows and columns of dist
std::vector<double> refDist;
std::vector<int> refCode;
double refBonus[6];
int wrong = 0;

double lookup(const CV& v, const CArgs& a) {  // what the user's objective computes from the shared containers
  double s = 0;
  for (int i = 0; i < 3; i++) {
    const int p = std::min(K - 1, std::max(0, int(v[size_t(i)] * K)));
    const int q = std::min(K - 1, std::max(0, int(v[size_t((i + 1) % 3)] * K)));
    s += a.dist(p, q) + a.bonus(size_t(i & 1), size_t(i)) + double(a.code[size_t(p * K + q)]);
    preempt_point();
  }
  return s;
}
double expected(const CV& v) {
  double s = 0;
  for (int i = 0; i < 3; i++) {
    const int p = std::min(K - 1, std::max(0, int(v[size_t(i)] * K)));
    const int q = std::min(K - 1, std::max(0, int(v[size_t((i + 1) % 3)] * K)));
    s += refDist[size_t(p + q * K)] + refBonus[(i & 1) + 2 * i] + refCode[size_t(p * K + q)];
  }
  return s;
}
void cInit(CV* v, const CArgs*) {
  for (double& x : *v) x = heu::randD();
}
void cFit(const CV* v, const CArgs* a, double* f) {
  *f = lookup(*v, *a);
  Pause p;
  if (dbits(*f) != dbits(expected(*v))) wrong++;
}
void cCross(const CV* a, const CV* b, CV* c, CV* d, const CArgs*) {
  for (size_t i = 0; i < 3; i++) (*c)[i] = 0.3 * (*a)[i] + 0.7 * (*b)[i], (*d)[i] = 0.7 * (*a)[i] + 0.3 * (*b)[i];
}
void cMut(const CV* a, CV* b, const CArgs*) {
  *b = *a;
  (*b)[heu::randIdx(size_t(3))] = heu::randD();
}
using CS = heu::SOGA<CV, heu::FITNESS_LESS_BETTER, heu::DONT_RECORD_FITNESS, SelectMethod::Tournament, CArgs, cInit, cFit, cCross, cMut>;

void fillRef(Rng& r) {
  refDist.resize(size_t(K * K));
  refCode.resize(size_t(K * K));
  for (double& d : refDist) d = r.unit();
  for (int& c : refCode) c = int(r.below(32));
  for (double& d : refBonus) d = r.unit();
}
void fillArgs(CArgs& a, int how) {
  sutOp([&] {
    if (how & 1) a.dist.reserve(K * K);
    a.dist.resize(K, K);
    for (int i = 0; i < K; i++)
      for (int j = 0; j < K; j++) a.dist(i, j) = refDist[size_t(i + j * K)];
    for (int i = 0; i < 6; i++) a.bonus[size_t(i)] = refBonus[i];
    if (how & 2) {
      a.code.resize(size_t(K * K));
      for (size_t i = 0; i < size_t(K * K); i++) a.code[i] = uint8_t(refCode[i]);
    } else
      for (size_t i = 0; i < size_t(K * K); i++) a.code.push_back(uint8_t(refCode[i]));
  });
}
void inSolver() {
  K = drawSize("k", 1, 12, 4, 24);
  Rng r(hcomb(case_seed(), 0xA465));
  fillRef(r);
  wrong = 0;
  const size_t b0 = live_blocks();
  CArgs& a = *make<CArgs>();
  phase("fill");
  fillArgs(a, param("how", 0, 3, 0));
  CS& s = *make<CS>();
  heu::GAOption o;
  o.populationSize = size_t(param("pop", 4, 24, 6));
  o.maxGenerations = size_t(param("gen", 1, 5, 2));
  o.maxFailTimes = 0;
  phase("setArgs");
  sut([&] {
    s.setOption(o);
    s.setArgs(a);
  });
  if (param("drop", 0, 1, 0)) {  // the solver keeps its own
    phase("clear");
    sutOp([&] {
      a.dist.fill(-1e9);
      a.code.clear();
    });
  }
  phase("run");
  sut([&] {
    s.initializePop();
    s.run();
  });
  uint64_t h = 1;
  for (const auto& g : s.population()) {
    Vec x = content(g.decision_variable);
    h = vhash(x, h);
    if (dbits(g.fitness) != dbits(expected(g.decision_variable))) wrong++;
  }
  hist("population", h);
  // a copy of the solver has containers of its own
  CS* n = copyMake(s);
  unmake(&s);
  phase("run of a copy");
  sut([&] { n->run(); });
  unmake(n);
  unmake(&a);
  if (wrong) fail("C20:shared", "%d values read from containers by a parallel objective are not what was stored", wrong);
  if (live_blocks() != b0) fail("C20:leak", "%ld blocks of memory were never released", long(live_blocks()) - long(b0));
}
// one loop: every thread reads everything and writes its own cells
void inLoop() {
  K = drawSize("k", 1, 12, 4, 24);
  Rng r(hcomb(case_seed(), 0xA466));
  fillRef(r);
  CArgs& a = *make<CArgs>();
  phase("fill");
  fillArgs(a, param("how", 0, 3, 0));
  using D = heu::MatrixDynamicSize<double>;
  D& out = *make<D>();
  sutOp([&] { out.resize(K, K); });
  heu::MatrixMap<double>* map = nullptr;
  void* mm = arena_new(sizeof(*map), 16);
  sutOp([&] { map = new (mm) heu::MatrixMap<double>(out.data(), size_t(K), size_t(K)); });
  const bool viaMap = param("map", 0, 1, 0);
  const int chunk = param("chunk", 1, 4, 1), team = param("team", 1, 6, 3);
  const CArgs& ca = a;
  set_configured_threads(team);
  phase("parallel loop");
  sut([&] {
#ifdef _OPENMP
#pragma omp parallel for schedule(dynamic, chunk) num_threads(team)
#endif
    for (int k = 0; k < K * K; k++) {
      const int i = k % K, j = k / K;
      double s = double(ca.code[size_t(k)]);
      for (int q = 0; q < K; q++) s += ca.dist(i, q) * ca.dist(q, j);
      for (const double& b : ca.bonus) s += b;
      if (viaMap) (*map)(size_t(i), size_t(j)) = s;
      else out(i, j) = s;
    }
  });
  (void)chunk;
  set_configured_threads(0);
  uint64_t h = 1;
  for (int k = 0; k < K * K; k++) {
    const int i = k % K, j = k / K;
    double s = refCode[size_t(k)];
    for (int q = 0; q < K; q++) s += refDist[size_t(i + q * K)] * refDist[size_t(q + j * K)];
    for (double b : refBonus) s += b;
    const double got = static_cast<const D&>(out)(i, j);
    h = hcomb(h, dbits(got));
    if (std::fabs(got - s) > 1e-9 * (1 + std::fabs(s))) {
      fail("C20:shared", "cell (%d,%d) written by a thread holds %g instead of %g", i, j, got, s);
      break;
    }
  }
  hist("cells", h);
  unmake(map);
  unmake(&out);
  unmake(&a);
}
}  // namespace
SCENARIO("cont_in_solver", inSolver, "cont")
SCENARIO("cont_in_loop", inLoop, "cont")
}  // namespace hx
