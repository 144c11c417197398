// Rates of crossover and mutation: who takes part, how often, and with whom, over many single generations.
#include <atomic>
#include "ga_tr.hpp"

namespace hx {
namespace {
using V1 = std::array<double, 2>;
constexpr int MAXN = 64, CHILD = 1000;
int born = 0;
struct Count {
  long parent[MAXN], source[MAXN];
  long pairs, children, mutants, childSources, badPairs;
  double apart;
} cnt;
double off = 0;

void vInit(V1* v) {
  (*v)[0] = double(born++ % MAXN);
  (*v)[1] = 0;
}
void vFit(const V1* v, double* f) { *f = off + std::fabs((*v)[0] - 3); }
void vFit2(const V1* v, Eigen::Array<double, 2, 1>* f) {
  (*f)[0] = off + (*v)[0];
  (*f)[1] = off - (*v)[0];
}
void vCross(const V1* a, const V1* b, V1* c, V1* d) {
  const int i = int((*a)[0]), j = int((*b)[0]);
  if (i < 0 || j < 0 || i >= MAXN || j >= MAXN || i == j) cnt.badPairs++;
  else {
    cnt.parent[i]++, cnt.parent[j]++;
    cnt.apart += std::abs(i - j);
  }
  cnt.pairs++, cnt.children += 2;
  *c = *a, *d = *b;
  (*c)[0] = CHILD + i, (*d)[0] = CHILD + j;
}
void vMut(const V1* a, V1* b) {
  const int i = int((*a)[0]);
  if (i < MAXN) cnt.source[i]++;
  else cnt.childSources++;
  cnt.mutants++;
  *b = *a;
  (*b)[0] = 2 * CHILD;
}

template <class S, int MaxN, int Rounds>
void vary() {
  const int n = param("n", 4, MaxN, 12), rounds = Rounds;
  static const double rates[] = {0.5, 0.1, 0.3, 0.8, 0.95, 0.05, 0.99, 0.02};
  const double pc = rates[param("cx", 0, 7, 0)], pm = rates[param("mu", 0, 7, 0)];
  off = param("off", 0, 2, 0) * 100.0;
  S& s = *make<S>();
  heu::GAOption o;
  o.populationSize = size_t(n);
  o.maxGenerations = 1;
  o.maxFailTimes = 0;
  o.crossoverProb = pc;
  o.mutateProb = pm;
  cnt = Count{};
  phase("run");
  for (int r = 0; r < rounds; r++) {
    born = 0;
    sutOp([&] {
      s.setOption(o);
      s.initializePop();
      s.run();
    });
  }
  unmake(&s);
  uint64_t h = uint64_t(cnt.pairs) * 1000003u + uint64_t(cnt.mutants);
  for (int i = 0; i < n; i++) h = hcomb(h, uint64_t(cnt.parent[i]) << 32 | uint64_t(cnt.source[i]));
  hist("takers", h);
  stat("generations varied", rounds);
  if (cnt.badPairs) fail("C15:parents", "%ld crossovers of an individual with itself or with a child", cnt.badPairs);
  if (env.rngx) return;  // extreme draws say nothing about frequencies
  const double odd = (1 - std::pow(1 - 2 * pc, n)) / 2;  // one parent without a partner
  const double used = n * pc - odd, R = rounds;
  auto far = [](double got, double due, double var) { return std::fabs(got - due) > 8 * std::sqrt(var) + 1; };
  if (far(2.0 * double(cnt.pairs), R * used, R * (n * pc * (1 - pc) + 1)))
    fail("C15:share", "%ld crossovers in %d generations of %d individuals at rate %g, %.0f are due", cnt.pairs, rounds, n, pc, R * used / 2);
  const double pool = R * n + double(cnt.children);
  if (far(double(cnt.mutants), pool * pm, pool * pm * (1 - pm) + 1))
    fail("C15:share", "%ld mutants of %.0f individuals at rate %g", cnt.mutants, pool, pm);
  if (far(double(cnt.childSources), double(cnt.children) * pm, double(cnt.children) * pm * (1 - pm) + 1))
    fail("C15:share", "%ld mutants of %ld children of the generation at rate %g", cnt.childSources, cnt.children, pm);
  for (int i = 0; i < n; i++) {
    const double p = used / n;
    if (far(double(cnt.parent[i]), R * p, R * p * (1 - p) + 1)) {
      fail("C15:share", "individual %d of %d was a crossover parent %ld times in %d generations at rate %g", i, n, cnt.parent[i], rounds, pc);
      break;
    }
    if (far(double(cnt.source[i]), R * pm, R * pm * (1 - pm) + 1)) {
      fail("C15:share", "individual %d of %d was mutated %ld times in %d generations at rate %g", i, n, cnt.source[i], rounds, pm);
      break;
    }
  }
  // partners are drawn at random, whatever their places
  if (cnt.pairs >= 60 && n >= 6 && !cnt.badPairs) {
    const double m = double(cnt.pairs), mean = (n + 1) / 3.0, var = double(n + 1) * double(n - 2) / 18.0;
    stat("z of the distance of partners", (cnt.apart - m * mean) / std::sqrt(m * var));
    if (far(cnt.apart, m * mean, m * var * 1.2 + 1))
      fail("C15:partners", "partners are %.2f places apart on average among %d individuals, %.2f is due to chance", cnt.apart / m, n, mean);
    probe("partners counted");
  }
  probe("rates of variation counted");
}
using So = heu::SOGA<V1, heu::FITNESS_LESS_BETTER, heu::DONT_RECORD_FITNESS, heu::SelectMethod::EliteReserved, void, vInit, vFit, vCross, vMut>;
using Mo = heu::NSGA2<V1, 2, heu::FITNESS_LESS_BETTER, heu::DONT_RECORD_FITNESS, void, vInit, vFit2, vCross, vMut>;
void so() { vary<So, 40, 300>(); }
void mo() { vary<Mo, 24, 120>(); }

// Atomic orbital search: the share of electrons that move without a photon
constexpr int AN = 24;
constexpr double STEP = 1, WALL = 1e6;
V1 seen[2 * AN];
std::atomic<int> seenNum{0};  // a team may evaluate
void aInit(V1* v) { (*v)[0] = heu::randD(-WALL, WALL), (*v)[1] = heu::randD(-WALL, WALL); }
void aFit(const V1* v, double* f) {
  const int k = seenNum.fetch_add(1);
  if (k < 2 * AN) seen[k] = *v;
  *f = std::fabs((*v)[0] - 1e5) + std::fabs((*v)[1]);
}
std::vector<int> layerSizes(int n, int layers) {
  std::vector<double> w(size_t(layers), 0.0);
  double sum = 0;
  for (int k = 0; k < layers; k++) {
    const double x = (k + 1) / (layers / 6.0);
    sum += w[size_t(k)] = std::exp(-x * x / 2);
  }
  std::vector<int> out;
  int used = 0;
  for (int k = 0; k < layers; k++) {
    const int m = std::min(int(std::round(w[size_t(k)] / sum * n)), n - used);
    used += m;
    if (m > 0) out.push_back(m);
  }
  return out;
}
void aos() {
  using S = heu::AOS_square<V1, heu::FITNESS_LESS_BETTER, heu::DONT_RECORD_FITNESS, void, aFit, aInit>;
  const int n = param("n", 6, AN, 12), layers = param("layers", 1, 12, 1), rounds = 250;
  static const double rates[] = {0.5, 0.1, 0.3, 0.8, 0.95, 0.03};
  const double pr = rates[param("rate", 0, 5, 0)];
  S& s = *make<S>();
  heu::AOSOption o;
  o.electronNum = size_t(n);
  o.maxGeneration = 1;
  o.maxEarlyStop = 100;
  o.maxLayerNum = size_t(std::min(layers, n));
  o.photonRate = pr;
  s.setRange(-WALL, WALL);
  s.setDelta(STEP);
  phase("run");
  long near = 0, all = 0;
  bool broken = false;
  std::vector<long> byRank(size_t(n), 0);
  uint64_t h = 3;
  // Sizes of the layers for every number of layers that may be drawn. Later layers take what rounding leaves over,
  // so numbers of layers whose sizes begin alike are counted together.
  const int most = int(o.maxLayerNum);
  std::vector<std::vector<int>> due;
  std::vector<int> group(static_cast<size_t>(most));
  std::vector<long> met(static_cast<size_t>(most), 0), share(static_cast<size_t>(most), 0);
  auto begins = [](const std::vector<int>& a, const std::vector<int>& b) { return a.size() <= b.size() && std::equal(a.begin(), a.end(), b.begin()); };
  for (int l = 1; l <= most; l++) due.push_back(layerSizes(n, l)), group[size_t(l - 1)] = l - 1;
  for (int a = 0; a < most; a++)
    for (int b = 0; b < most; b++)
      if (begins(due[size_t(a)], due[size_t(b)])) {
        const int x = group[size_t(a)], y = group[size_t(b)];
        for (int& g : group) g = g == x ? y : g;
      }
  for (int g : group) share[size_t(g)]++;
  for (int r = 0; r < rounds; r++) {
    seenNum = 0;
    sutOp([&] {
      s.setOption(o);
      s.initializePop();
      s.run();
    });
    std::vector<int> sizes;
    for (const auto& l : s.layers()) sizes.push_back(int(l.size()));
    const auto like = std::find_if(due.begin(), due.end(), [&](const auto& d) { return begins(d, sizes); });
    if (like == due.end()) {
      std::string t;
      for (int k : sizes) t += " " + std::to_string(k);
      fail("C17:sizes", "layers of%s electrons: no number of layers up to %d divides %d electrons by a Gaussian curve like this", t.c_str(), most, n);
      broken = true;
      break;
    }
    met[size_t(group[size_t(like - due.begin())])]++;
    if (seenNum != 2 * n) {
      fail("C17:count", "%d electrons of %d were evaluated in one generation", seenNum.load(), 2 * n);
      broken = true;
      break;
    }
    std::vector<std::pair<double, int>> rank;
    for (int i = 0; i < n; i++) rank.push_back({std::fabs(seen[i][0] - 1e5) + std::fabs(seen[i][1]), i});
    std::sort(rank.begin(), rank.end());
    for (int j = n; j < 2 * n; j++) {
      h = hcomb(h, hcomb(dbits(seen[j][0]), dbits(seen[j][1])));
      all++;
      for (int k = 0; k < n; k++) {
        const V1& p = seen[rank[size_t(k)].second];
        if (std::fabs(seen[j][0] - p[0]) <= STEP && std::fabs(seen[j][1] - p[1]) <= STEP) {
          near++;
          byRank[size_t(k)]++;
          break;
        }
      }
    }
  }
  unmake(&s);
  hist("electrons", h);
  stat("generations varied", rounds);
  if (env.rngx || broken) return;
  if (std::fabs(double(near) - double(all) * pr) > 8 * std::sqrt(double(all) * pr * (1 - pr)) + 2)
    fail("C17:share", "%ld of %ld electrons moved without a photon at photon rate %g", near, all, pr);
  for (int k = 0; k < n; k++)
    if (std::fabs(double(byRank[size_t(k)]) - rounds * pr) > 8 * std::sqrt(rounds * pr * (1 - pr)) + 2) {
      fail("C17:share", "the electron of rank %d of %d moved without a photon %ld times in %d generations at photon rate %g", k, n, byRank[size_t(k)], rounds, pr);
      break;
    }
  probe("share of photons counted");
  int kinds = 0;
  for (int g = 0; g < most; g++) {
    const double p = double(share[size_t(g)]) / most;
    kinds += p > 0;
    if (std::fabs(double(met[size_t(g)]) - rounds * p) > 8 * std::sqrt(rounds * p * (1 - p)) + 2)
      fail("C17:sizes", "layers with %d electrons in the first were made %ld times of %d, %.0f are due to an even choice of 1 to %d layers", due[size_t(g)][0],
           met[size_t(g)], rounds, rounds * p, most);
  }
  if (kinds > 2) probe("numbers of layers counted");
}
}  // namespace
SCENARIO("vary_orbital", aos, "varya")
SCENARIO("vary_single", so, "vary")
SCENARIO("vary_multi", mo, "vary")
}  // namespace hx
