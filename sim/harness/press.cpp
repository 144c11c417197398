// Selection pressure: many independent selections among evenly spread distinct fitness values, in both directions.
#include "ga_tr.hpp"

namespace hx {
namespace {
using V1 = std::array<double, 2>;
std::vector<int> order;  // order[k] = rank of the k-th individual that is initialised, 0 is the fittest
size_t nextBorn = 0;
int N = 8;
double offset = 0, span = 1;
bool dirLess = true;
void pInit(V1* v) {
  (*v)[0] = double(order[nextBorn++ % order.size()]);
  (*v)[1] = 0;
}
double fitnessOf(int rank) {
  const double q = offset + span * double(N - 1 - rank) / double(N - 1);  // the fittest has the greatest
  return dirLess ? -q : q;
}
void pFit(const V1* v, double* f) { *f = fitnessOf(int((*v)[0])); }
void pCross(const V1* a, const V1* b, V1* c, V1* d) { *c = *a, *d = *b; }
void pMut(const V1* a, V1* b) { *b = *a; }

template <bool Less, int Method>
struct PressSolver {
  static constexpr auto fo = Less ? heu::FITNESS_LESS_BETTER : heu::FITNESS_GREATER_BETTER;
  static constexpr auto sm = Method < 0 ? SelectMethod::RunTimeSelectMethod : SelectMethod(Method);
  using type = heu::SOGA<V1, fo, heu::DONT_RECORD_FITNESS, sm, void, pInit, pFit, pCross, pMut>;
};

template <bool Less, int Method, class S>
void configure(S& s, int method, const GaCfg& c) {
  constexpr auto sm = PressSolver<Less, Method>::sm;
  if constexpr (Method < 0) s.setSelectMethod(SelectMethod(method));
  if constexpr (Method < 0 || sm == SelectMethod::Tournament) s.setTournamentSize(c.tsize);
  if constexpr (Method < 0 || sm == SelectMethod::LinearRank) s.setLinearSelectProbability(c.linW, c.linB);
  if constexpr (Method < 0 || sm == SelectMethod::ExponentialRank) s.setExponetialSelectBase(c.expC);
  if constexpr (Method < 0 || sm == SelectMethod::Boltzmann)
    if (c.setBolt) s.setBoltzmannSelectStrength(Less ? -c.bolt : c.bolt);
  if constexpr (Method < 0 || sm == SelectMethod::EliteReserved) s.setEliteNum(c.elite);
}
// one selection among N individuals of which K are kept
template <class S>
void once(S& s, int K, Rng& r) {
  {
    Pause p;
    order.resize(size_t(N));
    for (int k = 0; k < N; k++) order[size_t(k)] = k;
    for (size_t k = size_t(N); k > 1; k--) std::swap(order[k - 1], order[size_t(r.below(k))]);
    nextBorn = 0;
  }
  heu::GAOption o;
  o.maxGenerations = 0;
  o.maxFailTimes = 0;
  o.populationSize = size_t(N);
  sutOp([&] {
    s.setOption(o);
    s.initializePop();
    o.populationSize = size_t(K);
    s.setOption(o);
    s.run();
  });
}
// What was selected before, with other parameters, must not matter: by another solver or by the same one.
struct Prior {
  int kind, method, K;
  GaCfg c;
};
template <bool Less, int Method>
std::vector<long> survive(int K, int reps, int method, const GaCfg& c, const Prior& prior, Rng& r) {
  using S = typename PressSolver<Less, Method>::type;
  dirLess = Less;
  S* s = make<S>();
  if (prior.kind) {
    configure<Less, Method>(*s, prior.method, prior.c);
    once(*s, prior.K, r);
    if (prior.kind == 1) {
      unmake(s);
      s = make<S>();
    }
  }
  std::vector<long> n(size_t(N), 0);
  configure<Less, Method>(*s, method, c);
  for (int i = 0; i < reps; i++) {
    once(*s, K, r);
    for (auto& g : s->population()) {
      const double d = g.decision_variable[0];
      if (d >= 0 && d < N) n[size_t(d)]++;
    }
  }
  unmake(s);
  return n;
}

// How often each rank should survive: the documented law of each method, drawn here without the library.
// Draws without replacement in proportion to w are the K greatest of log(w) plus Gumbel noise.
// Empty where the law does not say.
std::vector<double> law(int K, int refs, int method, const GaCfg& c, Rng& r) {
  const size_t n = size_t(N), k = size_t(K);
  std::vector<double> p(n, 0.0), lw(n, 0.0);
  const double ninf = -std::numeric_limits<double>::infinity();
  size_t elites = 0;
  const double sum = double(N) / 2;  // of the weights (N - 1 - rank) / (N - 1)
  for (size_t i = 0; i < n; i++) {
    const double w = double(n - 1 - i) / double(n - 1), q = w / sum;
    switch (SelectMethod(method)) {
      case SelectMethod::RouletteWheel: lw[i] = w > 0 ? std::log(w) : ninf; break;
      case SelectMethod::Tournament: {  // duels among tsize of N
        p[i] = double(K) * double(c.tsize) / double(n);
        for (int d = 1; d < c.tsize; d++) p[i] *= std::max(0.0, double(n - i) - double(d)) / (double(n) - double(d));
        break;
      }
      case SelectMethod::Truncation: p[i] = i < k; break;
      case SelectMethod::MonteCarlo: p[i] = double(K) / double(N); break;
      case SelectMethod::Probability: lw[i] = q > 0 ? double(K) * std::log(q) + double(N - K) * std::log1p(-q) : ninf; break;
      case SelectMethod::LinearRank: {
        const double l = c.linW + (c.linB - c.linW) * w;
        lw[i] = l > 0 ? std::log(l) : ninf;
        break;
      }
      case SelectMethod::ExponentialRank: lw[i] = double(i) * std::log(c.expC); break;
      case SelectMethod::Boltzmann: lw[i] = (c.setBolt ? c.bolt : 10) * span * w; break;
      case SelectMethod::StochasticUniversal:
        if (double(K) / sum > 1) return {};  // somebody is due more than once
        p[i] = double(K) * q;
        break;
      case SelectMethod::EliteReserved:
        elites = size_t(c.elite);
        lw[i] = w > 0 ? std::log(w) : ninf;
        break;
      default: return {};
    }
  }
  switch (SelectMethod(method)) {
    case SelectMethod::Tournament:
    case SelectMethod::Truncation:
    case SelectMethod::MonteCarlo:
    case SelectMethod::StochasticUniversal: return p;
    default: break;
  }
  std::vector<std::pair<double, size_t>> key(n);
  for (int t = 0; t < refs; t++) {
    for (size_t i = 0; i < n; i++) {
      double u = double(r.next() >> 11) * 0x1p-53;
      u = u > 0 ? u : 0x1p-54;
      key[i] = {i < elites ? std::numeric_limits<double>::infinity() : lw[i] - std::log(-std::log(u)), i};
    }
    std::nth_element(key.begin(), key.begin() + long(k), key.end(), [](auto& a, auto& b) { return a.first > b.first; });
    for (size_t i = 0; i < k; i++) p[key[i].second] += 1;
  }
  for (double& x : p) x /= double(refs);
  return p;
}

struct Half {
  long top = 0, bottom = 0;
};
Half halves(const std::vector<long>& n) {
  Half h;
  for (size_t i = 0; i < n.size(); i++) (i < n.size() / 2 ? h.top : h.bottom) += n[i];
  return h;
}
double zOf(const Half& h) { return double(h.top - h.bottom) / std::sqrt(double(h.top + h.bottom) + 1e-9); }

template <int Method>
void press() {
  const int method = Method < 0 ? param("method", 0, 9, 0) : Method;
  N = 2 * param("n", 4, 8, 4);
  const bool big = param("big", 0, 3, 0) == 3;
  static const int bigs[] = {40, 100, 200, 300};
  if (big) N = bigs[param("bign", 0, 3, 0)];
  const int K = param("keep", std::max(3, N / 3), N / 2 + (N > 10), N / 2);
  const int reps = big ? std::max(20, 4800 / N) : 480;
  static const double offs[] = {0, 5, -3, 0.25}, spans[] = {1, 2, 0.5, 60, 1000};
  offset = offs[param("offset", 0, 3, 0)];
  span = spans[param("span", 0, 4, 0)];
  GaCfg c;
  c.tsize = std::min(2 + param("tsize", 0, 2, 1), K - 1);
  static const double ws[] = {0.1, 0, 0.2}, bs[] = {0.9, 1, 0.8};
  const int lin = param("lin", 0, 2, 0);
  c.linW = ws[lin], c.linB = bs[lin];
  static const double es[] = {0.8, 0.5, 0.7};
  c.expC = es[param("expc", 0, 2, 0)];
  c.setBolt = param("setbolt", 0, 1, 0);
  c.bolt = 4 + param("bolt", 0, 6, 0);
  c.elite = 1 + param("elite", 0, 1, 0);
  Prior prior;
  prior.kind = param("prior", 0, 2, 0);
  if (prior.kind == 2) c.setBolt = true;  // the same solver was given a strength before
  prior.method = (method + 3) % 10;
  prior.K = std::max(3, K - 1);
  prior.c.tsize = c.tsize == 2 && prior.K > 3 ? 3 : 2;
  prior.c.linW = 0.45, prior.c.linB = 0.5;
  prior.c.expC = 0.97;
  prior.c.setBolt = true;
  prior.c.bolt = 0.5;
  prior.c.elite = 3 - c.elite;
  Rng r(hcomb(case_seed(), 0x9e55));
  const int refs = big ? 16 * reps : 4000;
  std::vector<double> want;
  if (!env.rngx) want = law(K, refs, method, c, r);
  phase("run");
  const auto a = survive<true, Method>(K, reps, method, c, prior, r);
  const auto b = survive<false, Method>(K, reps, method, c, prior, r);
  uint64_t h = 1;
  for (long x : a) h = hcomb(h, uint64_t(x));
  for (long x : b) h = hcomb(h, uint64_t(x));
  hist("survivors", h);
  stat("selections", 2.0 * reps);
  if (env.rngx) return;  // extreme draws say nothing about frequencies
  const Half x = halves(a), y = halves(b);
  static const char* const names[] = {"roulette wheel", "tournament", "truncation", "Monte Carlo", "probability", "linear rank", "exponential rank", "Boltzmann", "stochastic universal", "elite-preserving"};
  const char* nm = method >= 0 && method < 10 ? names[method] : "?";
  for (int d = 0; d < 2; d++) {
    const Half& q = d ? y : x;
    const double z = zOf(q);
    stat((std::string("z ") + nm).c_str(), z);
    stat((std::string("n ") + nm).c_str(), 1);
    if (const char* dbg = getenv("SIM_PRESS")) {
      FILE* f = fopen(dbg, "a");
      fprintf(f, "%s K=%d N=%d z=%.1f d=%d off=%g span=%g bolt=%d %g lin=%d exp=%g n", nm, K, N, z, d, offset, span, int(c.setBolt), c.bolt, lin, c.expC);
      for (long v : d ? b : a) fprintf(f, " %ld", v);
      fprintf(f, "\n");
      fclose(f);
    }
    if (method == int(SelectMethod::MonteCarlo)) {
      if (std::fabs(z) > 8) fail("C19:ignores", "Monte Carlo selection kept %ld of the fitter and %ld of the less fit half", q.top, q.bottom);
    } else if (z < 4)
      fail("C19:pressure", "%s selection (%s is better) kept %ld of the fitter and %ld of the less fit half of the candidates", nm, d ? "greater" : "less", q.top, q.bottom);
    // rank by rank: nobody may survive clearly more often than somebody fitter
    const std::vector<long>& v = d ? b : a;
    for (size_t i = 0; i < v.size(); i++)
      for (size_t j = i + 1; j < v.size(); j++) {
        double zz = double(v[i] - v[j]) / std::sqrt(double(v[i] + v[j]) + 1);
        if (method == int(SelectMethod::MonteCarlo)) zz = -std::fabs(zz);
        if (zz < -7) {
          fail("C19:rank", "%s selection (%s is better) kept the candidate of rank %zu %ld times of %d and the one of rank %zu %ld times", nm, d ? "greater" : "less", i, v[i], reps, j, v[j]);
          i = v.size();
          break;
        }
      }
    // against the documented law, in groups of neighbouring ranks
    const size_t groups = std::min<size_t>(v.size(), 16);
    for (size_t g = 0; g < groups && !want.empty(); g++) {
      const size_t lo = g * v.size() / groups, hi = (g + 1) * v.size() / groups;
      double got = 0, due = 0, var = 1;
      for (size_t i = lo; i < hi; i++) {
        got += double(v[i]);
        due += want[i] * double(reps);
        var += double(reps) * (method == int(SelectMethod::Tournament) ? 2 * want[i] : want[i] * std::max(0.0, 1 - want[i]) * (1 + double(reps) / double(refs)));
      }
      const double zz = (got - due) / std::sqrt(var);
      stat("largest deviation from the law", std::fabs(zz));
      if (std::fabs(zz) > 8) {
        fail("C19:law", "%s selection (%s is better) kept candidates of rank %zu to %zu of %zu %.0f times in %d selections of %d, the law of the method says %.1f times", nm, d ? "greater" : "less", lo, hi - 1, v.size(), got, reps, K, due);
        break;
      }
      probe("frequencies compared with the law");
    }
    probe(method == int(SelectMethod::MonteCarlo) ? "frequencies of Monte Carlo compared" : "pressure compared");
  }
  // reversing the direction and negating all fitness values
  for (size_t i = 0; i < a.size(); i++) {
    const double z = double(a[i] - b[i]) / std::sqrt(double(a[i] + b[i]) + 1);
    if (std::fabs(z) > 8) {
      fail("C19:direction", "%s selection kept the candidate of rank %zu %ld times of %d where less is better and %ld times where greater is better", nm, i, a[i], reps, b[i]);
      break;
    }
  }
  const double z = double(x.top - y.top) / std::sqrt(double(x.top + y.top) + 1);
  if (std::fabs(z) > 8) fail("C19:direction", "%s selection kept %ld of the fitter half where less is better, %ld where greater is better", nm, x.top, y.top);
}
void rt() { press<-1>(); }
void m0() { press<int(SelectMethod::RouletteWheel)>(); }
void m1() { press<int(SelectMethod::Tournament)>(); }
void m3() { press<int(SelectMethod::MonteCarlo)>(); }
void m4() { press<int(SelectMethod::Probability)>(); }
void m5() { press<int(SelectMethod::LinearRank)>(); }
void m6() { press<int(SelectMethod::ExponentialRank)>(); }
void m7() { press<int(SelectMethod::Boltzmann)>(); }
void m8() { press<int(SelectMethod::StochasticUniversal)>(); }
void m9() { press<int(SelectMethod::EliteReserved)>(); }
}  // namespace
SCENARIO("press_runtime", rt, "press")
SCENARIO("press_roulette", m0, "press")
SCENARIO("press_tournament", m1, "press")
SCENARIO("press_montecarlo", m3, "press")
SCENARIO("press_probability", m4, "press")
SCENARIO("press_linear", m5, "press")
SCENARIO("press_exponential", m6, "press")
SCENARIO("press_boltzmann", m7, "press")
SCENARIO("press_universal", m8, "press")
SCENARIO("press_elite", m9, "press")
}  // namespace hx
