// What was never set: options, selection parameters, counters and precisions of newly made objects
// depend on the type alone, not on what the memory held before, and a solver made with them runs.
#include "ga.hpp"
#include <HeuristicFlow/AOS>
#include <HeuristicFlow/Genetic>
#include <HeuristicFlow/PSO>

namespace hx {
namespace {
using DV = std::array<double, 3>;
using DW = Eigen::ArrayXd;
void dIni(DV* v) {
  for (auto& x : *v) x = heu::randD(-1, 1);
}
void dCro(const DV* a, const DV* b, DV* c, DV* d) {
  *c = *a, *d = *b;
  (*c)[0] = (*b)[0], (*d)[0] = (*a)[0];
}
void dMut(const DV* a, DV* b) {
  *b = *a;
  (*b)[heu::randIdx(3)] += heu::randD(-0.1, 0.1);
}
void dFit(const DV* v, double* f) { *f = (*v)[0] * (*v)[0] + (*v)[1] * (*v)[1] + std::abs((*v)[2]); }
template <int M>
void dFits(const DV* v, Eigen::Array<double, M, 1>* f) {
  for (int i = 0; i < M; i++) (*f)[i] = std::abs((*v)[i]) + (*v)[(i + 1) % 3];
}
uint64_t hashOf(double x) { return dbits(x); }
template <class T>
uint64_t hashOf(const T& x) {
  return vhash(content(x));
}
void same(const char* what, double got, double want) {
  hist(what, dbits(got));
  if (got != want) fail("C04:default", "%s is %.17g by default instead of %.17g", what, got, want);
}
void options() {
  auto* g = make<heu::GAOption>();
  same("GAOption::populationSize", g->populationSize, 100);
  same("GAOption::maxGenerations", g->maxGenerations, 300);
  same("GAOption::crossoverProb", g->crossoverProb, 0.8);
  same("GAOption::mutateProb", g->mutateProb, 0.05);
  hist("GAOption::maxFailTimes", g->maxFailTimes);  // documentation and code disagree on the value
  auto* p = make<heu::PSOOption>();
  same("PSOOption::populationSize", p->populationSize, 200);
  same("PSOOption::maxGeneration", p->maxGeneration, 300);
  same("PSOOption::maxFailTimes", p->maxFailTimes, 100);
  same("PSOOption::inertiaFactor", p->inertiaFactor, 0.8);
  same("PSOOption::learnFactorP", p->learnFactorP, 2);
  same("PSOOption::learnFactorG", p->learnFactorG, 2);
  auto* a = make<heu::AOSOption>();
  hist("AOSOption", hcomb(hcomb(a->electronNum, a->maxGeneration), hcomb(hcomb(a->maxEarlyStop, a->maxLayerNum), dbits(a->photonRate))));
  if (a->electronNum > 1000000 || a->maxGeneration > 1000000 || a->maxEarlyStop > 1000000 || a->maxLayerNum > 1000000 || !(a->photonRate >= 0 && a->photonRate <= 1))
    fail("C04:default", "an option of AOSOption has no sensible default");
  unmake(g), unmake(p), unmake(a);
}
template <class S>
void fresh(const char* what, S* s) {
  const uint64_t gen = s->generation();
  hist("fresh generation", gen);
  if (gen) fail("C04:default", "a newly made %s has made %llu generations", what, (unsigned long long)gen);
}

const char* const methods[] = {"RouletteWheel", "Tournament", "Truncation", "MonteCarlo", "Probability", "LinearRank", "ExponentialRank", "Boltzmann", "StochasticUniversal", "EliteReserved"};
constexpr heu::SelectMethod methodOf[] = {heu::RouletteWheel, heu::Tournament, heu::Truncation, heu::MonteCarlo, heu::Probability, heu::LinearRank, heu::ExponentialRank, heu::Boltzmann, heu::StochasticUniversal, heu::EliteReserved};
template <bool Less, heu::SelectMethod M>
using So = heu::SOGA<DV, Less ? heu::FITNESS_LESS_BETTER : heu::FITNESS_GREATER_BETTER, heu::DONT_RECORD_FITNESS, M, void, dIni, dFit, dCro, dMut>;
template <class S, class O>
void budget(S* s, O o, size_t O::*limit) {
  o.*limit = size_t(param("gens", 1, 12, 3));
  s->setOption(o);
}
template <class S>
void geneticRun(S* s) {
  auto o = s->option();
  hist("options of a new solver", hcomb(hcomb(o.populationSize, o.maxFailTimes), hcomb(dbits(o.crossoverProb), dbits(o.mutateProb))));
  same("GAOption::populationSize of a solver", double(o.populationSize), 100);
  if (failures()) return;
  budget(s, o, &heu::GAOption::maxGenerations);
  sut([&] {
    s->initializePop();
    s->run();
  });
  hist("generation", s->generation());
  hist("failTimes", s->failTimes());
  for (const auto& g : s->population()) hist("individual", hcomb(hashOf(g.fitness), hashOf(g.decision_variable)));
  probe("runs with defaults");
}
template <bool Less, heu::SelectMethod M>
void soga() {
  using S = So<Less, M>;
  S* s = make<S>();
  fresh("genetic solver", s);
  if constexpr (M == heu::Tournament) same("tournamentSize", s->tournamentSize(), 3);
  if constexpr (M == heu::EliteReserved) same("eliteNum", s->eliteNum(), 1);
  if constexpr (M == heu::LinearRank) hist("rank probabilities", hcomb(dbits(s->linearSelectBestProbability()), dbits(s->linearSelectWrostProbability())));
  if constexpr (M == heu::ExponentialRank) hist("rank base", dbits(s->exponetialSelectBase()));
  if constexpr (M == heu::Boltzmann) hist("strength", dbits(s->boltzmannSelectStrength()));
  if constexpr (M == heu::RunTimeSelectMethod) {
    hist("method", uint64_t(s->selectMethod()));
    const int m = param("method", 0, 10, 0);
    if (m < 10) {
      s->setSelectMethod(methodOf[m]);
      probe(methods[m]);
    }
    same("tournamentSize (run time)", s->tournamentSize(), 3);
    same("eliteNum (run time)", s->eliteNum(), 1);
    hist("rank probabilities", hcomb(dbits(s->linearSelectBestProbability()), dbits(s->linearSelectWrostProbability())));
    hist("rank base", dbits(s->exponetialSelectBase()));
    hist("strength", dbits(s->boltzmannSelectStrength()));
  }
  if (!failures()) geneticRun(s);
  unmake(s);
}
template <int M, heu::ReferencePointOption rp>
void nsga3() {
  using S = heu::NSGA3<DV, M, heu::DONT_RECORD_FITNESS, rp, void, dIni, dFits<M>, dCro, dMut>;
  S* s = make<S>();
  fresh("NSGA3", s);
  size_t a, b;
  if constexpr (rp == heu::SINGLE_LAYER) a = b = s->referencePointPrecision();
  else a = s->innerPrecision(), b = s->outerPrecision();
  hist("precision", hcomb(a, b));
  if (a < 1 || b < 1 || a > 1000 || b > 1000) fail("C04:default", "a newly made NSGA3 has the precision %zu / %zu", a, b);
  if (!failures()) geneticRun(s);
  if (!failures()) hist("points", uint64_t(s->referencePoints().cols()));
  unmake(s);
}
template <class V, heu::BoxShape BS>
void swarm() {
  using S = heu::PSO<V, BS, heu::FITNESS_LESS_BETTER, heu::DONT_RECORD_FITNESS, void>;
  S* s = make<S>();
  fresh("particle swarm", s);
  static const auto f = [](const V* v, double* o) {
    double t = 0;
    for (int i = 0; i < int(v->size()); i++) t += (*v)[i] * (*v)[i];
    *o = t;
  };
  s->setfFun(+f);
  if constexpr (std::is_same_v<V, DW>) s->setDimensions(3);
  if constexpr (BS == heu::BoxShape::SQUARE_BOX) s->setPVRange(-1, 1, 0.3);
  else {
    V lo, hi, ve;
    if constexpr (std::is_same_v<V, DW>) lo.resize(3), hi.resize(3), ve.resize(3);
    for (int i = 0; i < 3; i++) lo[i] = -1 - i, hi[i] = 1, ve[i] = 0.3;
    s->setPVRange(lo, hi, ve);
  }
  auto o = s->option();
  hist("options of a new swarm", hcomb(hcomb(o.populationSize, o.maxFailTimes), hcomb(dbits(o.inertiaFactor), hcomb(dbits(o.learnFactorP), dbits(o.learnFactorG)))));
  if (o.populationSize != 200) fail("C04:default", "a newly made swarm has %zu particles", o.populationSize);
  if (!failures()) {
    budget(s, o, &heu::PSOOption::maxGeneration);
    sut([&] {
      s->initializePop();
      s->run();
    });
    hist("generation", s->generation());
    hist("failTimes", s->failTimes());
    hist("best", hcomb(dbits(s->bestFitness()), vhash(content(s->globalBest().position))));
    probe("runs with defaults");
  }
  unmake(s);
}
void atom() {
  using S = heu::AOS_square<DV, heu::FITNESS_LESS_BETTER, heu::DONT_RECORD_FITNESS, void>;
  S* s = make<S>();
  fresh("atomic orbital search", s);
  hist("early stop", s->earlyStopCounter());
  s->setfFun(dFit);
  s->setRange(-1, 1);
  s->setDelta(0.1);
  auto o = s->option();
  hist("options of a new atom", hcomb(hcomb(o.electronNum, o.maxGeneration), hcomb(hcomb(o.maxEarlyStop, o.maxLayerNum), dbits(o.photonRate))));
  if (o.electronNum > 100000 || o.maxLayerNum > 100000) fail("C04:default", "the options of a newly made atomic orbital search have no default");
  if (!failures()) {
    sut([&] {
      s->initializePop();
      s->run();
    });
    hist("generation", s->generation());
    for (const auto& e : s->electrons()) hist("electron", hcomb(dbits(e.energy), vhash(content(e.state))));
    probe("runs with defaults");
  }
  unmake(s);
}
}  // namespace
static void dflt_genetic() {
  phase("defaults");
  options();
  if (failures()) return;
  heu::internal::global_mt19937().seed(uint32_t(case_seed()));
  const bool less = param("less", 0, 1, 1);
  switch (param("selection", 0, 14, 0)) {
    case 0: less ? soga<true, heu::RouletteWheel>() : soga<false, heu::RouletteWheel>(); break;
    case 1: less ? soga<true, heu::Tournament>() : soga<false, heu::Tournament>(); break;
    case 2: less ? soga<true, heu::LinearRank>() : soga<false, heu::LinearRank>(); break;
    case 3: less ? soga<true, heu::ExponentialRank>() : soga<false, heu::ExponentialRank>(); break;
    case 4: less ? soga<true, heu::Boltzmann>() : soga<false, heu::Boltzmann>(); break;
    case 5: less ? soga<true, heu::EliteReserved>() : soga<false, heu::EliteReserved>(); break;
    default: less ? soga<true, heu::RunTimeSelectMethod>() : soga<false, heu::RunTimeSelectMethod>(); break;
  }
}
static void dflt_others() {
  phase("defaults");
  heu::internal::global_mt19937().seed(uint32_t(case_seed()));
  switch (param("kind", 0, 8, 0)) {
    case 0: nsga3<2, heu::SINGLE_LAYER>(); break;
    case 1: nsga3<3, heu::SINGLE_LAYER>(); break;
    case 2: nsga3<2, heu::DOUBLE_LAYER>(); break;
    case 3: nsga3<3, heu::DOUBLE_LAYER>(); break;
    case 4: swarm<DV, heu::BoxShape::SQUARE_BOX>(); break;
    case 5: swarm<DV, heu::BoxShape::RECTANGLE_BOX>(); break;
    case 6: swarm<DW, heu::BoxShape::SQUARE_BOX>(); break;
    case 7: swarm<DW, heu::BoxShape::RECTANGLE_BOX>(); break;
    default: atom(); break;
  }
}
SCENARIO("dflt_genetic", dflt_genetic, "dflt")
SCENARIO("dflt_others", dflt_others, "dflt")
}  // namespace hx
