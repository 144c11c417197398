#include "ga_tr.hpp"
using namespace hx;
using heu::SelectMethod;
using M = Eigen::Matrix2d;
using XX = Eigen::ArrayXXd;
using Mc = SoTraits<M, CBox<M, true>, true, false, true, int(SelectMethod::MonteCarlo), false>;
using P = SoTraits<XX, CBox<XX, true>, true, true, false, int(SelectMethod::Probability), true>;
using E = SoTraits<M, CBox<M, false>, false, true, false, int(SelectMethod::EliteReserved), true>;
static void m() { gaScenario<Mc>(); }
static void p() { gaScenario<P>(); }
static void e() { gaScenario<E>(); }
SCENARIO("soga_montecarlo", m, "ga so")
SCENARIO("soga_probability", p, "ga so")
SCENARIO("soga_elite", e, "ga so")
