#include "ga_tr.hpp"
using namespace hx;
using heu::SelectMethod;
using Vd = std::vector<double>;
using X = Eigen::ArrayXd;
using M = Eigen::Matrix2d;
using R = SoTraits<Vd, CBox<Vd, true>, true, true, true, int(SelectMethod::RouletteWheel), false>;
using T = SoTraits<X, CBox<X, true>, true, false, false, int(SelectMethod::Tournament), true>;
using U = SoTraits<X, CBox<X, false>, false, true, true, int(SelectMethod::Truncation), true>;
static void r() { gaScenario<R>(); }
static void t() { gaScenario<T>(); }
static void u() { gaScenario<U>(); }
SCENARIO("soga_roulette", r, "ga so")
SCENARIO("soga_tournament", t, "ga so")
SCENARIO("soga_truncation", u, "ga so")
