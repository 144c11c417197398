#include "ga_tr.hpp"
using namespace hx;
using heu::SelectMethod;
using Bo = std::array<bool, 6>;
using Vi = std::vector<int>;
using L = SoTraits<Bo, DBox<Bo, false>, false, true, true, int(SelectMethod::LinearRank), false>;
using X = SoTraits<Vi, DBox<Vi, true>, true, false, false, int(SelectMethod::ExponentialRank), true>;
static void l() { gaScenario<L>(); }
static void x() { gaScenario<X>(); }
SCENARIO("soga_linear", l, "ga so")
SCENARIO("soga_exponential", x, "ga so")
