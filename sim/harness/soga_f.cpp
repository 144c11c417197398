#include "ga_tr.hpp"
using namespace hx;
using heu::SelectMethod;
using Xi = Eigen::ArrayXi;
using A5 = std::array<float, 5>;
using B = SoTraits<Xi, DBox<Xi, false>, false, true, true, int(SelectMethod::Boltzmann), false>;
using U = SoTraits<A5, CBox<A5, true>, true, false, false, int(SelectMethod::StochasticUniversal), true>;
static void b() { gaScenario<B>(); }
static void u() { gaScenario<U>(); }
SCENARIO("soga_boltzmann", b, "ga so")
SCENARIO("soga_universal", u, "ga so")
