#include "ga_tr.hpp"
using namespace hx;
using heu::SelectMethod;
using A4 = Eigen::Array<double, 4, 1>;
using Ai = std::array<int, 4>;
using TrA = SoTraits<A4, CBox<A4, true>, true, false, true, -1, true>;
using TrB = SoTraits<Ai, DBox<Ai, true>, true, true, false, -1, true>;
static void a() { gaScenario<TrA>(); }
static void b() { gaScenario<TrB>(); }
SCENARIO("soga_eigen_rect_greater", a, "ga so")
SCENARIO("soga_discrete_rect", b, "ga so")
