#include "ga_mo.hpp"
using namespace hx;
using A3 = std::array<double, 3>;
using T1 = MoTraits<A3, CBox<A3, false>, false, 3, 3, true, true, false>;
static void a() { gaScenario<T1>(); }
SCENARIO("nsga3_3", a, "ga mo")
