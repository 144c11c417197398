#include "ga_mo.hpp"
using namespace hx;
using A3 = std::array<double, 3>;
using T1 = MoTraits<A3, CBox<A3, false>, false, 2, 2, true, true, false>;
using T2 = MoTraits<std::vector<double>, void, false, 2, 3, false, false, true>;
static void a() { gaScenario<T1>(); }
static void b() { gaScenario<T2>(); }
SCENARIO("nsga2_2_less", a, "ga mo")
SCENARIO("nsga2_3_greater", b, "ga mo")
