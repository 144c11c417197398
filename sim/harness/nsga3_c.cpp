#include "ga_mo.hpp"
using namespace hx;
using T1 = MoTraits<std::vector<double>, void, false, 3, -1, true, false, true>;
static void a() { gaScenario<T1>(); }
SCENARIO("nsga3_dyn", a, "ga mo")
