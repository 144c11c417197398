#include "ga_mo.hpp"
using namespace hx;
using A4 = Eigen::Array<double, 4, 1>;
using T1 = MoTraits<A4, CBox<A4, true>, true, 4, 3, true, false, true>;
static void a() { gaScenario<T1>(); }
SCENARIO("nsga3_double_3", a, "ga mo")
