#include "ga_mo.hpp"
using namespace hx;
using A4 = Eigen::Array<double, 4, 1>;
using T1 = MoTraits<A4, CBox<A4, false>, false, 4, -1, true, true, false>;
static void a() { gaScenario<T1>(); }
SCENARIO("nsga3_double_dyn", a, "ga mo")
