#include "ga_mo.hpp"
using namespace hx;
using X = Eigen::ArrayXd;
using Vi = std::vector<int>;
using T1 = MoTraits<X, CBox<X, true>, true, 2, -1, false, true, false>;
using T2 = MoTraits<Vi, DBox<Vi, true>, true, 2, -1, true, false, true>;
static void a() { gaScenario<T1>(); }
static void b() { gaScenario<T2>(); }
SCENARIO("nsga2_dyn_greater", a, "ga mo")
SCENARIO("nsga2_dyn_discrete", b, "ga mo")
