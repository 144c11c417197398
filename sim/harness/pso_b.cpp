#include "pso.hpp"
using namespace hx;
using S3 = std::array<double, 3>;
using Vd = std::vector<double>;
static void a() { psoScenario<PsoTraits<S3, false, true, true, true, 2>>(); }
static void b() { psoScenario<PsoTraits<Vd, true, false, true, false, 0>>(); }
SCENARIO("pso_std_less", a, "pso")
SCENARIO("pso_std_rect_greater", b, "pso")
