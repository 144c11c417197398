#include "pso.hpp"
using namespace hx;
using XX = Eigen::ArrayXXd;
using F5 = std::array<float, 5>;
static void a() { psoScenario<PsoTraits<XX, true, false, false, true, 0>>(); }
static void b() { psoScenario<PsoTraits<F5, true, true, true, false, 1>>(); }
SCENARIO("pso_matrix", a, "pso")
SCENARIO("pso_float", b, "pso")
