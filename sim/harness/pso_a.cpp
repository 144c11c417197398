#include "pso.hpp"
using namespace hx;
using A4 = Eigen::Array<double, 4, 1>;
using X = Eigen::ArrayXd;
static void a() { psoScenario<PsoTraits<A4, true, true, true, false, 0>>(); }
static void b() { psoScenario<PsoTraits<X, false, false, false, true, 1>>(); }
SCENARIO("pso_eigen_rect_less", a, "pso")
SCENARIO("pso_eigen_dyn_greater", b, "pso")
