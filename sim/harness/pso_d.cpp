#include "pso.hpp"
using namespace hx;
using M32 = Eigen::Array<double, 3, 2>;
using Vl = std::vector<long double>;
using Xf = Eigen::ArrayXf;
static void a() { psoScenario<PsoTraits<M32, true, false, true, true, 0>>(); }
static void b() { psoScenario<PsoTraits<Vl, true, true, false, false, 1>>(); }
static void c() { psoScenario<PsoTraits<Xf, false, true, false, true, 2>>(); }
SCENARIO("pso_fixed_matrix", a, "pso")
SCENARIO("pso_long_double", b, "pso")
SCENARIO("pso_eigen_float", c, "pso")
