#include "pso.hpp"
using namespace hx;
using Row = Eigen::Array<double, 1, Eigen::Dynamic>;
using Row4 = Eigen::Array<double, 1, 4>;
static void a() { psoScenario<PsoTraits<Row, true, true, true, true, 0>>(); }
static void b() { psoScenario<PsoTraits<Row, false, false, false, false, 1>>(); }
static void c() { psoScenario<PsoTraits<Row4, true, false, false, true, 2>>(); }
SCENARIO("pso_row_rect", a, "pso")
SCENARIO("pso_row_square", b, "pso")
SCENARIO("pso_row_fixed", c, "pso")
