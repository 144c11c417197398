#include "ops.hpp"
using namespace hx;
namespace fixed_cont_ {
using V = std::array<double,4>;
using B = AosBox<V,BX_FIXED>::type;
static void run() { opsScenario<OpTraits<V, B, OB_FIXED_C, false>>(); }
SCENARIO("ops_fixed_cont", run, "ops")
}  // namespace fixed_cont_
namespace fixed_cont_eigen_ {
using V = Eigen::Array<float,3,1>;
using B = AosBox<V,BX_FIXED>::type;
static void run() { opsScenario<OpTraits<V, B, OB_FIXED_C, false>>(); }
SCENARIO("ops_fixed_cont_eigen", run, "ops")
}  // namespace fixed_cont_eigen_
namespace gauss_ {
using V = std::vector<double>;
using B = heu::GaussianBox<V>;
static void run() { opsScenario<OpTraits<V, B, OB_GAUSS, false>>(); }
SCENARIO("ops_gauss", run, "ops")
}  // namespace gauss_
static void nd1() { initNdScenario<std::array<double, 4>>(); }
static void nd2() { initNdScenario<Eigen::ArrayXd>(); }
static void nd3() { initNdScenario<std::array<float, 3>>(); }
SCENARIO("ops_nd_array", nd1, "ops")
SCENARIO("ops_nd_eigen", nd2, "ops")
SCENARIO("ops_nd_float", nd3, "ops")
