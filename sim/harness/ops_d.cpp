#include "ops.hpp"
using namespace hx;
namespace bool_array_ {
using V = std::array<bool,5>;
using B = DBox<V,false>;
static void run() { opsScenario<OpTraits<V, B, OB_BOOL, false>>(); }
SCENARIO("ops_bool_array", run, "ops")
}  // namespace bool_array_
namespace bool_eigen_ {
using V = Eigen::Array<bool,6,1>;
using B = DBox<V,false>;
static void run() { opsScenario<OpTraits<V, B, OB_BOOL, false>>(); }
SCENARIO("ops_bool_eigen", run, "ops")
}  // namespace bool_eigen_
namespace fixed_int_ {
using V = std::array<int,4>;
using B = heu::FixedDiscreteBox<V,-2,5>;
static void run() { opsScenario<OpTraits<V, B, OB_FIXED_D, false>>(); }
SCENARIO("ops_fixed_int", run, "ops")
}  // namespace fixed_int_
