#include "ops.hpp"
using namespace hx;
namespace int_array_ {
using V = std::array<int,4>;
using B = DBox<V,false>;
static void run() { opsScenario<OpTraits<V, B, OB_DISC, false>>(); }
SCENARIO("ops_int_array", run, "ops")
}  // namespace int_array_
namespace int_vector_rect_ {
using V = std::vector<int>;
using B = DBox<V,true>;
static void run() { opsScenario<OpTraits<V, B, OB_DISC, true>>(); }
SCENARIO("ops_int_vector_rect", run, "ops")
}  // namespace int_vector_rect_
namespace int_eigen_rect_ {
using V = Eigen::Array<int,3,1>;
using B = DBox<V,true>;
static void run() { opsScenario<OpTraits<V, B, OB_DISC, true>>(); }
SCENARIO("ops_int_eigen_rect", run, "ops")
}  // namespace int_eigen_rect_
