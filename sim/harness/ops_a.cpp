#include "ops.hpp"
using namespace hx;
namespace array_ {
using V = std::array<double,3>;
using B = CBox<V,false>;
static void run() { opsScenario<OpTraits<V, B, OB_CONT, false>>(); }
SCENARIO("ops_array", run, "ops")
}  // namespace array_
namespace vector_rect_ {
using V = std::vector<double>;
using B = CBox<V,true>;
static void run() { opsScenario<OpTraits<V, B, OB_CONT, true>>(); }
SCENARIO("ops_vector_rect", run, "ops")
}  // namespace vector_rect_
namespace eigen_rect_ {
using V = Eigen::Array<double,4,1>;
using B = CBox<V,true>;
static void run() { opsScenario<OpTraits<V, B, OB_CONT, true>>(); }
SCENARIO("ops_eigen_rect", run, "ops")
}  // namespace eigen_rect_
