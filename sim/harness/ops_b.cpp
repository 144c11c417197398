#include "ops.hpp"
using namespace hx;
namespace matrix_ {
using V = Eigen::ArrayXXd;
using B = CBox<V,false>;
static void run() { opsScenario<OpTraits<V, B, OB_CONT, false>>(); }
SCENARIO("ops_matrix", run, "ops")
}  // namespace matrix_
namespace float_ {
using V = std::array<float,5>;
using B = CBox<V,true>;
static void run() { opsScenario<OpTraits<V, B, OB_CONT, true>>(); }
SCENARIO("ops_float", run, "ops")
}  // namespace float_
namespace eigen_dyn_ {
using V = Eigen::ArrayXd;
using B = CBox<V,false>;
static void run() { opsScenario<OpTraits<V, B, OB_CONT, false>>(); }
SCENARIO("ops_eigen_dyn", run, "ops")
}  // namespace eigen_dyn_
