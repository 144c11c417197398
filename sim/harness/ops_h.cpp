#include "ops.hpp"
using namespace hx;
template <class V, class B, int K, bool R>
static void ops() {
  opsScenario<OpTraits<V, B, K, R>>();
}
using XX = Eigen::ArrayXXd;
using XXf = Eigen::ArrayXXf;
using XXi = Eigen::ArrayXXi;
using XXb = Eigen::Array<bool, Eigen::Dynamic, Eigen::Dynamic>;
static void matGauss() { ops<XX, heu::GaussianBox<XX>, OB_GAUSS, false>(); }
static void matFixed() { ops<XXf, AosBox<XXf, BX_FIXED>::type, OB_FIXED_C, false>(); }
static void matInt() { ops<XXi, DBox<XXi, true>, OB_DISC, true>(); }
static void matBool() { ops<XXb, DBox<XXb, false>, OB_BOOL, false>(); }
SCENARIO("ops_matrix_gauss", matGauss, "ops")
SCENARIO("ops_matrix_fixed_cont", matFixed, "ops")
SCENARIO("ops_matrix_int_rect", matInt, "ops")
SCENARIO("ops_matrix_bool", matBool, "ops")
