#include "ops.hpp"
using namespace hx;
template <class V, class B, int K, bool R>
static void ops() {
  opsScenario<OpTraits<V, B, K, R>>();
}
using Row = Eigen::Array<double, 1, Eigen::Dynamic>;
using RowI = Eigen::Array<int, 1, Eigen::Dynamic>;
using RowF = Eigen::Array<float, 1, 5>;
using XX = Eigen::ArrayXXd;
using XXf = Eigen::ArrayXXf;
using XXi = Eigen::ArrayXXi;
using XXb = Eigen::Array<bool, Eigen::Dynamic, Eigen::Dynamic>;
static void row() { ops<Row, CBox<Row, true>, OB_CONT, true>(); }
static void rowInt() { ops<RowI, DBox<RowI, false>, OB_DISC, false>(); }
static void rowFixed() { ops<RowF, CBox<RowF, true>, OB_CONT, true>(); }
static void matRect() { ops<XX, CBox<XX, true>, OB_CONT, true>(); }
SCENARIO("ops_row_rect", row, "ops")
SCENARIO("ops_row_int", rowInt, "ops")
SCENARIO("ops_row_fixed", rowFixed, "ops")
SCENARIO("ops_matrix_rect", matRect, "ops")
