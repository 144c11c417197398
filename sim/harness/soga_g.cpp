#include "ga_tr.hpp"
using namespace hx;
using heu::SelectMethod;
using Row = Eigen::Array<double, 1, Eigen::Dynamic>;
using XX = Eigen::ArrayXXd;
using R = SoTraits<Row, CBox<Row, true>, true, false, true, -1, false>;
using M = SoTraits<XX, CBox<XX, true>, true, true, false, int(SelectMethod::Truncation), true>;
static void r() { gaScenario<R>(); }
static void m() { gaScenario<M>(); }
SCENARIO("soga_row", r, "ga so")
SCENARIO("soga_matrix_rect", m, "ga so")
