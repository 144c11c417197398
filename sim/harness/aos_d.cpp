#include "aos.hpp"
using namespace hx;
using Row = Eigen::Array<double, 1, Eigen::Dynamic>;
using XX = Eigen::ArrayXXd;
static void a() { aosScenario<AosTraits<Row, BX_RECT, true, false, true, 0>>(); }
static void b() { aosScenario<AosTraits<XX, BX_GAUSS, false, true, false, 1>>(); }
SCENARIO("aos_row_rect", a, "aos")
SCENARIO("aos_matrix_gauss", b, "aos")
