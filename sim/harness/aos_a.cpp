#include "aos.hpp"
using namespace hx;
using A4 = Eigen::Array<double, 4, 1>;
using X = Eigen::ArrayXd;
static void a() { aosScenario<AosTraits<A4, BX_SQUARE, true, true, false, 0>>(); }
static void b() { aosScenario<AosTraits<X, BX_RECT, false, true, true, 0>>(); }
static void c() { aosScenario<AosTraits<A4, BX_GAUSS, false, false, true, 2>>(); }
SCENARIO("aos_eigen_less", a, "aos")
SCENARIO("aos_eigen_rect_greater", b, "aos")
SCENARIO("aos_eigen_gauss", c, "aos")
