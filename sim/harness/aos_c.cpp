#include "aos.hpp"
using namespace hx;
using XX = Eigen::ArrayXXd;
using D5 = std::array<double, 5>;
using M22 = Eigen::Array<double, 2, 2>;
static void a() { aosScenario<AosTraits<XX, BX_SQUARE, true, false, true, 2>>(); }
static void b() { aosScenario<AosTraits<D5, BX_SQUARE, false, true, false, 2>>(); }
static void c() { aosScenario<AosTraits<M22, BX_FIXED, true, true, false, 0>>(); }
SCENARIO("aos_matrix", a, "aos")
SCENARIO("aos_array_greater", b, "aos")
SCENARIO("aos_fixed", c, "aos")
