#include "aos.hpp"
using namespace hx;
static_assert(__cplusplus >= 202002L);
using X = Eigen::ArrayXd;
using V = std::vector<double>;
static void a() { aosScenario<AosTraits<X, BX_FIXED20, true, true, true, 0>>(); }
static void b() { aosScenario<AosTraits<V, BX_RECT, false, false, false, 1>>(); }
SCENARIO("aos20_eigen_fixed", a, "aos")
SCENARIO("aos20_vector_rect", b, "aos")
