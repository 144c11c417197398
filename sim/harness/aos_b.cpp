#include "aos.hpp"
using namespace hx;
using D3 = std::array<double, 3>;
using DV = std::vector<double>;
static void a() { aosScenario<AosTraits<D3, BX_RECT, true, true, true, 1>>(); }
static void b() { aosScenario<AosTraits<DV, BX_SQUARE, false, true, false, 0>>(); }
static void c() { aosScenario<AosTraits<DV, BX_GAUSS, true, false, true, 0>>(); }
SCENARIO("aos_std_rect_less", a, "aos")
SCENARIO("aos_vector_greater", b, "aos")
SCENARIO("aos_std_gauss", c, "aos")
