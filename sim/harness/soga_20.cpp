#include "ga_tr.hpp"
using namespace hx;
static_assert(__cplusplus >= 202002L);
using A6 = std::array<float, 6>;
using Row = Eigen::Array<double, 1, Eigen::Dynamic>;
using TrA = SoTraits<A6, CBox<A6, true>, true, true, true, -1, false>;
using TrB = SoTraits<Row, CBox<Row, false>, false, false, false, -1, true>;
static void a() { gaScenario<TrA>(); }
static void b() { gaScenario<TrB>(); }
SCENARIO("soga20_array_less", a, "ga so")
SCENARIO("soga20_row_greater", b, "ga so")
