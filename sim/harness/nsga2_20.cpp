#include "ga_mo.hpp"
using namespace hx;
static_assert(__cplusplus >= 202002L);
using A6 = std::array<float, 6>;
using T = MoTraits<A6, CBox<A6, false>, false, 2, -1, false, true, false>;
static void a() { gaScenario<T>(); }
SCENARIO("nsga2_cxx20", a, "ga mo")
