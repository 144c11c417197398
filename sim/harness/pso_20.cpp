#include "pso.hpp"
using namespace hx;
static_assert(__cplusplus >= 202002L);
using A6 = std::array<float, 6>;
static void a() { psoScenario<PsoTraits<A6, true, false, true, true, 0>>(); }
SCENARIO("pso20_array_square", a, "pso")
