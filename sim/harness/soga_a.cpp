#include "ga_tr.hpp"
using namespace hx;
using heu::SelectMethod;
using Arr3 = std::array<double, 3>;
using TrA = SoTraits<Arr3, CBox<Arr3, false>, false, true, true, -1, false>;
using TrB = SoTraits<std::vector<double>, void, false, false, false, -1, true>;
static void a() { gaScenario<TrA>(); }
static void b() { gaScenario<TrB>(); }
SCENARIO("soga_array_less", a, "ga so")
SCENARIO("soga_vector_greater", b, "ga so")
