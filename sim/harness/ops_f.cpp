#include "ops.hpp"
#include <cstdint>
using namespace hx;
namespace unsigned_array_ {
using V = std::array<unsigned, 3>;
using B = DBox<V, false>;
static void run() { opsScenario<OpTraits<V, B, OB_DISC, false>>(); }
SCENARIO("ops_unsigned_array", run, "ops")
}  // namespace unsigned_array_
namespace byte_vector_rect_ {
using V = std::vector<uint8_t>;
using B = DBox<V, true>;
static void run() { opsScenario<OpTraits<V, B, OB_DISC, true>>(); }
SCENARIO("ops_byte_vector_rect", run, "ops")
}  // namespace byte_vector_rect_
namespace short_eigen_ {
using V = Eigen::Array<int16_t, Eigen::Dynamic, 1>;
using B = DBox<V, false>;
static void run() { opsScenario<OpTraits<V, B, OB_DISC, false>>(); }
SCENARIO("ops_short_eigen", run, "ops")
}  // namespace short_eigen_
namespace fixed_bytes_ {
using V = std::array<uint8_t, 4>;
using B = heu::FixedDiscreteBox<V, 0, 255>;
static void run() { opsScenario<OpTraits<V, B, OB_FIXED_D, false>>(); }
SCENARIO("ops_fixed_bytes", run, "ops")
}  // namespace fixed_bytes_
namespace fixed_signed_bytes_ {
using V = std::array<int8_t, 2>;
using B = heu::FixedDiscreteBox<V, -128, 127>;
static void run() { opsScenario<OpTraits<V, B, OB_FIXED_D, false>>(); }
SCENARIO("ops_fixed_signed_bytes", run, "ops")
}  // namespace fixed_signed_bytes_
namespace size_vector_ {
using V = std::vector<size_t>;
using B = DBox<V, false>;
static void run() { opsScenario<OpTraits<V, B, OB_DISC, false>>(); }
SCENARIO("ops_size_vector", run, "ops")
}  // namespace size_vector_
namespace long_array_ {
using V = std::array<int64_t, 3>;
using B = DBox<V, true>;
static void run() { opsScenario<OpTraits<V, B, OB_DISC, true>>(); }
SCENARIO("ops_long_array", run, "ops")
}  // namespace long_array_
