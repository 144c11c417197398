#include "ops.hpp"
using namespace hx;
static_assert(__cplusplus >= 202002L);
template <class V, class B, int K, bool R>
static void ops() {
  opsScenario<OpTraits<V, B, K, R>>();
}
using V = std::vector<double>;
using A5 = std::array<float, 5>;
using X = Eigen::ArrayXd;
using M23 = Eigen::Array<double, 2, 3>;
using XX = Eigen::ArrayXX<float>;
using Vl = std::vector<long>;
template <class T>
using F = typename AosBox<T, BX_FIXED20>::type;
static void a() { ops<V, F<V>, OB_FIXED_C, false>(); }
static void b() { ops<A5, F<A5>, OB_FIXED_C, false>(); }
static void c() { ops<X, F<X>, OB_FIXED_C, false>(); }
static void d() { ops<M23, F<M23>, OB_FIXED_C, false>(); }
static void e() { ops<XX, CBox<XX, true>, OB_CONT, true>(); }
static void g() { ops<Vl, heu::FixedDiscreteBox<Vl, -7, 12>, OB_FIXED_D, false>(); }
SCENARIO("ops20_vector_fixed", a, "ops")
SCENARIO("ops20_array_fixed", b, "ops")
SCENARIO("ops20_eigen_fixed", c, "ops")
SCENARIO("ops20_matrix_fixed", d, "ops")
SCENARIO("ops20_matrix_rect", e, "ops")
SCENARIO("ops20_long_fixed", g, "ops")
