// Benchmark objectives of two and three values.
#include "bench.hpp"
namespace hx {
namespace {
template <int N>
using E = Eigen::Array<double, N, 1>;
template <int N>
using S = std::array<double, N>;
using EX = Eigen::ArrayXd;
using SX = std::vector<double>;
}  // namespace
static void mo12() {
  switch (param("kind", 0, 2, 0)) {
    case 0: return benchCase(benchMo12<S<1>, S<2>>(), benchMo12<E<1>, E<2>>(), 1, 2);
    case 1: return benchCase(benchMo12<E<1>, E<2>>(), benchMo12<SX, SX>(), 1, 2);
    default: return benchCase(benchMo12<SX, E<2>>(), benchMo12<S<1>, S<2>>(), 1, 2);
  }
}
static void mo22() {
  switch (param("kind", 0, 3, 0)) {
    case 0: return benchCase(benchMo22<S<2>, S<2>>(), benchMo22<E<2>, EX>(), 2, 2);
    case 1: return benchCase(benchMo22<E<2>, EX>(), benchMo22<SX, SX>(), 2, 2);
    case 2: return benchCase(benchMo22<SX, E<2>>(), benchMo22<S<2>, SX>(), 2, 2);
    default: return benchCase(benchMo22<SX, S<2>>(), benchMo22<S<2>, SX>(), 2, 2);
  }
}
static void mo23() {
  switch (param("kind", 0, 2, 0)) {
    case 0: return benchCase(benchMo23<S<2>, S<3>>(), benchMo23<E<2>, EX>(), 2, 3);
    case 1: return benchCase(benchMo23<E<2>, EX>(), benchMo23<SX, SX>(), 2, 3);
    default: return benchCase(benchMo23<SX, E<3>>(), benchMo23<S<2>, SX>(), 2, 3);
  }
}
static void mox2() {
  const int n = drawSize("dim", 2, 9, 3, 300);
  switch (param("kind", 0, 3, 0)) {
    case 0: return benchCase(benchMoX2<S<5>, S<2>>(), benchMoX2<E<5>, E<2>>(), 5, 2);
    case 1: return benchCase(benchMoX2<E<5>, E<2>>(), benchMoX2<SX, SX>(), 5, 2);
    case 2: return benchCase(benchMoX2<SX, E<2>>(), benchMoX2<EX, E<2>>(), n, 2);
    default: return benchCase(benchMoX2<EX, EX>(), benchMoX2<SX, SX>(), n, 2);
  }
}
SCENARIO("bench_mo12", mo12, "bench")
SCENARIO("bench_mo22", mo22, "bench")
SCENARIO("bench_mo23", mo23, "bench")
SCENARIO("bench_mo2", mox2, "bench")
}  // namespace hx
