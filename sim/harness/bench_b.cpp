// The DTLZ family.
#include "bench.hpp"
namespace hx {
namespace {
using E7 = Eigen::Array<double, 7, 1>;
using E3 = Eigen::Array<double, 3, 1>;
using E4 = Eigen::Array<double, 4, 1>;
using S7 = std::array<double, 7>;
using S3 = std::array<double, 3>;
using EX = Eigen::ArrayXd;
using SX = std::vector<double>;
}  // namespace
static void fixed3() { param("kind", 0, 1, 0) ? benchCase(benchDtlz<S7, S3>(), benchDtlz<E7, E3>(), 7, 3) : benchCase(benchDtlz<E7, E3>(), benchDtlz<S7, S3>(), 7, 3); }
static void fixed4() { param("kind", 0, 1, 0) ? benchCase(benchDtlz<E7, E4>(), benchDtlz<S7, E4>(), 7, 4) : benchCase(benchDtlz<S7, E4>(), benchDtlz<E7, E4>(), 7, 4); }
static void dyn() {
  const int m = drawSize("objectives", 2, 8, 3, 20), more = drawSize("more", 0, 9, 3, 70), n = m + more;
  auto some = [&](auto list) {
    if (!more) list.erase(list.end() - 2, list.end());  // DTLZ8 and DTLZ9 take more variables than objectives
    return list;
  };
  switch (param("kind", 0, 2, 0)) {
    case 0: return benchCase(some(benchDtlz<EX, EX>()), some(benchDtlz<SX, SX>()), n, m);
    case 1: return benchCase(some(benchDtlz<SX, SX>()), some(benchDtlz<EX, EX>()), n, m);
    default: return benchCase(some(benchDtlz<EX, E3>()), some(benchDtlz<SX, S3>()), more + 3, 3);
  }
}
SCENARIO("bench_dtlz_fixed3", fixed3, "bench")
SCENARIO("bench_dtlz_fixed4", fixed4, "bench")
SCENARIO("bench_dtlz_dynamic", dyn, "bench")
}  // namespace hx
