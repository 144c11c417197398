#include "ops.hpp"

namespace hx {
void checkRate(const OpStat& s, const char* cls) {
  if (s.n < 30 || s.p <= 0 || s.p >= 1) return;
  // nine standard deviations, and room for the long tail of rare events
  const double sd = std::sqrt(s.n * s.p * (1 - s.p));
  if (std::fabs(double(s.k) - s.n * s.p) > 9 * sd + 4) fail(cls, "%s: %ld times of %ld, the documented share is %.3f", s.name, s.k, s.n, s.p);
  probe("operator rate compared");
}
}  // namespace hx
using namespace hx;
