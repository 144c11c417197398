#include "pso.hpp"

namespace hx {
PsoCfg psoCfg, psoCompanyCfg;

void drawPso(const std::string& pre, PsoCfg& c, Rng* co) {
  auto in = [&](const char* n, int lo, int hi, int calm) -> int {
    if (co) return lo + int(co->below(uint64_t(hi - lo + 1)));
    return param((pre + n).c_str(), lo, hi, calm);
  };
  const int big = in("big", 0, 4, 0);
  c.pop = in("pop", 1, co ? 8 : big == 0 ? 26 : 9, 2);
  c.maxGen = in("gens", 0, co ? 3 : 9, 1);
  c.maxFail = in("fails", 0, 1, 0) ? in("maxfail", 1, 4, 1) : 0;
  if (!co && c.pop < 8 && in("backstop", 0, 9, 0) == 9) {  // the generation limit is only a backstop for the failure limit
    c.maxGen = 2000000000;
    c.maxFail = 1;
  }
  c.box.extent = co ? EX_NONE : drawExtent(in);
  if (c.box.extent == EX_CANDIDATES) {
    c.pop = in("popMany", 250, 520, 260);
    c.maxGen = in("gensFew", 1, 2, 1);
  }
  if (c.box.extent == EX_GENERATIONS || c.box.extent == EX_LIMIT) c.pop = std::min(c.pop, 6);
  if (c.box.extent == EX_GENERATIONS) {
    c.maxGen = in("gensMany", 250, 290, 260);
    c.maxFail = 0;
  }
  if (c.box.extent == EX_LIMIT) {
    c.maxGen = 600;
    c.maxFail = in("failsMany", 250, 280, 260);
  }
  static const double ws[] = {0.8, 0.4, 0, 1, 1.2}, cs[] = {2, 1.5, 0, 0.5, 2.5};
  c.w = ws[in("w", 0, 4, 0)];
  c.c1 = cs[in("c1", 0, 4, 0)];
  c.c2 = cs[in("c2", 0, 4, 0)];
}

namespace {
struct P2 {
  double x, y;
};
// keep the part of the polygon where a*x + b*y <= c
std::vector<P2> clip(const std::vector<P2>& p, double a, double b, double c) {
  std::vector<P2> r;
  for (size_t i = 0; i < p.size(); i++) {
    const P2 s = p[i], e = p[(i + 1) % p.size()];
    const double fs = a * s.x + b * s.y - c, fe = a * e.x + b * e.y - c;
    if (fs <= 0) r.push_back(s);
    if ((fs < 0 && fe > 0) || (fs > 0 && fe < 0)) {
      const double t = fs / (fs - fe);
      r.push_back({s.x + t * (e.x - s.x), s.y + t * (e.y - s.y)});
    }
  }
  return r;
}
}  // namespace

void checkMove(size_t idx, const PSnap& o, const PSnap& n, const Vec& g, const PsoCfg& c, MoveStats& ms) {
  const size_t d = o.x.size();
  if (n.x.size() != d || n.v.size() != d || o.v.size() != d || o.px.size() != d || g.size() != d) {
    fail("C16:size", "a particle changed its size while moving");
    return;
  }
  const double eps = c.box.eps * 16;
  const double unit = c.box.magnitude == 1 ? 1e300 : 1;  // geometry needs more digits than denormal numbers have
  std::vector<P2> poly = {{0, 0}, {1, 0}, {1, 1}, {0, 1}};
  // the unit square, opened by the rounding of the draw
  for (auto& q : poly) q.x += (q.x - 0.5) * 2e-12, q.y += (q.y - 0.5) * 2e-12;
  for (size_t i = 0; i < d; i++) {
    const double base = c.w * o.v[i], a = c.c1 * (o.px[i] - o.x[i]), b = c.c2 * (g[i] - o.x[i]);
    const double m = c.box.step[i % c.box.step.size()];
    const double tol = eps * (std::fabs(base) + c.c1 * (std::fabs(o.px[i]) + std::fabs(o.x[i])) + c.c2 * (std::fabs(g[i]) + std::fabs(o.x[i])) + std::fabs(m)) + 4 * c.box.tiny();
    const double v = n.v[i];
    const bool top = v >= m * (1 - 4 * c.box.eps), bottom = v <= -m * (1 - 4 * c.box.eps);
    // base + a r1 + b r2 = v, or beyond the limit where v is on it
    if (!top) poly = clip(poly, a * unit, b * unit, (v - base + tol) * unit);
    if (!bottom) poly = clip(poly, -a * unit, -b * unit, (base - v + tol) * unit);
    if (poly.empty()) {
      fail("C16:velocity", "no pair of factors in the unit interval explains the new velocity of particle %zu (component %zu: %.17g, before %.17g, inertia %g, to its best %.17g, to the swarm's best %.17g)",
           idx, i, v, o.v[i], c.w, o.px[i] - o.x[i], g[i] - o.x[i]);
      return;
    }
    const double lo = c.box.lo[i % c.box.lo.size()], hi = c.box.hi[i % c.box.hi.size()];
    const double want = std::max(lo, std::min(hi, o.x[i] + v));
    if (!(std::fabs(n.x[i] - want) <= 4 * c.box.eps * (std::fabs(o.x[i]) + std::fabs(v)) + c.box.tiny())) {
      fail("C16:position", "component %zu of particle %zu moved from %.17g with velocity %.17g to %.17g instead of %.17g", i, idx, o.x[i], v, n.x[i], want);
      return;
    }
  }
  double x0 = 2, x1 = -1, y0 = 2, y1 = -1;
  for (auto& q : poly) {
    x0 = std::min(x0, q.x);
    x1 = std::max(x1, q.x);
    y0 = std::min(y0, q.y);
    y1 = std::max(y1, q.y);
  }
  if (x1 - x0 < 1e-5 && y1 - y0 < 1e-5) {
    probe("both factors determined");
    ms.r1.push_back((x0 + x1) / 2);
    ms.r2.push_back((y0 + y1) / 2);
  }
  probe("move explained");
}

void checkMoveStats(const MoveStats& ms, bool one) {
  if (env.rngx) return;  // extreme draws may coincide
  const size_t n = ms.r1.size();
  if (one) {
    if (n < 5) return;
    bool same1 = true, same2 = true;
    for (size_t i = 1; i < n; i++) {
      same1 = same1 && std::fabs(ms.r1[i] - ms.r1[0]) < 1e-3;
      same2 = same2 && std::fabs(ms.r2[i] - ms.r2[0]) < 1e-3;
    }
    if (same1 || same2) fail("C16:shared", "all %zu particles were moved with the same random factor", n);
    return;
  }
  if (n < 12) return;
  bool eq = true;
  size_t hi1 = 0, hi2 = 0;
  for (size_t i = 0; i < n; i++) {
    eq = eq && std::fabs(ms.r1[i] - ms.r2[i]) < 1e-3;
    hi1 += ms.r1[i] > 0.5;
    hi2 += ms.r2[i] > 0.5;
  }
  if (eq) fail("C16:equal", "both attractions of %zu moves share one random factor", n);
  // limits hide large factors more often than small ones
  if (n >= 48 && 3 * n >= 2 * ms.moves) {
    probe("factors counted");
    for (size_t h : {hi1, hi2})
      if (h < n / 12 || n - h < n / 12) fail("C16:factors", "%zu of %zu random factors are above one half", h, n);
  }
}
}  // namespace hx
