#include "ga_mo.hpp"

namespace hx {
// all points of the simplex lattice, each exactly once
static bool lattice(const std::vector<Vec>& pts, int M, int prec, double scale, const char* what) {
  double want = 1;
  for (int i = 1; i <= prec; i++) want = want * (M - 1 + i) / i;
  want = std::floor(want + 0.5);
  std::unordered_set<uint64_t> seen;
  for (auto& p : pts) {
    double sum = 0;
    uint64_t h = 5;
    if (int(p.size()) != M) {
      fail("C13:lattice", "a reference point of %zu coordinates for %d objectives", p.size(), M);
      return false;
    }
    for (double x : p) {
      const double k = x / scale * prec;
      if (!(x >= 0) || std::fabs(k - std::floor(k + 0.5)) > 1e-6) {
        fail("C13:lattice", "coordinate %.17g is not on the %s lattice of precision %d", x, what, prec);
        return false;
      }
      h = hcomb(h, uint64_t(int64_t(std::floor(k + 0.5)) + 1000));
      sum += x;
    }
    if (std::fabs(sum - scale) > 1e-9) {
      fail("C13:lattice", "the coordinates of a reference point of the %s lattice sum to %.17g", what, sum);
      return false;
    }
    if (!seen.insert(h).second) {
      fail("C13:lattice", "a reference point of the %s lattice appears twice", what);
      return false;
    }
  }
  if (double(pts.size()) != want) {
    fail("C13:lattice", "%zu reference points on the %s lattice, %g expected for %d objectives and precision %d", pts.size(), what, want, M, prec);
    return false;
  }
  return true;
}
void checkLattice(const std::vector<Vec>& pts, int M, int prec, int inner) {
  if (!inner) {
    lattice(pts, M, prec, 1, "single");
    return;
  }
  std::vector<Vec> in, out;
  double scale = 0;
  for (auto& p : pts) {
    double s = 0;
    for (double x : p) s += x;
    if (std::fabs(s - 1) < 1e-9) out.push_back(p);
    else {
      in.push_back(p);
      scale = s;
    }
  }
  if (!lattice(out, M, prec, 1, "outer")) return;
  if (!in.empty() && !(scale > 0 && scale < 1)) {
    fail("C13:lattice", "inner reference points sum to %.17g", scale);
    return;
  }
  lattice(in, M, inner, in.empty() ? 0.5 : scale, "inner");
}

static double perp2(const Vec& t, const Vec& w) {
  double tw = 0, ww = 0;
  for (size_t i = 0; i < t.size(); i++) {
    tw += t[i] * w[i];
    ww += w[i] * w[i];
  }
  double d = 0;
  for (size_t i = 0; i < t.size(); i++) {
    const double e = t[i] - w[i] * tw / ww;
    d += e * e;
  }
  return d;
}
static double norm2(const Vec& t) {
  double d = 0;
  for (double x : t) d += x * x;
  return d;
}

void checkNiches(std::vector<NicheMember> c, const std::vector<Vec>& refs, size_t K) {
  const size_t M = c[0].fit.size(), R = refs.size();
  std::vector<int> sorted;
  for (auto& m : c) sorted.push_back(m.dom);
  std::sort(sorted.begin(), sorted.end());
  const int crit = sorted[K - 1];
  // the normalisation: translated = (fitness - ideal) / a, the same for all
  Vec ideal(M, kInf), a(M, std::numeric_limits<double>::quiet_NaN());
  for (auto& m : c)
    if (m.dom <= crit)
      for (size_t j = 0; j < M; j++) ideal[j] = std::min(ideal[j], m.fit[j]);
  for (auto& m : c)
    if (m.kept)
      for (double x : m.t)
        if (!std::isfinite(x)) {
          probe("normalisation not finite");
          return;
        }
  for (size_t j = 0; j < M; j++) {
    double best = 0;
    for (auto& m : c)
      if (m.kept && std::fabs(m.t[j]) > best) {
        best = std::fabs(m.t[j]);
        a[j] = (m.fit[j] - ideal[j]) / m.t[j];
      }
    for (auto& m : c)
      if (m.kept && std::isfinite(a[j])) {
        const double e = (m.fit[j] - ideal[j]) / a[j];
        if (std::fabs(e - m.t[j]) > 1e-6 * (1 + best)) {
          fail("C13:normalise", "objective %zu of a member of the layers under consideration is normalised to %.17g instead of %.17g", j, m.t[j], e);
          return;
        }
      }
  }
  auto nearest = [&](const Vec& t, double& d0, std::vector<double>& d) {
    d.resize(R);
    d0 = kInf;
    for (size_t k = 0; k < R; k++) {
      d[k] = perp2(t, refs[k]);
      d0 = std::min(d0, d[k]);
    }
  };
  std::vector<double> d;
  std::vector<int> rho0(R, 0), added(R, 0), left(R, 0);
  std::vector<double> keptNear(R, kInf), lostNear(R, kInf), tolAt(R, 0);
  for (auto& m : c) {
    if (!m.kept) continue;
    if (m.ref < 0 || size_t(m.ref) >= R) {
      fail("C13:associate", "a kept individual is associated with reference point %ld of %zu", m.ref, R);
      return;
    }
    double d0;
    nearest(m.t, d0, d);
    const double tol = 1e-9 * (1e-6 + norm2(m.t));
    if (d[size_t(m.ref)] > d0 + tol) {
      fail("C13:associate", "an individual is associated with a reference line at squared distance %.17g, the nearest one is at %.17g", d[size_t(m.ref)], d0);
      return;
    }
    if (m.dom < crit) rho0[size_t(m.ref)]++;
    else {
      added[size_t(m.ref)]++;
      keptNear[size_t(m.ref)] = std::min(keptNear[size_t(m.ref)], d[size_t(m.ref)]);
    }
  }
  probe("association compared");
  size_t unsure = 0;
  for (auto& m : c) {
    if (m.kept || m.dom != crit) continue;
    Vec t(M);
    bool ok = true;
    for (size_t j = 0; j < M; j++) {
      t[j] = m.fit[j] == ideal[j] ? 0 : (m.fit[j] - ideal[j]) / a[j];
      ok = ok && std::isfinite(t[j]);
    }
    double d0;
    nearest(t, d0, d);
    const double tol = 1e-7 * (1e-6 + norm2(t));
    long k = -1;
    for (size_t i = 0; ok && i < R; i++)
      if (d[i] <= d0 + tol) {
        if (k >= 0) ok = false;
        k = long(i);
      }
    if (!ok || k < 0) {
      unsure++;
      continue;
    }
    left[size_t(k)]++;
    if (d0 < lostNear[size_t(k)]) {
      lostNear[size_t(k)] = d0;
      tolAt[size_t(k)] = tol;
    }
  }
  if (!unsure) probe("all discarded candidates associated");
  for (size_t j = 0; j < R; j++) {
    if (!added[j]) continue;
    for (size_t k = 0; k < R; k++)
      if (left[k] && rho0[j] + added[j] - 1 > rho0[k] + added[k]) {
        fail("C13:niche", "a candidate was added to a niche with %d chosen members although a niche with %d had candidates left", rho0[j] + added[j] - 1, rho0[k] + added[k]);
        return;
      }
    if (rho0[j] == 0 && left[j] && lostNear[j] + tolAt[j] < keptNear[j]) {
      fail("C13:closest", "an empty niche received a candidate at squared distance %.17g although one at %.17g was available", keptNear[j], lostNear[j]);
      return;
    }
    if (rho0[j] == 0 && left[j]) probe("empty niche filled with a choice");
    if (rho0[j] > 0) probe("populated niche filled");
  }
  probe("niching compared");
}
}  // namespace hx
