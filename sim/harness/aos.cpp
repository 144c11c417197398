#include "aos.hpp"

namespace hx {
AosCfg aosCfg, aosCompanyCfg;

void drawAos(const std::string& pre, AosCfg& c, Rng* co) {
  auto in = [&](const char* n, int lo, int hi, int calm) -> int {
    if (co) return lo + int(co->below(uint64_t(hi - lo + 1)));
    return param((pre + n).c_str(), lo, hi, calm);
  };
  const int big = in("big", 0, 4, 0);
  c.n = in("pop", 1, co ? 8 : big == 0 ? 26 : 9, 2);
  c.maxGen = in("gens", 0, co ? 3 : 8, 1);
  c.maxEarly = in("fails", 0, 2, 0) ? in("maxfail", 0, 5, 2) : 20;
  if (!co && c.n < 10 && in("backstop", 0, 9, 0) == 9) {  // the generation limit is only a backstop for the early stop
    c.maxGen = 2000000000;
    c.maxEarly = in("backfail", 1, 2, 1);
  }
  c.box.extent = co ? EX_NONE : drawExtent(in);
  if (c.box.extent == EX_CANDIDATES) {
    c.n = in("popMany", 250, 520, 260);
    c.maxGen = in("gensFew", 1, 2, 1);
  }
  if (c.box.extent == EX_GENERATIONS || c.box.extent == EX_LIMIT) c.n = std::min(c.n, 6);
  if (c.box.extent == EX_GENERATIONS) {
    c.maxGen = in("gensMany", 250, 290, 260);
    c.maxEarly = 1000;
  }
  if (c.box.extent == EX_LIMIT) {
    c.maxGen = 600;
    c.maxEarly = in("failsMany", 250, 280, 260);
  }
  c.maxLayer = 1 + (c.box.extent == EX_CANDIDATES ? in("layersMany", 0, 519, 260) : in("layers", 0, 25, 0)) % c.n;
  static const double ph[] = {0.1, 0, 1, 0.5, 0};
  c.photon = ph[in("photon", 0, 4, 0)];
}

void checkMean(const std::vector<const ESnap*>& e, const Vec& bs, double be, double eps, const char* cls, const char* what) {
  if (e.empty()) return;
  const double n = double(e.size());
  // energies: only where no intermediate sum can overflow
  long double sum = 0, mag = 0;
  for (auto* p : e) {
    sum += p->e;
    mag += std::fabs((long double)p->e);
  }
  if (mag < 1e308L) {
    const long double want = sum / n;
    if (!(std::fabs((long double)be - want) <= 1e-15L * n * mag + 1e-320L)) fail(cls, "the binding energy of %s of %zu electrons is %.17g, their mean is %.17Lg", what, e.size(), be, want);
    probe("binding energy compared");
  }
  if (bs.size() != e[0]->x.size()) {
    fail(cls, "the binding state of %s has %zu components, its electrons %zu", what, bs.size(), e[0]->x.size());
    return;
  }
  for (size_t i = 0; i < bs.size(); i++) {
    sum = mag = 0;
    for (auto* p : e) {
      sum += p->x[i];
      mag += std::fabs((long double)p->x[i]);
    }
    const long double want = sum / n;
    if (!(std::fabs((long double)bs[i] - want) <= 4 * eps * n * mag + 1e-320L)) {
      fail(cls, "component %zu of the binding state of %s of %zu electrons is %.17g, the mean is %.17Lg", i, what, e.size(), bs[i], want);
      return;
    }
  }
}

namespace {
struct Reach {
  double lo, hi, tol;
};
// where the unlimited child may lie
Reach photonReach(const Spawn& s, size_t i, const Vec& ab, const Vec& abs_, const GaCfg& box, bool greater) {
  const bool beats = better(s.parent->e, s.layer->be, greater);
  const double B = beats ? s.layer->best[i] : ab[i], S = beats ? s.layer->bs[i] : abs_[i];
  const double div = beats ? 1 : s.index + 1;
  const double p = s.parent->x[i];
  Reach r;
  r.lo = p + (std::min(0.0, B) - std::max(0.0, S)) / div;
  r.hi = p + (std::max(0.0, B) - std::min(0.0, S)) / div;
  r.tol = 16 * box.eps * (std::fabs(p) + std::fabs(B) + std::fabs(S)) + 4 * box.tiny();
  return r;
}
// P(a (b B - g S) > t) for independent a, b, g uniform in the unit interval
double beyond(double B, double S, double t) {
  double x = B, y = -S, sh = 0;
  if (x < 0) sh += x, x = -x;
  if (y < 0) sh += y, y = -y;
  auto sq = [](double v) { return v > 0 ? v * v : 0.0; };
  double q = 0;
  const int N = 48;
  for (int i = 0; i < N; i++) {
    const double c = t / ((i + 0.5) / N) - sh;
    double g;
    if (x <= 1e-9 * y || y <= 1e-9 * x) g = std::max(0.0, std::min(1.0, c / (x + y)));
    else g = std::max(0.0, std::min(1.0, (sq(c) - sq(c - x) - sq(c - y) + sq(c - x - y)) / (2 * x * y)));
    q += 1 - g;
  }
  return q / N;
}
void noteMove(const Spawn& s, const ESnap& ch, size_t i, const Vec& ab, const Vec& abs_, const AosCfg& c, bool greater) {
  const bool beats = better(s.parent->e, s.layer->be, greater);
  const double div = beats ? 1 : s.index + 1;
  double B = (beats ? s.layer->best[i] : ab[i]) / div, S = (beats ? s.layer->bs[i] : abs_[i]) / div;
  const double p = s.parent->x[i], lo = c.box.lo[i % c.box.lo.size()], hi = c.box.hi[i % c.box.hi.size()];
  const double up = std::max(0.0, B) - std::min(0.0, S), down = std::max(0.0, S) - std::min(0.0, B);
  const double sg = up >= down ? 1 : -1, t = 0.3 * std::max(up, down);
  if (sg < 0) B = -B, S = -S;
  if (!(t > 1e-6 * std::fabs(p)) || !(t > 1e-200) || !std::isfinite(t)) return;
  if (!(lo < p + sg * t && p + sg * t < hi)) return;
  const double q = beyond(B, S, t);
  MoveStat& m = moveStat[beats ? 0 : s.index == 0 ? 1 : 2];
  m.n++;
  m.mu += q;
  m.var += q * (1 - q);
  m.far += sg * (ch.x[i] - p) > t;
}
bool inReach(const Reach& r, double x, double lo, double hi) {
  const double a = std::max(lo, std::min(hi, r.lo)), b = std::max(lo, std::min(hi, r.hi));
  return x >= a - r.tol && x <= b + r.tol;
}
std::string why(const Spawn& s, const ESnap& ch, const Vec& ab, const Vec& abs_, const AosCfg& c, bool greater) {
  char m[300];
  for (size_t i = 0; i < ch.x.size(); i++) {
    const Reach r = photonReach(s, i, ab, abs_, c.box, greater);
    const double d = c.box.step[i % c.box.step.size()];
    const double lo = c.box.lo[i % c.box.lo.size()], hi = c.box.hi[i % c.box.hi.size()];
    const bool ph = inReach(r, ch.x[i], lo, hi), np = inReach({s.parent->x[i] - d, s.parent->x[i] + d, 4 * c.box.eps * (d + std::fabs(s.parent->x[i])) + c.box.tiny()}, ch.x[i], lo, hi);
    if (!ph || !np) {
      snprintf(m, sizeof m, "component %zu went from %.17g to %.17g, a photon allows [%.17g, %.17g], the step is %.17g", i, s.parent->x[i], ch.x[i], r.lo, r.hi, d);
      return m;
    }
  }
  return "";
}
bool explains(const Spawn& s, const ESnap& ch, const Vec& ab, const Vec& abs_, const AosCfg& c, bool greater, bool& photon, bool& plain) {
  photon = c.photon < 1;
  plain = c.photon > 0;
  for (size_t i = 0; i < ch.x.size(); i++) {
    const double lo = c.box.lo[i % c.box.lo.size()], hi = c.box.hi[i % c.box.hi.size()];
    if (photon && !inReach(photonReach(s, i, ab, abs_, c.box, greater), ch.x[i], lo, hi)) photon = false;
    const double d = c.box.step[i % c.box.step.size()], p = s.parent->x[i];
    if (plain && !inReach({p - d, p + d, 4 * c.box.eps * (d + std::fabs(p)) + c.box.tiny()}, ch.x[i], lo, hi)) plain = false;
  }
  return photon || plain;
}
}  // namespace

MoveStat moveStat[3];
// The order in which the new electrons are stored is the code's own business, and a wrong pairing of children and
// parents would falsify the statistics of the moves. Bit 0: layers backwards, bit 1: electrons of a layer backwards.
// A move counts only if every order that explains all children so far agrees on its parent.
static unsigned ordersLeft = 15;
static std::vector<size_t> parentOrder(const std::vector<Spawn>& par, unsigned o) {
  std::vector<std::vector<size_t>> layers;
  for (size_t i = 0; i < par.size(); i++) {
    if (!i || par[i].index != par[i - 1].index) layers.emplace_back();
    layers.back().push_back(i);
  }
  if (o & 1) std::reverse(layers.begin(), layers.end());
  std::vector<size_t> r;
  for (auto& l : layers) {
    if (o & 2) std::reverse(l.begin(), l.end());
    r.insert(r.end(), l.begin(), l.end());
  }
  return r;
}
void moveStatReset() {
  for (auto& m : moveStat) m = MoveStat();
  ordersLeft = 15;
}
void moveStatCheck() {
  static const char* who[] = {"better than their layer", "of the first layer, not better than it,", "of the other layers, not better than theirs,"};
  for (int i = 0; i < 3; i++) {
    const MoveStat& m = moveStat[i];
    if (m.n < 40 || env.rngx) continue;
    probe("photon move lengths compared");
    if (std::fabs(double(m.far) - m.mu) > 8 * std::sqrt(m.var) + 5)
      fail("C17:factors", "of %ld electrons %s %ld went further than 3/10 of their reach, uniform factors give %.1f", m.n, who[i], m.far, m.mu);
  }
}

void checkChildren(const std::vector<Spawn>& par, const std::vector<const ESnap*>& ch, const Vec& ab, const Vec& abs_, const AosCfg& c, bool greater) {
  const size_t n = par.size(), d = ab.size();
  for (auto& p : par)
    if (p.layer->best.size() != d || p.layer->bs.size() != d || p.parent->x.size() != d) return;
  for (auto* x : ch)
    if (x->x.size() != d) {
      fail("C17:size", "a new electron has %zu components instead of %zu", x->x.size(), d);
      return;
    }
  if (abs_.size() != d) return;
  bool photon, plain, ordered = true;
  size_t at = 0, still = 0, total = 0, certainPhoton = 0;
  bool law1 = false, law2 = false;
  for (size_t i = 0; i < n && ordered; i++) {
    ordered = explains(par[i], *ch[i], ab, abs_, c, greater, photon, plain);
    if (!ordered) at = i;
    else {
      if (photon && !plain) {
        certainPhoton++;
        (better(par[i].parent->e, par[i].layer->be, greater) ? law1 : law2) = true;
      }
      for (size_t k = 0; k < d; k++) {
        total++;
        still += ch[i]->x[k] == par[i].parent->x[k] && c.box.lo[k % c.box.lo.size()] < par[i].parent->x[k] && par[i].parent->x[k] < c.box.hi[k % c.box.hi.size()];
      }
    }
  }
  if (!ordered) ordersLeft &= ~1u;
  std::vector<char> sure(n, char(ordersLeft & 1));  // judged by the generations before this one
  for (unsigned o = 1; o < 4 && (ordersLeft & 1); o++) {
    if (!(ordersLeft >> o & 1)) continue;
    const std::vector<size_t> of = parentOrder(par, o);
    bool a, b;
    for (size_t i = 0; i < n; i++) {
      if (of[i] == i) continue;
      sure[i] = 0;
      if ((ordersLeft >> o & 1) && !explains(par[of[i]], *ch[i], ab, abs_, c, greater, a, b)) ordersLeft &= ~(1u << o);
    }
  }
  if (ordered) {
    probe("children explained", int(n));
    if (c.photon <= 0 && !env.rngx && c.box.magnitude == 0)
      for (size_t i = 0; i < n; i++)
        for (size_t k = 0; k < d && sure[i]; k++) noteMove(par[i], *ch[i], k, ab, abs_, c, greater);
    if (law1) probe("photon towards the layer's best");
    if (law2) probe("photon towards the atom's best");
    if (c.photon >= 1) probe("non-photon children only");
    if (c.photon <= 0) probe("photon children only");
    if (!env.rngx && c.box.magnitude == 0 && total >= 24 && still * 2 > total) {
      // electrons inside the box that do not move at all, although their law lets them
      bool wide = c.photon > 0;
      for (auto& p : par)
        for (size_t k = 0; k < d && !wide; k++) {
          Reach r = photonReach(p, k, ab, abs_, c.box, greater);
          wide = r.hi - r.lo > 1e-6;
        }
      if (wide) fail("C17:still", "%zu of %zu components of new electrons equal their parent's", still, total);
    }
    return;
  }
  // not in the order of the layers: is there any assignment of children to parents?
  std::vector<std::vector<int>> adj(n);
  for (size_t i = 0; i < n; i++)
    for (size_t j = 0; j < n; j++)
      if (explains(par[i], *ch[j], ab, abs_, c, greater, photon, plain)) adj[i].push_back(int(j));
  std::vector<int> match(n, -1);
  size_t got = 0;
  for (size_t i = 0; i < n; i++) {
    std::vector<char> seen(n, 0);
    struct Try {
      static bool go(size_t u, const std::vector<std::vector<int>>& adj, std::vector<int>& match, std::vector<char>& seen) {
        for (int v : adj[u]) {
          if (seen[size_t(v)]) continue;
          seen[size_t(v)] = 1;
          if (match[size_t(v)] < 0 || go(size_t(match[size_t(v)]), adj, match, seen)) {
            match[size_t(v)] = int(u);
            return true;
          }
        }
        return false;
      }
    };
    if (Try::go(i, adj, match, seen)) got++;
  }
  if (got < n)
    fail("C17:child", "the new electrons cannot be assigned to parents by the documented laws (rate %g): %s", c.photon, why(par[at], *ch[at], ab, abs_, c, greater).c_str());
  else
    probe("children matched out of order");
}
}  // namespace hx
