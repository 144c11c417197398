#include "ga.hpp"

namespace hx {
GaCfg gaCfg, gaCompanyCfg;

static bool close(double a, double b, double tol) {
  if (a == b) return true;
  return std::fabs(a - b) <= tol;
}

void checkCross(const Rec::Cross& c, int kind, double r, const GaCfg& cfg) {
  if (!same(c.p1, c.q1) || !same(c.p2, c.q2)) fail("C15:parent", "crossover changed a parent");
  const size_t n = c.p1.size();
  if (c.c1.size() != n || c.c2.size() != c.p2.size() || c.p2.size() != n) {
    fail("C15:size", "crossover children of size %zu and %zu from parents of size %zu", c.c1.size(), c.c2.size(), n);
    return;
  }
  for (size_t i = 0; i < n; i++) {
    const double p = c.p1[i], q = c.p2[i], a = c.c1[i], b = c.c2[i];
    bool ok;
    if (kind == CX_BLEND || kind == CX_BLEND2)
      ok = close(a, r * p + (1 - r) * q, 8 * cfg.eps * (std::fabs(p) + std::fabs(q)) + cfg.tiny()) && close(b, r * q + (1 - r) * p, 8 * cfg.eps * (std::fabs(p) + std::fabs(q)) + cfg.tiny());
    else if (kind == CX_SWAP)
      ok = (a == p && b == q) || (a == q && b == p);
    else
      ok = (a == p || a == q) && (b == p || b == q);
    if (!ok) {
      fail("C15:cross", "operator %d: component %zu of the children is %.17g and %.17g, parents %.17g and %.17g", kind, i, a, b, p, q);
      return;
    }
  }
}

void checkMut(const Rec::Mut& m, const GaCfg& c) {
  if (!same(m.src, m.src2)) fail("C15:source", "mutation changed its source");
  if (m.dst.size() != m.src.size()) {
    fail("C15:size", "a mutant of size %zu from a source of size %zu", m.dst.size(), m.src.size());
    return;
  }
  for (size_t i = 0; i < m.src.size(); i++) {
    const double st = c.step[i % c.step.size()];
    const double d = std::fabs(m.dst[i] - m.src[i]);
    if (!(d <= st + 4 * c.eps * (st + std::fabs(m.src[i])) + c.tiny())) {
      fail("C15:step", "a mutant's component %zu changed by %.17g, the step is %.17g", i, d, st);
      return;
    }
  }
}

void checkBox(const Vec& x, const GaCfg& c, const char* what) {
  if (c.lo.empty()) return;
  if (int(x.size()) != c.dim) {
    fail("C14:size", "%s has %zu components instead of %d", what, x.size(), c.dim);
    return;
  }
  for (size_t i = 0; i < x.size(); i++) {
    const double lo = c.lo[i % c.lo.size()], hi = c.hi[i % c.hi.size()];
    const double tol = c.discrete ? 0 : 4 * c.eps * std::max(std::fabs(lo), std::fabs(hi));
    if (!(x[i] >= lo - tol && x[i] <= hi + tol)) {
      fail("C14:box", "component %zu of an %s is %.17g, outside [%.17g, %.17g]", i, what, x[i], lo, hi);
      return;
    }
    if (c.discrete && x[i] != std::floor(x[i])) fail("C14:discrete", "component %zu of an %s is %.17g", i, what, x[i]);
    if (x[i] == lo || x[i] == hi) probe("component on the bound");
  }
}

bool dominates(const Vec& a, const Vec& b, bool greater) {
  bool any = false;
  if (a.size() != b.size()) return false;
  for (size_t j = 0; j < a.size(); j++) {
    if (better(b[j], a[j], greater)) return false;
    if (better(a[j], b[j], greater)) any = true;
  }
  return any;
}
std::vector<int> dominatedCounts(const std::vector<Snap>& c, bool greater) {
  std::vector<int> d(c.size(), 0);
  for (size_t i = 0; i < c.size(); i++)
    for (size_t j = 0; j < c.size(); j++)
      if (i != j && dominates(c[j].fit, c[i].fit, greater)) d[i]++;
  return d;
}

void checkEvaluated(const std::vector<Snap>& pop, const Land& L, const char* when) {
  for (auto& p : pop) {
    if (!p.computed) {
      fail("C01:unevaluated", "a candidate is not marked as evaluated %s", when);
      return;
    }
    Vec f = landv(L, p.x);
    if (!same(f, p.fit)) {
      fail("C01:fitness", "a candidate %s carries fitness %s %s, the objective gives %s", show(p.x).c_str(), show(p.fit).c_str(), when, show(f).c_str());
      return;
    }
  }
}
void checkCalls(Rec& R, std::vector<Vec> expect, const char* when) {
  Bag w;
  for (auto& x : expect) w.add(vhash(x));
  size_t extra = 0;
  for (auto& x : R.calls)
    if (!w.take(vhash(x))) extra++;
  if (extra) fail("C01:again", "%zu of %zu calls of the objective in one %s were for something already evaluated or not a candidate", extra, R.calls.size(), when);
  if (w.n) fail("C01:missed", "%zu new candidates were not given to the objective in one %s", w.n, when);
}

void checkInclusion(const std::vector<Snap>& cand, const std::vector<Snap>& after, size_t K, bool mayCopy) {
  const size_t want = std::min(K, cand.size());
  if (after.size() != want) fail("C06:size", "%zu individuals after a selection among %zu candidates, configured are %zu", after.size(), cand.size(), K);
  Bag b;
  for (auto& c : cand) b.add(c.key);
  for (auto& a : after) {
    const bool ok = mayCopy ? b.has(a.key) : b.take(a.key);
    if (!ok) {
      fail("C06:foreign", b.has(a.key) ? "an individual appears more often after the selection than before" : "an individual after the selection was not a candidate (or has been changed)");
      return;
    }
  }
  if (mayCopy) {
    Bag seen;
    for (auto& a : after) seen.add(a.key);
    if (cand.size() <= K) {  // nothing to select: all stay
      Bag c2;
      for (auto& c : cand) c2.add(c.key);
      for (auto& a : after)
        if (!c2.take(a.key)) {
          fail("C06:copy", "a candidate was copied although there were no more candidates than places");
          return;
        }
    }
  }
}

void checkSoSelection(const std::vector<Snap>& cand, const std::vector<Snap>& after, const GaCfg& cfg, int method, bool greater) {
  const size_t K = size_t(cfg.pop);
  if (cand.size() <= K || after.empty()) return;
  Vec c, a;
  for (auto& p : cand) c.push_back(p.fit[0]);
  for (auto& p : after) a.push_back(p.fit[0]);
  auto cmp = [&](double x, double y) { return better(x, y, greater); };
  std::sort(c.begin(), c.end(), cmp);
  std::sort(a.begin(), a.end(), cmp);
  if (method == int(SelectMethod::Truncation)) {
    for (size_t i = 0; i < a.size() && i < c.size(); i++)
      if (a[i] != c[i]) {
        fail("C08:truncation", "truncation kept fitness %.17g at rank %zu, the candidates offer %.17g", a[i], i, c[i]);
        return;
      }
  } else if (method == int(SelectMethod::EliteReserved)) {
    for (size_t i = 0; i < size_t(cfg.elite) && i < K && i < a.size(); i++)
      if (a[i] != c[i]) {
        fail("C08:elite", "the candidate of rank %zu (%.17g) was lost although %d elites are preserved", i, c[i], cfg.elite);
        return;
      }
  } else if (method == int(SelectMethod::Tournament)) {
    // a winner is at least as good as the other members of its tournament
    for (double x : a) {
      size_t notBetter = 0;
      for (double y : c)
        if (!better(y, x, greater)) notBetter++;
      if (notBetter < size_t(cfg.tsize)) {  // itself included
        fail("C08:tournament", "a candidate with fitness %.17g was kept, only %zu candidates are not better (tournaments of %d)", x, notBetter, cfg.tsize);
        return;
      }
    }
  }
}

void checkVariation(const std::vector<Snap>& surv, const std::vector<Snap>& now, const GaCfg& cfg, Rec& R) {
  Bag s, x;
  for (auto& p : surv) {
    s.add(p.key);
    x.add(p.xkey);
  }
  // survivors unchanged, new ones are exactly the operators' results
  Bag nb;
  for (auto& k : R.cross) {
    nb.add(vhash(k.c1));
    nb.add(vhash(k.c2));
  }
  for (auto& m : R.mut) nb.add(vhash(m.dst));
  size_t stray = 0, marked = 0;
  for (auto& p : now) {
    if (p.computed) {
      if (!s.take(p.key)) stray++;
    } else {
      if (!nb.take(p.xkey)) stray++;
    }
    if (p.computed) marked++;
  }
  if (s.n) fail("C15:survivor", "%zu survivors were changed or lost by crossover and mutation", s.n);
  if (stray || nb.n) fail("C15:children", "%zu individuals after variation come from no operator, %zu children or mutants are missing", stray, nb.n);
  // parents: members, each at most once
  Bag par = x;
  size_t badp = 0;
  for (auto& k : R.cross) {
    if (!par.take(vhash(k.p1))) badp++;
    if (!par.take(vhash(k.p2))) badp++;
  }
  if (badp) fail("C15:parents", "%zu crossover parents were used twice or are no members", badp);
  Bag src;
  for (auto& p : surv) src.add(p.xkey);
  for (auto& k : R.cross) {
    src.add(vhash(k.c1));
    src.add(vhash(k.c2));
  }
  const size_t nsrc = src.n;
  size_t bads = 0;
  for (auto& m : R.mut)
    if (!src.take(vhash(m.src))) bads++;
  if (bads) fail("C15:sources", "%zu mutation sources were used twice or are no members", bads);
  // rates zero and one
  const size_t n = surv.size();
  if (cfg.cx <= 0 && !R.cross.empty()) fail("C15:rate", "%zu crossovers at rate 0", R.cross.size());
  if (cfg.cx >= 1 && R.cross.size() != n / 2) fail("C15:rate", "%zu crossovers at rate 1 among %zu individuals", R.cross.size(), n);
  if (cfg.mu <= 0 && !R.mut.empty()) fail("C15:rate", "%zu mutations at rate 0", R.mut.size());
  if (cfg.mu >= 1 && R.mut.size() != nsrc) fail("C15:rate", "%zu mutations at rate 1 among %zu individuals", R.mut.size(), nsrc);
  if (cfg.cx >= 1) probe("crossover at rate one");
  if (cfg.mu >= 1) probe("mutation at rate one");
}

void checkCrowding(const std::vector<Snap>& cand, const std::vector<int>& dom, const std::vector<Snap>& after, size_t K, bool) {
  if (cand.size() <= K || after.size() != K) return;
  std::vector<int> sorted = dom;
  std::sort(sorted.begin(), sorted.end());
  const int crit = sorted[K - 1];
  if (sorted[K] != crit) return;  // the layer fits
  const size_t n = cand.size(), M = cand[0].fit.size();
  Vec crowd(n, 0);
  for (size_t j = 0; j < M; j++) {
    std::vector<size_t> o(n);
    for (size_t i = 0; i < n; i++) o[i] = i;
    std::sort(o.begin(), o.end(), [&](size_t a, size_t b) { return cand[a].fit[j] < cand[b].fit[j]; });
    for (size_t i = 1; i < n; i++)
      if (cand[o[i]].fit[j] == cand[o[i - 1]].fit[j]) return;  // the order of ties is not specified
    const double scale = cand[o[n - 1]].fit[j] - cand[o[0]].fit[j] + 1e-10;
    if (!std::isfinite(scale)) return;
    crowd[o[0]] = crowd[o[n - 1]] = kInf;
    for (size_t i = 1; i + 1 < n; i++) crowd[o[i]] += (cand[o[i + 1]].fit[j] - cand[o[i - 1]].fit[j]) / scale;
  }
  probe("crowding reference compared");
  Bag kept;
  for (auto& a : after) kept.add(a.key);
  double minKept = kInf, maxLost = -1;
  for (size_t i = 0; i < n; i++) {
    if (dom[i] != crit) continue;
    if (kept.take(cand[i].key)) minKept = std::min(minKept, crowd[i]);
    else maxLost = std::max(maxLost, crowd[i]);
  }
  if (maxLost > minKept + 1e-9 * (1 + minKept))
    fail("C12:crowding", "in the critical layer a candidate with crowding %.17g was kept although one with %.17g was discarded", minKept, maxLost);
}

void drawCfg(const std::string& pre, GaCfg& c, const GaShape& sh, Rng* co) {
  auto in = [&](const char* n, int lo, int hi, int calm) -> int {
    if (co) return lo + int(co->below(uint64_t(hi - lo + 1)));
    return param((pre + n).c_str(), lo, hi, calm);
  };
  static const double rates[] = {0.8, 0.5, 0, 1, 0.3, 0.9, 0.05, 1};
  static const double mrates[] = {0.05, 0.3, 0, 1, 0.1, 0.6, 0.9, 0};
  c.method = in("method", 0, 9, int(SelectMethod::EliteReserved));
  c.tsize = 2 + in("tsize", 0, 3, 1);
  // small, odd and larger populations
  const int big = in("big", 0, 5, 0);
  int hi = big == 0 ? sh.maxPop : big < 3 ? 8 : 14;
  if (hi > sh.maxPop) hi = sh.maxPop;
  c.pop = in("pop", sh.minPop, std::max(hi, sh.minPop), sh.minPop);
  c.maxGen = in("gens", 0, sh.maxGen, 1);
  c.maxFail = in("fails", 0, 1, 0) ? in("maxfail", 1, 4, 1) : 0;
  if (!co && !sh.mo && in("backstop", 0, 9, 0) == 9) {  // the generation limit is only a backstop for the failure limit
    c.maxGen = 2000000000;
    c.maxFail = in("backfail", 1, 2, 1);
  }
  c.extent = co ? EX_NONE : drawExtent(in);
  if (c.extent == EX_CANDIDATES) {
    c.pop = in("popMany", sh.mo ? 130 : 257, sh.niches ? 150 : sh.mo ? 170 : 520, sh.mo ? 140 : 260);
    c.maxGen = sh.niches ? 1 : in("gensFew", 1, 2, 1);
  }
  if (c.extent == EX_GENERATIONS || c.extent == EX_LIMIT) c.pop = std::min(c.pop, std::max(6, sh.minPop));
  if (c.extent == EX_GENERATIONS && !sh.niches) {
    c.maxGen = in("gensMany", 250, 290, 260);
    c.maxFail = 0;
  }
  if (c.extent == EX_LIMIT && !sh.mo) {
    c.maxGen = 600;
    c.maxFail = in("failsMany", 250, 280, 260);
  }
  c.cx = rates[in("cx", 0, 7, 0)];
  c.mu = mrates[in("mu", 0, 7, 0)];
  c.cross = in("cross", 0, 4, 0);
  c.elite = 1 + in("elite", 0, 3, 0);
  if (in("most", 0, 15, 0) >= 12) {  // up to as many as there can be
    c.elite = 1 + in("elites", 0, c.pop - 1, 0);
    c.tsize = 2 + in("contestants", 0, std::max(1, c.pop - 3), 0);
  }
  if (c.elite > c.pop) c.elite = c.pop;
  if (c.tsize >= c.pop) c.tsize = c.pop - 1;
  if (c.tsize < 2) {
    c.tsize = 2;
    if (c.pop <= 2 && !sh.mo) c.pop = 3;
  }
  static const double ws[] = {0.1, 0, 0.4, 0.05}, bs[] = {0.9, 1, 0.6, 0.95};
  const int lin = in("lin", 0, 3, 0);
  c.linW = ws[lin];
  c.linB = bs[lin];
  static const double es[] = {0.8, 0.5, 0.95, 0.2};
  c.expC = es[in("expc", 0, 3, 0)];
  c.setBolt = in("setbolt", 0, 3, 0) == 3;
  c.bolt = 2 + in("bolt", 0, 8, 0);
}

void drawBox(const std::string& pre, GaCfg& c, bool rect, bool discrete, bool boolean, Rng* co) {
  auto in = [&](const char* n, int lo, int hi, int calm) -> int {
    if (co) return lo + int(co->below(uint64_t(hi - lo + 1)));
    return param((pre + n).c_str(), lo, hi, calm);
  };
  c.discrete = discrete;
  c.lo.clear();
  c.hi.clear();
  c.step.clear();
  if (boolean) {
    c.lo = {0};
    c.hi = {1};
    c.step = {1};
    return;
  }
  const int kind = in("box", 0, 5, 0);
  // magnitudes at which naive arithmetic underflows, overflows or cancels
  const bool single = c.eps > 1e-10;
  const int magnitude = discrete ? 0 : std::max(0, in("magnitude", 0, 15, 0) - 12);
  const double scale = magnitude == 1 ? (single ? 1e-41 : 1e-312) : magnitude == 2 ? (single ? 1e29 : 1e295) : 1;
  const double shift = magnitude == 3 ? (single ? 1e6 : 1e14) : 0;
  c.magnitude = magnitude;
  if (magnitude && !co) probe(magnitude == 1 ? "denormal box" : magnitude == 2 ? "huge box" : "narrow box far from zero");
  const int n = rect ? c.dim : 1;
  for (int i = 0; i < n; i++) {
    double lo, hi, st;
    // neither bound is monotonic along the components
    const int o = (i * 3 + kind) % 7, wide = (i * 5 + kind) % 4;
    if (discrete) {
      lo = kind == 0 ? 0 : -(kind * 3) + o;
      hi = lo + 1 + (kind * (wide + 1)) % 9;
      st = 1;
    } else {
      static const double los[] = {-1, 0, -10, 0.1, -1e-3, 1e6}, ws[] = {2, 1, 13.7, 0.3, 2e-3, 5e5};
      lo = los[kind] + 0.37 * o * ws[kind];
      hi = lo + ws[kind] * (1 + 0.5 * wide);
      static const double fr[] = {0.1, 0.5, 2, 0.01};
      st = (hi - lo) * fr[(kind + i) % 4];
      lo = lo * scale + shift, hi = hi * scale + shift, st *= scale;
      if (single) {
        lo = float(lo), st = std::max(float(st), 1e-44f);
        hi = std::max(float(hi), std::nextafter(float(lo), std::numeric_limits<float>::infinity()));
      } else
        hi = std::max(hi, std::nextafter(lo, kInf)), st = std::max(st, 5e-324);
    }
    c.lo.push_back(lo);
    c.hi.push_back(hi);
    c.step.push_back(st);
  }
}
}  // namespace hx
