#include "common.hpp"

namespace hx {
Rec mainRec, companyRec;
int inCompany = 0;
CompanyBase* company = nullptr;
static std::vector<ObsBase*> observers;

std::string show(const Vec& v) {
  std::string s = "(";
  char b[40];
  for (size_t i = 0; i < v.size() && i < 8; i++) {
    snprintf(b, sizeof b, "%s%.17g", i ? " " : "", v[i]);
    s += b;
  }
  if (v.size() > 8) s += " ...";
  return s + ")";
}

static double h01(uint64_t h) { return double(h >> 11) * (1.0 / 9007199254740992.0); }

double land(const Land& L, const Vec& x, int obj) {
  const uint64_t s = hcomb(L.salt, uint64_t(obj) + 17);
  double smooth = 0;
  for (size_t i = 0; i < x.size(); i++) {
    double c = (h01(hcomb(s, i)) * 2 - 1) * L.span;
    double d = (x[i] - c) / L.span;
    smooth += d * d * (1 + double(i % 3));
  }
  if (!(smooth < 1e12)) smooth = 1e12;
  const uint64_t hx = vhash(x, s);
  const double worst = L.greater ? -kInf : kInf;
  if (L.M > 1) {
    switch (L.mode) {
      case 0: return smooth;
      case 1: return std::floor(smooth * 2);               // ties
      case 2: return 3;                                     // all equal
      case 3: return double(hx % 3);                        // few values, duplicates
      case 4: return obj == L.M - 1 ? 1.0 : smooth;         // one degenerate objective
      case 5: return h01(hx) * 100 - 50;                    // no structure
      case 6: return obj == 0 ? smooth : (obj % 2 ? 10 - smooth : smooth + 1);  // correlated
      case 7: return (h01(hx) - 0.5) * 1e150;               // huge
      case 8: {                                             // trade-off: most candidates non-dominated
        double t = h01(vhash(x, L.salt));
        double k = L.M - 1;
        double v = obj == 0 ? t * k : std::fabs(double(obj) - t * k);
        return v + 0.02 * h01(hx);
      }
      default: return std::floor(h01(hx) * 6);
    }
  }
  switch (L.mode) {
    case 0: return L.greater ? 5 - smooth : smooth;
    case 1: return std::floor(smooth * 2) * (L.greater ? -1 : 1);
    case 2: return 7;
    case 3: return (h01(hx) * 2 - 1) * 1.75e308;              // huge magnitudes of both signs
    case 4: return (hx & 3) == 0 ? worst : (L.greater ? -smooth : smooth);  // infeasible: worst possible
    case 5: return (hx % 5) == 0 ? kInf : (hx % 5) == 1 ? -kInf : smooth;
    case 6: return h01(hx) * 200 - 100;
    case 7: return double(hx % 3);
    case 8: return (hx & 1) ? worst : 1.0;
    case 9: return 1e-300 * h01(hx);
    default: return smooth * 1e6;
  }
}
Land pickLand(const char* prefix, int M, bool greater, bool allowInf) {
  Land L;
  std::string n = std::string(prefix) + "mode";
  if (M > 1)
    L.mode = pick(n.c_str(), 0, 0, 5, 8, 8, 1, 2, 3, 4, 6, 7, 9, 5);
  else if (allowInf)
    L.mode = pick(n.c_str(), 0, 0, 6, 6, 1, 2, 3, 4, 5, 7, 8, 9, 10);
  else
    L.mode = pick(n.c_str(), 0, 0, 6, 6, 1, 2, 7, 9, 10);
  n = std::string(prefix) + "salt";
  L.salt = mix64(uint64_t(param(n.c_str(), 0, 100000, 0)));
  L.M = M;
  L.greater = greater;
  return L;
}

void observe(ObsBase* o) { observers.push_back(o); }
void unobserve(ObsBase* o) {
  observers.erase(std::remove(observers.begin(), observers.end(), o), observers.end());
}

static const char* const kVariantCo = "co";
static Rng coRng(1);
static int coState = -1;  // -1 unknown, 0 off, 1 on
bool variantIs(const char* v);

void companyTurn(int where, int percent) {
  if (!company || inCompany) return;
  if (coState < 0) {
    coState = sim::company_on() ? 1 : 0;
    coRng = Rng(hcomb(case_seed(), 0xC0));
  }
  if (!coState) return;
  if (coRng.below(100) >= uint64_t(percent)) return;
  (void)kVariantCo;
  (void)where;
  inCompany++;
  rng_redirect(1);
  probe("company acts");
  if (where == 9) probe("company acts inside the objective");
  company->act(coRng);
  rng_redirect(0);
  inCompany--;
}
int pickThreads(const char* name) { return pick(name, 4, 0, 1, 2, 3, 4, 5, 8, 16, 7); }
}  // namespace hx

extern "C" void heu_sim_point(const void* solver, int stage) noexcept {
  sim::Pause p;
  if (hx::inCompany) return;
  const char* a = (const char*)solver;
  for (auto* o : hx::observers)
    if (a >= o->lo && a < o->hi) {
      o->stage(stage);
      hx::companyTurn(stage, 12);
      return;
    }
}
