// Matrices of the SimpleMatrix module.
#include "cont.hpp"

namespace hx {
static long g_balance = 0;
long& elemBalance() { return g_balance; }
void elemBad(const char* what) {
  Pause p;
  fail("C20:lifetime", "an element that had not been constructed, or had been destroyed, was %s", what);
}

namespace {
constexpr int64_t kUnknown = -1;  // a cell with unspecified contents
struct Mod {                      // what a matrix must contain
  int r = 0, c = 0;
  bool moved = false;  // moved from: nothing but assignment, resizing and destruction
  std::vector<int64_t> v;
  int n() const { return r * c; }
};

template <class T>
struct Mats {
  using D = heu::MatrixDynamicSize<T>;
  using F = heu::MatrixFixedSize<T, 3, 4>;
  using F1 = heu::MatrixFixedSize<T, 1, 5>;
  using M = heu::MatrixMap<T>;
  using E = ElOf<T>;
  static constexpr int ND = 3;
  D* d[ND] = {};
  Mod md[ND];
  F *f[2] = {};
  Mod mf[2];
  F1* g = nullptr;
  Mod mg;
  Rng rng;
  int64_t next = 1;
  bool quiet = false;
  uint64_t trace = 1;

  Mats() : rng(hcomb(case_seed(), 0xC047)) {}

  template <class C>
  void cell(const C& m, const Mod& k, int i, const char* who) {
    const T *pa, *pb, *pc, *pe;
    sutOp([&] { pa = &m[i], pb = &m(i), pc = &m.data()[i], pe = &m(i % k.r, i / k.r); });
    const T &a = *pa, &b = *pb, &c = *pc, &e = *pe;
    if (!live(pa, sizeof(T)) || !live(pe, sizeof(T))) return bad("%s: cell %d lies outside of the memory the matrix owns", who, i);
    if (&a != &b || &a != &c || &a != &e) return bad("%s: cell %d is not the same object through operator(), operator[], data() and (row, column)", who, i);
    if (k.v[size_t(i)] == kUnknown) {
      if (!E::sane(a)) bad("%s: cell %d is not a usable element", who, i);
    } else if (!E::is(a, k.v[size_t(i)]))
      bad("%s: cell %d does not hold the value stored last", who, i);
  }
  template <class... A>
  void bad(const char* fmt, A... a) {
    if (!quiet) fail("C20:content", fmt, a...);
    quiet = true;
  }
  template <class C>
  void check(const C& m, const Mod& k, const char* who) {
    if (quiet || k.moved) return;
    if (long(m.rows()) != k.r || long(m.cols()) != k.c || long(m.size()) != k.n())
      return bad("%s: %ld rows, %ld columns and %ld cells instead of %d, %d and %d", who, long(m.rows()), long(m.cols()), long(m.size()), k.r, k.c, k.n());
    for (int i = 0; i < k.n() && !quiet; i++) cell(m, k, i, who);
  }
  template <class C>
  void checkIt(C& m, const Mod& k, const char* who) {
    if (quiet || k.moved) return;
    long n = 0;
    for (auto it = m.begin(); it != m.end(); ++it, n++) {
      if (n >= k.n()) break;
      if (&*it != m.data() + n) return bad("%s: iteration leaves the order of storage at %ld", who, n);
    }
    if (n != k.n()) bad("%s: iteration visits %ld cells instead of %d", who, n, k.n());
  }
  void checkAll() {
    static const char* const dn[] = {"dynamic matrix 0", "dynamic matrix 1", "dynamic matrix 2"};
    for (int i = 0; i < ND; i++)
      if (d[i]) {
        check(*static_cast<const D*>(d[i]), md[i], dn[i]);
        checkIt(*d[i], md[i], dn[i]);
        checkIt(*static_cast<const D*>(d[i]), md[i], dn[i]);
        if (!md[i].moved && d[i]->capacity() < d[i]->size()) bad("%s: capacity %ld below its size", dn[i], long(d[i]->capacity()));
      }
    for (int i = 0; i < 2; i++) {
      check(*static_cast<const F*>(f[i]), mf[i], i ? "fixed matrix 1" : "fixed matrix 0");
      checkIt(*f[i], mf[i], "fixed matrix");
    }
    check(*static_cast<const F1*>(g), mg, "fixed row");
  }
  int64_t fresh() { return next++; }
  // every cell of a matrix gets its own value, by one of the ways to write
  template <class C>
  void write(C& m, Mod& k, int how) {
    if (k.n() == 0) return;
    if (how == 0) {
      const int64_t x = fresh();
      const T t = E::mk(x);
      sutOp([&] { m.fill(t); });
      std::fill(k.v.begin(), k.v.end(), x);
      return;
    }
    if (how == 1) {  // everything, through the iterator
      int i = 0;
      for (auto& e : m) {
        if (i >= k.n()) break;
        k.v[size_t(i)] = fresh();
        e = E::mk(k.v[size_t(i)]);
        i++;
      }
      return;
    }
    const int i = int(rng.below(uint64_t(k.n())));
    const int64_t x = fresh();
    const T t = E::mk(x);
    sutOp([&] {
      if (how == 2) m(i) = t;
      else if (how == 3) m[i] = t;
      else if (how == 4) m(i % k.r, i / k.r) = t;
      else m.data()[i] = t;
    });
    k.v[size_t(i)] = x;
  }
  void reshape(Mod& k, int r, int c) {
    if (r * c != k.n() || k.moved) k.v.assign(size_t(r * c), kUnknown);
    k.r = r, k.c = c;
    k.moved = false;
  }
  void drop(int i) {
    if (!d[i]) return;
    unmake(d[i]);
    d[i] = nullptr;
    md[i] = Mod();
  }
  void shape(int& r, int& c) {
    static const int rs[] = {3, 1, 2, 4, 5, 12, 0, 7}, cs[] = {4, 5, 3, 6, 1, 2, 9, 0};
    const int q = int(rng.below(10));
    if (q < 3) r = 3, c = 4;
    else if (q == 3) r = 1, c = 5;
    else r = rs[rng.below(8)], c = cs[rng.below(8)];
    if (!rng.below(40)) r = 14 + int(rng.below(8)), c = 14 + int(rng.below(8));  // more cells than a byte counts
    if (r == 0 || c == 0) r = 0, c = 0;
  }
  void born(int i) {
    drop(i);
    int r, c;
    shape(r, c);
    void* m = arena_new(sizeof(D), 16);
    switch (rng.below(4)) {
      case 0: sutOp([&] { d[i] = new (m) D; }), r = c = 0; break;
      case 1:
      case 2: sutOp([&] { d[i] = new (m) D(r, c); }); break;
      default: {
        const int j = int(rng.below(ND));
        if (j == i || !d[j] || md[j].moved) {
          sutOp([&] { d[i] = new (m) D(r, c); });
          break;
        }
        if (rng.below(2)) {
          sutOp([&] { d[i] = new (m) D(*static_cast<const D*>(d[j])); });
          md[i] = md[j];
        } else {
          sutOp([&] { d[i] = new (m) D(std::move(*d[j])); });
          md[i] = md[j];
          md[j].moved = true;
        }
        return;
      }
    }
    md[i] = Mod();
    reshape(md[i], r, c);
  }
  // a map on memory of its own, or on another matrix's cells
  void viaMap() {
    const int r = 1 + int(rng.below(4)), c = 1 + int(rng.below(5));
    D& own = *make<D>();
    sutOp([&] { own.resize(std::max(r, 3), std::max(c, 5)); });
    Mod k;
    reshape(k, r, c);
    M* mp = nullptr;
    void* mem = arena_new(sizeof(M), 16);
    sutOp([&] { mp = new (mem) M(own.data(), size_t(r), size_t(c)); });
    M& m = *mp;
    write(m, k, 1);
    write(m, k, int(rng.below(6)));
    check(*static_cast<const M*>(&m), k, "map");
    checkIt(m, k, "map");
    if (long(m.cend() - m.cbegin()) != k.n()) bad("map: cend() - cbegin() is %ld", long(m.cend() - m.cbegin()));
    for (int i = 0; i < k.n() && !quiet; i++)
      if (!E::is(own.data()[i], k.v[size_t(i)])) bad("map: writing does not reach the memory it stands for");
    const int i = int(rng.below(ND));
    switch (rng.below(6)) {
      case 0:  // to a dynamic matrix
        if (d[i]) {
          sutOp([&] { *d[i] = static_cast<const M&>(m); });
          md[i] = k;
        }
        break;
      case 1:  // from a dynamic matrix
        if (d[i] && !md[i].moved && md[i].n() <= 15) {
          sutOp([&] { m = *static_cast<const D*>(d[i]); });
          k = md[i];
        }
        break;
      case 2:  // a fixed matrix, both ways
        sutOp([&] { m = *static_cast<const F*>(f[0]); });
        k = mf[0];
        check(*static_cast<const M*>(&m), k, "map");
        write(m, k, 2);
        sutOp([&] { *f[1] = static_cast<const M&>(m); });
        mf[1] = k;
        break;
      case 3: {  // shallow copy: the same cells
        void* me = arena_new(sizeof(M), 16);
        M* o = nullptr;
        sutOp([&] { o = new (me) M(m); });
        if (static_cast<const M*>(o)->data() != static_cast<const M&>(m).data()) bad("map: a copy of a map stands for other memory");
        write(*o, k, 3);
        check(*static_cast<const M*>(o), k, "copied map");
        unmake(o);
        break;
      }
      case 4: {  // deep copy: other cells
        D& other = *make<D>();
        sutOp([&] { other.resize(std::max(r, 3), std::max(c, 5)); });
        void* me = arena_new(sizeof(M), 16);
        M* o = nullptr;
        sutOp([&] { o = new (me) M(other.data(), 1, 1); });
        T* const was = o->data();
        Mod k2 = k;
        if (rng.below(2)) sutOp([&] { *o = static_cast<const M&>(m); });
        else sutOp([&] { m.deepCopyTo(o); });
        if (o->data() != was) bad("map: a deep copy moves the target to other memory");
        write(m, k, 1);
        check(*static_cast<const M*>(o), k2, "deep copy of a map");
        unmake(o);
        unmake(&other);
        break;
      }
      default: {
        int nr = r, nc = c;
        if (rng.below(2)) std::swap(nr, nc);
        sutOp([&] { m.resize(size_t(nr), size_t(nc)); });
        k.r = nr, k.c = nc;
      }
    }
    check(*static_cast<const M*>(&m), k, "map");
    unmake(mp);
    unmake(&own);
  }
  void step() {
    const int i = int(rng.below(ND)), j = int(rng.below(ND)), op = int(rng.below(22));
    trace = hcomb(trace, uint64_t(op * 16 + i * 4 + j) * 4096 + uint64_t(md[i].r * 64 + md[i].c));
    D*& a = d[i];
    Mod& k = md[i];
    if (!a || op == 0) {
      phase("construct");
      return born(i);
    }
    if (k.moved && op != 1 && op != 2 && op != 5 && op != 6 && op != 7 && op != 8 && op != 9) return;
    switch (op) {
      case 1: phase("destroy"); return drop(i);
      case 2:
      case 3: {
        phase("resize");
        int r, c;
        shape(r, c);
        if (op == 3 && k.n() == 12) {  // the same number of cells
          static const int rs[] = {1, 2, 3, 4, 6, 12};
          r = rs[rng.below(6)], c = 12 / r;
        }
        sutOp([&] { a->resize(r, c); });
        reshape(k, r, c);
        if (rng.below(2)) write(*a, k, 1);
        return;
      }
      case 4: {
        phase("reserve");
        const int s = int(rng.below(80));
        sutOp([&] { a->reserve(s); });
        if (a->capacity() < s) bad("after reserve(%d) the capacity is %ld", s, long(a->capacity()));
        return;
      }
      case 5:
      case 6:
        phase("copy assignment");
        if (!d[j] || md[j].moved) return;
        sutOp([&] { *a = *static_cast<const D*>(d[j]); });
        if (i != j) k = md[j];
        return;
      case 7:
        phase("move assignment");
        if (!d[j] || md[j].moved) return;
        sutOp([&] { *a = std::move(*d[j]); });
        if (i != j) k = md[j];
        md[j].moved = true;
        return;
      case 8:
        phase("assignment from a fixed matrix");
        sutOp([&] { *a = *static_cast<const F*>(f[j & 1]); });
        k = mf[j & 1];
        return;
      case 9:
        phase("assignment from a fixed matrix");
        sutOp([&] { *a = *static_cast<const F1*>(g); });
        k = mg;
        return;
      case 10:
        phase("assignment to a fixed matrix");
        if (k.r == 3 && k.c == 4) {
          sutOp([&] { *f[j & 1] = *static_cast<const D*>(a); });
          mf[j & 1] = k;
        } else if (k.r == 1 && k.c == 5) {
          sutOp([&] { *g = *static_cast<const D*>(a); });
          mg = k;
        }
        return;
      case 11: {
        phase("copy of a fixed matrix");
        if (rng.below(2)) {
          sutOp([&] { *f[0] = *static_cast<const F*>(f[1]); });
          mf[0] = mf[1];
        } else {
          void* m = arena_new(sizeof(F), alignof(F) < 16 ? 16 : alignof(F));
          F* n = nullptr;
          sutOp([&] { n = new (m) F(*static_cast<const F*>(f[0])); });
          unmake(f[1]);
          f[1] = n;
          mf[1] = mf[0];
        }
        return;
      }
      case 12: phase("write"); return write(*f[j & 1], mf[j & 1], int(rng.below(6)));
      case 13: phase("write"); return write(*g, mg, int(rng.below(6)));
      case 14: phase("map"); return viaMap();
      default: phase("write"); return write(*a, k, int(rng.below(6)));
    }
  }
  void run() {
    const long el0 = elemBalance();
    const size_t b0 = live_blocks();
    for (int i = 0; i < 2; i++) {
      f[i] = make<F>();
      reshape(mf[i], 3, 4);
      write(*f[i], mf[i], i);
    }
    g = make<F1>();
    reshape(mg, 1, 5);
    write(*g, mg, 1);
    if (g->rows() != 1 || g->cols() != 5 || g->size() != 5) bad("a fixed matrix of 1 x 5 reports %ld x %ld", long(g->rows()), long(g->cols()));
    const int n = param("ops", 1, 90, 20);
    for (int s = 0; s < n && !quiet; s++) {
      step();
      checkAll();
    }
    phase("destroy");
    for (int i = 0; i < ND; i++) drop(i);
    for (F* x : f) unmake(x);
    unmake(g);
    hist("operations", hcomb(trace, uint64_t(next)));
    if (quiet) return;
    if (elemBalance() != el0) fail("C20:lifetime", "%ld elements were constructed and never destroyed", elemBalance() - el0);
    if (live_blocks() != b0) fail("C20:leak", "%ld blocks of memory were never released", long(live_blocks()) - long(b0));
    stat("operations", n);
  }
};

template <class T>
void matScenario() {
  elemBalance() = 0;
  auto* m = new Mats<T>;
  m->run();
  delete m;
}
}  // namespace
static void mdouble() { matScenario<double>(); }
static void mint() { matScenario<int16_t>(); }
static void mstr() { matScenario<std::string>(); }
static void melS() { matScenario<ElemS>(); }
static void melL() { matScenario<ElemL>(); }
SCENARIO("cont_mat_double", mdouble, "cont")
SCENARIO("cont_mat_short", mint, "cont")
SCENARIO("cont_mat_string", mstr, "cont")
SCENARIO("cont_mat_elem", melS, "cont")
SCENARIO("cont_mat_bigelem", melL, "cont")
}  // namespace hx
