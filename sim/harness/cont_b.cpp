// Bit sets of the SimpleMatrix module.
#include "cont.hpp"

namespace hx {
namespace {
template <class B, int Bits>
struct Sets {
  static constexpr uint64_t kMask = Bits >= 64 ? ~uint64_t(0) : (uint64_t(1) << (Bits & 63)) - 1;
  static constexpr int NB = 3;
  using V = typename B::value_t;
  struct Mod {
    std::vector<uint64_t> v;
    std::vector<char> known;
    bool moved = false;
    size_t n() const { return v.size(); }
    void push(uint64_t x) { v.push_back(x), known.push_back(1); }
    void resize(size_t m) {  // cells that appear have no specified contents
      v.resize(m), known.resize(m, 0);
    }
    void forget() { std::fill(known.begin(), known.end(), 0); }
  };
  B* b[NB] = {};
  Mod md[NB];
  Rng rng;
  bool quiet = false;
  size_t big = 0;
  uint64_t trace = 1;
  Sets() : rng(hcomb(case_seed(), 0xB175)) {}
  template <class... A>
  void bad(const char* fmt, A... a) {
    if (!quiet) fail("C20:content", fmt, a...);
    quiet = true;
  }
  uint64_t value() {
    switch (rng.below(4)) {
      case 0: return kMask;
      case 1: return 0;
      default: return rng.next() & kMask;
    }
  }
  // what is handed over may have more bits than are kept
  V wide(uint64_t x) {
    if (rng.below(3) == 0 && Bits < 64) x |= (rng.next() << (Bits & 63));
    return V(x);
  }
  void cmp(uint64_t got, const Mod& k, size_t i, const char* how, int who) {
    if (quiet) return;
    if (got > kMask) bad("bit set %d: element %ld read by %s is %llx, which does not fit in %d bits", who, long(i), how, (unsigned long long)got, Bits);
    else if (k.known[i] && got != k.v[i])
      bad("bit set %d: element %ld of %ld read by %s is %llx, the value stored last is %llx", who, long(i), long(k.n()), how, (unsigned long long)got, (unsigned long long)k.v[i]);
  }
  void check(int w) {
    const Mod& k = md[w];
    if (!b[w] || k.moved || quiet) return;
    B& m = *b[w];
    const B& cm = m;
    if (m.size() != k.n()) return bad("bit set %d: size() is %ld instead of %ld", w, long(m.size()), long(k.n()));
    if (m.capacity() < m.size()) return bad("bit set %d: capacity() %ld is below its size %ld", w, long(m.capacity()), long(m.size()));
    if (m.blocks() * B::blockBits < k.n() * Bits) return bad("bit set %d: %ld blocks are too few for %ld elements", w, long(m.blocks()), long(k.n()));
    if (m.blocks() && !live(m.data(), m.blocks() * sizeof(typename B::block_t))) return bad("bit set %d: its blocks lie outside of the memory it owns", w);
    const size_t n = k.n();
    size_t stepBy = n > 4000 ? n / 97 : 1;
    for (size_t i = 0; i < n && !quiet; i += stepBy) {
      uint64_t x = 0;
      sutOp([&] { x = uint64_t(cm[i]); });
      cmp(x, k, i, "operator[]", w);
      if (n > 4000 && i + stepBy >= n && i != n - 1) i = n - 1 - stepBy;
    }
    if (!n || quiet) return;
    const size_t i = size_t(rng.below(n));
    uint64_t x[8] = {};
    bool null0 = true, null1 = false;
    sutOp([&] {
      x[0] = uint64_t(V(m[i]));
      x[1] = uint64_t(cm.at(i));
      x[2] = uint64_t(V(m.at(i)));
      x[3] = uint64_t(V(m.front()));
      x[4] = uint64_t(cm.front());
      x[5] = uint64_t(V(m.back()));
      x[6] = uint64_t(cm.back());
      auto it = m.begin() + int64_t(i);
      x[7] = uint64_t(V(*it));
      null0 = it.isNull();
      null1 = m.end().isNull();
    });
    cmp(x[0], k, i, "a reference", w);
    cmp(x[1], k, i, "at()", w);
    cmp(x[2], k, i, "at()", w);
    cmp(x[3], k, 0, "front()", w);
    cmp(x[4], k, 0, "front()", w);
    cmp(x[5], k, n - 1, "back()", w);
    cmp(x[6], k, n - 1, "back()", w);
    cmp(x[7], k, i, "an iterator", w);
    if (null0 || !null1) bad("bit set %d: isNull() is %d inside and %d at the end", w, int(null0), int(null1));
    if (n > 4000) return;
    size_t at = 0;
    const int dir = int(rng.below(4));
    if (dir < 2) {
      auto it = m.begin();
      for (; it != m.end() && at <= n && !quiet; at++) {
        if (it.index() != at) bad("bit set %d: iterator at %ld instead of %ld", w, long(it.index()), long(at));
        else cmp(uint64_t(V(*it)), k, at, "iteration", w);
        if (dir) ++it;
        else it++;
      }
      if (at != n) bad("bit set %d: iteration visits %ld elements of %ld", w, long(at), long(n));
    } else {
      auto it = m.end();
      for (at = n; at > 0 && !quiet; at--) {
        if (dir == 2) --it;
        else it--;
        if (it.index() != at - 1) bad("bit set %d: iterator at %ld instead of %ld", w, long(it.index()), long(at - 1));
        else cmp(uint64_t(V(*it)), k, at - 1, "iteration backwards", w);
      }
      if (!quiet && !(it == m.begin())) bad("bit set %d: iteration backwards does not reach begin()", w);
    }
    auto e = m.end();
    const size_t j = size_t(rng.below(n));
    cmp(uint64_t(V(*(e - int64_t(n - j)))), k, j, "end() - n", w);
    cmp(uint64_t(V(*e[int64_t(j) - int64_t(n)])), k, j, "end()[-n]", w);
  }
  void drop(int i) {
    if (!b[i]) return;
    unmake(b[i]);
    b[i] = nullptr;
    md[i] = Mod();
  }
  size_t someSize() {
    switch (rng.below(6)) {
      case 0: return 0;
      case 1: return B::blockBits / Bits;          // one block, or just not
      case 2: return (B::blockBits * 3) / Bits + 1;
      default: return size_t(rng.below(150));
    }
  }
  void born(int i) {
    drop(i);
    void* m = arena_new(sizeof(B), 16);
    const int j = int(rng.below(NB));
    switch (rng.below(4)) {
      case 0: sutOp([&] { b[i] = new (m) B; }); return;
      case 1:
        if (j != i && b[j] && !md[j].moved) {
          sutOp([&] { b[i] = new (m) B(*static_cast<const B*>(b[j])); });
          md[i] = md[j];
          return;
        }
        break;
      case 2:
        if (j != i && b[j] && !md[j].moved) {
          sutOp([&] { b[i] = new (m) B(std::move(*b[j])); });
          md[i] = md[j];
          md[j].moved = true;
          return;
        }
        break;
      default: break;
    }
    size_t n = someSize();
    if (big) n = big, big = 0, probe("bit set of tens of millions of bits");
    sutOp([&] { b[i] = new (m) B(n); });
    md[i].v.assign(n, 0);
    md[i].known.assign(n, 1);
  }
  void step() {
    const int i = int(rng.below(NB)), j = int(rng.below(NB)), op = int(rng.below(20));
    trace = hcomb(trace, uint64_t(op * 16 + i * 4 + j) * 65536 + md[i].n());
    B*& a = b[i];
    Mod& k = md[i];
    if (!a || op == 0) {
      phase("construct");
      return born(i);
    }
    if (k.moved && op != 1 && op != 2 && op != 3) return;
    switch (op) {
      case 1: phase("destroy"); return drop(i);
      case 2:
        phase("clear");
        sutOp([&] { a->clear(); });
        k = Mod();
        return;
      case 3:
        phase("copy assignment");
        if (!b[j] || md[j].moved) return;
        if (rng.below(2)) sutOp([&] { *a = *static_cast<const B*>(b[j]); });
        else {
          sutOp([&] { *a = std::move(*b[j]); });
          if (i != j) {
            k = md[j];
            md[j].moved = true;
            return;
          }
        }
        if (i != j) k = md[j];
        return;
      case 4: {
        phase("resize");
        const size_t n = someSize();
        const bool grow = n > k.n();
        sutOp([&] { a->resize(n); });
        k.resize(n);
        if (grow) k.forget();
        return;
      }
      case 5: {
        phase("reserve");
        const size_t n = someSize() + size_t(rng.below(3)) * 50;
        sutOp([&] { a->reserve(n); });
        if (a->capacity() < n) bad("bit set %d: after reserve(%ld) the capacity is %ld", i, long(n), long(a->capacity()));
        return;
      }
      case 6:
        phase("shrink");
        sutOp([&] { a->shrink_to_fit(); });
        return;
      case 7:
      case 8:
      case 9: {
        phase("push");
        const int n = 1 + int(rng.below(8));
        for (int q = 0; q < n; q++) {
          const uint64_t x = value();
          const V w = wide(x);
          const bool room = a->size() < a->capacity();
          const void* was = a->data();
          sutOp([&] {
            if (op == 9) a->emplace_back(w);
            else a->push_back(w);
          });
          k.push(x);
          if (room && a->data() != was) bad("bit set %d: an element was added within the capacity and the memory changed", i);
        }
        return;
      }
      case 10: {
        phase("pop");
        for (int q = int(rng.below(5)); q >= 0 && k.n(); q--) {
          sutOp([&] { a->pop_back(); });
          k.resize(k.n() - 1);
        }
        return;
      }
      case 11: {  // one element from another, of this or another set
        phase("assign reference");
        if (!b[j] || md[j].moved || !md[j].n() || !k.n()) return;
        const size_t x = size_t(rng.below(k.n())), y = size_t(rng.below(md[j].n()));
        sutOp([&] { (*a)[x] = (*b[j])[y]; });
        k.v[x] = md[j].v[y];
        k.known[x] = md[j].known[y];
        return;
      }
      case 12: {
        phase("fill");
        if (k.n() > 4000) return;
        for (size_t q = 0; q < k.n(); q++) {
          const uint64_t x = value();
          const V w = wide(x);
          sutOp([&] { (*a)[q] = w; });
          k.v[q] = x, k.known[q] = 1;
        }
        return;
      }
      case 13: {
        phase("write by iterator");
        if (k.n() > 4000) return;
        size_t q = 0;
        for (auto it = a->begin(); it != a->end() && q < k.n(); ++it, q++) {
          if (rng.below(3)) continue;
          const uint64_t x = value();
          const V w = wide(x);
          sutOp([&] { *it = w; });
          k.v[q] = x, k.known[q] = 1;
        }
        return;
      }
      default: {
        phase("write");
        if (!k.n()) return;
        const uint64_t x = value();
        const V w = wide(x);
        size_t q = size_t(rng.below(k.n()));
        if (op == 14) q = 0;
        if (op == 15) q = k.n() - 1;
        uint64_t ret = 0;
        sutOp([&] {
          if (op == 14) ret = uint64_t(a->front() = w);
          else if (op == 15) ret = uint64_t(a->back() = w);
          else if (op == 16) ret = uint64_t(a->at(q) = w);
          else ret = uint64_t((*a)[q] = w);
        });
        if (ret != x) bad("bit set %d: storing %llx yields %llx", i, (unsigned long long)x, (unsigned long long)ret);
        k.v[q] = x, k.known[q] = 1;
      }
    }
  }
  void run() {
    const size_t b0 = live_blocks();
    int n = param("ops", 1, 90, 20);
    if (param("big", 0, 39, 0) == 39) {  // bit counts that a float cannot represent
      big = (size_t(1) << 24) / Bits * (1 + size_t(rng.below(2))) + size_t(rng.below(90));
      n = std::min(n, 12);
    }
    for (int s = 0; s < n && !quiet; s++) {
      step();
      for (int i = 0; i < NB; i++) check(i);
    }
    phase("destroy");
    uint64_t h = 1;
    for (int i = 0; i < NB; i++)
      if (b[i] && !md[i].moved) h = hcomb(h, b[i]->size());
    for (int i = 0; i < NB; i++) drop(i);
    hist("operations", hcomb(h, trace));
    if (!quiet && live_blocks() != b0) fail("C20:leak", "%ld blocks of memory were never released", long(live_blocks()) - long(b0));
    stat("operations", n);
  }
};
template <int Bits, class Block>
void bitScenario() {
  auto* s = new Sets<heu::multiBitSet<Bits, Block>, Bits>;
  s->run();
  delete s;
}
}  // namespace
#define BITS(n, t) SCENARIO("cont_bits_" #n "_" #t, (bitScenario<n, t>), "cont")
BITS(1, size_t)
BITS(3, size_t)
BITS(7, size_t)
BITS(33, size_t)
BITS(64, size_t)
BITS(5, uint8_t)
BITS(8, uint8_t)
BITS(11, uint16_t)
BITS(13, uint32_t)
BITS(32, uint32_t)
}  // namespace hx
