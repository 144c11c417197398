// The SimpleMatrix module: random histories of operations on several containers at once, each against a plain model.
#pragma once
#include "common.hpp"

#include <HeuristicFlow/SimpleMatrix>

namespace hx {
// ------------------------------------------------------------------ element types
// An element that knows whether it has been constructed, and how many of its kind there are.
long& elemBalance();
void elemBad(const char* what);
template <int Pad>
struct Elem {
  Elem* volatile self;
  volatile int64_t v;
  int64_t pad[Pad ? Pad : 1];
  Elem() { born(), v = -7; }
  Elem(const Elem& o) {
    o.need("copied");
    born(), v = o.v;
  }
  Elem(Elem&& o) noexcept {
    o.need("moved");
    born(), v = o.v, o.v = -9;
  }
  Elem& operator=(const Elem& o) {
    need("assigned"), o.need("copied");
    v = o.v;
    return *this;
  }
  Elem& operator=(Elem&& o) noexcept {
    need("assigned"), o.need("moved");
    if (&o != this) v = o.v, o.v = -9;
    return *this;
  }
  ~Elem() {
    need("destroyed");
    self = nullptr;
    elemBalance()--;
  }
  bool ok() const { return self == this; }

 private:
  void born() {
    self = this;
    elemBalance()++;
  }
  void need(const char* what) const {
    if (self != this) elemBad(what);
  }
};
using ElemS = Elem<0>;  // passed by value to fill()
using ElemL = Elem<6>;  // passed by reference

// value <-> number
template <class T>
struct ElOf {
  static T mk(int64_t k) { return T(k); }
  static bool is(const T& t, int64_t k) { return t == T(k); }
  static bool sane(const T&) { return true; }
};
template <int P>
struct ElOf<Elem<P>> {
  static Elem<P> mk(int64_t k) {
    Elem<P> e;
    e.v = k;
    return e;
  }
  static bool sane(const Elem<P>& e) { return e.ok(); }
  static bool is(const Elem<P>& e, int64_t k) { return e.ok() && e.v == k; }
};
template <>
struct ElOf<std::string> {
  static std::string mk(int64_t k) {
    std::string s = std::to_string(k);
    return k % 3 ? s : s + " is a text that is too long to be kept inside of the string itself";
  }
  static bool is(const std::string& s, int64_t k) { return s == mk(k); }
  static bool sane(const std::string& s) {
    size_t h = 0;
    for (char c : s) h += size_t(c);
    return s.size() < 200 && h != size_t(-1);
  }
};
}  // namespace hx
