// Grid2D, Grid, Grid4D, Grid5D and Grid2DGeneral of numbers.
#include "hh.hpp"
#include <array>
#include "nrlib/grid/grid2d.hpp"
#include "nrlib/grid/grid.hpp"
#include "nrlib/grid/grid4d.hpp"
#include "nrlib/grid/grid5d.hpp"
#include "nrlib/grid/grid2dgeneral.hpp"
using namespace hh;
using namespace NRLib;
typedef std::vector<size_t> V;
template <class T> struct K2 { typedef Grid2D<T> G; static const int D = 2;
  static G make(V, V n, T v, bool d) { return d ? G(n[0], n[1]) : G(n[0], n[1], v); }
  static void resize(G& g, V, V n, T v, bool d) { d ? g.Resize(n[0], n[1]) : g.Resize(n[0], n[1], v); }
  static void assign(G& g, V n, T v) { g.Assign(n[0], n[1], v); }
  static void stretch(G&, size_t) { throw std::runtime_error("stretch"); }
  template <class H> static auto at(H& g, const V& c) -> decltype(g(0, 0)) { return g(c[0], c[1]); }
  static size_t index(const G& g, const V& c) { return g.GetIndex(c[0], c[1]); }
  static V cell(const G& g, size_t r) { size_t i = 99, j = 99; g.GetIJ(r, i, j); return V{i, j}; }
  static V sizes(const G& g) { return V{g.GetNI(), g.GetNJ()}; }
  static V lows(const G&) { return V{0, 0}; }
  static void extra(const G& g, T miss, Out& o) {
    o.d(g.FindMin(12345)).d(g.FindMax(12345)).d(g.FindMin(miss)).d(g.FindMax(miss)).d(g.FindMin(100)).d(g.FindMax(100));
    int a = (int)g.GetNI(), b = (int)g.GetNJ();
    for (int i = -2; i < a + 2; i++) for (int j = -2; j < b + 2; j++) if (g.IsValidIndex(i, j) != (i >= 0 && i < a && j >= 0 && j < b)) throw std::runtime_error("IsValidIndex");
    if (g.GetStorage().size() != g.GetN()) throw std::runtime_error("GetStorage");
  }
};
template <class T> struct K3 { typedef Grid<T> G; static const int D = 3;
  static G make(V, V n, T v, bool d) { return d ? G(n[0], n[1], n[2]) : G(n[0], n[1], n[2], v); }
  static void resize(G& g, V, V n, T v, bool d) { d ? g.Resize(n[0], n[1], n[2]) : g.Resize(n[0], n[1], n[2], v); }
  static void assign(G& g, V n, T v) { g.Assign(n[0], n[1], n[2], v); }
  static void stretch(G& g, size_t k) { g.ResizeK(k); }
  template <class H> static auto at(H& g, const V& c) -> decltype(g(0, 0, 0)) { return g(c[0], c[1], c[2]); }
  static size_t index(const G& g, const V& c) { return g.GetIndex(c[0], c[1], c[2]); }
  static V cell(const G& g, size_t r) { size_t i = 99, j = 99, k = 99; g.GetIJK(r, i, j, k); return V{i, j, k}; }
  static V sizes(const G& g) { return V{g.GetNI(), g.GetNJ(), g.GetNK()}; }
  static V lows(const G&) { return V{0, 0, 0}; }
  static void extra(const G& g, T miss, Out& o) {
    if (g.GetStorage().size() != g.GetN()) throw std::runtime_error("GetStorage");
    const G& c = g; G m(g);
    for (size_t r = 0; r < g.GetN(); r++) { V x = cell(g, r); if (c.GetValue(x[0], x[1], x[2]) != c(r) || m.GetValue(x[0], x[1], x[2]) != c(r) || g.GetStorage()[r] != c(r)) throw std::runtime_error("GetValue"); }
    if (std::numeric_limits<T>::has_infinity && g.GetN() > 0) {
      T a, lo, hi; g.GetAvgMinMax(a, lo, hi); o.d(lo).d(hi).d(a);
      for (T ms : {miss, (T)100}) { bool any = false; for (T x : g) any = any || x != ms; if (any) { g.GetAvgMinMaxWithMissing(a, lo, hi, ms); o.d(lo).d(hi).d(a); } }
      m.LogTransform((T)100); o.w("log"); for (T x : m) o.d(x);
    }
  }
};
template <class T> struct K4 { typedef Grid4D<T> G; static const int D = 4;
  static G make(V, V n, T v, bool d) { return d ? G(n[0], n[1], n[2], n[3]) : G(n[0], n[1], n[2], n[3], v); }
  static void resize(G& g, V, V n, T v, bool d) { d ? g.Resize(n[0], n[1], n[2], n[3]) : g.Resize(n[0], n[1], n[2], n[3], v); }
  static void assign(G&, V, T) { throw std::runtime_error("assign"); }
  static void stretch(G&, size_t) { throw std::runtime_error("stretch"); }
  template <class H> static auto at(H& g, const V& c) -> decltype(g(0, 0, 0, 0)) { return g(c[0], c[1], c[2], c[3]); }
  static size_t index(const G& g, const V& c) { return g.GetIndex(c[0], c[1], c[2], c[3]); }
  static V cell(const G& g, size_t r) { size_t i = 99, j = 99, k = 99, l = 99; g.GetIJKL(r, i, j, k, l); return V{i, j, k, l}; }
  static V sizes(const G& g) { return V{g.GetNI(), g.GetNJ(), g.GetNK(), g.GetNL()}; }
  static V lows(const G&) { return V{0, 0, 0, 0}; }
  static void extra(const G&, T, Out&) {}
};
template <class T> struct K5 { typedef Grid5D<T> G; static const int D = 5;
  static G make(V, V n, T v, bool d) { return d ? G(n[0], n[1], n[2], n[3], n[4]) : G(n[0], n[1], n[2], n[3], n[4], v); }
  static void resize(G& g, V, V n, T v, bool d) { d ? g.Resize(n[0], n[1], n[2], n[3], n[4]) : g.Resize(n[0], n[1], n[2], n[3], n[4], v); }
  static void assign(G&, V, T) { throw std::runtime_error("assign"); }
  static void stretch(G&, size_t) { throw std::runtime_error("stretch"); }
  template <class H> static auto at(H& g, const V& c) -> decltype(g(0, 0, 0, 0, 0)) { return g(c[0], c[1], c[2], c[3], c[4]); }
  static size_t index(const G& g, const V& c) { return g.GetIndex(c[0], c[1], c[2], c[3], c[4]); }
  static V cell(const G& g, size_t r) { size_t i = 99, j = 99, k = 99, l = 99, m = 99; g.GetIJKLM(r, i, j, k, l, m); return V{i, j, k, l, m}; }
  static V sizes(const G& g) { return V{g.GetNI(), g.GetNJ(), g.GetNK(), g.GetNL(), g.GetNM()}; }
  static V lows(const G&) { return V{0, 0, 0, 0, 0}; }
  static void extra(const G&, T, Out&) {}
};
template <class T> struct KG { typedef Grid2DGeneral<T> G; static const int D = 2;
  static size_t hi(V lo, V n, int d) { return lo[d] + n[d] - 1; }
  static G make(V l, V n, T v, bool d) { return d ? G(l[0], hi(l, n, 0), l[1], hi(l, n, 1)) : G(l[0], hi(l, n, 0), l[1], hi(l, n, 1), v); }
  static void resize(G& g, V l, V n, T v, bool d) { d ? g.Resize(l[0], hi(l, n, 0), l[1], hi(l, n, 1)) : g.Resize(l[0], hi(l, n, 0), l[1], hi(l, n, 1), v); }
  static void assign(G&, V, T) { throw std::runtime_error("assign"); }
  static void stretch(G&, size_t) { throw std::runtime_error("stretch"); }
  template <class H> static auto at(H& g, const V& c) -> decltype(g(0, 0)) { return g(c[0], c[1]); }
  static size_t index(const G& g, const V& c) { return g.GetIndex(c[0], c[1]); }
  static V cell(const G& g, size_t r) { size_t i = 99, j = 99; g.GetIJ(r, i, j); return V{i, j}; }
  static V sizes(const G& g) { return V{g.GetNI(), g.GetNJ()}; }
  static V lows(const G& g) { return V{g.GetIMin(), g.GetJMin()}; }
  static void extra(const G& g, T miss, Out& o) {
    if (g.GetN() == 0) return;
    if (g.GetIMax() - g.GetIMin() + 1 != g.GetNI() || g.GetJMax() - g.GetJMin() + 1 != g.GetNJ()) throw std::runtime_error("last indices");
    o.d(g.FindMin(12345)).d(g.FindMax(12345)).d(g.FindMin(miss)).d(g.FindMax(miss)).d(g.FindMin(100)).d(g.FindMax(100));
    for (size_t i = 0; i < 12; i++) for (size_t j = 0; j < 12; j++) {
      size_t a = g.GetIMin() + i - 3, b = g.GetJMin() + j - 3;
      if (g.IsValidIndex(a, b) != (i >= 3 && j >= 3 && i - 3 < g.GetNI() && j - 3 < g.GetNJ())) throw std::runtime_error("IsValidIndex");
    }
  }
};
struct Base { virtual ~Base() {} virtual void go(const std::string& c, In& in, Out& o) = 0; };
template <class K, class T> struct Pair : Base {
  typename K::G g[2];
  V tuple(In& in) { V v; for (int d = 0; d < K::D; d++) v.push_back(in.u()); return v; }
  void show(int w, Out& o) {
    const typename K::G& c = g[w];
    o.w("|").u(c.GetN()); for (size_t x : K::lows(c)) o.u(x); for (size_t x : K::sizes(c)) o.u(x);
    typename K::G::const_iterator it = c.begin(); typename K::G::iterator jt = g[w].begin();
    for (size_t r = 0; r < c.GetN(); r++, ++it, ++jt) {
      V x = K::cell(c, r); for (size_t y : x) o.u(y);
      if (K::index(c, x) != r) throw std::runtime_error("GetIndex");
      double v = c(r); if (K::at(c, x) != v || K::at(g[w], x) != v || g[w](r) != v || *it != v || *jt != v) throw std::runtime_error("two ways to the same cell differ");
      o.d(v);
    }
    if (it != c.end() || jt != g[w].end()) throw std::runtime_error("end of iteration");
    o.w("x"); K::extra(c, (T)-7, o);
  }
  void go(const std::string& c, In& in, Out& o) {
    int w = (int)in.i() - 1;
    if (c == "make" || c == "resize" || c == "assign") {
      V lo = tuple(in), n = tuple(in); T v = (T)in.d(); bool d = v == 0;
      if (c == "make") g[w] = K::make(lo, n, v, d); else if (c == "resize") K::resize(g[w], lo, n, v, d); else K::assign(g[w], n, v);
    }
    else if (c == "stretch") K::stretch(g[w], in.u());
    else if (c == "swap") g[w].Swap(g[1 - w]);
    else if (c == "copy") { typename K::G t(g[1 - w]); g[w] = t; }
    else if (c == "rank") { size_t r = in.u(); g[w](r) = (T)in.d(); }
    else if (c == "put") { bool h = in.i() != 0; V x = tuple(in); set(w, x, (T)in.d(), h); }
    else throw std::runtime_error("unknown command " + c);
    show(0, o); show(1, o);
  }
  void set(int w, const V& x, T v, bool h);
};
template <class K, class T> struct Put { static void go(typename K::G& g, const V& x, T v, bool) { K::at(g, x) = v; } };
template <class T> struct Put<K3<T>, T> { static void go(Grid<T>& g, const V& x, T v, bool h) { if (h) g.SetValue(x[0], x[1], x[2], v); else g(x[0], x[1], x[2]) = v; } };
template <class K, class T> void Pair<K, T>::set(int w, const V& x, T v, bool h) { Put<K, T>::go(g[w], x, v, h); }
template <template <class> class K> static Base* pick(const std::string& t) {
  if (t == "d") return new Pair<K<double>, double>(); if (t == "f") return new Pair<K<float>, float>(); return new Pair<K<int>, int>();
}
static std::unique_ptr<Base> now;
static void go(const std::string& c, In& in, Out& o) {
  if (c != "start") return now->go(c, in, o);
  std::string k = in.w(), t = in.w();
  now.reset(k == "2" ? pick<K2>(t) : k == "3" ? pick<K3>(t) : k == "4" ? pick<K4>(t) : k == "5" ? pick<K5>(t) : pick<KG>(t));
}
int main() { return loop(go); }
