// Shared by the worlds: element adapters, shapes of a given type drawn from a
// seed, dims as plain numbers. Only documented interfaces of the library.
#ifndef WORLD_UTIL_H
#define WORLD_UTIL_H

#include "array/array.h"
#include "array/image.h"
#include "array/matrix.h"
#include "alloc.h"

#include <algorithm>
#include <type_traits>

namespace life {
using nda::index_t;
using namespace sim;

// ------------------------------------------------------------ elements
template <class T> struct Elem;
template <> struct Elem<obj> {
  static constexpr bool is_obj = true;
  static constexpr int dflt = V_DEFAULT;
  static int peek(const obj* p) { return elem_peek(p); }
  static int moved(int) { return V_MOVED; }
  static int norm(int v) { return v; }
};
template <class T> struct ElemPlain {
  static constexpr bool is_obj = false;
  static constexpr int dflt = 0;
  static int peek(const T* p) { T v; memcpy((void*)&v, p, sizeof v); return (int)v; }
  static int moved(int v) { return v; }
  static int norm(int v) { return (int)T(v); }      // of the values of T
};
template <> struct Elem<int> : ElemPlain<int> {};
template <> struct Elem<double> : ElemPlain<double> {};
template <> struct Elem<unsigned char> : ElemPlain<unsigned char> {};
// A large over-aligned element that can be copied as bytes, and that shows when
// only a part of it was written.
struct alignas(32) wide {
  int v, pad[9], check;                // check is 3v; zero is a value
  wide() = default;
  explicit wide(int x) : v(x), pad(), check(3 * x) {}
  friend bool operator==(const wide& a, const wide& b) { return a.v == b.v; }
  friend bool operator!=(const wide& a, const wide& b) { return a.v != b.v; }
  friend wide operator*(const wide& a, const wide& b) { return wide(a.v * b.v); }
  friend wide operator+(const wide& a, const wide& b) { return wide(a.v + b.v); }
  wide& operator+=(const wide& o) { return *this = wide(v + o.v); }
};
template <> struct Elem<wide> {
  static constexpr bool is_obj = false;
  static constexpr int dflt = 0;
  static int peek(const wide* p) { wide w; memcpy((void*)&w, p, sizeof w); return w.check == 3 * w.v && (uintptr_t)p % alignof(wide) == 0 ? w.v : -7777; }
  static int moved(int v) { return v; }
  static int norm(int v) { return v; }
};

// An element that knows its own address: copies are not bytes, though it is
// destroyed trivially. A copy of its bytes is not a value.
struct selfp {
  const selfp* self; int v;
  selfp() : self(this), v(0) {}
  explicit selfp(int x) : self(this), v(x) {}
  selfp(const selfp& o) : self(this), v(o.get()) {}
  selfp& operator=(const selfp& o) { v = self == this ? o.get() : -7777; return *this; }
  int get() const { return self == this ? v : -7777; }
  friend bool operator==(const selfp& a, const selfp& b) { return a.get() == b.get(); }
  friend bool operator!=(const selfp& a, const selfp& b) { return a.get() != b.get(); }
  friend selfp operator*(const selfp& a, const selfp& b) { return selfp(a.get() * b.get()); }
  friend selfp operator+(const selfp& a, const selfp& b) { return selfp(a.get() + b.get()); }
  selfp& operator+=(const selfp& o) { v = get() + o.get(); return *this; }
};
template <> struct Elem<selfp> {
  static constexpr bool is_obj = false;
  static constexpr int dflt = 0;
  static int peek(const selfp* p) { const selfp* q; int v; memcpy(&q, &p->self, sizeof q); memcpy(&v, &p->v, sizeof v); return q == p ? v : -7777; }
  static int moved(int v) { return v; }
  static int norm(int v) { return v; }
};

// An element some values of which are not equal to themselves, as NaNs are.
struct odd {
  int v;
  odd() = default;
  explicit odd(int x) : v(x) {}
  static bool same(int a, int b) { return a == b && a % 64; }
  friend bool operator==(const odd& a, const odd& b) { return same(a.v, b.v); }
  friend bool operator!=(const odd& a, const odd& b) { return !same(a.v, b.v); }
};
template <> struct Elem<odd> {
  static constexpr bool is_obj = false;
  static constexpr int dflt = 0;
  static int peek(const odd* p) { int v; memcpy(&v, &p->v, sizeof v); return v; }
  static int moved(int v) { return v; }
  static int norm(int v) { return v; }
};
template <class T> bool same_value(int a, int b) { return a == b; }
template <> inline bool same_value<odd>(int a, int b) { return odd::same(a, b); }

// ------------------------------------------------------------ shapes
constexpr bool is_static(index_t x) { return x != nda::dynamic; }
struct DimM { index_t min = 0, ext = 0, stride = 0; };

template <class Shape, size_t... Is>
void read_dims(const Shape& s, std::vector<DimM>& out, std::index_sequence<Is...>) {
  out.clear();
  (void)s;
  (out.push_back({std::get<Is>(s.dims()).min(), std::get<Is>(s.dims()).extent(), std::get<Is>(s.dims()).stride()}), ...);
}
template <class Shape> std::vector<DimM> dims_of(const Shape& s) {
  std::vector<DimM> v;
  read_dims(s, v, std::make_index_sequence<Shape::rank()>());
  return v;
}
inline index_t size_of(const std::vector<DimM>& d) {
  index_t n = 1;
  for (auto& x : d) n *= std::max<index_t>(x.ext, 0);
  return n;
}
// Canonical position -> zero-based index.
inline void unrank(const std::vector<DimM>& d, index_t k, index_t* ix) {
  for (size_t i = 0; i < d.size(); i++) { ix[i] = k % d[i].ext; k /= d[i].ext; }
}
inline index_t offset_of(const std::vector<DimM>& d, index_t k) {
  index_t o = 0;
  for (size_t i = 0; i < d.size(); i++) { o += (k % d[i].ext) * d[i].stride; k /= d[i].ext; }
  return o;
}
inline bool one_to_one(const std::vector<DimM>& d) {
  index_t n = size_of(d);
  std::vector<index_t> o;
  for (index_t k = 0; k < n; k++) o.push_back(offset_of(d, k));
  std::sort(o.begin(), o.end());
  return std::adjacent_find(o.begin(), o.end()) == o.end();
}
inline index_t flat_ext(const std::vector<DimM>& d) {
  index_t lo = 0, hi = 0;
  for (auto& x : d) { index_t e = (x.ext - 1) * x.stride; if (e < 0) lo += e; else hi += e; }
  return hi - lo + 1;
}

template <class Shape, size_t I> void set_dim(Shape& s, const DimM& m) {
  auto& d = std::get<I>(s.dims());
  using D = typename std::decay<decltype(d)>::type;
  if (!is_static(D::Min)) d.set_min(m.min);
  if (!is_static(D::Extent)) d.set_extent(m.ext);
  if (!is_static(D::Stride)) d.set_stride(m.stride);
}
struct DimK { bool smin, sext, sstr; index_t min, ext, stride; };
template <class Shape, size_t... Is> void dim_kinds(std::vector<DimK>& out, std::index_sequence<Is...>) {
  using Tup = typename Shape::dims_type;
  (out.push_back({is_static(std::tuple_element<Is, Tup>::type::Min),
                  is_static(std::tuple_element<Is, Tup>::type::Extent),
                  is_static(std::tuple_element<Is, Tup>::type::Stride),
                  std::tuple_element<Is, Tup>::type::Min, std::tuple_element<Is, Tup>::type::Extent,
                  std::tuple_element<Is, Tup>::type::Stride}), ...);
}
template <class Shape, size_t... Is> Shape shape_from(const std::vector<DimM>& d, std::index_sequence<Is...>) {
  Shape s;
  (set_dim<Shape, Is>(s, d[Is]), ...);
  (void)d;
  return s;
}
template <class Shape> Shape to_shape(const std::vector<DimM>& d) {
  return shape_from<Shape>(d, std::make_index_sequence<Shape::rank()>());
}
template <class Shape, size_t... Is>
typename Shape::index_type index_at(const std::vector<DimM>& d, index_t k, std::index_sequence<Is...>) {
  index_t ix[sizeof...(Is) + 1] = {};
  unrank(d, k, ix);
  return typename Shape::index_type((ix[Is] + d[Is].min)...);
}
template <class Shape> typename Shape::index_type index_of(const std::vector<DimM>& d, index_t k) {
  return index_at<Shape>(d, k, std::make_index_sequence<Shape::rank()>());
}
// Position of canonical element k of `d` in `e`, or -1 (by index).
inline index_t locate(const std::vector<DimM>& d, index_t k, const std::vector<DimM>& e) {
  index_t r = 0, mul = 1;
  for (size_t i = 0; i < d.size(); i++) {
    index_t ix = k % d[i].ext + d[i].min; k /= d[i].ext;
    if (ix < e[i].min || ix >= e[i].min + e[i].ext) return -1;
    r += (ix - e[i].min) * mul; mul *= e[i].ext;
  }
  return r;
}

// The name of an accessor of an array or view that contradicts its dims.
template <class A> const char* wrong_accessor(const A& a, const std::vector<DimM>& d) {
  constexpr size_t R = A::rank();
  auto is = [&](const auto& x, size_t i) { return x.min() == d[i].min && x.extent() == d[i].ext && x.stride() == d[i].stride && x.max() == d[i].min + d[i].ext - 1; };
  if constexpr (R > 0) {
    for (size_t i = 0; i < R; i++) if (!is(a.dim(i), i)) return "dim(d)";
    auto b = a.shape().bounds();
    for (size_t i = 0; i < R; i++) if (b.dim(i).min() != d[i].min || b.dim(i).extent() != d[i].ext) return "bounds";
    if (!is(a.template dim<0>(), 0) || !is(a.i(), 0) || !is(a.x(), 0)) return "dim 0";
    if (a.width() != d[0].ext || a.rows() != d[0].ext) return "width or rows";
  }
  if constexpr (R > 1) {
    if (!is(a.template dim<1>(), 1) || !is(a.j(), 1) || !is(a.y(), 1)) return "dim 1";
    if (a.height() != d[1].ext || a.columns() != d[1].ext) return "height or columns";
  }
  if constexpr (R > 2) {
    if (!is(a.template dim<2>(), 2) || !is(a.k(), 2) || !is(a.z(), 2) || !is(a.c(), 2)) return "dim 2";
    if (a.channels() != d[2].ext) return "channels";
  }
  if constexpr (R > 3) if (!is(a.template dim<3>(), 3) || !is(a.w(), 3)) return "dim 3";
  return nullptr;
}

// Where a dim starts: mostly near 0, at times far away from it.
inline index_t draw_min(Rng& r) {
  if (r.chance(1, 2)) return 0;
  if (!r.chance(1, 16)) return r.range(-4, 5);
  index_t far = ((index_t)1 << r.range(6, 34)) + r.range(-2, 2);
  return r.chance(1, 2) ? far : -far;
}
// How many elements the big runs of a world may reach; 0 in all other runs.
inline index_t g_big = 0;
struct BigRun {
  explicit BigRun(int64_t n) { g_big = n < 0 ? 0 : n > 6000 ? 6000 : n; }
  ~BigRun() { g_big = 0; }
};
inline int64_t draw_big(Rng& r, int one_in) { return r.chance(1, one_in) ? r.range(600, r.chance(1, 3) ? 5000 : 1500) : 0; }

// Lengths around which steps of a round size end: a power of two, or next to one.
inline index_t round_length(Rng& r, index_t n) {
  index_t p = 1;
  while (2 * p <= n && (2 * p <= n / 2 || r.chance(2, 3))) p *= 2;
  return std::max<index_t>(1, std::min<index_t>(n, p + (r.chance(1, 2) ? 0 : r.range(-1, 1))));
}

// At times one dim is long (and the others are short), so that what is done in
// larger steps, or from some size on, has something to work on.
inline void draw_long(Rng& r, const std::vector<DimK>& k, std::vector<DimM>& d, bool small_) {
  if (g_big && !small_ && !d.empty() && r.chance(1, 2)) {
    index_t fixed = 1, dyn = 0;
    for (size_t j = 0; j < d.size(); j++) { if (k[j].sext) fixed *= std::max<index_t>(1, d[j].ext); else dyn++; }
    index_t room = std::max<index_t>(1, g_big / fixed);
    bool even = r.chance(1, 2);
    for (size_t j = 0; j < d.size() && dyn > 0; j++) {
      if (k[j].sext) continue;
      index_t top = room;
      if (dyn > 1) {
        index_t root = 1;
        for (;;) { index_t p = 1; for (index_t i = 0; i < dyn; i++) p *= root + 1; if (p > room) break; root++; }
        top = even ? root : r.chance(1, 2) ? std::min<index_t>(3, room) : room;
      }
      d[j].ext = r.chance(1, 3) ? round_length(r, std::max<index_t>(1, top)) : r.chance(1, 2) ? top : r.range(1, std::max<index_t>(1, top));
      room = std::max<index_t>(1, room / d[j].ext);
      dyn--;
    }
    PROBE("big:shape");
    return;
  }
  if (d.empty() || !r.chance(1, small_ ? 32 : 16)) return;
  size_t i = (size_t)r.below((int64_t)d.size());
  if (k[i].sext) return;
  for (size_t j = 0; j < d.size(); j++) if (j != i && !k[j].sext) d[j].ext = std::min<index_t>(d[j].ext, r.range(1, 2));
  index_t others = 1;
  for (size_t j = 0; j < d.size(); j++) if (j != i) others *= std::max<index_t>(1, d[j].ext);
  index_t top = std::max<index_t>(9, (small_ ? 40 : 120) / others);
  d[i].ext = r.chance(1, 4) ? round_length(r, top) : r.range(8, top);
}

// A shape of type Shape drawn from r: every dynamic min/extent/stride is
// chosen, strides explicit (permuted, padded, negative), automatic, or mixed.
// The elements of the result never overlap.
template <class Shape> Shape gen_shape(Rng& r, bool small_only, std::vector<DimM>* asked = nullptr) {
  constexpr size_t R = Shape::rank();
  std::vector<DimK> k;
  dim_kinds<Shape>(k, std::make_index_sequence<R>());
  std::vector<DimM> d(R);
  index_t cap = R <= 1 ? 9 : R == 2 ? 5 : R == 3 ? 4 : 3;
  for (size_t i = 0; i < R; i++) {
    d[i].min = k[i].smin ? k[i].min : draw_min(r);
    if (k[i].sext) d[i].ext = k[i].ext;
    else d[i].ext = r.chance(1, 12) ? 0 : r.range(1, small_only ? std::max<index_t>(1, cap / 2) : cap);
    d[i].stride = nda::unresolved;
  }
  draw_long(r, k, d, small_only);
  int mode = (int)r.below(4);     // 0,1: automatic; 2: explicit; 3: mixed
  if (mode >= 2) {
    std::vector<size_t> order;
    for (size_t i = 0; i < R; i++) if (k[i].sstr) order.push_back(i);
    std::sort(order.begin(), order.end(), [&](size_t a, size_t b) { return k[a].stride < k[b].stride; });
    size_t ns = order.size();
    for (size_t i = 0; i < R; i++) if (!k[i].sstr) order.push_back(i);
    for (size_t i = order.size(); i > ns + 1; i--) std::swap(order[i - 1], order[ns + r.below(i - ns)]);
    index_t cur = 1;
    for (size_t j = 0; j < order.size(); j++) {
      size_t i = order[j];
      if (k[i].sstr) { d[i].stride = k[i].stride; cur = std::max<index_t>(cur, std::abs(k[i].stride) * std::max<index_t>(1, d[i].ext)); continue; }
      index_t st = cur + (r.chance(1, 3) ? r.range(1, 3) : 0);
      cur = st * std::max<index_t>(1, d[i].ext);
      if (r.chance(1, 4)) st = -st;
      d[i].stride = (mode == 3 && r.chance(1, 2)) ? nda::unresolved : st;
    }
  }
  Shape s = to_shape<Shape>(d);
  Shape t = s;
  t.resolve();
  if (!one_to_one(dims_of(t)) || flat_ext(dims_of(t)) > (g_big ? 4 * g_big : 4000)) {
    for (size_t i = 0; i < R; i++) d[i].stride = nda::unresolved;
    s = to_shape<Shape>(d);
    t = s;
    t.resolve();
    if (!one_to_one(dims_of(t)))
      anomaly(pm(1) | pm(2) | pm(4), "automatic-overlap", "automatic strides make distinct elements overlap");
    mode = 0;
  }
  if (asked) *asked = d;
  return r.chance(1, 2) ? s : t;
}

// Registration of one configuration.
template <class W> struct Reg {
  explicit Reg(const char* name) { static WorldReg r(name, &W::gen, &W::run); (void)r; }
};

} // namespace life
#endif
