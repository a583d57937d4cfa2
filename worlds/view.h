// World "view": chains of views of caller-owned cells and of arrays, writes
// through any of them (also interrupted), and storage changing owners under
// live views. Every view is a set of addresses. Property C08.
#ifndef WORLD_VIEW_H
#define WORLD_VIEW_H
#include "cells.h"
#include <array>
#include <memory>
#include <variant>

namespace view {
using namespace life;
static const uint32_t P8 = pm(8);
template <size_t R> using Dyn = nda::shape_of_rank<R>;
template <size_t R> using Dense = nda::dense_shape<R>;

// ---------------------------------------------------------------- views held
template <class T> using AnyRef = std::variant<
    nda::array_ref<T, Dyn<0>>,
    nda::array_ref<T, Dyn<1>>, nda::array_ref<T, Dense<1>>,
    nda::array_ref<T, Dyn<2>>, nda::array_ref<T, Dense<2>>, nda::array_ref<T, nda::matrix_shape<>>,
    nda::array_ref<T, Dyn<3>>, nda::array_ref<T, Dense<3>>, nda::array_ref<T, nda::chunky_image_shape<>>>;

// Flat storage: addresses, expected values, and which cells hold elements.
template <class T> struct Region {
  T* p = nullptr;
  std::vector<int> m;
  std::vector<char> valid;
  bool flat = true;                    // every cell holds an element
};
template <class T> struct View {
  AnyRef<T> r;
  Place pl;
  int reg = 0;
};

enum OpKind { V_SLICE, V_TRANSPOSE, V_REORDER, V_CONVERT, V_REINTERPRET, V_RESHAPE, V_SETSHAPE, V_CROP, V_CHANNEL, V_ASSIGN, V_ROOT, V_CREF,
  // writes
  V_ELEM, V_FILL, V_GENERATE, V_TRANSFORM, V_FOREACH, V_COPY, V_COPYREF,
  // the owning array
  V_OWNER, V_NEWARRAY, V_ARRAYVIEW, V_ARRAYWRITE, V_KINDS };
static const char* const op_name[V_KINDS] = {"crop/slice", "transpose", "reorder", "convert_shape", "reinterpret", "reinterpret_shape", "set_shape",
  "crop", "slice_channel", "array_ref assignment", "make_array_ref", "cref", "element write", "fill", "generate", "transform_index", "for_each_value", "copy",
  "copy of a const view", "change of owner", "new array", "view of an array", "write through the array"};

// Arguments of a crop or slice. K: 0 index, 1 interval, 2 range, 3 _, 4 range of
// fixed extent, 5 dim.
template <int K> auto make_arg(Rng& r, const DimM& d, bool resolved, DimM& out, bool& ok) {
  out = d;
  if constexpr (K == 0) {
    if (d.ext <= 0) ok = false;
    out.min = d.min + r.below(std::max<index_t>(1, d.ext));
    out.ext = 1;
    return out.min;
  } else if constexpr (K == 3) {
    return nda::interval<0, -1>();
  } else if constexpr (K == 4) {
    if (d.ext < 2) ok = false;
    out.min = d.min + r.below(std::max<index_t>(1, d.ext - 1));
    out.ext = 2;
    return nda::range<2>(out.min);
  } else {
    out.min = d.min + r.below(std::max<index_t>(1, d.ext));
    index_t left = std::max<index_t>(0, d.min + d.ext - out.min);
    out.ext = r.chance(1, 2) ? left : r.range(1, std::max<index_t>(1, left));
    if (r.chance(1, 24) && resolved) out.ext = 0;
    out.ext = std::min(out.ext, left);
    if constexpr (K == 1) return nda::interval<>(out.min, out.ext);
    else if constexpr (K == 2) return nda::range(out.min, out.min + out.ext);
    else return nda::dim<>(out.min, out.ext, d.stride + 5);
  }
}
template <int Mask, int Rot, size_t D> constexpr int arg_kind() { return (Mask >> D & 1) ? 0 : 1 + (Rot + (int)D) % 5; }

template <size_t N, class F> void dispatch(size_t i, F&& f) {
  [&]<size_t... Is>(std::index_sequence<Is...>) { (void)((i == Is ? (f(std::integral_constant<size_t, Is>()), true) : false) || ...); }
  (std::make_index_sequence<N>());
}

// Whether the constants of two shape types agree on their common dims.
constexpr bool same_const(index_t a, index_t b) { return !is_static(a) || !is_static(b) || a == b; }
template <class S, class Q, size_t... Is> constexpr bool agree(std::index_sequence<Is...>) {
  using A = typename S::dims_type;
  using B = typename Q::dims_type;
  return ((same_const(std::tuple_element<Is, A>::type::Min, std::tuple_element<Is, B>::type::Min) &&
           same_const(std::tuple_element<Is, A>::type::Extent, std::tuple_element<Is, B>::type::Extent) &&
           same_const(std::tuple_element<Is, A>::type::Stride, std::tuple_element<Is, B>::type::Stride)) && ...);
}
template <class S, class Q> constexpr bool agree() { return agree<S, Q>(std::make_index_sequence<(S::rank() < Q::rank() ? S::rank() : Q::rank())>()); }

// An image crop keeps the shape's type, so x and y need bounds that can vary.
template <class S> constexpr bool croppable() {
  if constexpr (S::rank() != 3) return false;
  else {
    using X = std::tuple_element_t<0, typename S::dims_type>;
    using Y = std::tuple_element_t<1, typename S::dims_type>;
    return !is_static(X::Min) && !is_static(X::Extent) && !is_static(Y::Min) && !is_static(Y::Extent);
  }
}

// ---------------------------------------------------------------- the pool
template <class T> struct Core {
  std::vector<Region<T>> regs;
  std::vector<View<T>> pool;
  static constexpr size_t MAX = 7;
  int next_value = 1000;
  Rng place{1};                        // which slot a new view takes

  T* addr(int reg, index_t c) const { return regs[reg].p + c; }
  bool valid(const Place& pl, int reg) const {
    if (regs[reg].flat) return true;
    for (index_t k = 0, n = pl.size(); k < n; k++) {
      index_t c = pl.cell(k);
      if (c < 0 || c >= (index_t)regs[reg].m.size() || !regs[reg].valid[c]) return false;
    }
    return true;
  }

  // A typed view against the place it should denote.
  template <class Ref> void check_ref(const Ref& v, const Place& pl, int reg, const char* what) {
    auto d = dims_of(v.shape());
    for (size_t i = 0; i < d.size(); i++)
      if (d[i].ext != pl.d[i].ext || (d[i].ext > 0 && d[i].min != pl.d[i].min))
        anomaly(P8, "view-bounds", "%s: dim %zu is [%lld,+%lld), expected [%lld,+%lld)", what, i, (long long)d[i].min, (long long)d[i].ext,
            (long long)pl.d[i].min, (long long)pl.d[i].ext);
    if (const char* bad = wrong_accessor(v, d)) anomaly(P8, "accessor", "%s: %s of the view contradicts its shape", what, bad);
    index_t n = pl.size();
    if ((index_t)v.size() != n || v.empty() != (n == 0)) anomaly(P8, "view-size", "%s: the view has %lld elements, expected %lld", what, (long long)v.size(), (long long)n);
    if (n == 0) return;
    if (v.base() != addr(reg, pl.base)) anomaly(P8, "view-base", "%s: base is cell %lld, expected %lld", what, (long long)(v.base() - regs[reg].p), (long long)pl.base);
    if (v.data() != addr(reg, pl.base + flat_lo(pl.d)))
      anomaly(P8, "view-data", "%s: data is cell %lld, expected %lld", what, (long long)(v.data() - regs[reg].p), (long long)(pl.base + flat_lo(pl.d)));
    for (index_t k = 0; k < n; k++) {
      auto* a = &v[index_of<typename Ref::shape_type>(pl.d, k)];
      if (a != addr(reg, pl.cell(k)))
        anomaly(P8, "view-element", "%s: element %lld is cell %lld, expected %lld", what, (long long)k, (long long)(a - regs[reg].p), (long long)pl.cell(k));
    }
  }
  // The elements a traversal of the view reaches.
  template <class Ref> void check_reach(const Ref& v, const Place& pl, int reg, const char* what) {
    std::vector<const T*> got, want;
    for (index_t k = 0, n = pl.size(); k < n; k++) want.push_back(addr(reg, pl.cell(k)));
    v.for_each_value([&](const T& x) { InHarness h; got.push_back(&x); });
    std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
    if (got != want) anomaly(P8, "view-reach", "%s: for_each_value reaches %zu elements, which are not the view's %zu", what, got.size(), want.size());
  }
  // Arguments one by one, as the parenthesised calls take them.
  template <class Ref, size_t... Is> void check_paren(const Ref& v, const Place& pl, int reg, const char* what, std::index_sequence<Is...>) {
    for (index_t k = 0, n = pl.size(); k < n; k++) {
      index_t ix[sizeof...(Is) + 1] = {};
      unrank(pl.d, k, ix);
      auto* a = &v((ix[Is] + pl.d[Is].min)...);
      if (a != addr(reg, pl.cell(k))) anomaly(P8, "view-element", "%s: element %lld is cell %lld, expected %lld", what, (long long)k, (long long)(a - regs[reg].p), (long long)pl.cell(k));
    }
  }
  void check_view(const View<T>& w, const char* what) {
    std::visit([&](auto& v) {
      check_ref(v, w.pl, w.reg, what);
      check_reach(v, w.pl, w.reg, what);
      using Ref = std::decay_t<decltype(v)>;
      check_paren(v, w.pl, w.reg, what, std::make_index_sequence<Ref::rank()>());
      if constexpr (Ref::rank() == 0) {
        T& e = v;
        if (&e != addr(w.reg, w.pl.base)) anomaly(P8, "view-element", "%s: a scalar view converts to another element", what);
      }
    }, w.r);
  }
  void check_cells(const char* what) {
    for (size_t g = 0; g < regs.size(); g++)
      for (size_t i = 0; i < regs[g].m.size(); i++)
        if (regs[g].valid[i] && Elem<T>::peek(regs[g].p + i) != regs[g].m[i])
          anomaly(P8, "cell", "%s: cell %zu of storage %zu is %d, expected %d", what, i, g, Elem<T>::peek(regs[g].p + i), regs[g].m[i]);
  }

  // ------------------------------------------------------------ adding views
  template <class S> static bool fits(const std::vector<DimM>& d) {
    std::vector<DimK> k;
    dim_kinds<S>(k, std::make_index_sequence<S::rank()>());
    for (size_t i = 0; i < d.size(); i++) {
      if (k[i].smin && k[i].min != d[i].min) return false;
      if (k[i].sext && k[i].ext != d[i].ext) return false;
      if (k[i].sstr && k[i].stride != d[i].stride) return false;
    }
    return true;
  }
  template <class S, class Ref> bool try_as(const Ref& v, const Place& pl, int reg, int how, const char* what) {
    if constexpr (!agree<S, typename Ref::shape_type>()) return false;
    else {
    if (!fits<S>(dims_of(v.shape()))) return false;
    nda::array_ref<T, S> out;
    {
      InLib l;
      if (how == 0) out = v;
      else if (how == 1) { nda::array_ref<T, S> o(v); out = o; }
      else if (how == 2) out = nda::convert_shape<S>(v);
      else { out = nda::make_array_ref<T, S>(nullptr, S()); out = nda::array_ref<T, S>(v); }
    }
    View<T> w{out, pl, reg};
    check_view(w, what);
    if (pool.size() < MAX) pool.push_back(w);
    else pool[place.below(MAX)] = w;
    return true;
    }
  }
  template <class Ref> void push(const Ref& v, const Place& pl, int reg, const char* what, Rng& r) {
    check_ref(v, pl, reg, what);
    if constexpr (std::is_const<typename Ref::value_type>::value) {
      nda::array_ref<T, typename Ref::shape_type> w;
      { InLib l; w = nda::reinterpret_const<T>(v); }
      check_ref(w, pl, reg, "reinterpret_const");
      keep(w, pl, reg, what, r);
    } else keep(v, pl, reg, what, r);
  }
  template <class Ref> void keep(const Ref& v, const Place& pl, int reg, const char* what, Rng& r) {
    constexpr size_t R = Ref::rank();
    place = Rng(r.next());
    int how = (int)r.below(4), pick = (int)r.below(4);
    bool done = false;
    if constexpr (R == 1) { if (pick & 1) done = try_as<Dense<1>>(v, pl, reg, how, what); }
    if constexpr (R == 2) {
      if (pick == 1) done = try_as<Dense<2>>(v, pl, reg, how, what);
      if (!done && pick >= 2) done = try_as<nda::matrix_shape<>>(v, pl, reg, how, what);
    }
    if constexpr (R == 3) {
      if (pick == 1) done = try_as<Dense<3>>(v, pl, reg, how, what);
      if (!done && pick >= 2) done = try_as<nda::chunky_image_shape<>>(v, pl, reg, how, what);
    }
    if constexpr (R <= 3) { if (!done) try_as<Dyn<R>>(v, pl, reg, how, what); }
  }

  // ------------------------------------------------------------ making views
  // Vw: an array_ref or an array (maybe const).
  template <int Mask, int Rot, bool Tuple, class Vw, size_t... Is>
  bool slice_as(Vw& v, const Place& pl, int reg, Rng& r, std::index_sequence<Is...>) {
    constexpr size_t R = sizeof...(Is);
    if constexpr (Mask == (1 << R) - 1) return false;
    else {
      bool ok = true;
      DimM o[R];
      auto actual = dims_of(v.shape());
      std::tuple<decltype(make_arg<arg_kind<Mask, Rot, Is>()>(r, pl.d[Is], true, o[Is], ok))...> args{
          make_arg<arg_kind<Mask, Rot, Is>()>(r, pl.d[Is], actual[Is].stride != nda::unresolved, o[Is], ok)...};
      if (!ok) return false;
      Place np;
      np.base = pl.base;
      for (size_t i = 0; i < R; i++) {
        np.base += (o[i].min - pl.d[i].min) * pl.d[i].stride;
        if (!(Mask >> i & 1)) np.d.push_back({o[i].min, o[i].ext, pl.d[i].stride});
      }
      auto go = [&] {
        InLib l;
        if constexpr (Tuple) return v[args];
        else return std::apply([&](auto... a) { return v(a...); }, args);
      };
      auto res = go();
      push(res, np, reg, Mask ? "slice" : "crop", r);
      return true;
    }
  }
  template <class Vw> bool slice(Vw& v, const Place& pl, int reg, Rng& r) {
    constexpr size_t R = Vw::rank();
    if constexpr (R == 0) return false;
    else {
      bool done = false;
      size_t which = (size_t)r.below(((1 << R) - 1) * 5);
      dispatch<((1 << R) - 1) * 5>(which, [&](auto I) {
        constexpr int mask = decltype(I)::value / 5, rot = decltype(I)::value % 5;
        constexpr bool tuple = (mask + rot + (std::is_const<Vw>::value ? 1 : 0)) & 1;
        done = slice_as<mask, rot, tuple>(v, pl, reg, r, std::make_index_sequence<R>());
      });
      return done;
    }
  }
  template <size_t... P, class Vw> void transposed(Vw& v, const Place& pl, int reg, Rng& r) {
    Place np;
    np.base = pl.base;
    (np.d.push_back(pl.d[P]), ...);
    auto go = [&] { InLib l; return nda::transpose<P...>(v); };
    push(go(), np, reg, "transpose", r);
  }
  template <size_t... P, class Vw> bool reordered(Vw& v, const Place& pl, int reg, Rng& r) {
    bool used[4] = {};
    ((used[P] = true), ...);
    for (size_t i = 0; i < pl.d.size(); i++) if (!used[i] && pl.d[i].ext <= 0) return false;
    Place np;
    np.base = pl.base;
    (np.d.push_back(pl.d[P]), ...);
    auto go = [&] { InLib l; return nda::reorder<P...>(v); };
    push(go(), np, reg, "reorder", r);
    return true;
  }
  template <class Vw> bool transpose(Vw& v, const Place& pl, int reg, Rng& r) {
    constexpr size_t R = Vw::rank();
    if constexpr (R == 2) { if (r.below(2)) transposed<1, 0>(v, pl, reg, r); else transposed<0, 1>(v, pl, reg, r); return true; }
    else if constexpr (R == 3) {
      switch (r.below(6)) {
      case 0: transposed<0, 1, 2>(v, pl, reg, r); break;
      case 1: transposed<0, 2, 1>(v, pl, reg, r); break;
      case 2: transposed<1, 0, 2>(v, pl, reg, r); break;
      case 3: transposed<1, 2, 0>(v, pl, reg, r); break;
      case 4: transposed<2, 0, 1>(v, pl, reg, r); break;
      default: transposed<2, 1, 0>(v, pl, reg, r); break;
      }
      return true;
    } else return false;
  }
  template <class Vw> bool reorder(Vw& v, const Place& pl, int reg, Rng& r) {
    constexpr size_t R = Vw::rank();
    if constexpr (R == 1) return reordered<0>(v, pl, reg, r);
    else if constexpr (R == 2) {
      switch (r.below(3)) {
      case 0: return reordered<0>(v, pl, reg, r);
      case 1: return reordered<1>(v, pl, reg, r);
      default: return reordered<1, 0>(v, pl, reg, r);
      }
    } else if constexpr (R == 3) {
      switch (r.below(7)) {
      case 0: return reordered<1>(v, pl, reg, r);
      case 1: return reordered<2>(v, pl, reg, r);
      case 2: return reordered<0, 2>(v, pl, reg, r);
      case 3: return reordered<2, 0>(v, pl, reg, r);
      case 4: return reordered<2, 1>(v, pl, reg, r);
      case 5: return reordered<1, 0>(v, pl, reg, r);
      default: return reordered<1, 2, 0>(v, pl, reg, r);
      }
    } else return false;
  }
  // Other ranks: trivial dims appear or disappear at the end.
  template <class Vw> bool convert(Vw& v, const Place& pl, int reg, Rng& r) {
    constexpr size_t R = Vw::rank();
    auto to = [&](auto s) -> bool {
      using S = decltype(s);
      if constexpr (!agree<S, typename Vw::shape_type>()) return false;
      else {
      Place np;
      np.base = pl.base;
      auto a = dims_of(v.shape());
      for (size_t i = 0; i < R; i++) {
        if (i < S::rank()) np.d.push_back(pl.d[i]);
        else if (pl.d[i].ext != 1) return false;
      }
      a.resize(std::min(a.size(), S::rank()));
      std::vector<DimK> k;
      dim_kinds<S>(k, std::make_index_sequence<S::rank()>());
      for (size_t i = 0; i < a.size(); i++)
        if ((k[i].smin && k[i].min != a[i].min) || (k[i].sext && k[i].ext != a[i].ext) ||
            (k[i].sstr && a[i].stride != nda::unresolved && k[i].stride != a[i].stride)) return false;
      for (size_t i = R; i < S::rank(); i++) {
        if ((k[i].smin && k[i].min != 0) || (k[i].sext && k[i].ext != 1)) return false;
        np.d.push_back({0, 1, 0});
      }
      auto go = [&] { InLib l; return nda::convert_shape<S>(v); };
      push(go(), np, reg, "convert_shape", r);
      return true;
      }
    };
    switch (r.below(9)) {
    case 0: return to(Dyn<0>());
    case 1: return to(Dyn<1>());
    case 2: return to(Dyn<2>());
    case 3: return to(Dyn<3>());
    case 4: return to(Dense<1>());
    case 5: return to(Dense<2>());
    case 6: return to(Dense<3>());
    case 7: return to(nda::matrix_shape<>());
    default: return to(nda::chunky_image_shape<>());
    }
  }
  template <class U, class Vw> void check_same_bytes(const U& u, const Vw& v, const Place& pl, int reg) {
    (void)v;
    for (index_t k = 0, n = pl.size(); k < n; k++)
      if ((const void*)&u[index_of<typename U::shape_type>(pl.d, k)] != (const void*)addr(reg, pl.cell(k)))
        anomaly(P8, "view-element", "reinterpret: element %lld is elsewhere", (long long)k);
  }
  template <class Vw> bool reinterpret(Vw& v, const Place& pl, int reg, Rng& r) {
    using E = std::conditional_t<std::is_same<T, int>::value, unsigned, const T>;
    auto go = [&] { InLib l; return nda::reinterpret<E>(v); };
    auto u = go();
    check_same_bytes(u, v, pl, reg);
    if constexpr (std::is_const<E>::value || std::is_const<Vw>::value) {
      auto back = [&] {
        InLib l;
        if constexpr (std::is_same<T, int>::value) return nda::reinterpret<T>(nda::reinterpret_const<E>(u));
        else return nda::reinterpret_const<T>(u);
      };
      push(back(), pl, reg, "reinterpret_const", r);
    } else {
      auto back = [&] { InLib l; return nda::reinterpret<T>(u); };
      push(back(), pl, reg, "reinterpret", r);
    }
    return true;
  }

  // A shape of type S on cells the view's flat range covers: a box of the view,
  // its cells in a row, or anything when padding holds elements too.
  template <class S> bool draw_reshape(const Place& pl, int reg, Rng& r, Place& np, S& shape) {
    index_t n = pl.size();
    if (n == 0) return false;
    index_t lo = pl.base + flat_lo(pl.d), ext = flat_ext(pl.d);
    constexpr size_t R = S::rank();
    int mode = (int)r.below(3);
    if (mode == 0) {                                   // dims of the view, cropped and renumbered
      if (R > pl.d.size()) return false;
      std::vector<size_t> o;
      for (size_t i = 0; i < pl.d.size(); i++) o.push_back(i);
      for (size_t i = o.size(); i > 1; i--) if (r.chance(1, 2)) std::swap(o[i - 1], o[r.below((int64_t)i)]);
      np.base = pl.base;
      np.d.clear();
      for (size_t j = 0; j < o.size(); j++) {
        const DimM& d = pl.d[o[j]];
        index_t at = r.below(d.ext);
        np.base += at * d.stride;
        if (j < R) np.d.push_back({draw_min(r), r.range(1, d.ext - at), d.stride});
      }
    } else if (mode == 1) {                            // in a row
      if (R != 1 || ext != n || !one_to_one(pl.d)) return false;
      np.base = lo;
      np.d = {{draw_min(r), n, 1}};
    } else {
      if (!regs[reg].flat) return false;
      std::vector<DimM> d;
      if (!draw_bounds<S>(r, d, nullptr, true) || !draw_strides<S>(r, d, false)) return false;
      if (r.chance(1, 3)) for (auto& x : d) if (r.chance(1, 2)) x.stride = nda::unresolved;
      S t = to_shape<S>(d);
      t.resolve();
      d = dims_of(t);
      if (size_of(d) == 0 || !one_to_one(d) || flat_ext(d) > ext) return false;
      if (!place_in(r, d, ext, np)) return false;
      np.base += lo;
    }
    if (!fits<S>(np.d)) return false;
    shape = to_shape<S>(np.d);
    return true;
  }
  template <class Vw> bool reshape(Vw& v, const Place& pl, int reg, Rng& r) {
    bool done = false;
    auto to = [&](auto s) {
      using S = decltype(s);
      Place np;
      S shape;
      if (!draw_reshape<S>(pl, reg, r, np, shape)) return;
      auto go = [&] { InLib l; return nda::reinterpret_shape(v, shape, np.base - pl.base); };
      push(go(), np, reg, "reinterpret_shape", r);
      done = true;
    };
    switch (r.below(8)) {
    case 0: to(Dyn<0>()); break;
    case 1: to(Dyn<1>()); break;
    case 2: to(Dyn<2>()); break;
    case 3: to(Dyn<3>()); break;
    case 4: to(Dense<1>()); break;
    case 5: to(nda::shape<nda::dim<>, nda::dense_dim<>>()); break;
    case 6: to(nda::chunky_image_shape<>()); break;
    default: to(nda::shape<nda::dim<0>, nda::dim<>>()); break;
    }
    return done;
  }
  template <class Vw> bool crop(Vw& v, const Place& pl, int reg, Rng& r) {
    if constexpr (croppable<typename Vw::shape_type>()) {
      auto c = [&](const DimM& d, index_t& a, index_t& b) {
        a = d.min + r.range(-3, d.ext + 2);
        b = r.chance(1, 12) ? a - r.range(0, 3) : a + r.range(1, d.ext + 3);
      };
      index_t x0, x1, y0, y1;
      c(pl.d[0], x0, x1); c(pl.d[1], y0, y1);
      bool zero = r.chance(1, 2), dflt = !zero && r.chance(1, 2);
      auto clip = [](const DimM& d, index_t a, index_t b, DimM& o) {
        o.min = std::max(a, d.min);
        o.ext = std::max<index_t>(0, std::min(b, d.min + d.ext) - o.min);
        o.stride = d.stride;
        return (o.min - d.min) * d.stride;
      };
      Place np;
      np.d.resize(3);
      np.base = pl.base + clip(pl.d[0], x0, x1, np.d[0]);
      np.base += clip(pl.d[1], y0, y1, np.d[1]);
      np.d[2] = pl.d[2];
      if (zero) np.d[0].min = np.d[1].min = 0;
      auto go = [&] {
        InLib l;
        if (dflt) return nda::crop(v, x0, y0, x1, y1);
        return nda::crop(v, x0, y0, x1, y1, zero ? nda::crop_origin::zero : nda::crop_origin::crop);
      };
      push(go(), np, reg, "image crop", r);
      return true;
    } else return false;
  }
  template <class Vw> bool channel(Vw& v, const Place& pl, int reg, Rng& r) {
    if constexpr (Vw::rank() == 3) {
      if (pl.d[2].ext <= 0) return false;
      index_t c = pl.d[2].min + r.below(pl.d[2].ext);
      Place np;
      np.d = {pl.d[0], pl.d[1]};
      np.base = pl.base + (c - pl.d[2].min) * pl.d[2].stride;
      auto go = [&] { InLib l; return nda::slice_channel(v, c); };
      push(go(), np, reg, "slice_channel", r);
      return true;
    } else return false;
  }
  // Any way of making a view from v, which may be an array.
  template <class Vw> bool derive(int kind, Vw& v, const Place& pl, int reg, Rng& r) {
    switch (kind) {
    case V_SLICE: return slice(v, pl, reg, r);
    case V_TRANSPOSE: return transpose(v, pl, reg, r);
    case V_REORDER: return reorder(v, pl, reg, r);
    case V_CONVERT: return convert(v, pl, reg, r);
    case V_REINTERPRET: return reinterpret(v, pl, reg, r);
    case V_RESHAPE: return reshape(v, pl, reg, r);
    case V_CROP: return crop(v, pl, reg, r);
    case V_CHANNEL: return channel(v, pl, reg, r);
    case V_CREF: {
      auto go = [&] { InLib l; return v.cref(); };
      push(go(), pl, reg, "cref", r);
      if constexpr (!std::is_const<Vw>::value) {
        auto ref = [&] { InLib l; return v.ref(); };
        push(ref(), pl, reg, "ref", r);
      }
      return true;
    }
    }
    return false;
  }

  // ------------------------------------------------------------ operations
  int value() { return next_value += 100; }
  // After a write to the cells of pl: every element is old or want[k], all want when complete.
  void adopt(const Place& pl, int reg, const std::vector<int>& want, int rc, const char* what) {
    auto& m = regs[reg].m;
    for (index_t k = 0, n = pl.size(); k < n; k++) {
      index_t c = pl.cell(k);
      int now = Elem<T>::peek(addr(reg, c));
      if (now == want[k] || (rc && now == m[c])) m[c] = now;
      else anomaly(P8, "write", "%s%s: element %lld (cell %lld) is %d, expected %d", what, rc ? " (interrupted)" : "", (long long)k, (long long)c, now, want[k]);
    }
  }
  template <class Vw> void write(int kind, Vw& v, const Place& pl, int reg, const Op& op, Rng& r) {
    using S = typename Vw::shape_type;
    index_t n = pl.size();
    const char* what = op_name[kind];
    std::vector<int> want;
    int val = value();
    auto& m = regs[reg].m;
    auto pos = [&](const typename S::index_type& i) {
      InHarness h;
      return (int)index_rank(pl.d, i, std::make_index_sequence<S::rank()>());
    };
    switch (kind) {
    case V_ELEM: {
      if (n == 0) return;
      index_t k = r.below(n);
      T x(val);
      auto ix = index_of<S>(pl.d, k);
      bool paren = r.chance(1, 2);
      int rc = lib_call(op, true, P8, what, [&] {
        if (paren) std::apply([&](auto... i) { v(i...) = x; }, ix); else v[ix] = x;
      });
      for (index_t j = 0; j < n; j++) want.push_back(j == k ? val : m[pl.cell(j)]);
      adopt(pl, reg, want, rc, what);
      return;
    }
    case V_FILL: {
      T x(val);
      int rc = lib_call(op, true, P8, what, [&] { nda::fill(v, x); });
      want.assign(n, val);
      adopt(pl, reg, want, rc, what);
      return;
    }
    case V_GENERATE: {
      int rc = lib_call(op, true, P8, what, [&] { nda::generate(v, [&]() -> T { CallFaultPoint::point(); return T(val); }); });
      want.assign(n, val);
      adopt(pl, reg, want, rc, what);
      return;
    }
    case V_TRANSFORM: {
      if (r.chance(1, 2)) {
        int rc = lib_call(op, true, P8, what, [&] {
          nda::transform_index(v, [&](const typename S::index_type& i) -> T { CallFaultPoint::point(); return T(val + pos(i)); }); });
        for (index_t k = 0; k < n; k++) want.push_back(val + (int)k);
        adopt(pl, reg, want, rc, what);
      } else {
        int rc = lib_call(op, true, P8, "transform_indices", [&] {
          nda::transform_indices(v, [&](auto... i) -> T { CallFaultPoint::point(); return T(val + pos(typename S::index_type(i...))); }); });
        for (index_t k = 0; k < n; k++) want.push_back(val + (int)k);
        adopt(pl, reg, want, rc, "transform_indices");
      }
      return;
    }
    case V_FOREACH: {
      for (index_t k = 0; k < n; k++) want.push_back(m[pl.cell(k)] + 50000);
      int rc = lib_call(op, true, P8, what, [&] {
        v.for_each_value([&](T& x) { CallFaultPoint::point(); int o; { InHarness h; o = Elem<T>::peek(&x); } x = T(o + 50000); }); });
      // Each element once; afterwards back into range.
      adopt(pl, reg, want, rc, what);
      return;
    }
    }
  }
  template <class Tup, size_t... Is> static index_t index_rank(const std::vector<DimM>& d, const Tup& t, std::index_sequence<Is...>) {
    index_t k = 0, mul = 1;
    ((k += (std::get<Is>(t) - d[Is].min) * mul, mul *= d[Is].ext), ...);
    (void)mul; (void)t; (void)d;
    return k;
  }
  // dst := src by index, over disjoint cells.
  bool copy(View<T>& a, View<T>& b, const Op& op, bool cref) {
    if (a.pl.d.size() != b.pl.d.size() || b.pl.size() == 0) return false;
    for (size_t i = 0; i < a.pl.d.size(); i++)
      if (b.pl.d[i].min < a.pl.d[i].min || b.pl.d[i].min + b.pl.d[i].ext > a.pl.d[i].min + a.pl.d[i].ext) return false;
    if (a.reg == b.reg && !disjoint(a.pl, b.pl)) return false;
    std::vector<int> want;
    for (index_t k = 0, n = b.pl.size(); k < n; k++) want.push_back(regs[a.reg].m[a.pl.cell(locate(b.pl.d, k, a.pl.d))]);
    int rc = 0;
    std::visit([&](auto& x, auto& y) {
      using X = std::decay_t<decltype(x)>;
      using Y = std::decay_t<decltype(y)>;
      if constexpr (X::rank() == Y::rank())
        rc = lib_call(op, true, P8, "copy", [&] { if (cref) nda::copy(x.cref(), y); else nda::copy(x, y); });
    }, a.r, b.r);
    adopt(b.pl, b.reg, want, rc, "copy");
    PROBE("view:copied");
    return true;
  }
  bool set_shape(View<T>& w, Rng& r) {
    bool done = false;
    std::visit([&](auto& v) {
      using S = typename std::decay_t<decltype(v)>::shape_type;
      Place np;
      S shape;
      if (!draw_reshape<S>(w.pl, w.reg, r, np, shape)) return;
      { InLib l; v.set_shape(shape, np.base - w.pl.base); }
      w.pl = np;
      done = true;
    }, w.r);
    if (done) check_view(w, "set_shape");
    return done;
  }
  bool assign_ref(View<T>& a, View<T>& b) {
    bool done = false;
    std::visit([&](auto& x, auto& y) {
      using X = std::decay_t<decltype(x)>;
      using Y = std::decay_t<decltype(y)>;
      if constexpr (X::rank() == Y::rank() && agree<typename X::shape_type, typename Y::shape_type>()) {
        if (!fits<typename Y::shape_type>(dims_of(x.shape()))) return;
        InLib l;
        y = x;
        done = true;
      }
    }, a.r, b.r);
    if (done) { b.pl = a.pl; b.reg = a.reg; check_view(b, "array_ref assignment"); }
    return done;
  }
  // A fresh view of the caller's cells.
  bool root(Rng& r) {
    bool done = false;
    auto to = [&](auto s) {
      using S = decltype(s);
      std::vector<DimM> d;
      Place pl;
      if (!draw_bounds<S>(r, d, nullptr) || !draw_strides<S>(r, d, false) || !place_in(r, d, (index_t)regs[0].m.size(), pl)) return;
      S shape = to_shape<S>(d);
      auto go = [&] { InLib l; return nda::make_array_ref(regs[0].p + pl.base, shape); };
      push(go(), pl, 0, "make_array_ref", r);
      done = true;
    };
    switch (r.below(8)) {
    case 0: to(Dyn<1>()); break;
    case 1: to(Dyn<2>()); break;
    case 2: case 3: to(Dyn<3>()); break;
    case 4: to(Dense<2>()); break;
    case 5: to(nda::chunky_image_shape<>()); break;
    case 6: to(Dense<3>()); break;
    default: to(nda::matrix_shape<>()); break;
    }
    return done;
  }
  bool step(const Op& op, Rng& r);
};

template <class T> bool Core<T>::step(const Op& op, Rng& r) {
  if (op.kind == V_ROOT || pool.empty()) return root(r);
  View<T>& w = pool[op.arg(0) % pool.size()];
  if (op.kind >= V_ELEM && op.kind <= V_FOREACH) {
    View<T> c = w;
    std::visit([&](auto& v) { write(op.kind, v, c.pl, c.reg, op, r); }, c.r);
    return true;
  }
  switch (op.kind) {
  case V_COPY: case V_COPYREF: {
    for (size_t i = 0; i < pool.size(); i++) if (copy(w, pool[(op.arg(2) + i) % pool.size()], op, op.kind == V_COPYREF)) return true;
    return false;
  }
  case V_SETSHAPE: return set_shape(w, r);
  case V_ASSIGN: return assign_ref(w, pool[op.arg(2) % pool.size()]);
  default: {
    View<T> c = w;
    bool done = false;
    std::visit([&](auto& v) { done = derive(op.kind, v, c.pl, c.reg, r); }, c.r);
    return done;
  }
  }
}
extern template struct Core<int>;
extern template struct Core<obj>;

// ---------------------------------------------------------------- the world
template <class T, class Shape> struct ViewWorld {
  using A = nda::array<T, Shape>;

  static void gen(Rng& r, Program& p, int prop) {
    (void)prop;
    p.knob = {(int64_t)r.below(1 << 24), r.range(60, 220), draw_big(r, 400)};
    if (p.knob[2]) p.knob[1] += 3 * p.knob[2];
    int n = (int)r.range(4, 14);
    p.ops.push_back(Op());
    p.ops.back().kind = r.chance(1, 2) ? V_ROOT : V_NEWARRAY;
    p.ops.back().a = {0, (int64_t)r.below(1 << 24), 0};
    for (int i = 0; i < n; i++) {
      static const int kinds[] = {V_SLICE, V_SLICE, V_SLICE, V_TRANSPOSE, V_TRANSPOSE, V_REORDER, V_CONVERT, V_CONVERT, V_REINTERPRET, V_RESHAPE, V_RESHAPE,
        V_SETSHAPE, V_CROP, V_CROP, V_CHANNEL, V_ASSIGN, V_ROOT, V_CREF, V_ELEM, V_ELEM, V_FILL, V_GENERATE, V_TRANSFORM, V_FOREACH, V_COPY, V_COPYREF,
        V_OWNER, V_OWNER, V_NEWARRAY, V_ARRAYVIEW, V_ARRAYVIEW, V_ARRAYVIEW, V_ARRAYWRITE};
      Op o;
      o.kind = kinds[r.below(sizeof kinds / sizeof *kinds)];
      o.a = {r.below(7), (int64_t)r.below(1 << 24), r.below(7)};
      bool writes = (o.kind >= V_ELEM && o.kind <= V_COPYREF) || o.kind == V_ARRAYWRITE;
      if (writes && r.chance(2, 3)) {
        bool call = (o.kind >= V_GENERATE && o.kind <= V_FOREACH) || o.kind == V_ARRAYWRITE;
        o.fkind = call && (!Elem<T>::is_obj || r.chance(1, 2)) ? F_CALL : F_ASSIGN;
        o.fat = 1 + (int)(r.chance(1, 2) ? r.below(3) : r.below(30));
        o.fpersist = r.chance(1, 8);
        if (!Elem<T>::is_obj && o.fkind == F_ASSIGN) o.fkind = 0;
      }
      p.ops.push_back(o);
    }
  }

  struct State {
    Core<T> c;
    A* a[2] = {nullptr, nullptr};
    void* mem[2] = {nullptr, nullptr};
    int owner = 0;
    Place pl;                          // of the owner's array, in region 1
    bool have = false;
  };

  static void drop(State& s) {
    clear_plan();
    for (size_t i = s.c.pool.size(); i-- > 0;) if (s.c.pool[i].reg == 1) s.c.pool.erase(s.c.pool.begin() + (long)i);
    s.c.regs.resize(1);
    for (int i = 0; i < 2; i++) if (s.a[i]) { InLib l; s.a[i]->~A(); s.a[i] = nullptr; }
    s.have = false;
  }
  static void fresh(State& s, Rng& r) {
    MayAlloc may;
    drop(s);
    Shape shape = gen_shape<Shape>(r, false);
    clear_plan();
    s.owner = 0;
    { InLib l; s.a[0] = new (s.mem[0]) A(shape, T(7)); s.a[1] = new (s.mem[1]) A(); }
    A& a = *s.a[0];
    s.pl = Place();
    s.pl.d = dims_of(a.shape());
    index_t n = s.pl.size();
    Region<T> g;
    g.flat = false;
    g.p = n ? a.data() : nullptr;
    if (n) {
      s.pl.base = -flat_lo(s.pl.d);
      g.m.assign(flat_ext(s.pl.d), 7);
      g.valid.assign(g.m.size(), 0);
      for (index_t k = 0; k < n; k++) {
        index_t c = s.pl.cell(k);
        g.valid[c] = 1;
        g.m[c] = 100000 + (int)k;
        a[index_of<Shape>(s.pl.d, k)] = T(g.m[c]);
      }
    }
    s.c.regs.push_back(g);
    s.have = true;
  }
  static void check_owner(State& s) {
    if (!s.have) return;
    const A& a = *s.a[s.owner];
    s.c.check_ref(a, s.pl, 1, "array");
  }
  static void change_owner(State& s, Rng& r) {
    MayAlloc may;
    int o = s.owner, n = 1 - o;
    int how = (int)r.below(4);
    // A moved-from array of a type that cannot be empty can only be moved into.
    if (how == 2 && !s.a[n]->base() && s.a[n]->shape().size() > 0) how = 0;
    {
    InLib l;
    switch (how) {
    case 0: *s.a[n] = std::move(*s.a[o]); break;
    case 1: s.a[n]->~A(); new (s.a[n]) A(std::move(*s.a[o])); break;
    case 2: { using std::swap; swap(*s.a[n], *s.a[o]); break; }
    default: { A t(std::move(*s.a[o])); *s.a[n] = std::move(t); break; }
    }
    }
    s.owner = n;
    PROBE("view:owner-changed");
  }

  static void run(const Program& p) {
    {
      g_default_id = HEAP_ID;
      life::BigRun big(p.k(2));
      Cells<T> cells(std::min<int64_t>(p.k(1), 20000), 0);
      State s;
      Region<T> g;
      g.p = cells.p;
      g.m = cells.m;
      g.valid.assign(g.m.size(), 1);
      s.c.regs.push_back(g);
      for (auto& m : s.mem) m = block_alloc(sizeof(A), 1, 0, B_OBJECT, 64);
      forbid_alloc(pm(6), "making or writing through a view");
      for (const Op& op : p.ops) {
        set_step_cap(life::g_big ? 4000000 : 400000, P8);
        Rng r(mix((uint64_t)p.k(0), (uint64_t)op.arg(1)));
        bool did = false;
        if (g_verbose) { trace("%s view %d fault=%s@%d\n", op_name[op.kind], (int)op.arg(0), fault_name[op.fkind], op.fat); }
        switch (op.kind) {
        case V_NEWARRAY: fresh(s, r); did = true; break;
        case V_OWNER: if (s.have) { change_owner(s, r); did = true; } break;
        case V_ARRAYVIEW:
          if (s.have) {
            static const int kinds[] = {V_SLICE, V_SLICE, V_TRANSPOSE, V_REORDER, V_CONVERT, V_REINTERPRET, V_RESHAPE, V_CROP, V_CHANNEL, V_CREF};
            int kind = kinds[r.below(10)];
            A& a = *s.a[s.owner];
            const A& ca = a;
            if (s.pl.size() == 0 && kind == V_RESHAPE) break;
            did = r.chance(1, 3) ? s.c.derive(kind, ca, s.pl, 1, r) : s.c.derive(kind, a, s.pl, 1, r);
          }
          break;
        case V_ARRAYWRITE:
          if (s.have) { s.c.write(r.chance(1, 2) ? V_ELEM : r.chance(1, 2) ? V_FILL : V_FOREACH, *s.a[s.owner], s.pl, 1, op, r); did = true; }
          break;
        default: did = s.c.step(op, r);
        }
        s.c.check_cells(op_name[op.kind]);
        check_owner(s);
        if (!s.c.pool.empty()) s.c.check_view(s.c.pool[op.arg(2) % s.c.pool.size()], "view");
        ev(0x77, op.kind, did);
        if (did) { PROBE("view:ops"); }
        if (g_verbose && did) {
          for (size_t i = 0; i < s.c.pool.size(); i++) {
            trace("  #%zu storage %d base %lld:", i, s.c.pool[i].reg, (long long)s.c.pool[i].pl.base);
            for (auto& d : s.c.pool[i].pl.d) trace(" [%lld,+%lld)*%lld", (long long)d.min, (long long)d.ext, (long long)d.stride);
            trace(" (%zu)\n", s.c.pool[i].r.index());
          }
        }
        uint64_t h = mix((uint64_t)op.kind, (uint64_t)s.c.pool.size());
        for (auto& v : s.c.pool) h = mix(h, mix(v.r.index() * 8 + (uint64_t)v.reg, (uint64_t)v.pl.size()));
        state_sig(h);
      }
      for (auto& v : s.c.pool) s.c.check_view(v, "view at the end");
      drop(s);
      for (auto& m : s.mem) block_free(m, 1, 0, B_OBJECT, true);
      for (size_t i = 0; i < cells.m.size(); i++) cells.m[i] = Elem<T>::peek(cells.p + i);
      s.c.pool.clear();
    }
    set_step_cap(0, 0);
  }
};
} // namespace view
#endif
