// World "conc": tasks that use the same arrays in const ways and do anything to
// arrays of their own, interleaved at single memory accesses, with failures in
// some of them. Property C12.
#ifndef WORLD_CONC_H
#define WORLD_CONC_H
#include "cells.h"
#include "array/ein_reduce.h"
#include "array/z_order.h"
#include <memory>

namespace conc {
using namespace life;
static const uint32_t P12 = pm(12);

enum Kind { C_READ, C_QUERY, C_CROP, C_TRANSPOSE, C_SLICE, C_REINTERPRET, C_VALUES, C_INDICES, C_ZORDER, C_EQUAL, C_EQOP, C_SPLIT, C_SHAPES,
  C_COPYCTOR, C_MAKECOPY, C_COMPACT, C_COPYTO, C_ASSIGNFROM, C_REDUCE, C_SUM, C_VIEWCOPY, C_IMAGE,
  O_ASSIGN, O_FILL, O_RESHAPE, O_SWAP, O_MOVE, O_CLEAR, O_TRANSFORM, O_NEW, O_COUNT };
static const char* const kind_name[O_COUNT] = {"element reads", "queries", "crop", "transpose", "slice", "reinterpret_shape", "for_each_value", "for_each_index", "z-order", "equal", "==",
  "split", "shape operations", "copy construction", "make_copy", "make_compact_copy", "copy into own", "copy assignment", "ein_reduce", "make_ein_sum", "copy of a shared view", "image views",
  "assign", "fill", "reshape", "swap", "move", "clear", "transform", "construction"};
inline bool on_shared(int k) { return k < O_ASSIGN; }

// Image crops have the type of the image: its bounds must not be constants.
template <class S> constexpr bool croppable() {
  if constexpr (S::rank() < 2) return false;
  else {
    using D0 = typename std::tuple_element<0, typename S::dims_type>::type;
    using D1 = typename std::tuple_element<1, typename S::dims_type>::type;
    return !is_static(D0::Min) && !is_static(D0::Extent) && !is_static(D1::Min) && !is_static(D1::Extent);
  }
}

template <class T, class Shape, class Other, class Alloc>
struct Conc {
  static constexpr size_t R = Shape::rank();
  static constexpr auto Seq = std::make_index_sequence<R>();
  using Arr = nda::array<T, Shape, Alloc>;
  using OArr = nda::array<T, Other, std::allocator<T>>;

  struct Model { std::vector<DimM> d; std::vector<int> v; index_t size() const { return size_of(d); } };
  template <class A> struct Slot { A* a = nullptr; void* mem = nullptr; Model m; };
  struct Side { Slot<Arr> own[2]; Slot<OArr> other; int stamp = 0; };

  Slot<Arr> shared[2];
  Slot<OArr> shared_other;
  std::unique_ptr<Cells<T>> cells;
  Place vp;                            // the shared view
  nda::array_ref<T, Shape>* view = nullptr;
  Side side[4];

  template <class A> static void look(const Slot<A>& s, const char* what) {
    auto d = dims_of(s.a->shape());
    bool ok = d.size() == s.m.d.size();
    if (s.m.size() == 0 && size_of(d) == 0) return;
    for (size_t i = 0; i < d.size(); i++) ok = ok && d[i].min == s.m.d[i].min && d[i].ext == s.m.d[i].ext;
    if (!ok) { anomaly(P12, "shape", "%s: an array does not have the shape it has alone", what); return; }
    for (index_t k = 0; k < s.m.size(); k++) {
      int v = Elem<T>::peek(s.a->base() + offset_of(d, k));
      if (v != s.m.v[(size_t)k]) anomaly(P12, "value", "%s: element %lld is %d, expected %d", what, (long long)k, v, s.m.v[(size_t)k]);
    }
  }
  template <class A> static void destroy(Slot<A>& s) {
    if (!s.a) return;
    clear_plan();
    { InLib l; s.a->~A(); }
    block_free(s.mem, 1, 0, B_OBJECT, true);
    s.a = nullptr;
  }
  template <class A> static void create(Slot<A>& s) {
    s.mem = block_alloc(sizeof(A), 1, 0, B_OBJECT, 64);
    clear_plan();
    { InLib l; s.a = new (s.mem) A(); }
    s.m.d = dims_of(s.a->shape());
    s.m.v.assign((size_t)s.m.size(), Elem<T>::dflt);
  }
  // A shape whose automatic strides are the library's business.
  template <class S> static S draw(Rng& r, Model& m, int first) {
    S s = gen_shape<S>(r, true);
    S t = s; t.resolve();
    m.d = dims_of(t);
    m.v.clear();
    for (index_t k = 0; k < m.size(); k++) m.v.push_back(first + (int)k);
    return s;
  }
  template <class A, class S> static void build(Slot<A>& s, Rng& r, int first) {
    S sh = draw<S>(r, s.m, first);
    s.mem = block_alloc(sizeof(A), 1, 0, B_OBJECT, 64);
    clear_plan();
    { InLib l; s.a = new (s.mem) A(sh, T(0)); }
    auto d = dims_of(s.a->shape());
    for (index_t k = 0; k < s.m.size(); k++) s.a->base()[offset_of(d, k)] = T(s.m.v[(size_t)k]);
  }

  template <class F> int call(const Op& op, F&& f) { return lib_call(op, true, P12, kind_name[op.kind], f); }
  template <size_t... Is> static auto crop_args(const std::vector<DimM>& d, std::index_sequence<Is...>) { return std::make_tuple(nda::interval<>(d[Is].min, d[Is].ext)...); }

  // ---------------------------------------------------------------- const uses of a shared array
  template <class V> static void const_view(const char* what) {
    if (!std::is_const<std::remove_reference_t<typename V::reference>>::value) { InHarness h; anomaly(P12, "writable-view", "%s: a view made of a const array gives write access to its elements", what); }
  }
  template <class A> void use(const Op& op, Rng& r, const Slot<A>& sl, Side& me) {
    const A& a = *sl.a;
    const Model& m = sl.m;
    const char* what = kind_name[op.kind];
    using S = typename A::shape_type;
    index_t n = m.size();
    auto bad = [&](const char* cls, int got, int want) { InHarness h; anomaly(P12, cls, "%s of a shared array gives %d, expected %d", what, got, want); };
    auto expect = [&](int got, int want) { if (got != want) bad("value", got, want); };
    int base = n ? m.v[0] : 0;         // element k holds base + k
    switch (op.kind) {
    case C_READ: {
      if (!n) break;
      for (int t = 0; t < 4; t++) {
        index_t k = r.below(n);
        auto ix = index_of<S>(m.d, k);
        int got = 0;
        int rc = call(op, [&] {
          const T* e = t == 0 ? &a[ix] : t == 1 ? &a.cref()[ix] : t == 2 ? &a.ref()[ix] : &std::apply([&](auto... is) -> const T& { return a(is...); }, ix);
          InHarness h;
          got = Elem<T>::peek(e);
        });
        if (!rc) expect(got, base + (int)k);
      }
      break;
    }
    case C_QUERY: {
      index_t sz = -1; bool empty = false, compact = false, one = false, in = false; index_t lo = 0, hi = 0; const char* wrong = nullptr;
      std::vector<DimM> sd = dims_of(a.shape()); const T* b = nullptr; const T* dt = nullptr;
      call(op, [&] {
        sz = (index_t)a.size(); empty = a.empty(); compact = a.is_compact(); b = a.base(); dt = a.data();
        const S& s = a.shape();
        one = s.is_one_to_one(); lo = s.flat_min(); hi = s.flat_max(); in = s.flat_extent() == hi - lo + 1;
        (void)a.get_allocator();
        wrong = wrong_accessor(a, sd);
        if (!wrong) wrong = wrong_accessor(a.cref(), sd);
      });
      expect((int)sz, (int)n); expect(empty, n == 0);
      if (wrong) { InHarness h; anomaly(P12, "value", "%s of a shared array contradicts its shape", wrong); }
      if (n) { expect((int)(b + lo - dt), 0); expect(in, 1); expect(compact, hi - lo + 1 == n); }
      (void)one;
      break;
    }
    case C_CROP: {
      if (!n) break;
      std::vector<DimM> c = m.d;
      if (r.chance(2, 3)) for (auto& x : c) { index_t o = r.below(x.ext); x.min += o; x.ext = r.range(1, x.ext - o); }
      index_t k = r.below(size_of(c));
      auto ix = index_of<S>(c, k);
      auto args = crop_args(c, std::make_index_sequence<S::rank()>());
      int got = 0; index_t sz = 0;
      if constexpr (S::rank() > 0) {
        int rc = call(op, [&] {
          auto v = k & 1 ? std::apply([&](auto... is) { return a(is...); }, args) : a[args];
          const_view<decltype(v)>(what);
          const T* e = std::apply([&](auto... is) { return &v(is...); }, ix);
          sz = (index_t)v.size();
          InHarness h; got = Elem<T>::peek(e);
        });
        if (!rc) { expect(got, m.v[(size_t)locate(c, k, m.d)]); expect((int)sz, (int)size_of(c)); }
      }
      break;
    }
    case C_TRANSPOSE: {
      if (!n) break;
      if constexpr (S::rank() >= 2) {
        index_t k = r.below(n);
        auto ix = index_of<S>(m.d, k);
        int got = 0;
        int rc = call(op, [&] {
          const T* e;
          if constexpr (S::rank() == 2) { auto v = nda::transpose<1, 0>(a.cref()); e = &v(std::get<1>(ix), std::get<0>(ix)); }
          else if constexpr (S::rank() == 3) { auto v = nda::reorder<2, 0, 1>(a.cref()); e = &v(std::get<2>(ix), std::get<0>(ix), std::get<1>(ix)); }
          else { auto v = nda::transpose<3, 1, 0, 2>(a.cref()); e = &v(std::get<3>(ix), std::get<1>(ix), std::get<0>(ix), std::get<2>(ix)); }
          InHarness h; got = Elem<T>::peek(e);
        });
        if (!rc) expect(got, base + (int)k);
      }
      break;
    }
    case C_SLICE: {
      if (!n) break;
      if constexpr (S::rank() >= 2) {
        index_t k = r.below(n);
        auto ix = index_of<S>(m.d, k);
        int got = 0;
        int rc = call(op, [&] {
          const T* e;
          if constexpr (S::rank() == 2) { auto v = a(nda::_, std::get<1>(ix)); const_view<decltype(v)>(what); e = &v(std::get<0>(ix)); }
          else if constexpr (S::rank() == 3) { auto v = a(nda::_, std::get<1>(ix), nda::_); const_view<decltype(v)>(what); auto w = v(nda::_, std::get<2>(ix)); e = &w(std::get<0>(ix)); }
          else { auto v = a(nda::_, std::get<1>(ix), nda::_, std::get<3>(ix)); const_view<decltype(v)>(what); auto w = v(std::get<0>(ix), nda::_); e = &w(std::get<2>(ix)); }
          InHarness h; got = Elem<T>::peek(e);
        });
        if (!rc) expect(got, base + (int)k);
      }
      break;
    }
    case C_REINTERPRET: {
      if (!n) break;
      auto d = dims_of(a.shape());
      index_t k = r.below(n), off = offset_of(d, k);
      int got = 0;
      int rc = call(op, [&] {
        auto v = nda::reinterpret_shape(a.cref(), nda::shape<>(), off);
        const T* e = &v();
        InHarness h; got = Elem<T>::peek(e);
      });
      if (!rc) expect(got, base + (int)k);
      break;
    }
    case C_VALUES: {
      index_t cnt = 0; int64_t sum = 0;
      int rc = call(op, [&] { a.for_each_value([&](const T& e) { CallFaultPoint::point(); InHarness h; cnt++; sum += Elem<T>::peek(&e); }); });
      if (!rc) { int64_t w = 0; for (int x : m.v) w += x; expect((int)cnt, (int)n); expect((int)sum, (int)w); }
      break;
    }
    case C_INDICES: {
      index_t k = 0;
      int rc = call(op, [&] {
        nda::for_each_index_in_order(a.shape(), [&](const typename S::index_type& i) {
          CallFaultPoint::point();
          const T* e = &a[i];
          InHarness h;
          if (k < n && Elem<T>::peek(e) != base + (int)k) bad("value", Elem<T>::peek(e), base + (int)k);
          k++;
        });
      });
      if (!rc) expect((int)k, (int)n);
      break;
    }
    case C_ZORDER: {
      index_t cnt = 0; int64_t sum = 0;
      if constexpr (S::rank() == 2 || S::rank() == 3) {
        if (!n) break;
        auto dim_of = [&](size_t i) { return nda::dim<>(m.d[i].min, m.d[i].ext); };
        int rc = call(op, [&] {
          auto f = [&](auto... is) { CallFaultPoint::point(); const T* e = &a(is...); InHarness h; cnt++; sum += Elem<T>::peek(e); };
          if constexpr (S::rank() == 2) nda::for_all_in_z_order(std::make_tuple(dim_of(0), dim_of(1)), f);
          else nda::for_all_in_z_order(std::make_tuple(dim_of(0), dim_of(1), dim_of(2)), f);
        });
        if (!rc) { int64_t w = 0; for (int x : m.v) w += x; expect((int)cnt, (int)n); expect((int)sum, (int)w); }
      }
      break;
    }
    case C_EQUAL: {
      bool e = false, f = true, g = false;
      const OArr& o = *shared_other.a;
      int rc = call(op, [&] { e = nda::equal(a, a.cref()); f = nda::equal(o, a); g = nda::equal(a, *shared[1 - (&sl == (const void*)&shared[1])].a); });
      if (!rc) {
        const Model& m2 = shared_other.m;
        bool w = &m == (const Model*)&m2;
        expect(e, 1);
        bool same = m.d.size() == m2.d.size();
        for (size_t i = 0; same && i < m.d.size(); i++) same = m.d[i].min == m2.d[i].min && m.d[i].ext == m2.d[i].ext;
        expect(f, w || (same && m.v == m2.v));
      }
      (void)g;
      break;
    }
    case C_EQOP: {
      if (!n) break;
      bool e = false, ne = true, view = r.chance(1, 2);
      int rc = call(op, [&] {
        if (view) { e = a.cref() == a.ref(); ne = a.cref() != a.ref(); }
        else { e = a == a; ne = a != a; }
      });
      if (!rc) { expect(e, 1); expect(ne, 0); }
      break;
    }
    case C_SPLIT: {
      if constexpr (S::rank() >= 1) {
        index_t cnt = 0, tiles = 0, f = r.range(1, 4);
        int rc = call(op, [&] {
          for (auto t : nda::split(std::get<0>(a.shape().dims()), f)) { tiles++; for (index_t i : t) { (void)i; cnt++; } }
        });
        if (!rc) { expect((int)cnt, (int)m.d[0].ext); expect((int)tiles, (int)((m.d[0].ext + f - 1) / f)); }
      }
      break;
    }
    case C_SHAPES: {
      index_t sz = 0, lo = 0; bool compact = false, in = false; index_t fo = 0;
      index_t k = n ? r.below(n) : 0;
      auto ix = n ? index_of<S>(m.d, k) : typename S::index_type();
      int rc = call(op, [&] {
        S s = a.shape();
        auto c = nda::make_compact(s);
        c.resolve();
        sz = (index_t)c.size(); compact = c.is_compact();
        if (n) { in = s.is_in_range(ix); fo = s[ix] - a.shape()[ix]; }
        S t; t = s; lo = (index_t)t.size();
      });
      if (!rc) { expect((int)sz, (int)n); expect((int)lo, (int)n); if (n) { expect(compact, 1); expect(in, 1); expect((int)fo, 0); } }
      break;
    }
    case C_COPYCTOR: {
      call(op, [&] { A c(a); InHarness h; Slot<A> t; t.a = &c; t.m = m; look(t, what); });
      break;
    }
    case C_MAKECOPY: {
      int which = (int)r.below(3);
      call(op, [&] {
        if (which == 0) { auto c = nda::make_copy(a); InHarness h; Slot<decltype(c)> t; t.a = &c; t.m = m; look(t, what); }
        else if (which == 1) { auto c = nda::make_copy(a, a.shape()); InHarness h; Slot<decltype(c)> t; t.a = &c; t.m = m; look(t, what); }
        else { auto c = nda::make_copy(a.cref()); InHarness h; Slot<decltype(c)> t; t.a = &c; t.m = m; look(t, what); }
      });
      break;
    }
    case C_COMPACT: {
      call(op, [&] { auto c = nda::make_compact_copy(a); InHarness h; Slot<decltype(c)> t; t.a = &c; t.m = m; look(t, what); });
      break;
    }
    case C_ASSIGNFROM: {
      if constexpr (std::is_same<A, Arr>::value) {
        auto& o = me.own[r.below(2)];
        int rc = call(op, [&] { *o.a = a; });
        if (!rc) { o.m = m; look(o, what); } else reset(o);
      }
      break;
    }
    case C_COPYTO: {
      // Own array of the shape of the shared one, filled from it.
      if constexpr (std::is_same<A, Arr>::value) {
        auto& o = me.own[r.below(2)];
        int rc = call(op, [&] { o.a->assign(a.shape(), T(7)); nda::copy(a, *o.a); });
        if (!rc) { o.m = m; look(o, what); } else reset(o);
      }
      break;
    }
    case C_REDUCE: {
      // Sums of the elements into storage of the task.
      if constexpr (S::rank() >= 1 && S::rank() <= 4) {
        int64_t w = 0;
        for (int x : m.v) w += x;
        int got = 0;
        int rc = call(op, [&] {
          T sum(0);
          if constexpr (S::rank() == 1) nda::ein_reduce(nda::ein(sum) += nda::ein<0>(a));
          else if constexpr (S::rank() == 2) nda::ein_reduce(nda::ein(sum) += nda::ein<1, 0>(a));
          else if constexpr (S::rank() == 3) nda::ein_reduce(nda::ein(sum) += nda::ein<2, 0, 1>(a));
          else nda::ein_reduce(nda::ein(sum) += nda::ein<2, 0, 3, 1>(a));
          InHarness h; got = Elem<T>::peek(&sum);
        });
        if (!rc) expect(got, (int)w);
      }
      break;
    }
    case C_SUM: {
      if constexpr (S::rank() == 2) {
        std::vector<int> w((size_t)m.d[0].ext, Elem<T>::dflt);
        for (index_t k = 0; k < n; k++) w[(size_t)(k % m.d[0].ext)] += m.v[(size_t)k];
        call(op, [&] {
          auto s = nda::make_ein_sum<T, 0>(nda::ein<0, 1>(a));
          InHarness h;
          auto d = dims_of(s.shape());
          expect((int)d[0].ext, (int)m.d[0].ext); expect((int)d[0].min, (int)m.d[0].min);
          for (index_t k = 0; k < m.d[0].ext; k++) expect(Elem<T>::peek(s.base() + k * d[0].stride), w[(size_t)k]);
        });
      }
      break;
    }
    case C_VIEWCOPY: {
      // The shared view itself is copied and read through.
      index_t vn = vp.size();
      if (!vn) break;
      index_t k = r.below(vn);
      auto ix = index_of<Shape>(vp.d, k);
      int got = 0;
      int rc = call(op, [&] {
        const nda::array_ref<T, Shape>& sv = *view;
        nda::const_array_ref<T, Shape> c = sv;
        nda::array_ref<T, Shape> d(sv);
        const T* e = k & 1 ? &c[ix] : &d[ix];
        InHarness h; got = Elem<T>::peek(e);
      });
      if (!rc) expect(got, cells->m[(size_t)vp.cell(k)]);
      break;
    }
    case C_IMAGE: {
      if constexpr (S::rank() == 3) {
        if (!n) break;
        index_t k = r.below(n);
        auto ix = index_of<S>(m.d, k);
        int got = 0;
        int rc = call(op, [&] {
          const T* e = nullptr;
          if (k & 1 || !croppable<S>()) {
            auto v = k & 2 ? nda::slice_channel(a.cref(), std::get<2>(ix)) : nda::slice_channel(a, std::get<2>(ix));
            const_view<decltype(v)>(what);
            e = &v(std::get<0>(ix), std::get<1>(ix));
          } else if constexpr (croppable<S>()) {
            // Cropped well beyond its bounds: all of it.
            auto v = nda::crop(a.cref(), m.d[0].min - 3, m.d[1].min - 2, m.d[0].min + m.d[0].ext + 4, m.d[1].min + m.d[1].ext + 1);
            const_view<decltype(v)>(what);
            e = &v(std::get<0>(ix), std::get<1>(ix), std::get<2>(ix));
          }
          InHarness h; got = Elem<T>::peek(e);
        });
        if (!rc) expect(got, base + (int)k);
      }
      break;
    }
    default: break;
    }
  }

  template <class A> static void reset(Slot<A>& s) { destroy(s); create(s); PROBE("conc:own-rebuilt"); }

  // ---------------------------------------------------------------- own arrays
  void own(const Op& op, Rng& r, Side& me) {
    const char* what = kind_name[op.kind];
    auto& o = me.own[r.below(2)];
    auto& q = &o == &me.own[0] ? me.own[1] : me.own[0];
    int v = 40000 + op.task * 10000 + (me.stamp++) * 100;
    switch (op.kind) {
    case O_ASSIGN: {
      Model m;
      Shape sh = draw<Shape>(r, m, v);
      std::fill(m.v.begin(), m.v.end(), v);
      int rc = call(op, [&] { o.a->assign(sh, T(v)); });
      if (!rc) { o.m = m; look(o, what); } else reset(o);
      break;
    }
    case O_FILL: {
      int rc = call(op, [&] { nda::fill(*o.a, T(v)); });
      if (!rc) { std::fill(o.m.v.begin(), o.m.v.end(), v); look(o, what); } else reset(o);
      break;
    }
    case O_RESHAPE: {
      Model m;
      Shape sh = draw<Shape>(r, m, 0);
      for (index_t k = 0; k < m.size(); k++) { index_t f = o.m.size() ? locate(m.d, k, o.m.d) : -1; m.v[(size_t)k] = f < 0 ? Elem<T>::dflt : o.m.v[(size_t)f]; }
      int rc = call(op, [&] { o.a->reshape(sh); });
      if (!rc) { o.m = m; look(o, what); } else reset(o);
      break;
    }
    case O_SWAP: {
      int rc = call(op, [&] { using std::swap; o.a->swap(*q.a); });
      if (!rc) { std::swap(o.m, q.m); look(o, what); look(q, what); } else { reset(o); reset(q); }
      break;
    }
    case O_MOVE: {
      Model m = q.m;
      int rc = call(op, [&] { *o.a = std::move(*q.a); });
      if (!rc) { o.m = m; look(o, what); }
      else reset(o);
      reset(q);
      break;
    }
    case O_CLEAR: {
      int rc = call(op, [&] { o.a->clear(); });
      if (!rc) { reset(o); } else reset(o);
      break;
    }
    case O_TRANSFORM: {
      int rc = call(op, [&] { o.a->for_each_value([&](T& e) { CallFaultPoint::point(); int x; { InHarness h; x = Elem<T>::peek(&e); } e = T(x == v ? v : v + 1); }); });
      if (!rc) { for (auto& x : o.m.v) x = v + 1; look(o, what); } else reset(o);
      break;
    }
    case O_NEW: {
      destroy(o);
      Model m;
      Shape sh = draw<Shape>(r, m, v);
      std::fill(m.v.begin(), m.v.end(), v);
      o.mem = block_alloc(sizeof(Arr), 1, 0, B_OBJECT, 64);
      bool made = false;
      int rc = call(op, [&] { o.a = new (o.mem) Arr(sh, T(v)); made = true; });
      (void)made;
      if (rc) { o.a = nullptr; block_free(o.mem, 1, 0, B_OBJECT, true); create(o); }
      else { o.m = m; look(o, what); }
      break;
    }
    default: break;
    }
  }

  static void gen(Rng& r, Program& p, int prop) {
    (void)prop;
    int tasks = (int)r.range(2, 4);
    p.knob = {(int64_t)r.below(1 << 24), tasks};
    p.sched_period = (int)(r.chance(1, 2) ? r.range(1, 6) : r.range(5, 80));
    int nops = (int)r.range(tasks, 3 * tasks);
    bool focus = r.chance(1, 3);       // all tasks at the same kind of operation
    int fk = (int)r.below(O_COUNT);
    for (int i = 0; i < nops; i++) {
      Op o;
      o.task = i < tasks ? i : (int)r.below(tasks);
      o.kind = focus && r.chance(2, 3) ? fk : (int)r.below(O_COUNT);
      o.a = {(int64_t)r.below(1 << 20), r.below(3)};
      if (r.chance(1, 4)) {
        static const int ks[] = {F_ALLOC, F_CTOR, F_ASSIGN, F_CMP, F_CALL};
        o.fkind = ks[r.below(5)];
        o.fat = 1 + (int)(o.fkind == F_ALLOC ? r.below(2) : r.below(12));
        o.fpersist = r.chance(1, 5);
      }
      p.ops.push_back(o);
    }
  }

  static void run(const Program& p) {
    {
      Conc w;
      g_default_id = 3;
      if (std::is_same<Alloc, std::allocator<T>>::value) g_default_id = HEAP_ID;
      Rng r(p.k(0) + 17);
      int nt = std::max<int>(2, (int)p.k(1));
      build<Arr, Shape>(w.shared[0], r, 1000);
      build<Arr, Shape>(w.shared[1], r, 2000);
      build<OArr, Other>(w.shared_other, r, 3000);
      w.cells.reset(new Cells<T>(160, 5000));
      {
        std::vector<DimM> d;
        bool ok = false;
        for (int t = 0; t < 12 && !ok; t++) ok = draw_bounds<Shape>(r, d, nullptr, true) && draw_strides<Shape>(r, d, true) && place_in(r, d, 160, w.vp);
        if (!ok) { d.clear(); for (size_t i = 0; i < R; i++) d.push_back({0, 0, 1}); w.vp.d = d; w.vp.base = 0; }
      }
      void* vm = block_alloc(sizeof(nda::array_ref<T, Shape>), 1, 0, B_OBJECT, 64);
      if (w.vp.size()) { InLib l; w.view = new (vm) nda::array_ref<T, Shape>(w.cells->p + w.vp.base, to_shape<Shape>(w.vp.d)); }
      for (int t = 0; t < nt; t++) for (auto& o : w.side[t].own) create(o);
      if (g_verbose)
        for (const Op& op : p.ops) trace("task %d: %s on %d fault=%s@%d%s\n", op.task, kind_name[op.kind], (int)op.arg(1), fault_name[op.fkind], op.fat, op.fpersist ? "+" : "");
      set_step_cap(8000000, P12);
      run_tasks(nt, p, [&](int t) {
        for (const Op& op : p.ops) {
          if (op.task != t) continue;
          Rng q(mix(p.k(0), op.arg(0)));
          state_sig(mix(op.kind, mix(op.arg(1), op.fkind)));
          if (!on_shared(op.kind)) w.own(op, q, w.side[t]);
          else if (op.arg(1) % 3 == 2) w.use(op, q, w.shared_other, w.side[t]);
          else w.use(op, q, w.shared[op.arg(1) % 3], w.side[t]);
        }
      });
      clear_plan();
      for (auto& s : w.shared) look(s, "after all tasks: shared array");
      look(w.shared_other, "after all tasks: shared array");
      for (size_t i = 0; i < w.cells->m.size(); i++) if (w.cells->at((index_t)i) != w.cells->m[i]) anomaly(P12, "cell", "a const operation changed shared storage");
      for (int t = 0; t < nt; t++) for (auto& o : w.side[t].own) { look(o, "after all tasks: own array"); destroy(o); }
      for (auto& s : w.shared) destroy(s);
      destroy(w.shared_other);
      block_free(vm, 1, 0, B_OBJECT, true);
    }
    set_step_cap(0, 0);
    if (live_blocks(B_ALLOC)) anomaly(P12 | pm(1), "leak", "%zu blocks still allocated", live_blocks(B_ALLOC));
    if (elems_alive_total()) anomaly(P12 | pm(2), "leaked-elements", "%zu elements still constructed", elems_alive_total());
  }
};
} // namespace conc
#endif
