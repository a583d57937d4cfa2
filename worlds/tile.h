// World "tile": tasks that write disjoint parts of one array, taken as tiles of
// split, crops, slices, transposed and channel views, interleaved at single
// memory accesses, with tiles that fail part way and are done again. Property C13.
#ifndef WORLD_TILE_H
#define WORLD_TILE_H
#include "cells.h"
#include "array/ein_reduce.h"
#include <memory>

namespace tile {
using namespace life;
static const uint32_t P13 = pm(13);

enum Partition { P_SPLIT0, P_SPLIT1, P_GRID, P_STATIC, P_SLICE, P_SLICE0, P_TSPLIT, P_CHANNEL, P_CROP, P_ROWS, P_COUNT };
static const char* const part_name[P_COUNT] = {"split of the first dim", "split of the second dim", "grid of splits", "split by a constant", "slices of the last dim",
  "slices of the first dim", "split of a transposed view", "channels", "image crops", "rows of a crop"};
enum Method { T_FILL, T_GENERATE, T_TRANSFORM, T_COPY, T_FOREACH, T_EIN, T_EINSUM, T_NEST, T_ELEMS, T_EQUAL, T_COUNT };
static const char* const method_name[T_COUNT] = {"fill", "generate", "transform_index", "copy", "for_each_value", "ein_reduce =", "fill and ein_reduce +=", "nested tiles", "element writes", "equal"};

// A part: per dim of the array a range, and which dims the view has in order.
struct Piece {
  std::vector<DimM> sub;
  std::vector<int> order;
  int owner = 0;
  index_t a = 0, b = 0;                // which tile, slice
  // Position in the array (dims d) of element k of the view.
  index_t pos(const std::vector<DimM>& d, index_t k) const {
    std::vector<index_t> ix(d.size());
    for (size_t i = 0; i < d.size(); i++) ix[i] = sub[i].min;
    for (int o : order) { ix[(size_t)o] += k % sub[(size_t)o].ext; k /= sub[(size_t)o].ext; }
    index_t p = 0, mul = 1;
    for (size_t i = 0; i < d.size(); i++) { p += (ix[i] - d[i].min) * mul; mul *= d[i].ext; }
    return p;
  }
  index_t size() const { index_t n = 1; for (int o : order) n *= sub[(size_t)o].ext; return n; }
};

template <class S> constexpr bool croppable() {
  if constexpr (S::rank() < 2) return false;
  else {
    using D0 = typename std::tuple_element<0, typename S::dims_type>::type;
    using D1 = typename std::tuple_element<1, typename S::dims_type>::type;
    return !is_static(D0::Min) && !is_static(D0::Extent) && !is_static(D1::Min) && !is_static(D1::Extent);
  }
}

template <class T, class Shape, class Src>
struct Tile {
  static constexpr size_t R = Shape::rank();
  using Arr = nda::array<T, Shape>;
  using SArr = nda::array<T, Src>;

  bool owning = false;
  Arr* arr = nullptr; void* mem = nullptr;
  std::unique_ptr<Cells<T>> cells;
  nda::array_ref<T, Shape>* ref = nullptr; void* refmem = nullptr;
  Place pl;
  SArr* src = nullptr; void* srcmem = nullptr;
  std::vector<int> want;               // per element of the array
  std::vector<Piece> pieces;
  int part = 0;
  index_t f = 1, g = 1;
  Piece region;                        // for P_ROWS, P_CROP

  T* elem(index_t k) const { return (owning ? arr->base() : cells->p + pl.base) + offset_of(pl.d, k); }
  static int src_value(index_t k) { return 30000 + (int)k; }

  // ---------------------------------------------------------------- partitions
  static std::vector<DimM> split_model(const DimM& d, index_t f) {
    std::vector<DimM> v;
    for (index_t o = 0; o < d.ext; o += f) v.push_back({d.min + o, std::min(f, d.ext - o), 0});
    return v;
  }
  static std::vector<DimM> split_static(const DimM& d, index_t f) {
    std::vector<DimM> v;
    for (index_t o = 0; o < d.ext; o += f) v.push_back({d.min + std::min(o, d.ext - f), f, 0});
    return v;
  }
  bool make_pieces(Rng& r, int nt) {
    const auto& d = pl.d;
    for (auto& x : d) if (x.ext < 1) return false;
    std::vector<int> all;
    for (size_t i = 0; i < R; i++) all.push_back((int)i);
    auto add = [&](std::vector<DimM> sub, std::vector<int> order, index_t a, index_t b) { Piece p; p.sub = sub; p.order = order; p.a = a; p.b = b; p.owner = (int)(pieces.size() % (size_t)nt); pieces.push_back(p); };
    auto with = [&](size_t i, const DimM& x) { auto s = d; s[i].min = x.min; s[i].ext = x.ext; return s; };
    switch (part) {
    case P_SPLIT0: {
      f = r.range(1, d[0].ext);
      index_t j = 0;
      for (auto& t : split_model(d[0], f)) add(with(0, t), all, j++, 0);
      break;
    }
    case P_SPLIT1: {
      if (R < 2) return false;
      f = r.range(1, d[1 % R].ext);
      index_t j = 0;
      for (auto& t : split_model(d[1 % R], f)) add(with(1 % R, t), all, j++, 0);
      break;
    }
    case P_GRID: {
      if (R < 2) return false;
      f = r.range(1, d[0].ext); g = r.range(1, d[1 % R].ext);
      index_t j = 0;
      for (auto& t : split_model(d[0], f)) {
        index_t k = 0;
        for (auto& u : split_model(d[1 % R], g)) { auto s = with(0, t); s[1 % R].min = u.min; s[1 % R].ext = u.ext; add(s, all, j, k++); }
        j++;
      }
      break;
    }
    case P_STATIC: {
      f = d[0].ext >= 3 && r.chance(1, 2) ? 3 : 2;
      if (d[0].ext < f) return false;
      using D0 = typename std::tuple_element<0, typename Shape::dims_type>::type;
      (void)sizeof(D0);
      index_t j = 0;
      for (auto& t : split_static(d[0], f)) add(with(0, t), all, j++, 0);
      size_t n = pieces.size();
      if (n >= 2) pieces[n - 1].owner = pieces[n - 2].owner;
      break;
    }
    case P_SLICE: case P_CHANNEL: {
      if (R < 2 || (part == P_CHANNEL && R != 3)) return false;
      auto order = all; order.pop_back();
      for (index_t i = 0; i < d[R - 1].ext; i++) add(with(R - 1, {d[R - 1].min + i, 1, 0}), order, d[R - 1].min + i, 0);
      break;
    }
    case P_SLICE0: {
      if (R < 2) return false;
      std::vector<int> order(all.begin() + 1, all.end());
      for (index_t i = 0; i < d[0].ext; i++) add(with(0, {d[0].min + i, 1, 0}), order, d[0].min + i, 0);
      break;
    }
    case P_TSPLIT: {
      if (R < 2) return false;
      auto order = R == 2 ? std::vector<int>{1, 0} : std::vector<int>{1, 2, 0};
      f = r.range(1, d[1 % R].ext);
      index_t j = 0;
      for (auto& t : split_model(d[1 % R], f)) add(with(1 % R, t), order, j++, 0);
      break;
    }
    case P_CROP: {
      if (!croppable<Shape>() || R != 3) return false;
      f = r.range(1, d[0].ext);
      index_t j = 0;
      for (auto& t : split_model(d[0], f)) add(with(0, t), all, j++, 0);
      break;
    }
    case P_ROWS: {
      // A crop of both dims first; the rows of it are the parts.
      if (R < 2) return false;
      region.sub = d;
      for (size_t i = 0; i < R; i++) { index_t o = r.below(d[i].ext); region.sub[i].min += o; region.sub[i].ext = r.range(1, d[i].ext - o); }
      std::vector<int> order(all.begin(), all.end());
      order.erase(order.begin() + 1);
      for (index_t i = 0; i < region.sub[1 % R].ext; i++) { auto s = region.sub; s[1 % R] = {region.sub[1 % R].min + i, 1, 0}; add(s, order, s[1 % R].min, 0); }
      break;
    }
    }
    return !pieces.empty();
  }

  static void check_tile(const nda::interval<>& t, const DimM& want) {
    if (t.min() != want.min || t.extent() != want.ext) {
      InHarness h;
      anomaly(P13, "tile", "split gives the tile [%lld,+%lld), expected [%lld,+%lld)", (long long)t.min(), (long long)t.extent(), (long long)want.min, (long long)want.ext);
    }
  }
  // Calls fn with the view of the piece, made through the library from a.
  template <int K, int F0, class A, class F> void with_piece(const Piece& p, A& a, F&& fn) {
    const auto _ = nda::_;
    if constexpr (K == P_SPLIT0) {
      index_t j = 0, n = 0;
      for (auto t : nda::split(std::get<0>(a.shape().dims()), f)) {
        n++;
        if (j++ != p.a) continue;
        check_tile(t, p.sub[0]);
        if constexpr (R == 1) fn(a(t)); else if constexpr (R == 2) fn(a(t, _)); else fn(a(t, _, _));
      }
      if (n != (pl.d[0].ext + f - 1) / f) { InHarness h; anomaly(P13, "tile", "split gives %lld tiles", (long long)n); }
    }
    if constexpr (K == P_SPLIT1 && R >= 2) {
      index_t j = 0;
      for (auto t : nda::split(std::get<1>(a.shape().dims()), f)) {
        if (j++ != p.a) continue;
        check_tile(t, p.sub[1]);
        if constexpr (R == 2) fn(a(_, t)); else fn(a(_, t, _));
      }
    }
    if constexpr (K == P_GRID && R >= 2) {
      index_t j = 0;
      for (auto t : nda::split(std::get<0>(a.shape().dims()), f)) {
        if (j++ != p.a) continue;
        index_t k = 0;
        for (auto u : nda::split(std::get<1>(a.shape().dims()), g)) {
          if (k++ != p.b) continue;
          check_tile(t, p.sub[0]); check_tile(u, p.sub[1]);
          if constexpr (R == 2) fn(a(t, u)); else fn(a(t, u, _));
        }
      }
    }
    if constexpr (K == P_STATIC) {
      auto go = [&](auto tiles) {
        index_t j = 0;
        for (auto t : tiles) {
          if (j++ != p.a) continue;
          check_tile(t, p.sub[0]);
          if constexpr (R == 1) fn(a(t)); else if constexpr (R == 2) fn(a(t, _)); else fn(a(t, _, _));
        }
      };
      go(nda::split<F0>(std::get<0>(a.shape().dims())));
    }
    if constexpr (K == P_SLICE) { if constexpr (R == 2) fn(a(_, p.a)); else if constexpr (R == 3) fn(a(_, _, p.a)); }
    if constexpr (K == P_CHANNEL && R == 3) channel(p, a, fn);
    if constexpr (K == P_SLICE0) { if constexpr (R == 2) fn(a(p.a, _)); else if constexpr (R == 3) fn(a(p.a, _, _)); }
    if constexpr (K == P_TSPLIT && R >= 2) {
      auto v = transposed(view_of(a));
      index_t j = 0;
      for (auto t : nda::split(std::get<0>(v.shape().dims()), f)) {
        if (j++ != p.a) continue;
        check_tile(t, p.sub[1]);
        if constexpr (R == 2) fn(v(t, _)); else fn(v(t, _, _));
      }
    }
    if constexpr (K == P_CROP && R == 3 && croppable<Shape>() && croppable<Src>()) {
      const auto& x = p.sub[0]; const auto& y = p.sub[1];
      fn(crop_of(a, x.min, y.min, x.min + x.ext, y.min + y.ext));
    }
    if constexpr (K == P_ROWS && R >= 2) {
      auto iv = [&](size_t i) { return nda::interval<>(region.sub[i].min, region.sub[i].ext); };
      if constexpr (R == 2) { auto c = a(iv(0), iv(1)); fn(c(_, p.a)); }
      else { auto c = a(iv(0), iv(1), iv(2)); fn(c(_, p.a, _)); }
    }
  }
  static Arr& view_of(Arr& a) { return a; }      // views are also made straight from the array
  static auto view_of(const SArr& a) { return a.cref(); }
  template <class U, class S> static auto view_of(const nda::array_ref<U, S>& a) { return a; }
  template <class V> static auto transposed(V&& v) { if constexpr (R == 2) return nda::transpose<1, 0>(v); else return nda::transpose<1, 2, 0>(v); }
  template <class A, class F> static void channel(const Piece& p, A& a, F&& fn) { fn(nda::slice_channel(view_of(a), p.a)); }
  template <class A> static auto crop_of(A& a, index_t x0, index_t y0, index_t x1, index_t y1) { return nda::crop(view_of(a), x0, y0, x1, y1); }

  // Calls fn(target view, source view) for the piece.
  template <class F> void both(const Piece& p, F&& fn) {
    const auto cs = static_cast<const SArr*>(src)->cref();
    auto inner = [&](auto k, auto f0, auto& a) {
      constexpr int K = decltype(k)::value, F0 = decltype(f0)::value;
      with_piece<K, F0>(p, a, [&](auto v) { with_piece<K, F0>(p, cs, [&](auto s) { fn(v, s); }); });
    };
    auto of = [&](auto k, auto f0) { if (owning) inner(k, f0, *arr); else { nda::array_ref<T, Shape>& rr = *ref; inner(k, f0, rr); } };
    std::integral_constant<int, 2> two;
    std::integral_constant<int, 3> three;
    switch (part) {
#define PART(K) case K: of(std::integral_constant<int, K>(), two); break;
    PART(P_SPLIT0) PART(P_SPLIT1) PART(P_GRID) PART(P_SLICE) PART(P_SLICE0) PART(P_TSPLIT) PART(P_CHANNEL) PART(P_CROP) PART(P_ROWS)
#undef PART
    case P_STATIC: if (f == 2) of(std::integral_constant<int, P_STATIC>(), two); else of(std::integral_constant<int, P_STATIC>(), three); break;
    }
  }

  // ---------------------------------------------------------------- one tile, one method
  bool exec(const Op& op, const Piece& p, int val, bool faults) {
    char what[96];
    snprintf(what, sizeof what, "%s over %s", method_name[op.kind], part_name[part]);
    index_t n = p.size();
    std::vector<index_t> pos;
    std::vector<int> old, next;
    for (index_t k = 0; k < n; k++) { pos.push_back(p.pos(pl.d, k)); old.push_back(want[(size_t)pos.back()]); }
    next = old;
    for (index_t k = 0; k < n; k++) switch (op.kind) {
      case T_FILL: case T_GENERATE: case T_NEST: next[(size_t)k] = val; break;
      case T_TRANSFORM: case T_FOREACH: case T_ELEMS: next[(size_t)k] = val + (op.kind == T_FOREACH ? 1 : (int)pos[(size_t)k]); break;
      case T_COPY: case T_EIN: next[(size_t)k] = src_value(pos[(size_t)k]); break;
      case T_EINSUM: next[(size_t)k] = val + 2 * src_value(pos[(size_t)k]); break;
      default: break;
    }
    bool eq = false, ran = false;
    Op o = op;
    int rc = lib_call(o, faults, P13, what, [&] {
      both(p, [&](auto v, auto s) {
        using V = decltype(v);
        constexpr size_t VR = V::rank();
        constexpr size_t VS = VR;
        using IX = typename V::index_type;
        { InHarness h; ran = true; if ((index_t)v.size() != n) anomaly(P13, "part-size", "%s: the view has %lld elements, expected %lld", what, (long long)v.size(), (long long)n); }
        auto at = [&](const IX& i) { return rank_of(p, i, std::make_index_sequence<VR>()); };
        switch (op.kind) {
        case T_FILL: { TV(val, [&](const T& x) { nda::fill(v, x); }); break; }
        case T_GENERATE: nda::generate(v, [&]() -> T { CallFaultPoint::point(); return T(val); }); break;
        case T_TRANSFORM: nda::transform_index(v, [&](const IX& i) -> T { CallFaultPoint::point(); return T(val + (int)at(i)); }); break;
        case T_FOREACH: v.for_each_value([&](T& e) { CallFaultPoint::point(); e = T(val + 1); }); break;
        case T_COPY: nda::copy(s, v); break;
        case T_ELEMS: nda::for_each_index(v.shape(), [&](const IX& i) { v[i] = T(val + (int)at(i)); }); break;
        case T_EQUAL: eq = nda::equal(v, v); break;
        case T_EIN:
          if constexpr (VS == 1) nda::ein_reduce(nda::ein<0>(V(v)) = nda::ein<0>(s));
          else if constexpr (VS == 2) nda::ein_reduce(nda::ein<1, 0>(V(v)) = nda::ein<1, 0>(s));
          else if constexpr (VS == 3) nda::ein_reduce(nda::ein<0, 2, 1>(V(v)) = nda::ein<0, 2, 1>(s));
          break;
        case T_EINSUM:
          // Into the tile: val + the sum over a reduction dim of length 2.
          TV(val, [&](const T& x) { nda::fill(v, x); });
          { const T* two = twos();
          if constexpr (VS == 1) nda::ein_reduce(nda::ein<0>(V(v)) += nda::ein<0>(s) * nda::ein<1>(two, size_t(2)));
          else if constexpr (VS == 2) nda::ein_reduce(nda::ein<1, 0>(V(v)) += nda::ein<1, 0>(s) * nda::ein<2>(two, size_t(2)));
          else if constexpr (VS == 3) nda::ein_reduce(nda::ein<2, 1, 3>(V(v)) += nda::ein<2, 1, 3>(s) * nda::ein<0>(two, size_t(2)));
          }
          break;
        case T_NEST:
          TV(val, [&](const T& x) {
            if constexpr (VR == 1) { for (auto t : nda::split(std::get<0>(v.shape().dims()), 2)) nda::fill(v(t), x); }
            else if constexpr (VR == 2) { for (auto u : nda::split(std::get<1>(v.shape().dims()), 2)) for (auto t : nda::split(std::get<0>(v.shape().dims()), 3)) nda::fill(v(t, u), x); }
            else if constexpr (VR == 3) { for (auto u : nda::split(std::get<2>(v.shape().dims()), 1)) for (auto t : nda::split(std::get<0>(v.shape().dims()), 2)) nda::fill(v(t, nda::_, u), x); }
          });
          break;
        }
      });
    });
    if (!ran) anomaly(P13, "tile-missing", "%s: there is no such tile", what);
    if (!rc && op.kind == T_EQUAL && !eq) anomaly(P13, "value", "%s: a tile is not equal to itself", what);
    for (index_t k = 0; k < n; k++) {
      int now = Elem<T>::peek(elem(pos[(size_t)k]));
      // A failed reduction leaves a partial sum.
      bool partial = rc && op.kind == T_EINSUM;
      if (now != next[(size_t)k] && !(rc && now == old[(size_t)k]) && !partial)
        anomaly(P13, rc ? "torn-element" : "value", "%s: element %lld of the tile is %d, expected %d", what, (long long)k, now, next[(size_t)k]);
      want[(size_t)pos[(size_t)k]] = now;
    }
    return rc == 0;
  }
  template <class F> void TV(int v, F&& f) { T x(v); f(x); }
  std::unique_ptr<Cells<T>> one;
  const T* twos() const { return one->p; }
  template <class IX, size_t... Is> index_t rank_of(const Piece& p, const IX& i, std::index_sequence<Is...>) {
    InHarness h;
    index_t k = 0, mul = 1;
    bool in = true;
    ((in = in && std::get<Is>(i) >= p.sub[(size_t)p.order[Is]].min && std::get<Is>(i) < p.sub[(size_t)p.order[Is]].min + p.sub[(size_t)p.order[Is]].ext,
      k += (std::get<Is>(i) - p.sub[(size_t)p.order[Is]].min) * mul, mul *= p.sub[(size_t)p.order[Is]].ext), ...);
    (void)mul;
    if (!in) { anomaly(P13, "index-outside", "an index outside the part is written"); return 0; }
    return p.pos(pl.d, k);
  }

  static void gen(Rng& r, Program& p, int prop) {
    (void)prop;
    int tasks = (int)r.range(2, 4);
    p.knob = {(int64_t)r.below(1 << 24), tasks, r.below(P_COUNT), r.below(2)};
    p.sched_period = (int)(r.chance(1, 2) ? r.range(1, 6) : r.range(5, 80));
    int nops = (int)r.range(tasks, 3 * tasks);
    for (int i = 0; i < nops; i++) {
      Op o;
      o.task = 0;
      o.kind = (int)r.below(T_COUNT);
      o.a = {r.chance(1, 2) ? i : (int64_t)r.below(64), r.chance(1, 2)};
      if (r.chance(1, 3)) {
        switch (o.kind) {
        case T_EQUAL: o.fkind = F_CMP; break;
        case T_EIN: case T_EINSUM: { static const int ks[] = {F_ASSIGN, F_CTOR, F_CALL}; o.fkind = ks[r.below(3)]; break; }
        case T_GENERATE: case T_TRANSFORM: case T_FOREACH: o.fkind = r.chance(1, 2) ? F_CALL : F_ASSIGN; break;
        case T_ELEMS: o.fkind = r.chance(1, 2) ? F_CTOR : F_ASSIGN; break;
        default: o.fkind = F_ASSIGN;
        }
        o.fat = 1 + (int)r.below(10);
        o.fpersist = r.chance(1, 5);
      }
      p.ops.push_back(o);
    }
  }

  static void run(const Program& p) {
    {
      Tile w;
      g_default_id = HEAP_ID;
      Rng r(p.k(0) + 5);
      int nt = std::max<int>(2, (int)p.k(1));
      w.part = (int)p.k(2);
      w.owning = p.k(3) & 1;
      std::vector<DimM> d, sd;
      bool ok = false;
      for (int t = 0; t < 12 && !ok; t++) {
        // The source has the bounds of the target.
        ok = draw_bounds<Shape>(r, d, nullptr) && draw_strides<Shape>(r, d, false) && flat_ext(d) < 200;
        if (ok) {
          std::vector<DimK> k;
          dim_kinds<Src>(k, std::make_index_sequence<R>());
          for (size_t i = 0; i < R; i++) ok = ok && (!k[i].smin || k[i].min == d[i].min) && (!k[i].sext || k[i].ext == d[i].ext) && d[i].ext > 0;
        }
      }
      if (ok) {
        w.pl.d = d;
        clear_plan();
        sd = d;
        for (auto& x : sd) x.stride = nda::unresolved;
        if (w.owning) {
          w.mem = block_alloc(sizeof(Arr), 1, 0, B_OBJECT, 64);
          Shape sh = to_shape<Shape>(r.chance(1, 2) ? d : sd);
          { InLib l; w.arr = new (w.mem) Arr(sh, T(0)); }
          w.pl.d = dims_of(w.arr->shape());
          for (index_t k = 0; k < w.pl.size(); k++) { *w.elem(k) = T(1000 + (int)k); w.want.push_back(1000 + (int)k); }
        } else {
          w.cells.reset(new Cells<T>(260, 1000));
          place_in(r, d, 260, w.pl);
          w.refmem = block_alloc(sizeof(nda::array_ref<T, Shape>), 1, 0, B_OBJECT, 64);
          { InLib l; w.ref = new (w.refmem) nda::array_ref<T, Shape>(w.cells->p + w.pl.base, to_shape<Shape>(d)); }
          for (index_t k = 0; k < w.pl.size(); k++) w.want.push_back(w.cells->m[(size_t)w.pl.cell(k)]);
        }
        w.srcmem = block_alloc(sizeof(SArr), 1, 0, B_OBJECT, 64);
        Src ssh = to_shape<Src>(sd);
        { InLib l; w.src = new (w.srcmem) SArr(ssh, T(0)); }
        auto sdd = dims_of(w.src->shape());
        for (index_t k = 0; k < size_of(sdd); k++) w.src->base()[offset_of(sdd, k)] = T(src_value(k));
        w.one.reset(new Cells<T>(2, 1));
        w.one->set(0, 3); w.one->set(1, -1);
        if (w.make_pieces(r, nt)) {
          char nm[48]; snprintf(nm, sizeof nm, "tile:%s", part_name[w.part]); probe_hit(probe_id(nm));
          if (g_verbose) {
            trace("%s, %zu parts, %s:", part_name[w.part], w.pieces.size(), w.owning ? "array" : "cells");
            for (auto& x : w.pl.d) trace(" [%lld,+%lld)*%lld", (long long)x.min, (long long)x.ext, (long long)x.stride);
            trace("\n");
            for (const Op& op : p.ops) { auto& pc = w.pieces[(size_t)op.arg(0) % w.pieces.size()]; trace("  task %d: %s part %d fault=%s@%d%s\n", pc.owner, method_name[op.kind], (int)(op.arg(0) % (int64_t)w.pieces.size()), fault_name[op.fkind], op.fat, op.fpersist ? "+" : ""); }
          }
          uint64_t sig = mix(w.part, w.pieces.size());
          for (auto& x : w.pl.d) sig = mix(sig, (uint64_t)(x.ext * 64 + x.stride));
          set_step_cap(8000000, P13);
          run_tasks(nt, p, [&](int t) {
            std::vector<std::pair<const Op*, int>> later;
            int opno = 0;
            for (const Op& op : p.ops) {
              opno++;
              const Piece& pc = w.pieces[(size_t)op.arg(0) % w.pieces.size()];
              if (pc.owner != t) continue;
              int val = 100000 + opno * 1000;
              state_sig(mix(sig, mix(op.kind, (uint64_t)op.arg(0))));
              if (!w.exec(op, pc, val, true)) {
                PROBE("tile:interrupted");
                if (op.arg(1)) { later.push_back({&op, val}); continue; }
                if (!w.exec(op, pc, val, false)) anomaly(P13, "retry-failed", "a tile fails again although failures stopped");
              }
            }
            while (!later.empty()) {
              auto [op, val] = later.back();
              later.pop_back();
              PROBE("tile:redone-later");
              if (!w.exec(*op, w.pieces[(size_t)op->arg(0) % w.pieces.size()], val, false)) anomaly(P13, "retry-failed", "a tile fails again although failures stopped");
            }
          });
          clear_plan();
        }
        for (index_t k = 0; k < w.pl.size(); k++) {
          int v = Elem<T>::peek(w.elem(k));
          if (v != w.want[(size_t)k]) anomaly(P13, "value", "after all tasks element %lld is %d, expected %d", (long long)k, v, w.want[(size_t)k]);
        }
        if (w.cells) {
          std::vector<char> mine(w.cells->m.size(), 0);
          for (index_t c : w.pl.cells()) mine[(size_t)c] = 1;
          for (size_t i = 0; i < mine.size(); i++) if (!mine[i] && w.cells->at((index_t)i) != w.cells->m[i]) anomaly(P13, "cell", "a cell outside the array changed");
        }
        auto sdims = dims_of(w.src->shape());
        for (index_t k = 0; k < size_of(sdims); k++) if (Elem<T>::peek(w.src->base() + offset_of(sdims, k)) != src_value(k)) anomaly(P13, "cell", "the source changed");
        { InLib l; w.src->~SArr(); if (w.arr) w.arr->~Arr(); }
        block_free(w.srcmem, 1, 0, B_OBJECT, true);
        if (w.arr) block_free(w.mem, 1, 0, B_OBJECT, true);
        if (w.refmem) block_free(w.refmem, 1, 0, B_OBJECT, true);
      }
    }
    set_step_cap(0, 0);
    if (live_blocks(B_ALLOC)) anomaly(P13 | pm(1), "leak", "%zu blocks still allocated", live_blocks(B_ALLOC));
    if (elems_alive_total()) anomaly(P13 | pm(2), "leaked-elements", "%zu elements still constructed", elems_alive_total());
  }
};
} // namespace tile
#endif
