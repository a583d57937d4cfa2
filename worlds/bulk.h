// World "bulk": copy, move, fill, generate, transform and equal between views of
// caller-owned storage and owning arrays of every layout, interrupted at any
// element operation, with every cell watched. Property C10.
#ifndef WORLD_BULK_H
#define WORLD_BULK_H
#include "cells.h"
#include <functional>
#include <memory>

namespace bulk {
using namespace life;

enum Kind { B_COPY, B_MOVE, B_FILL, B_GENERATE, B_TINDEX, B_TINDICES, B_EQUAL, B_EQOP, B_MAKECOPY, B_MAKEMOVE, B_COMPACT, B_FOREACH, B_ASSIGNV, B_COUNT };
static const char* const kind_name[B_COUNT] = {"copy", "move", "fill", "generate", "transform_index", "transform_indices", "equal", "==",
  "make_copy", "make_move", "make_compact_copy", "for_each_value", "assign(shape,value)"};
static const uint32_t P10 = pm(10);

// Callbacks that are of one type whatever they do.
template <class T> struct Callback { std::function<T()>* b; T operator()() const { return (*b)(); } };
template <class T, class IX> struct IndexCallback { std::function<T(const IX&)>* b; T operator()(const IX& i) const { return (*b)(i); } };
template <class T, class IX> struct IndicesCallback { std::function<T(const IX&)>* b; template <class... Is> T operator()(Is... is) const { return (*b)(IX(is...)); } };
template <class T> struct ValueCallback { std::function<void(T&)>* b; void operator()(T& x) const { (*b)(x); } };

template <class TS, class SS, class TD, class SD>
struct Bulk {
  static constexpr size_t R = SD::rank();
  static_assert(SS::rank() == SD::rank(), "");
  using ArrS = nda::array<TS, SS>;
  using ArrD = nda::array<TD, SD>;

  // One operand: a placement in caller-owned cells, or an owning array.
  template <class T, class S> struct Side {
    Cells<T>* c = nullptr;
    Place p;
    S shape;
    nda::array<T, S>* a = nullptr;
    std::vector<int> own;              // expected elements of the owning array
    bool owning() const { return a != nullptr; }
    T* elem(index_t k) const { return owning() ? const_cast<T*>(a->base()) + offset_of(p.d, k) : c->p + p.cell(k); }
    int now(index_t k) const { return Elem<T>::peek(elem(k)); }
    int& want(index_t k) { return owning() ? own[(size_t)k] : c->m[(size_t)p.cell(k)]; }
    nda::array_ref<T, S> ref() const {
      if (owning()) return a->ref();
      return nda::array_ref<T, S>(c->p + p.base, shape);
    }
  };
  Side<TS, SS> src;
  Side<TD, SD> dst;
  std::vector<std::unique_ptr<Cells<TS>>> sc;
  std::vector<std::unique_ptr<Cells<TD>>> dc;
  void* smem = nullptr; void* dmem = nullptr;
  bool shared = false;                 // source and target may have elements in common
  int stamp = 1;

  template <class T, class S> void make_owning(Side<T, S>& s, void*& mem) {
    using A = nda::array<T, S>;
    mem = block_alloc(sizeof(A), 1, 0, B_OBJECT, 64);
    S sh = to_shape<S>(s.p.d);
    clear_plan();
    { MayAlloc may; InLib l; new (mem) A(sh); }
    s.a = (A*)mem;
    auto d = dims_of(s.a->shape());
    for (size_t i = 0; i < R; i++) s.p.d[i].stride = d[i].stride;
    s.own.clear();
    for (index_t k = 0; k < s.p.size(); k++) { int v = 500000 + stamp * 600 + (int)k; *s.elem(k) = T(v); s.own.push_back(Elem<T>::norm(v)); }
    stamp++;
  }
  template <class T, class S> void drop(Side<T, S>& s, void*& mem) {
    using A = nda::array<T, S>;
    if (!s.a) return;
    clear_plan();
    { InLib l; s.a->~A(); }
    block_free(mem, 1, 0, B_OBJECT, true);
    s.a = nullptr; mem = nullptr;
  }

  // Draws the operands of one operation.
  // With `share`, the two may share elements (for operations that only read).
  // With `apart`, the target's bounds need not lie inside the source's.
  bool draw(Rng& r, bool bcast, bool allow_same, bool apart = false, bool share = false) {
    shared = false;
    drop(src, smem); drop(dst, dmem);
    std::vector<DimM> sd, dd;
    bool ok = false;
    for (int t = 0; t < 8 && !ok; t++) {
      ok = draw_bounds<SS>(r, sd, nullptr);
      std::vector<DimM> around = sd;
      if (apart && R) {
        auto& x = around[(size_t)r.below((int64_t)R)];
        if (r.chance(2, 3)) x.min += r.range(-1, 1);
        else x.ext = std::max<index_t>(0, x.ext + r.range(-1, 1));
      }
      ok = ok && draw_bounds<SD>(r, dd, &around) && (allow_same || true);
    }
    if (!ok) return false;
    if (!draw_strides<SS>(r, sd, bcast) || !draw_strides<SD>(r, dd, false)) return false;
    src = Side<TS, SS>(); dst = Side<TD, SD>();
    src.p.d = sd; dst.p.d = dd;
    src.shape = to_shape<SS>(sd); dst.shape = to_shape<SD>(dd);
    bool zero = false;
    for (auto& x : sd) if (x.stride == 0 && x.ext > 1) zero = true;
    if (!zero && r.chance(1, 5)) make_owning(src, smem);
    if (r.chance(1, 5)) make_owning(dst, dmem);
    if (!src.owning()) {
      auto* c = sc[r.below((int64_t)sc.size())].get();
      src.c = c;
      if (!place_in(r, sd, (index_t)c->m.size(), src.p)) return false;
    }
    if (!dst.owning()) {
      bool placed = false;
      if constexpr (std::is_same<TS, TD>::value) {
        // Sometimes in the same storage, never sharing a cell.
        if (!src.owning() && r.chance(1, 2))
          for (int t = 0; t < 4 && !placed; t++)
            placed = place_in(r, dd, (index_t)src.c->m.size(), dst.p) && disjoint(src.p, dst.p);
        if (placed) { dst.c = src.c; PROBE("bulk:one-storage"); }
        if (!placed && share && !src.owning() && r.chance(1, 2)) {
          index_t n = (index_t)src.c->m.size();
          if (r.chance(2, 3)) {
            dst.p.base = src.p.base;
            index_t lo = dst.p.base + flat_lo(dd);
            placed = size_of(dd) == 0 || (lo >= 0 && lo + flat_ext(dd) <= n);
          } else placed = place_in(r, dd, n, dst.p);
          if (placed) { dst.c = src.c; shared = true; PROBE("bulk:shared-elements"); }
        }
      }
      if (!placed) {
        dst.c = dc[0].get();
        if (!place_in(r, dd, (index_t)dst.c->m.size(), dst.p)) return false;
      }
    }
    return true;
  }

  template <class T> void check_cells(Cells<T>& c, const char* what, const char* role) {
    for (size_t i = 0; i < c.m.size(); i++)
      if (c.at((index_t)i) != c.m[i])
        anomaly(P10 | pm(8), "cell", "%s: %s cell %zu outside the target is %d, was %d", what, role, i, c.at((index_t)i), c.m[i]);
  }
  // Everything not adopted into the expectation must be as expected.
  void check_all(const char* what) {
    for (auto& c : sc) check_cells(*c, what, "source storage");
    for (auto& c : dc) check_cells(*c, what, "target storage");
    for (size_t k = 0; k < src.own.size() && src.a; k++)
      if (src.now((index_t)k) != src.own[k]) anomaly(P10, "cell", "%s: source element %zu is %d, was %d", what, k, src.now((index_t)k), src.own[k]);
    for (size_t k = 0; k < dst.own.size() && dst.a; k++)
      if (dst.now((index_t)k) != dst.own[k]) anomaly(P10, "cell", "%s: target element %zu is %d, expected %d", what, k, dst.now((index_t)k), dst.own[k]);
  }
  index_t rank_in(const std::vector<DimM>& d, const typename SD::index_type& ix) { return rank_in(d, ix, std::make_index_sequence<R>()); }
  template <size_t... Is>
  index_t rank_in(const std::vector<DimM>& d, const typename SD::index_type& ix, std::index_sequence<Is...>) {
    InHarness h;
    index_t k = 0, mul = 1;
    bool in = true;
    ((in = in && std::get<Is>(ix) >= d[Is].min && std::get<Is>(ix) < d[Is].min + d[Is].ext,
      k += (std::get<Is>(ix) - d[Is].min) * mul, mul *= d[Is].ext), ...);
    (void)mul; (void)ix; (void)d;
    if (!in) { anomaly(P10 | pm(9), "index-outside", "called for an index outside the target"); return 0; }
    return k;
  }

  // At call number `when` of a callback the same operation, with the same type
  // of callback, is done to a part of the target.
  struct Nest {
    Bulk& w; int64_t when; bool inside = false;
    SD sh; TD* base = nullptr;
    Nest(Bulk& w, int64_t when) : w(w), when(when) {
      if (!when) return;
      auto d = w.dst.p.d;
      std::vector<DimK> k;
      dim_kinds<SD>(k, std::make_index_sequence<R>());
      bool smaller = false;
      for (size_t i = 0; i < d.size(); i++) if (!k[i].sext && d[i].ext > 1) { d[i].ext--; smaller = true; }
      if (!smaller) { this->when = 0; return; }
      sh = to_shape<SD>(d);
      base = w.dst.ref().base();
    }
    nda::array_ref<TD, SD> view() { return nda::array_ref<TD, SD>(base, sh); }
    template <class F> void at(int64_t call, F&& f) {
      if (call != when) return;
      inside = true;
      struct Out { bool& b; ~Out() { b = false; } } out{inside};
      f();
      InHarness h;
      PROBE("bulk:nested");
    }
  };

  // One operation; false when it failed.
  bool exec(const Op& op, bool faults, int val) {
    auto norm = [](int v) { return Elem<TD>::norm(v); };
    val = norm(val);
    const char* what = kind_name[op.kind];
    bool flag0 = op.arg(2) & 1, flag1 = op.arg(2) & 2;
    auto D = dst.ref();
    auto S = src.ref();
    nda::const_array_ref<TS, SS> CS = S;
    index_t n = dst.p.size();
    std::vector<int> old, want;
    std::vector<index_t> from;
    for (index_t k = 0; k < n; k++) {
      old.push_back(dst.now(k));
      from.push_back(op.kind == B_EQUAL || op.kind == B_EQOP ? k : locate(dst.p.d, k, src.p.d));
    }
    int calls = 0;
    Nest nest(*this, (op.arg(2) & 4) && n > 0 ? 1 + op.arg(3) % n : 0);
    int rc = 0;
    switch (op.kind) {
    case B_COPY: {
      for (index_t k = 0; k < n; k++) want.push_back(norm(src.now(from[k])));
      rc = lib_call(op, faults, P10, what, [&] {
        if (src.owning() && dst.owning()) nda::copy(*src.a, *dst.a);
        else if (src.owning()) nda::copy(*src.a, D);
        else if (dst.owning()) nda::copy(flag0 ? CS : nda::const_array_ref<TS, SS>(S), *dst.a);
        else if (flag0) nda::copy(S, D);
        else nda::copy(CS, D);
      });
      break;
    }
    case B_MOVE: {
      std::vector<int> sold;
      for (index_t k = 0; k < n; k++) { sold.push_back(src.now(from[k])); want.push_back(norm(sold.back())); }
      rc = lib_call(op, faults, P10, what, [&] {
        if (src.owning() && dst.owning()) nda::move(*src.a, *dst.a);
        else if (src.owning()) nda::move(*src.a, D);
        else if (dst.owning()) nda::move(S, *dst.a);
        else nda::move(S, D);
      });
      for (index_t k = 0; k < n; k++) {
        int sv = src.now(from[k]);
        bool arrived = dst.now(k) == want[k];
        bool intact = sv == sold[k];
        if (!intact && !(Elem<TS>::is_obj && sv == V_MOVED && arrived))
          anomaly(P10, "source-lost", "move: source of element %lld is %d, and the value %d did not arrive", (long long)k, sv, sold[k]);
        src.want(from[k]) = sv;
      }
      break;
    }
    case B_FILL: {
      want.assign(n, val);
      TD v(val);
      rc = lib_call(op, faults, P10, what, [&] { if (dst.owning()) nda::fill(*dst.a, v); else nda::fill(D, v); });
      break;
    }
    case B_GENERATE: {
      want.assign(n, val);
      std::function<TD()> body = [&]() -> TD {
        CallFaultPoint::point();
        if (nest.inside) return TD(val);
        calls++;
        nest.at(calls, [&] { Callback<TD> c{&body}; nda::generate(nest.view(), c); });
        return TD(val);
      };
      Callback<TD> g{&body};
      rc = lib_call(op, faults, P10, what, [&] { if (dst.owning()) nda::generate(*dst.a, g); else nda::generate(D, g); });
      break;
    }
    case B_TINDEX: case B_TINDICES: {
      for (index_t k = 0; k < n; k++) want.push_back(norm(val + (int)k));
      std::vector<int> seen(n, 0);
      using IX = typename SD::index_type;
      bool one = op.kind == B_TINDEX;
      std::function<TD(const IX&)> body = [&](const IX& i) -> TD {
        CallFaultPoint::point();
        index_t k = rank_in(dst.p.d, i);
        if (nest.inside) return TD(val + (int)k);
        { InHarness h; calls++; if (seen[k]++) anomaly(P10 | pm(9), "index-repeated", "%s called twice for element %lld", what, (long long)k); }
        nest.at(calls, [&] {
          IndexCallback<TD, IX> c{&body};
          IndicesCallback<TD, IX> e{&body};
          if (one) nda::transform_index(nest.view(), c); else nda::transform_indices(nest.view(), e);
        });
        return TD(val + (int)k);
      };
      IndexCallback<TD, IX> f{&body};
      IndicesCallback<TD, IX> g{&body};
      if (one) rc = lib_call(op, faults, P10, what, [&] { if (dst.owning() && flag0) nda::transform_index(*dst.a, f); else nda::transform_index(D, f); });
      else rc = lib_call(op, faults, P10, what, [&] { if (dst.owning() && flag0) nda::transform_indices(*dst.a, g); else nda::transform_indices(D, g); });
      break;
    }
    case B_FOREACH: {
      for (index_t k = 0; k < n; k++) want.push_back(norm(old[k] + 3));
      std::function<void(TD&)> body = [&](TD& e) {
        CallFaultPoint::point();
        if (nest.inside) return;
        int o; { InHarness h; o = Elem<TD>::peek(&e); calls++; }
        nest.at(calls, [&] { ValueCallback<TD> c{&body}; nest.view().for_each_value(c); });
        e = TD(o + 3);
      };
      ValueCallback<TD> f{&body};
      rc = lib_call(op, faults, P10, what, [&] { if (dst.owning() && flag0) dst.a->for_each_value(f); else D.for_each_value(f); });
      break;
    }
    case B_EQUAL: case B_EQOP: {
      want = old;
      bool same = true, e = true;
      for (size_t i = 0; i < R; i++) if (dst.p.d[i].min != src.p.d[i].min || dst.p.d[i].ext != src.p.d[i].ext) same = false;
      bool got = false, gotne = true, strict = false, have = false;
      if constexpr (std::is_same<TS, TD>::value) {
        // Make them equal, or equal up to one element.
        // (With other bounds they stay different even when all elements agree.)
        if (!same) { e = false; PROBE("bulk:unequal-bounds"); }
        if (shared) {
          // Different views of the same elements, as they are or nearly all alike.
          if (op.arg(3) & 1) {
            for (index_t k = 0; k < src.p.size(); k++) { clear_plan(); *src.elem(k) = TS(5); src.want(k) = Elem<TS>::norm(5); }
            for (index_t k = 0; k < n; k++) { clear_plan(); *dst.elem(k) = TD(5); dst.want(k) = norm(5); }
            if (flag1 && n > 0) { index_t k = op.arg(3) % n; clear_plan(); *dst.elem(k) = TD(4); dst.want(k) = norm(4); }
          }
          for (index_t k = 0; k < n; k++) old[k] = want[k] = dst.now(k);
          if (same) for (index_t k = 0; k < n; k++) if (!same_value<TS>(src.now(k), dst.now(k))) e = false;
        } else if (src.p.size() == n) {
          int64_t diff = flag1 ? op.arg(3) % std::max<index_t>(1, n) : -1;
          for (index_t k = 0; k < n; k++) {
            int v = src.now(from[k]);
            if (k == diff) { v = v ^ 1; e = false; }
            if (!same_value<TS>(v, v)) e = false;
            clear_plan(); *dst.elem(k) = TD(v); dst.want(k) = v; old[k] = want[k] = v;
          }
        }
        strict = e;
        for (size_t i = 0; i < R; i++) if (n && dst.p.d[i].stride != src.p.d[i].stride) strict = false;
        forbid((1u << F_ALLOC) | (1u << F_CTOR) | (1u << F_ASSIGN), P10 | pm(6), what);
        if (op.kind == B_EQUAL || !std::is_same<SS, SD>::value) {
          have = true;
          rc = lib_call(op, faults, P10, what, [&] {
            if (src.owning() && dst.owning()) got = nda::equal(*src.a, *dst.a);
            else if (src.owning()) got = nda::equal(*src.a, D);
            else if (dst.owning()) got = nda::equal(CS, *dst.a);
            else got = flag0 ? nda::equal(CS, D) : nda::equal(D, S);
          });
          gotne = !got;
        } else {
          if constexpr (std::is_same<SS, SD>::value) {
            have = n > 0;
            e = strict;
            rc = lib_call(op, faults, P10, what, [&] { got = S == D; gotne = S != D; });
          }
        }
        if (!rc && have && got != e) anomaly(P10 | pm(4), "equality", "%s gives %d, expected %d", what, got, e);
        if (!rc && have && got == gotne) anomaly(P10 | pm(4), "equality", "== and != agree");
      }
      unforbid();
      break;
    }
    case B_MAKECOPY: case B_MAKEMOVE: {
      MayAlloc may;
      want = old;
      std::vector<int> vals;
      for (index_t k = 0; k < n; k++) vals.push_back(src.now(from[k]));
      bool mv = op.kind == B_MAKEMOVE;
      auto look = [&](const auto& c) {
        InHarness h;
        auto d = dims_of(c.shape());
        for (size_t i = 0; i < R; i++)
          if (d[i].min != dst.p.d[i].min || d[i].ext != dst.p.d[i].ext) { anomaly(P10 | pm(4), "shape", "%s: result has other bounds than asked for", what); return; }
        for (index_t k = 0; k < n; k++) {
          int v = Elem<TS>::peek(c.base() + offset_of(d, k));
          if (v != vals[k]) anomaly(P10 | pm(4), "value", "%s: element %lld is %d, expected %d", what, (long long)k, v, vals[k]);
        }
        calls++;
      };
      rc = lib_call(op, faults, P10, what, [&] {
        if (mv) { if (src.owning()) look(nda::make_move(*src.a, dst.shape)); else look(nda::make_move(S, dst.shape, std::allocator<TS>())); }
        else if (src.owning()) look(nda::make_copy(*src.a, dst.shape));
        else if (flag0) look(nda::make_copy(S, dst.shape, std::allocator<TS>()));
        else look(nda::make_copy(CS, dst.shape, std::allocator<TS>()));
      });
      if (mv) for (index_t k = 0; k < n; k++) {
        int sv = src.now(from[k]);
        if (sv != vals[k] && !(Elem<TS>::is_obj && sv == V_MOVED)) anomaly(P10, "source-lost", "make_move: source element became %d", sv);
        if (!rc && Elem<TS>::is_obj && false) break;
        src.want(from[k]) = sv;
      }
      calls = 0;
      break;
    }
    case B_COMPACT: {
      MayAlloc may;
      want = old;
      bool zero = false;
      for (auto& x : src.p.d) if (x.stride == 0) zero = true;
      if (zero) break;
      index_t sn = src.p.size();
      std::vector<int> vals;
      for (index_t k = 0; k < sn; k++) vals.push_back(src.now(k));
      rc = lib_call(op, faults, P10, what, [&] {
        auto c = flag0 ? nda::make_compact_copy(CS) : nda::make_compact_copy(S);
        InHarness h;
        auto d = dims_of(c.shape());
        for (size_t i = 0; i < R; i++) if (d[i].min != src.p.d[i].min || d[i].ext != src.p.d[i].ext) { anomaly(P10 | pm(4), "shape", "%s: result has other bounds", what); return; }
        for (index_t k = 0; k < sn; k++)
          if (Elem<TS>::peek(c.base() + offset_of(d, k)) != vals[k]) anomaly(P10 | pm(4), "value", "%s: element %lld differs", what, (long long)k);
      });
      break;
    }
    case B_ASSIGNV: {
      want = old;
      if (!dst.owning()) break;
      want.assign(n, val);
      if (n == 0) break;
      TD v(val);
      auto sh = dst.a->shape();
      TD* base = dst.elem(0);
      // The requested shape is the one it has: the storage is used again. Its
      // elements are replaced; one that fails leaves the array empty or unset.
      rc = lib_call(op, false, P10, what, [&] { dst.a->assign(sh, v); });
      if (!rc && dst.elem(0) != base) anomaly(P10 | pm(6), "storage-not-reused", "assign of the same shape moved the elements");
      break;
    }
    }
    bool counted = op.kind == B_GENERATE || op.kind == B_TINDEX || op.kind == B_TINDICES || op.kind == B_FOREACH;
    if (!rc && counted && calls != (int)n) anomaly(P10 | pm(9), "call-count", "%s: %d calls for %lld elements", what, calls, (long long)n);
    for (index_t k = 0; k < n; k++) {
      int now = dst.now(k);
      bool good = now == want[k] || (rc && now == old[k]);
      if (!good)
        anomaly(P10, rc ? "torn-element" : "value", "%s: target element %lld is %d, expected %d%s", what, (long long)k, now, want[k], rc ? " or its old value" : "");
      dst.want(k) = now;
    }
    check_all(what);
    return rc == 0;
  }

  static void gen(Rng& r, Program& p, int prop) {
    (void)prop;
    p.knob = {(int64_t)r.below(1 << 24), r.range(1, 2), draw_big(r, 400)};
    int nops = (int)r.range(1, 7);
    for (int i = 0; i < nops; i++) {
      Op o;
      static const int w[] = {B_COPY, B_COPY, B_COPY, B_COPY, B_MOVE, B_MOVE, B_MOVE, B_FILL, B_FILL, B_GENERATE, B_TINDEX, B_TINDICES, B_EQUAL, B_EQUAL, B_EQOP,
        B_MAKECOPY, B_MAKEMOVE, B_COMPACT, B_FOREACH, B_ASSIGNV};
      o.kind = w[r.below(sizeof w / sizeof *w)];
      o.a = {(int64_t)r.below(1 << 20), r.range(0, 3), r.below(8), r.below(64)};
      if (r.chance(2, 3)) {
        switch (o.kind) {
        case B_FILL: case B_COPY: case B_MOVE: case B_ASSIGNV:
          o.fkind = !std::is_same<TS, TD>::value && r.chance(1, 2) ? F_CTOR : F_ASSIGN; break;
        case B_GENERATE: case B_TINDEX: case B_TINDICES: case B_FOREACH: o.fkind = r.chance(1, 2) ? F_CALL : F_ASSIGN; break;
        case B_EQUAL: case B_EQOP: o.fkind = F_CMP; break;
        default: { static const int ks[] = {F_ALLOC, F_CTOR, F_ASSIGN}; o.fkind = ks[r.below(3)]; }
        }
        if (!Elem<TD>::is_obj && o.fkind != F_CALL && o.fkind != F_ALLOC) o.fkind = o.kind == B_GENERATE || o.kind == B_TINDEX || o.kind == B_TINDICES || o.kind == B_FOREACH ? (int)F_CALL : (int)F_NONE;
        o.fat = 1 + (int)(o.fkind == F_ALLOC ? 0 : r.chance(1, 3) ? r.below(3) : r.below(24));
        if (p.knob[2] && o.fkind != F_ALLOC && r.chance(1, 2)) o.fat = 1 + (int)r.below(p.knob[2]);
        o.fpersist = r.chance(1, 4);
      }
      p.ops.push_back(o);
    }
  }

  static void run(const Program& p) {
    {
      BigRun big(p.k(2));
      Bulk w;
      g_default_id = HEAP_ID;
      for (int i = 0; i < 2; i++) w.sc.emplace_back(new Cells<TS>(160 + 40 * i + 3 * g_big, 1000 * (i + 1)));
      w.dc.emplace_back(new Cells<TD>(220 + 3 * g_big, 5000));
      int opno = 0;
      forbid_alloc(pm(6), "a bulk operation on existing arrays");
      for (const Op& op : p.ops) {
        opno++;
        set_step_cap(g_big ? 3000000 : 300000, P10);
        Rng r(mix(p.k(0), op.arg(0)));
        bool ok = w.draw(r, op.kind != B_MOVE && op.kind != B_MAKEMOVE && r.chance(1, 4), true, (op.kind == B_EQUAL || op.kind == B_EQOP) && r.chance(1, 2), (op.kind == B_EQUAL || op.kind == B_EQOP) && r.chance(1, 2));
        if (!ok) continue;
        if (g_verbose) {
          trace("op %d: %s fault=%s@%d%s\n", opno, kind_name[op.kind], fault_name[op.fkind], op.fat, op.fpersist ? "+" : "");
          trace("  source %s base %lld:", w.src.owning() ? "array" : "cells", (long long)w.src.p.base);
          for (auto& x : w.src.p.d) trace(" [%lld,+%lld)*%lld", (long long)x.min, (long long)x.ext, (long long)x.stride);
          trace("\n  target %s base %lld:", w.dst.owning() ? "array" : "cells", (long long)w.dst.p.base);
          for (auto& x : w.dst.p.d) trace(" [%lld,+%lld)*%lld", (long long)x.min, (long long)x.ext, (long long)x.stride);
          trace("\n");
        }
        uint64_t sig = mix(op.kind, (w.src.owning() ? 1 : 0) + (w.dst.owning() ? 2 : 0));
        for (auto& x : w.dst.p.d) sig = mix(sig, (uint64_t)(x.ext * 64 + x.stride));
        for (auto& x : w.src.p.d) sig = mix(sig, (uint64_t)(x.ext * 64 + x.stride));
        int val = 100000 + opno * 1000;
        bool done = w.exec(op, true, val);
        state_sig(mix(sig, done));
        if (!done) {
          PROBE("bulk:interrupted");
          if (op.kind != B_MOVE && op.kind != B_MAKEMOVE) {
            if (!w.exec(op, false, val)) anomaly(P10, "retry-failed", "%s fails again although failures stopped", kind_name[op.kind]);
            PROBE("bulk:redone");
          }
        }
        // Moved-out elements get values again.
        for (auto& c : w.sc) for (size_t i = 0; i < c->m.size(); i++) if (c->m[i] == V_MOVED) c->set((index_t)i, 700000 + (int)i);
      }
      w.drop(w.src, w.smem); w.drop(w.dst, w.dmem);
    }
    set_step_cap(0, 0);
    if (live_blocks(B_ALLOC)) anomaly(P10 | pm(1), "leak", "%zu blocks still allocated", live_blocks(B_ALLOC));
    if (elems_alive_total()) anomaly(P10 | pm(2), "leaked-elements", "%zu elements still constructed", elems_alive_total());
  }
};
} // namespace bulk
#endif
