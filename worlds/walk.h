// World "walk": traversals of every kind, cancelled at any call, nested in one
// another, repeated, with all sorts of callables, and interleaved between
// tasks. Property C09.
#ifndef WORLD_WALK_H
#define WORLD_WALK_H
#include "cells.h"
#include "array/z_order.h"
#include <array>
#include <functional>
#include <memory>

namespace walk {
using namespace life;
using Ix = std::array<index_t, 5>;     // unused entries are zero
static const uint32_t P9 = pm(9);

enum Form { W_INDEX, W_ALL, W_INDEX_ORDER, W_ALL_ORDER, W_IN_ORDER, W_VALUE, W_VALUE_ARRAY, W_VALUE_IN_ORDER, W_VALUE2_IN_ORDER,
  W_IMAGE, W_MATRIX, W_Z, W_Z_ALL, W_RANGE, W_FORMS };
static const char* const form_name[W_FORMS] = {"for_each_index", "for_all_indices", "for_each_index<order>", "for_all_indices<order>",
  "for_each_index_in_order", "array_ref::for_each_value", "array::for_each_value", "for_each_value_in_order", "for_each_value_in_order(two)",
  "for_each_image_index", "for_each_matrix_index", "for_each_in_z_order", "for_all_in_z_order", "loop over a dim"};
enum Callable { C_LAMBDA, C_FUNCTOR, C_CONST_FUNCTOR, C_STDFUNCTION, C_MOVEONLY, C_TEMPORARY, C_COUNT };

// Default nesting of index traversals: which dim is innermost first.
template <class S> struct Nest { static std::vector<int> order() { std::vector<int> o; for (size_t i = 0; i < S::rank(); i++) o.push_back((int)i); return o; } };
template <index_t C, index_t X> struct Nest<nda::chunky_image_shape<C, X>> { static std::vector<int> order() { return {2, 0, 1}; } };
template <index_t Rw, index_t Cl> struct Nest<nda::matrix_shape<Rw, Cl>> { static std::vector<int> order() { return {1, 0}; } };

inline std::vector<Ix> nest(const std::vector<DimM>& d, const std::vector<int>& order) {
  std::vector<Ix> out;
  if (size_of(d) == 0) return out;
  Ix i{};
  for (size_t k = 0; k < d.size(); k++) i[k] = d[k].min;
  for (;;) {
    out.push_back(i);
    size_t j = 0;
    for (; j < order.size(); j++) {
      int a = order[j];
      if (++i[a] < d[a].min + d[a].ext) break;
      i[a] = d[a].min;
    }
    if (j == order.size()) return out;
  }
}
// z-order: positions sorted by interleaved bits, the last dim most significant.
inline std::vector<Ix> z_nest(const std::vector<DimM>& d) {
  std::vector<int> o;
  for (size_t i = 0; i < d.size(); i++) o.push_back((int)i);
  std::vector<Ix> v = nest(d, o);
  std::stable_sort(v.begin(), v.end(), [&](const Ix& a, const Ix& b) {
    for (int bit = 14; bit >= 0; bit--)
      for (int k = (int)d.size() - 1; k >= 0; k--) {
        int x = (int)((a[k] - d[k].min) >> bit & 1), y = (int)((b[k] - d[k].min) >> bit & 1);
        if (x != y) return x < y;
      }
    return false;
  });
  return v;
}

template <class Tup, size_t... Is> Ix to_ix(const Tup& t, std::index_sequence<Is...>) {
  Ix r{};
  ((r[Is] = std::get<Is>(t)), ...);
  return r;
}
template <class Tup> Ix to_ix(const Tup& t) { return to_ix(t, std::make_index_sequence<std::tuple_size<Tup>::value>()); }

// What a callback saw, in harness memory of its task.
struct Seen {
  std::vector<Ix> ix;                  // indices
  std::vector<const int*> addr, addr2; // elements
  int calls = 0;
  std::function<void(int)> nested;     // runs inside call number `nested_at`
  int nested_at = -1;
  void call() {
    // The library is not active while the callback runs its own code.
    int n;
    { InHarness h; n = calls; }
    if (n == nested_at) { InHarness h; if (nested) nested(n); }
    CallFaultPoint::point();
    { InHarness h; calls++; }
  }
};
// Functors hold their state by pointer or directly; all record to a Seen.
struct Rec {
  Seen* s;
  template <class... A> void indices(A... a) const { s->call(); InHarness h; s->ix.push_back(Ix{{(index_t)a...}}); }
  template <class Tup> void tuple(const Tup& t) const { s->call(); InHarness h; s->ix.push_back(to_ix(t)); }
  void value(const int& a) const { s->call(); InHarness h; s->addr.push_back(&a); }
  void value2(const int& a, const int& b) const { s->call(); InHarness h; s->addr.push_back(&a); s->addr2.push_back(&b); }
};

// Applies traversal `go` with a callable of kind c made from rec's member F.
// Sig: the call signature, for std::function.
template <class Call, class Go> void with_callable(int c, Call call, Go go) {
  switch (c) {
  default:
  case C_LAMBDA: { auto f = [call](auto&&... a) { call(a...); }; go(f); break; }
  case C_TEMPORARY: go([call](auto&&... a) { call(a...); }); break;
  }
}

template <class Shape> struct Walk {
  static constexpr size_t R = Shape::rank();
  using Index = typename Shape::index_type;

  // A functor counting in itself: an lvalue functor must see all its calls.
  struct Counting {
    Rec r; int n = 0;
    template <class... A> void operator()(A&&... a) { { InHarness h; n++; } dispatch(r, a...); }
  };
  struct ConstCounting {
    Rec r; int* n;
    template <class... A> void operator()(A&&... a) const { { InHarness h; ++*n; } dispatch(r, a...); }
  };
  struct MoveOnly {
    Rec r; std::unique_ptr<int> token;
    template <class... A> void operator()(A&&... a) const {
      { InHarness h; if (!token || *token != 42) anomaly(P9, "callable-lost", "a callable was used after its state was moved away"); }
      dispatch(r, a...);
    }
  };
  static void dispatch(const Rec& r, const int& a) { r.value(a); }
  static void dispatch(const Rec& r, const int& a, const int& b) { r.value2(a, b); }
  template <class... Ts> static void dispatch(const Rec& r, const std::tuple<Ts...>& t) { r.tuple(t); }
  struct AsIndices {   // for_all_indices passes index_t arguments
    Rec r;
    template <class... A> void operator()(A... a) const { r.indices(a...); }
  };

  struct Bundle {                      // one traversal's operands, shared by all tasks
    std::vector<DimM> d;
    Place pa, pb;
    Shape sh, sh2;
    const int* cells; const int* cells2;
    nda::array<int, Shape>* arr = nullptr;
    std::vector<DimM> arr_d;
  };

  // Calls trav(f) with a callable of the chosen kind and checks that lvalue
  // callables were the ones called.
  // `std_sig` is the std::function type to use for C_STDFUNCTION.
  template <class Fun, class Trav> static int with(int c, Seen& s, const Op& op, bool faults, const char* what, const Trav& trav) {
    Rec r{&s};
    int rc = 0;
    auto lib = [&](auto&& g) { return lib_call(op, faults, P9, what, g); };
    switch (c) {
    case C_FUNCTOR: {
      Counting f{r};
      rc = lib([&] { trav(f); });
      int want = s.calls + (rc ? 1 : 0);
      if (f.n != want) anomaly(P9, "callable-copied", "%s: the caller's functor saw %d of %d calls", what, f.n, want);
      break;
    }
    case C_CONST_FUNCTOR: {
      int n = 0;
      const ConstCounting f{r, &n};
      rc = lib([&] { trav(f); });
      if (n != s.calls + (rc ? 1 : 0)) anomaly(P9, "callable-copied", "%s: the caller's functor saw %d of %d calls", what, n, s.calls);
      break;
    }
    case C_STDFUNCTION: {
      Counting k{r};
      Fun f = std::ref(k);
      rc = lib([&] { trav(f); });
      if (!f) anomaly(P9, "callable-lost", "%s emptied the caller's std::function", what);
      break;
    }
    case C_MOVEONLY: {
      MoveOnly f{r, std::unique_ptr<int>(new int(42))};
      rc = lib([&] { trav(std::move(f)); });
      break;
    }
    case C_TEMPORARY: rc = lib([&] { trav(Counting{r}); }); break;
    default: {
      auto f = [r](auto&&... a) { dispatch(r, a...); };
      rc = lib([&] { trav(f); });
    }
    }
    return rc;
  }
  // The same for callables taking indices one by one.
  struct CountingI { Rec r; int n = 0; template <class... A> void operator()(A... a) { { InHarness h; n++; } r.indices(a...); } };
  struct ConstCountingI { Rec r; int* n; template <class... A> void operator()(A... a) const { { InHarness h; ++*n; } r.indices(a...); } };
  struct MoveOnlyI {
    Rec r; std::unique_ptr<int> token;
    template <class... A> void operator()(A... a) const {
      { InHarness h; if (!token || *token != 42) anomaly(P9, "callable-lost", "a callable was used after its state was moved away"); }
      r.indices(a...);
    }
  };
  template <class Trav> static int with_i(int c, Seen& s, const Op& op, bool faults, const char* what, const Trav& trav) {
    Rec r{&s};
    int rc = 0;
    auto lib = [&](auto&& g) { return lib_call(op, faults, P9, what, g); };
    switch (c) {
    case C_FUNCTOR: {
      CountingI f{r};
      rc = lib([&] { trav(f); });
      if (f.n != s.calls + (rc ? 1 : 0)) anomaly(P9, "callable-copied", "%s: the caller's functor saw %d of %d calls", what, f.n, s.calls);
      break;
    }
    case C_CONST_FUNCTOR: {
      int n = 0;
      const ConstCountingI f{r, &n};
      rc = lib([&] { trav(f); });
      if (n != s.calls + (rc ? 1 : 0)) anomaly(P9, "callable-copied", "%s: the caller's functor saw %d of %d calls", what, n, s.calls);
      break;
    }
    case C_MOVEONLY: {
      MoveOnlyI f{r, std::unique_ptr<int>(new int(42))};
      rc = lib([&] { trav(std::move(f)); });
      break;
    }
    case C_TEMPORARY: rc = lib([&] { trav(CountingI{r}); }); break;
    default: {
      auto f = [r](auto... a) { r.indices(a...); };
      rc = lib([&] { trav(f); });
    }
    }
    return rc;
  }

  static std::vector<std::vector<int>> perms() {
    std::vector<int> o;
    for (size_t i = 0; i < R; i++) o.push_back((int)i);
    std::vector<std::vector<int>> v;
    do v.push_back(o); while (std::next_permutation(o.begin(), o.end()));
    return v;
  }

  // Runs one traversal; returns rc, fills s.
  static int go(const Bundle& b, const Op& op, bool faults, Seen& s, const char* what) {
    int form = (int)op.arg(1), c = (int)op.arg(2);
    const Shape& sh = b.sh;
    using FI = std::function<void(const Index&)>;
    using FV = std::function<void(const int&)>;
    using FV2 = std::function<void(const int&, const int&)>;
    switch (form) {
    case W_INDEX: return with<FI>(c, s, op, faults, what, [&](auto&& f) { nda::for_each_index(sh, std::forward<decltype(f)>(f)); });
    case W_ALL: return with_i(c, s, op, faults, what, [&](auto&& f) { nda::for_all_indices(sh, std::forward<decltype(f)>(f)); });
    case W_IN_ORDER: return with<FI>(c, s, op, faults, what, [&](auto&& f) { nda::for_each_index_in_order(sh, std::forward<decltype(f)>(f)); });
    case W_INDEX_ORDER: case W_ALL_ORDER: {
      int k = (int)(op.arg(3) % perms().size());
      auto one = [&](auto seq) { return ordered(seq, form == W_ALL_ORDER, c, s, op, faults, what, sh); };
      if constexpr (R == 1) return one(std::index_sequence<0>());
      else if constexpr (R == 2) return k == 0 ? one(std::index_sequence<0, 1>()) : one(std::index_sequence<1, 0>());
      else if constexpr (R == 3) {
        switch (k) {
        case 0: return one(std::index_sequence<0, 1, 2>());
        case 1: return one(std::index_sequence<0, 2, 1>());
        case 2: return one(std::index_sequence<1, 0, 2>());
        case 3: return one(std::index_sequence<1, 2, 0>());
        case 4: return one(std::index_sequence<2, 0, 1>());
        default: return one(std::index_sequence<2, 1, 0>());
        }
      } else if constexpr (R == 4) {
        switch (k) {   // a few of the 24
        case 1: return one(std::index_sequence<0, 1, 3, 2>());
        case 9: return one(std::index_sequence<1, 2, 3, 0>());
        case 18: return one(std::index_sequence<3, 0, 1, 2>());
        case 23: return one(std::index_sequence<3, 2, 1, 0>());
        default: return one(std::index_sequence<0, 1, 2, 3>());
        }
      } else if constexpr (R == 5) {
        switch (k) {   // a few of the 120
        case 1: return one(std::index_sequence<0, 1, 2, 4, 3>());
        case 9: return one(std::index_sequence<0, 2, 3, 4, 1>());
        case 23: return one(std::index_sequence<0, 4, 3, 2, 1>());
        default: return one(std::index_sequence<0, 1, 2, 3, 4>());
        }
      } else return 0;
    }
    case W_VALUE: {
      nda::const_array_ref<int, Shape> ref(b.cells + b.pa.base, sh);
      return with<FV>(c, s, op, faults, what, [&](auto&& f) { ref.for_each_value(std::forward<decltype(f)>(f)); });
    }
    case W_VALUE_ARRAY: {
      const nda::array<int, Shape>& a = *b.arr;
      return with<FV>(c, s, op, faults, what, [&](auto&& f) { a.for_each_value(std::forward<decltype(f)>(f)); });
    }
    case W_VALUE_IN_ORDER:
      return with<FV>(c, s, op, faults, what, [&](auto&& f) { nda::for_each_value_in_order(sh, b.cells + b.pa.base, std::forward<decltype(f)>(f)); });
    case W_VALUE2_IN_ORDER:
      return with<FV2>(c, s, op, faults, what, [&](auto&& f) {
        nda::for_each_value_in_order(sh, sh, b.cells + b.pa.base, b.sh2, b.cells2 + b.pb.base, std::forward<decltype(f)>(f)); });
    case W_IMAGE:
      if constexpr (R == 3) return with<FI>(c, s, op, faults, what, [&](auto&& f) { nda::for_each_image_index(sh, std::forward<decltype(f)>(f)); });
      return 0;
    case W_MATRIX:
      if constexpr (R == 2) return with<FI>(c, s, op, faults, what, [&](auto&& f) { nda::for_each_matrix_index(sh, std::forward<decltype(f)>(f)); });
      return 0;
    case W_Z: case W_Z_ALL: return zwalk(b, op, faults, s, what, std::make_index_sequence<R>());
    case W_RANGE: return loop(b, op, faults, s, what);
    }
    return 0;
  }
  template <size_t... O>
  static int ordered(std::index_sequence<O...>, bool all, int c, Seen& s, const Op& op, bool faults, const char* what, const Shape& sh) {
    using FI = std::function<void(const Index&)>;
    if (all) return with_i(c, s, op, faults, what, [&](auto&& f) { nda::for_all_indices<O...>(sh, std::forward<decltype(f)>(f)); });
    return with<FI>(c, s, op, faults, what, [&](auto&& f) { nda::for_each_index<O...>(sh, std::forward<decltype(f)>(f)); });
  }
  template <size_t... Is>
  static int zwalk(const Bundle& b, const Op& op, bool faults, Seen& s, const char* what, std::index_sequence<Is...>) {
    if constexpr (R > 0) {
      Rec r{&s};
      auto f1 = [r](const auto& t) { r.tuple(t); };
      auto f2 = [r](auto... a) { r.indices(a...); };
      auto ranges = std::make_tuple(nda::interval<>(b.d[Is].min, b.d[Is].ext)...);
      bool dims = op.arg(2) & 1;
      if (op.arg(1) == W_Z)
        return lib_call(op, faults, P9, what, [&] { if (dims) nda::for_each_in_z_order(b.sh.dims(), f1); else nda::for_each_in_z_order(ranges, f1); });
      return lib_call(op, faults, P9, what, [&] { if (dims) nda::for_all_in_z_order(b.sh.dims(), f2); else nda::for_all_in_z_order(ranges, f2); });
    }
    return 0;
  }

  // Loops over one dim, and over the interval it is, by the operations of iterators.
  static int loop(const Bundle& b, const Op& op, bool faults, Seen& s, const char* what) {
    if constexpr (R > 0) {
      Rec r{&s};
      auto over = [&](const auto& d, int variant) {
        auto first = d.begin(), last = d.end();
        index_t n = last - first;
        switch (variant) {
        case 0: for (index_t i : d) r.indices(i); break;
        case 1: for (auto it = first; it != last; ) { auto old = it++; r.indices(*old); } break;
        case 2: for (auto it = last; !(it == first); ) { --it; r.indices(*it); } break;
        case 3: for (auto it = last; it != first; ) { auto old = it--; r.indices(*old - 1); } break;
        case 4: for (index_t k = 0; k < n; k++) r.indices(first[k]); break;
        case 5: { auto it = first; for (index_t k = 0; k < n; k++, it += 3) { it -= 2 * (k > 0); r.indices(*it); } break; }
        case 6: for (index_t k = 0; k < n; k++) r.indices(*(first + k)); break;
        default: for (index_t k = 1; k <= n; k++) r.indices(*(last - k)); break;
        }
      };
      const auto& d = std::get<0>(b.sh.dims());
      int v = (int)(op.arg(3) % 8);
      return lib_call(op, faults, P9, what, [&] {
        if (op.arg(2) % 3 == 0) over(d, v);
        else if (op.arg(2) % 3 == 1) over(nda::interval<>(d.min(), d.extent()), v);
        else over(nda::r(d.min(), d.max() + 1), v);
      });
    }
    return 0;
  }

  static std::vector<Ix> expected(const Bundle& b, const Op& op) {
    switch (op.arg(1)) {
    case W_INDEX_ORDER: case W_ALL_ORDER: {
      auto p = perms();
      size_t k = op.arg(3) % p.size();
      if (R == 4 && k != 1 && k != 9 && k != 18 && k != 23) k = 0;
      if (R == 5 && k != 1 && k != 9 && k != 23) k = 0;
      return nest(b.d, p[k]);
    }
    case W_INDEX: case W_ALL: return nest(b.d, Nest<Shape>::order());
    case W_IMAGE: return nest(b.d, {2, 0, 1});
    case W_MATRIX: return nest(b.d, {1, 0});
    case W_Z: case W_Z_ALL: return z_nest(b.d);
    case W_RANGE: {
      std::vector<Ix> v;
      for (index_t k = 0; R && k < b.d[0].ext; k++) { Ix i{}; i[0] = b.d[0].min + k; v.push_back(i); }
      int how = (int)(op.arg(3) % 8);
      if (how == 2 || how == 3 || how == 7) std::reverse(v.begin(), v.end());
      return v;
    }
    default: { std::vector<int> o; for (size_t i = 0; i < R; i++) o.push_back((int)i); return nest(b.d, o); }
    }
  }
  static const int* addr_of(const Bundle& b, const Place& p, const int* cells, const Ix& ix) {
    (void)b;
    index_t o = p.base;
    for (size_t i = 0; i < R; i++) o += (ix[i] - p.d[i].min) * p.d[i].stride;
    return cells + o;
  }

  static void check(const Bundle& b, const Op& op, int rc, const Seen& s, const char* what, bool prefix_known) {
    (void)prefix_known;
    std::vector<Ix> e = expected(b, op);
    size_t n = e.size(), got = std::max(s.ix.size(), s.addr.size());
    if (!rc && got != n) anomaly(P9, "visit-count", "%s: %zu visits of %zu", what, got, n);
    if (got > n) anomaly(P9, "visit-count", "%s: %zu visits of %zu", what, got, n);
    bool values = op.arg(1) == W_VALUE || op.arg(1) == W_VALUE_ARRAY;
    bool in_order = op.arg(1) == W_VALUE_IN_ORDER || op.arg(1) == W_VALUE2_IN_ORDER;
    if (values) {
      // Any order; each element once.
      std::vector<const int*> want, have = s.addr;
      for (auto& i : e) {
        if (op.arg(1) == W_VALUE) want.push_back(addr_of(b, b.pa, b.cells, i));
        else { Place p; p.d = b.arr_d; want.push_back(addr_of(b, p, b.arr->base(), i)); }
      }
      std::sort(want.begin(), want.end());
      std::sort(have.begin(), have.end());
      // Over dims of stride 0 an element is visited once per index.
      for (size_t k = 0; k < have.size();) {
        size_t e = k;
        while (e < have.size() && have[e] == have[k]) e++;
        auto w = std::equal_range(want.begin(), want.end(), have[k]);
        if (w.first == w.second) anomaly(P9, "visited-foreign", "%s: a visited element does not belong to the shape", what);
        if (e - k > (size_t)(w.second - w.first)) anomaly(P9, "visited-twice", "%s: an element was visited %zu times, by %zu indices", what, e - k, (size_t)(w.second - w.first));
        k = e;
      }
      return;
    }
    if (in_order) {
      for (size_t k = 0; k < got; k++) {
        if (s.addr[k] != addr_of(b, b.pa, b.cells, e[k])) anomaly(P9, "visit-order", "%s: visit %zu is another element", what, k);
        if (op.arg(1) == W_VALUE2_IN_ORDER && s.addr2[k] != addr_of(b, b.pb, b.cells2, e[k])) anomaly(P9 | pm(10), "visit-order", "%s: visit %zu pairs another element", what, k);
      }
      return;
    }
    for (size_t k = 0; k < got; k++)
      if (s.ix[k] != e[k])
        anomaly(P9, "visit-order", "%s: visit %zu is (%lld,%lld,%lld,%lld), expected (%lld,%lld,%lld,%lld)", what, k, (long long)s.ix[k][0], (long long)s.ix[k][1],
            (long long)s.ix[k][2], (long long)s.ix[k][3], (long long)e[k][0], (long long)e[k][1], (long long)e[k][2], (long long)e[k][3]);
  }

  // A full traversal, one cut short, and one more full: the cut one is a prefix
  // of the others.
  static void one(const Bundle& b, const Op& op, const Bundle* inner, const Op* inner_op) {
    const char* what = form_name[op.arg(1)];
    Seen s;
    Op nested = inner_op ? *inner_op : Op();
    nested.fkind = 0;
    if (inner && inner_op) {
      s.nested_at = (int)(op.arg(5) % 6);
      s.nested = [&](int) {
        // Inside the callback of the outer traversal; its fault plan is kept.
        FaultPlan keep = plan();
        Seen t;
        int rc = go(*inner, nested, false, t, form_name[nested.arg(1)]);
        check(*inner, nested, rc, t, form_name[nested.arg(1)], false);
        plan() = keep;
        PROBE("walk:nested");
      };
    }
    int rc = go(b, op, true, s, what);
    check(b, op, rc, s, what, false);
    if (rc) {
      PROBE("walk:cut");
      Seen f;
      Op full = op;
      full.fkind = 0;
      int rc2 = go(b, full, false, f, what);
      check(b, full, rc2, f, what, false);
      for (size_t k = 0; k < s.addr.size() && k < f.addr.size(); k++)
        if (s.addr[k] != f.addr[k]) anomaly(P9, "not-a-prefix", "%s: the interrupted traversal visited elements in another order", what);
      if ((int)std::max(s.ix.size(), s.addr.size()) != s.calls) anomaly(P9, "call-count", "%s: calls and visits differ", what);
    }
    state_sig(mix(mix(op.arg(1), op.arg(2)), mix((uint64_t)s.calls, rc + 2 * (inner != nullptr))));
  }

  static void gen(Rng& r, Program& p, int prop) {
    (void)prop;
    int tasks = r.chance(1, 4) ? (int)r.range(2, 3) : 0;
    p.knob = {(int64_t)r.below(1 << 24), tasks, r.range(1, 3), tasks ? 0 : draw_big(r, 400)};
    p.sched_period = tasks ? (int)(r.chance(1, 2) ? r.range(1, 6) : r.range(5, 60)) : 0;
    int nops = (int)r.range(1, tasks ? 6 : 5);
    for (int i = 0; i < nops; i++) {
      Op o;
      o.task = tasks ? (int)r.below(tasks) : 0;
      static const int forms2[] = {W_INDEX, W_INDEX, W_ALL, W_INDEX_ORDER, W_ALL_ORDER, W_IN_ORDER, W_VALUE, W_VALUE, W_VALUE_ARRAY, W_VALUE_IN_ORDER,
        W_VALUE2_IN_ORDER, W_Z, W_Z_ALL, W_IMAGE, W_MATRIX, W_RANGE};
      int f = forms2[r.below(sizeof forms2 / sizeof *forms2)];
      if (f == W_IMAGE && R != 3) f = W_INDEX;
      if (f == W_MATRIX && R != 2) f = W_VALUE;
      if (R == 0 && f != W_VALUE && f != W_VALUE_ARRAY && f != W_VALUE2_IN_ORDER) f = r.chance(1, 2) ? (int)W_INDEX : (int)W_VALUE_IN_ORDER;
      o.a = {r.below(3), f, r.below(C_COUNT), r.below(24), r.chance(1, 3), r.below(64)};
      o.kind = f;
      if (r.chance(1, 2)) { o.fkind = F_CALL; o.fat = 1 + (int)(r.chance(1, 2) ? r.below(4) : r.below(p.knob[3] && r.chance(1, 2) ? p.knob[3] : 40)); o.fpersist = r.chance(1, 6); }
      p.ops.push_back(o);
    }
  }

  static void run(const Program& p) {
    {
      g_default_id = HEAP_ID;
      BigRun big(p.k(3));
      const index_t room = 420 + 3 * g_big;
      Cells<int> ca(room, 0), cb(room, 1000);
      std::vector<std::unique_ptr<Bundle>> bs;
      std::vector<void*> mem;
      for (int i = 0; i < 3; i++) {
        Rng r(mix(p.k(0), i));
        auto b = std::unique_ptr<Bundle>(new Bundle);
        std::vector<DimM> d, e, own;
        bool ok = false;
        for (int t = 0; t < 8 && !ok; t++)
          ok = draw_bounds<Shape>(r, d, nullptr) && draw_strides<Shape>(r, d, false) && (own = d, true) &&
               (!r.chance(1, 5) || draw_strides<Shape>(r, d, true)) && place_in(r, d, room, b->pa) &&
               (e = d, draw_strides<Shape>(r, e, true)) && place_in(r, e, room, b->pb);
        if (!ok) continue;
        b->d = d;
        b->sh = to_shape<Shape>(d); b->sh2 = to_shape<Shape>(e);
        b->cells = ca.p; b->cells2 = cb.p;
        void* m = block_alloc(sizeof(nda::array<int, Shape>), 1, 0, B_OBJECT, 64);
        mem.push_back(m);
        clear_plan();
        { InLib l; b->arr = new (m) nda::array<int, Shape>(to_shape<Shape>(own)); }
        b->arr_d = dims_of(b->arr->shape());
        bs.push_back(std::move(b));
      }
      auto do_op = [&](const Op& op) {
        if (bs.empty()) return;
        const Bundle& b = *bs[op.arg(0) % bs.size()];
        const Bundle* in = nullptr;
        Op io;
        if (op.arg(4)) {
          in = bs[(op.arg(0) + op.arg(5)) % bs.size()].get();
          if (size_of(b.d) * size_of(in->d) > 40000) in = nullptr;
          io = op;
          io.a[1] = (op.arg(5) % 3) == 0 ? op.arg(1) : R == 0 ? (int)W_VALUE : (op.arg(5) % 3) == 1 ? (int)W_INDEX : (int)W_VALUE;
          io.a[2] = op.arg(3) % C_COUNT;
        }
        if (g_verbose) {
          trace("task %d: %s callable %d %s fault=%s@%d:", op.task, form_name[op.arg(1)], (int)op.arg(2), in ? "nested" : "", fault_name[op.fkind], op.fat);
          for (auto& x : b.pa.d) trace(" [%lld,+%lld)*%lld", (long long)x.min, (long long)x.ext, (long long)x.stride);
          trace("\n");
        }
        one(b, op, in, in ? &io : nullptr);
      };
      forbid_alloc(pm(6), "a traversal");
      if (p.k(1) > 1) {
        set_step_cap(6000000, P9);
        run_tasks((int)p.k(1), p, [&](int t) { for (const Op& op : p.ops) if (op.task == t) do_op(op); });
      } else {
        for (const Op& op : p.ops) { set_step_cap(g_big ? 6000000 : 600000, P9); do_op(op); }
      }
      clear_plan();
      forbid_alloc(0, "");
      for (auto& b : bs) { InLib l; b->arr->~array(); }
      for (void* m : mem) block_free(m, 1, 0, B_OBJECT, true);
      for (size_t i = 0; i < ca.m.size(); i++) if (ca.at((index_t)i) != ca.m[i] || cb.at((index_t)i) != cb.m[i]) anomaly(P9, "cell", "a traversal changed an element");
    }
    set_step_cap(0, 0);
  }
};
} // namespace walk
#endif
