// Flat caller-owned storage whose every cell (also the padding no view reaches)
// holds a known value, and placements of shapes in it.
#ifndef WORLD_CELLS_H
#define WORLD_CELLS_H
#include "util.h"

namespace life {

// A view of cells: where its dims' minimum lies, and the dims.
struct Place {
  std::vector<DimM> d;
  index_t base = 0;
  index_t size() const { return size_of(d); }
  index_t cell(index_t k) const { return base + offset_of(d, k); }
  std::vector<index_t> cells() const {
    std::vector<index_t> c;
    for (index_t k = 0, n = size(); k < n; k++) c.push_back(cell(k));
    return c;
  }
};
inline index_t flat_lo(const std::vector<DimM>& d) {
  index_t lo = 0;
  for (auto& x : d) lo += std::min<index_t>(0, (x.ext - 1) * x.stride);
  return lo;
}

// All cells constructed, each with a value of its own.
template <class T> struct Cells {
  T* p = nullptr;
  std::vector<int> m;                  // expected values
  explicit Cells(index_t n, int first) {
    p = (T*)block_alloc(std::max<index_t>(n, 1) * sizeof(T), n, 0, B_EXTERN, alignof(T));
    for (index_t i = 0; i < n; i++) { m.push_back(Elem<T>::norm(first + (int)i)); new (p + i) T(m.back()); }
  }
  Cells(const Cells&) = delete;
  ~Cells() {
    clear_plan();
    for (size_t i = 0; i < m.size(); i++) p[i].~T();
    block_free(p, m.size(), 0, B_EXTERN, true);
  }
  int at(index_t i) const { return Elem<T>::peek(p + i); }
  void set(index_t i, int v) { clear_plan(); p[i] = T(v); m[i] = Elem<T>::norm(v); }
  void refresh(int first) { for (size_t i = 0; i < m.size(); i++) set((index_t)i, first + (int)i); }
};

// Strides for the extents in d: k gives the static ones. Elements never share a
// cell, except over dims of stride 0 when bcast allows some.
template <class Shape> bool draw_strides(Rng& r, std::vector<DimM>& d, bool bcast) {
  constexpr size_t R = Shape::rank();
  std::vector<DimK> k;
  dim_kinds<Shape>(k, std::make_index_sequence<R>());
  for (int attempt = 0; attempt < 4; attempt++) {
    std::vector<size_t> order;
    for (size_t i = 0; i < R; i++) if (k[i].sstr) order.push_back(i);
    std::sort(order.begin(), order.end(), [&](size_t a, size_t b) { return k[a].stride < k[b].stride; });
    size_t ns = order.size();
    for (size_t i = 0; i < R; i++) if (!k[i].sstr) order.push_back(i);
    bool shuffle = r.chance(1, 2), pad = attempt < 3 && r.chance(1, 2), neg = r.chance(1, 3), bc = bcast && r.chance(1, 2);
    if (shuffle) for (size_t i = order.size(); i > ns + 1; i--) std::swap(order[i - 1], order[ns + r.below(i - ns)]);
    index_t cur = 1;
    bool zero = false;
    for (size_t j = 0; j < order.size(); j++) {
      size_t i = order[j];
      index_t e = std::max<index_t>(1, d[i].ext);
      if (k[i].sstr) {
        d[i].stride = k[i].stride;
        if (k[i].stride == 0) zero = true;
        cur = std::max<index_t>(cur, std::abs(k[i].stride) * e);
        continue;
      }
      if (bc && r.chance(1, 2)) { d[i].stride = 0; zero = true; continue; }
      index_t st = cur + (pad && r.chance(1, 2) ? r.range(1, 3) : 0);
      cur = st * e;
      if (neg && r.chance(1, 2)) st = -st;
      // The stride of a dim of extent 1 addresses nothing: anything goes.
      if (d[i].ext == 1 && r.chance(1, 6)) st = r.range(-7, 9);
      d[i].stride = st;
    }
    std::vector<DimM> nz = d;
    for (auto& x : nz) if (x.stride == 0) x.ext = std::min<index_t>(x.ext, 1);
    if (one_to_one(nz) && (bcast || !zero || one_to_one(d)) && flat_ext(d) < (g_big ? 3 * g_big : 400)) return true;
  }
  return false;
}

// Bounds of a shape of type Shape, within `in` when given.
template <class Shape> bool draw_bounds(Rng& r, std::vector<DimM>& d, const std::vector<DimM>* in, bool small_ = false) {
  constexpr size_t R = Shape::rank();
  std::vector<DimK> k;
  dim_kinds<Shape>(k, std::make_index_sequence<R>());
  d.assign(R, DimM());
  index_t cap = R <= 1 ? 12 : R == 2 ? 6 : R == 3 ? 4 : 3;
  if (small_) cap = std::max<index_t>(2, cap / 2);
  bool same = in && r.chance(1, 2);
  for (size_t i = 0; i < R; i++) {
    if (in) {
      const DimM& o = (*in)[i];
      index_t lo = k[i].smin ? k[i].min : same || r.chance(1, 2) ? o.min : o.min + r.below(std::max<index_t>(1, o.ext));
      index_t left = o.min + o.ext - lo;
      index_t e = k[i].sext ? k[i].ext : same ? o.ext : r.chance(1, 2) ? left : r.range(r.chance(1, 8) ? 0 : 1, std::max<index_t>(1, left));
      if (lo < o.min || e > left || e < 0) return false;
      d[i].min = lo; d[i].ext = e;
    } else {
      d[i].min = k[i].smin ? k[i].min : draw_min(r);
      d[i].ext = k[i].sext ? k[i].ext : r.chance(1, 20) ? 0 : r.chance(1, 6) ? 1 : r.range(1, cap);
    }
  }
  if (!in) draw_long(r, k, d, small_);
  return true;
}

// A base for d in [0, n) that keeps it inside.
inline bool place_in(Rng& r, const std::vector<DimM>& d, index_t n, Place& out) {
  out.d = d;
  if (size_of(d) == 0) { out.base = n ? r.below(n) : 0; return true; }
  index_t room = n - flat_ext(d);
  if (room < 0) return false;
  out.base = r.below(room + 1) - flat_lo(d);
  return true;
}
inline bool disjoint(const Place& a, const Place& b) {
  auto x = a.cells(), y = b.cells();
  std::sort(x.begin(), x.end());
  for (index_t c : y) if (std::binary_search(x.begin(), x.end(), c)) return false;
  return true;
}

struct CallFaultPoint {
  static void point() { InHarness h; yield_point(); if (fault_point(F_CALL)) throw elem_fault{F_CALL}; }
};

// Runs f as a library call with the given fault plan; 0 completed, 1 failed.
template <class F> int lib_call(const Op& op, bool faults, uint32_t props, const char* what, F&& f) {
  if (faults && op.fkind) set_plan(op.fkind, op.fat, op.fpersist); else clear_plan();
  int threw = 0;
  try { InLib l; f(); }
  catch (const std::bad_alloc&) { threw = 1; }
  catch (const elem_fault&) { threw = 2; }
  catch (...) { threw = 3; }
  bool fired = fault_fired();
  clear_plan();
  unforbid();
  if (threw && !fired) anomaly(props, "spurious-failure", "%s failed although nothing was made to fail", what);
  if (threw == 3) anomaly(props, "failure-replaced", "%s reported a failure other than the injected one", what);
  if (!threw && fired) anomaly(props, "failure-swallowed", "%s completed although an operation in it failed", what);
  ev(0x11FF, op.kind, threw);
  return threw ? 1 : 0;
}

} // namespace life
#endif
