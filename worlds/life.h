// World "life": a population of owning arrays with simulated allocators and
// elements goes through a seeded history of operations with injected failures,
// next to a value model. Properties C01-C07.
#ifndef WORLD_LIFE_H
#define WORLD_LIFE_H

#include "util.h"

namespace life {

// ------------------------------------------------------------ allocators
template <class A> struct AInfo;
template <class T> struct AInfo<std::allocator<T>> {
  static constexpr bool is_auto = false, uninit = false, stateful = false, hooks = false;
  static constexpr bool cca = false, cma = true, sw = false, sel = false;
  static constexpr size_t N = 0;
  static std::allocator<T> make(int) { return {}; }
  static int id(const std::allocator<T>&) { return HEAP_ID; }
  static int dflt() { return HEAP_ID; }
  static int sanitize(int) { return HEAP_ID; }
};
template <class T, bool Cca, bool Cma, bool Sw, bool Sel, bool Hooks>
struct AInfo<SimAlloc<T, Cca, Cma, Sw, Sel, Hooks>> {
  using A = SimAlloc<T, Cca, Cma, Sw, Sel, Hooks>;
  static constexpr bool is_auto = false, uninit = false, stateful = true, hooks = Hooks;
  static constexpr bool cca = Cca, cma = Cma, sw = Sw, sel = Sel;
  static constexpr size_t N = 0;
  static A make(int i) { return A(i); }
  static int id(const A& a) { return a.id; }
  static int dflt() { return g_default_id; }
  static int sanitize(int i) { return i; }
};
template <class T, size_t N_, size_t Al, class Base> struct AInfo<nda::auto_allocator<T, N_, Al, Base>> {
  using A = nda::auto_allocator<T, N_, Al, Base>;
  static constexpr bool is_auto = true, uninit = false, stateful = AInfo<Base>::stateful, hooks = false;
  static constexpr bool cca = false, cma = false, sw = false, sel = false;
  static constexpr size_t N = N_;
  // The fallback allocator cannot be passed in: it is default constructed.
  static A make(int i) {
    int k = g_default_id; g_default_id = i;
    A a;
    g_default_id = k;
    return a;
  }
  static int id(const A&) { return -1; }          // not observable
  static int dflt() { return AInfo<Base>::dflt(); }
  static int sanitize(int i) { return AInfo<Base>::sanitize(i); }
};
template <class Base> struct AInfo<nda::uninitialized_allocator<Base>> {
  using A = nda::uninitialized_allocator<Base>;
  using B = AInfo<Base>;
  static constexpr bool is_auto = B::is_auto, uninit = true, stateful = B::stateful, hooks = false;
  static constexpr bool cca = B::cca, cma = B::cma, sw = B::sw, sel = B::sel;
  static constexpr size_t N = B::N;
  static A make(int i) { A a; static_cast<Base&>(a) = B::make(i); return a; }
  static int id(const A& a) { return B::id(a); }
  static int dflt() { return B::dflt(); }
  static int sanitize(int i) { return B::sanitize(i); }
};

// ------------------------------------------------------------ the world
enum State { NONE, NORMAL, HOLLOW };   // HOLLOW: moved-from array whose shape type cannot be empty
struct Model {
  State st = NONE;
  std::vector<DimM> d;
  std::vector<int> v;
  int aid = -1;                        // allocator identity; -1: not known
};

enum Kind {
  K_DEFAULT, K_SHAPE, K_VALUE, K_COPY, K_MOVE, K_DESTROY, K_OPCOPY, K_OPMOVE, K_FNCOPY, K_FNMOVE,
  K_ASSIGNV, K_CLEAR, K_RESHAPE, K_SWAP, K_WRITE, K_FILL, K_GENERATE, K_TRANSFORM, K_FOREACH,
  K_MAKECOPY, K_MAKECOMPACT, K_MAKEMOVE, K_COPYINTO, K_MOVEINTO, K_MOVEFREE, K_EQ, K_VIEWS,
  K_SETSHAPE, K_REINTERP, K_QUOTA, K_COUNT
};
static const char* const kind_name[K_COUNT] = {
  "default", "shape", "value", "copy", "move", "destroy", "op=copy", "op=move", "assign(copy)", "assign(move)",
  "assign(shape,value)", "clear", "reshape", "swap", "write", "fill", "generate", "transform", "for_each",
  "make_copy", "make_compact", "make_move", "copy into", "move into", "move(a&&,b)", "equal", "views",
  "set_shape", "move_reinterpret_shape", "quota"};

static const uint32_t P_VAL = pm(4), P_MEM = pm(1), P_FAIL = pm(3), P_ALLOC = pm(5), P_XFER = pm(6), P_AUTO = pm(7);

template <class T_, class Shape_, class Alloc_>
struct Sim {
  using T = T_;
  using Shape = Shape_;
  using Alloc = Alloc_;
  using A = nda::array<T, Shape, Alloc>;
  using E = Elem<T>;
  using AI = AInfo<Alloc>;
  static constexpr size_t R = Shape::rank();

  struct Slot { A* a = nullptr; Model m; };
  std::vector<Slot> s;
  const Program* P = nullptr;
  bool had_failure = false;
  int64_t quota = -1;
  int stamp = 1;                       // fresh values
  int opno = 0;
  int last_threw = 0;                  // 1: an allocation failed, 2: an element operation or callback

  uint32_t ctx(uint32_t m) const { return m | (had_failure ? P_FAIL : 0) | (AI::is_auto ? P_AUTO : 0); }

  static bool static_default() { return size_of(dims_of(Shape())) > 0; }

  // ---------------------------------------------------------- prediction
  Shape shape_arg(int64_t arg) {
    Rng r(mix((uint64_t)P->k(1) + 17, (uint64_t)(arg % std::max<int64_t>(1, P->k(2)))));
    return gen_shape<Shape>(r, false);
  }
  int id_arg(int64_t arg) { return AI::sanitize((int)(arg % std::max<int64_t>(1, P->k(3)))); }
  static int dflt_val() { return AI::uninit ? (int)V_UNKNOWN : E::dflt; }
  static Model fresh(const Shape& sh, int v, int aid) {
    Model m;
    Shape t = sh; t.resolve();
    m.st = NORMAL; m.d = dims_of(t); m.v.assign(size_of(m.d), v); m.aid = aid;
    return m;
  }

  bool in_own_buffer(int i) const {
    if (!AI::is_auto || s[i].m.st != NORMAL || s[i].m.v.empty()) return false;
    uintptr_t p = (uintptr_t)s[i].a->base(), o = (uintptr_t)s[i].a;
    return p >= o && p < o + sizeof(A);
  }

  // ---------------------------------------------------------- structure
  // Checks that the array object in slot i is consistent on its own: shape,
  // storage, ownership. Returns its current contents.
  bool inspect(int i, Model& m, uint32_t extra) {
    A& a = *s[i].a;
    m = Model();
    m.d = dims_of(a.shape());
    index_t n = size_of(m.d);
    m.aid = AI::id(a.get_allocator());
    const T* base = nullptr;
    bool lib_empty; size_t lib_size;
    { InLib l; base = const_cast<const A&>(a).base(); lib_empty = a.empty(); lib_size = a.size(); }
    if (lib_size != (size_t)n || lib_empty != (n == 0))
      anomaly(ctx(P_VAL) | extra, "size-mismatch", "size() is %zu, empty() %d for a shape of %lld elements", lib_size, lib_empty, (long long)n);
    { const char* bad; { InLib l; bad = wrong_accessor(const_cast<const A&>(a), m.d); } if (bad) anomaly(ctx(P_VAL) | extra, "accessor", "%s of an array contradicts its shape", bad); }
    if (n == 0) { m.st = NORMAL; return true; }
    if (!base) {
      if (static_default()) { m.st = HOLLOW; return true; }
      anomaly(ctx(P_MEM | P_VAL) | P_FAIL | extra, "shape-without-elements", "array of %lld elements has no storage", (long long)n);
      return false;
    }
    m.st = NORMAL;
    const Block* blk = nullptr;
    for (index_t k = 0; k < n; k++) {
      const T* p = base + offset_of(m.d, k);
      const T* q;
      { InLib l; q = &const_cast<const A&>(a)[index_of<Shape>(m.d, k)]; }
      if (p != q) anomaly(ctx(P_VAL | P_MEM) | extra, "element-address", "element %lld is not where the shape puts it", (long long)k);
      if (!addressable(p, sizeof(T))) {
        anomaly(ctx(P_MEM | P_FAIL) | extra, "element-outside-live-storage", "element %lld of an array of %lld lies outside live storage", (long long)k, (long long)n);
        return false;
      }
      const Block* b = find_block(p);
      if (!blk) blk = b;
      if (b != blk) anomaly(ctx(P_MEM) | extra, "storage-split", "elements of one array lie in different blocks");
      if constexpr (E::is_obj || AI::hooks) {
        if (!storage_alive(p) || (E::is_obj && !elem_alive((const obj*)(const void*)p))) {
          anomaly(pm(2) | (AI::hooks ? P_ALLOC : 0) | P_FAIL | ctx(0) | extra, "element-not-constructed", "element %lld of an array of %lld is not constructed", (long long)k, (long long)n);
          return false;
        }
      }
    }
    if (blk->kind == B_OBJECT) {
      if (!AI::is_auto || blk->p != (uintptr_t)s[i].a) {
        anomaly(P_MEM | P_AUTO, "foreign-buffer", "array's elements live inside another object");
        return false;
      }
    } else {
      if (AI::is_auto && blk->n <= AI::N)
        anomaly(P_AUTO, "buffer-not-used", "a block of %zu elements came from the fallback allocator although %zu fit the object", blk->n, (size_t)AI::N);
      if (!AI::is_auto && blk->alloc_id != m.aid)
        anomaly(P_MEM | P_ALLOC | extra, "allocator-mismatch", "array with allocator %d holds a block from allocator %d", m.aid, blk->alloc_id);
      if (AI::is_auto) m.aid = blk->alloc_id;
    }
    if constexpr (E::is_obj || AI::hooks) {
      size_t alive = elems_alive_in((void*)blk->p, blk->bytes);
      if (alive != (size_t)n)
        anomaly(pm(2) | (AI::hooks ? P_ALLOC : 0) | P_FAIL | ctx(0) | extra, "constructed-count", "%zu elements are constructed in the storage of an array of %lld", alive, (long long)n);
    }
    for (index_t k = 0; k < n; k++) m.v.push_back(E::peek(base + offset_of(m.d, k)));
    return true;
  }

  static bool same_dims(const std::vector<DimM>& a, const std::vector<DimM>& b, bool strides) {
    for (size_t i = 0; i < a.size(); i++)
      if (a[i].min != b[i].min || a[i].ext != b[i].ext || (strides && a[i].stride != b[i].stride)) return false;
    return true;
  }

  // Every slot against its model.
  void verify_all(const char* when) {
    std::vector<uintptr_t> blocks;
    uint64_t sig = 1;
    for (size_t i = 0; i < s.size(); i++) {
      if (!s[i].a) { sig = mix(sig, 3); continue; }
      Model now;
      if (!inspect((int)i, now, 0)) continue;
      Model& m = s[i].m;
      if (now.st != m.st)
        anomaly(ctx(P_VAL), "state", "slot %zu after %s: array %s", i, when, m.st == HOLLOW ? "has elements again" : "lost its elements");
      bool nonempty = !m.v.empty() || m.st == HOLLOW;
      if (!same_dims(now.d, m.d, nonempty && m.st != HOLLOW))
        anomaly(ctx(P_VAL), "shape", "slot %zu after %s: shape differs from the model (%lld elements, expected %zu)", i, when, (long long)size_of(now.d), m.v.size());
      if (now.st == NORMAL && now.v.size() == m.v.size()) {
        for (size_t k = 0; k < m.v.size(); k++)
          if (m.v[k] != V_UNKNOWN && m.v[k] != now.v[k])
            anomaly(ctx(P_VAL), "value", "slot %zu after %s: element %zu is %d, expected %d", i, when, k, now.v[k], m.v[k]);
      }
      if (!AI::is_auto) {
        if (m.aid >= 0 && now.aid != m.aid)
          anomaly(P_ALLOC, "allocator", "slot %zu after %s: allocator is %d, expected %d", i, when, now.aid, m.aid);
      } else if (!now.v.empty() && !in_own_buffer((int)i) && now.st == NORMAL) {
        if (m.aid >= 0 && now.aid != m.aid)
          anomaly(P_ALLOC | P_AUTO, "allocator", "slot %zu after %s: fallback allocator is %d, expected %d", i, when, now.aid, m.aid);
        m.aid = now.aid;
      }
      if (now.st == NORMAL && !now.v.empty()) {
        const Block* b = find_block(s[i].a->base());
        if (std::find(blocks.begin(), blocks.end(), b->p) != blocks.end())
          anomaly(ctx(P_MEM | P_VAL), "shared-storage", "two arrays share one block");
        blocks.push_back(b->p);
      }
      sig = mix(sig, (uint64_t)m.st * 64 + std::min<size_t>(m.v.size(), 31) + (in_own_buffer((int)i) ? 4096 : 0) + ((uint64_t)(m.aid & 3) << 16));
    }
    state_sig(mix(sig, (uint64_t)(had_failure ? 1 : 0) + (uint64_t)R * 8));
    size_t live = live_blocks(B_ALLOC), holders = 0;
    for (auto& x : s) if (x.a) holders++;
    if (live > holders) anomaly(ctx(P_MEM), "leak", "after %s: %zu blocks live for %zu arrays", when, live, holders);
  }

  // ---------------------------------------------------------- execution
  // Runs f as a library call under the current fault plan. 0: completed,
  // 1: failed with an injected failure.
  template <class F> int guarded(const Op& op, bool faults, F&& f) {
    if (faults && op.fkind) set_plan(op.fkind, op.fat, op.fpersist); else clear_plan();
    int threw = 0;
    try { InLib l; f(); }
    catch (const std::bad_alloc&) { threw = 1; }
    catch (const elem_fault&) { threw = 2; }
    catch (...) { threw = 3; }
    bool fired = fault_fired();
    clear_plan();
    unforbid();
    if (threw && !fired) anomaly(P_FAIL | P_VAL, "spurious-failure", "%s failed although nothing was made to fail", kind_name[op.kind]);
    if (threw == 3) anomaly(P_FAIL, "failure-replaced", "%s reported a failure other than the injected one", kind_name[op.kind]);
    if (threw) { had_failure = true; PROBE("life:failed-op"); }
    else if (fired) { PROBE("life:swallowed-fault"); }
    ev(0x11FE, op.kind, threw);
    last_threw = threw;
    return threw ? 1 : 0;
  }
  struct CallFault { // user callables fail through here
    static void point() { InHarness h; if (fault_point(F_CALL)) throw elem_fault{F_CALL}; }
  };

  void* new_object() { return block_alloc(sizeof(A), 1, 0, B_OBJECT, alignof(A) < 64 ? 64 : alignof(A)); }
  void free_object(void* p) { block_free(p, 1, 0, B_OBJECT, true); }

  // Builds an array in slot i with f(memory). On failure the slot is empty.
  template <class F> int build(int i, const Op& op, bool faults, F&& f) {
    void* p = new_object();
    int rc = guarded(op, faults, [&] { f(p); });
    if (rc) {
      if (E::is_obj && elems_alive_in(p, sizeof(A)))
        anomaly(pm(2) | P_FAIL | ctx(0), "leaked-elements", "elements of an array that failed to construct were not destroyed");
      free_object(p);
      s[i].a = nullptr; s[i].m = Model();
    } else {
      s[i].a = (A*)p;
    }
    return rc;
  }
  // Destroys slot i (never fails).
  void destroy(int i) {
    if (!s[i].a) return;
    clear_plan();
    forbid((1u << F_ALLOC) | (1u << F_CTOR) | (1u << F_ASSIGN), P_XFER | P_FAIL, "destroying an array");
    { InLib l; s[i].a->~A(); }
    unforbid();
    if (E::is_obj && elems_alive_in(s[i].a, sizeof(A)))
      anomaly(pm(2) | ctx(0), "leaked-elements", "elements in the object's buffer outlived the array");
    free_object(s[i].a);
    s[i].a = nullptr; s[i].m = Model();
  }

  // After a failed or a moving operation: adopt what slot i now holds, given
  // what may have happened to it.
  //   old != null: elements must be the old ones or moved-from (same shape),
  //   or the array is empty, or it holds `other` (storage exchanged).
  void resync(int i, const Model* old, const Model* other, std::vector<int> ids, uint32_t props, const char* what) {
    Model now;
    if (!s[i].a) return;
    if (!inspect(i, now, props)) return;
    if (old && now.st == NORMAL && !now.v.empty()) {
      bool ok = same_dims(now.d, old->d, true) && old->st == NORMAL && now.v.size() == old->v.size();
      if (ok) for (size_t k = 0; k < now.v.size(); k++)
        if (old->v[k] != V_UNKNOWN && now.v[k] != old->v[k] && now.v[k] != E::moved(old->v[k])) ok = false;
      if (!ok && other && other->st == NORMAL && same_dims(now.d, other->d, true) && now.v.size() == other->v.size()) {
        ok = true;
        for (size_t k = 0; k < now.v.size(); k++)
          if (other->v[k] != V_UNKNOWN && now.v[k] != other->v[k]) ok = false;
      }
      if (!ok) anomaly(ctx(P_VAL) | props, "source-corrupted", "after %s: an array holds values it never had", what);
      // unknown values stay unknown
      if (!E::is_obj) for (size_t k = 0; k < now.v.size(); k++) if (k < old->v.size() && old->v[k] == V_UNKNOWN) now.v[k] = V_UNKNOWN;
    } else if (!E::is_obj && !old) {
      for (auto& x : now.v) x = V_UNKNOWN;
    }
    if (!AI::is_auto) {
      if (!ids.empty() && std::find(ids.begin(), ids.end(), now.aid) == ids.end())
        anomaly(P_ALLOC, "allocator", "after %s: allocator is %d", what, now.aid);
    } else if (now.aid < 0 || in_own_buffer(i)) {
      now.aid = ids.size() == 1 ? ids[0] : unknown_id();
    }
    s[i].m = now;
  }

  bool usable(int i) const { return s[i].a && s[i].m.st == NORMAL; }
  static bool flag(const Op& op, int b) { return (op.arg(6) >> b) & 1; }

  bool transferable(int from, int to_id) const {
    if (AI::is_auto && in_own_buffer(from)) return false;
    if (AI::is_auto && s[from].m.aid < 0 && AI::stateful) return false;
    return to_id >= 0 && s[from].m.aid == to_id;
  }
  static const uint32_t ELEM_OPS = (1u << F_ALLOC) | (1u << F_CTOR) | (1u << F_ASSIGN) | (1u << F_CMP);
  void forbid_transfer(bool yes, const char* what) {
    if (yes) forbid(ELEM_OPS, P_XFER, what);
  }
  void expect_storage(const T* before, int i, const Block* b) {
    if (s[i].a->base() != before)
      anomaly(P_XFER, "storage-not-transferred", "a transfer did not hand over the storage");
    if (b && !b->live) anomaly(P_XFER | P_MEM, "transferred-block-released", "a transfer released the storage");
  }

  // The source of a transfer is a default constructed array again.
  void expect_default(int i, const char* what) {
    const Model& m = s[i].m;
    if (m.st == HOLLOW) {   // known finding: shapes that cannot be empty
      if (g_prop == 4) PROBE("life:hollow");
      return;
    }
    Model want = fresh(Shape(), dflt_val(), 0);
    if (!same_dims(m.d, want.d, true))
      anomaly(ctx(P_VAL), "moved-from-shape", "after %s: the moved-from array does not have the default shape", what);
  }

  // ---------------------------------------------------------- helpers
  static int unknown_id() { return AI::stateful ? -1 : (int)HEAP_ID; }
  void adopt_id(int i, int a, int b) {
    int id = AI::id(s[i].a->get_allocator());
    if (id != a && id != b) anomaly(P_ALLOC, "allocator", "after swap: allocator is %d, which neither array had", id);
    s[i].m.aid = id;
  }
  template <size_t... Is>
  static index_t rank_impl(const std::vector<DimM>& d, const typename Shape::index_type& ix, std::index_sequence<Is...>) {
    index_t r = 0, mul = 1;
    ((r += (std::get<Is>(ix) - d[Is].min) * mul, mul *= d[Is].ext), ...);
    (void)mul; (void)d; (void)ix;
    return r;
  }
  static index_t rank_of(const std::vector<DimM>& d, const typename Shape::index_type& ix) {
    InHarness h;
    return rank_impl(d, ix, std::make_index_sequence<R>());
  }
  static bool compact_expected() {
    std::vector<DimK> k;
    dim_kinds<Shape>(k, std::make_index_sequence<R>());
    for (size_t i = 0; i < k.size(); i++) if (k[i].sstr && i != 0) return false;
    return true;
  }
  template <size_t... Is>
  static auto whole(const Shape& sh, std::index_sequence<Is...>) {
    return std::make_tuple(nda::interval<>(std::get<Is>(sh.dims()).min(), std::get<Is>(sh.dims()).extent())...);
  }
  template <class Ref> static void view_misc(const Ref& r) {
    if constexpr (R > 0) {
      auto c = r[whole(r.shape(), std::make_index_sequence<R>())];
      auto e = nda::convert_shape<nda::shape_of_rank<R>>(c);
      e.shape().resolve();
      if (e.base() != r.base()) { InHarness h; anomaly(pm(4) | pm(8), "view-base", "cropping a view to its own bounds moved it"); }
    }
  }
  bool exec_set_shape(const Op& op, int x);
  bool exec_reinterp(const Op& op, int x, int y, bool faults);
  // A sub-box of m (at least one element), as model dims, offset of its first element.
  std::vector<DimM> sub_box(const std::vector<DimM>& d, Rng& r, index_t& offset) {
    std::vector<DimK> k;
    dim_kinds<Shape>(k, std::make_index_sequence<R>());
    std::vector<DimM> o = d;
    offset = 0;
    for (size_t i = 0; i < R; i++) {
      if (k[i].sext) continue;
      index_t lo = r.chance(1, 2) ? 0 : r.below(d[i].ext);
      index_t e = r.range(1, d[i].ext - lo);
      if (!k[i].smin) o[i].min = r.chance(1, 2) ? d[i].min + lo : r.range(-2, 5);
      o[i].ext = e;
      offset += lo * d[i].stride;
    }
    return o;
  }

  // Executes op. Returns false when it failed (and must be retried).
  bool exec(const Op& op, bool faults);

  // ---------------------------------------------------------- programs
  static void gen(Rng& r, Program& p, int prop) {
    // knobs: 0 slots, 1 shape pool seed, 2 shape pool size, 3 allocator ids, 4 default allocator id, 5 most elements in a big run
    p.knob = {r.range(2, 4), (int64_t)r.below(1 << 20), r.range(2, 6), r.range(1, 3), prop == 5 ? r.range(0, 2) : (r.chance(1, 3) ? 1 : 0), draw_big(r, 600)};
    int nops = (int)r.range(3, r.chance(1, 3) ? 30 : 12);
    int fprob = prop == 3 || prop == 2 ? 2 : prop == 6 ? 12 : r.chance(1, 4) ? 0 : 3;   // 1/fprob
    for (int i = 0; i < nops; i++) {
      Op o;
      static const int w_all[] = {
        K_DEFAULT, K_SHAPE, K_SHAPE, K_VALUE, K_VALUE, K_COPY, K_COPY, K_MOVE, K_MOVE, K_DESTROY,
        K_OPCOPY, K_OPCOPY, K_OPCOPY, K_OPMOVE, K_OPMOVE, K_OPMOVE, K_FNCOPY, K_FNMOVE, K_ASSIGNV, K_ASSIGNV, K_CLEAR,
        K_RESHAPE, K_RESHAPE, K_RESHAPE, K_SWAP, K_SWAP, K_SWAP, K_WRITE, K_FILL, K_GENERATE, K_TRANSFORM, K_FOREACH,
        K_MAKECOPY, K_MAKECOMPACT, K_MAKEMOVE, K_MAKEMOVE, K_COPYINTO, K_MOVEINTO, K_MOVEFREE, K_EQ, K_VIEWS,
        K_SETSHAPE, K_REINTERP, K_QUOTA};
      static const int w_xfer[] = {
        K_VALUE, K_SHAPE, K_COPY, K_MOVE, K_MOVE, K_OPMOVE, K_OPMOVE, K_OPMOVE, K_SWAP, K_SWAP, K_SWAP, K_MOVEFREE, K_MAKEMOVE,
        K_FILL, K_GENERATE, K_TRANSFORM, K_FOREACH, K_VIEWS, K_VIEWS, K_COPYINTO, K_MOVEINTO, K_EQ, K_FNCOPY, K_OPCOPY, K_ASSIGNV, K_QUOTA, K_RESHAPE, K_CLEAR, K_REINTERP};
      if (i < 2) o.kind = r.chance(1, 2) ? K_VALUE : K_SHAPE;
      else if (prop == 6 && r.chance(3, 4)) o.kind = w_xfer[r.below(sizeof w_xfer / sizeof *w_xfer)];
      else o.kind = w_all[r.below(sizeof w_all / sizeof *w_all)];
      for (int j = 0; j < 6; j++) o.a.push_back(r.below(64));
      if (i < 2) o.a[0] = i;
      o.a.push_back(r.below(256));
      if (fprob && r.chance(1, fprob)) {
        // A kind of failure this operation can meet, early or late in it.
        switch (o.kind) {
        case K_FILL: o.fkind = F_ASSIGN; break;
        case K_GENERATE: case K_TRANSFORM: case K_FOREACH: o.fkind = r.chance(1, 3) ? F_ASSIGN : F_CALL; break;
        case K_COPYINTO: case K_MOVEINTO: case K_WRITE: o.fkind = F_ASSIGN; break;
        case K_EQ: o.fkind = F_CMP; break;
        case K_RESHAPE: case K_MAKECOPY: case K_MAKECOMPACT: case K_MAKEMOVE: {
          static const int kinds[] = {F_ALLOC, F_CTOR, F_ASSIGN};
          o.fkind = kinds[r.below(3)];
          break;
        }
        default: o.fkind = r.chance(1, 3) ? F_ALLOC : F_CTOR;
        }
        if (!E::is_obj && o.fkind != F_CALL && !(AI::hooks && o.fkind == F_CTOR)) o.fkind = F_ALLOC;
        o.fat = 1 + (int)(o.fkind == F_ALLOC ? (r.chance(3, 4) ? 0 : 1) : r.chance(1, 2) ? r.below(3) : r.below(20));
        if (p.knob[5] && o.fkind != F_ALLOC && r.chance(1, 2)) o.fat = 1 + (int)r.below(p.knob[5]);
        o.fpersist = r.chance(1, 3);
      }
      p.ops.push_back(o);
    }
  }

  static void run(const Program& p) {
    BigRun big(p.k(5));
    Sim w;
    w.P = &p;
    w.s.resize(std::max<int64_t>(1, std::min<int64_t>(p.k(0), 6)));
    g_default_id = AI::sanitize((int)p.k(4));
    g_hooked = AI::hooks;
    for (const Op& op : p.ops) {
      w.opno++;
      set_step_cap(g_big ? 4000000 : 400000, pm(3) | pm(4) | pm(1));
      trace("op %d: %s a=%lld,%lld,%lld,%lld flags=%lld fault=%s@%d%s\n", w.opno, kind_name[op.kind % K_COUNT], (long long)op.arg(0),
            (long long)op.arg(1), (long long)op.arg(2), (long long)op.arg(3), (long long)op.arg(6), fault_name[op.fkind], op.fat, op.fpersist ? "+" : "");
      bool done = w.exec(op, true);
      w.verify_all(kind_name[op.kind]);
      if (!done && !flag(op, 7)) {
        int64_t q = g_quota;
        g_quota = -1;
        trace("  failed; again without faults\n");
        if (!w.exec(op, false)) anomaly(P_FAIL, "retry-failed", "%s still fails after failures stopped", kind_name[op.kind]);
        w.verify_all("retry");
        g_quota = q;
        PROBE("life:retried");
      }
    }
    // Faults stop; everything is destroyed; nothing may be left.
    g_quota = -1;
    for (size_t i = 0; i < w.s.size(); i++) w.destroy((int)i);
    if (live_blocks(B_ALLOC)) {
      const Block* b = first_live(B_ALLOC);
      anomaly(w.ctx(P_MEM), "leak", "all arrays destroyed, %zu blocks still allocated (first: %zu elements, allocator %d)", live_blocks(B_ALLOC), b->n, b->alloc_id);
    }
    if (elems_alive_total())
      anomaly(pm(2) | w.ctx(0), "leaked-elements", "all arrays destroyed, %zu elements still constructed", elems_alive_total());
    set_step_cap(0, 0);
  }
};

template <class T, class Shape, class Alloc>
bool Sim<T, Shape, Alloc>::exec(const Op& op, bool faults) {
  const int n = (int)s.size();
  const int x = (int)(op.arg(0) % n);
  int y = (int)(op.arg(1) % n);
  const int kind = op.kind % K_COUNT;
  const char* what = kind_name[kind];
  const int val = E::norm(1000 + (stamp++));
  Slot &X = s[x], &Y = s[y];
  auto alloc_from = [&](int64_t a) { return AI::make(id_arg(a)); };
  // ids an auto_allocator's fallback may have after copying
  switch (kind) {
  case K_DEFAULT: {
    destroy(x);
    int id = flag(op, 0) ? id_arg(op.arg(2)) : AI::dflt();
    Alloc al = AI::make(id);
    int rc = build(x, op, faults, [&](void* p) { if (flag(op, 0)) new (p) A(al); else new (p) A(); });
    if (rc) return false;
    X.m = fresh(Shape(), dflt_val(), id);
    return true;
  }
  case K_SHAPE: {
    destroy(x);
    Shape sh = shape_arg(op.arg(2));
    int id = flag(op, 0) ? id_arg(op.arg(3)) : AI::dflt();
    Alloc al = AI::make(id);
    int rc = build(x, op, faults, [&](void* p) {
      if (!flag(op, 0)) new (p) A(sh);
      else if (flag(op, 1)) new (p) A(sh, al);
      else new (p) A(nda::make_array<T>(sh, al));
    });
    if (rc) return false;
    X.m = fresh(sh, dflt_val(), id);
    return true;
  }
  case K_VALUE: {
    destroy(x);
    Shape sh = shape_arg(op.arg(2));
    int id = flag(op, 0) ? id_arg(op.arg(3)) : AI::dflt();
    Alloc al = AI::make(id);
    T v(val);
    int rc = build(x, op, faults, [&](void* p) {
      if (!flag(op, 0)) new (p) A(sh, v);
      else if (flag(op, 1)) new (p) A(sh, v, al);
      else new (p) A(nda::make_array<T>(sh, v, al));
    });
    if (rc) return false;
    X.m = fresh(sh, val, id);
    return true;
  }
  case K_COPY: {
    if (x == y) y = (y + 1) % n;
    if (x == y || !usable(y)) return true;
    Slot& Z = s[y];
    destroy(x);
    int id = flag(op, 0) ? id_arg(op.arg(3)) : AI::sel ? AI::dflt() : AI::is_auto ? unknown_id() : Z.m.aid;
    Alloc al = AI::make(std::max(id, 0));
    int rc = build(x, op, faults, [&](void* p) { if (flag(op, 0)) new (p) A(*Z.a, al); else new (p) A(*Z.a); });
    if (rc) return false;
    X.m = Z.m; X.m.aid = id;
    return true;
  }
  case K_MOVE: {
    if (x == y) y = (y + 1) % n;
    if (x == y || !usable(y)) return true;
    Slot& Z = s[y];
    destroy(x);
    int id = flag(op, 0) ? id_arg(op.arg(3)) : Z.m.aid;
    Alloc al = AI::make(std::max(id, 0));
    Model old = Z.m;
    bool xfer = (!flag(op, 0) && AI::cma) || transferable(y, id);
    const T* base = Z.a->base();
    const Block* b = base && !old.v.empty() ? find_block(base) : nullptr;
    int64_t q = g_quota; if (xfer && flag(op, 5)) g_quota = 0;
    forbid_transfer(xfer, "move construction");
    int rc = build(x, op, faults, [&](void* p) { if (flag(op, 0)) new (p) A(std::move(*Z.a), al); else new (p) A(std::move(*Z.a)); });
    g_quota = q;
    if (rc) { resync(y, &old, nullptr, {old.aid}, P_FAIL, what); return false; }
    X.m = old; X.m.aid = id;
    if (xfer && !old.v.empty()) { expect_storage(base, x, b); PROBE("life:move-transfer"); }
    resync(y, &old, nullptr, {}, 0, what);
    if (xfer) expect_default(y, what);
    return true;
  }
  case K_DESTROY: destroy(x); return true;

  case K_OPCOPY: case K_FNCOPY: {
    if (!X.a || !Y.a) return true;
    if (!usable(y)) return true;
    Model oldx = X.m, src = Y.m;
    bool op_eq = kind == K_OPCOPY;
    int id = op_eq && AI::cca ? src.aid : oldx.aid;
    if (x != y && oldx.st == NORMAL && !oldx.v.empty() && !src.v.empty() && same_dims(oldx.d, src.d, true) && (AI::is_auto || id == oldx.aid)) {
      forbid(1u << F_ALLOC, P_XFER, "assigning into an array of the same shape");
      PROBE("life:assign-same-shape");
    }
    int rc = guarded(op, faults, [&] { if (op_eq) *X.a = const_cast<const A&>(*Y.a); else X.a->assign(const_cast<const A&>(*Y.a)); });
    if (rc) {
      if (x != y) resync(x, nullptr, nullptr, {oldx.aid, id}, P_FAIL, what);
      return false;
    }
    if (x != y) { X.m = src; X.m.aid = id; }
    return true;
  }
  case K_OPMOVE: case K_FNMOVE: case K_MOVEFREE: {
    if (!X.a || !Y.a) return true;
    if (!usable(y)) return true;
    Model oldx = X.m, src = Y.m;
    bool op_eq = kind != K_FNMOVE;
    int id = op_eq && AI::cma ? src.aid : oldx.aid;
    bool xfer = x != y && op_eq && !src.v.empty() &&
                (AI::cma || (transferable(y, oldx.aid) && !(AI::is_auto && in_own_buffer(x))));
    const T* base = Y.a->base();
    const Block* b = base && !src.v.empty() ? find_block(base) : nullptr;
    int64_t q = g_quota; if (xfer && flag(op, 5)) g_quota = 0;
    if (x != y) forbid_transfer(xfer, "move assignment");
    int rc = guarded(op, faults, [&] {
      if (kind == K_OPMOVE) *X.a = std::move(*Y.a);
      else if (kind == K_FNMOVE) X.a->assign(std::move(*Y.a));
      else nda::move(std::move(*Y.a), *X.a);
    });
    g_quota = q;
    if (x == y) return rc == 0;
    if (rc) {
      resync(x, nullptr, nullptr, {oldx.aid, id}, P_FAIL, what);
      resync(y, &src, &oldx, {src.aid, oldx.aid}, P_FAIL, what);
      return false;
    }
    X.m = src; X.m.aid = id;
    if (xfer) { expect_storage(base, x, b); PROBE("life:assign-transfer"); }
    resync(y, &src, &oldx, op_eq && AI::cma ? std::vector<int>{} : std::vector<int>{src.aid}, 0, what);
    return true;
  }
  case K_ASSIGNV: {
    if (!X.a) return true;
    Model old = X.m;
    Shape sh = shape_arg(op.arg(2));
    if (flag(op, 1) && usable(x)) sh = X.a->shape();
    Model want = fresh(sh, val, old.aid);
    T v(val);
    if (old.st == NORMAL && !old.v.empty() && same_dims(old.d, want.d, true)) forbid(1u << F_ALLOC, P_XFER, "assigning into an array of the same shape");
    int rc = guarded(op, faults, [&] { X.a->assign(sh, v); });
    if (rc) { resync(x, nullptr, nullptr, {old.aid}, P_FAIL, what); return false; }
    X.m = want;
    return true;
  }
  case K_CLEAR: {
    if (!X.a) return true;
    int id = X.m.aid;
    int rc = guarded(op, faults, [&] { X.a->clear(); });
    if (rc) { resync(x, nullptr, nullptr, {id}, P_FAIL, what); return false; }
    X.m = fresh(Shape(), dflt_val(), id);
    return true;
  }
  case K_RESHAPE: {
    if (!usable(x)) return true;
    Model old = X.m;
    Shape sh = shape_arg(op.arg(2));
    Model want = fresh(sh, dflt_val(), old.aid);
    if (!old.v.empty())
      for (size_t k = 0; k < want.v.size(); k++) {
        index_t j = locate(want.d, (index_t)k, old.d);
        if (j >= 0) want.v[k] = old.v[j];
      }
    bool first_alloc = faults && op.fkind == F_ALLOC && op.fat == 1;
    bool by_quota = g_quota == 0;
    int rc = guarded(op, faults, [&] { X.a->reshape(sh); });
    if (rc) {
      if (last_threw == 1 && (first_alloc || by_quota)) { PROBE("life:reshape-alloc-failed"); return false; }   // model unchanged: strict
      resync(x, nullptr, nullptr, {old.aid}, P_FAIL, what);
      return false;
    }
    if (same_dims(old.d, want.d, true) && !old.v.empty()) return true;
    X.m = want;
    return true;
  }
  case K_SWAP: {
    if (!usable(x) || !usable(y)) return true;
    Model a = X.m, b = Y.m;
    bool same = a.aid == b.aid && a.aid >= 0;
    bool xfer = x == y ? AI::sw : AI::sw || AI::cma || (same && !in_own_buffer(x) && !in_own_buffer(y));
    const T *pa = X.a->base(), *pb = Y.a->base();
    int64_t q = g_quota; if (xfer && flag(op, 5)) g_quota = 0;
    forbid_transfer(xfer, "swap");
    int rc = guarded(op, faults, [&] {
      using nda::swap;
      if (flag(op, 0)) X.a->swap(*Y.a); else swap(*X.a, *Y.a);
    });
    g_quota = q;
    if (rc) {
      std::vector<int> ids = {a.aid, b.aid};
      resync(x, nullptr, nullptr, ids, P_FAIL, what);
      if (x != y) resync(y, nullptr, nullptr, ids, P_FAIL, what);
      return false;
    }
    if (x == y) return true;
    X.m = b; Y.m = a;
    if (!AI::sw) {
      if (AI::cma) { X.m.aid = Y.m.aid = -1; adopt_id(x, a.aid, b.aid); adopt_id(y, a.aid, b.aid); }
      else { X.m.aid = a.aid; Y.m.aid = b.aid; }
    }
    if (xfer) {
      if (!a.v.empty()) expect_storage(pa, y, find_block(pa));
      if (!b.v.empty()) expect_storage(pb, x, find_block(pb));
      PROBE("life:swap-transfer");
    }
    return true;
  }
  case K_WRITE: {
    if (!usable(x) || X.m.v.empty()) return true;
    index_t k = op.arg(2) % (index_t)X.m.v.size();
    T v(val);
    int rc = guarded(op, faults, [&] { (*X.a)[index_of<Shape>(X.m.d, k)] = v; });
    if (rc) return false;
    X.m.v[k] = val;
    return true;
  }
  case K_FILL: case K_GENERATE: case K_TRANSFORM: case K_FOREACH: {
    if (!usable(x)) return true;
    Model old = X.m;
    T v(val);
    int calls = 0;
    const auto& d = X.m.d;
    forbid(1u << F_ALLOC, P_XFER, what);
    std::vector<int> want = old.v;
    int rc;
    if (kind == K_FILL) {
      for (auto& w : want) w = val;
      rc = guarded(op, faults, [&] { if (flag(op, 0)) nda::fill(*X.a, v); else nda::fill(X.a->ref(), v); });
    } else if (kind == K_GENERATE) {
      for (auto& w : want) w = val;
      auto g = [&]() -> T { CallFault::point(); calls++; return T(val); };
      rc = guarded(op, faults, [&] { if (flag(op, 0)) nda::generate(*X.a, g); else nda::generate(X.a->ref(), g); });
    } else if (kind == K_TRANSFORM) {
      for (size_t k = 0; k < want.size(); k++) want[k] = E::norm(val + (int)k);
      auto f = [&](const typename Shape::index_type& i) -> T {
        CallFault::point();
        calls++;
        return T(val + (int)rank_of(d, i));
      };
      rc = guarded(op, faults, [&] { nda::transform_index(X.a->ref(), f); });
    } else {
      for (auto& w : want) w = w == V_UNKNOWN ? (int)V_UNKNOWN : E::norm(w + 7);
      rc = guarded(op, faults, [&] {
        X.a->for_each_value([&](T& e) {
          CallFault::point();
          calls++;
          int o; { InHarness h; o = E::peek(&e); }
          e = T(o + 7);
        });
      });
    }
    if (rc) {
      Model now;
      if (inspect(x, now, 0) && now.v.size() == want.size()) {
        for (size_t k = 0; k < want.size(); k++)
          if (old.v[k] != V_UNKNOWN && now.v[k] != old.v[k] && now.v[k] != want[k])
            anomaly(ctx(P_VAL) | P_FAIL, "value", "after interrupted %s element %zu is %d: neither old nor new", what, k, now.v[k]);
        for (size_t k = 0; k < want.size(); k++) X.m.v[k] = old.v[k] == V_UNKNOWN ? (int)V_UNKNOWN : now.v[k];
      }
      return false;
    }
    if (kind != K_FILL && calls != (int)want.size())
      anomaly(ctx(P_VAL), "call-count", "%s made %d calls for %zu elements", what, calls, want.size());
    X.m.v = want;
    return true;
  }
  case K_MAKECOPY: {
    if (x == y) y = (y + 1) % n;
    if (x == y || !usable(y)) return true;
    Slot& Z = s[y];
    int id = id_arg(op.arg(3));
    Alloc al = AI::make(id);
    Model want = Z.m;
    bool to_shape_ = flag(op, 0) && !Z.m.v.empty();
    Shape sh = Z.a->shape();
    if (to_shape_) {
      sh = shape_arg(op.arg(2));
      Shape t = sh; t.resolve();
      // must lie within the source
      auto d = dims_of(t);
      for (size_t i = 0; i < R; i++) if (d[i].min < Z.m.d[i].min || d[i].min + d[i].ext > Z.m.d[i].min + Z.m.d[i].ext) to_shape_ = false;
      if (size_of(d) == 0) to_shape_ = false;
      if (!to_shape_) sh = Z.a->shape();
    }
    destroy(x);
    if (!flag(op, 1)) { id = AI::dflt(); }
    int rc = build(x, op, faults, [&](void* p) {
      if (to_shape_) { if (flag(op, 1)) new (p) A(nda::make_copy(*Z.a, sh, al)); else new (p) A(nda::make_copy(*Z.a, sh)); }
      else if (flag(op, 2)) { if (flag(op, 1)) new (p) A(nda::make_copy(*Z.a, al)); else new (p) A(nda::make_copy(*Z.a)); }
      else new (p) A(nda::make_copy(Z.a->cref(), flag(op, 1) ? al : AI::make(id)));
    });
    if (rc) return false;
    X.m = fresh(sh, 0, id);
    for (size_t k = 0; k < X.m.v.size(); k++) X.m.v[k] = Z.m.v[locate(X.m.d, (index_t)k, Z.m.d)];
    return true;
  }
  case K_MAKECOMPACT: {
    // The result has another type; look at it and let it go.
    if (!usable(y) || Y.m.v.empty()) return true;
    const bool dflt = flag(op, 2);
    const int id = dflt ? AI::dflt() : id_arg(op.arg(3));
    Alloc al = AI::make(id);
    Model old = Y.m;
    bool mv = flag(op, 0), rv = flag(op, 1) && mv;
    bool complete = false;
    int rc = guarded(op, faults, [&] {
      auto check = [&](auto&& c) {
        InHarness h;
        auto d = dims_of(c.shape());
        if (!same_dims(d, old.d, false)) anomaly(ctx(P_VAL), "shape", "%s: result has other bounds", what);
        if (!one_to_one(d) || (compact_expected() && flat_ext(d) != size_of(d))) anomaly(ctx(P_VAL), "not-compact", "%s: result is not compact", what);
        for (size_t k = 0; k < old.v.size(); k++) {
          const T* e = &c.base()[offset_of(d, (index_t)k)];
          if (old.v[k] != V_UNKNOWN && E::peek(e) != old.v[k]) anomaly(ctx(P_VAL), "value", "%s: element %zu is %d, expected %d", what, k, E::peek(e), old.v[k]);
        }
        const char* p = reinterpret_cast<const char*>(c.data());
        const bool own = p >= reinterpret_cast<const char*>(&c) && p < reinterpret_cast<const char*>(&c + 1);
        const Block* b = own ? nullptr : find_block(p);
        const int got = AI::is_auto ? (b ? b->alloc_id : id) : AI::id(c.get_allocator());
        if (got != id)
          anomaly(AI::is_auto ? P_ALLOC | P_AUTO : P_ALLOC, "allocator", "%s: allocator is %d, expected %d", what, got, id);
        complete = true;
      };
      if (dflt) {
        if (!mv) check(nda::make_compact_copy(*Y.a));
        else if (!rv) check(nda::make_compact_move(*Y.a));
        else check(nda::make_compact_move(std::move(*Y.a)));
      } else if (!mv) check(nda::make_compact_copy(*Y.a, al));
      else if (!rv) check(nda::make_compact_move(*Y.a, al));
      else check(nda::make_compact_move(std::move(*Y.a), al));
    });
    if (mv) resync(y, &old, nullptr, {}, rc ? P_FAIL : 0, what);
    return rc == 0;
  }
  case K_MAKEMOVE: {
    if (x == y) y = (y + 1) % n;
    if (x == y || !usable(y) || s[y].m.v.empty()) return true;
    Slot& Z = s[y];
    int id = flag(op, 2) && !AI::is_auto ? Z.m.aid : id_arg(op.arg(3));
    Alloc al = AI::make(std::max(id, 0));
    Model old = Z.m;
    Shape sh = Z.a->shape();
    bool rv = flag(op, 0);
    if (flag(op, 3)) {
      Shape c = shape_arg(op.arg(2));
      c.resolve();
      auto d = dims_of(c);
      bool in = size_of(d) > 0;
      for (size_t i = 0; i < R; i++) if (d[i].min < old.d[i].min || d[i].min + d[i].ext > old.d[i].min + old.d[i].ext) in = false;
      if (in) sh = c;
    }
    destroy(x);
    bool xfer = rv && same_dims(dims_of(sh), old.d, true) && transferable(y, id);
    const T* base = Z.a->base();
    const Block* b = find_block(base);
    forbid_transfer(xfer, "make_move of an rvalue");
    int rc = build(x, op, faults, [&](void* p) {
      if (rv) new (p) A(nda::make_move(std::move(*Z.a), sh, al));
      else if (flag(op, 1)) new (p) A(nda::make_move(*Z.a, sh, al));
      else new (p) A(nda::make_move(Z.a->ref(), sh, al));
    });
    if (rc) { resync(y, &old, nullptr, {old.aid}, P_FAIL, what); return false; }
    if (xfer) { expect_storage(base, x, b); PROBE("life:make-move-transfer"); }
    X.m = fresh(sh, 0, id);
    for (size_t k = 0; k < X.m.v.size(); k++) X.m.v[k] = old.v[locate(X.m.d, (index_t)k, old.d)];
    resync(y, &old, nullptr, {}, 0, what);
    return true;
  }
  case K_COPYINTO: case K_MOVEINTO: {
    // copy/move the part of Y that X covers into X
    if (!usable(x) || !usable(y) || x == y) return true;
    bool in = true;
    for (size_t i = 0; i < R; i++)
      if (X.m.d[i].min < Y.m.d[i].min || X.m.d[i].min + X.m.d[i].ext > Y.m.d[i].min + Y.m.d[i].ext) in = false;
    if (!in || X.m.v.empty()) return true;
    Model oldx = X.m, oldy = Y.m;
    bool mv = kind == K_MOVEINTO;
    forbid(1u << F_ALLOC, P_XFER, what);
    int rc = guarded(op, faults, [&] {
      if (mv) { if (flag(op, 0)) nda::move(*Y.a, *X.a); else if (flag(op, 1)) nda::move(Y.a->ref(), *X.a); else nda::move(*Y.a, X.a->ref()); }
      else { if (flag(op, 0)) nda::copy(*Y.a, *X.a); else if (flag(op, 1)) nda::copy(Y.a->cref(), *X.a); else nda::copy(*Y.a, X.a->ref()); }
    });
    Model nx, ny;
    if (!inspect(x, nx, 0) || !inspect(y, ny, 0)) return rc == 0;
    if (nx.v.size() != oldx.v.size() || ny.v.size() != oldy.v.size()) { anomaly(ctx(P_VAL), "shape", "%s changed a shape", what); return true; }
    for (size_t k = 0; k < oldx.v.size(); k++) {
      index_t j = locate(oldx.d, (index_t)k, oldy.d);
      int newv = oldy.v[j];
      bool arrived = newv == V_UNKNOWN || nx.v[k] == newv;
      if (!arrived && (!rc || (oldx.v[k] != V_UNKNOWN && nx.v[k] != oldx.v[k])))
        anomaly(ctx(P_VAL) | (rc ? P_FAIL : 0), "value", "%s: element %zu is %d, expected %d%s", what, k, nx.v[k], newv, rc ? " or its old value" : "");
      X.m.v[k] = newv == V_UNKNOWN || (rc && oldx.v[k] == V_UNKNOWN && !arrived) ? (int)V_UNKNOWN : nx.v[k];
      if (mv && newv != V_UNKNOWN) {
        if (ny.v[j] != newv && (ny.v[j] != E::moved(newv) || !arrived))
          anomaly(ctx(P_VAL) | (rc ? P_FAIL : 0), "source-corrupted", "%s: source element lost without arriving", what);
        Y.m.v[j] = ny.v[j];
      }
    }
    return rc == 0;
  }
  case K_EQ: {
    if (!usable(x) || !usable(y)) return true;
    bool bounds = same_dims(X.m.d, Y.m.d, false);
    bool e = bounds, known = true;
    if (bounds) for (size_t k = 0; k < X.m.v.size(); k++) {
      if (X.m.v[k] == V_UNKNOWN || Y.m.v[k] == V_UNKNOWN) known = false;
      else if (X.m.v[k] != Y.m.v[k]) e = false;
    }
    if (!known) return true;
    bool r1 = false, r2 = false, r3 = false;
    const A &ca = *X.a, &cb = *Y.a;
    forbid((1u << F_ALLOC) | (1u << F_CTOR) | (1u << F_ASSIGN), P_XFER, "comparing arrays");
    int rc = guarded(op, faults, [&] { r1 = nda::equal(ca, cb); r2 = ca == cb; r3 = ca != cb; });
    if (rc) return false;
    if (r1 != e) anomaly(ctx(P_VAL), "equality", "equal() gives %d, expected %d", r1, e);
    if (r2 == r3) anomaly(ctx(P_VAL), "equality", "== and != agree");
    if (!X.m.v.empty()) {
      bool strict = e && same_dims(X.m.d, Y.m.d, true);
      if (r2 != strict) anomaly(ctx(P_VAL), "equality", "== gives %d, expected %d", r2, strict);
    }
    return true;
  }
  case K_VIEWS: {
    if (!usable(x)) return true;
    index_t sum = 0, cnt = 0, icnt = 0;
    forbid(ELEM_OPS, P_XFER, "making and traversing views");
    int64_t q = g_quota; g_quota = 0;
    int rc = guarded(op, faults, [&] {
      auto r = X.a->ref();
      const A& ca = *X.a;
      nda::const_array_ref<T, Shape> c = ca;
      auto d = ca.cref();
      auto z = r;
      z = d.base() == c.base() ? r : X.a->ref();
      if constexpr (R > 0) nda::for_each_index(z.shape(), [&](const typename Shape::index_type&) { InHarness h; icnt++; });
      c.for_each_value([&](const T& e) { InHarness h; sum += E::peek(&e); cnt++; });
      view_misc(r);
    });
    g_quota = q;
    if (rc) return false;
    index_t want = 0; bool known = true;
    for (int v : X.m.v) { if (v == V_UNKNOWN) known = false; else want += v; }
    if (cnt != (index_t)X.m.v.size() || (R > 0 && icnt != cnt) || (known && want != sum))
      anomaly(ctx(P_VAL), "traversal", "a view of %zu elements is traversed with %lld visits", X.m.v.size(), (long long)cnt);
    return true;
  }
  case K_SETSHAPE: {
    if constexpr (std::is_trivial<T>::value && R >= 1 && !AI::hooks) return exec_set_shape(op, x);
    return true;
  }
  case K_REINTERP: {
    if constexpr (std::is_trivial<T>::value && R >= 1 && !AI::is_auto && !AI::hooks) return exec_reinterp(op, x, y, faults);
    return true;
  }
  case K_QUOTA: {
    quota = op.arg(2) % 4 == 0 ? 0 : op.arg(2) % 4 == 1 ? (int64_t)live_bytes() + 1 : -1;
    g_quota = quota;
    return true;
  }
  }
  return true;
}

template <class T, class Shape, class Alloc>
bool Sim<T, Shape, Alloc>::exec_set_shape(const Op& op, int x) {
  Slot& X = s[x];
  if (!usable(x) || X.m.v.empty()) return true;
  Rng r(mix(op.arg(2), 5));
  index_t offset = 0;
  std::vector<DimM> o = sub_box(X.m.d, r, offset);
  Shape sh = to_shape<Shape>(o);
  std::vector<int> v;
  for (index_t k = 0; k < size_of(o); k++) {
    // element k of the new box is the old element at offset + its own offset
    index_t want = offset + offset_of(o, k), j = -1;
    for (index_t q = 0; q < (index_t)X.m.v.size(); q++) if (offset_of(X.m.d, q) == want) j = q;
    v.push_back(X.m.v[j]);
  }
  forbid(ELEM_OPS, P_XFER, "set_shape");
  guarded(op, false, [&] { if (offset == 0 && flag(op, 0)) X.a->set_shape(sh); else X.a->set_shape(sh, offset); });
  X.m.d = o; X.m.v = v;
  PROBE("life:set_shape");
  return true;
}

template <class T, class Shape, class Alloc>
bool Sim<T, Shape, Alloc>::exec_reinterp(const Op& op, int x, int y, bool faults) {
  if (x == y) y = (y + 1) % (int)s.size();
  Slot& Y = s[y];
  if (x == y || !usable(y) || Y.m.v.empty()) return true;
  if (!AI::cma && Y.m.aid != AI::dflt()) return true;      // documented precondition
  Model old = Y.m;
  Rng r(mix(op.arg(2), 6));
  const T* base = Y.a->base();
  index_t n = (index_t)old.v.size();
  if (flag(op, 0)) {
    // To a flat rank-1 array over the same storage, looked at and released.
    index_t lo = 0;
    for (auto& d : old.d) lo += std::min<index_t>(0, (d.ext - 1) * d.stride);
    nda::shape_of_rank<1> flat(nda::dim<>(r.range(-2, 2), flat_ext(old.d), 1));
    forbid(static_default() ? 0 : ELEM_OPS, P_XFER, "move_reinterpret_shape");
    int rc = guarded(op, faults, [&] {
      auto f = nda::move_reinterpret_shape(std::move(*Y.a), flat, lo);
      InHarness h;
      if (f.base() != base + lo) anomaly(ctx(P_VAL) | P_XFER, "view-base", "move_reinterpret_shape is not at the requested offset");
      for (index_t k = 0; k < n; k++) {
        const T* e = f.base() + (offset_of(old.d, k) - lo);
        if (old.v[k] != V_UNKNOWN && E::peek(e) != old.v[k]) anomaly(ctx(P_VAL), "value", "move_reinterpret_shape changed element %lld", (long long)k);
      }
    });
    resync(y, rc ? &old : nullptr, nullptr, {}, rc ? P_FAIL : 0, "move_reinterpret_shape");
    PROBE("life:reinterpret-flat");
    return rc == 0;
  }
  index_t offset = 0;
  std::vector<DimM> o = sub_box(old.d, r, offset);
  Shape sh = to_shape<Shape>(o);
  destroy(x);
  forbid(static_default() ? 0 : ELEM_OPS, P_XFER, "move_reinterpret_shape");
  int rc = build(x, op, faults, [&](void* p) { new (p) A(nda::move_reinterpret_shape(std::move(*Y.a), sh, offset)); });
  if (rc) { resync(y, &old, nullptr, {}, P_FAIL, "move_reinterpret_shape"); return false; }
  Slot& X = s[x];
  X.m = old; X.m.d = o; X.m.v.clear();
  X.m.aid = AI::cma ? old.aid : AI::dflt();
  for (index_t k = 0; k < size_of(o); k++) {
    index_t want = offset + offset_of(o, k), j = -1;
    for (index_t q = 0; q < n; q++) if (offset_of(old.d, q) == want) j = q;
    X.m.v.push_back(old.v[j]);
  }
  resync(y, nullptr, nullptr, {}, 0, "move_reinterpret_shape");
  PROBE("life:reinterpret-box");
  return true;
}

} // namespace life
#endif
