// World "ein": Einstein reductions over operands shared by tasks into results of
// their own, with operand evaluations, element operations and allocations that
// fail. The model is the list of terms in the documented order. Property C11.
#ifndef WORLD_EIN_H
#define WORLD_EIN_H
#include "cells.h"
#include "array/ein_reduce.h"
#include <array>
#include <memory>

namespace ein_w {
using namespace life;
static const uint32_t P11 = pm(11);

template <size_t R> using Dyn = nda::shape_of_rank<R>;
template <size_t R> using Dense = nda::dense_shape<R>;
template <size_t R> struct fixed_of;
template <> struct fixed_of<0> { using type = nda::shape<>; };
template <> struct fixed_of<1> { using type = nda::fixed_dense_shape<3>; };
template <> struct fixed_of<2> { using type = nda::fixed_dense_shape<3, 3>; };
template <> struct fixed_of<3> { using type = nda::fixed_dense_shape<3, 3, 3>; };
template <size_t R> using Fixed = typename fixed_of<R>::type;
template <size_t R> struct mat_of { using type = Dyn<R>; };
template <> struct mat_of<1> { using type = nda::vector_shape<>; };
template <> struct mat_of<2> { using type = nda::matrix_shape<>; };
template <> struct mat_of<3> { using type = nda::chunky_image_shape<>; };
template <size_t R> using Mat = typename mat_of<R>::type;
template <size_t R> struct mix_of { using type = Dyn<R>; };
template <> struct mix_of<1> { using type = nda::shape<nda::dim<nda::dynamic, 3>>; };
template <> struct mix_of<2> { using type = nda::shape<nda::dim<0>, nda::dim<nda::dynamic, 3>>; };
template <> struct mix_of<3> { using type = nda::shape<nda::dim<0>, nda::dim<>, nda::dense_dim<0, 3>>; };
template <size_t R> using Mix = typename mix_of<R>::type;

enum Form { E_MATMUL, E_DIAG, E_TRACE, E_TRANSPOSE, E_DOT, E_ROWSUM, E_OUTER, E_MAX, E_MIN, E_SUMDOT, E_SUBNEG, E_MUL, E_CHAIN, E_CALL, E_CALLONLY,
  E_CARRAY, E_POINTER, E_DIV, E_PERM3, E_RED3, E_GAP, E_LAST, E_NEGSELF, E_SCALAR, E_CAST, E_OWN, E_RESCALL, E_ADDSUB, E_TWOCALLS, E_SCALARRES, E_CASTCALL, E_NEGCALL, E_MAXCALLS, E_MINCALLS, E_DIVCALLS,
  S_MATMUL, S_TRACE, S_DOT, S_ROW, S_PERM3, S_CALL, S_OUTER, S_FREECALL, E_COUNT };
static const char* const form_name[E_COUNT] = {"matrix product", "diagonal", "trace", "transpose", "dot product", "row sums", "outer product", "maximum", "minimum",
  "dot product of a sum", "negated difference", "running product", "chain of three", "callable operand", "callable only", "C array", "pointer and size", "quotient",
  "permutation of rank 3", "reduction of rank 3", "unused indices", "last value", "negation in place", "scalar operand", "cast", "owning arrays", "callable result",
  "sum and difference", "two callables", "scalar result", "cast callable", "negated callables", "maximum of callables", "minimum of callables", "quotient of callables",
  "make_ein_sum product", "make_ein_sum trace", "make_ein_sum dot", "make_ein_sum rows", "make_ein_sum permutation", "make_ein_sum callable", "make_ein_sum outer",
  "make_ein_sum free index"};
inline bool is_sum(int f) { return f >= S_MATMUL; }

// The value of a callable operand at an index: small, and never zero if the salt
// is odd.
inline int fn_value(int salt, const index_t* ix, size_t n) {
  index_t v = salt >> 1;
  for (size_t i = 0; i < n; i++) v += (2 * (index_t)i + 3) * ix[i];
  v = ((v % 11) + 11) % 11 - 5;
  return (int)(v || !(salt & 1) ? v : 6);
}
using Ix = std::array<index_t, 4>;
// A callable operand. It remembers where it was called.
template <class T> struct Fn {
  int salt;
  std::vector<Ix>* log;
  template <class... Is> T operator()(Is... is) const {
    CallFaultPoint::point();
    Ix ix{{(index_t)is...}};
    int v;
    { InHarness h; log->push_back(ix); v = fn_value(salt, ix.data(), sizeof...(Is)); }
    return T(v);
  }
};
// A callable result: the element itself, found by index.
template <class T, size_t R> struct ResFn {
  T* base;
  const std::vector<DimM>* d;
  std::vector<Ix>* log;
  template <class... Is, class = std::enable_if_t<sizeof...(Is) == R>> T& operator()(Is... is) const {
    CallFaultPoint::point();
    InHarness h;
    Ix ix{{(index_t)is...}};
    log->push_back(ix);
    index_t o = 0;
    for (size_t i = 0; i < R; i++) {
      if (ix[i] < (*d)[i].min || ix[i] >= (*d)[i].min + (*d)[i].ext) anomaly(P11 | pm(9), "index-outside", "the result is addressed outside the loop range");
      o += (ix[i] - (*d)[i].min) * (*d)[i].stride;
    }
    return base[o];
  }
};

// What an operand is to the model.
struct LeafM {
  enum { ARRAY, CALL, RESULT } kind = ARRAY;
  std::vector<int> ix;                 // loop index of each of its dims
  std::vector<DimK> k;
  Place pl;
  int salt = 0;
  std::vector<Ix> log;                 // actual calls
};
struct LoopM { index_t min = 0, ext = 1; };

// One reduction: operands, loops, and the drawing of their bounds.
struct Problem {
  std::vector<LeafM> leaf;             // leaf[0] is the result when has_result
  std::vector<LoopM> loop;
  bool has_result = false, res_callable = false;
  int nloops = 0;
  std::vector<index_t> cap;            // limit of the extent of a loop

  template <class S> int add(std::vector<int> ix) {
    LeafM l; l.ix = std::move(ix);
    dim_kinds<S>(l.k, std::make_index_sequence<S::rank()>());
    return put(std::move(l));
  }
  int put(LeafM l) {
    for (int i : l.ix) nloops = std::max(nloops, i + 1);
    leaf.push_back(std::move(l));
    return (int)leaf.size() - 1;
  }
  int call(std::vector<int> ix, int salt) { LeafM l; l.kind = LeafM::CALL; l.ix = std::move(ix); l.salt = salt; return put(std::move(l)); }

  bool provides(const LeafM& l, int i) const {
    if (l.kind != LeafM::ARRAY || (res_callable && &l == &leaf[0])) return false;
    return std::find(l.ix.begin(), l.ix.end(), i) != l.ix.end();
  }
  // Bounds of all dims; strides of the result are known already.
  bool draw(Rng& r, const std::vector<char>& exact_result) {
    loop.assign(nloops, LoopM());
    const bool dflt = cap.empty();
    cap.resize(nloops, 4);
    if (dflt && nloops && r.chance(1, 16)) {      // one long loop, the others short
      for (auto& c : cap) c = 2;
      cap[(size_t)r.below(nloops)] = 24;
    }
    for (auto& l : leaf) if (l.kind == LeafM::ARRAY) l.pl.d.assign(l.ix.size(), DimM());
    for (int i = 0; i < nloops; i++) {
      const LeafM* first = nullptr;
      for (auto& l : leaf) if (provides(l, i)) { first = &l; break; }
      if (!first) { loop[i] = {0, 1}; }
      bool ok = !first;
      for (int t = 0; t < 24 && !ok; t++) ok = draw_loop(r, i, *first, exact_result);
      if (!ok) return false;
    }
    if (res_callable)                  // addressed over exactly the loops
      for (size_t k = 0; k < leaf[0].ix.size(); k++) { auto& d = leaf[0].pl.d[k]; d.min = loop[leaf[0].ix[k]].min; d.ext = loop[leaf[0].ix[k]].ext; }
    return true;
  }
  bool draw_loop(Rng& r, int i, const LeafM& first, const std::vector<char>& exact_result) {
    LoopM lp;
    lp.min = draw_min(r);
    lp.ext = r.chance(1, 16) ? 0 : r.range(1, cap[i]);
    bool in_result = has_result && !res_callable && &first == &leaf[0];
    bool exact = !in_result || exact_result[i];
    size_t p0 = std::find(first.ix.begin(), first.ix.end(), i) - first.ix.begin();
    // Constants among the dims for this loop.
    for (auto& l : leaf) {
      if (!provides(l, i)) continue;
      for (size_t k = 0; k < l.ix.size(); k++) {
        if (l.ix[k] != i) continue;
        const DimK& dk = l.k[k];
        bool self = &l == &first && k == p0;
        if (dk.smin && (self || exact || r.chance(1, 2))) lp.min = dk.min;
        if (dk.sext && (self || exact || r.chance(1, 2))) lp.ext = dk.ext;
      }
    }
    if (lp.ext > cap[i]) return false;
    for (auto& l : leaf) {
      if (l.kind != LeafM::ARRAY || (res_callable && &l == &leaf[0])) continue;
      bool seen = false;
      for (size_t k = 0; k < l.ix.size(); k++) {
        if (l.ix[k] != i) continue;
        const DimK& dk = l.k[k];
        DimM& d = l.pl.d[k];
        bool self = &l == &first && k == p0;
        bool must = self || (exact && !seen);
        seen = true;
        if (must) { d.min = lp.min; d.ext = lp.ext; }
        else {
          bool slack = r.chance(1, 3);
          d.min = lp.min - (slack ? r.range(0, 2) : 0);
          if (dk.smin) d.min = dk.min;
          d.ext = lp.min + lp.ext - d.min + (slack ? r.range(0, 2) : 0);
          if (dk.sext) { if (!dk.smin) d.min = lp.min - r.range(0, std::max<index_t>(0, dk.ext - lp.ext)); d.ext = dk.ext; }
          if (d.min > lp.min || d.min + d.ext < lp.min + lp.ext || d.ext > 340) return false;
        }
        if ((dk.smin && dk.min != d.min) || (dk.sext && dk.ext != d.ext)) return false;
      }
    }
    loop[i] = lp;
    return true;
  }
  index_t terms() const { index_t n = 1; for (auto& l : loop) n *= l.ext; return n; }
  // Loop indices of term t: index 0 is the innermost loop.
  void at(index_t t, index_t* ix) const { for (size_t i = 0; i < loop.size(); i++) { ix[i] = loop[i].min + t % loop[i].ext; t /= loop[i].ext; } }
  static index_t cell_of(const LeafM& l, const index_t* ix) {
    index_t c = l.pl.base;
    for (size_t k = 0; k < l.ix.size(); k++) c += (ix[l.ix[k]] - l.pl.d[k].min) * l.pl.d[k].stride;
    return c;
  }
};

template <class T, class TR, template <size_t> class SO, template <size_t> class SR>
struct EinWorld {
  static constexpr bool same = std::is_same<T, TR>::value;
  using Alloc = SimAlloc<TR, false, false, false>;

  // What a task has: its results. Operands are shared.
  struct Side {
    std::unique_ptr<Cells<TR>> c;
    int salt = 0;
  };
  const Cells<T>* ops = nullptr;
  bool zeros = false;                  // some operands are zero, and nothing is divided by them
  Side side[4];

  static int small_value(index_t i, bool zeros = false) { int v = (int)((i * 7 + 3) % 11) - 5; return v || zeros ? v : 6; }

  // ---------------------------------------------------------------- one operation
  struct Run {
    EinWorld& w; const Op& op; Rng& r; Side& s; Problem pb; bool faults = true;
    std::vector<int> before;
    Run(EinWorld& w, const Op& op, Rng& r, Side& s) : w(w), op(op), r(r), s(s) {}

    template <size_t N> int result(std::vector<int> ix) { pb.has_result = true; return pb.add<SR<N>>(std::move(ix)); }
    template <size_t N> int operand(std::vector<int> ix) { return pb.add<SO<N>>(std::move(ix)); }
    int fn(std::vector<int> ix, bool divisor = false) { return pb.call(std::move(ix), 2 * (s.salt += 7) + divisor); }
    int self(std::vector<int> ix) { LeafM l; l.kind = LeafM::RESULT; l.ix = std::move(ix); return pb.put(std::move(l)); }

    // Draws everything: bounds, strides and places.
    template <size_t NR> bool ready(std::vector<index_t> cap = {}, bool own = false) {
      pb.cap = std::move(cap);
      bool bc = pb.has_result && !own && r.chance(1, 8);
      std::vector<char> exact(pb.nloops, bc);
      if (!pb.draw(r, exact)) return false;
      for (size_t i = 0; i < pb.leaf.size(); i++) {
        LeafM& l = pb.leaf[i];
        if (l.kind != LeafM::ARRAY) continue;
        if (i == 0 && pb.has_result) {
          if (own) continue;
          if (!draw_strides<SR<NR>>(r, l.pl.d, bc)) return false;
          if (!bc) for (auto& x : l.pl.d) if (x.stride == 0 && x.ext <= 1) x.stride = 1;
          for (size_t k = 0; k < l.pl.d.size(); k++) if (l.k[k].sstr && l.k[k].stride != l.pl.d[k].stride) return false;
          if (!place_in(r, l.pl.d, (index_t)s.c->m.size(), l.pl)) return false;
        } else {
          bool ok = false;
          switch (l.ix.size()) {
          case 0: ok = true; break;
          case 1: ok = draw_strides<SO<1>>(r, l.pl.d, true); break;
          case 2: ok = draw_strides<SO<2>>(r, l.pl.d, true); break;
          case 3: ok = draw_strides<SO<3>>(r, l.pl.d, true); break;
          }
          if (!ok || !place_in(r, l.pl.d, (index_t)w.ops->m.size(), l.pl)) return false;
        }
      }
      return true;
    }
    // At times, loops as long as the storage of the operands allows.
    std::vector<index_t> long_loop() { return r.chance(1, 8) ? std::vector<index_t>((size_t)pb.nloops, 330) : std::vector<index_t>(); }
    // A dense vector operand given as a pointer.
    bool dense_at(int i) {
      Place& p = pb.leaf[i].pl;
      p.d[0].stride = 1;
      return place_in(r, p.d, (index_t)w.ops->m.size(), p);
    }
    template <size_t N> nda::array_ref<TR, SR<N>> res() { auto& l = pb.leaf[0]; return {s.c->p + l.pl.base, to_shape<SR<N>>(l.pl.d)}; }
    template <size_t N> nda::const_array_ref<T, SO<N>> in(int i) { auto& l = pb.leaf[i]; return {w.ops->p + l.pl.base, to_shape<SO<N>>(l.pl.d)}; }
    Fn<T> call(int i) { return Fn<T>{pb.leaf[i].salt, &pb.leaf[i].log}; }

    int leaf_value(const LeafM& l, const index_t* ix) const {
      if (l.kind == LeafM::CALL) {
        index_t a[4];
        for (size_t k = 0; k < l.ix.size(); k++) a[k] = ix[l.ix[k]];
        return Elem<T>::norm(fn_value(l.salt, a, l.ix.size()));
      }
      return w.ops->m[(size_t)Problem::cell_of(l, ix)];
    }
    // (cell, value) of every term, starting from the values in `cells`.
    template <class Eval> std::vector<std::pair<index_t, int>> terms(std::vector<int> cells, const LeafM& resl, Eval&& eval) {
      std::vector<std::pair<index_t, int>> out;
      index_t n = pb.terms();
      int v[6] = {};
      for (index_t t = 0; t < n; t++) {
        index_t ix[8] = {};
        pb.at(t, ix);
        index_t c = Problem::cell_of(resl, ix);
        int& cur = cells[(size_t)c];
        size_t j = 0;
        for (auto& l : pb.leaf) {
          if (&l == &resl) continue;
          v[j++] = l.kind == LeafM::RESULT ? cells[(size_t)Problem::cell_of(with(l, resl), ix)] : leaf_value(l, ix);
        }
        cur = eval(cur, v);
        out.push_back({c, cur});
      }
      return out;
    }
    static LeafM with(const LeafM& l, const LeafM& resl) { LeafM x = resl; x.ix = l.ix; return x; }

    // Calls f under the fault plan; seen[] is the number of fault points of each kind.
    template <class F> int attempt(F&& f, int* seen) {
      const char* what = form_name[op.kind];
      if (faults && op.fkind) set_plan(op.fkind, op.fat, op.fpersist); else clear_plan();
      for (auto& l : pb.leaf) l.log.clear();
      int threw = 0;
      try { InLib l; f(); }
      catch (const std::bad_alloc&) { threw = 1; }
      catch (const elem_fault&) { threw = 2; }
      catch (...) { threw = 3; }
      bool fired = fault_fired();
      for (int i = 0; i < F_COUNT; i++) seen[i] = plan().seen[i];
      clear_plan();
      if (threw && !fired) anomaly(P11, "spurious-failure", "%s failed although nothing was made to fail", what);
      if (threw == 3) anomaly(P11, "failure-replaced", "%s reported a failure other than the injected one", what);
      if (!threw && fired) anomaly(P11, "failure-swallowed", "%s completed although an operation in it failed", what);
      ev(0x11FE, op.kind, threw);
      return threw ? 1 : 0;
    }
    // The calls made must be those of the first terms, each once.
    void check_logs(index_t lo, index_t hi, bool* in_term) {
      const char* what = form_name[op.kind];
      *in_term = false;
      size_t most = 0;
      for (size_t i = 0; i < pb.leaf.size(); i++) {
        auto& l = pb.leaf[i];
        bool rc = i == 0 && pb.res_callable;
        if (l.kind != LeafM::CALL && !rc) continue;
        for (size_t c = 0; c < l.log.size(); c++) {
          index_t ix[8] = {};
          if ((index_t)c >= pb.terms()) { anomaly(P11, "too-many-terms", "%s: an operand is evaluated %zu times, there are %lld terms", what, l.log.size(), (long long)pb.terms()); break; }
          pb.at((index_t)c, ix);
          for (size_t k = 0; k < l.ix.size(); k++)
            if (l.log[c][k] != ix[l.ix[k]]) anomaly(P11, "term-order", "%s: evaluation %zu of an operand is at another index than term %zu", what, c, c);
        }
        most = std::max(most, l.log.size());
        if ((index_t)l.log.size() < lo) anomaly(P11, "missing-evaluation", "%s: %zu evaluations of an operand for %lld terms", what, l.log.size(), (long long)lo);
        if ((index_t)l.log.size() > hi + 1) anomaly(P11, "term-lost", "%s: %zu evaluations of an operand but only %lld terms in the result", what, l.log.size(), (long long)hi);
      }
    }
    void check_result_cells(const std::vector<int>& want, const char* cls, const char* detail) {
      const char* what = form_name[op.kind];
      for (size_t i = 0; i < want.size(); i++)
        if (s.c->at((index_t)i) != want[i])
          anomaly(P11, cls, "%s: cell %zu of the result storage is %d, expected %d %s", what, i, s.c->at((index_t)i), want[i], detail);
    }

    // An ein_reduce into cells. eval: new value of the result from the old one
    // and the values of the operands, in order.
    template <class F, class Eval> void reduce(F&& f, Eval&& eval) {
      const char* what = form_name[op.kind];
      std::vector<int> start = s.c->m;
      LeafM& resl = pb.leaf[0];
      auto ts = terms(start, resl, eval);
      index_t N = (index_t)ts.size();
      auto after = [&](index_t t) { std::vector<int> m = start; for (index_t i = 0; i < t; i++) m[(size_t)ts[i].first] = ts[i].second; return m; };
      const TR* base = s.c->p + resl.pl.base;
      int seen[F_COUNT];
      bool in_term = false;
      auto go = [&] {
        auto ret = f();
        InHarness h;
        check_return(ret, base, resl, what);
      };
      int rc = attempt(go, seen);
      if (rc) {
        PROBE("ein:interrupted");
        index_t lo = 0, hi = N;
        if (Elem<TR>::is_obj) { lo = hi = seen[F_ASSIGN] - (op.fkind == F_ASSIGN ? 1 : 0); }
        if (hi > N) anomaly(P11, "too-many-terms", "%s: %lld updates of the result, there are %lld terms", what, (long long)hi, (long long)N);
        index_t calls = -1;
        for (size_t i = 0; i < pb.leaf.size(); i++) if (pb.leaf[i].kind == LeafM::CALL || (i == 0 && pb.res_callable)) calls = std::max(calls, (index_t)pb.leaf[i].log.size());
        if (!Elem<TR>::is_obj) {
          // Only callables can fail here. The one that did had not been logged.
          if (calls >= 0) { lo = std::max<index_t>(0, calls - 1); hi = std::min(N, calls); }
        }
        bool match = false;
        index_t t = lo;
        for (; t <= hi && !match; t++) {
          std::vector<int> m = after(t);
          match = true;
          for (size_t i = 0; i < m.size() && match; i++) match = s.c->at((index_t)i) == m[i];
          if (match) break;
        }
        if (!match) {
          check_result_cells(after(lo), "not-a-prefix", "as after the terms evaluated before the failure");
        } else check_logs(t, t, &in_term);
        for (size_t i = 0; i < start.size(); i++) s.c->set((index_t)i, start[i]);
        faults = false;
        rc = attempt(go, seen);
        PROBE("ein:redone");
      }
      if (!rc) {
        check_result_cells(after(N), "value", "");
        check_logs(N, N, &in_term);
        if (Elem<TR>::is_obj && seen[F_ASSIGN] != N)
          anomaly(P11, "update-count", "%s: %d updates of the result for %lld terms", what, seen[F_ASSIGN], (long long)N);
        s.c->m = after(N);
      }
      for (size_t i = 0; i < s.c->m.size(); i++) if (std::abs(s.c->m[i]) > 200) s.c->set((index_t)i, small_value((index_t)i + s.salt));
    }
    template <class Ret> void check_return(const Ret&, const TR*, const LeafM&, const char*) {}
    template <class S> void check_return(const nda::array_ref<TR, S>& ret, const TR* base, const LeafM& resl, const char* what) {
      auto d = dims_of(ret.shape());
      bool ok = ret.base() == base || size_of(resl.pl.d) == 0;
      for (size_t i = 0; i < d.size(); i++) ok = ok && d[i].min == resl.pl.d[i].min && d[i].ext == resl.pl.d[i].ext;
      if (!ok) anomaly(P11, "returned-result", "%s does not return its result", what);
    }

    // A make_ein_sum. rix: loop index of each dim of the result.
    template <class F, class Eval> void sum(std::vector<int> rix, int init, int alloc_id, F&& f, Eval&& eval) {
      const char* what = form_name[op.kind];
      // The result of the model: compact, over the loops of its indices.
      LeafM resl;
      resl.ix = rix;
      index_t st = 1;
      for (int i : rix) { resl.pl.d.push_back({pb.loop[i].min, pb.loop[i].ext, st}); st *= pb.loop[i].ext; }
      index_t n = size_of(resl.pl.d);
      auto ts = terms(std::vector<int>((size_t)n, init), resl, eval);
      index_t N = (index_t)ts.size();
      std::vector<int> want((size_t)n, init);
      for (auto& t : ts) want[(size_t)t.first] = t.second;
      size_t blocks = live_blocks_of(cur_task()), elems = elems_alive_total();
      int seen[F_COUNT];
      bool in_term = false, checked = false;
      auto go = [&] {
        auto res = f();
        InHarness h;
        checked = true;
        auto d = dims_of(res.shape());
        if (d.size() != rix.size()) { anomaly(P11, "inferred-shape", "%s: wrong rank", what); return; }
        for (size_t i = 0; i < d.size(); i++)
          if (d[i].min != resl.pl.d[i].min || d[i].ext != resl.pl.d[i].ext)
            anomaly(P11, "inferred-shape", "%s: dim %zu of the result is [%lld,+%lld), expected [%lld,+%lld)", what, i, (long long)d[i].min, (long long)d[i].ext,
                    (long long)resl.pl.d[i].min, (long long)resl.pl.d[i].ext);
        if (n == 0) return;
        if (!one_to_one(d) || flat_ext(d) != n) anomaly(P11, "not-compact", "%s: the result is not compact (%lld elements span %lld)", what, (long long)n, (long long)flat_ext(d));
        const Block* b = find_block(res.base());
        if (!b || b->kind != B_ALLOC) { anomaly(P11 | pm(1), "result-storage", "%s: the result is not in allocated storage", what); return; }
        if (b->alloc_id != alloc_id) anomaly(P11 | pm(5), "wrong-allocator", "%s: the result is in storage of allocator %d, not %d", what, b->alloc_id, alloc_id);
        for (index_t k = 0; k < n; k++) {
          int v = Elem<TR>::peek(res.base() + offset_of(d, k));
          if (v != want[(size_t)k]) anomaly(P11, "value", "%s: element %lld is %d, expected %d", what, (long long)k, v, want[(size_t)k]);
        }
      };
      auto left = [&] {
        if (live_blocks_of(cur_task()) != blocks) anomaly(P11 | pm(1), "leak", "%s left storage behind", what);
        if (!tasks_active() && elems_alive_total() != elems) anomaly(P11 | pm(2), "leaked-elements", "%s left elements behind", what);
      };
      int rc = attempt(go, seen);
      left();
      if (rc) {
        PROBE("ein:sum-failed");
        index_t calls = 0;
        for (auto& l : pb.leaf) if (l.kind == LeafM::CALL) calls = std::max(calls, (index_t)l.log.size());
        check_logs(std::max<index_t>(0, std::min(N, calls) - 1), N, &in_term);
        faults = false;
        checked = false;
        rc = attempt(go, seen);
        left();
        PROBE("ein:sum-redone");
      }
      if (!rc) {
        check_logs(N, N, &in_term);
        if (!checked) anomaly(P11, "value", "%s: no result", what);
        if (Elem<TR>::is_obj && seen[F_ASSIGN] != N) anomaly(P11, "update-count", "%s: %d updates of the result for %lld terms", what, seen[F_ASSIGN], (long long)N);
      }
      check_result_cells(s.c->m, "cell", "(not part of the operation)");
    }
  };

  static int add(int a, int b) { return arith(1, a, b); }
  static int sub(int a, int b) { return arith(2, a, b); }
  static int mul(int a, int b) { return arith(0, a, b); }

  void describe(const Op& op, const Run& x) {
    if (!g_verbose) return;
    InHarness h;
    trace("task %d: %s fault=%s@%d%s loops:", op.task, form_name[op.kind], fault_name[op.fkind], op.fat, op.fpersist ? "+" : "");
    for (auto& l : x.pb.loop) trace(" [%lld,+%lld)", (long long)l.min, (long long)l.ext);
    trace("\n");
    for (auto& l : x.pb.leaf) {
      trace("   %s", l.kind == LeafM::ARRAY ? "array" : l.kind == LeafM::CALL ? "callable" : "result");
      for (size_t k = 0; k < l.ix.size(); k++) {
        trace(" %d", l.ix[k]);
        if (l.kind == LeafM::ARRAY) trace(":[%lld,+%lld)*%lld", (long long)l.pl.d[k].min, (long long)l.pl.d[k].ext, (long long)l.pl.d[k].stride);
      }
      trace("\n");
    }
  }

  // Runs `form` with its indices numbered I, J, K.
  template <int I, int J, int K> void form(const Op& op, Rng& r, Side& s) {
    using nda::ein; using nda::ein_reduce;
    Run x(*this, op, r, s);
    constexpr int L = 3;
    auto start = [&](bool ok) { if (ok) { describe(op, x); InHarness h_; char nm[48]; snprintf(nm, sizeof nm, "ein:%s", form_name[op.kind]); probe_hit(probe_id(nm)); uint64_t h = mix(op.kind, I * 16 + J * 4 + K); for (auto& l : x.pb.loop) h = mix(h, (uint64_t)(l.ext * 8 + l.min)); state_sig(h); } return ok; };
    switch (op.kind) {
    case E_MATMUL: {
      x.template result<2>({I, J}); int a = x.template operand<2>({I, K}), b = x.template operand<2>({K, J});
      if (!start(x.template ready<2>())) return;
      auto R = x.template res<2>(); auto A = x.template in<2>(a); auto B = x.template in<2>(b);
      x.reduce([&] { return ein_reduce(ein<I, J>(R) += ein<I, K>(A) * ein<K, J>(B)); }, [](int c, const int* v) { return add(c, mul(v[0], v[1])); });
      break;
    }
    case E_DIAG: {
      x.template result<1>({I}); int a = x.template operand<2>({I, I});
      if (!start(x.template ready<1>())) return;
      auto R = x.template res<1>(); auto A = x.template in<2>(a);
      x.reduce([&] { return ein_reduce(ein<I>(R) = ein<I, I>(A)); }, [](int, const int* v) { return v[0]; });
      break;
    }
    case E_TRACE: {
      x.template result<0>({}); int a = x.template operand<2>({I, I});
      if (!start(x.template ready<0>())) return;
      auto R = x.template res<0>(); auto A = x.template in<2>(a);
      x.reduce([&] { return ein_reduce(ein<>(nda::array_ref<TR, SR<0>>(R)) += ein<I, I>(A)); }, [](int c, const int* v) { return add(c, v[0]); });
      break;
    }
    case E_TRANSPOSE: {
      x.template result<2>({J, I}); int a = x.template operand<2>({I, J});
      if (!start(x.template ready<2>())) return;
      auto R = x.template res<2>(); auto A = x.template in<2>(a);
      x.reduce([&] { return ein_reduce(ein<J, I>(R) = ein<I, J>(A)); }, [](int, const int* v) { return v[0]; });
      break;
    }
    case E_DOT: {
      x.template result<0>({}); int a = x.template operand<1>({I}), b = x.template operand<1>({I});
      if (!start(x.template ready<0>(x.long_loop()))) return;
      auto R = x.template res<0>(); auto A = x.template in<1>(a); auto B = x.template in<1>(b);
      x.reduce([&] { return ein_reduce(ein<>(nda::array_ref<TR, SR<0>>(R)) += ein<I>(A) * ein<I>(B)); }, [](int c, const int* v) { return add(c, mul(v[0], v[1])); });
      break;
    }
    case E_SCALARRES: {
      x.template result<0>({}); int a = x.template operand<2>({I, J}), b = x.template operand<1>({J});
      if (!start(x.template ready<0>())) return;
      TR& R = s.c->p[x.pb.leaf[0].pl.base]; auto A = x.template in<2>(a); auto B = x.template in<1>(b);
      x.reduce([&] { return ein_reduce(ein(R) -= ein<I, J>(A) * ein<J>(B)); }, [](int c, const int* v) { return sub(c, mul(v[0], v[1])); });
      break;
    }
    case E_ROWSUM: {
      x.template result<1>({I}); int a = x.template operand<2>({I, J});
      if (!start(x.template ready<1>())) return;
      auto R = x.template res<1>(); auto A = x.template in<2>(a);
      x.reduce([&] { return ein_reduce(ein<I>(R) += ein<I, J>(A)); }, [](int c, const int* v) { return add(c, v[0]); });
      break;
    }
    case E_LAST: {
      x.template result<1>({I}); int a = x.template operand<2>({J, I});
      if (!start(x.template ready<1>())) return;
      auto R = x.template res<1>(); auto A = x.template in<2>(a);
      x.reduce([&] { return ein_reduce(ein<I>(R) = ein<J, I>(A)); }, [](int, const int* v) { return v[0]; });
      break;
    }
    case E_OUTER: {
      x.template result<2>({I, J}); int a = x.template operand<1>({I}), b = x.template operand<1>({J});
      if (!start(x.template ready<2>())) return;
      auto R = x.template res<2>(); auto A = x.template in<1>(a); auto B = x.template in<1>(b);
      x.reduce([&] { return ein_reduce(ein<I, J>(R) = ein<I>(A) * ein<J>(B)); }, [](int, const int* v) { return mul(v[0], v[1]); });
      break;
    }
    case E_MAX: case E_MIN: if constexpr (same) {
      x.template result<1>({I}); x.self({I}); int a = x.template operand<2>({I, J});
      if (!start(x.template ready<1>())) return;
      auto R = x.template res<1>(); auto A = x.template in<2>(a);
      nda::const_array_ref<TR, SR<1>> CR = R;
      if (op.kind == E_MAX) x.reduce([&] { return ein_reduce(ein<I>(R) = max(ein<I>(CR), ein<I, J>(A))); }, [](int, const int* v) { return std::max(v[0], v[1]); });
      else x.reduce([&] { return ein_reduce(ein<I>(R) = min(ein<I, J>(A), ein<I>(R))); }, [](int, const int* v) { return std::min(v[0], v[1]); });
    }
      break;
    case E_SUMDOT: {
      x.template result<0>({}); int a = x.template operand<1>({I}), b = x.template operand<1>({I}), c = x.template operand<1>({I});
      if (!start(x.template ready<0>())) return;
      auto R = x.template res<0>(); auto A = x.template in<1>(a); auto B = x.template in<1>(b); auto C = x.template in<1>(c);
      x.reduce([&] { return ein_reduce(ein<>(nda::array_ref<TR, SR<0>>(R)) += (ein<I>(A) + ein<I>(B)) * ein<I>(C)); }, [](int c, const int* v) { return add(c, mul(add(v[0], v[1]), v[2])); });
      break;
    }
    case E_ADDSUB: {
      x.template result<2>({I, J}); int a = x.template operand<1>({I}), b = x.template operand<2>({J, I}), c = x.template operand<1>({J});
      if (!start(x.template ready<2>())) return;
      auto R = x.template res<2>(); auto A = x.template in<1>(a); auto B = x.template in<2>(b); auto C = x.template in<1>(c);
      x.reduce([&] { return ein_reduce(ein<I, J>(R) += ein<I>(A) - ein<J, I>(B) + ein<J>(C)); }, [](int c, const int* v) { return add(c, add(sub(v[0], v[1]), v[2])); });
      break;
    }
    case E_SUBNEG: {
      x.template result<1>({J}); int a = x.template operand<2>({I, J});
      if (!start(x.template ready<1>())) return;
      auto R = x.template res<1>(); auto A = x.template in<2>(a);
      x.reduce([&] { return ein_reduce(ein<J>(R) -= -ein<I, J>(A)); }, [](int c, const int* v) { return sub(c, -v[0]); });
      break;
    }
    case E_MUL: {
      x.template result<1>({I}); int a = x.template operand<2>({I, J});
      if (!start(x.template ready<1>(Elem<TR>::is_obj ? std::vector<index_t>() : std::vector<index_t>(4, sizeof(T) == 1 ? 2 : 4)))) return;
      auto R = x.template res<1>(); auto A = x.template in<2>(a);
      x.reduce([&] { return ein_reduce(ein<I>(R) *= ein<I, J>(A)); }, [](int c, const int* v) { return mul(c, v[0]); });
      break;
    }
    case E_CHAIN: {
      x.template result<2>({I, L}); int a = x.template operand<2>({I, J}), b = x.template operand<2>({J, K}), c = x.template operand<2>({K, L});
      if (!start(x.template ready<2>({3, 3, 3, 3}))) return;
      auto R = x.template res<2>(); auto A = x.template in<2>(a); auto B = x.template in<2>(b); auto C = x.template in<2>(c);
      x.reduce([&] { return ein_reduce(ein<I, L>(R) += ein<I, J>(A) * ein<J, K>(B) * ein<K, L>(C)); }, [](int c, const int* v) { return add(c, mul(mul(v[0], v[1]), v[2])); });
      break;
    }
    case E_CALL: {
      x.template result<2>({I, J}); int a = x.template operand<2>({I, K}), f = x.fn({K, J});
      if (!start(x.template ready<2>())) return;
      auto R = x.template res<2>(); auto A = x.template in<2>(a); auto F = x.call(f);
      x.reduce([&] { return ein_reduce(ein<I, J>(R) += ein<I, K>(A) * ein<K, J>(F)); }, [](int c, const int* v) { return add(c, mul(v[0], v[1])); });
      break;
    }
    case E_TWOCALLS: {
      x.template result<1>({I}); int f = x.fn({I, J}), a = x.template operand<1>({J}), g = x.fn({J});
      if (!start(x.template ready<1>())) return;
      auto R = x.template res<1>(); auto A = x.template in<1>(a); auto F = x.call(f); auto G = x.call(g);
      x.reduce([&] { return ein_reduce(ein<I>(R) += ein<I, J>(F) * ein<J>(A) + ein<J>(G)); }, [](int c, const int* v) { return add(c, add(mul(v[0], v[1]), v[2])); });
      break;
    }
    case E_CALLONLY: {
      x.template result<1>({I}); int f = x.fn({I, J});
      if (!start(x.template ready<1>())) return;
      auto R = x.template res<1>(); auto F = x.call(f);
      x.reduce([&] { return ein_reduce(ein<I>(R) += ein<I, J>(F)); }, [](int c, const int* v) { return add(c, v[0]); });
      break;
    }
    case E_CARRAY: {
      x.template result<1>({I});
      int c = x.pb.template add<nda::shape<nda::dim<0, 3, 1>>>({I});
      int a = x.template operand<1>({I});
      if (!start(x.template ready<1>()) || !x.dense_at(c)) return;
      auto R = x.template res<1>(); auto A = x.template in<1>(a);
      const T (&C)[3] = *reinterpret_cast<const T(*)[3]>(ops->p + x.pb.leaf[c].pl.base);
      x.reduce([&] { return ein_reduce(ein<I>(R) += ein<I>(C) * ein<I>(A)); }, [](int c, const int* v) { return add(c, mul(v[0], v[1])); });
      break;
    }
    case E_POINTER: {
      x.template result<0>({});
      int c = x.pb.template add<nda::shape<nda::dim<0, nda::dynamic, 1>>>({I});
      int a = x.template operand<1>({I});
      if (!start(x.template ready<0>(x.long_loop())) || !x.dense_at(c)) return;
      auto R = x.template res<0>(); auto A = x.template in<1>(a);
      const T* C = ops->p + x.pb.leaf[c].pl.base;
      size_t n = (size_t)x.pb.leaf[c].pl.d[0].ext;
      x.reduce([&] { return ein_reduce(ein<>(nda::array_ref<TR, SR<0>>(R)) += ein<I>(C, n) * ein<I>(A)); }, [](int c, const int* v) { return add(c, mul(v[0], v[1])); });
      break;
    }
    case E_DIV: {
      if (zeros) return;
      x.template result<1>({I}); int a = x.template operand<2>({I, J}), b = x.template operand<1>({J});
      if (!start(x.template ready<1>())) return;
      auto R = x.template res<1>(); auto A = x.template in<2>(a); auto B = x.template in<1>(b);
      x.reduce([&] { return ein_reduce(ein<I>(R) += ein<I, J>(A) / ein<J>(B)); }, [](int c, const int* v) { return add(c, arith(3, v[0], v[1])); });
      break;
    }
    case E_PERM3: {
      x.template result<3>({K, I, J}); int a = x.template operand<3>({I, J, K});
      if (!start(x.template ready<3>({3, 3, 3}))) return;
      auto R = x.template res<3>(); auto A = x.template in<3>(a);
      x.reduce([&] { return ein_reduce(ein<K, I, J>(R) = ein<I, J, K>(A)); }, [](int, const int* v) { return v[0]; });
      break;
    }
    case E_RED3: {
      x.template result<1>({I}); int a = x.template operand<3>({I, J, K}), b = x.template operand<2>({J, K});
      if (!start(x.template ready<1>())) return;
      auto R = x.template res<1>(); auto A = x.template in<3>(a); auto B = x.template in<2>(b);
      x.reduce([&] { return ein_reduce(ein<I>(R) += ein<I, J, K>(A) * ein<J, K>(B)); }, [](int c, const int* v) { return add(c, mul(v[0], v[1])); });
      break;
    }
    case E_GAP: {
      x.template result<1>({I}); int a = x.template operand<2>({I, I + 2});
      if (!start(x.template ready<1>())) return;
      auto R = x.template res<1>(); auto A = x.template in<2>(a);
      x.reduce([&] { return ein_reduce(ein<I>(R) += ein<I, I + 2>(A)); }, [](int c, const int* v) { return add(c, v[0]); });
      break;
    }
    case E_NEGSELF: {
      x.template result<2>({I, J}); x.self({I, J});
      if (!start(x.template ready<2>())) return;
      auto R = x.template res<2>();
      x.reduce([&] { return ein_reduce(ein<I, J>(R) = -ein<I, J>(R)); }, [](int, const int* v) { return -v[0]; });
      break;
    }
    case E_SCALAR: {
      x.template result<1>({I}); int a = x.template operand<1>({I}), b = x.template operand<0>({});
      if (!start(x.template ready<1>())) return;
      auto R = x.template res<1>(); auto A = x.template in<1>(a);
      const T& S = ops->p[x.pb.leaf[b].pl.base];
      x.reduce([&] { return ein_reduce(ein<I>(R) += ein<I>(A) * ein(S)); }, [](int c, const int* v) { return add(c, mul(v[0], v[1])); });
      break;
    }
    case E_CAST: {
      x.template result<1>({I}); int a = x.template operand<2>({J, I});
      if (!start(x.template ready<1>())) return;
      auto R = x.template res<1>(); auto A = x.template in<2>(a);
      x.reduce([&] { return ein_reduce(ein<I>(R) += nda::cast<TR>(ein<J, I>(A))); }, [](int c, const int* v) { return add(c, v[0]); });
      break;
    }
    case E_CASTCALL: {
      x.template result<1>({I}); int f = x.fn({J, I});
      if (!start(x.template ready<1>())) return;
      auto R = x.template res<1>(); auto F = x.call(f);
      x.reduce([&] { return ein_reduce(ein<I>(R) += nda::cast<TR>(ein<J, I>(F))); }, [](int c, const int* v) { return add(c, v[0]); });
      break;
    }
    case E_NEGCALL: {
      x.template result<1>({I}); int f = x.fn({J}), g = x.fn({I, J});
      if (!start(x.template ready<1>())) return;
      auto R = x.template res<1>(); auto F = x.call(f); auto G = x.call(g);
      x.reduce([&] { return ein_reduce(ein<I>(R) -= -ein<J>(F) - -ein<I, J>(G)); }, [](int c, const int* v) { return sub(c, sub(-v[0], -v[1])); });
      break;
    }
    case E_MAXCALLS: case E_MINCALLS: {
      x.template result<1>({I}); int f = x.fn({J}), g = x.fn({I, J});
      if (!start(x.template ready<1>())) return;
      auto R = x.template res<1>(); auto F = x.call(f); auto G = x.call(g);
      if (op.kind == E_MAXCALLS) x.reduce([&] { return ein_reduce(ein<I>(R) += max(ein<J>(F), ein<I, J>(G))); }, [](int c, const int* v) { return add(c, std::max(v[0], v[1])); });
      else x.reduce([&] { return ein_reduce(ein<I>(R) += min(ein<J>(F), ein<I, J>(G))); }, [](int c, const int* v) { return add(c, std::min(v[0], v[1])); });
      break;
    }
    case E_DIVCALLS: {
      x.template result<2>({I, J}); int f = x.fn({J}), g = x.fn({I}), h = x.fn({J, I}, true);
      if (!start(x.template ready<2>())) return;
      auto R = x.template res<2>(); auto F = x.call(f); auto G = x.call(g); auto H = x.call(h);
      x.reduce([&] { return ein_reduce(ein<I, J>(R) = (ein<J>(F) + ein<I>(G)) / ein<J, I>(H)); }, [](int, const int* v) { return arith(3, add(v[0], v[1]), v[2]); });
      break;
    }
    case E_OWN: own<I, J, K>(op, r, s); break;
    case E_RESCALL: {
      x.template result<1>({I}); x.pb.res_callable = true;
      int a = x.template operand<2>({I, J});
      if (!start(x.template ready<1>())) return;
      auto& rl = x.pb.leaf[0];
      ResFn<TR, 1> R{s.c->p + rl.pl.base, &rl.pl.d, &rl.log}; auto A = x.template in<2>(a);
      x.reduce([&] { return ein_reduce(ein<I>(R) += ein<I, J>(A)); }, [](int c, const int* v) { return add(c, v[0]); });
      break;
    }
    case S_MATMUL: {
      int a = x.template operand<2>({I, K}), b = x.template operand<2>({K, J});
      if (!start(x.template ready<0>())) return;
      auto A = x.template in<2>(a); auto B = x.template in<2>(b);
      x.sum({I, J}, Elem<TR>::dflt, HEAP_ID, [&] { return nda::make_ein_sum<TR, I, J>(ein<I, K>(A) * ein<K, J>(B)); }, [](int c, const int* v) { return add(c, mul(v[0], v[1])); });
      break;
    }
    case S_TRACE: {
      int a = x.template operand<2>({I, I});
      if (!start(x.template ready<0>())) return;
      auto A = x.template in<2>(a);
      TR init(5);
      x.sum({}, 5, HEAP_ID, [&] { return nda::make_ein_sum<TR>(ein<I, I>(A), init); }, [](int c, const int* v) { return add(c, v[0]); });
      break;
    }
    case S_DOT: {
      int a = x.template operand<1>({I}), b = x.template operand<1>({I});
      if (!start(x.template ready<0>())) return;
      auto A = x.template in<1>(a); auto B = x.template in<1>(b);
      x.sum({}, Elem<TR>::dflt, HEAP_ID, [&] { return nda::make_ein_sum<TR>(ein<I>(A) * ein<I>(B)); }, [](int c, const int* v) { return add(c, mul(v[0], v[1])); });
      break;
    }
    case S_ROW: {
      int a = x.template operand<2>({I, J});
      if (!start(x.template ready<0>())) return;
      auto A = x.template in<2>(a);
      TR init(-2);
      Alloc al(7 + op.task);
      x.sum({I}, -2, 7 + op.task, [&] { return nda::make_ein_sum<TR, I>(-ein<I, J>(A), init, al); }, [](int c, const int* v) { return add(c, -v[0]); });
      break;
    }
    case S_PERM3: {
      int a = x.template operand<3>({I, J, K});
      if (!start(x.template ready<0>({3, 3, 3}))) return;
      auto A = x.template in<3>(a);
      TR init(1);
      Alloc al(9 + op.task);
      x.sum({K, I, J}, 1, 9 + op.task, [&] { return nda::make_ein_sum<TR, K, I, J>(ein<I, J, K>(A), init, al); }, [](int c, const int* v) { return add(c, v[0]); });
      break;
    }
    case S_OUTER: {
      int a = x.template operand<1>({I}), b = x.template operand<1>({J}), c = x.template operand<1>({I});
      if (!start(x.template ready<0>())) return;
      auto A = x.template in<1>(a); auto B = x.template in<1>(b); auto C = x.template in<1>(c);
      x.sum({J, I}, Elem<TR>::dflt, HEAP_ID, [&] { return nda::make_ein_sum<TR, J, I>(ein<I>(A) * ein<J>(B) - ein<I>(C)); }, [](int c, const int* v) { return add(c, sub(mul(v[0], v[1]), v[2])); });
      break;
    }
    case S_CALL: {
      int f = x.fn({I, J}), a = x.template operand<2>({J, I});
      if (!start(x.template ready<0>())) return;
      auto A = x.template in<2>(a); auto F = x.call(f);
      TR init(3);
      Alloc al(11 + op.task);
      x.sum({I, J}, 3, 11 + op.task, [&] { return nda::make_ein_sum<TR, I, J>(ein<I, J>(F) * ein<J, I>(A), init, al); }, [](int c, const int* v) { return add(c, mul(v[0], v[1])); });
      break;
    }
    case S_FREECALL: {
      // A result index only the callable has.
      int f = x.fn({I, J}), a = x.template operand<1>({I});
      if (!start(x.template ready<0>())) return;
      auto A = x.template in<1>(a); auto F = x.call(f);
      x.sum({J}, Elem<TR>::dflt, HEAP_ID, [&] { return nda::make_ein_sum<TR, J>(ein<I, J>(F) - ein<I>(A)); }, [](int c, const int* v) { return add(c, sub(v[0], v[1])); });
      break;
    }
    default: break;
    }
  }

  // A product of owning arrays: a const one, one that is not, and the result.
  template <int I, int J, int K> void own(const Op& op, Rng& r, Side& s) {
    using nda::ein; using nda::ein_reduce;
    Run x(*this, op, r, s);
    x.template result<2>({I, J}); int a = x.template operand<2>({I, K}), b = x.template operand<2>({K, J});
    if (!x.template ready<2>({}, true)) return;
    for (auto& l : x.pb.leaf) { Place p = l.pl; for (auto& d : p.d) if (d.ext < 1) return; }
    describe(op, x);
    using AR = nda::array<TR, SR<2>>; using AO = nda::array<T, SO<2>>;
    clear_plan();
    void *mr, *ma, *mb;
    AR* R; AO *A, *B;
    auto shape_for = [&](auto tag, int i) { using S = typename decltype(tag)::type; auto d = x.pb.leaf[i].pl.d; std::vector<DimK> k; dim_kinds<S>(k, std::make_index_sequence<2>()); for (auto& q : d) q.stride = nda::unresolved; return to_shape<S>(d); };
    struct TR_ { using type = SR<2>; }; struct TO_ { using type = SO<2>; };
    auto make = [&](auto*& p, void*& m, auto sh) {
      using Arr = typename std::remove_reference<decltype(*p)>::type;
      m = block_alloc(sizeof(Arr), 1, 0, B_OBJECT, 64);
      InLib l;
      p = new (m) Arr(sh);
    };
    make(R, mr, shape_for(TR_(), 0)); make(A, ma, shape_for(TO_(), a)); make(B, mb, shape_for(TO_(), b));
    auto dr = dims_of(R->shape()), da = dims_of(A->shape()), db = dims_of(B->shape());
    std::vector<int> vr, va, vb;
    auto fill = [&](auto* p, const std::vector<DimM>& d, std::vector<int>& v, int salt) {
      using E = typename std::remove_reference<decltype(*p)>::type::value_type;
      for (index_t k = 0; k < size_of(d); k++) { v.push_back(Elem<E>::norm(small_value(k + salt))); p->base()[offset_of(d, k)] = E(v.back()); }
    };
    fill(R, dr, vr, 1); fill(A, da, va, 2); fill(B, db, vb, 5);
    // Model: positions by index.
    auto pos = [&](const std::vector<DimM>& d, index_t i, index_t j) { return (i - d[0].min) + (j - d[1].min) * d[0].ext; };
    auto upto = [&](index_t t, index_t N) {
      std::vector<int> m = vr;
      for (index_t q = 0; q < std::min(t, N); q++) {
        index_t ix[8] = {};
        x.pb.at(q, ix);
        int& c = m[(size_t)pos(dr, ix[I], ix[J])];
        c = add(c, mul(va[(size_t)pos(da, ix[I], ix[K])], vb[(size_t)pos(db, ix[K], ix[J])]));
      }
      return m;
    };
    index_t N = x.pb.terms();
    int seen[F_COUNT];
    const AO& CA = *A;
    auto check = [&](index_t t) {
      auto m = upto(t, N);
      for (size_t k = 0; k < m.size(); k++) {
        int v = Elem<TR>::peek(R->base() + offset_of(dr, (index_t)k));
        if (v != m[k]) anomaly(P11, t == N ? "value" : "not-a-prefix", "%s: element %zu is %d, expected %d after %lld of %lld terms", form_name[op.kind], k, v, m[k], (long long)t, (long long)N);
      }
      for (size_t k = 0; k < va.size(); k++) if (Elem<T>::peek(A->base() + offset_of(da, (index_t)k)) != va[k]) anomaly(P11, "operand-changed", "an operand changed");
      for (size_t k = 0; k < vb.size(); k++) if (Elem<T>::peek(B->base() + offset_of(db, (index_t)k)) != vb[k]) anomaly(P11, "operand-changed", "an operand changed");
    };
    auto go = [&] {
      auto ret = ein_reduce(ein<I, J>(*R) += ein<I, K>(CA) * ein<K, J>(*B));
      InHarness h;
      if (ret.base() != R->base()) anomaly(P11, "returned-result", "%s does not return its result", form_name[op.kind]);
    };
    int rc = x.attempt(go, seen);
    if (rc) {
      PROBE("ein:own-interrupted");
      check(seen[F_ASSIGN] - (op.fkind == F_ASSIGN ? 1 : 0));
      for (size_t k = 0; k < vr.size(); k++) { clear_plan(); R->base()[offset_of(dr, (index_t)k)] = TR(vr[k]); }
      x.faults = false;
      rc = x.attempt(go, seen);
    }
    if (!rc) check(N);
    clear_plan();
    auto drop = [&](auto* p, void* m) { using Arr = typename std::remove_reference<decltype(*p)>::type; { InLib l; p->~Arr(); } block_free(m, 1, 0, B_OBJECT, true); };
    drop(R, mr); drop(A, ma); drop(B, mb);
  }

  static void gen(Rng& r, Program& p, int prop) {
    (void)prop;
    int tasks = r.chance(1, 4) ? (int)r.range(2, 3) : 0;
    p.knob = {(int64_t)r.below(1 << 24), tasks};
    p.sched_period = tasks ? (int)(r.chance(1, 2) ? r.range(1, 6) : r.range(5, 60)) : 0;
    int nops = (int)r.range(1, tasks ? 5 : 4);
    for (int i = 0; i < nops; i++) {
      Op o;
      o.task = tasks ? (i < tasks ? i : (int)r.below(tasks)) : 0;
      o.kind = (int)r.below(E_COUNT);
      o.a = {(int64_t)r.below(1 << 20), r.below(3)};
      if (r.chance(2, 3)) {
        bool calls = o.kind == E_CALL || o.kind == E_CALLONLY || o.kind == E_RESCALL || o.kind == E_TWOCALLS || (o.kind >= E_CASTCALL && o.kind <= E_DIVCALLS) || o.kind == S_CALL || o.kind == S_FREECALL;
        static const int ks[] = {F_CALL, F_ASSIGN, F_CTOR, F_CALL, F_ASSIGN};
        if (is_sum(o.kind) && r.chance(1, 3)) o.fkind = F_ALLOC;
        else if (calls && r.chance(1, 2)) o.fkind = F_CALL;
        else if (Elem<T>::is_obj || Elem<TR>::is_obj) { o.fkind = ks[r.below(5)]; if ((o.kind == E_MAX || o.kind == E_MIN) && o.fkind == F_CALL) o.fkind = F_CMP; }
        else if (calls) o.fkind = F_CALL;
        o.fat = 1 + (int)(o.fkind == F_ALLOC ? r.below(2) : r.chance(1, 3) ? r.below(3) : r.below(40));
        o.fpersist = r.chance(1, 5);
      }
      p.ops.push_back(o);
    }
  }

  static void run(const Program& p) {
    {
      EinWorld w;
      w.zeros = p.k(0) >> 5 & 1;
      g_default_id = HEAP_ID;
      Cells<T> ops(360, 0);
      for (size_t i = 0; i < ops.m.size(); i++) ops.set((index_t)i, small_value((index_t)i + p.k(0) % 11, w.zeros));
      w.ops = &ops;
      int nt = std::max<int>(1, (int)p.k(1));
      for (int t = 0; t < nt; t++) {
        w.side[t].c.reset(new Cells<TR>(150, 0));
        w.side[t].salt = t * 3;
        for (size_t i = 0; i < w.side[t].c->m.size(); i++) w.side[t].c->set((index_t)i, small_value((index_t)i * 3 + t));
      }
      auto do_op = [&](const Op& op, int t) {
        Rng r(mix(p.k(0), op.arg(0)));
        Side& s = w.side[t];
        switch (op.arg(1) % 3) {
        case 0: w.template form<2, 1, 0>(op, r, s); break;
        case 1: w.template form<0, 1, 2>(op, r, s); break;
        default: w.template form<1, 2, 0>(op, r, s); break;
        }
      };
      if (p.k(1) > 1) {
        set_step_cap(6000000, P11);
        run_tasks((int)p.k(1), p, [&](int t) { for (const Op& op : p.ops) if (op.task == t) do_op(op, t); });
      } else {
        for (const Op& op : p.ops) { set_step_cap(600000, P11); do_op(op, 0); }
      }
      clear_plan();
      for (size_t i = 0; i < ops.m.size(); i++) if (ops.at((index_t)i) != ops.m[i]) anomaly(P11, "operand-changed", "an operand changed: cell %zu is %d, was %d", i, ops.at((index_t)i), ops.m[i]);
      for (int t = 0; t < nt; t++)
        for (size_t i = 0; i < w.side[t].c->m.size(); i++)
          if (w.side[t].c->at((index_t)i) != w.side[t].c->m[i]) anomaly(P11, "cell", "result storage of task %d changed after its reductions", t);
    }
    set_step_cap(0, 0);
    if (live_blocks(B_ALLOC)) anomaly(P11 | pm(1), "leak", "%zu blocks still allocated", live_blocks(B_ALLOC));
    if (elems_alive_total()) anomaly(P11 | pm(2), "leaked-elements", "%zu elements still constructed", elems_alive_total());
  }
};
} // namespace ein_w
#endif
