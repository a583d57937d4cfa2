// Simulated stateful allocators.
#ifndef SIM_ALLOC_H
#define SIM_ALLOC_H
#include "core.h"
#include <memory>
#include <type_traits>

namespace sim {

// Allocator construct/destroy bookkeeping: every construction and destruction
// of an element of an array must go through the array's allocator.
void note_alloc_construct(int id, const void* p);
void note_alloc_destroy(int id, const void* p);
// For elements that do not report themselves: construction can fail, and what
// is constructed is known from the allocator alone.
void plain_ctor_point(const void* p);
void plain_born(const void* p, size_t bytes);
void plain_gone(const void* p);

// Cca/Cma/Sw: propagate_on_container_{copy_assignment,move_assignment,swap}.
// Sel: select_on_container_copy_construction returns a default allocator
// instead of a copy. Hooks: has construct/destroy members of its own.
template <class T, bool Cca, bool Cma, bool Sw, bool Sel = false, bool Hooks = false>
struct SimAlloc;

template <class T, bool Cca, bool Cma, bool Sw, bool Sel>
struct SimAlloc<T, Cca, Cma, Sw, Sel, false> {
  using value_type = T;
  using propagate_on_container_copy_assignment = std::integral_constant<bool, Cca>;
  using propagate_on_container_move_assignment = std::integral_constant<bool, Cma>;
  using propagate_on_container_swap = std::integral_constant<bool, Sw>;
  using is_always_equal = std::false_type;
  template <class U> struct rebind { using other = SimAlloc<U, Cca, Cma, Sw, Sel, false>; };
  static constexpr bool sel = Sel;

  int id;
  SimAlloc() : id(g_default_id) {}
  explicit SimAlloc(int i) : id(i) {}
  template <class U> SimAlloc(const SimAlloc<U, Cca, Cma, Sw, Sel, false>& o) : id(o.id) {}

  SimAlloc select_on_container_copy_construction() const { return Sel ? SimAlloc() : *this; }
  T* allocate(size_t n) { return (T*)sim_allocate(n * sizeof(T), n, id, alignof(T)); }
  void deallocate(T* p, size_t n) noexcept { sim_deallocate(p, n, id); }
  friend bool operator==(const SimAlloc& a, const SimAlloc& b) { return a.id == b.id; }
  friend bool operator!=(const SimAlloc& a, const SimAlloc& b) { return a.id != b.id; }
};

template <class T, bool Cca, bool Cma, bool Sw, bool Sel>
struct SimAlloc<T, Cca, Cma, Sw, Sel, true> {
  using value_type = T;
  using propagate_on_container_copy_assignment = std::integral_constant<bool, Cca>;
  using propagate_on_container_move_assignment = std::integral_constant<bool, Cma>;
  using propagate_on_container_swap = std::integral_constant<bool, Sw>;
  using is_always_equal = std::false_type;
  template <class U> struct rebind { using other = SimAlloc<U, Cca, Cma, Sw, Sel, true>; };
  static constexpr bool sel = Sel;

  int id;
  SimAlloc() : id(g_default_id) {}
  explicit SimAlloc(int i) : id(i) {}
  template <class U> SimAlloc(const SimAlloc<U, Cca, Cma, Sw, Sel, true>& o) : id(o.id) {}

  SimAlloc select_on_container_copy_construction() const { return Sel ? SimAlloc() : *this; }
  T* allocate(size_t n) { return (T*)sim_allocate(n * sizeof(T), n, id, alignof(T)); }
  void deallocate(T* p, size_t n) noexcept { sim_deallocate(p, n, id); }
  template <class U, class... Args>
  void construct(U* p, Args&&... args) {
    note_alloc_construct(id, p);
    if constexpr (!std::is_same<U, obj>::value) plain_ctor_point(p);
    ::new ((void*)p) U(std::forward<Args>(args)...);
    if constexpr (!std::is_same<U, obj>::value) plain_born(p, sizeof(U));
  }
  template <class U>
  void destroy(U* p) {
    note_alloc_destroy(id, p);
    p->~U();
    if constexpr (!std::is_same<U, obj>::value) plain_gone(p);
  }
  friend bool operator==(const SimAlloc& a, const SimAlloc& b) { return a.id == b.id; }
  friend bool operator!=(const SimAlloc& a, const SimAlloc& b) { return a.id != b.id; }
};

} // namespace sim
#endif
