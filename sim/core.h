// The simulator: seeded choices, simulated memory, fault plans, the task
// scheduler, anomaly reporting. Harness code only; never compiled with
// instrumentation (core.cpp), while worlds that instantiate the library are.
#ifndef SIM_CORE_H
#define SIM_CORE_H

#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <new>
#include <string>
#include <utility>
#include <vector>

#define SIM_BARRIER asm volatile("" ::: "memory")
#define SIM_NOINSTR __attribute__((no_sanitize("thread")))

namespace sim {

// ---------------------------------------------------------------- choices
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { next(); next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  // uniform in [0, n)
  int64_t below(int64_t n) { return n <= 1 ? 0 : (int64_t)(next() % (uint64_t)n); }
  int64_t range(int64_t lo, int64_t hi) { return lo + below(hi - lo + 1); }
  bool chance(int num, int den) { return below(den) < num; }
};
inline uint64_t mix(uint64_t a, uint64_t b) {
  uint64_t z = a * 0x9E3779B97F4A7C15ull + b + 0x7F4A7C15ull;
  z = (z ^ (z >> 32)) * 0xD6E8FEB86659FD93ull;
  z = (z ^ (z >> 29)) * 0xD6E8FEB86659FD93ull;
  return z ^ (z >> 32);
}

// ---------------------------------------------------------------- programs
enum Fault : int { F_NONE = 0, F_ALLOC, F_CTOR, F_ASSIGN, F_CMP, F_CALL, F_QUOTA, F_RELEASE, F_COUNT };
extern const char* const fault_name[F_COUNT];

struct Op {
  int task = 0;
  int kind = 0;
  int fkind = 0;      // Fault to inject during this op
  int fat = 0;        // at which fault point of that kind (1-based)
  int fpersist = 0;   // 1: all later points of that kind in this op fail too
  std::vector<int64_t> a;
  int64_t arg(size_t i) const { return i < a.size() ? a[i] : 0; }
};

struct Program {
  std::string world;
  uint64_t seed = 0;
  std::vector<int64_t> knob;
  std::vector<Op> ops;
  // Explicit schedule: at scheduling point `first` the baton goes to runnable
  // task index `second`. Used when sched_mode == 1 (replay); otherwise points
  // are drawn from the seed with probability 1/sched_period and recorded here.
  int sched_mode = 0;
  int sched_period = 0;
  std::vector<std::pair<uint64_t, int>> sched;
  int64_t k(size_t i) const { return i < knob.size() ? knob[i] : 0; }
};
std::string to_text(const Program& p);
bool from_text(const std::string& s, Program& p, std::string* expect_class, std::string* expect_hash);

// ---------------------------------------------------------------- worlds
struct World {
  const char* name;
  // Writes a random program. `prop` is the property being checked (1..13).
  void (*gen)(Rng&, Program&, int prop);
  void (*run)(const Program&);
};
struct WorldReg {
  WorldReg(const char* name, void (*gen)(Rng&, Program&, int), void (*run)(const Program&));
};
const World* find_world(const std::string& n);
const std::vector<World>& worlds();

// ---------------------------------------------------------------- current run
extern int g_prop;             // property being checked
extern uint64_t g_seed;

// An observation that contradicts one or more properties (bit mask). When the
// property being checked is among them this ends the run as a violation.
[[gnu::format(printf, 3, 4)]] void anomaly(uint32_t props, const char* cls, const char* fmt, ...);
inline constexpr uint32_t pm(int p) { return 1u << p; }
constexpr uint32_t ANY_PROP = 0xffffffffu;
bool foreign_seen();           // some anomaly of another property was seen in this run

// Event log (hashed); no addresses, no clocks.
void ev(uint32_t code, uint64_t a = 0, uint64_t b = 0);
void state_sig(uint64_t h);    // a distinct-state sample for coverage
int probe_id(const char* name);
void probe_hit(int id);
#define PROBE(name) do { ::sim::InHarness ph_; static const int pid_ = ::sim::probe_id(name); ::sim::probe_hit(pid_); } while (0)
[[gnu::format(printf, 1, 2)]] void trace(const char* fmt, ...);   // only in verbose replays
extern bool g_verbose;

void nontrivial();             // this run exercised something (coverage rule)

// ---------------------------------------------------------------- library scope
extern __thread int t_inlib;
struct InLib {
  SIM_NOINSTR InLib() { SIM_BARRIER; ++t_inlib; SIM_BARRIER; }
  SIM_NOINSTR ~InLib() { SIM_BARRIER; --t_inlib; SIM_BARRIER; }
};
struct InHarness {
  int s;
  SIM_NOINSTR InHarness() : s(t_inlib) { SIM_BARRIER; t_inlib = 0; SIM_BARRIER; }
  SIM_NOINSTR ~InHarness() { SIM_BARRIER; t_inlib = s; SIM_BARRIER; }
};

// ---------------------------------------------------------------- faults
struct bad_alloc_fault : std::bad_alloc { };   // thrown by simulated allocators
struct elem_fault { int kind; };                // thrown by elements and callbacks

struct FaultPlan {
  int kind = 0, at = 0, persist = 0;
  int seen[F_COUNT] = {};
  int fired = 0;
};
FaultPlan& plan();                 // of the current task
void set_plan(int kind, int at, int persist);
void clear_plan();
bool fault_point(int kind);        // true: the operation at hand must fail
bool fault_fired();
// Forbid (used for "needs no memory" checks): any point of the kinds in the
// mask is reported as an anomaly of `props`.
void forbid(uint32_t kinds_mask, uint32_t props, const char* what);
void unforbid();
// Library code may not allocate for the rest of the run, but for the scopes of
// a MayAlloc: an anomaly of `props`.
void forbid_alloc(uint32_t props, const char* what);
struct MayAlloc {
  MayAlloc();
  ~MayAlloc();
};
extern int64_t g_quota;            // live allocator bytes allowed; <0: no limit

// ---------------------------------------------------------------- memory
// Every block handed out by simulated allocators, operator new in library
// scope, and every array object itself lives in a fixed-address arena with
// per-byte state.
enum BlockKind : uint8_t { B_ALLOC = 1, B_OBJECT = 2, B_EXTERN = 3 };
struct Block {
  uintptr_t p; size_t bytes; size_t n; int alloc_id; BlockKind kind; bool live; int owner_task;
};
void* block_alloc(size_t bytes, size_t n, int alloc_id, BlockKind kind, size_t align);
void block_free(void* p, size_t n, int alloc_id, BlockKind kind, bool check_n);
const Block* find_block(const void* p);       // the block containing p (live or not), or null
bool in_arena(const void* p);
size_t live_blocks(BlockKind kind);
size_t live_blocks_of(int task);              // allocator blocks that task obtained
size_t live_bytes();
uint64_t alloc_count();                       // number of B_ALLOC allocations so far
uint64_t free_count();
const Block* first_live(BlockKind kind);
bool addressable(const void* p, size_t n);
enum { HEAP_ID = 1000000 };                    // allocator id of operator new

void* sim_allocate(size_t bytes, size_t n, int id, size_t align);
void sim_deallocate(void* p, size_t n, int id);

// ---------------------------------------------------------------- elements
enum { V_DEFAULT = -1, V_MOVED = -2, V_UNKNOWN = -1000000000 };
enum { ELEM_MAGIC = 0x0B1EC7ED, ELEM_DEAD = 0x0DEADDED };

struct obj {
  obj* self;
  int32_t v;
  uint32_t magic;
  obj();
  obj(int v);                    // NOLINT: implicit on purpose
  obj(const obj&);
  obj(obj&&);
  obj& operator=(const obj&);
  obj& operator=(obj&&);
  ~obj();
  friend bool operator==(const obj&, const obj&);
  friend bool operator!=(const obj&, const obj&);
  friend bool operator<(const obj&, const obj&);
  friend bool operator>(const obj&, const obj&);
  friend bool operator<=(const obj&, const obj&);
  friend bool operator>=(const obj&, const obj&);
  friend obj operator*(const obj&, const obj&);
  friend obj operator+(const obj&, const obj&);
  friend obj operator-(const obj&, const obj&);
  friend obj operator/(const obj&, const obj&);
  friend obj operator-(const obj&);
  obj& operator+=(const obj&);
  obj& operator-=(const obj&);
  obj& operator*=(const obj&);
};
int arith(int op, int x, int y);               // 0 * 1 + 2 - 3 /, wrapping
bool elem_alive(const obj* o);                 // registered live at this address
size_t elems_alive_in(const void* p, size_t bytes);
size_t elems_alive_total();
int elem_peek(const obj* o);                   // value without any check
extern int g_default_id;                       // identity of default constructed allocators
bool storage_alive(const void* p);                 // an element was constructed there
extern bool g_hooked;                          // allocators in this run customise construct/destroy
struct ElemCounts { uint64_t ctor, dflt, copy, move, value, assign_copy, assign_move, dtor, cmp; };
extern ElemCounts g_elem;

// ---------------------------------------------------------------- tasks
// Runs `body(task)` for tasks [0, n) under the seeded scheduler: real threads,
// exactly one of which runs at any time; the baton moves only at scheduling
// points (every memory access and call the library makes).
void run_tasks(int n, const Program& p, const std::function<void(int)>& body);
int cur_task();                                // 0 when not in tasks
void yield_point();
bool tasks_active();
uint64_t sched_switches();

// Steps (scheduling points) executed; a run that exceeds the cap is a hang.
void set_step_cap(uint64_t cap, uint32_t props);

// ---------------------------------------------------------------- driver hooks (core.cpp)
int sim_main(int argc, char** argv);

} // namespace sim
#endif
