#include "core.h"

#include <cstdarg>
#include <algorithm>
#include <map>
#include <set>
#include <unordered_map>
#include <sstream>
#include <fstream>

#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace sim {

const char* const fault_name[F_COUNT] = {
    "none", "alloc", "elem_ctor", "elem_assign", "elem_compare", "callback", "quota", "release"};

// ------------------------------------------------------------------ shared
struct Shm {
  volatile uint64_t cur;            // run index in flight
  volatile uint64_t heartbeat;
  volatile int busy;
  volatile int violated;            // 1: violation recorded below
  volatile int foreign;             // anomalies of other properties in the run in flight
  uint64_t hash;                    // of the run in flight
  char cls[64];
  char detail[900];
  uint64_t runs, nontrivial, steps, ops, switches, sched_points, foreign_runs, foreign_anoms, allocs, frees;
  uint64_t faults[F_COUNT], fault_planned[F_COUNT];
  uint64_t elem_ops;
  uint64_t world_runs[64];
  char foreign_cls[16][64];
  uint64_t foreign_cnt[16];
  struct { char name[48]; uint64_t n; } probes[160];
  uint8_t state_bits[1 << 19];      // 4M-bit sample of abstract states
  uint8_t sched_bits[1 << 19];      // interleavings
  uint64_t nhashes;
  uint64_t hashes[1];               // event-log hash per non-trivial run
};
static Shm* g_shm;
static uint64_t g_shm_cap = 0;
static Shm* make_shm(uint64_t cap) {
  void* p = mmap(nullptr, sizeof(Shm) + cap * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(2); }
  return (Shm*)p;
}

int g_prop = 0;
uint64_t g_seed = 0;
bool g_verbose = false;
int64_t g_quota = -1;
__thread int t_inlib = 0;

static uint64_t g_steps, g_step_cap = 0;
static uint32_t g_step_props = ANY_PROP;
static bool g_nontrivial;

void nontrivial() { g_nontrivial = true; }

void ev(uint32_t code, uint64_t a, uint64_t b) {
  uint64_t& h = g_shm->hash;
  h = mix(h ^ code, a * 3 + b * 0x10001);
}
static void set_bit(uint8_t* bits, uint64_t h) {
  h = mix(h, 77) & ((1u << 22) - 1);
  bits[h >> 3] |= (uint8_t)(1 << (h & 7));
}
void state_sig(uint64_t h) { set_bit(g_shm->state_bits, h); }
int probe_id(const char* name) {
  for (int i = 0; i < 160; i++) {
    if (!g_shm->probes[i].name[0]) { snprintf(g_shm->probes[i].name, 48, "%s", name); return i; }
    if (!strncmp(g_shm->probes[i].name, name, 47)) return i;
  }
  return 159;
}
void probe_hit(int id) { g_shm->probes[id].n++; }
void trace(const char* fmt, ...) {
  if (!g_verbose) return;
  va_list ap; va_start(ap, fmt);
  vprintf(fmt, ap); va_end(ap);
  fflush(stdout);
}
bool foreign_seen() { return g_shm->foreign != 0; }

void anomaly(uint32_t props, const char* cls, const char* fmt, ...) {
  int keep = t_inlib; t_inlib = 0;
  char buf[800];
  va_list ap; va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  if (g_verbose) { printf("  ANOMALY props=%08x class=%s: %s\n", props, cls, buf); fflush(stdout); }
  // Once something that belongs to another property went wrong in this run,
  // later observations may be its consequences only: not ours to report.
  if ((props & pm(g_prop)) && !g_shm->foreign) {
    snprintf(g_shm->cls, sizeof g_shm->cls, "%s", cls);
    snprintf(g_shm->detail, sizeof g_shm->detail, "%s", buf);
    SIM_BARRIER;
    g_shm->violated = 1;
    fflush(stdout);
    _exit(77);
  }
  g_shm->foreign++;
  g_shm->foreign_anoms++;
  for (int i = 0; i < 16; i++) {
    if (!g_shm->foreign_cls[i][0]) snprintf(g_shm->foreign_cls[i], 64, "%s", cls);
    if (!strncmp(g_shm->foreign_cls[i], cls, 63)) { g_shm->foreign_cnt[i]++; break; }
  }
  // The run is not informative for the property at hand any more.
  g_shm->foreign_runs++;
  fflush(stdout);
  _exit(78);
  t_inlib = keep;
}

// At most cap more steps until the next call (0: no limit).
void set_step_cap(uint64_t cap, uint32_t props) {
  static uint64_t start, last;
  if (last && g_steps - start > last / 8) probe_hit(probe_id(g_steps - start > last / 2 ? "steps:over-1/2-of-bound" : "steps:over-1/8-of-bound"));
  start = g_steps;
  last = cap;
  g_step_cap = cap ? g_steps + cap : 0;
  g_step_props = props;
}
static inline void step() {
  ++g_steps;
  if (__builtin_expect(g_step_cap && g_steps > g_step_cap, 0)) {
    g_step_cap = 0;
    anomaly(g_step_props, "no-progress", "operation did not finish within the step bound");
  }
}

bool g_hooked = false;
// ------------------------------------------------------------------ arena
static const uintptr_t ARENA = 0x210000000000ull;
static const size_t ARENA_SIZE = 64u << 20;
enum : uint8_t { S_NONE = 0, S_LIVE = 1, S_FREED = 2, S_OBJ = 3 };
static uint8_t* g_shadow;            // per byte
static uint8_t* g_elem_live;         // per 8 bytes
static size_t g_top;                 // bump offset
static std::vector<Block>* g_blocks;
static uint64_t g_alloc_count, g_free_count;
static size_t g_live_bytes;
static size_t g_elems_arena, g_elems_outside;

struct Cell { uint32_t wclk; uint32_t rclk[4]; uint8_t wtask; };
static Cell* g_cells;                // per 4 bytes of the arena
static std::unordered_map<uintptr_t, Cell>* g_global_cells;

static void arena_init() {
  void* p = mmap((void*)ARENA, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != (void*)ARENA) { fprintf(stderr, "arena mmap failed\n"); exit(2); }
  auto m = [](size_t n) { return (uint8_t*)mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); };
  g_shadow = m(ARENA_SIZE);
  g_elem_live = m(ARENA_SIZE / 8);
  g_cells = (Cell*)m(ARENA_SIZE / 4 * sizeof(Cell));
  g_blocks = new std::vector<Block>();
  g_blocks->reserve(4096);
  g_global_cells = new std::unordered_map<uintptr_t, Cell>();
}
static bool g_cells_used = false;
static uint8_t g_garbage = 0xCD;
static void arena_reset(uint64_t seed) {
  size_t used = (g_top + 4095) & ~size_t(4095);
  if (used > ARENA_SIZE) used = ARENA_SIZE;
  memset(g_shadow, 0, used);
  memset(g_elem_live, 0, used / 8);
  if (g_cells_used) { memset(g_cells, 0, used / 4 * sizeof(Cell)); g_global_cells->clear(); g_cells_used = false; }
  // Fresh storage holds seed-dependent garbage (filled in by block_alloc).
  static const uint8_t pats[4] = {0xCD, 0x00, 0xFF, 0x55};
  g_garbage = pats[(seed >> 7) & 3];
  g_top = 64;
  g_blocks->clear();
  g_alloc_count = g_free_count = 0;
  g_live_bytes = 0;
  g_elems_arena = g_elems_outside = 0;
}
bool in_arena(const void* p) { return (uintptr_t)p - ARENA < ARENA_SIZE; }

void* block_alloc(size_t bytes, size_t n, int alloc_id, BlockKind kind, size_t align) {
  if (align < 16) align = 16;
  // A red zone wide enough that near misses never hit another block; its width
  // varies so that relative placement of blocks is not uniform.
  size_t gap = 64 + (g_blocks->size() % 3) * 16;
  size_t off = (g_top + gap + align - 1) & ~(align - 1);
  if (bytes > ARENA_SIZE || off + bytes + 64 > ARENA_SIZE) {
    anomaly(ANY_PROP, "no-progress", "simulated memory exhausted: %zu bytes requested, %zu blocks", bytes, g_blocks->size());
    _exit(78);
  }
  memset((void*)(ARENA + g_top), g_garbage, off + bytes + 64 - g_top);
  g_top = off + bytes;
  void* p = (void*)(ARENA + off);
  memset(g_shadow + off, kind == B_OBJECT ? S_OBJ : S_LIVE, bytes);
  g_blocks->push_back({ARENA + off, bytes, n, alloc_id, kind, true, cur_task()});
  if (kind == B_ALLOC) { g_alloc_count++; g_live_bytes += bytes; g_shm->allocs++; ev(0xA110C, bytes, alloc_id); }
  return p;
}
const Block* find_block(const void* q) {
  uintptr_t p = (uintptr_t)q;
  auto& v = *g_blocks;
  size_t lo = 0, hi = v.size();
  while (lo < hi) {
    size_t mid = (lo + hi) / 2;
    if (v[mid].p <= p) lo = mid + 1; else hi = mid;
  }
  if (lo == 0) return nullptr;
  const Block& b = v[lo - 1];
  if (p < b.p + b.bytes || (b.bytes == 0 && p == b.p)) return &b;
  return nullptr;
}
size_t elems_alive_in(const void* p, size_t bytes) {
  if (!in_arena(p)) return 0;
  size_t off = (uintptr_t)p - ARENA, n = 0;
  for (size_t i = off / 8; i < (off + bytes + 7) / 8; i++) n += g_elem_live[i];
  return n;
}
void block_free(void* p, size_t n, int alloc_id, BlockKind kind, bool check_n) {
  if (kind == B_ALLOC) ev(0xF4EE, n, alloc_id);
  Block* b = (Block*)find_block(p);
  uint32_t P = pm(1) | pm(3);
  if (!b || b->p != (uintptr_t)p || b->kind != kind) {
    const Block* o = b;
    if (o && o->kind == B_OBJECT) {
      anomaly(P | pm(7), "free-in-object", "storage inside an array object was released through allocator %d", alloc_id);
      return;
    }
    anomaly(P | pm(7), "free-unknown", "release (n=%zu, allocator %d) of a pointer that no allocator handed out", n, alloc_id);
    return;
  }
  if (!b->live) { anomaly(P | pm(7), "double-free", "block of %zu elements from allocator %d released twice", b->n, b->alloc_id); return; }
  if (check_n && b->n != n) anomaly(P, "free-size", "block of %zu elements released as %zu elements", b->n, n);
  if (b->alloc_id != alloc_id) anomaly(P | pm(5), "free-wrong-allocator", "block from allocator %d released through allocator %d", b->alloc_id, alloc_id);
  size_t alive = elems_alive_in(p, b->bytes);
  if (alive) anomaly(pm(2) | pm(3) | (g_hooked ? pm(5) : 0), "release-live-elements", "storage released while %zu elements in it are not destroyed", alive);
  b->live = false;
  memset(g_shadow + (b->p - ARENA), S_FREED, b->bytes);
  memset((void*)b->p, 0xDD, b->bytes);
  if (kind == B_ALLOC) { g_free_count++; g_live_bytes -= b->bytes; g_shm->frees++; }
}
size_t live_blocks(BlockKind kind) {
  size_t n = 0;
  for (auto& b : *g_blocks) if (b.live && b.kind == kind) n++;
  return n;
}
size_t live_blocks_of(int task) {
  size_t n = 0;
  for (auto& b : *g_blocks) if (b.live && b.kind == B_ALLOC && b.owner_task == task) n++;
  return n;
}
const Block* first_live(BlockKind kind) {
  for (auto& b : *g_blocks) if (b.live && b.kind == kind) return &b;
  return nullptr;
}
size_t live_bytes() { return g_live_bytes; }
uint64_t alloc_count() { return g_alloc_count; }
uint64_t free_count() { return g_free_count; }
bool addressable(const void* p, size_t n) {
  uintptr_t off = (uintptr_t)p - ARENA;
  if (off >= ARENA_SIZE || n > ARENA_SIZE - off) return false;
  for (size_t i = 0; i < n; i++) {
    uint8_t s = g_shadow[off + i];
    if (s != S_LIVE && s != S_OBJ) return false;
  }
  return true;
}

// ------------------------------------------------------------------ faults
static FaultPlan g_plans[8];
static uint32_t g_forbid_mask[8], g_forbid_props[8];
static const char* g_forbid_what[8];
FaultPlan& plan() { return g_plans[cur_task()]; }
void set_plan(int kind, int at, int persist) {
  FaultPlan& f = plan();
  f = FaultPlan();
  f.kind = kind; f.at = at; f.persist = persist;
  if (kind) g_shm->fault_planned[kind]++;
}
void clear_plan() { plan() = FaultPlan(); }
bool fault_fired() { return plan().fired > 0; }
void forbid(uint32_t m, uint32_t props, const char* what) {
  int t = cur_task(); g_forbid_mask[t] = m; g_forbid_props[t] = props; g_forbid_what[t] = what;
}
void unforbid() { g_forbid_mask[cur_task()] = 0; }
static uint32_t g_noalloc_props;
static const char* g_noalloc_what;
static int g_mayalloc[8];
void forbid_alloc(uint32_t props, const char* what) { g_noalloc_props = props; g_noalloc_what = what; }
MayAlloc::MayAlloc() { g_mayalloc[cur_task()]++; }
MayAlloc::~MayAlloc() { g_mayalloc[cur_task()]--; }
bool fault_point(int kind) {
  step();
  int t = cur_task();
  if (g_forbid_mask[t] >> kind & 1) {
    uint32_t pr = g_forbid_props[t];
    anomaly(pr, "needless-operation", "%s performed a %s operation", g_forbid_what[t], fault_name[kind]);
    return false;
  }
  if (kind == F_ALLOC && g_noalloc_props && !g_mayalloc[t])
    anomaly(g_noalloc_props, "needless-operation", "%s allocated memory", g_noalloc_what);
  FaultPlan& f = g_plans[t];
  int c = ++f.seen[kind];
  if (f.kind == kind && (c == f.at || (f.persist && c > f.at))) {
    f.fired++;
    g_shm->faults[kind]++;
    g_nontrivial = true;
    ev(0xFA17, kind, c);
    return true;
  }
  if (kind == F_ALLOC && g_quota >= 0 && (int64_t)g_live_bytes >= g_quota) {
    f.fired++;
    g_shm->faults[F_QUOTA]++;
    g_nontrivial = true;
    ev(0xFA17, F_QUOTA, c);
    return true;
  }
  return false;
}

// Simulated allocators end up here.
void* sim_allocate(size_t bytes, size_t n, int id, size_t align) {
  InHarness h;
  yield_point();
  if (n > (1u << 20)) { anomaly(pm(1) | pm(3) | pm(4), "absurd-allocation", "allocation of %zu elements", n); throw bad_alloc_fault(); }
  if (fault_point(F_ALLOC)) throw bad_alloc_fault();
  return block_alloc(bytes, n, id, B_ALLOC, align);
}
void sim_deallocate(void* p, size_t n, int id) {
  InHarness h;
  yield_point();
  fault_point(F_RELEASE);
  block_free(p, n, id, B_ALLOC, true);
}

// ------------------------------------------------------------------ elements
ElemCounts g_elem;
static const uint32_t EP = (1u << 2);     // element lifetime: C02

static inline volatile obj* vo(const obj* o) { return (volatile obj*)const_cast<obj*>(o); }
bool elem_alive(const obj* o) {
  if (in_arena(o)) {
    uintptr_t off = (uintptr_t)o - ARENA;
    return (off & 7) == 0 && g_elem_live[off / 8];
  }
  return vo(o)->self == o && vo(o)->magic == ELEM_MAGIC;
}
size_t elems_alive_total() { return g_elems_arena + g_elems_outside; }
int elem_peek(const obj* o) { return vo(o)->v; }

static void elem_race(const obj* o, bool write);
static bool check_storage(const obj* o, const char* what) {
  if (!in_arena(o)) return true;
  if (!addressable(o, sizeof(obj))) {
    anomaly(pm(1) | pm(3) | pm(7), "element-outside-live-storage", "%s an element outside live storage", what);
    return false;
  }
  return true;
}
static void check_use(const obj* o, const char* what, bool write = false) {
  if (!check_storage(o, what)) return;
  if (!elem_alive(o)) {
    anomaly(EP | pm(3), "use-of-unconstructed", "%s an element that is not constructed", what);
    return;
  }
  if (vo(o)->self != o || vo(o)->magic != ELEM_MAGIC)
    anomaly(EP, "bitwise-relocation", "%s an element whose bytes were overwritten or moved", what);
  elem_race(o, write);
}
// Allocators with construct/destroy members must see every element they own.
int g_default_id = 0;
static const void* g_pending_ctor[8]; static const void* g_pending_dtor[8];
static void check_hook_id(int id, const void* p, const char* what) {
  const Block* b = find_block(p);
  if (b && b->kind == B_ALLOC && b->alloc_id != id)
    anomaly(pm(5), "hook-wrong-allocator", "element in a block of allocator %d %s through allocator %d", b->alloc_id, what, id);
}
void note_alloc_construct(int id, const void* p) { InHarness h; check_hook_id(id, p, "constructed"); g_pending_ctor[cur_task()] = p; }
void note_alloc_destroy(int id, const void* p) { InHarness h; check_hook_id(id, p, "destroyed"); g_pending_dtor[cur_task()] = p; }
static void check_hook(const obj* o, const void** pending, const char* what) {
  if (!g_hooked || !in_arena(o)) return;
  const Block* b = find_block(o);
  if (!b || b->kind != B_ALLOC || b->alloc_id == HEAP_ID) return;
  if (pending[cur_task()] != o) anomaly(pm(5), "hook-bypassed", "element of an allocator that customises construction %s without its allocator", what);
  pending[cur_task()] = nullptr;
}
static void born(obj* o, int v) {
  check_hook(o, g_pending_ctor, "constructed");
  check_storage(o, "constructing");
  elem_race(o, true);
  if (in_arena(o)) {
    uintptr_t off = (uintptr_t)o - ARENA;
    if (off & 7) { anomaly(EP | pm(1), "misaligned-element", "element constructed at a misaligned address"); return; }
    if (g_elem_live[off / 8]) { anomaly(EP | pm(3), "double-construct", "element constructed over a live element"); }
    else { g_elem_live[off / 8] = 1; g_elems_arena++; }
  } else {
    g_elems_outside++;
  }
  vo(o)->self = o; vo(o)->v = v; vo(o)->magic = ELEM_MAGIC;
  g_shm->elem_ops++;
}
void plain_ctor_point(const void*) {
  InHarness h; yield_point();
  ev(0xE9);
  if (fault_point(F_CTOR)) throw elem_fault{F_CTOR};
}
void plain_born(const void* p, size_t bytes) {
  InHarness h;
  if (!in_arena(p)) return;
  uintptr_t off = (uintptr_t)p - ARENA;
  if (!addressable(p, bytes)) { anomaly(pm(1) | pm(3) | pm(5), "element-outside-live-storage", "constructing an element outside live storage"); return; }
  if (g_elem_live[off / 8]) { anomaly(EP | pm(3) | pm(5), "double-construct", "element constructed over a live element"); return; }
  g_elem_live[off / 8] = 1; g_elems_arena++;
  g_shm->elem_ops++;
}
void plain_gone(const void* p) {
  InHarness h; yield_point();
  if (!in_arena(p)) return;
  uintptr_t off = (uintptr_t)p - ARENA;
  if (!g_elem_live[off / 8]) { anomaly(EP | pm(3) | pm(5), "destroy-unconstructed", "destroying an element that is not constructed (or already destroyed)"); return; }
  g_elem_live[off / 8] = 0; g_elems_arena--;
}
bool storage_alive(const void* p) { return !in_arena(p) || g_elem_live[((uintptr_t)p - ARENA) / 8]; }
obj::obj() {
  InHarness h; yield_point();
  ev(0xE1, (uint32_t)V_DEFAULT);
  if (fault_point(F_CTOR)) throw elem_fault{F_CTOR};
  g_elem.ctor++; g_elem.dflt++; born(this, V_DEFAULT);
}
obj::obj(int x) {
  InHarness h; yield_point();
  ev(0xE2, (uint32_t)x);
  if (fault_point(F_CTOR)) throw elem_fault{F_CTOR};
  g_elem.ctor++; g_elem.value++; born(this, x);
}
obj::obj(const obj& s) {
  InHarness h; yield_point();
  check_use(&s, "copying from");
  ev(0xE3, (uint32_t)vo(&s)->v);
  if (fault_point(F_CTOR)) throw elem_fault{F_CTOR};
  g_elem.ctor++; g_elem.copy++; born(this, vo(&s)->v);
}
obj::obj(obj&& s) {
  InHarness h; yield_point();
  check_use(&s, "moving from", true);
  ev(0xE4, (uint32_t)vo(&s)->v);
  if (fault_point(F_CTOR)) throw elem_fault{F_CTOR};
  int x = vo(&s)->v;
  g_elem.ctor++; g_elem.move++; born(this, x);
  vo(&s)->v = V_MOVED;
}
obj& obj::operator=(const obj& s) {
  InHarness h; yield_point();
  check_use(&s, "assigning from"); check_use(this, "assigning to", true);
  ev(0xE5, (uint32_t)vo(&s)->v);
  if (fault_point(F_ASSIGN)) throw elem_fault{F_ASSIGN};
  g_elem.assign_copy++; g_shm->elem_ops++;
  vo(this)->v = vo(&s)->v;
  return *this;
}
obj& obj::operator=(obj&& s) {
  InHarness h; yield_point();
  check_use(&s, "move-assigning from", true); check_use(this, "assigning to", true);
  ev(0xE6, (uint32_t)vo(&s)->v);
  if (fault_point(F_ASSIGN)) throw elem_fault{F_ASSIGN};
  g_elem.assign_move++; g_shm->elem_ops++;
  if (this != &s) { vo(this)->v = vo(&s)->v; vo(&s)->v = V_MOVED; }
  return *this;
}
obj::~obj() {
  InHarness h; yield_point();
  ev(0xE7);
  if (check_storage(this, "destroying")) {
    elem_race(this, true);
    check_hook(this, g_pending_dtor, "destroyed");
    if (!elem_alive(this)) {
      anomaly(EP | pm(3), "destroy-unconstructed", "destroying an element that is not constructed (or already destroyed)");
    } else {
      if (vo(this)->self != this || vo(this)->magic != ELEM_MAGIC)
        anomaly(EP, "bitwise-relocation", "destroying an element whose bytes were overwritten or moved");
      if (in_arena(this)) { g_elem_live[((uintptr_t)this - ARENA) / 8] = 0; g_elems_arena--; }
      else g_elems_outside--;
      vo(this)->magic = ELEM_DEAD; vo(this)->self = nullptr; vo(this)->v = -77777;
    }
  }
  g_elem.dtor++;
}
static bool cmp_point(const obj& a, const obj& b) {
  yield_point();
  check_use(&a, "comparing"); check_use(&b, "comparing");
  ev(0xE8, (uint32_t)vo(&a)->v, (uint32_t)vo(&b)->v);
  if (fault_point(F_CMP)) throw elem_fault{F_CMP};
  g_elem.cmp++;
  return vo(&a)->v == vo(&b)->v;
}
bool operator==(const obj& a, const obj& b) { InHarness h; return cmp_point(a, b); }
bool operator!=(const obj& a, const obj& b) { InHarness h; return !cmp_point(a, b); }
bool operator<(const obj& a, const obj& b) { InHarness h; cmp_point(a, b); return vo(&a)->v < vo(&b)->v; }
bool operator>(const obj& a, const obj& b) { InHarness h; cmp_point(a, b); return vo(&a)->v > vo(&b)->v; }
bool operator<=(const obj& a, const obj& b) { InHarness h; cmp_point(a, b); return vo(&a)->v <= vo(&b)->v; }
bool operator>=(const obj& a, const obj& b) { InHarness h; cmp_point(a, b); return vo(&a)->v >= vo(&b)->v; }
// Arithmetic on elements wraps and never traps.
int arith(int op, int x, int y) {
  uint32_t a = (uint32_t)x, b = (uint32_t)y;
  switch (op) {
  case 0: return (int)(a * b);
  case 1: return (int)(a + b);
  case 2: return (int)(a - b);
  default: return y == 0 ? 0 : y == -1 ? (int)(0u - a) : x / y;
  }
}
static obj bin(const obj& a, const obj& b, int op) {
  yield_point();
  check_use(&a, "reading"); check_use(&b, "reading");
  if (fault_point(F_CALL)) throw elem_fault{F_CALL};
  int x = vo(&a)->v, y = vo(&b)->v;
  ev(0xE9, (uint32_t)x, (uint32_t)y);
  return obj(arith(op, x, y));
}
obj operator*(const obj& a, const obj& b) { InHarness h; return bin(a, b, 0); }
obj operator+(const obj& a, const obj& b) { InHarness h; return bin(a, b, 1); }
obj operator-(const obj& a, const obj& b) { InHarness h; return bin(a, b, 2); }
obj operator/(const obj& a, const obj& b) { InHarness h; return bin(a, b, 3); }
obj operator-(const obj& a) { InHarness h; yield_point(); check_use(&a, "reading"); return obj(arith(2, 0, vo(&a)->v)); }
static obj& upd(obj* t, const obj& s, int op) {
  yield_point();
  check_use(&s, "reading"); check_use(t, "updating", true);
  ev(0xEA, (uint32_t)vo(t)->v, (uint32_t)vo(&s)->v);
  if (fault_point(F_ASSIGN)) throw elem_fault{F_ASSIGN};
  int x = vo(t)->v, y = vo(&s)->v;
  vo(t)->v = arith(op == 0 ? 1 : op == 1 ? 2 : 0, x, y);
  return *t;
}
obj& obj::operator+=(const obj& s) { InHarness h; return upd(this, s, 0); }
obj& obj::operator-=(const obj& s) { InHarness h; return upd(this, s, 1); }
obj& obj::operator*=(const obj& s) { InHarness h; return upd(this, s, 2); }

// ------------------------------------------------------------------ tasks
static const int MAXT = 4;
struct Task {
  pthread_t th; sem_t sem; int id; bool done, blocked;
  uint32_t vc[MAXT];
};
static Task g_tasks[MAXT];
static int g_ntasks = 0;
static bool g_active = false;
static __thread int t_task = 0;
static sem_t g_main_sem;
static const std::function<void(int)>* g_body;
static Rng* g_srng;
static const Program* g_sprog;
static size_t g_sched_pos;
static uint64_t g_sched_point, g_switches;
static std::vector<std::pair<uint64_t, int>>* g_sched_rec;
static uint64_t g_sched_hash;
struct SchedOut { volatile uint64_t n; std::pair<uint64_t, int> v[1 << 16]; };
static SchedOut* g_sched_out;
static void record_switch(uint64_t at, int j) {
  g_sched_rec->push_back({at, j});
  if (g_sched_out && g_sched_out->n < (1u << 16)) { g_sched_out->v[g_sched_out->n] = {at, j}; g_sched_out->n = g_sched_out->n + 1; }
}
static bool g_race_on = false;
struct SyncVar { uint32_t vc[MAXT]; };
static std::unordered_map<uintptr_t, SyncVar>* g_sync;

int cur_task() { return t_task; }
bool tasks_active() { return g_active; }
uint64_t sched_switches() { return g_switches; }

static void switch_to(int j) {
  int me = t_task;
  if (j == me) return;
  g_switches++; g_shm->switches++;
  g_sched_hash = mix(g_sched_hash, g_sched_point * 4 + j);
  ev(0x5C, g_sched_point, j);
  sem_post(&g_tasks[j].sem);
  while (sem_wait(&g_tasks[me].sem) && errno == EINTR) {}
}
static int runnable_count() { int n = 0; for (int i = 0; i < g_ntasks; i++) n += !g_tasks[i].done && !g_tasks[i].blocked; return n; }
static int nth_runnable(int k, int except) {
  for (int i = 0; i < g_ntasks; i++) if (!g_tasks[i].done && !g_tasks[i].blocked && i != except && k-- == 0) return i;
  return -1;
}
static int choose(bool must) {
  // Next task at this scheduling point, or -1 to stay.
  ++g_sched_point;
  int me = must ? -1 : t_task;
  if (g_sprog->sched_mode == 1) {
    const auto& s = g_sprog->sched;
    while (g_sched_pos < s.size() && s[g_sched_pos].first < g_sched_point) g_sched_pos++;
    if (g_sched_pos < s.size() && s[g_sched_pos].first == g_sched_point) {
      int j = s[g_sched_pos].second;
      g_sched_pos++;
      if (j >= 0 && j < g_ntasks && !g_tasks[j].done && !g_tasks[j].blocked && j != me) return j;
    }
    return must ? nth_runnable(0, -1) : -1;
  }
  int n = runnable_count() - (must ? 0 : 1);
  if (n <= 0) return must ? nth_runnable(0, -1) : -1;
  if (!must) {
    if (g_sprog->sched_period <= 0) return -1;
    if (g_srng->below(g_sprog->sched_period) != 0) return -1;
  }
  int j = nth_runnable((int)g_srng->below(n), me);
  if (j >= 0) record_switch(g_sched_point, j);
  return j;
}
static void sched_point() {
  if (!g_active) return;
  g_shm->sched_points++;
  int j = choose(false);
  if (j >= 0) { int k = t_inlib; t_inlib = 0; switch_to(j); t_inlib = k; }
}
void yield_point() { if (g_active) sched_point(); }

// Blocked on a lock held by another task: let the others run.
static void wait_others() {
  int n = runnable_count();
  if (n <= 1) anomaly(pm(12) | pm(13), "deadlock", "all tasks wait for each other");
  ++g_sched_point;
  int j = nth_runnable(0, t_task);
  for (int i = 1; i <= g_ntasks; i++) { int c = (t_task + i) % g_ntasks; if (!g_tasks[c].done && c != t_task) { j = c; break; } }
  if (j < 0) anomaly(pm(12) | pm(13), "deadlock", "task waits for a lock nobody can release");
  step();
  switch_to(j);
}

static void* thread_main(void* arg) {
  Task* t = (Task*)arg;
  t_task = t->id;
  while (sem_wait(&t->sem) && errno == EINTR) {}
  (*g_body)(t->id);
  t->done = true;
  ev(0xD0, t->id);
  if (runnable_count() == 0) {
    sem_post(&g_main_sem);
  } else {
    int j = choose(true);
    g_sched_hash = mix(g_sched_hash, g_sched_point * 4 + j + 100);
    sem_post(&g_tasks[j].sem);
  }
  return nullptr;
}

void run_tasks(int n, const Program& p, const std::function<void(int)>& body) {
  if (n > MAXT) n = MAXT;
  g_ntasks = n; g_body = &body; g_sprog = &p; g_sched_pos = 0; g_sched_point = 0; g_sched_hash = 1;
  g_sched_rec->clear();
  Rng r(mix(p.seed, 0x5CED)); g_srng = &r;
  sem_init(&g_main_sem, 0, 0);
  g_sync->clear();
  for (int i = 0; i < n; i++) {
    Task& t = g_tasks[i];
    t.id = i; t.done = t.blocked = false;
    memset(t.vc, 0, sizeof t.vc); t.vc[i] = 1;
    sem_init(&t.sem, 0, 0);
    g_plans[i] = FaultPlan(); g_forbid_mask[i] = 0;
  }
  for (int i = 0; i < n; i++) {
    pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 1 << 20);
    if (pthread_create(&g_tasks[i].th, &a, thread_main, &g_tasks[i])) { perror("pthread_create"); _exit(2); }
    pthread_attr_destroy(&a);
  }
  g_race_on = true; g_cells_used = true; g_active = true;
  int j = choose(true);
  sem_post(&g_tasks[j].sem);
  while (sem_wait(&g_main_sem) && errno == EINTR) {}
  g_active = false; g_race_on = false;
  for (int i = 0; i < n; i++) { pthread_join(g_tasks[i].th, nullptr); sem_destroy(&g_tasks[i].sem); }
  sem_destroy(&g_main_sem);
  g_ntasks = 0;
  g_plans[0] = FaultPlan();
  if (g_switches) g_nontrivial = true;
  set_bit(g_shm->sched_bits, mix(g_sched_hash, p.seed * 0));
}

// ------------------------------------------------------------------ race detector
extern "C" char __data_start, _end, __bss_start, _edata;
static inline bool in_globals(uintptr_t a) { return a >= (uintptr_t)&__data_start && a < (uintptr_t)&_end; }
static void race_cell(Cell& c, int me, bool write, uintptr_t a, bool global) {
  Task& t = g_tasks[me];
  bool bad = false;
  if (c.wclk && c.wtask != me && c.wclk > t.vc[c.wtask]) bad = true;
  if (write && !bad)
    for (int i = 0; i < MAXT; i++) if (i != me && c.rclk[i] > t.vc[i]) { bad = true; break; }
  if (bad) {
    const Block* b = global ? nullptr : find_block((void*)a);
    const char* where = global ? "a global or static variable" : b && b->kind == B_OBJECT ? "an array object" : b && b->kind == B_EXTERN ? "shared caller storage" : "array storage";
    anomaly(pm(12) | pm(13), global ? "data-race-static" : "data-race", "unsynchronised accesses by two tasks, one of them a write, to %s (offset %ld)", where, b ? (long)(a - b->p) : 0l);
    return;
  }
  if (write) { c.wclk = t.vc[me]; c.wtask = (uint8_t)me; memset(c.rclk, 0, sizeof c.rclk); }
  else c.rclk[me] = t.vc[me];
}
static void race_access(uintptr_t a, size_t n, bool write) {
  int me = t_task;
  if (a - ARENA < ARENA_SIZE) {
    size_t i0 = (a - ARENA) / 4, i1 = (a - ARENA + n - 1) / 4;
    for (size_t i = i0; i <= i1; i++) race_cell(g_cells[i], me, write, ARENA + i * 4, false);
  } else if (in_globals(a)) {
    for (uintptr_t x = a & ~uintptr_t(3); x < a + n; x += 4) race_cell((*g_global_cells)[x], me, write, x, true);
  }
}

// ------------------------------------------------------------------ instrumentation hooks
static inline __attribute__((always_inline)) void access(void* p, size_t n, bool write) {
  if (!t_inlib) return;
  uintptr_t a = (uintptr_t)p;
  bool ar = a - ARENA < ARENA_SIZE;
  if (!ar && !g_active) { step(); return; }
  int keep = t_inlib; t_inlib = 0;
  step();
  if (ar && !addressable(p, n)) {
    uintptr_t off = a - ARENA;
    const char* st = g_shadow[off] == S_FREED ? "released" : "unallocated";
    anomaly(pm(1) | pm(3) | pm(7) | pm(8) | pm(9) | pm(10) | pm(11) | pm(12) | pm(13), write ? "write-outside-live-storage" : "read-outside-live-storage",
        "%s of %zu bytes in %s memory", write ? "write" : "read", n, st);
  }
  if (g_active && n) {
    sched_point();
    if (g_race_on) race_access(a, n, write);
  }
  t_inlib = keep;
}
// Elements are accessed inside un-instrumented code: record these accesses too.
static void elem_race(const obj* o, bool write) {
  if (g_active && g_race_on) race_access((uintptr_t)o, sizeof(obj), write);
}

static void sync_acq_rel(uintptr_t a) {
  if (!g_active || !t_inlib) return;
  int keep = t_inlib; t_inlib = 0;
  step();
  sched_point();
  SyncVar& s = (*g_sync)[a];
  Task& t = g_tasks[t_task];
  for (int i = 0; i < MAXT; i++) { uint32_t m = std::max(s.vc[i], t.vc[i]); s.vc[i] = t.vc[i] = m; }
  t.vc[t_task]++;
  t_inlib = keep;
}
static void sync_acquire(uintptr_t a) {
  SyncVar& s = (*g_sync)[a]; Task& t = g_tasks[t_task];
  for (int i = 0; i < MAXT; i++) t.vc[i] = std::max(s.vc[i], t.vc[i]);
}
static void sync_release(uintptr_t a) {
  SyncVar& s = (*g_sync)[a]; Task& t = g_tasks[t_task];
  for (int i = 0; i < MAXT; i++) s.vc[i] = std::max(s.vc[i], t.vc[i]);
  t.vc[t_task]++;
}

} // namespace sim

using namespace sim;
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) \
  void __tsan_read##n(void* p) { access(p, n, false); } \
  void __tsan_write##n(void* p) { access(p, n, true); } \
  void __tsan_read_write##n(void* p) { access(p, n, true); } \
  void __tsan_unaligned_read##n(void* p) { access(p, n, false); } \
  void __tsan_unaligned_write##n(void* p) { access(p, n, true); } \
  void __tsan_unaligned_read_write##n(void* p) { access(p, n, true); } \
  void __tsan_volatile_read##n(void* p) { access(p, n, false); } \
  void __tsan_volatile_write##n(void* p) { access(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void** p, void*) { access(p, 8, true); }
void __tsan_vptr_read(void** p) { access(p, 8, false); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { if (n) { access((void*)s, n, false); access(d, n, true); } return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { if (n) { access((void*)s, n, false); access(d, n, true); } return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { if (n) access(d, n, true); return memset(d, c, n); }
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}

#define ATOM(bits, T) \
  T __tsan_atomic##bits##_load(const volatile T* a, int) { sync_acq_rel((uintptr_t)a); return *a; } \
  void __tsan_atomic##bits##_store(volatile T* a, T v, int) { sync_acq_rel((uintptr_t)a); *a = v; } \
  T __tsan_atomic##bits##_exchange(volatile T* a, T v, int) { sync_acq_rel((uintptr_t)a); T o = *a; *a = v; return o; } \
  T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int) { sync_acq_rel((uintptr_t)a); T o = *a; *a = o + v; return o; } \
  T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int) { sync_acq_rel((uintptr_t)a); T o = *a; *a = o - v; return o; } \
  T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int) { sync_acq_rel((uintptr_t)a); T o = *a; *a = o & v; return o; } \
  T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int) { sync_acq_rel((uintptr_t)a); T o = *a; *a = o | v; return o; } \
  T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int) { sync_acq_rel((uintptr_t)a); T o = *a; *a = o ^ v; return o; } \
  T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int) { sync_acq_rel((uintptr_t)a); T o = *a; *a = ~(o & v); return o; } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* e, T v, int, int) { sync_acq_rel((uintptr_t)a); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* e, T v, int, int) { sync_acq_rel((uintptr_t)a); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T e, T v, int, int) { sync_acq_rel((uintptr_t)a); T o = *a; if (o == e) *a = v; return o; }
ATOM(8, unsigned char) ATOM(16, unsigned short) ATOM(32, unsigned int) ATOM(64, unsigned long)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// Locks used by library code block in simulated time only.
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
  if (!tasks_active() || !t_inlib) return __real_pthread_mutex_lock(m);
  int keep = t_inlib; t_inlib = 0;
  sched_point();
  while (pthread_mutex_trylock(m) != 0) wait_others();
  sync_acquire((uintptr_t)m);
  t_inlib = keep;
  return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!tasks_active() || !t_inlib) return __real_pthread_mutex_unlock(m);
  int keep = t_inlib; t_inlib = 0;
  sync_release((uintptr_t)m);
  int r = __real_pthread_mutex_unlock(m);
  sched_point();
  t_inlib = keep;
  return r;
}
// Initialisation of function-local statics.
int __cxa_guard_acquire(uint64_t* g) {
  volatile uint8_t* done = (volatile uint8_t*)g;
  volatile uint8_t* busy = done + 1;
  int keep = t_inlib; t_inlib = 0;
  bool act = tasks_active() && keep;
  if (act) sched_point();
  while (!*done && *busy) {
    if (!tasks_active()) abort();
    wait_others();
  }
  int r = 0;
  if (!*done) { *busy = 1; r = 1; }
  else if (act) sync_acquire((uintptr_t)g);
  t_inlib = keep;
  return r;
}
void __cxa_guard_release(uint64_t* g) {
  if (tasks_active() && t_inlib) sync_release((uintptr_t)g);
  ((volatile uint8_t*)g)[1] = 0; ((volatile uint8_t*)g)[0] = 1;
}
void __cxa_guard_abort(uint64_t* g) { ((volatile uint8_t*)g)[1] = 0; }
} // extern C

// ------------------------------------------------------------------ operator new
static void* sim_new(size_t n, size_t al) {
  if (t_inlib) {
    InHarness h;
    yield_point();
    if (fault_point(F_ALLOC)) throw bad_alloc_fault();
    return block_alloc(n, n, HEAP_ID, B_ALLOC, al);
  }
  void* p = nullptr;
  if (al > 16) { if (posix_memalign(&p, al, n ? n : 1)) p = nullptr; } else p = malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
static void sim_delete(void* p, size_t n, bool sized) {
  if (!p) return;
  if (in_arena(p)) { InHarness h; yield_point(); block_free(p, n, HEAP_ID, B_ALLOC, sized); return; }
  if (t_inlib) {
    // Library code may only release what it allocated.
    InHarness h;
    anomaly(pm(1) | pm(3) | pm(7), "free-unknown", "release of a pointer that no allocator handed out");
  }
  free(p);
}
void* operator new(size_t n) { return sim_new(n, 16); }
void* operator new[](size_t n) { return sim_new(n, 16); }
void* operator new(size_t n, std::align_val_t a) { return sim_new(n, (size_t)a); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return sim_new(n, 16); } catch (...) { return nullptr; } }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return sim_new(n, 16); } catch (...) { return nullptr; } }
void operator delete(void* p) noexcept { sim_delete(p, 0, false); }
void operator delete[](void* p) noexcept { sim_delete(p, 0, false); }
void operator delete(void* p, size_t n) noexcept { sim_delete(p, n, true); }
void operator delete[](void* p, size_t n) noexcept { sim_delete(p, n, true); }
void operator delete(void* p, std::align_val_t) noexcept { sim_delete(p, 0, false); }
void operator delete(void* p, size_t n, std::align_val_t) noexcept { sim_delete(p, n, true); }

#include "driver.inc"
