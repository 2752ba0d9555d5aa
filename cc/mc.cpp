// Controlled scheduler for the OpenMP code under test.
//
// Replaces the OpenMP runtime (GOMP_*, omp_*) and the memory-access
// instrumentation callbacks (__tsan_*) that the compiler emits under
// -fsanitize=thread.  Team threads are fibres on one OS thread, so that every
// execution is deterministic and decided by the installed schedule.
//
// Scheduling points are the executions of *conflicting* instructions: those
// seen to touch, within one parallel region, memory that another thread of
// the region also touches, at least one of the two writing.
#include <gsl/gsl_spline.h>
#include <ucontext.h>
#include <sys/mman.h>
#include <link.h>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <cstdio>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <map>

namespace {
typedef uintptr_t pc_t;
const size_t STACK = 1 << 20;
const int MAXT = 8;

struct Fibre {
  ucontext_t ctx;
  char* stack = nullptr;
  bool done = true;
  int wait = 0;                       // 0 ready, 1 barrier, 2 lock, 3 turn
  const void* lock = nullptr;
  uint64_t seq = 0;                   // chunk held in an ordered loop
  std::vector<char> tls;              // own copy of thread-local variables
  uint64_t loop_gen = 0, single_gen = 0;
  int nest = 0;                       // nested regions are teams of one
};
struct Preempt { long at; int to; };
struct Acc { uint32_t r = 0, w = 0; std::vector<pc_t> pcs; };
struct Loop {
  long next, end, incr, chunk; int left;
  bool ordered = false; uint64_t given = 0, turn = 0;
  std::map<uint64_t, bool> over = {};
};

Fibre fib[MAXT];
ucontext_t main_ctx;
int T = 2;                            // team size
bool in_region = false, record = false;
int cur = -1, team = 1;
void (*the_fn)(void*);
void* the_data;
long npoint = 0, max_points = 0, nregions = 0, nswitch = 0, tot_points = 0,
     max_live = 0;
int order[MAXT] = {0, 1, 2, 3, 4, 5, 6, 7};
std::vector<Preempt> plan;
size_t plan_pos = 0;
int arrived = 0;
std::unordered_map<uintptr_t, Acc> acc;   // per 4-byte granule
std::unordered_set<pc_t> conflict;
std::map<const void*, int> locks;         // held locks
std::map<uint64_t, Loop> loops;
std::map<uint64_t, void*> copies;         // of single regions
uint64_t singles = 0;

void to_main() { swapcontext(&fib[cur].ctx, &main_ctx); }

// Thread-local variables of the code under test.  All fibres run on one
// thread, so each has a copy of the block, put in place while it runs; the
// first is that of the program.
__thread char tls_mine = 1;           // makes sure that there is a block
char* tls_addr = nullptr;
size_t tls_size = 0;
std::vector<char> tls_image;
int find_tls(dl_phdr_info* i, size_t, void*) {
  bool mine = false;
  const ElfW(Phdr)* t = nullptr;
  for (int k = 0; k < i->dlpi_phnum; k++) {
    const ElfW(Phdr)& h = i->dlpi_phdr[k];
    uintptr_t a = i->dlpi_addr + h.p_vaddr, me = (uintptr_t)&find_tls;
    if (h.p_type == PT_LOAD && me >= a && me < a + h.p_memsz) mine = true;
    if (h.p_type == PT_TLS) t = &h;
  }
  if (!mine) return 0;
  if (t) {
    tls_addr = (char*)i->dlpi_tls_data;
    tls_size = t->p_memsz;
    if (tls_addr) {
      const char* src = (const char*)i->dlpi_addr + t->p_vaddr;
      tls_image.assign(tls_size, 0);
      memcpy(tls_image.data(), src, t->p_filesz);
    }
  }
  return 1;
}
void tls_in(Fibre& f, bool first) {
  if (!tls_addr || first) return;
  if (f.tls.empty()) f.tls = tls_image;
  memcpy(tls_addr, f.tls.data(), tls_size);
}
std::vector<char> tls_main;
void resume(int t) {
  if (!tls_addr) { swapcontext(&main_ctx, &fib[t].ctx); return; }
  tls_in(fib[t], t == 0);
  if (t == 0) memcpy(tls_addr, tls_main.data(), tls_size);
  swapcontext(&main_ctx, &fib[t].ctx);
  (t == 0 ? tls_main : fib[t].tls).assign(tls_addr, tls_addr + tls_size);
}

void body(int t) {
  the_fn(the_data);
  fib[t].done = true;
  int left = 0;
  for (int i = 0; i < team; i++) left += !fib[i].done;
  // no preemption is possible once one thread remains
  if (left == 1 && npoint > max_live) max_live = npoint;
  setcontext(&main_ctx);
}

int pick() {
  for (int i = 0; i < team; i++) {
    Fibre& f = fib[order[i]];
    if (order[i] < team && !f.done && f.wait == 0) return order[i];
  }
  return -1;
}

int forced = -1;

void run_region(void (*fn)(void*), void* data, int n) {
  team = n; the_fn = fn; the_data = data;
  npoint = 0; plan_pos = 0; arrived = 0; forced = -1;
  locks.clear(); loops.clear(); singles = 0; copies.clear();
  if (!tls_addr && tls_mine) dl_iterate_phdr(find_tls, nullptr);
  if (tls_addr) tls_main.assign(tls_addr, tls_addr + tls_size);
  if (record) acc.clear();
  for (int t = 0; t < n; t++) {
    Fibre& f = fib[t];
    if (!f.stack) f.stack = (char*)mmap(
      nullptr, STACK, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
    getcontext(&f.ctx);
    f.ctx.uc_stack.ss_sp = f.stack;
    f.ctx.uc_stack.ss_size = STACK;
    f.ctx.uc_link = &main_ctx;
    f.done = false; f.wait = 0; f.loop_gen = f.single_gen = 0;
    f.nest = 0;
    makecontext(&f.ctx, (void (*)())body, 1, t);
  }
  in_region = true;
  for (;;) {
    int t = forced >= 0 ? forced : pick();
    forced = -1;
    if (t < 0) {
      bool all = true;
      for (int i = 0; i < n; i++) all = all && fib[i].done;
      if (all) break;
      fprintf(stderr, "mc: deadlock\n");
      abort();
    }
    cur = t;
    resume(t);
  }
  if (tls_addr) memcpy(tls_addr, tls_main.data(), tls_size);
  in_region = false; cur = -1; team = 1;
  nregions++;
  tot_points += npoint;
  if (npoint > max_points) max_points = npoint;
  if (record) {
    for (auto& kv : acc) {
      Acc& a = kv.second;
      uint32_t all = a.r | a.w;
      bool multi = all & (all - 1);
      if (multi && a.w)
        for (pc_t p : a.pcs) conflict.insert(p);
    }
    acc.clear();
  }
}

inline void access(const void* p, size_t n, bool write, pc_t pc) {
  if (!in_region) return;
  if (record) {
    uintptr_t a = (uintptr_t)p >> 2, b = ((uintptr_t)p + n - 1) >> 2;
    for (; a <= b; a++) {
      Acc& x = acc[a];
      (write ? x.w : x.r) |= 1u << cur;
      bool seen = false;
      for (pc_t q : x.pcs) if (q == pc) { seen = true; break; }
      if (!seen) x.pcs.push_back(pc);
    }
  }
  if (conflict.count(pc)) {
    long k = npoint++;
    if (plan_pos < plan.size() && plan[plan_pos].at == k) {
      int t = (cur + plan[plan_pos++].to) % team;   // relative
      if (t < team && t != cur && !fib[t].done && fib[t].wait == 0) {
        nswitch++;
        forced = t;
        to_main();
      }
    }
  }
}

void lock(const void* l) {
  if (!in_region) return;
  // entering a critical section is a scheduling point too
  long k = npoint++;
  if (plan_pos < plan.size() && plan[plan_pos].at == k) {
    int t = (cur + plan[plan_pos++].to) % team;
    if (t < team && t != cur && !fib[t].done && fib[t].wait == 0) {
      nswitch++;
      forced = t;
      to_main();
    }
  }
  while (locks.count(l)) {
    fib[cur].wait = 2; fib[cur].lock = l;
    to_main();
  }
  locks[l] = cur;
}
void unlock(const void* l) {
  if (!in_region) return;
  locks.erase(l);
  for (int t = 0; t < team; t++)
    if (fib[t].wait == 2 && fib[t].lock == l) fib[t].wait = 0;
}

bool chunk(Loop& l, long* s, long* e) {
  if (l.incr > 0 ? l.next >= l.end : l.next <= l.end) return false;
  *s = l.next;
  long n = l.next + l.incr*l.chunk;
  if (l.incr > 0 ? n > l.end : n < l.end) n = l.end;
  *e = n; l.next = n;
  return true;
}
// Chunks dealt at run time go round the team unless the schedule says
// otherwise.
void turn_over() {
  for (int i = 0; i < team; i++)
    if (order[i] == cur)
      for (int j = 1; j < team; j++) {
        int t = order[(i + j) % team];
        if (t < team && !fib[t].done && fib[t].wait == 0) {
          forced = t;
          to_main();
          return;
        }
      }
}
void pass_turn(Loop& l, uint64_t seq) {
  l.over[seq] = true;
  while (l.over.count(l.turn)) l.over.erase(l.turn++);
  for (int t = 0; t < team; t++) if (fib[t].wait == 3) fib[t].wait = 0;
}
bool deal(Loop& l, long* s, long* e) {
  if (!chunk(l, s, e)) return false;
  fib[cur].seq = l.given++;
  turn_over();
  return true;
}
const char crit0 = 0, atom0 = 0;
Loop pl;                              // combined parallel loop
std::map<const void*, int> nests;     // depth of nestable locks
}  // namespace

#define PC ((pc_t)__builtin_return_address(0))

extern "C" {

// -- control -------------------------------------------------------------
void mc_threads(int n) { T = n; }
void mc_record(int on) { record = on; }
void mc_schedule(const int* ord, int nord, const long* at, const int* to,
                 int n) {
  for (int i = 0; i < MAXT; i++) order[i] = i < nord ? ord[i] : i;
  plan.clear();
  for (int i = 0; i < n; i++) plan.push_back({at[i], to[i]});
  max_live = max_points = nregions = nswitch = tot_points = 0;
}
void mc_stats(long* out) {
  out[0] = max_points; out[1] = nregions; out[2] = nswitch;
  out[3] = tot_points; out[4] = (long)conflict.size();
  out[5] = max_live;
}

// -- OpenMP runtime ------------------------------------------------------
void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) {
  int k = n ? (int)n : T;
  if (k > MAXT) k = MAXT;
  if (in_region) {
    int t = cur;
    fib[t].nest++; fn(data); fib[t].nest--;
    return;
  }
  run_region(fn, data, k);
}
#define TEAM (in_region && !fib[cur].nest)
int omp_get_thread_num() { return TEAM ? cur : 0; }
int omp_get_num_threads() { return TEAM ? team : 1; }
int omp_get_max_threads() { return T; }
int omp_get_num_procs() { return T; }
int omp_in_parallel() { return in_region; }
int omp_get_thread_limit() { return MAXT; }
int omp_get_dynamic() { return 0; }
int omp_get_nested() { return 0; }
int omp_get_level() { return in_region; }
void omp_set_num_threads(int n) { T = n; }
void omp_set_dynamic(int) {}
void omp_set_nested(int) {}
double omp_get_wtime() { return 0.; }

bool GOMP_barrier_cancel() { return false; }
void GOMP_barrier() {
  if (!TEAM) return;
  if (++arrived == team) {
    arrived = 0;
    for (int t = 0; t < team; t++) if (fib[t].wait == 1) fib[t].wait = 0;
    return;
  }
  fib[cur].wait = 1;
  to_main();
}
void GOMP_critical_start() { lock(&crit0); }
void GOMP_critical_end() { unlock(&crit0); }
void GOMP_critical_name_start(void** p) { lock(p); }
void GOMP_critical_name_end(void** p) { unlock(p); }
void GOMP_atomic_start() { lock(&atom0); }
void GOMP_atomic_end() { unlock(&atom0); }
void omp_init_lock(void*) {}
void omp_destroy_lock(void*) {}
void omp_set_lock(void* p) { lock(p); }
void omp_unset_lock(void* p) { unlock(p); }
void omp_init_nest_lock(void*) {}
void omp_destroy_nest_lock(void*) {}
void omp_set_nest_lock(void* p) {
  int& n = nests[p];
  auto it = locks.find(p);
  if (n && it != locks.end() && it->second == cur) { n++; return; }
  lock(p); nests[p] = 1;
}
void omp_unset_nest_lock(void* p) { if (--nests[p] == 0) unlock(p); }
int omp_test_lock(void* p) {
  if (in_region && locks.count(p)) return 0;
  lock(p); return 1;
}
int omp_get_active_level() { return in_region; }
int omp_get_max_active_levels() { return 1; }
int omp_get_team_size(int l) { return l == 0 ? 1 : l == 1 ? team : -1; }
int omp_get_ancestor_thread_num(int l) {
  return l == 0 ? 0 : l == 1 ? (cur < 0 ? 0 : cur) : -1; }
void omp_set_max_active_levels(int) {}
void omp_get_schedule(int* k, int* c) { *k = 2; *c = 1; }
void omp_set_schedule(int, int) {}
double omp_get_wtick() { return 1e-9; }
int omp_get_cancellation() { return 0; }
int omp_in_final() { return 0; }

// copies of a thread-local variable share an address: none is destroyed
int __cxa_thread_atexit(void (*)(void*), void*, void*) { return 0; }

// initialisation of function-static variables
int __cxa_guard_acquire(char* g) {
  if (*g) return 0;
  lock(g);
  if (*g) { unlock(g); return 0; }
  return 1;
}
void __cxa_guard_release(char* g) { *g = 1; unlock(g); }
void __cxa_guard_abort(char* g) { unlock(g); }

bool GOMP_single_start() {
  if (!TEAM) return true;
  if (fib[cur].single_gen++ == singles) { singles++; return true; }
  return false;
}
void* GOMP_single_copy_start() {
  if (GOMP_single_start()) return nullptr;
  uint64_t g = fib[cur].single_gen;
  GOMP_barrier();
  return copies[g];
}
void GOMP_single_copy_end(void* d) {
  if (!TEAM) return;
  copies[fib[cur].single_gen] = d;
  GOMP_barrier();
}
static bool loop_start(long s, long e, long i, long c, long* a, long* b,
                       bool ordered = false) {
  if (!TEAM) { *a = s; *b = e; return i > 0 ? s < e : s > e; }
  uint64_t g = ++fib[cur].loop_gen;
  if (!loops.count(g)) {
    loops[g] = {s, e, i, c > 0 ? c : 1, team};
    loops[g].ordered = ordered;
  }
  return deal(loops[g], a, b);
}
static bool loop_next(long* a, long* b) {
  if (!TEAM) return false;
  if (fib[cur].loop_gen == 0) {
    fib[cur].loop_gen = 1;
    if (!loops.count(1)) loops[1] = pl;
  } else {
    Loop& l = loops[fib[cur].loop_gen];
    if (l.ordered) pass_turn(l, fib[cur].seq);
  }
  return deal(loops[fib[cur].loop_gen], a, b);
}
void GOMP_ordered_start() {
  if (!TEAM) return;
  Loop& l = loops[fib[cur].loop_gen];
  while (l.turn != fib[cur].seq) { fib[cur].wait = 3; to_main(); }
}
void GOMP_ordered_end() {}
typedef unsigned long long ull;
#define LOOP(kind) \
  bool GOMP_loop_##kind##_start(long s, long e, long i, long c, long* a, \
                                long* b) { \
    return loop_start(s, e, i, c, a, b); } \
  bool GOMP_loop_##kind##_next(long* a, long* b) { return loop_next(a, b); } \
  bool GOMP_loop_ull_##kind##_start(bool, ull s, ull e, ull i, ull c, \
                                    ull* a, ull* b) { \
    return loop_start((long)s, (long)e, (long)i, (long)c, \
                      (long*)a, (long*)b); } \
  bool GOMP_loop_ull_##kind##_next(ull* a, ull* b) { \
    return loop_next((long*)a, (long*)b); } \
  void GOMP_parallel_loop_##kind(void (*fn)(void*), void* d, unsigned n, \
                                 long s, long e, long i, long c, unsigned f) \
  { if (in_region) { fn(d); return; } \
    pl = {s, e, i, c > 0 ? c : 1, 0}; \
    GOMP_parallel(fn, d, n, f); }
LOOP(dynamic) LOOP(guided) LOOP(nonmonotonic_dynamic)
LOOP(nonmonotonic_guided) LOOP(static)
#define OLOOP(kind) \
  bool GOMP_loop_ordered_##kind##_start(long s, long e, long i, long c, \
                                        long* a, long* b) { \
    return loop_start(s, e, i, c, a, b, true); } \
  bool GOMP_loop_ordered_##kind##_next(long* a, long* b) { \
    return loop_next(a, b); } \
  bool GOMP_loop_ull_ordered_##kind##_start(bool, ull s, ull e, ull i, \
                                            ull c, ull* a, ull* b) { \
    return loop_start((long)s, (long)e, (long)i, (long)c, \
                      (long*)a, (long*)b, true); } \
  bool GOMP_loop_ull_ordered_##kind##_next(ull* a, ull* b) { \
    return loop_next((long*)a, (long*)b); }
OLOOP(static) OLOOP(dynamic) OLOOP(guided)
#define RLOOP(kind) \
  bool GOMP_loop_##kind##_start(long s, long e, long i, long* a, long* b) { \
    return loop_start(s, e, i, 1, a, b); } \
  bool GOMP_loop_##kind##_next(long* a, long* b) { return loop_next(a, b); } \
  bool GOMP_loop_ull_##kind##_start(bool, ull s, ull e, ull i, ull* a, \
                                    ull* b) { \
    return loop_start((long)s, (long)e, (long)i, 1, (long*)a, (long*)b); } \
  bool GOMP_loop_ull_##kind##_next(ull* a, ull* b) { \
    return loop_next((long*)a, (long*)b); } \
  void GOMP_parallel_loop_##kind(void (*fn)(void*), void* d, unsigned n, \
                                 long s, long e, long i, unsigned f) { \
    GOMP_parallel_loop_dynamic(fn, d, n, s, e, i, 1, f); }
RLOOP(runtime) RLOOP(nonmonotonic_runtime) RLOOP(maybe_nonmonotonic_runtime)
bool GOMP_loop_ordered_runtime_start(long s, long e, long i, long* a,
                                     long* b) {
  return loop_start(s, e, i, 1, a, b, true); }
bool GOMP_loop_ordered_runtime_next(long* a, long* b) {
  return loop_next(a, b); }
void GOMP_loop_end() { GOMP_barrier(); }
void GOMP_loop_end_nowait() {}

static unsigned solo_total = 0, solo_at = 0;
unsigned GOMP_sections_next() {
  long a, b;
  if (!TEAM) return solo_at < solo_total ? ++solo_at : 0;
  return loop_next(&a, &b) ? (unsigned)a : 0;
}
unsigned GOMP_sections_start(unsigned n) {
  long a, b;
  if (!TEAM) { solo_total = n; solo_at = n > 0; return solo_at; }
  return loop_start(1, (long)n + 1, 1, 1, &a, &b) ? (unsigned)a : 0;
}
void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned n,
                            unsigned k, unsigned f) {
  GOMP_parallel_loop_dynamic(fn, d, n, 1, (long)k + 1, 1, 1, f);
}
void GOMP_sections_end() { GOMP_barrier(); }
void GOMP_sections_end_nowait() {}

// tasks are executed where they are made
void GOMP_task(void (*fn)(void*), void* d, void (*cpy)(void*, void*),
               long size, long align, bool, unsigned, void**, int, void*) {
  if (!cpy) { fn(d); return; }
  std::vector<char> buf(size + align);
  char* p = (char*)(((uintptr_t)buf.data() + align - 1)/align*align);
  cpy(p, d);
  fn(p);
}
void GOMP_taskloop(void (*fn)(void*), void* d, void (*cpy)(void*, void*),
                   long size, long align, unsigned, unsigned long, int,
                   long s, long e, long) {
  std::vector<char> buf(size + align);
  char* p = (char*)(((uintptr_t)buf.data() + align - 1)/align*align);
  if (cpy) cpy(p, d); else memcpy(p, d, size);
  ((long*)p)[0] = s; ((long*)p)[1] = e;
  fn(p);
}
void GOMP_taskwait() {}
void GOMP_taskyield() {}
void GOMP_taskgroup_start() {}
void GOMP_taskgroup_end() {}

// -- instrumentation callbacks --------------------------------------------
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void** p, void*) { access(p, 8, true, PC); }
void __tsan_vptr_read(void** p) { access(p, 8, false, PC); }
#define RW(n) \
  void __tsan_read##n(void* p) { access(p, n, false, PC); } \
  void __tsan_write##n(void* p) { access(p, n, true, PC); } \
  void __tsan_unaligned_read##n(void* p) { access(p, n, false, PC); } \
  void __tsan_unaligned_write##n(void* p) { access(p, n, true, PC); } \
  void __tsan_volatile_read##n(void* p) { access(p, n, false, PC); } \
  void __tsan_volatile_write##n(void* p) { access(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { if (n) access(p, n, false, PC); }
void __tsan_write_range(void* p, size_t n) { if (n) access(p, n, true, PC); }
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
#define ATOM(b, ty) \
  ty __tsan_atomic##b##_load(const volatile ty* p, int) { \
    /* the update that follows is not reported: count it here */ \
    access((const void*)p, sizeof(ty), true, PC); return *p; } \
  void __tsan_atomic##b##_store(volatile ty* p, ty v, int) { \
    access((const void*)p, sizeof(ty), true, PC); *p = v; } \
  ty __tsan_atomic##b##_exchange(volatile ty* p, ty v, int) { \
    access((const void*)p, sizeof(ty), true, PC); \
    ty o = *p; *p = v; return o; } \
  ty __tsan_atomic##b##_fetch_add(volatile ty* p, ty v, int) { \
    access((const void*)p, sizeof(ty), true, PC); \
    ty o = *p; *p = o + v; return o; } \
  ty __tsan_atomic##b##_fetch_sub(volatile ty* p, ty v, int) { \
    access((const void*)p, sizeof(ty), true, PC); \
    ty o = *p; *p = o - v; return o; } \
  ty __tsan_atomic##b##_fetch_and(volatile ty* p, ty v, int) { \
    access((const void*)p, sizeof(ty), true, PC); \
    ty o = *p; *p = o & v; return o; } \
  ty __tsan_atomic##b##_fetch_or(volatile ty* p, ty v, int) { \
    access((const void*)p, sizeof(ty), true, PC); \
    ty o = *p; *p = o | v; return o; } \
  ty __tsan_atomic##b##_fetch_xor(volatile ty* p, ty v, int) { \
    access((const void*)p, sizeof(ty), true, PC); \
    ty o = *p; *p = o ^ v; return o; } \
  int __tsan_atomic##b##_compare_exchange_strong( \
      volatile ty* p, ty* c, ty v, int, int) { \
    access((const void*)p, sizeof(ty), true, PC); \
    if (*p == *c) { *p = v; return 1; } *c = *p; return 0; } \
  int __tsan_atomic##b##_compare_exchange_weak( \
      volatile ty* p, ty* c, ty v, int, int) { \
    access((const void*)p, sizeof(ty), true, PC); \
    if (*p == *c) { *p = v; return 1; } *c = *p; return 0; } \
  ty __tsan_atomic##b##_compare_exchange_val( \
      volatile ty* p, ty c, ty v, int, int) { \
    access((const void*)p, sizeof(ty), true, PC); \
    ty o = *p; if (o == c) *p = v; return o; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)

// -- GSL look-ups that remember their last place --------------------------
// The library is not instrumented; its accelerator is read, updated and read
// again as gsl_interp_accel_find does.
double gsl_spline_eval(const gsl_spline* s, double x, gsl_interp_accel* a) {
  if (!a) return gsl_interp_eval(s->interp, s->x, s->y, x, nullptr);
  access(&a->cache, sizeof a->cache, false, PC);
  size_t i = a->cache;
  if (i + 1 >= s->size || x < s->x[i] || x >= s->x[i + 1]) {
    i = gsl_interp_bsearch(s->x, x, 0, s->size - 1);
    access(&a->cache, sizeof a->cache, true, PC);
    a->cache = i;
  }
  access(&a->cache, sizeof a->cache, false, PC);
  i = a->cache;
  gsl_interp_accel own = {i, 0, 0};
  double v = gsl_interp_eval(s->interp, s->x, s->y, x, &own);
  // evaluated off the interval of x
  if (own.cache != i) v += 1. + s->x[i];
  return v;
}
}  // extern "C"
