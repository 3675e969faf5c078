// A controlled OpenMP runtime and race detector for stateless model checking.
//
// The code under test is compiled with -fopenmp and -fsanitize=thread but linked with neither libgomp nor
// libtsan: gcc's GOMP_* and __tsan_* calls land here.
//  * Scheduler: the threads of a team run one at a time.  At every scheduling point (explicit yields of the models,
//    and every synchronisation operation: atomics, critical sections, dynamic loop chunks, barriers) the explorer
//    decides which thread runs next.
//  * Race detector: every memory access inside a region is checked with vector clocks.  Accesses of two threads
//    that conflict and are not ordered by a synchronisation are a race, whichever schedule runs.  Without a race,
//    executions that order the synchronisation operations alike are equivalent, so deciding at those operations
//    only covers every interleaving.
// This file is compiled without the instrumentation.
#include "rt.hpp"
#include <dlfcn.h>
#include <pthread.h>
#include <semaphore.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <map>
#include <unordered_map>

namespace {
enum { MAXT = 8, DEPTH = 256 };
typedef uint32_t Clock;
struct VC {
  Clock c[MAXT];
  VC() { memset(c, 0, sizeof c); }
  void join(const VC& o) {
    for (int i = 0; i < MAXT; ++i)
      if (o.c[i] > c[i]) c[i] = o.c[i];
  }
};
struct Acc {
  Clock clock;
  uint8_t mask;
  bool atomic;
  void* pc;
  void* fn;
};
struct Cell {
  Acc w[MAXT], r[MAXT];
};
struct Stack {
  void* pc[DEPTH];
  int n = 0;
};
struct Team {
  void (*fn)(void*);
  void* data;
  int n;
  bool explored;
  bool done[MAXT];
  bool blocked[MAXT];
  const void* waits[MAXT];
  int arrived = 0;
  // work sharing
  long next = 0, end = 0, incr = 1, chunk = 1;
  int inited = 0, left = 0;
  bool single_taken = false;
  int single_seen = 0;
};
struct Thread {
  pthread_t th;
  sem_t go;
  bool started = false;
  Team* team = nullptr;
};
Thread pool[MAXT];
sem_t master_go;
thread_local int tid = 0;
thread_local int team_n = 1;
thread_local Team* my_team = nullptr;
thread_local int busy = 0;  // inside the runtime
Stack stacks[MAXT];
VC vc[MAXT];
bool exploring = false, in_region = false;
RtChoose choose_fn;
std::vector<RtRace>* races;
struct Name {
  std::string name;
  uintptr_t at, size;
};
std::vector<Name>* names;
std::unordered_map<uintptr_t, Cell>* shadow;
std::map<const void*, VC>* objs;
std::map<const void*, int>* locks;  // owner
RtStats stats;
int running = 0;

struct Busy {
  Busy() { ++busy; }
  ~Busy() { --busy; }
};

sem_t* sem_of(int t) { return t ? &pool[t].go : &master_go; }
void switch_to(int t) {
  const int me = tid;
  if (t == me) return;
  ++stats.switches;
  running = t;
  sem_post(sem_of(t));
  while (sem_wait(sem_of(me))) {
  }
}
int enabled(Team* T, int* out, int skip) {
  int n = 0;
  for (int i = 0; i < T->n; ++i)
    if (i != skip && !T->done[i] && !T->blocked[i]) out[n++] = i;
  return n;
}
// a scheduling point of a running thread
void point() {
  Team* T = my_team;
  if (!T || !T->explored || T->n < 2) return;
  int o[MAXT];
  const int n = enabled(T, o, tid);
  ++stats.points;
  if (!n) return;
  const unsigned long k = choose_fn(n + 1, true);
  if (k) switch_to(o[k - 1]);
}
// the running thread cannot go on
void leave() {
  Team* T = my_team;
  int o[MAXT];
  const int n = enabled(T, o, tid);
  if (!n) {
    fprintf(stderr, "deadlock in a parallel region\n");
    abort();
  }
  switch_to(o[n > 1 ? choose_fn(n, false) : 0]);
}
void body(int t) {
  Team* T = my_team;
  T->fn(T->data);
  Busy b;
  T->done[t] = true;
}
void* worker(void* a) {
  const int t = (int)(intptr_t)a;
  tid = t;
  for (;;) {
    while (sem_wait(&pool[t].go)) {
    }
    my_team = pool[t].team;
    team_n = my_team->n;
    body(t);
    // hand over; no waiting here: the semaphore of this thread is posted by the next region
    Busy b;
    Team* T = my_team;
    int o[MAXT];
    const int n = enabled(T, o, t);
    int to = 0;
    if (n) to = o[n > 1 ? choose_fn(n, false) : 0];
    ++stats.switches;
    running = to;
    sem_post(sem_of(to));
  }
  return nullptr;
}
std::string frame(void* pc) {
  static std::map<void*, std::string> cache;
  auto it = cache.find(pc);
  if (it != cache.end()) return it->second;
  char exe[512];
  const ssize_t k = readlink("/proc/self/exe", exe, sizeof exe - 1);
  exe[k > 0 ? k : 0] = 0;
  char cmd[700];
  snprintf(cmd, sizeof cmd, "addr2line -f -C -s -e %s %p 2>/dev/null", exe, (void*)((char*)pc - 1));
  std::string s;
  if (FILE* p = popen(cmd, "r")) {
    char b[4096];
    while (fgets(b, sizeof b, p)) s += b;
    pclose(p);
  }
  s = s.substr(0, s.find('\n'));
  const size_t par = s.find('(');
  if (par != std::string::npos) s = s.substr(0, par);
  const size_t ret = s.rfind(' ');
  if (ret != std::string::npos && s.find("operator") == std::string::npos && s.find('<') == std::string::npos) s = s.substr(ret + 1);
  return cache[pc] = s;
}
std::string where(int t, void* pc) {  // innermost function of the library
  std::string s = frame(pc), out = s;
  if (s.find("crocoddyl::") != std::string::npos) return s;
  const Stack& k = stacks[t];
  for (int i = k.n; i-- > 0;) {
    std::string f = frame(k.pc[i < DEPTH ? i : DEPTH - 1]);
    if (f.find("crocoddyl::") != std::string::npos) return f;
  }
  return out;
}
void report(int t, void* pc, bool w, int u, const Acc& a, bool uw, uintptr_t addr) {
  if (races->size() > 20) return;
  const std::string f = where(t, pc), g = frame(a.fn ? a.fn : a.pc);
  std::string key = "race:" + f;
  for (char& c : key)
    if (c == ' ') c = '_';
  for (const auto& k : *names)
    if (addr + 8 > k.at && addr < k.at + k.size) {
      key = "race:" + k.name;
      for (auto& r : *races)
        if (r.key == key) return;
      break;
    }
  if (getenv("RT_STACK")) {
    fprintf(stderr, "race: %s\n", frame(pc).c_str());
    for (int i = stacks[t].n; i-- > 0;) fprintf(stderr, "  %p %s\n", stacks[t].pc[i], frame(stacks[t].pc[i]).c_str());
  }
  char b[64];
  snprintf(b, sizeof b, " (address ..%03lx)", (unsigned long)(addr & 0xfff));
  for (auto& r : *races)
    if (r.key == key) return;
  races->push_back({key, std::string(w ? "write" : "read") + " by thread " + std::to_string(t) + " in " + f + " is unordered with the " + (uw ? "write" : "read") + " by thread " +
                             std::to_string(u) + " in " + frame(a.pc) + " called from " + g + b});
}
void access1(uintptr_t granule, uint8_t mask, bool write, bool atomic, void* pc) {
  Cell& c = (*shadow)[granule];
  const int t = tid;
  for (int u = 0; u < MAXT; ++u) {
    if (u == t) continue;
    const Acc& w = c.w[u];
    if ((w.mask & mask) && w.clock > vc[t].c[u] && !(atomic && w.atomic)) report(t, pc, write, u, w, true, granule * 8);
    if (!write) continue;
    const Acc& r = c.r[u];
    if ((r.mask & mask) && r.clock > vc[t].c[u] && !(atomic && r.atomic)) report(t, pc, write, u, r, false, granule * 8);
  }
  Acc& a = write ? c.w[t] : c.r[t];
  if (a.clock != vc[t].c[t]) a.mask = 0;
  a.clock = vc[t].c[t];
  a.atomic = atomic && (a.mask == 0 || a.atomic);
  a.mask |= mask;
  a.pc = pc;
  const Stack& s = stacks[t];
  a.fn = s.n > 0 && s.n <= DEPTH ? s.pc[s.n - 1] : nullptr;
}
inline bool recording() { return in_region && !busy && my_team && my_team->explored; }
void access(const void* p, size_t n, bool write, void* pc, bool atomic = false) {
  if (!in_region) return;
  if (!recording() || !n) return;
  Busy b;
  ++stats.accesses;
  uintptr_t a = (uintptr_t)p, e = a + n;
  while (a < e) {
    const uintptr_t g = a >> 3, ge = (g + 1) << 3, stop = e < ge ? e : ge;
    uint8_t m = 0;
    for (uintptr_t i = a; i < stop; ++i) m |= (uint8_t)(1u << (i & 7));
    access1(g, m, write, atomic, pc);
    a = stop;
  }
}
void acquire(const void* p) {
  auto it = objs->find(p);
  if (it != objs->end()) vc[tid].join(it->second);
}
void release(const void* p) {
  (*objs)[p].join(vc[tid]);
  ++vc[tid].c[tid];
}
// a synchronisation operation on p: a scheduling point, then acquire and/or release
void sync(const void* p, bool acq, bool rel) {
  if (!recording()) return;
  Busy b;
  ++stats.syncs;
  point();
  if (acq) acquire(p);
  if (rel) release(p);
}
// Is p the reference count of a std::shared_ptr, i.e. 8 or 12 bytes into an object whose type is std::_Sp_counted_*?
extern "C" char __executable_start, _end;
bool in_image(const void* p) { return p >= (void*)&__executable_start && p < (void*)&_end && ((uintptr_t)p & 7) == 0; }
bool counted(const void* vptr) {
  static std::map<const void*, bool> cache;
  const auto it = cache.find(vptr);
  if (it != cache.end()) return it->second;
  bool yes = false;
  if (in_image(vptr)) {
    const void* const* ti = ((const void* const* const*)vptr)[-1];
    if (in_image(ti)) {
      const char* name = (const char*)ti[1];
      if (name >= &__executable_start && name < &_end) yes = strstr(name, "_Sp_counted") != nullptr;
    }
  }
  return cache[vptr] = yes;
}
bool refcount(const void* p) {
  if (!recording()) return false;
  const uintptr_t a = (uintptr_t)p;
  if ((a & 7) == 4) return counted(*(const void* const*)(a - 12));
  return (a & 7) == 0 && counted(*(const void* const*)(a - 8));
}
// Copying and dropping a shared_ptr orders nothing but the destruction after the last use: not a scheduling point,
// and no order between copies.
void count_shared(const void* p, long v, long old) {
  Busy b;
  ++stats.counts;
  if (v < 0) {
    release(p);
    if (old + v == 0) acquire(p);
  }
}
void forget(void* p, size_t n) {
  if (!recording()) return;
  Busy b;
  for (uintptr_t g = (uintptr_t)p >> 3; g <= ((uintptr_t)p + n) >> 3; ++g) shadow->erase(g);
}
void barrier() {
  Team* T = my_team;
  if (!T || T->n < 2) return;
  Busy b;
  point();
  if (++T->arrived == T->n) {
    T->arrived = 0;
    if (T->explored) {
      VC all;
      for (int i = 0; i < T->n; ++i) all.join(vc[i]);
      for (int i = 0; i < T->n; ++i) vc[i].join(all), ++vc[i].c[i];
    }
    for (int i = 0; i < T->n; ++i)
      if (T->waits[i] == T) T->blocked[i] = false, T->waits[i] = nullptr;
    return;
  }
  T->blocked[tid] = true;
  T->waits[tid] = T;
  leave();
}
void lock(const void* p) {
  Team* T = my_team;
  if (!T || T->n < 2) return;
  Busy b;
  point();
  while (locks->count(p)) {
    T->blocked[tid] = true;
    T->waits[tid] = p;
    leave();
  }
  (*locks)[p] = tid;
  if (T->explored) ++stats.syncs, acquire(p);
}
void unlock(const void* p) {
  Team* T = my_team;
  if (!T || T->n < 2) return;
  Busy b;
  if (T->explored) release(p);
  locks->erase(p);
  for (int i = 0; i < T->n; ++i)
    if (T->waits[i] == p) T->blocked[i] = false, T->waits[i] = nullptr;
  point();
}
void run_team(Team& T) {
  Team* const outer = my_team;
  const int outer_n = team_n;
  my_team = &T;
  team_n = T.n;
  if (T.n == 1) {
    T.explored = outer && outer->explored;  // a nested region is part of its thread
    T.fn(T.data);
    my_team = outer;
    team_n = outer_n;
    return;
  }
  {
    Busy b;
    if (!shadow) {
      shadow = new std::unordered_map<uintptr_t, Cell>;
      objs = new std::map<const void*, VC>;
      locks = new std::map<const void*, int>;
      sem_init(&master_go, 0, 0);
      pthread_atfork(nullptr, nullptr, [] {
        for (auto& t : pool) t.started = false;  // threads do not survive a fork
      });
    }
    shadow->clear();
    objs->clear();
    locks->clear();
    for (int i = 0; i < MAXT; ++i) {
      vc[i] = VC();
      vc[i].c[i] = 1;
      if (i) stacks[i].n = 0;
    }
    memset(T.done, 0, sizeof T.done);
    memset(T.blocked, 0, sizeof T.blocked);
    memset(T.waits, 0, sizeof T.waits);
    for (int i = 1; i < T.n; ++i) {
      pool[i].team = &T;
      if (!pool[i].started) {
        sem_init(&pool[i].go, 0, 0);
        pthread_attr_t at;
        pthread_attr_init(&at);
        pthread_attr_setstacksize(&at, 1 << 21);
        if (pthread_create(&pool[i].th, &at, worker, (void*)(intptr_t)i)) {
          fprintf(stderr, "cannot create a thread\n");
          abort();
        }
        pool[i].started = true;
      }
    }
    T.explored = exploring;
    if (T.explored) ++stats.regions;
    if (!T.explored) choose_fn = [](unsigned long, bool) { return 0ul; };
    running = 0;
    in_region = true;
    point();
  }
  T.fn(T.data);
  {
    Busy b;
    T.done[0] = true;
    for (;;) {  // the master returns when everybody is done
      int o[MAXT];
      const int n = enabled(&T, o, 0);
      if (n) {
        switch_to(o[n > 1 ? choose_fn(n, false) : 0]);
        continue;
      }
      bool all = true;
      for (int i = 0; i < T.n; ++i) all = all && T.done[i];
      if (all) break;
      fprintf(stderr, "deadlock in a parallel region\n");
      abort();
    }
    in_region = false;
  }
  my_team = outer;
  team_n = outer_n;
}
void parallel(void (*fn)(void*), void* data, unsigned n, Team& T) {
  if (n == 0) n = 2;
  if (n > MAXT) n = MAXT;
  T.fn = fn;
  T.data = data;
  T.n = my_team ? 1 : (int)n;
  run_team(T);
}
void loop_init(Team* T, long start, long end, long incr, long chunk) {
  if (!T->inited) {
    T->next = start, T->end = end, T->incr = incr, T->chunk = chunk > 0 ? chunk : 1;
    T->inited = 1;
    T->left = 0;
  }
}
bool loop_next(long* is, long* ie) {
  Team* T = my_team;
  Busy b;
  point();
  if (T->incr > 0 ? T->next >= T->end : T->next <= T->end) return false;
  *is = T->next;
  long e = T->next + T->chunk * T->incr;
  if (T->incr > 0 ? e > T->end : e < T->end) e = T->end;
  *ie = T->next = e;
  return true;
}
void loop_end() {
  Team* T = my_team;
  if (++T->left >= T->n) T->inited = 0;
}
}  // namespace

void rt_begin(RtChoose f) {
  Busy b;
  if (!races) races = new std::vector<RtRace>;
  races->clear();
  if (!names) names = new std::vector<Name>;
  names->clear();
  choose_fn = f;
  exploring = true;
}
std::vector<RtRace> rt_end() {
  Busy b;
  exploring = false;
  return races ? *races : std::vector<RtRace>();
}
void rt_name(const char* name, const void* p, unsigned long size) {
  Busy b;
  names->push_back({name, (uintptr_t)p, size});
}
RtStats rt_stats() { return stats; }

static long yields = 1 << 30;
void rt_yields(long n) { yields = n; }

extern "C" {
void rt_yield() {
  if (!recording() || yields <= 0) return;
  Busy b;
  --yields;
  point();
}
int rt_team() { return team_n; }

// ---- OpenMP -------------------------------------------------------------------------------------------------
int omp_get_num_threads() { return team_n; }
int omp_get_thread_num() { return my_team && my_team->n > 1 ? tid : 0; }
int omp_get_max_threads() { return 1; }
int omp_get_num_procs() { return 4; }
int omp_in_parallel() { return my_team && my_team->n > 1; }
void omp_set_num_threads(int) {}
int omp_get_level() { return my_team ? 1 : 0; }
int omp_get_dynamic() { return 0; }
void omp_set_dynamic(int) {}
void omp_set_nested(int) {}
double omp_get_wtime() { return 0; }
void omp_init_lock(void*) {}
void omp_destroy_lock(void*) {}
void omp_set_lock(void* p) { lock(p); }
void omp_unset_lock(void* p) { unlock(p); }

void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) {
  Team T;
  parallel(fn, data, n, T);
}
unsigned GOMP_parallel_reductions(void (*fn)(void*), void* data, unsigned n, unsigned) {
  Team T;
  parallel(fn, data, n, T);
  return n;
}
static void ploop(void (*fn)(void*), void* data, unsigned n, long s, long e, long i, long c) {
  Team T;
  loop_init(&T, s, e, i, c);
  parallel(fn, data, n, T);
}
#define PLOOP(name) \
  void name(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned) { ploop(fn, d, n, s, e, i, c); }
PLOOP(GOMP_parallel_loop_static)
PLOOP(GOMP_parallel_loop_dynamic)
PLOOP(GOMP_parallel_loop_guided)
PLOOP(GOMP_parallel_loop_nonmonotonic_dynamic)
PLOOP(GOMP_parallel_loop_nonmonotonic_guided)
void GOMP_parallel_loop_runtime(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, unsigned) { ploop(fn, d, n, s, e, i, 1); }
void GOMP_parallel_loop_nonmonotonic_runtime(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, unsigned) { ploop(fn, d, n, s, e, i, 1); }
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, unsigned) { ploop(fn, d, n, s, e, i, 1); }
#define LSTART(name)                                                          \
  bool name(long s, long e, long i, long c, long* a, long* b) {               \
    loop_init(my_team, s, e, i, c);                                           \
    return loop_next(a, b);                                                   \
  }
LSTART(GOMP_loop_static_start)
LSTART(GOMP_loop_dynamic_start)
LSTART(GOMP_loop_guided_start)
LSTART(GOMP_loop_nonmonotonic_dynamic_start)
LSTART(GOMP_loop_nonmonotonic_guided_start)
#define LNEXT(name) \
  bool name(long* a, long* b) { return loop_next(a, b); }
LNEXT(GOMP_loop_static_next)
LNEXT(GOMP_loop_dynamic_next)
LNEXT(GOMP_loop_guided_next)
LNEXT(GOMP_loop_runtime_next)
LNEXT(GOMP_loop_nonmonotonic_dynamic_next)
LNEXT(GOMP_loop_nonmonotonic_guided_next)
LNEXT(GOMP_loop_nonmonotonic_runtime_next)
LNEXT(GOMP_loop_maybe_nonmonotonic_runtime_next)
// unsigned long long loops (std::size_t counters)
typedef unsigned long long ull;
static bool ull_next(ull* a, ull* b) {
  long x, y;
  if (!loop_next(&x, &y)) return false;
  *a = (ull)x, *b = (ull)y;
  return true;
}
#define UNEXT(name) \
  bool name(ull* a, ull* b) { return ull_next(a, b); }
#define USTART(name)                                              \
  bool name(bool, ull s, ull e, ull i, ull c, ull* a, ull* b) {   \
    loop_init(my_team, (long)s, (long)e, (long)i, (long)c);       \
    return ull_next(a, b);                                        \
  }
USTART(GOMP_loop_ull_static_start)
USTART(GOMP_loop_ull_dynamic_start)
USTART(GOMP_loop_ull_guided_start)
USTART(GOMP_loop_ull_nonmonotonic_dynamic_start)
USTART(GOMP_loop_ull_nonmonotonic_guided_start)
UNEXT(GOMP_loop_ull_static_next)
UNEXT(GOMP_loop_ull_dynamic_next)
UNEXT(GOMP_loop_ull_guided_next)
UNEXT(GOMP_loop_ull_runtime_next)
UNEXT(GOMP_loop_ull_nonmonotonic_dynamic_next)
UNEXT(GOMP_loop_ull_nonmonotonic_guided_next)
UNEXT(GOMP_loop_ull_nonmonotonic_runtime_next)
UNEXT(GOMP_loop_ull_maybe_nonmonotonic_runtime_next)
void GOMP_loop_end() {
  loop_end();
  barrier();
}
void GOMP_loop_end_nowait() { loop_end(); }
void GOMP_barrier() { barrier(); }
static char the_critical, the_atomic;
void GOMP_critical_start() { lock(&the_critical); }
void GOMP_critical_end() { unlock(&the_critical); }
void GOMP_critical_name_start(void** p) { lock(p); }
void GOMP_critical_name_end(void** p) { unlock(p); }
void GOMP_atomic_start() { lock(&the_atomic); }
void GOMP_atomic_end() { unlock(&the_atomic); }
bool GOMP_single_start() {
  Team* T = my_team;
  if (!T) return true;
  Busy b;
  point();
  const bool mine = !T->single_taken;
  T->single_taken = true;
  if (++T->single_seen == T->n) T->single_taken = false, T->single_seen = 0;
  return mine;
}

// ---- instrumentation ------------------------------------------------------------------------------------------
#define PC __builtin_return_address(0)
void __tsan_init() {}
void __tsan_func_entry(void* pc) {
  Stack& s = stacks[tid];
  if (busy) return;
  if (s.n < DEPTH) s.pc[s.n] = pc;
  ++s.n;
}
void __tsan_func_exit() {
  if (busy) return;
  Stack& s = stacks[tid];
  if (s.n > 0) --s.n;
}
#define RW(n)                                                                 \
  void __tsan_read##n(void* p) { access(p, n, false, PC); }                   \
  void __tsan_write##n(void* p) { access(p, n, true, PC); }                   \
  void __tsan_unaligned_read##n(void* p) { access(p, n, false, PC); }         \
  void __tsan_unaligned_write##n(void* p) { access(p, n, true, PC); }         \
  void __tsan_volatile_read##n(void* p) { access(p, n, false, PC); }          \
  void __tsan_volatile_write##n(void* p) { access(p, n, true, PC); }          \
  void __tsan_unaligned_volatile_read##n(void* p) { access(p, n, false, PC); } \
  void __tsan_unaligned_volatile_write##n(void* p) { access(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { access(p, n, false, PC); }
void __tsan_write_range(void* p, unsigned long n) { access(p, n, true, PC); }
void __tsan_vptr_update(void** p, void*) { access(p, 8, true, PC); }
void __tsan_vptr_read(void** p) { access(p, 8, false, PC); }
#define ATOMIC(bits, T)                                                                                                 \
  T __tsan_atomic##bits##_load(const volatile T* p, int) {                                                              \
    sync((const void*)p, true, false);                                                                                  \
    access((const void*)p, sizeof(T), false, PC, true);                                                                 \
    return *p;                                                                                                          \
  }                                                                                                                     \
  void __tsan_atomic##bits##_store(volatile T* p, T v, int) {                                                           \
    sync((const void*)p, false, true);                                                                                  \
    access((const void*)p, sizeof(T), true, PC, true);                                                                  \
    *p = v;                                                                                                             \
  }                                                                                                                     \
  T __tsan_atomic##bits##_exchange(volatile T* p, T v, int) {                                                           \
    sync((const void*)p, true, true);                                                                                   \
    access((const void*)p, sizeof(T), true, PC, true);                                                                  \
    T o = *p;                                                                                                           \
    *p = v;                                                                                                             \
    return o;                                                                                                           \
  }                                                                                                                     \
  T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int) {                                                          \
    if (sizeof(T) == 4 && refcount((const void*)p)) {                                                                   \
      T o = *p;                                                                                                         \
      *p = (T)(o + v);                                                                                                  \
      count_shared((const void*)p, (int32_t)v, (int32_t)o);                                                             \
      return o;                                                                                                         \
    }                                                                                                                   \
    sync((const void*)p, true, true);                                                                                   \
    access((const void*)p, sizeof(T), true, PC, true);                                                                  \
    T o = *p;                                                                                                           \
    *p = (T)(o + v);                                                                                                    \
    return o;                                                                                                           \
  }                                                                                                                     \
  T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int) {                                                          \
    sync((const void*)p, true, true);                                                                                   \
    access((const void*)p, sizeof(T), true, PC, true);                                                                  \
    T o = *p;                                                                                                           \
    *p = (T)(o - v);                                                                                                    \
    return o;                                                                                                           \
  }                                                                                                                     \
  T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int) {                                                           \
    sync((const void*)p, true, true);                                                                                   \
    T o = *p;                                                                                                           \
    *p = (T)(o | v);                                                                                                    \
    return o;                                                                                                           \
  }                                                                                                                     \
  T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int) {                                                          \
    sync((const void*)p, true, true);                                                                                   \
    T o = *p;                                                                                                           \
    *p = (T)(o & v);                                                                                                    \
    return o;                                                                                                           \
  }                                                                                                                     \
  bool __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) {                              \
    sync((const void*)p, true, true);                                                                                   \
    access((const void*)p, sizeof(T), true, PC, true);                                                                  \
    if (*p == *e) {                                                                                                     \
      *p = v;                                                                                                           \
      return true;                                                                                                      \
    }                                                                                                                   \
    *e = *p;                                                                                                            \
    return false;                                                                                                       \
  }                                                                                                                     \
  bool __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T v, int a, int b) {                            \
    return __tsan_atomic##bits##_compare_exchange_strong(p, e, v, a, b);                                                \
  }                                                                                                                     \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T e, T v, int a, int b) {                                 \
    __tsan_atomic##bits##_compare_exchange_strong(p, &e, v, a, b);                                                      \
    return e;                                                                                                           \
  }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// ---- library functions the instrumentation does not see (linked with --wrap) ------------------------------------
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) {
  access(s, n, false, PC), access(d, n, true, PC);
  return __real_memcpy(d, s, n);
}
void* __wrap_memmove(void* d, const void* s, size_t n) {
  access(s, n, false, PC), access(d, n, true, PC);
  return __real_memmove(d, s, n);
}
void* __wrap_memset(void* d, int v, size_t n) {
  access(d, n, true, PC);
  return __real_memset(d, v, n);
}
void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void* __real_aligned_alloc(size_t, size_t);
int __real_posix_memalign(void**, size_t, size_t);
// memory handed out inside a region starts afresh
void* __wrap_malloc(size_t n) {
  void* p = __real_malloc(n);
  forget(p, n);
  return p;
}
void* __wrap_calloc(size_t a, size_t b) {
  void* p = __real_calloc(a, b);
  forget(p, a * b);
  return p;
}
void* __wrap_realloc(void* q, size_t n) {
  void* p = __real_realloc(q, n);
  forget(p, n);
  return p;
}
void* __wrap_aligned_alloc(size_t a, size_t n) {
  void* p = __real_aligned_alloc(a, n);
  forget(p, n);
  return p;
}
int __wrap_posix_memalign(void** q, size_t a, size_t n) {
  const int r = __real_posix_memalign(q, a, n);
  if (!r) forget(*q, n);
  return r;
}
int __real___cxa_guard_acquire(uint64_t*);
void __real___cxa_guard_release(uint64_t*);
int __wrap___cxa_guard_acquire(uint64_t* g) {
  const int r = __real___cxa_guard_acquire(g);
  if (recording()) {
    Busy b;
    acquire(g);
  }
  return r;
}
void __wrap___cxa_guard_release(uint64_t* g) {
  __real___cxa_guard_release(g);
  if (recording()) {
    Busy b;
    release(g);
  }
}
}
// operator new inside libstdc++ calls malloc out of reach of --wrap
void* operator new(size_t n) {
  void* p = __wrap_malloc(n ? n : 1);
  if (!p) abort();
  return p;
}
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
