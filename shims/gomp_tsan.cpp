// A small OpenMP runtime built only from primitives ThreadSanitizer
// understands (pthread_create/join, mutexes, barriers), so that every
// happens-before edge the detector sees is one the OpenMP standard promises.
// libgomp's own futex-based synchronisation is invisible to the detector.
//
// On top of that it perturbs the schedule: thread start and chunk hand-out are
// delayed by seeded amounts and the static thread numbers are permuted over
// the spawned threads, so different seeds give different interleavings.
#include <atomic>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <map>
#include <mutex>
#include <pthread.h>
#include <string>
#include <unistd.h>
#include <vector>

namespace {
struct Loop {
  std::atomic<long> next{0};
  std::atomic<unsigned long long> unext{0};
  long start = 0, end = 0, incr = 1, chunk = 1;
  unsigned long long ustart = 0, uend = 0, uincr = 1, uchunk = 1;
  bool up = true;
};
struct Team {
  int n = 1;
  pthread_barrier_t bar;
  pthread_mutex_t mtx;                 // protects the work-share table
  std::map<int, Loop *> shares;        // work-share sequence number -> state
  std::map<int, bool> singles;
  Team(int n_) : n(n_) { pthread_barrier_init(&bar, nullptr, n); pthread_mutex_init(&mtx, nullptr); }
  ~Team() { for(auto &s: shares) delete s.second; pthread_barrier_destroy(&bar); pthread_mutex_destroy(&mtx); }
};
struct Self { Team *team = nullptr; int id = 0, level = 0, seq = 0; Loop *cur = nullptr; uint64_t rng = 1; long lo=0, hi=0; bool stat_done=false; };
thread_local Self self;
std::atomic<int> g_threads{4};
std::atomic<uint64_t> g_seed{1};
std::atomic<uint64_t> g_region{0};
pthread_mutex_t g_atomic = PTHREAD_MUTEX_INITIALIZER, g_crit = PTHREAD_MUTEX_INITIALIZER;

uint64_t mix(uint64_t x) { x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }
void jitter() {
  self.rng = mix(self.rng);
  const int r = self.rng & 15;
  if(r == 0) { timespec t{0, long((self.rng >> 8) % 60000)}; nanosleep(&t, nullptr); }
  else if(r < 4) sched_yield();
  else if(r < 8) { for(volatile int i = 0; i < int((self.rng >> 8) & 1023); i++); }
}
struct Start { void (*fn)(void *); void *data; Team *team; int id, level; uint64_t seed; };
void *tramp(void *p) {
  Start s = *static_cast<Start *>(p);
  self = Self(); self.team = s.team; self.id = s.id; self.level = s.level; self.rng = mix(s.seed + s.id);
  jitter();
  s.fn(s.data);
  return nullptr;
}
void run_team(void (*fn)(void *), void *data, unsigned nreq, Loop *first) {
  int n = nreq ? int(nreq) : g_threads.load(std::memory_order_relaxed);
  if(self.level > 0) n = 1;            // nested regions are serialised, as by default
  Team team(n);
  if(first) team.shares[1] = first;
  const uint64_t region = g_region.fetch_add(1, std::memory_order_relaxed);
  const uint64_t seed = mix(g_seed.load(std::memory_order_relaxed) * 1000003 + region);
  Self saved = self;
  std::vector<pthread_t> th(n > 1 ? n - 1 : 0);
  std::vector<Start> st(th.size());
  // which logical thread number is launched first varies
  std::vector<int> ids; for(int i = 1; i < n; i++) ids.push_back(i);
  for(size_t i = ids.size(); i > 1; i--) std::swap(ids[i - 1], ids[mix(seed + i) % i]);
  for(size_t i = 0; i < th.size(); i++) {
    st[i] = {fn, data, &team, ids[i], saved.level + 1, seed};
    pthread_create(&th[i], nullptr, tramp, &st[i]);
  }
  self = Self(); self.team = &team; self.id = 0; self.level = saved.level + 1; self.rng = mix(seed);
  jitter();
  fn(data);
  for(auto &t: th) pthread_join(t, nullptr);
  self = saved;
}
Loop *share(bool *created) {
  // the n-th work-sharing construct a thread meets is the n-th of the team
  const int k = ++self.seq;
  *created = false;
  if(!self.team) { *created = true; return new Loop; }
  pthread_mutex_lock(&self.team->mtx);
  Loop *&l = self.team->shares[k];
  if(!l) { l = new Loop; *created = true; l->chunk = -1; }
  return l;                            // still locked when inside a team
}
void unlock() { if(self.team) pthread_mutex_unlock(&self.team->mtx); }
bool dyn_next(Loop *l, long *is, long *ie) {
  jitter();
  const long step = l->incr * l->chunk;
  const long a = l->next.fetch_add(step, std::memory_order_relaxed);
  if(l->incr > 0 ? a >= l->end : a <= l->end) return false;
  long b = a + step;
  if(l->incr > 0 ? b > l->end : b < l->end) b = l->end;
  *is = a; *ie = b; return true;
}
bool dyn_start(long s, long e, long i, long c, long *is, long *ie) {
  bool cr; Loop *l = share(&cr);
  if(cr) { l->start = s; l->end = e; l->incr = i; l->chunk = c > 0 ? c : 1; l->next.store(s, std::memory_order_relaxed); }
  unlock(); self.cur = l;
  return dyn_next(l, is, ie);
}
bool udyn_next(Loop *l, unsigned long long *is, unsigned long long *ie) {
  jitter();
  const unsigned long long k = l->unext.fetch_add(l->uchunk, std::memory_order_relaxed);
  const unsigned long long n = l->up ? (l->uend > l->ustart ? (l->uend - l->ustart + l->uincr - 1) / l->uincr : 0)
                                     : (l->ustart > l->uend ? (l->ustart - l->uend + (-l->uincr) - 1) / (-l->uincr) : 0);
  if(k >= n) return false;
  const unsigned long long k2 = k + l->uchunk < n ? k + l->uchunk : n;
  *is = l->ustart + k * l->uincr; *ie = k2 == n ? l->uend : l->ustart + k2 * l->uincr;
  return true;
}
bool udyn_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long *is, unsigned long long *ie) {
  bool cr; Loop *l = share(&cr);
  if(cr) { l->up = up; l->ustart = s; l->uend = e; l->uincr = i; l->uchunk = c ? c : 1; l->chunk = 1; l->unext.store(0, std::memory_order_relaxed); }
  unlock(); self.cur = l;
  return udyn_next(l, is, ie);
}
void barrier() { if(self.team && self.team->n > 1) pthread_barrier_wait(&self.team->bar); jitter(); }
} // namespace

extern "C" {
// hooks for the driver
void vf_omp_seed(unsigned long long s) { g_seed.store(s, std::memory_order_relaxed); }
unsigned long long vf_omp_regions() { return g_region.load(std::memory_order_relaxed); }

void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned) { run_team(fn, data, n, nullptr); }
unsigned GOMP_parallel_reductions(void (*fn)(void *), void *data, unsigned n, unsigned) { run_team(fn, data, n, nullptr); return 1; }
void GOMP_barrier(void) { barrier(); }
bool GOMP_cancel(int, bool) { return false; }
bool GOMP_cancellation_point(int) { return false; }
bool GOMP_barrier_cancel(void) { barrier(); return false; }
void GOMP_atomic_start(void) { pthread_mutex_lock(&g_atomic); }
void GOMP_atomic_end(void) { pthread_mutex_unlock(&g_atomic); }
void GOMP_critical_start(void) { pthread_mutex_lock(&g_crit); }
void GOMP_critical_end(void) { pthread_mutex_unlock(&g_crit); }
void GOMP_critical_name_start(void **p) {
  // *p is a zero-initialised word owned by the construct
  pthread_mutex_t *m = static_cast<pthread_mutex_t *>(__atomic_load_n(p, __ATOMIC_ACQUIRE));
  if(!m) {
    auto *fresh = new pthread_mutex_t; pthread_mutex_init(fresh, nullptr);
    void *expect = nullptr;
    if(__atomic_compare_exchange_n(p, &expect, (void *)fresh, false, __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE)) m = fresh;
    else { pthread_mutex_destroy(fresh); delete fresh; m = static_cast<pthread_mutex_t *>(expect); }
  }
  pthread_mutex_lock(m);
}
void GOMP_critical_name_end(void **p) { pthread_mutex_unlock(static_cast<pthread_mutex_t *>(__atomic_load_n(p, __ATOMIC_ACQUIRE))); }
bool GOMP_single_start(void) {
  if(!self.team) return true;
  const int k = ++self.seq;
  pthread_mutex_lock(&self.team->mtx);
  const bool mine = !self.team->singles[k];
  self.team->singles[k] = true;
  pthread_mutex_unlock(&self.team->mtx);
  return mine;
}
#define DYN(NAME) \
  bool GOMP_loop_##NAME##_start(long s, long e, long i, long c, long *is, long *ie) { return dyn_start(s, e, i, c, is, ie); } \
  bool GOMP_loop_##NAME##_next(long *is, long *ie) { return dyn_next(self.cur, is, ie); } \
  bool GOMP_loop_ull_##NAME##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long *is, unsigned long long *ie) { return udyn_start(up, s, e, i, c, is, ie); } \
  bool GOMP_loop_ull_##NAME##_next(unsigned long long *is, unsigned long long *ie) { return udyn_next(self.cur, is, ie); } \
  void GOMP_parallel_loop_##NAME(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned) { \
    Loop *l = new Loop; l->start = s; l->end = e; l->incr = i; l->chunk = c > 0 ? c : 1; l->next.store(s, std::memory_order_relaxed); \
    run_team_loop(fn, d, n, l); }
static void run_team_loop(void (*fn)(void *), void *d, unsigned n, Loop *l);
}
namespace { struct Wrap { void (*fn)(void *); void *d; Loop *l; };
void wrap(void *p) { Wrap *w = static_cast<Wrap *>(p); self.seq = 1; self.cur = w->l; w->fn(w->d); } }
static void run_team_loop(void (*fn)(void *), void *d, unsigned n, Loop *l) { Wrap w{fn, d, l}; run_team(wrap, &w, n, l); }
extern "C" {
DYN(dynamic)
DYN(nonmonotonic_dynamic)
DYN(guided)
DYN(nonmonotonic_guided)
void GOMP_parallel_loop_runtime(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, unsigned f) { GOMP_parallel_loop_dynamic(fn, d, n, s, e, i, 1, f); }
void GOMP_parallel_loop_nonmonotonic_runtime(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, unsigned f) { GOMP_parallel_loop_dynamic(fn, d, n, s, e, i, 1, f); }
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, unsigned f) { GOMP_parallel_loop_dynamic(fn, d, n, s, e, i, 1, f); }
bool GOMP_loop_runtime_start(long s, long e, long i, long *is, long *ie) { return dyn_start(s, e, i, 1, is, ie); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long s, long e, long i, long *is, long *ie) { return dyn_start(s, e, i, 1, is, ie); }
bool GOMP_loop_runtime_next(long *is, long *ie) { return dyn_next(self.cur, is, ie); }
bool GOMP_loop_maybe_nonmonotonic_runtime_next(long *is, long *ie) { return dyn_next(self.cur, is, ie); }
bool GOMP_loop_ull_runtime_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long *is, unsigned long long *ie) { return udyn_start(up, s, e, i, 1, is, ie); }
bool GOMP_loop_ull_maybe_nonmonotonic_runtime_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long *is, unsigned long long *ie) { return udyn_start(up, s, e, i, 1, is, ie); }
bool GOMP_loop_ull_runtime_next(unsigned long long *is, unsigned long long *ie) { return udyn_next(self.cur, is, ie); }
bool GOMP_loop_ull_maybe_nonmonotonic_runtime_next(unsigned long long *is, unsigned long long *ie) { return udyn_next(self.cur, is, ie); }
// static schedules are expanded inline by the compiler; ordered/static entry
// points exist for completeness and hand out one chunk at a time
bool GOMP_loop_static_start(long s, long e, long i, long c, long *is, long *ie) { return dyn_start(s, e, i, c, is, ie); }
bool GOMP_loop_static_next(long *is, long *ie) { return dyn_next(self.cur, is, ie); }
void GOMP_loop_end(void) { barrier(); }
bool GOMP_loop_end_cancel(void) { barrier(); return false; }
void GOMP_loop_end_nowait(void) {}
unsigned GOMP_sections_start(unsigned n) { long a, b; return dyn_start(1, long(n) + 1, 1, 1, &a, &b) ? unsigned(a) : 0; }
unsigned GOMP_sections_next(void) { long a, b; return dyn_next(self.cur, &a, &b) ? unsigned(a) : 0; }
void GOMP_sections_end(void) { barrier(); }
void GOMP_sections_end_nowait(void) {}
void GOMP_parallel_sections(void (*fn)(void *), void *d, unsigned n, unsigned cnt, unsigned f) { GOMP_parallel_loop_dynamic(fn, d, n, 1, long(cnt) + 1, 1, 1, f); }
// tasks run at once by the thread that meets them
void GOMP_task(void (*fn)(void *), void *data, void (*cpyfn)(void *, void *), long sz, long al, bool, unsigned, void **, int, void *) {
  if(cpyfn) {
    std::vector<char> buf(sz + al); char *p = (char *)(((uintptr_t)buf.data() + al - 1) & ~(uintptr_t)(al - 1));
    cpyfn(p, data); fn(p);
  } else fn(data);
}
void GOMP_taskwait(void) {}
void GOMP_taskgroup_start(void) {}
void GOMP_taskgroup_end(void) {}

int omp_get_thread_num(void) { return self.id; }
int omp_get_num_threads(void) { return self.team ? self.team->n : 1; }
int omp_get_max_threads(void) { return g_threads.load(std::memory_order_relaxed); }
void omp_set_num_threads(int n) { g_threads.store(n > 0 ? n : 1, std::memory_order_relaxed); }
int omp_get_num_procs(void) { return 8; }
int omp_in_parallel(void) { return self.team && self.team->n > 1; }
int omp_get_level(void) { return self.level; }
int omp_get_active_level(void) { return self.level; }
int omp_get_max_active_levels(void) { return 1; }
void omp_set_max_active_levels(int) {}
void omp_set_nested(int) {}
int omp_get_nested(void) { return 0; }
void omp_set_dynamic(int) {}
int omp_get_dynamic(void) { return 0; }
int omp_get_thread_limit(void) { return 64; }
double omp_get_wtime(void) { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
double omp_get_wtick(void) { return 1e-9; }
// omp_lock_t is four bytes: a test-and-set lock with acquire/release edges
void omp_init_lock(int *l) { __atomic_store_n(l, 0, __ATOMIC_RELEASE); }
void omp_init_lock_with_hint(int *l, int) { omp_init_lock(l); }
void omp_destroy_lock(int *) {}
void omp_set_lock(int *l) { while(__atomic_exchange_n(l, 1, __ATOMIC_ACQUIRE)) sched_yield(); }
void omp_unset_lock(int *l) { __atomic_store_n(l, 0, __ATOMIC_RELEASE); }
int omp_test_lock(int *l) { return __atomic_exchange_n(l, 1, __ATOMIC_ACQUIRE) == 0; }
}
