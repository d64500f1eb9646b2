// An OpenMP runtime for race detection: the GOMP entry points gcc emits, on plain
// pthreads, so that ThreadSanitizer sees exactly the ordering OpenMP promises and
// no more. This file is compiled without instrumentation; internal bookkeeping uses
// spin locks that create no ordering, and the promised orderings (barrier, task
// creation and taskwait, critical) are announced explicitly or come from
// pthread_create / pthread_join. Every task gets a thread of its own; team sizes,
// start order and delays are drawn at random, so schedules differ between regions.
#include <pthread.h>
#include <sched.h>
#include <time.h>
#include <unistd.h>
#include <atomic>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <new>
extern "C" { void __tsan_acquire(void *) __attribute__((weak)); void __tsan_release(void *) __attribute__((weak)); }
#define NOSAN __attribute__((no_sanitize("thread")))
namespace {
typedef void (*Fn)(void *);
typedef unsigned long long ull;
inline void acq(void *p) { if (__tsan_acquire) __tsan_acquire(p); }
inline void rel(void *p) { if (__tsan_release) __tsan_release(p); }
struct Spin { std::atomic_flag f = ATOMIC_FLAG_INIT; void lock() { while (f.test_and_set(std::memory_order_acquire)) sched_yield(); } void unlock() { f.clear(std::memory_order_release); } };
struct List { pthread_t *t = nullptr; size_t n = 0, cap = 0; void push(pthread_t x) { if (n == cap) { cap = cap ? 2 * cap : 8; t = (pthread_t *)realloc(t, cap * sizeof *t); } t[n++] = x; } };
struct Loop { Spin s; bool up = true, started = false; long lnext = 0, lend = 0, lincr = 1, lchunk = 1; ull unext = 0, uend = 0, uincr = 1, uchunk = 1; unsigned left = 0; };
enum { SLOTS = 64 };
struct Team {
  unsigned n = 1, level = 0; std::atomic<unsigned> arrived{0}, phase{0}; std::atomic<unsigned long> singles{0};
  Spin s; List orphans; Loop loop[SLOTS]; std::atomic<unsigned long> loops{0}; unsigned long opened = 0; void *copy = nullptr; unsigned long sect = 0;
};
struct Self { Team *team = nullptr; unsigned id = 0; unsigned long single = 0, loops = 0; Loop *cur = nullptr; List kids; int group = 0; uint64_t rng = 0; };
thread_local Self me;
std::atomic<uint64_t> seed_{0x9E3779B97F4A7C15ull};
std::atomic<unsigned> live{0};
std::atomic<int> wanted{0};
std::atomic<uint64_t> regions{0}, tasks{0}, threads_started{0}, multi{0};
uint64_t rnd() { if (!me.rng) me.rng = seed_.fetch_add(0xD1B54A32D192ED03ull) | 1; me.rng ^= me.rng << 13; me.rng ^= me.rng >> 7; me.rng ^= me.rng << 17; return me.rng; }
int max_threads() { int w = wanted.load(); if (w > 0) return w; const char *e = getenv("OMP_NUM_THREADS"); int k = e ? atoi(e) : 0; return k > 0 ? k : 4; }
void jitter() { switch (rnd() % 8) { case 0: usleep(rnd() % 60); break; case 1: case 2: sched_yield(); break; default: break; } }
struct Start { Fn fn; void *data; Team *team; unsigned id; uint64_t rng; };
void orphan(Self &s) { if (!s.kids.n) return; if (s.team) { s.team->s.lock(); for (size_t i = 0; i < s.kids.n; i++) s.team->orphans.push(s.kids.t[i]); s.team->s.unlock(); } else for (size_t i = 0; i < s.kids.n; i++) pthread_join(s.kids.t[i], nullptr); s.kids.n = 0; }
void *worker(void *p) { Start *st = (Start *)p; me = Self(); me.team = st->team; me.id = st->id; me.rng = st->rng | 1; jitter(); st->fn(st->data); orphan(me); free(me.kids.t); me.kids = List(); free(st); live--; return nullptr; }
bool spawn(pthread_t *t, Fn fn, void *d, Team *team, unsigned id) { Start *s = (Start *)malloc(sizeof(Start)); *s = Start{fn, d, team, id, rnd() ^ (uint64_t)(id + 1) << 32}; live++; pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 8 << 20); int e = pthread_create(t, &a, worker, s); pthread_attr_destroy(&a); if (e) { live--; free(s); return false; } threads_started++; return true; }
void join_all(List &l) { for (size_t i = 0; i < l.n; i++) pthread_join(l.t[i], nullptr); l.n = 0; }
void wait_kids() { join_all(me.kids); }
struct Task { Fn fn; char *arg; };
void run_task(void *p) { Task *t = (Task *)p; t->fn(t->arg); }
}
extern "C" {
uint64_t omp_shim_regions() { return regions; }
uint64_t omp_shim_parallel_regions() { return multi; }
uint64_t omp_shim_tasks() { return tasks; }
uint64_t omp_shim_threads() { return threads_started; }
void omp_shim_seed(uint64_t s) { seed_ = s * 0x9E3779B97F4A7C15ull + 1; me.rng = 0; }
void GOMP_barrier() { Team *t = me.team; if (!t || t->n == 1) { wait_kids(); return; } orphan(me); unsigned ph = t->phase.load(std::memory_order_acquire); rel(t); if (t->arrived.fetch_add(1) + 1 == t->n) { t->s.lock(); List l = t->orphans; t->orphans = List(); t->s.unlock(); acq(t); join_all(l); free(l.t); rel(t); t->arrived.store(0); t->phase.fetch_add(1, std::memory_order_release); } else { while (t->phase.load(std::memory_order_acquire) == ph) sched_yield(); } acq(t); jitter(); }
static void region(Fn fn, void *data, unsigned num, unsigned long sections) {
  Self outer = me; regions++; unsigned n = num ? num : (unsigned)max_threads(); if (outer.team && outer.team->level >= 1) n = 1; if (live.load() > 200) n = 1; if (n == 0) n = 1; if (n > 1) multi++;
  Team *t = new Team; t->n = n; t->level = outer.team ? outer.team->level + 1 : 1; t->sect = sections; pthread_t *th = (pthread_t *)malloc(sizeof(pthread_t) * n); unsigned made = 0; me = Self(); me.rng = outer.rng; me.team = t; me.id = 0; unsigned *id = (unsigned *)malloc(sizeof(unsigned) * n); for (unsigned i = 1; i < n; i++) id[i] = i; for (unsigned i = n - 1; i > 1; i--) { unsigned j = 1 + rnd() % i; unsigned x = id[i]; id[i] = id[j]; id[j] = x; }
  for (unsigned i = 1; i < n; i++) { while (!spawn(&th[i], fn, data, t, id[i])) usleep(1000); made++; }
  jitter(); fn(data); orphan(me); for (unsigned i = 1; i <= made; i++) pthread_join(th[i], nullptr); while (true) { List l = t->orphans; t->orphans = List(); if (!l.n) { free(l.t); break; } join_all(l); free(l.t); }
  free(th); free(id); free(me.kids.t); uint64_t r = me.rng; delete t; me = outer; me.rng = r;
}
void GOMP_parallel(Fn fn, void *data, unsigned num, unsigned) { region(fn, data, num, 0); }
unsigned GOMP_parallel_reductions(Fn fn, void *data, unsigned num, unsigned) { region(fn, data, num, 0); return num ? num : (unsigned)max_threads(); }
bool GOMP_single_start() { Team *t = me.team; if (!t || t->n == 1) return true; unsigned long mine = me.single++; unsigned long want = mine; jitter(); return t->singles.compare_exchange_strong(want, mine + 1); }
void *GOMP_single_copy_start() { Team *t = me.team; if (!t || t->n == 1 || GOMP_single_start()) return nullptr; GOMP_barrier(); return t->copy; }
void GOMP_single_copy_end(void *d) { Team *t = me.team; if (!t || t->n == 1) return; t->copy = d; GOMP_barrier(); }
void GOMP_task(Fn fn, void *data, void (*cpy)(void *, void *), long size, long align, bool if_clause, unsigned, void **, int, void *) {
  tasks++; if (align < 1) align = 1; char *raw = (char *)malloc(sizeof(Task) + size + align); Task *t = (Task *)raw; char *arg = (char *)(((uintptr_t)(raw + sizeof(Task)) + align - 1) & ~(uintptr_t)(align - 1)); if (cpy) cpy(arg, data); else memcpy(arg, data, size); t->fn = fn; t->arg = arg;
  pthread_t th; bool undeferred = !if_clause || !me.team || me.team->n == 1 || live.load() > 200 || rnd() % 8 == 0;
  if (undeferred || !spawn(&th, run_task, t, me.team, (unsigned)(rnd() % me.team->n))) { Self s = me; me.kids = List(); me.single = 0; fn(arg); orphan(me); free(me.kids.t); uint64_t r = me.rng; me = s; me.rng = r; free(raw); return; }
  me.kids.push(th); jitter();   // raw is left to the task: freed at exit of the process
}
void GOMP_taskwait() { jitter(); wait_kids(); }
void GOMP_taskwait_depend(void **) { wait_kids(); }
void GOMP_taskyield() { sched_yield(); }
void GOMP_taskgroup_start() { me.group++; }
void GOMP_taskgroup_end() { wait_kids(); me.group--; }
void GOMP_taskgroup_reduction_register(void *) {}
// work sharing with a run-time schedule: chunks are handed out in random sizes
static Loop *open_loop() { Team *t = me.team; unsigned long k = me.loops++; Loop *l = &t->loop[k % SLOTS]; me.cur = l; return l; }
static bool lnext(long *a, long *b) { Loop *l = me.cur; jitter(); l->s.lock(); bool ok; if (l->lincr > 0 ? l->lnext < l->lend : l->lnext > l->lend) { *a = l->lnext; long c = l->lchunk * l->lincr; long e = l->lnext + c; if (l->lincr > 0 ? e > l->lend : e < l->lend) e = l->lend; l->lnext = e; *b = e; ok = true; } else ok = false; l->s.unlock(); return ok; }
static bool unext(ull *a, ull *b) { Loop *l = me.cur; jitter(); l->s.lock(); bool ok; if (l->up ? l->unext < l->uend : l->unext > l->uend) { *a = l->unext; ull room = l->up ? l->uend - l->unext : l->unext - l->uend, c = l->uchunk * (l->up ? l->uincr : -l->uincr); ull e = c >= room ? l->uend : l->up ? l->unext + c : l->unext - c; l->unext = e; *b = e; ok = true; } else ok = false; l->s.unlock(); return ok; }
static Team solo_team() { return Team(); }
static void need_team() { if (!me.team) { me.team = new Team; me.team->n = 1; } }
static bool lstart(long s, long e, long i, long c, long *a, long *b) { need_team(); Loop *l = open_loop(); l->s.lock(); if (!l->started) { l->started = true; l->lnext = s; l->lend = e; l->lincr = i; l->lchunk = c > 0 ? c : 1; l->left = me.team->n; } l->s.unlock(); return lnext(a, b); }
static bool ustart(bool up, ull s, ull e, ull i, ull c, ull *a, ull *b) { need_team(); Loop *l = open_loop(); l->s.lock(); if (!l->started) { l->started = true; l->up = up; l->unext = s; l->uend = e; l->uincr = i; l->uchunk = c > 0 ? c : 1; l->left = me.team->n; } l->s.unlock(); return unext(a, b); }
void GOMP_loop_end_nowait() { Loop *l = me.cur; if (!l) return; l->s.lock(); if (--l->left == 0) l->started = false; l->s.unlock(); me.cur = nullptr; }
void GOMP_loop_end() { GOMP_loop_end_nowait(); GOMP_barrier(); }
bool GOMP_loop_end_cancel() { GOMP_loop_end(); return false; }
#define LOOPS(K) \
 bool GOMP_loop_##K##_start(long s, long e, long i, long c, long *a, long *b) { return lstart(s, e, i, c, a, b); } bool GOMP_loop_##K##_next(long *a, long *b) { return lnext(a, b); } \
 bool GOMP_loop_ull_##K##_start(bool u, ull s, ull e, ull i, ull c, ull *a, ull *b) { return ustart(u, s, e, i, c, a, b); } bool GOMP_loop_ull_##K##_next(ull *a, ull *b) { return unext(a, b); }
LOOPS(static) LOOPS(dynamic) LOOPS(guided) LOOPS(nonmonotonic_dynamic) LOOPS(nonmonotonic_guided)
#define LOOPR(K) \
 bool GOMP_loop_##K##_start(long s, long e, long i, long *a, long *b) { return lstart(s, e, i, 1, a, b); } bool GOMP_loop_##K##_next(long *a, long *b) { return lnext(a, b); } \
 bool GOMP_loop_ull_##K##_start(bool u, ull s, ull e, ull i, ull *a, ull *b) { return ustart(u, s, e, i, 1, a, b); } bool GOMP_loop_ull_##K##_next(ull *a, ull *b) { return unext(a, b); }
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)
struct PL { Fn fn; void *d; long s, e, i, c; };
static void pl(Fn fn, void *d, unsigned n, long s, long e, long i, long c) { // the outlined body asks for its chunks with _next
  struct W { static void go(void *p) { PL *q = (PL *)p; Loop *l = open_loop(); l->s.lock(); if (!l->started) { l->started = true; l->lnext = q->s; l->lend = q->e; l->lincr = q->i; l->lchunk = q->c > 0 ? q->c : 1; l->left = me.team->n; } l->s.unlock(); q->fn(q->d); } }; PL q{fn, d, s, e, i, c}; region(W::go, &q, n, 0); }
#define PLOOP(K) void GOMP_parallel_loop_##K(Fn fn, void *d, unsigned n, long s, long e, long i, long c, unsigned) { pl(fn, d, n, s, e, i, c); }
PLOOP(static) PLOOP(dynamic) PLOOP(guided) PLOOP(nonmonotonic_dynamic) PLOOP(nonmonotonic_guided)
#define PLOOPR(K) void GOMP_parallel_loop_##K(Fn fn, void *d, unsigned n, long s, long e, long i, unsigned) { pl(fn, d, n, s, e, i, 1); }
PLOOPR(runtime) PLOOPR(nonmonotonic_runtime) PLOOPR(maybe_nonmonotonic_runtime)
unsigned GOMP_sections_start(unsigned k) { long a, b; return lstart(1, (long)k + 1, 1, 1, &a, &b) ? (unsigned)a : 0; }
unsigned GOMP_sections_next() { long a, b; return lnext(&a, &b) ? (unsigned)a : 0; }
void GOMP_sections_end() { GOMP_loop_end(); }
void GOMP_sections_end_nowait() { GOMP_loop_end_nowait(); }
void GOMP_parallel_sections(Fn fn, void *d, unsigned n, unsigned k, unsigned) { pl(fn, d, n, 1, (long)k + 1, 1, 1); }
static pthread_mutex_t crit = PTHREAD_MUTEX_INITIALIZER, atom = PTHREAD_MUTEX_INITIALIZER, named = PTHREAD_MUTEX_INITIALIZER;
void GOMP_critical_start() { jitter(); pthread_mutex_lock(&crit); } void GOMP_critical_end() { pthread_mutex_unlock(&crit); }
void GOMP_atomic_start() { pthread_mutex_lock(&atom); } void GOMP_atomic_end() { pthread_mutex_unlock(&atom); }
static pthread_mutex_t *name_mutex(void **p) { pthread_mutex_lock(&named); if (!*p) { pthread_mutex_t *m = new pthread_mutex_t; pthread_mutex_init(m, nullptr); *p = m; } pthread_mutex_t *m = (pthread_mutex_t *)*p; pthread_mutex_unlock(&named); return m; }
void GOMP_critical_name_start(void **p) { jitter(); pthread_mutex_lock(name_mutex(p)); } void GOMP_critical_name_end(void **p) { pthread_mutex_unlock((pthread_mutex_t *)*p); }
bool GOMP_cancel(int, bool) { return false; } bool GOMP_cancellation_point(int) { return false; } bool GOMP_barrier_cancel() { GOMP_barrier(); return false; }
int omp_get_max_threads() { return max_threads(); } int omp_get_num_threads() { return me.team ? (int)me.team->n : 1; } int omp_get_thread_num() { return (int)me.id; }
void omp_set_num_threads(int k) { wanted = k; } int omp_get_num_procs() { return 8; } int omp_in_parallel() { return me.team && me.team->n > 1; } int omp_get_level() { return me.team ? (int)me.team->level : 0; }
void omp_set_dynamic(int) {} int omp_get_dynamic() { return 0; } void omp_set_nested(int) {} int omp_get_nested() { return 0; } void omp_set_max_active_levels(int) {} int omp_get_max_active_levels() { return 1; } int omp_get_thread_limit() { return 256; } int omp_in_final() { return 0; }
double omp_get_wtime() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; } double omp_get_wtick() { return 1e-9; }
void omp_init_lock(void **l) { pthread_mutex_t *m = new pthread_mutex_t; pthread_mutex_init(m, nullptr); *l = m; } void omp_destroy_lock(void **l) { delete (pthread_mutex_t *)*l; } void omp_set_lock(void **l) { pthread_mutex_lock((pthread_mutex_t *)*l); } void omp_unset_lock(void **l) { pthread_mutex_unlock((pthread_mutex_t *)*l); } int omp_test_lock(void **l) { return !pthread_mutex_trylock((pthread_mutex_t *)*l); }
}
