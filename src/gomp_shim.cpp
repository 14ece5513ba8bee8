// A stand-in for libgomp that ThreadSanitizer understands (fork and join are real
// pthread_create/pthread_join edges) and whose schedule can be perturbed.
#include <pthread.h>
#include <sched.h>
#include <time.h>
#include <unistd.h>

#include <atomic>
#include <cstdint>
#include <cstdlib>
#include <vector>

namespace {
struct Work { long next, end, incr, chunk; int done; };
struct Team {
  int n;
  pthread_mutex_t m;
  pthread_barrier_t bar;
  std::vector<Work*> work;  // worksharing constructs in the order they are met
};
thread_local Team* team = nullptr;
thread_local int tid = 0;
thread_local int level = 0;
thread_local size_t met = 0;  // worksharing constructs met by this thread
int g_default = 4, g_mode = 0;
uint64_t g_seed = 1;
std::atomic<uint64_t> s_regions(0), s_threads(0), s_sched(0);
pthread_mutex_t g_crit = PTHREAD_MUTEX_INITIALIZER;

uint64_t rnd() {  // only used by the thread that forks
  g_seed ^= g_seed << 13; g_seed ^= g_seed >> 7; g_seed ^= g_seed << 17;
  return g_seed;
}
struct Job { void (*fn)(void*); void* data; Team* t; int id, spin; };
void run(Job* j) {
  Team* ot = team; const int oi = tid; const size_t om = met;
  team = j->t; tid = j->id; met = 0; level++;
  j->fn(j->data);
  team = ot; tid = oi; met = om; level--;
}
void* thread_main(void* p) {
  Job* j = static_cast<Job*>(p);
  for (volatile int i = 0; i < j->spin; ++i) {}
  if (j->spin & 1) sched_yield();
  run(j);
  return nullptr;
}
bool take(Work* w, long* a, long* b) {
  if (w->incr > 0 ? w->next >= w->end : w->next <= w->end) return false;
  *a = w->next;
  long e = w->next + w->chunk * w->incr;
  if (w->incr > 0 ? e > w->end : e < w->end) e = w->end;
  *b = e;
  w->next = e;
  return true;
}
Work* enter(long start, long end, long incr, long chunk) {
  static thread_local Work single;
  if (!team) { single = Work{start, end, incr, chunk > 0 ? chunk : 1, 0}; return &single; }
  pthread_mutex_lock(&team->m);
  if (team->work.size() <= met) team->work.push_back(new Work{start, end, incr, chunk > 0 ? chunk : 1, 0});
  Work* w = team->work[met++];
  pthread_mutex_unlock(&team->m);
  return w;
}
thread_local Work* cur = nullptr;
bool next(long* a, long* b) {
  if (!team) return take(cur, a, b);
  pthread_mutex_lock(&team->m);
  const bool r = take(cur, a, b);
  pthread_mutex_unlock(&team->m);
  return r;
}
void fork_join(void (*fn)(void*), void* data, unsigned n, Work* w) {
  if (n == 0) n = unsigned(g_default);
  if (level > 0) n = 1;
  Team t;
  t.n = int(n);
  pthread_mutex_init(&t.m, nullptr);
  pthread_barrier_init(&t.bar, nullptr, n);
  if (w) t.work.push_back(w);
  std::vector<Job> jobs(n);
  std::vector<int> order(n);
  for (unsigned i = 0; i < n; ++i) order[i] = int(i);
  if (n > 1) {
    s_regions++; s_threads += n;
    for (unsigned i = n - 1; i > 0; --i) std::swap(order[i], order[rnd() % (i + 1)]);
    uint64_t h = n;
    for (int o : order) h = h * 31 + uint64_t(o);
    s_sched = s_sched * 1099511628211ull ^ h;
  }
  for (unsigned i = 0; i < n; ++i) jobs[i] = Job{fn, data, &t, order[i], int(rnd() % 4 ? rnd() % 200 : rnd() % 20000)};
  if (g_mode == 1 || n == 1) {
    for (unsigned i = 0; i < n; ++i) run(&jobs[i]);
  } else {
    std::vector<pthread_t> th(n);
    for (unsigned i = 1; i < n; ++i)
      if (pthread_create(&th[i], nullptr, thread_main, &jobs[i])) abort();
    thread_main(&jobs[0]);
    for (unsigned i = 1; i < n; ++i) pthread_join(th[i], nullptr);
  }
  for (Work* k : t.work) if (k != w) delete k;
  pthread_barrier_destroy(&t.bar);
  pthread_mutex_destroy(&t.m);
}
}  // namespace

extern "C" {
// control of the stand-in
void vf_omp_seed(uint64_t s) { g_seed = s | 1; }
void vf_omp_mode(int m) { g_mode = m; }  // 0: threads, 1: one thread runs the shares in a random order
uint64_t vf_omp_regions() { return s_regions; }
uint64_t vf_omp_threads() { return s_threads; }
uint64_t vf_omp_sched() { return s_sched; }

void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) { fork_join(fn, data, n, nullptr); }
#define PLOOP(name)                                                                                                                    \
  void GOMP_parallel_loop_##name(void (*fn)(void*), void* data, unsigned n, long start, long end, long incr, long chunk, unsigned) { \
    Work w{start, end, incr, chunk > 0 ? chunk : 1, 0};                                                                              \
    fork_join(fn, data, n, &w);                                                                                                       \
  }
PLOOP(dynamic) PLOOP(guided) PLOOP(nonmonotonic_dynamic) PLOOP(nonmonotonic_guided)
#define PLOOPR(name)                                                                                                       \
  void GOMP_parallel_loop_##name(void (*fn)(void*), void* data, unsigned n, long start, long end, long incr, unsigned) { \
    Work w{start, end, incr, 1, 0};                                                                                      \
    fork_join(fn, data, n, &w);                                                                                           \
  }
PLOOPR(runtime) PLOOPR(nonmonotonic_runtime) PLOOPR(maybe_nonmonotonic_runtime)
static bool first_work() {  // inside GOMP_parallel_loop_*: the share is already there
  cur = enter(0, 0, 1, 1);
  return true;
}
#define LOOP(name)                                                                                       \
  bool GOMP_loop_##name##_start(long s, long e, long i, long c, long* a, long* b) {                      \
    cur = enter(s, e, i, c);                                                                             \
    return next(a, b);                                                                                   \
  }                                                                                                      \
  bool GOMP_loop_##name##_next(long* a, long* b) {                                                       \
    if (!cur) first_work();                                                                              \
    return next(a, b);                                                                                   \
  }
LOOP(dynamic) LOOP(guided) LOOP(static) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided)
bool GOMP_loop_runtime_start(long s, long e, long i, long* a, long* b) { cur = enter(s, e, i, 1); return next(a, b); }
bool GOMP_loop_runtime_next(long* a, long* b) { if (!cur) first_work(); return next(a, b); }
void GOMP_barrier() { if (team && g_mode == 0 && team->n > 1) pthread_barrier_wait(&team->bar); }
void GOMP_loop_end() { cur = nullptr; GOMP_barrier(); }
void GOMP_loop_end_nowait() { cur = nullptr; }
bool GOMP_single_start() {
  Work* w = enter(0, 1, 1, 1);
  if (!team) return true;
  pthread_mutex_lock(&team->m);
  const bool r = w->done++ == 0;
  pthread_mutex_unlock(&team->m);
  return r;
}
void GOMP_critical_start() { pthread_mutex_lock(&g_crit); }
void GOMP_critical_end() { pthread_mutex_unlock(&g_crit); }
void GOMP_critical_name_start(void**) { pthread_mutex_lock(&g_crit); }
void GOMP_critical_name_end(void**) { pthread_mutex_unlock(&g_crit); }
void GOMP_atomic_start() { pthread_mutex_lock(&g_crit); }
void GOMP_atomic_end() { pthread_mutex_unlock(&g_crit); }
int omp_get_thread_num() { return team ? tid : 0; }
int omp_get_num_threads() { return team ? team->n : 1; }
int omp_get_max_threads() { return level ? 1 : g_default; }
int omp_get_num_procs() { return 8; }
int omp_in_parallel() { return team && team->n > 1; }
int omp_get_level() { return level; }
void omp_set_num_threads(int n) { g_default = n > 0 ? n : 1; }
void omp_set_dynamic(int) {}
void omp_set_nested(int) {}
double omp_get_wtime() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return double(t.tv_sec) + 1e-9 * double(t.tv_nsec); }
}
