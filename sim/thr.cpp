// Simulated POSIX threads, clocks, environment and process calls.
#include "core.h"
#include <pthread.h>
#include <errno.h>
#include <time.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <unistd.h>
#include <sched.h>

struct Mx { Fiber *owner; bool destroyed; };
struct Cv { bool destroyed; };
static std::map<void*, Mx> mxs; static std::map<void*, Cv> cvs; static long thrcreated; static int thrrefused;
static std::map<std::string, std::string> envs;
void thr_reset(){ mxs.clear(); cvs.clear(); envs.clear(); thrcreated = 0; thrrefused = 0; }
void mem_freed_range(void *p, size_t n){
  char *a = (char*)p, *b = a + n;
  for (auto it = mxs.lower_bound(a); it != mxs.end() && (char*)it->first < b; ) {
    if (count_waiters(it->first)) violation("sync-misuse", "memory freed while a thread is blocked on a mutex in it");
    it = mxs.erase(it);
  }
  for (auto it = cvs.lower_bound(a); it != cvs.end() && (char*)it->first < b; ) {
    if (count_waiters(it->first)) violation("sync-misuse", "memory freed while a thread is blocked on a condition variable in it");
    it = cvs.erase(it);
  }
}
extern "C" {
long sim_threads_created(void){ return thrcreated; }
int sim_threads_refused(void){ return thrrefused; }
void sim_setenv(const char *k, const char *v){ envs[k] = v; }

int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *){ mxs[m] = Mx{nullptr, false}; return 0; }
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m){
  Mx &x = mxs[m]; if (x.owner || count_waiters(m)) violation("sync-misuse", "mutex destroyed while in use");
  x.destroyed = true; return 0; }
int __wrap_pthread_mutex_lock(pthread_mutex_t *m){
  check_range(m, sizeof(void*), true, "mutex lock");
  sched_point("lock");
  for (;;) {
    Mx &x = mxs[m]; if (x.destroyed) violation("sync-misuse", "lock of a destroyed mutex");
    if (!x.owner) { x.owner = cur; return 0; }
    if (x.owner == cur) violation("sync-misuse", "thread locks a mutex it already owns");
    block_on(m, "mutex lock");
  }
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m){
  sched_point("trylock"); Mx &x = mxs[m]; if (x.destroyed) violation("sync-misuse", "lock of a destroyed mutex");
  if (x.owner) return EBUSY; x.owner = cur; return 0; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m){
  Mx &x = mxs[m]; if (x.destroyed) violation("sync-misuse", "unlock of a destroyed mutex");
  if (x.owner != cur) violation("sync-misuse", "unlock of a mutex owned by another thread or by none");
  x.owner = nullptr; wake_all(m);
  sched_point("unlock"); return 0; }
int __wrap_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *){ cvs[c] = Cv{false}; return 0; }
int __wrap_pthread_cond_destroy(pthread_cond_t *c){ Cv &x = cvs[c]; if (count_waiters(c)) violation("sync-misuse", "condition variable destroyed while a thread waits on it"); x.destroyed = true; return 0; }
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m){
  check_range(c, sizeof(void*), true, "cond wait");
  if (cvs[c].destroyed) violation("sync-misuse", "wait on a destroyed condition variable");
  { Mx &x = mxs[m]; if (x.owner != cur) violation("sync-misuse", "condition wait without holding the mutex"); x.owner = nullptr; wake_all(m); }
  block_on(c, "condition wait", true);
  for (;;) { Mx &x = mxs[m]; if (x.destroyed) violation("sync-misuse", "mutex destroyed under a condition wait"); if (!x.owner) { x.owner = cur; break; } block_on(m, "mutex relock"); }
  return 0; }
int __wrap_pthread_cond_broadcast(pthread_cond_t *c){ if (cvs[c].destroyed) violation("sync-misuse", "broadcast on a destroyed condition variable"); wake_all(c); sched_point("broadcast"); return 0; }
int __wrap_pthread_cond_signal(pthread_cond_t *c){ if (cvs[c].destroyed) violation("sync-misuse", "signal on a destroyed condition variable"); int n = count_waiters(c); if (n) wake_one(c, sdec(n, 0.5)); sched_point("signal"); return 0; }

static Fiber *byid(pthread_t t){ long i = (long)t - 1; return i >= 0 && i < (long)fibers.size() ? fibers[i] : nullptr; }
int sim_pthread_create(pthread_t *t, const pthread_attr_t *, void *(*fn)(void *), void *arg){
  long i = thrcreated++; 
  if (sim_knobs.fail_thread >= 0 && i >= sim_knobs.fail_thread && !cur->noinject) { thrrefused++; R->nthreadfail++; hmix(7117); return EAGAIN; }
  R->nthread++;
  Fiber *f = fiber_new(cur->rank, fn, arg); f->tid = (int)i + 1; f->aff = cur->aff; 
  *t = (pthread_t)(f->id + 1);
  sched_point("create"); return 0; }
int __wrap_pthread_join(pthread_t t, void **ret){
  Fiber *f = byid(t); if (!f || f->joined || f->detached) violation("sync-misuse", "join of a thread that cannot be joined");
  sched_point("join");
  while (f->st != F_DONE) block_on(f, "thread join");
  f->joined = true; if (ret) *ret = f->ret; return 0; }
int __wrap_pthread_detach(pthread_t t){ Fiber *f = byid(t); if (!f || f->joined || f->detached) violation("sync-misuse", "detach of a thread that cannot be detached"); f->detached = true; return 0; }
void __wrap_pthread_exit(void *r){ cur->depth = 0; fiber_exit(r); abort(); }
pthread_t __wrap_pthread_self(void){ return (pthread_t)(cur ? cur->id + 1 : 0); }
int __wrap_pthread_equal(pthread_t a, pthread_t b){ return a == b; }
static u64 coremask(){ return sim_knobs.cores >= 64 ? ~0ULL : (1ULL << sim_knobs.cores) - 1; }
static u64 affmask(Fiber *f){ return f && f->aff ? f->aff & coremask() : coremask(); }
int __wrap_pthread_getaffinity_np(pthread_t t, size_t n, cpu_set_t *s){ check_range(s, n, true, "affinity mask"); memset(s, 0, n); u64 m = affmask(byid(t)); for (int i = 0; i < 64; i++) if (m >> i & 1) CPU_SET_S(i, n, s); return 0; }
int __wrap_pthread_setaffinity_np(pthread_t t, size_t n, const cpu_set_t *s){ check_range(s, n, false, "affinity mask"); u64 m = 0; for (int i = 0; i < 64; i++) if (CPU_ISSET_S(i, n, s)) m |= 1ULL << i; m &= coremask(); Fiber *f = byid(t); if (!m || !f) return EINVAL; f->aff = m; return 0; }
unsigned long long sim_affinity(void){ return affmask(cur); }
int __wrap_sched_yield(void){ sched_point("yield"); return 0; }
int __wrap_usleep(unsigned us){ g_clock_us += us; sched_point("usleep"); return 0; }
unsigned __wrap_sleep(unsigned s){ g_clock_us += s * 1000000ULL; sched_point("sleep"); return 0; }
int __wrap_nanosleep(const struct timespec *t, struct timespec *){ g_clock_us += t->tv_sec * 1000000ULL + t->tv_nsec / 1000; sched_point("sleep"); return 0; }

struct SimThread_ { Fiber *f; };
struct Tramp { void (*f)(void*); void *a; };
static void *tramp(void *p){ Tramp t = *(Tramp*)p; delete (Tramp*)p; t.f(t.a); return nullptr; }
SimThread *sim_spawn(void (*f)(void *), void *arg){ SimThread *t = new SimThread_; t->f = fiber_new(cur->rank, tramp, new Tramp{f, arg}); return t; }
void sim_join(SimThread *t){ while (t->f->st != F_DONE) block_on(t->f, "join"); t->f->joined = true; delete t; }

long __wrap_sysconf(int n){ if (n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF) return sim_knobs.cores; return sysconf(n); }
char *__wrap_getenv(const char *k){ auto it = envs.find(k); return it == envs.end() ? nullptr : (char*)it->second.c_str(); }
// The simulated clock moves at each reading, sometimes by a large step forward.
static u64 tick(){ static const u64 st[] = {1, 1000, 1000000, 3600000000ULL}; g_clock_us += st[sdec(4, 0.3)]; return g_clock_us; }
time_t __wrap_time(time_t *t){ time_t v = (time_t)(tick() / 1000000); if (t) *t = v; return v; }
int __wrap_clock_gettime(clockid_t, struct timespec *ts){ u64 v = tick(); ts->tv_sec = v / 1000000; ts->tv_nsec = v % 1000000 * 1000; return 0; }
int __wrap_gettimeofday(struct timeval *tv, void *){ u64 v = tick(); tv->tv_sec = v / 1000000; tv->tv_usec = v % 1000000; return 0; }
int __wrap_getrusage(int, struct rusage *ru){ memset(ru, 0, sizeof *ru); u64 v = tick(); ru->ru_utime.tv_sec = v / 1000000; ru->ru_utime.tv_usec = v % 1000000; return 0; }
clock_t __wrap_clock(void){ return (clock_t)tick(); }
pid_t __wrap_getpid(void){ return 4000 + (cur ? cur->rank : 0); }
pid_t __wrap_fork(void){ errno = EAGAIN; return -1; }

// exit() inside the simulated process
struct ExitHook { int armed; int code; };
void (*sim_exit_hook)(int code);
void __wrap_exit(int code){ if (sim_exit_hook) sim_exit_hook(code); violation("process-exit", "library code called exit(%d)", code); }
void __wrap__exit(int code){ if (sim_exit_hook) sim_exit_hook(code); violation("process-exit", "library code called _exit(%d)", code); }
void __wrap_abort(void){ violation("process-exit", "library code called abort()"); }
}
