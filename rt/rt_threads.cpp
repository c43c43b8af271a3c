// Cooperative model of threads, mutexes, condition variables, futures, clocks and sleeping.  Every scheduling decision is
// an input chosen by vp::choose, so the solver explores the schedules (up to a preemption bound) and native replay follows one.
#include <pthread.h>
#include <sched.h>
#include <time.h>
#include <cerrno>
#include <cstring>
#include <chrono>
#include <condition_variable>
#include <future>
#include <mutex>
#include <thread>
#include "vp.h"
#include "rt_threads.h"

namespace
{
enum St { FREE, RUN, WMUTEX, WCV, WJOIN, WSLEEP, WFUTEX, WONCE, WDRAIN, WFLAG, WRD, WWR, WTM, DONE };
struct T { int fiber; int st; void* on; void* mtx; bool timed; bool fired; int64_t deadline; bool detached; void* state; void (*run)(void*); };
const int kMax = 8;
T th[kMax]; int nth, cur; int preempt; int spurious; int steps, maxSteps; bool started; int64_t nowNs; int clockReads; int64_t clockMax; int timeouts; bool fixedOrder, lateTimeouts, unfairOk;
long switches;

void init() { if (started) return; started = true; nth = 1; cur = 0; th[0].fiber = 0; th[0].st = RUN; nowNs = 1000000000000LL; maxSteps = 3000; timeouts = 1000000; }

struct Mtx { int owner; int count; int wait; int pad; int kind; };
inline Mtx* M(void* m) { return (Mtx*)m; }
struct Rw { int writer; int readers; unsigned who; };
inline Rw* W(void* m) { return (Rw*)m; }
inline int reads(Rw* x, int i) { return x->who >> 4 * i & 15; }
// a thread whose wait a timeout can end now
inline bool expires(int i)
{
  T& t = th[i]; return t.timed && (t.st == WSLEEP || t.st == WCV || t.st == WFUTEX || (t.st == WTM && M(t.on)->owner != 0));
}

bool enabled(int i)
{
  T& t = th[i];
  switch (t.st)
  {
  case RUN: return true;
  case WMUTEX: case WTM: return M(t.on)->owner == 0;
  case WRD: return W(t.on)->writer == 0;
  case WWR: return W(t.on)->writer == 0 && W(t.on)->readers == 0;
  case WONCE: return *(int*)t.on != 1;
  case WDRAIN: for (int j = 0; j < nth; j++) if (j != i && th[j].st != WDRAIN && enabled(j)) return false; return true;
  case WFLAG: return *(const volatile int*)t.on != 0;
  case WJOIN: return th[(int)(long)t.on].st == DONE;
  default: return false;
  }
}
void go(int i)
{
  int prev = cur; cur = i; T& t = th[i];
  if (t.st == WSLEEP || t.st == WCV || t.st == WFUTEX || expires(i))
  { // a timeout fires
    t.fired = true; if (nowNs < t.deadline) nowNs = t.deadline; --timeouts;
    if (t.st == WCV && t.mtx && M(t.mtx)->owner != 0) { t.st = WMUTEX; t.on = t.mtx; cur = prev; return; }
  }
  t.st = RUN; t.on = nullptr;
  if (i != prev) { ++switches; vp_fiber_switch(t.fiber); }
}
// Give control to some thread.  Returns when the calling thread runs again.
void reschedule()
{
  int self = cur;
  do
  {
    if (++steps > maxSteps) { if (unfairOk) vp_prune(); vp_error("hang", "the threads make no progress"); }
    int alt[2 * kMax]; int n = 0, freeAlts;
    bool selfOk = enabled(self);
    if (selfOk)
    {
      alt[n++] = self; freeAlts = 1;
      if (preempt > 0) { for (int i = 0; i < nth; i++) if (i != self && enabled(i)) alt[n++] = i;
        if (timeouts > 0 && !lateTimeouts) for (int i = 0; i < nth; i++) if (i != self && expires(i)) alt[n++] = i; }
    }
    else
    {
      for (int i = 0; i < nth; i++) if (enabled(i)) alt[n++] = i;
      freeAlts = n;
      if (n == 0 || (preempt > 0 && timeouts > 0 && !lateTimeouts))
      {
        int first = n;
        for (int i = 0; i < nth; i++) if (expires(i))
        { // earliest deadline first
          int k = n++; while (k > first && th[alt[k - 1]].deadline > th[i].deadline) { alt[k] = alt[k - 1]; --k; } alt[k] = i;
        }
        if (first == 0 && n > 0)
        {
          freeAlts = 1; if (preempt <= 0 || timeouts <= 0) n = 1;
        }
      }
      if (n == 0) { vp_error("deadlock", "no thread can make progress"); }
    }
    int c = 0;
    if (n > 1 && !fixedOrder) c = vp::choose("sched", n);
    if (c >= freeAlts) --preempt;
    go(alt[c]);
  } while (th[self].st != RUN || cur != self);
}
void yieldPoint() { init(); if (nth > 1) reschedule(); }

void acquire(void* m)
{
  Mtx* x = M(m);
  if (x->owner == cur + 1) { if (x->kind == 1) { x->count++; return; } vp_error("deadlock", "mutex locked again by its owner"); }
  while (x->owner != 0) { th[cur].st = WMUTEX; th[cur].on = m; reschedule(); x = M(m); }
  x->owner = cur + 1; x->count = 1; vp_hb_acquire(m);
}
void release(void* m)
{
  Mtx* x = M(m);
  if (x->owner != cur + 1) { if (x->owner == 0 && nth == 1 && !started) return; vp_error("sync", "mutex unlocked by a thread that does not hold it"); }
  if (--x->count > 0) return;
  vp_hb_release(m); x->owner = 0;
}
bool block(int st, void* on, void* mtx, bool timed, int64_t deadline)
{
  T& t = th[cur]; t.st = st; t.on = on; t.mtx = mtx; t.timed = timed; t.fired = false; t.deadline = deadline;
  reschedule();
  T& u = th[cur]; u.timed = false; u.mtx = nullptr; return u.fired;
}
int64_t tsNs(const timespec* ts)
{ // saturating: a deadline beyond the range counts as far away
  __int128 v = (__int128)ts->tv_sec * 1000000000 + ts->tv_nsec; if (v > 4000000000000000000LL) return 4000000000000000000LL; if (v < 0) return 0; return (int64_t)v;
}
// true when timed out
bool cvWait(void* cv, void* m, bool timed, int64_t deadline)
{
  init();
  if (((unsigned*)cv)[0] == 0xDEADC0DEu) vp_error("sync", "wait on a destroyed condition variable");
  yieldPoint();
  bool sp = spurious > 0 && vp::choose("spurious", 2);
  if (sp) { --spurious; release(m); yieldPoint(); acquire(m); return false; }
  int saved = M(m)->count; M(m)->count = 1; release(m);
  bool fired = false;
  if (timed && deadline <= nowNs) { fired = true; yieldPoint(); }
  else fired = block(WCV, cv, m, timed, deadline);
  if (M(m)->owner == cur + 1) { M(m)->count = saved; } else { acquire(m); M(m)->count = saved; }
  return fired;
}
void notify(void* cv, bool all)
{
  init();
  if (((unsigned*)cv)[0] == 0xDEADC0DEu) vp_error("sync", "notification of a destroyed condition variable");
  yieldPoint();
  if (((unsigned*)cv)[0] == 0xDEADC0DEu) vp_error("sync", "notification of a destroyed condition variable");
  int w[kMax]; int n = 0; for (int i = 0; i < nth; i++) if (th[i].st == WCV && th[i].on == cv) w[n++] = i;
  if (n == 0) return;
  int k = all ? -1 : n > 1 ? vp::choose("notified", n) : 0;
  for (int i = 0; i < n; i++) if (k < 0 || i == k) { T& t = th[w[i]]; t.st = WMUTEX; t.on = t.mtx; }
}
void threadMain(void* arg)
{
  int me = (int)(long)arg;
  th[me].run(th[me].state);
  vp_hb_release(&th[me]); th[me].st = DONE;
  reschedule(); // never returns
  vp_error("internal", "finished thread resumed");
}
}

extern "C" {
void vp_threads(int preemptions, int spuriousWakeups, int maxSchedulingSteps) { init(); preempt = preemptions; spurious = spuriousWakeups; if (maxSchedulingSteps) maxSteps = maxSchedulingSteps; vp_race_on(); }
void vp_set_preemptions(int p) { preempt = p; }
void vp_fixed_order(int on) { fixedOrder = on; }
void vp_set_timeouts(int n) { init(); timeouts = n; }
void vp_yield() { yieldPoint(); }
void vp_atomic_yield() { if (started && nth > 1) reschedule(); }
int vp_thread() { return cur; }
int vp_threads_alive() { int n = 0; for (int i = 0; i < nth; i++) n += th[i].st != DONE && th[i].st != FREE; return n; }
int vp_thread_blocked(int i) { return th[i].st != RUN && th[i].st != DONE && !enabled(i); }
void vp_clock_symbolic(int reads, int64_t maxStep) { init(); clockReads = reads; clockMax = maxStep; }
int64_t vp_now() { init(); return nowNs; }
void vp_advance(int64_t ns) { init(); nowNs += ns; }
// run the other threads until all of them are blocked or finished (no deadlock report)
void vp_late_timeouts(int on) { lateTimeouts = on != 0; }
void vp_drain()
{
  init();
  if (nth > 1) block(WDRAIN, nullptr, nullptr, false, 0);
}

void vp_wait_flag(const int* p)
{
  init(); while (*(const volatile int*)p == 0) block(WFLAG, (void*)p, nullptr, false, 0);
}

static int64_t readClock()
{
  init();
  if (clockReads > 0) { --clockReads; uint64_t d = vp_sym("elapsed", 64); vp_assume(d <= (uint64_t)clockMax); nowNs += (int64_t)d; }
  return nowNs;
}
int pthread_mutex_lock(pthread_mutex_t* m) noexcept { init(); yieldPoint(); acquire(m); return 0; }
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept
{ init(); yieldPoint(); Mtx* x = M(m); if (x->owner == cur + 1 && x->kind == 1) { x->count++; return 0; } if (x->owner != 0) return EBUSY; acquire(m); return 0; }
static int timedLock(pthread_mutex_t* m, const timespec* ts)
{
  init(); yieldPoint(); Mtx* x = M(m); if (x->owner == cur + 1 && x->kind == 1) { x->count++; return 0; }
  int64_t d = tsNs(ts);
  while (x->owner != 0) { if (d <= nowNs) return ETIMEDOUT; if (x->owner == cur + 1 && nth == 1) { nowNs = d; return ETIMEDOUT; } if (block(WTM, m, nullptr, true, d)) return ETIMEDOUT; }
  x->owner = cur + 1; x->count = 1; vp_hb_acquire(m); return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* ts) noexcept { return timedLock(m, ts); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const timespec* ts) noexcept { return timedLock(m, ts); }
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept { init(); release(m); return 0; }
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) noexcept { memset(m, 0, sizeof *m); (void)a; return 0; }
int pthread_mutex_destroy(pthread_mutex_t* m) noexcept { if (M(m)->owner) vp_error("sync", "mutex destroyed while locked"); return 0; }
// reader-writer locks: readers acquire what writers released, writers acquire both
int pthread_rwlock_init(pthread_rwlock_t* m, const pthread_rwlockattr_t*) noexcept { memset(m, 0, sizeof *m); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t* m) noexcept { if (W(m)->writer || W(m)->readers) vp_error("sync", "lock destroyed while locked"); return 0; }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) noexcept
{ init(); yieldPoint(); Rw* x = W(m); if (x->writer) return EBUSY; x->readers++; x->who += 1u << 4 * cur; vp_hb_acquire(m); return 0; }
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) noexcept
{ init(); yieldPoint(); Rw* x = W(m); if (x->writer || x->readers) return EBUSY; x->writer = cur + 1; vp_hb_acquire(m); vp_hb_acquire((char*)m + 4); return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept
{
  init(); yieldPoint(); Rw* x = W(m);
  if (x->writer == cur + 1) vp_error("deadlock", "lock taken again by its writer");
  while (x->writer) block(WRD, m, nullptr, false, 0);
  x->readers++; x->who += 1u << 4 * cur; vp_hb_acquire(m); return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept
{
  init(); yieldPoint(); Rw* x = W(m);
  if (x->writer == cur + 1 || reads(x, cur)) vp_error("deadlock", "lock taken again by its holder");
  while (x->writer || x->readers) block(WWR, m, nullptr, false, 0);
  x->writer = cur + 1; vp_hb_acquire(m); vp_hb_acquire((char*)m + 4); return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) noexcept
{
  init(); Rw* x = W(m);
  if (x->writer) { if (x->writer != cur + 1) vp_error("sync", "lock released by a thread that does not hold it"); x->writer = 0; vp_hb_release(m); return 0; }
  if (!x->readers || !reads(x, cur)) vp_error("sync", "lock released by a thread that does not hold it");
  --x->readers; x->who -= 1u << 4 * cur;
  vp_hb_release((char*)m + 4); return 0;
}
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) noexcept { memset(c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t* c) noexcept
{ init(); for (int i = 0; i < nth; i++) if (th[i].st == WCV && th[i].on == c) vp_error("sync", "condition variable destroyed while a thread waits on it"); ((unsigned*)c)[0] = 0xDEADC0DEu; return 0; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { cvWait(c, m, false, 0); return 0; }
int pthread_cond_signal(pthread_cond_t* c) noexcept { notify(c, false); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) noexcept { notify(c, true); return 0; }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const timespec* ts) { return cvWait(c, m, true, tsNs(ts)) ? ETIMEDOUT : 0; }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* ts) { return cvWait(c, m, true, tsNs(ts)) ? ETIMEDOUT : 0; }
int nanosleep(const timespec* req, timespec*)
{
  init(); int64_t d = tsNs(req); vp_slept(d); 
  if (nth == 1) { nowNs += d; return 0; }
  block(WSLEEP, nullptr, nullptr, true, nowNs + d); return 0;
}
__attribute__((weak)) void vp_slept(int64_t) {}
time_t time(time_t* t) noexcept { time_t v = (time_t)(readClock() / 1000000000); if (t) *t = v; return v; }
int clock_gettime(clockid_t, timespec* ts) noexcept { int64_t v = readClock(); ts->tv_sec = v / 1000000000; ts->tv_nsec = v % 1000000000; return 0; }
int sched_yield() noexcept { yieldPoint(); return 0; }
int pthread_once(int* once, void (*fn)())
{
  init();
  if (*once == 2) { vp_hb_acquire(once); return 0; }
  while (*once == 1) { if (nth == 1) vp_error("deadlock", "call_once entered again by its own function"); block(WONCE, once, nullptr, false, 0); }
  if (*once == 2) { vp_hb_acquire(once); return 0; }
  *once = 1;
  try { fn(); } catch (...) { *once = 0; throw; }
  *once = 2; vp_hb_release(once); return 0;
}
}
namespace std
{
void condition_variable::notify_one() noexcept { pthread_cond_signal(native_handle()); }
void condition_variable::notify_all() noexcept { pthread_cond_broadcast(native_handle()); }
condition_variable::condition_variable() noexcept {}
condition_variable::~condition_variable() noexcept { pthread_cond_destroy(native_handle()); }
void condition_variable::wait(unique_lock<mutex>& l) { pthread_cond_wait(native_handle(), l.mutex()->native_handle()); }

thread::_State::~_State() {}
void thread::_M_start_thread(_State_ptr s, void (*)())
{
  init(); int i = 1; while (i < nth && th[i].st != FREE) ++i;
  if (i >= kMax) vp_inconclusive("more threads than the model supports");
  T& t = th[i]; t.st = RUN; t.state = s.release(); t.run = [](void* p) { _State* x = (_State*)p; x->_M_run(); delete x; }; t.on = nullptr; t.mtx = nullptr; t.timed = false; t.detached = false;
  t.fiber = vp_fiber_new(threadMain, (void*)(long)i); if (i == nth) nth++;
  _M_id._M_thread = (pthread_t)(i + 1);
  yieldPoint();
}
void thread::join()
{
  int i = (int)_M_id._M_thread - 1; if (i < 0) __throw_system_error((int)errc::invalid_argument);
  if (i == cur) __throw_system_error((int)errc::resource_deadlock_would_occur);
  yieldPoint();
  if (th[i].st != DONE) block(WJOIN, (void*)(long)i, nullptr, false, 0);
  vp_hb_acquire(&th[i]); _M_id = id(); th[i].st = FREE; vp_fiber_free(th[i].fiber);
}
void thread::detach() { int i = (int)_M_id._M_thread - 1; if (i < 0) __throw_system_error((int)errc::invalid_argument); th[i].detached = true; _M_id = id(); }
unsigned thread::hardware_concurrency() noexcept { return 2; }

bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* a, unsigned v, bool timed, chrono::seconds s, chrono::nanoseconds ns)
{
  init(); yieldPoint(); if (*(volatile unsigned*)a != v) return true;
  timespec ts{s.count(), ns.count()}; int64_t d = tsNs(&ts); if (timed && d <= nowNs) return false;
  bool fired = block(WFUTEX, a, nullptr, timed, d); return !fired;
}
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned* a, unsigned v, bool timed, chrono::seconds s, chrono::nanoseconds ns) { return _M_futex_wait_until(a, v, timed, s, ns); }
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned* a)
{ init(); for (int i = 0; i < nth; i++) if (th[i].st == WFUTEX && th[i].on == a) { th[i].st = RUN; th[i].on = nullptr; th[i].fired = false; } }
namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { return time_point(duration_cast<duration>(nanoseconds(readClock()))); }
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration_cast<duration>(nanoseconds(readClock()))); }
} }
}
extern "C" void vp_unfair_ok() { unfairOk = true; }
extern "C" void vp_max_steps(int n) { init(); maxSteps = n; }
