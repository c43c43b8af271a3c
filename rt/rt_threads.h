// Control of the thread model (see rt_threads.cpp).
#ifndef VP_THREADS_H
#define VP_THREADS_H
#include <cstdint>
extern "C" {
// preemptions: forced switches away from a thread that could go on; spurious: condition-variable waits that may return without notification
void vp_threads(int preemptions, int spuriousWakeups, int maxSchedulingSteps);
void vp_set_preemptions(int p);
// always take the first alternative: one schedule only
void vp_fixed_order(int on);
void vp_set_timeouts(int n);   // how many timed waits may expire on a path while a thread can go on; when none can, the earliest one expires
void vp_unfair_ok();           // schedules with too many steps are left out instead of being reported as a hang
void vp_max_steps(int n);       // scheduling steps after which a schedule counts as a hang
void vp_late_timeouts(int on); // timed waits expire only when no thread can go on
void vp_yield();
void vp_atomic_yield();
int vp_thread();
int vp_threads_alive();
int vp_thread_blocked(int i);
void vp_clock_symbolic(int reads, int64_t maxStep); // the next `reads` clock reads each advance time by a symbolic amount
int64_t vp_now();
void vp_advance(int64_t ns);
void vp_drain();               // wait until no other thread can go on
void vp_wait_flag(const int* p); // wait until *p is not zero; no synchronisation is derived from it
void vp_slept(int64_t ns);     // called for every sleep; a harness may override it
}
#endif
