// Native replay of one counterexample: inputs come from the file named by VP_REPLAY, in the order in which the
// execution asks for them.  Threads of the model are real threads passing a baton, so that exactly one runs.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <linux/futex.h>
#include <pthread.h>
#include <string>
#include <sys/syscall.h>
#include <unistd.h>
#include <vector>
#include <dlfcn.h>

extern "C" {
void vp_entry();
static std::vector<unsigned long long> gIn;
static size_t gPos;
static int gBaton, gCur, gN = 1; // baton[i] as one futex word per thread
static int gWord[256];

static void finish(int code) { fflush(stdout); fflush(stderr); _exit(code); }
static void violation(const char* kind, const char* msg) { fprintf(stderr, "REPLAY-VIOLATION kind=%s: %s\n", kind, msg); finish(42); }
uint64_t vp_sym(const char* name, unsigned bits)
{
  if (gPos >= gIn.size()) { if (secure_getenv("VP_REPLAY_TRACE")) fprintf(stderr, "input %s: beyond recorded inputs, 0\n", name); return 0; }
  uint64_t v = gIn[gPos++]; if (bits < 64) v &= (1ull << bits) - 1;
  if (secure_getenv("VP_REPLAY_TRACE")) fprintf(stderr, "input %s = %llu\n", name, (unsigned long long)v);
  return v;
}
void vp_make_symbolic(void* p, size_t n, const char* name) { for (size_t i = 0; i < n; i++) ((unsigned char*)p)[i] = (unsigned char)vp_sym(name, 8); }
void vp_assume(bool c) { if (!c) { fprintf(stderr, "REPLAY-ASSUMPTION-FAILED\n"); finish(43); } }
void vp_assert(bool c, const char* msg) { if (!c) violation("assert", msg); }
void vp_fail(const char* msg) { violation("assert", msg); }
void vp_error(const char* kind, const char* msg) { violation(kind, msg); }
void vp_reach(const char*) {}
void vp_note(const char* t) { fprintf(stderr, "note: %s\n", t); }
void vp_note_int(const char* t, int64_t v) { fprintf(stderr, "note: %s %lld\n", t, (long long)v); }
void vp_prune() { fprintf(stderr, "REPLAY-PRUNED\n"); finish(43); }
void vp_done() { finish(0); }
void vp_inconclusive(const char* w) { fprintf(stderr, "REPLAY-INCONCLUSIVE %s\n", w); finish(44); }
uint64_t vp_concretize(uint64_t v) { return v; }
bool vp_is_symbolic(uint64_t) { return false; }
int vp_symbolic_mode() { return 0; }
void vp_race_on() {}
void vp_race_off() {}
int vp_race_set(int) { return 0; }
void __tsan_acquire(void*) __attribute__((weak));
void __tsan_release(void*) __attribute__((weak));
void vp_hb_acquire(const void* a) { if (__tsan_acquire) __tsan_acquire((void*)a); }
void vp_hb_release(const void* a) { if (__tsan_release) __tsan_release((void*)a); }
void vp_hb_join(int) {}
int vp_current_fiber() { return gCur; }

static void await(int i) { while (__atomic_load_n(&gWord[i], __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, &gWord[i], FUTEX_WAIT, 0, nullptr, nullptr, 0); __atomic_store_n(&gWord[i], 0, __ATOMIC_RELAXED); }
static void pass(int i) { gCur = i; __atomic_store_n(&gWord[i], 1, __ATOMIC_RELEASE); syscall(SYS_futex, &gWord[i], FUTEX_WAKE, 1, nullptr, nullptr, 0); }
struct Start { void (*fn)(void*); void* arg; int id; };
static void* tmain(void* p) { Start s = *(Start*)p; await(s.id); s.fn(s.arg); return nullptr; }
int vp_fiber_new(void (*fn)(void*), void* arg)
{
  int id = gN++; Start* s = new Start{fn, arg, id}; pthread_t t; pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setdetachstate(&a, PTHREAD_CREATE_DETACHED);
  if (pthread_create(&t, &a, tmain, s)) { fprintf(stderr, "REPLAY thread creation failed\n"); finish(44); }
  return id;
}
void vp_fiber_switch(int id) { int me = gCur; if (id == me) return; pass(id); await(me); }
void vp_fiber_free(int) {}
void vp_fmt_double_dummy() {}
int vp_fmt_double(char* b, size_t n, const char* f, double d) { return snprintf(b, n, f, d); }
double vp_strtod_c(const char* s, size_t* used, int* range) { char* e; double d = strtod(s, &e); *used = (size_t)(e - s); *range = 0; return d; }
static void onTerminate() { fprintf(stderr, "REPLAY-VIOLATION kind=abort: std::terminate\n"); finish(42); }
}
int main()
{
  const char* f = secure_getenv("VP_REPLAY"); if (!f) { fprintf(stderr, "VP_REPLAY not set\n"); return 44; }
  FILE* fp = fopen(f, "r"); if (!fp) { fprintf(stderr, "cannot open %s\n", f); return 44; }
  char line[4096];
  while (fgets(line, sizeof line, fp)) if (!strncmp(line, "in ", 3)) { gIn.push_back(strtoull(line + 3, nullptr, 10)); }
  fclose(fp);
  std::set_terminate(onTerminate);
  alarm(20);
  vp_entry();
  fprintf(stderr, "REPLAY-PASSED\n"); finish(0);
}
