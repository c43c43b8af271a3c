// Harness interface to the symbolic executor (engine/) and to native replay (rt/rt_native.cpp).
#ifndef VP_H
#define VP_H
#include <cstddef>
#include <cstdint>
#include <string>
extern "C" {
uint64_t vp_sym(const char* name, unsigned bits);
void vp_make_symbolic(void* p, size_t n, const char* name);
void vp_assume(bool c);
void vp_assert(bool c, const char* msg);
void vp_fail(const char* msg);
void vp_error(const char* kind, const char* msg);
void vp_reach(const char* label);
void vp_note(const char* text);
void vp_note_int(const char* text, int64_t v);
[[noreturn]] void vp_prune();
[[noreturn]] void vp_done();
[[noreturn]] void vp_inconclusive(const char* why);
uint64_t vp_concretize(uint64_t v);
bool vp_is_symbolic(uint64_t v);
int vp_symbolic_mode();
int vp_fiber_new(void (*fn)(void*), void* arg);
void vp_fiber_switch(int id);
void vp_fiber_free(int id);
void vp_race_on();
void vp_race_off();
int vp_race_set(int on);   // returns the previous setting
void vp_hb_acquire(const void* a);
void vp_hb_release(const void* a);
void vp_hb_join(int fiber);
}
namespace vp
{
template <class T> inline T any(const char* name) { return (T)vp_sym(name, sizeof(T) * 8); }
template <> inline bool any<bool>(const char* name) { return vp_sym(name, 1) != 0; }
template <> inline double any<double>(const char* name) { uint64_t b = vp_sym(name, 64); double d; __builtin_memcpy(&d, &b, 8); return d; }
template <> inline float any<float>(const char* name) { uint32_t b = (uint32_t)vp_sym(name, 32); float d; __builtin_memcpy(&d, &b, 4); return d; }
// symbolic value in [0,n), kept symbolic
inline uint64_t below(const char* name, uint64_t n) { uint64_t v = vp_sym(name, 8); vp_assume(v < n); return v; }
// value in [0,n): the solver enumerates the feasible ones and the execution forks
inline int choose(const char* name, int n) { if (n <= 1) return 0; return (int)vp_concretize(below(name, (uint64_t)n)); }
inline bool flag(const char* name) { return choose(name, 2) != 0; }
// string of symbolic characters (all 256 byte values) with a length chosen in [lo,hi]
inline std::string str(const char* name, int lo, int hi)
{
  int n = lo + choose(name, hi - lo + 1); std::string s((size_t)n, '\0');
  for (int i = 0; i < n; i++) s[(size_t)i] = (char)vp_sym(name, 8);
  return s;
}
// as str, with characters from a given alphabet
inline std::string strOf(const char* name, int lo, int hi, const char* alphabet)
{
  std::string s = str(name, lo, hi);
  for (char c : s) { bool in = false; for (const char* a = alphabet; *a; a++) in = in | (c == *a); vp_assume(in); }
  return s;
}
}
// bookkeeping of the harness: its memory accesses take no part in race detection (no scheduling point inside)
struct VpQuiet { int was; VpQuiet() : was(vp_race_set(0)) {} ~VpQuiet() { vp_race_set(was); } VpQuiet(const VpQuiet&) = delete; };
#define VP_STR2(x) #x
#define VP_STR(x) VP_STR2(x)
#define CHECK(c, msg) vp_assert((c), msg)
#define HARNESS(name) extern "C" void name()
#endif
