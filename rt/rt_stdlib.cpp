// Out-of-line parts of the C and C++ runtime, for the symbolic executor only
// (native replay links the real libstdc++ and libc instead).
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <future>
#include <list>
#include <map>
#include <memory>
#include <new>
#include <stdexcept>
#include <string>
#include <system_error>
#include <typeinfo>
#include <unordered_map>
#include <variant>
#include "vp.h"

template class std::basic_string<char>;

extern "C" {
void vp_throw(void* exc);
void vp_terminate();
int vp_current_fiber();
void vp_atomic_yield();
}

// ------------------------------------------------------------------ exceptions
// object layout: 64 byte header before the object; [-64] typeinfo, [-56] adjusted pointer, [-48] destructor, [-40] refcount, [-32] handler count
namespace
{
struct Hdr { void* ti; void* adjusted; void (*dtor)(void*); long refs; long handlers; long rethrown; long pad[2]; };
static_assert(sizeof(Hdr) == 64, "");
inline Hdr* hdr(void* p) { return reinterpret_cast<Hdr*>(static_cast<char*>(p) - 64); }
const int kMaxFib = 16;
void* caught[kMaxFib][16];
int ncaught[kMaxFib];
int nuncaught[kMaxFib];
void unref(void* p)
{
  Hdr* h = hdr(p);
  if (--h->refs == 0) { if (h->dtor) h->dtor(p); free(h); }
}
}
extern "C" {
void* __cxa_allocate_exception(size_t n) noexcept { char* p = (char*)malloc(n + 64); memset(p, 0, 64); return p + 64; }
void __cxa_free_exception(void* p) noexcept { free(hdr(p)); }
void __cxa_throw(void* p, void* ti, void (*dtor)(void*))
{ Hdr* h = hdr(p); h->ti = ti; h->adjusted = p; h->dtor = dtor; h->refs = 1; h->handlers = 0; nuncaught[vp_current_fiber()]++; vp_throw(p); __builtin_unreachable(); }
__cxxabiv1::__cxa_refcounted_exception* __cxa_init_primary_exception(void* p, std::type_info* ti, void (*dtor)(void*)) noexcept
{ Hdr* h = hdr(p); h->ti = ti; h->adjusted = p; h->dtor = dtor; h->refs = 0; h->handlers = 0; return (__cxxabiv1::__cxa_refcounted_exception*)h; }
void* __cxa_get_exception_ptr(void* p) noexcept { return hdr(p)->adjusted; }
void* __cxa_begin_catch(void* p) noexcept
{
  int f = vp_current_fiber(); Hdr* h = hdr(p);
  nuncaught[f]--; if (h->handlers++ > 0) h->refs++; // a rethrown exception is held once per handler
  if (ncaught[f] >= 16) vp_inconclusive("more than 16 nested handlers");
  caught[f][ncaught[f]++] = p; return h->adjusted;
}
void __cxa_end_catch()
{
  int f = vp_current_fiber(); if (ncaught[f] == 0) return;
  void* p = caught[f][--ncaught[f]]; Hdr* h = hdr(p); h->handlers--;
  if (h->rethrown) { h->rethrown--; h->handlers = 0; return; }
  unref(p);
}
void __cxa_rethrow()
{
  int f = vp_current_fiber(); if (ncaught[f] == 0) { vp_error("abort", "rethrow without a caught exception"); }
  void* p = caught[f][ncaught[f] - 1]; hdr(p)->rethrown++; nuncaught[f]++; vp_throw(p); __builtin_unreachable();
}
void _ZSt21__glibcxx_assert_failPKciS0_S0_(const char*, int, const char*, const char* c) { vp_error("abort", "library precondition violated"); (void)c; __builtin_unreachable(); }
void __cxa_bad_cast() { throw std::bad_cast(); }
void __cxa_throw_bad_array_new_length() { throw std::bad_array_new_length(); }
void __cxa_bad_typeid() { throw std::bad_typeid(); }
void __cxa_call_unexpected(void*) { vp_terminate(); }
int __cxa_guard_acquire(char* g) { vp_hb_acquire(g); if (*g) return 0; return 1; }
void __cxa_guard_release(char* g) { *g = 1; vp_hb_release(g); }
void __cxa_guard_abort(char*) {}
void __clang_call_terminate_impl() { vp_terminate(); }
char __libc_single_threaded = 0;
}
namespace std
{
int uncaught_exceptions() noexcept { return nuncaught[vp_current_fiber()]; }
bool uncaught_exception() noexcept { return nuncaught[vp_current_fiber()] > 0; }
namespace __exception_ptr
{
exception_ptr::exception_ptr(void* p) noexcept : _M_exception_object(p) { if (p) _M_addref(); }
void exception_ptr::_M_addref() noexcept { if (_M_exception_object) hdr(_M_exception_object)->refs++; }
void exception_ptr::_M_release() noexcept { if (_M_exception_object) { unref(_M_exception_object); _M_exception_object = nullptr; } }
void* exception_ptr::_M_get() const noexcept { return _M_exception_object; }
const std::type_info* exception_ptr::__cxa_exception_type() const noexcept { return (const std::type_info*)hdr(_M_exception_object)->ti; }
}
exception_ptr current_exception() noexcept
{ int f = vp_current_fiber(); if (!ncaught[f]) return exception_ptr(); return __exception_ptr::exception_ptr(caught[f][ncaught[f] - 1]); }
void rethrow_exception(exception_ptr ep)
{ void* p; memcpy(&p, &ep, sizeof p); Hdr* h = hdr(p); h->refs++; h->adjusted = p; nuncaught[vp_current_fiber()]++; 
  // release the copy made by the call, which would otherwise be skipped
  __exception_ptr::exception_ptr tmp; tmp.swap(ep); h->handlers = 0;
  vp_throw(p); __builtin_unreachable(); }

exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
type_info::~type_info() {}
bool type_info::__is_pointer_p() const { return false; }
bool type_info::__is_function_p() const { return false; }
bool type_info::__do_catch(const type_info*, void**, unsigned) const { return false; }
bool type_info::__do_upcast(const __cxxabiv1::__class_type_info*, void**) const { return false; }

// strings of the standard exceptions: one private heap copy
static const char* dupz(const char* s, size_t n) { char* p = (char*)malloc(n + 1); memcpy(p, s, n); p[n] = 0; return p; }
__cow_string::__cow_string() : _M_p(dupz("", 0)) {}
__cow_string::__cow_string(const std::string& s) : _M_p(dupz(s.data(), s.size())) {}
__cow_string::__cow_string(const char* s, size_t n) : _M_p(dupz(s, n)) {}
__cow_string::__cow_string(const __cow_string& o) noexcept : _M_p(dupz(o._M_p, strlen(o._M_p))) {}
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { if (this != &o) { free((void*)_M_p); _M_p = dupz(o._M_p, strlen(o._M_p)); } return *this; }
__cow_string::~__cow_string() { free((void*)_M_p); }
__cow_string::__cow_string(__cow_string&& o) noexcept : _M_p(dupz(o._M_p, strlen(o._M_p))) {}
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { return *this = o; }
logic_error::logic_error(const string& s) : _M_msg(s) {}
logic_error::logic_error(const char* s) : _M_msg(s, strlen(s)) {}
logic_error::logic_error(const logic_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error& logic_error::operator=(const logic_error& o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::logic_error(logic_error&& o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error& logic_error::operator=(logic_error&& o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::~logic_error() noexcept {}
const char* logic_error::what() const noexcept { return _M_msg._M_p; }
runtime_error::runtime_error(const string& s) : _M_msg(s) {}
runtime_error::runtime_error(const char* s) : _M_msg(s, strlen(s)) {}
runtime_error::runtime_error(const runtime_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error& runtime_error::operator=(const runtime_error& o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::runtime_error(runtime_error&& o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error& runtime_error::operator=(runtime_error&& o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::~runtime_error() noexcept {}
bad_weak_ptr::~bad_weak_ptr() noexcept {}
const char* bad_weak_ptr::what() const noexcept { return "bad_weak_ptr"; }
nested_exception::~nested_exception() noexcept {}
const char* runtime_error::what() const noexcept { return _M_msg._M_p; }
#define SUB(T, B) T::T(const string& s) : B(s) {} T::T(const char* s) : B(s) {} T::~T() noexcept {}
SUB(domain_error, logic_error) SUB(invalid_argument, logic_error) SUB(length_error, logic_error) SUB(out_of_range, logic_error)
SUB(range_error, runtime_error) SUB(overflow_error, runtime_error) SUB(underflow_error, runtime_error)

void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_domain_error(const char* s) { throw domain_error(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_range_error(const char* s) { throw range_error(s); }
void __throw_overflow_error(const char* s) { throw overflow_error(s); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_function_call() { throw bad_function_call(); }

// errors with codes
error_category::~error_category() {}
namespace { struct Cat : error_category { const char* n; Cat(const char* s) : n(s) {} const char* name() const noexcept override { return n; } std::string message(int) const override { return n; } }; }
error_condition error_category::default_error_condition(int i) const noexcept { return error_condition(i, *this); }
bool error_category::equivalent(int i, const error_condition& c) const noexcept { return c.value() == i; }
bool error_category::equivalent(const error_code& c, int i) const noexcept { return c.value() == i; }
__cow_string error_category::_M_message(int) const { return __cow_string("error", 5); }
static Cat gGeneric("generic"), gSystem("system"), gFuture("future");
inline namespace _V2 { const error_category& generic_category() noexcept { return gGeneric; } const error_category& system_category() noexcept { return gSystem; } }
const error_category& future_category() noexcept { return gFuture; }
system_error::~system_error() noexcept {}
future_error::~future_error() noexcept {}
__future_base::_Result_base::_Result_base() {}
__future_base::_Result_base::~_Result_base() {}
const char* future_error::what() const noexcept { return logic_error::what(); }
void __throw_system_error(int i) { throw system_error(error_code(i, generic_category())); }
void __throw_future_error(int i) { throw future_error(make_error_code(future_errc(i))); }

// ------------------------------------------------------------------ red-black tree
typedef _Rb_tree_node_base* BP; typedef const _Rb_tree_node_base* CBP;
static BP inc(BP x)
{
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; }
  else { BP y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; }
  return x;
}
static BP dec(BP x)
{
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
  else if (x->_M_left) { BP y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; }
  else { BP y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; }
  return x;
}
BP _Rb_tree_increment(BP x) throw() { return inc(x); }
CBP _Rb_tree_increment(CBP x) throw() { return inc(const_cast<BP>(x)); }
BP _Rb_tree_decrement(BP x) throw() { return dec(x); }
CBP _Rb_tree_decrement(CBP x) throw() { return dec(const_cast<BP>(x)); }
static void rotL(BP x, BP& root)
{
  BP y = x->_M_right; x->_M_right = y->_M_left; if (y->_M_left) y->_M_left->_M_parent = x; y->_M_parent = x->_M_parent;
  if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y;
  y->_M_left = x; x->_M_parent = y;
}
static void rotR(BP x, BP& root)
{
  BP y = x->_M_left; x->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = x; y->_M_parent = x->_M_parent;
  if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y;
  y->_M_right = x; x->_M_parent = y;
}
void _Rb_tree_insert_and_rebalance(const bool left, BP x, BP p, _Rb_tree_node_base& header) throw()
{
  BP& root = header._M_parent; x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_red;
  if (left) { p->_M_left = x; if (p == &header) { header._M_parent = x; header._M_right = x; } else if (p == header._M_left) header._M_left = x; }
  else { p->_M_right = x; if (p == header._M_right) header._M_right = x; }
  while (x != root && x->_M_parent->_M_color == _S_red)
  {
    BP xpp = x->_M_parent->_M_parent;
    if (x->_M_parent == xpp->_M_left)
    {
      BP y = xpp->_M_right;
      if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
      else { if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotL(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotR(xpp, root); }
    }
    else
    {
      BP y = xpp->_M_left;
      if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
      else { if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotR(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotL(xpp, root); }
    }
  }
  root->_M_color = _S_black;
}
BP _Rb_tree_rebalance_for_erase(BP const z, _Rb_tree_node_base& header) throw()
{
  BP& root = header._M_parent; BP& leftmost = header._M_left; BP& rightmost = header._M_right; BP y = z, x = 0, xp = 0;
  if (y->_M_left == 0) x = y->_M_right; else if (y->_M_right == 0) x = y->_M_left;
  else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
  if (y != z)
  {
    z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
    if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; } else xp = y;
    if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
    y->_M_parent = z->_M_parent; _Rb_tree_color c = y->_M_color; y->_M_color = z->_M_color; z->_M_color = c; y = z;
  }
  else
  {
    xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent;
    if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
    if (leftmost == z) { if (z->_M_right == 0) leftmost = z->_M_parent; else { BP m = x; while (m->_M_left) m = m->_M_left; leftmost = m; } }
    if (rightmost == z) { if (z->_M_left == 0) rightmost = z->_M_parent; else { BP m = x; while (m->_M_right) m = m->_M_right; rightmost = m; } }
  }
  if (y->_M_color != _S_red)
  {
    while (x != root && (x == 0 || x->_M_color == _S_black))
      if (x == xp->_M_left)
      {
        BP w = xp->_M_right;
        if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotL(xp, root); w = xp->_M_right; }
        if ((w->_M_left == 0 || w->_M_left->_M_color == _S_black) && (w->_M_right == 0 || w->_M_right->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
        else
        {
          if (w->_M_right == 0 || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rotR(w, root); w = xp->_M_right; }
          w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_right) w->_M_right->_M_color = _S_black; rotL(xp, root); break;
        }
      }
      else
      {
        BP w = xp->_M_left;
        if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotR(xp, root); w = xp->_M_left; }
        if ((w->_M_right == 0 || w->_M_right->_M_color == _S_black) && (w->_M_left == 0 || w->_M_left->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
        else
        {
          if (w->_M_left == 0 || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rotL(w, root); w = xp->_M_left; }
          w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_left) w->_M_left->_M_color = _S_black; rotR(xp, root); break;
        }
      }
    if (x) x->_M_color = _S_black;
  }
  return y;
}
unsigned int _Rb_tree_black_count(CBP n, CBP r) throw() { unsigned s = 0; while (n) { if (n->_M_color == _S_black) ++s; if (n == r) break; n = n->_M_parent; } return s; }

// ------------------------------------------------------------------ lists, hashing
namespace __detail
{
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_next->_M_prev = _M_prev; _M_prev->_M_next = _M_next; }
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept
{
  if (this != l)
  {
    l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f;
    _List_node_base* t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t;
  }
}
void _List_node_base::_M_reverse() noexcept { _List_node_base* t = this; do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this); }
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept
{
  if (x._M_next != &x)
  {
    if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
    else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; }
  }
  else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
}
static const size_t kPrimes[] = {2, 5, 11, 23, 47, 97, 199, 409, 823, 1741};
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { for (size_t p : kPrimes) if (p >= n) { _M_next_resize = p; return p; } return 3469; }
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const
{ if (ne + ni > nb) { size_t want = ne + ni + 1; if (want < nb * 2) want = nb * 2; return {true, _M_next_bkt(want)}; } return {false, 0}; }
}
size_t _Hash_bytes(const void* p, size_t n, size_t seed) { const unsigned char* c = (const unsigned char*)p; size_t h = seed ^ n; for (size_t i = 0; i < n; i++) h = h * 31 + c[i]; return h; }
size_t _Fnv_hash_bytes(const void* p, size_t n, size_t seed) { return _Hash_bytes(p, n, seed); }
bool _Sp_make_shared_tag::_S_eq(const type_info&) noexcept { return false; }
// operations on shared pointers by the atomic functions happen at once: no other thread runs in between
_Sp_locker::_Sp_locker(const void* p) noexcept : _M_key1(0), _M_key2(0) { vp_atomic_yield(); vp_hb_acquire((void*)p); }
_Sp_locker::_Sp_locker(const void* p, const void* q) noexcept : _M_key1(0), _M_key2(0) { vp_atomic_yield(); vp_hb_acquire((void*)p); vp_hb_acquire((void*)q); }
_Sp_locker::~_Sp_locker() {}
__thread void* __once_callable;
__thread void (*__once_call)();
extern "C" void __once_proxy() { __once_call(); }
}

// ------------------------------------------------------------------ C library
extern "C" {
size_t strlen(const char* s) { size_t n = 0; while (s[n]) ++n; return n; }
int strcmp(const char* a, const char* b) { while (*a && *a == *b) { ++a; ++b; } return (int)(unsigned char)*a - (int)(unsigned char)*b; }
int strncmp(const char* a, const char* b, size_t n) { for (; n; --n, ++a, ++b) { if (*a != *b) return (int)(unsigned char)*a - (int)(unsigned char)*b; if (!*a) break; } return 0; }
size_t strnlen(const char* s, size_t m) { size_t n = 0; while (n < m && s[n]) ++n; return n; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
char* strdup(const char* s) { size_t n = strlen(s) + 1; char* p = (char*)malloc(n); memcpy(p, s, n); return p; }
static int low(unsigned char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int strcasecmp(const char* a, const char* b) { while (*a && low(*a) == low(*b)) { ++a; ++b; } return low(*a) - low(*b); }
int strncasecmp(const char* a, const char* b, size_t n) { for (; n; --n, ++a, ++b) { if (low(*a) != low(*b)) return low(*a) - low(*b); if (!*a) break; } return 0; }
static bool in(char c, const char* set) { for (; *set; ++set) if (*set == c) return true; return false; }
size_t strspn(const char* s, const char* set) { size_t n = 0; while (s[n] && in(s[n], set)) ++n; return n; }
size_t strcspn(const char* s, const char* set) { size_t n = 0; while (s[n] && !in(s[n], set)) ++n; return n; }
char* vp_strpbrk(const char* s, const char* set) __asm__("strpbrk");
char* vp_strpbrk(const char* s, const char* set) { s += strcspn(s, set); return *s ? (char*)s : nullptr; }
char* vp_strrchr(const char* s, int c) __asm__("strrchr");
char* vp_strrchr(const char* s, int c) { const char* r = nullptr; for (;; ++s) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
char* vp_strstr(const char* s, const char* t) __asm__("strstr");
char* vp_strstr(const char* s, const char* t) { size_t n = strlen(t); for (;; ++s) { if (strncmp(s, t, n) == 0) return (char*)s; if (!*s) return nullptr; } }
static unsigned gRand = 1;
void srand(unsigned s) { gRand = s; }
int rand() { gRand = gRand * 1103515245u + 12345u; return (int)(gRand >> 16 & 0x7fff); }
const void* vp_memchr(const void* s, int c, size_t n) { const unsigned char* p = (const unsigned char*)s; for (; n; --n, ++p) if (*p == (unsigned char)c) return p; return nullptr; }
char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)) {} return r; }
const char* vp_strchr(const char* s, int c) { for (;; ++s) { if (*s == (char)c) return s; if (!*s) return nullptr; } }
void* memchr_impl(const void* s, int c, size_t n) __asm__("memchr");
void* memchr_impl(const void* s, int c, size_t n) { return (void*)vp_memchr(s, c, n); }
char* strchr_impl(const char* s, int c) __asm__("strchr");
char* strchr_impl(const char* s, int c) { return (char*)vp_strchr(s, c); }
int isspace(int c) { return (c == ' ') | ((c >= 9) & (c <= 13)); }
int isdigit(int c) { return (c >= '0') & (c <= '9'); }
int isupper(int c) { return (c >= 'A') & (c <= 'Z'); }
int islower(int c) { return (c >= 'a') & (c <= 'z'); }
int isalpha(int c) { return isupper(c) | islower(c); }
int isalnum(int c) { return isalpha(c) | isdigit(c); }
int isblank(int c) { return (c == ' ') | (c == 9); }
int isprint(int c) { return (c >= 32) & (c < 127); }
int isgraph(int c) { return (c > 32) & (c < 127); }
int iscntrl(int c) { return ((c >= 0) & (c < 32)) | (c == 127); }
int ispunct(int c) { return isgraph(c) & !isalnum(c); }
int isxdigit(int c) { return isdigit(c) | (((c | 32) >= 'a') & ((c | 32) <= 'f')); }
int tolower(int c) { return isupper(c) ? c + 32 : c; }
int toupper(int c) { return islower(c) ? c - 32 : c; }
static int gErrno;
int* __errno_location() noexcept { return &gErrno; }
unsigned long long strtoull(const char* s, char** end, int base)
{
  const char* p = s; while (isspace((unsigned char)*p)) ++p; bool neg = false; if (*p == '+' || *p == '-') { neg = *p == '-'; ++p; }
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] | 32) == 'x') { int c = p[2]; if (isdigit(c) || ((c | 32) >= 'a' && (c | 32) <= 'f')) { p += 2; base = 16; } }
  if (base == 0) base = *p == '0' ? 8 : 10;
  unsigned long long v = 0; bool any = false, over = false;
  for (;; ++p)
  {
    int d; unsigned char c = (unsigned char)*p; if (c >= '0' && c <= '9') d = c - '0'; else if (c >= 'a' && c <= 'z') d = c - 'a' + 10; else if (c >= 'A' && c <= 'Z') d = c - 'A' + 10; else break;
    if (d >= base) break; any = true;
    unsigned __int128 t = (unsigned __int128)v * (unsigned)base + (unsigned)d; if ((t >> 64) != 0) over = true; v = (unsigned long long)t;
  }
  if (end) *end = (char*)(any ? p : s);
  if (over) { gErrno = 34; return ~0ull; }
  return neg ? 0 - v : v;
}
long long strtoll(const char* s, char** end, int base)
{
  const char* p = s; while (isspace((unsigned char)*p)) ++p; bool neg = *p == '-'; int saved = gErrno; gErrno = 0;
  unsigned long long v = strtoull(s, end, base); bool over = gErrno == 34; gErrno = saved;
  unsigned long long mag = neg && !over ? 0 - v : v;
  if (over || (!neg && mag > 0x7fffffffffffffffull) || (neg && mag > 0x8000000000000000ull)) { gErrno = 34; return neg ? (long long)0x8000000000000000ull : 0x7fffffffffffffffll; }
  return (long long)v;
}
long strtol(const char* s, char** e, int b) { return (long)strtoll(s, e, b); }
unsigned long strtoul(const char* s, char** e, int b) { return (unsigned long)strtoull(s, e, b); }
double vp_strtod_c(const char* s, size_t* used, int* range);
double strtod(const char* s, char** end)
{ size_t u = 0; int r = 0; double d = vp_strtod_c(s, &u, &r); if (r) gErrno = 34; if (end) *end = (char*)(s + u); return d; }
}
