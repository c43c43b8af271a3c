// Stand-in for the C++ stream classes, whose library implementation cannot be executed symbolically.  Only what oac-tree uses: string
// streams, std::cout and std::cin, file existence.  The names are mapped by macros so that the library's own classes stay untouched.
#ifndef VP_STREAMS_H
#define VP_STREAMS_H
#include <algorithm>
#include <chrono>
#include <condition_variable>
#include <cstdint>
#include <functional>
#include <future>
#include <ios>
#include <iosfwd>
#include <iterator>
#include <locale>
#include <bitset>
#include <random>
#include <streambuf>
#include <system_error>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <string>
#include <string_view>
#include <thread>
#include <type_traits>
#include <unordered_map>
#include <vector>
// does a file of this name exist; a harness may define it
extern "C" __attribute__((weak)) bool vp_file_exists(const char* name);
namespace std
{
class vp_ostream
{
public:
  virtual ~vp_ostream() {}
  virtual void vp_put(const char* s, size_t n) { (void)s; (void)n; }
  vp_ostream& write(const char* s, long n) { vp_put(s, (size_t)n); return *this; }
  vp_ostream& put(char c) { vp_put(&c, 1); return *this; }
  vp_ostream& flush() { return *this; }
  vp_ostream& vp_flush() { return *this; }
  vp_ostream& operator<<(const std::string& s) { return vp_out(s.data(), s.size()); }
  vp_ostream& operator<<(std::string_view s) { return vp_out(s.data(), s.size()); }
  vp_ostream& operator<<(const char* s) { return vp_out(s, __builtin_strlen(s)); }
  vp_ostream& operator<<(char c) { return vp_out(&c, 1); }
  vp_ostream& operator<<(signed char c) { return *this << (char)c; }
  vp_ostream& operator<<(unsigned char c) { return *this << (char)c; }
  using char_type = char; using traits_type = char_traits<char>; using int_type = int;
  void setf(std::ios_base::fmtflags f) { if (f & std::ios_base::boolalpha) m_alpha = true; }
  void setf(std::ios_base::fmtflags f, std::ios_base::fmtflags m) { if ((m & std::ios_base::basefield) != 0) m_hex = (f & std::ios_base::hex) != 0; }
  void unsetf(std::ios_base::fmtflags f) { if (f & std::ios_base::boolalpha) m_alpha = false; }
  long width(long w) { long o = (long)m_width; m_width = (size_t)w; return o; }
  char fill(char c) { char o = m_fill; m_fill = c; return o; }
  long precision(long) { return 6; }
  long precision() const { return 6; }
  bool good() const { return true; }
  bool bad() const { return false; }
  bool eof() const { return false; }
  void clear() {}
  bool fail() const { return false; }
  explicit operator bool() const { return true; }
  bool operator!() const { return false; }
  vp_ostream& operator<<(const void* p) { return *this << "0x" << (unsigned long)p; }
  vp_ostream& operator<<(bool b) { return *this << (m_alpha ? (b ? "true" : "false") : (b ? "1" : "0")); }
  vp_ostream& operator<<(short v) { return vp_num((long long)v, (unsigned long long)(unsigned short)v); }
  vp_ostream& operator<<(unsigned short v) { return vp_num((long long)v, (unsigned long long)v); }
  vp_ostream& operator<<(int v) { return vp_num((long long)v, (unsigned long long)(unsigned int)v); }
  vp_ostream& operator<<(unsigned v) { return vp_num((long long)v, (unsigned long long)v); }
  vp_ostream& operator<<(long v) { return vp_num(v, (unsigned long long)v); }
  vp_ostream& operator<<(unsigned long v) { return m_hex ? vp_num(0, v) : *this << std::to_string(v); }
  vp_ostream& operator<<(long long v) { return vp_num(v, (unsigned long long)v); }
  vp_ostream& operator<<(unsigned long long v) { return m_hex ? vp_num(0, v) : *this << std::to_string(v); }
  vp_ostream& operator<<(double v) { return *this << std::to_string((long)v); }
  vp_ostream& operator<<(ios_base& (*f)(ios_base&))
  { if (f == std::boolalpha) m_alpha = true; if (f == std::noboolalpha) m_alpha = false; if (f == std::hex) m_hex = true; if (f == std::dec) m_hex = false; return *this; }
  vp_ostream& operator<<(vp_ostream& (*f)(vp_ostream&)) { return f(*this); }
  vp_ostream& vp_num(long long v, unsigned long long u)
  {
    if (!m_hex) return *this << std::to_string(v);
    std::string t; do t.insert(t.begin(), "0123456789abcdef"[u % 16]); while (u /= 16); return *this << t;
  }
  vp_ostream& vp_out(const char* s, size_t n)
  {
    for (; n < m_width; --m_width) vp_put(&m_fill, 1);
    m_width = 0; vp_put(s, n); return *this;
  }
  bool m_hex = false; size_t m_width = 0; char m_fill = ' ';
protected:
  bool m_alpha = false;
};
struct vp_setw_t { int n; };
struct vp_setprecision_t { int n; };
struct vp_setfill_t { char c; };
inline vp_ostream& operator<<(vp_ostream& o, vp_setw_t w) { o.m_width = (size_t)w.n; return o; }
inline vp_ostream& operator<<(vp_ostream& o, vp_setprecision_t) { return o; }
inline vp_ostream& operator<<(vp_ostream& o, vp_setfill_t f) { o.m_fill = f.c; return o; }
inline vp_setw_t setw(int n) { return {n}; }
inline vp_setprecision_t setprecision(int n) { return {n}; }
inline vp_setfill_t setfill(char c) { return {c}; }
inline vp_ostream& vp_endl(vp_ostream& o) { return o << '\n'; }
inline vp_ostream& vp_flush(vp_ostream& o) { return o; }
inline vp_ostream& operator<<(vp_ostream& o, std::thread::id i) { return o << (unsigned long)std::hash<std::thread::id>()(i); }
template <class T> class ostream_iterator<T, char, char_traits<char>>
{
public:
  using iterator_category = output_iterator_tag; using value_type = void; using difference_type = void; using pointer = void; using reference = void;
  ostream_iterator(vp_ostream& o, const char* delim = nullptr) : m_out(&o), m_delim(delim) {}
  ostream_iterator& operator=(const T& v) { *m_out << v; if (m_delim) *m_out << m_delim; return *this; }
  ostream_iterator& operator*() { return *this; }
  ostream_iterator& operator++() { return *this; }
  ostream_iterator& operator++(int) { return *this; }
private:
  vp_ostream* m_out; const char* m_delim;
};
class vp_istream
{
public:
  using char_type = char; using traits_type = char_traits<char>; using int_type = int; using pos_type = long; using off_type = long;
  // what is left to read, as seen through the stream's buffer
  struct vp_rest { vp_istream* s; long in_avail() const { return (long)(s->m_text.size() - s->m_pos); } int sgetc() const { return in_avail() > 0 ? (unsigned char)s->m_text[s->m_pos] : -1; } int sbumpc() const { return in_avail() > 0 ? (unsigned char)s->m_text[s->m_pos++] : -1; } vp_rest* operator->() { return this; } };
  vp_rest rdbuf() { return {this}; }
  int rdstate() const { return (m_eof ? (int)std::ios_base::eofbit : 0) | (m_fail ? (int)std::ios_base::failbit : 0); }
  long gcount() const { return m_count; }
  vp_istream& read(char* s, long n) { m_count = 0; while (m_count < n) { int c = get(); if (c < 0) break; s[m_count++] = (char)c; } return *this; }
  long readsome(char* s, long n) { m_count = 0; while (m_count < n && m_pos < m_text.size()) s[m_count++] = m_text[m_pos++]; return m_count; }
  vp_istream& seekg(long p) { m_eof = false; if (p >= 0 && (size_t)p <= m_text.size()) m_pos = (size_t)p; else m_fail = true; return *this; }
  vp_istream() {}
  explicit vp_istream(const std::string& s) : m_text(s) {}
  virtual ~vp_istream() {}
  void vp_set(const std::string& s) { m_text = s; m_pos = 0; m_fail = m_eof = false; }
  bool fail() const { return m_fail; }
  bool bad() const { return false; }
  bool eof() const { return m_eof; }
  bool good() const { return !m_fail && !m_eof; }
  explicit operator bool() const { return !m_fail; }
  bool operator!() const { return m_fail; }
  void clear() { m_fail = m_eof = false; }
  int peek() { if (m_pos >= m_text.size()) { m_eof = true; return -1; } return (unsigned char)m_text[m_pos]; }
  int get() { if (m_pos >= m_text.size()) { m_eof = m_fail = true; return -1; } return (unsigned char)m_text[m_pos++]; }
  vp_istream& ignore(long n = 1, int delim = -1) { for (long i = 0; i < n; i++) { if (m_pos >= m_text.size()) { m_eof = true; break; } if ((unsigned char)m_text[m_pos++] == delim) break; } return *this; }
  vp_istream& unget() { m_eof = false; if (m_pos) --m_pos; else m_fail = true; return *this; }
  vp_istream& putback(char c) { m_eof = false; if (m_pos && m_text[m_pos - 1] == c) --m_pos; else m_fail = true; return *this; }
  long tellg() const { return m_fail ? -1 : (long)m_pos; }
  void setstate(int) { m_fail = true; }
  vp_istream& get(char& c) { int x = get(); if (x >= 0) c = (char)x; return *this; }
  vp_istream& operator>>(vp_istream& (*f)(vp_istream&)) { return f(*this); }
  vp_istream& operator>>(ios_base& (*f)(ios_base&)) { if (f == std::boolalpha) m_alpha = true; if (f == std::noboolalpha) m_alpha = false; if (f == std::noskipws) m_skip = false; if (f == std::skipws) m_skip = true; return *this; }
  vp_istream& setf(std::ios_base::fmtflags f) { if (f & std::ios_base::boolalpha) m_alpha = true; if (f & std::ios_base::skipws) m_skip = true; return *this; }
  vp_istream& unsetf(std::ios_base::fmtflags f) { if (f & std::ios_base::boolalpha) m_alpha = false; if (f & std::ios_base::skipws) m_skip = false; return *this; }
  vp_istream& operator>>(char& c) { if (skip()) c = m_text[m_pos++]; return *this; }
  vp_istream& operator>>(signed char& c) { if (skip()) c = (signed char)m_text[m_pos++]; return *this; }
  vp_istream& operator>>(unsigned char& c) { if (skip()) c = (unsigned char)m_text[m_pos++]; return *this; }
  vp_istream& operator>>(std::string& s)
  { if (skip()) { s.clear(); while (m_pos < m_text.size() && !space(m_text[m_pos])) s += m_text[m_pos++]; if (m_pos >= m_text.size()) m_eof = true; } return *this; }
  vp_istream& operator>>(bool& b)
  {
    if (!skip()) return *this;
    if (m_alpha)
    {
      for (int k = 0; k < 2; k++)
      {
        const char* w = k ? "true" : "false"; size_t n = k ? 4 : 5;
        if (m_text.size() - m_pos >= n && m_text.compare(m_pos, n, w) == 0) { m_pos += n; b = k != 0; return *this; }
      }
      b = false; m_fail = true;
      if (m_text.size() - m_pos < 5) m_eof = true;
      return *this;
    }
    long v = 0; integer(v); if (!m_fail) { b = v != 0; if (v != 0 && v != 1) { b = true; m_fail = true; } } else b = false;
    return *this;
  }
#define VP_IN(T) vp_istream& operator>>(T& v) { if (skip()) integer(v); return *this; }
  VP_IN(short) VP_IN(unsigned short) VP_IN(int) VP_IN(unsigned) VP_IN(long) VP_IN(unsigned long) VP_IN(long long) VP_IN(unsigned long long)
#undef VP_IN
  vp_istream& operator>>(double& d) { if (skip()) real(d); return *this; }
  vp_istream& operator>>(float& f) { double d = 0; if (skip()) { real(d); f = (float)d; } return *this; }
  vp_istream& vp_line(std::string& s, char delim)
  {
    vp_istream& in = *this;
    s.clear();
    if (in.m_fail || in.m_eof || in.m_pos >= in.m_text.size()) { in.m_eof = in.m_fail = true; return in; }
    while (in.m_pos < in.m_text.size() && in.m_text[in.m_pos] != delim) s += in.m_text[in.m_pos++];
    if (in.m_pos < in.m_text.size()) in.m_pos++; else in.m_eof = true;
    return in;
  }
protected:
  static bool space(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
  bool skip()
  {
    if (m_fail || m_eof) { m_fail = true; return false; }
    while (m_skip && m_pos < m_text.size() && space(m_text[m_pos])) m_pos++;
    if (m_pos >= m_text.size()) { m_eof = m_fail = true; return false; }
    return true;
  }
  // as num_get: decimal digits with an optional sign; out of range gives the nearest value and failure; "-n" into an unsigned wraps
  template <class T> void integer(T& out)
  {
    using U = std::make_unsigned_t<T>;
    bool neg = false, over = false, any = false; unsigned __int128 v = 0;
    if (m_pos < m_text.size() && (m_text[m_pos] == '-' || m_text[m_pos] == '+')) neg = m_text[m_pos++] == '-';
    while (m_pos < m_text.size() && m_text[m_pos] >= '0' && m_text[m_pos] <= '9')
    { any = true; if (v > ((unsigned __int128)1 << 80)) over = true; else v = v * 10 + (unsigned)(m_text[m_pos] - '0'); m_pos++; }
    if (m_pos >= m_text.size()) m_eof = true;
    if (!any) { out = 0; m_fail = true; return; }
    if (std::is_signed_v<T>)
    {
      unsigned __int128 lim = ((unsigned __int128)1 << (sizeof(T) * 8 - 1)) - (neg ? 0 : 1);
      if (over || v > lim) { m_fail = true; out = neg ? (T)((U)1 << (sizeof(T) * 8 - 1)) : (T)lim; return; }
      out = neg ? (T)(U)(0 - (U)v) : (T)(U)v; return;
    }
    unsigned __int128 lim = ((unsigned __int128)1 << (sizeof(T) * 8)) - 1;
    if (over || v > lim) { m_fail = true; out = (T)lim; return; }
    out = neg ? (T)(0 - (U)v) : (T)(U)v;
  }
  void real(double& d)
  {
    bool neg = false, any = false; unsigned long m = 0; int e10 = 0;
    if (m_pos < m_text.size() && (m_text[m_pos] == '-' || m_text[m_pos] == '+')) neg = m_text[m_pos++] == '-';
    while (m_pos < m_text.size() && m_text[m_pos] >= '0' && m_text[m_pos] <= '9') { any = true; m = m * 10 + (unsigned)(m_text[m_pos++] - '0'); }
    if (m_pos < m_text.size() && m_text[m_pos] == '.')
    { m_pos++; while (m_pos < m_text.size() && m_text[m_pos] >= '0' && m_text[m_pos] <= '9') { any = true; m = m * 10 + (unsigned)(m_text[m_pos++] - '0'); e10--; } }
    if (any && m_pos < m_text.size() && (m_text[m_pos] == 'e' || m_text[m_pos] == 'E'))
    {
      m_pos++; bool en = false; int e = 0; bool ed = false;
      if (m_pos < m_text.size() && (m_text[m_pos] == '-' || m_text[m_pos] == '+')) en = m_text[m_pos++] == '-';
      while (m_pos < m_text.size() && m_text[m_pos] >= '0' && m_text[m_pos] <= '9') { ed = true; if (e < 1000) e = e * 10 + (m_text[m_pos] - '0'); m_pos++; }
      if (!ed) any = false;
      e10 += en ? -e : e;
    }
    if (m_pos >= m_text.size()) m_eof = true;
    if (!any) { d = 0; m_fail = true; return; }
    double r = (double)m;
    for (; e10 < 0 && r != 0; e10++) r /= 10;
    for (; e10 > 0 && r != 0; e10--) r *= 10;
    if (r > 1.7976931348623157e308) { r = 1.7976931348623157e308; m_fail = true; }
    d = neg ? -r : r;
  }
  std::string m_text; size_t m_pos = 0; bool m_fail = false, m_eof = false, m_alpha = false, m_skip = true; long m_count = 0;
};
inline vp_istream& getline(vp_istream& in, std::string& s, char delim) { return in.vp_line(s, delim); }
inline vp_istream& getline(vp_istream& in, std::string& s) { return in.vp_line(s, '\n'); }
inline vp_istream& ws(vp_istream& in) { while (in.good() && in.peek() >= 0) { int c = in.peek(); if (c == ' ' || (c >= '\t' && c <= '\r')) in.get(); else break; } return in; }
template <class T> class istream_iterator<T, char, char_traits<char>, ptrdiff_t>
{
public:
  using iterator_category = input_iterator_tag; using value_type = T; using difference_type = ptrdiff_t; using pointer = const T*; using reference = const T&;
  istream_iterator() {}
  istream_iterator(vp_istream& i) : m_in(&i) { vp_next(); }
  const T& operator*() const { return m_v; }
  const T* operator->() const { return &m_v; }
  istream_iterator& operator++() { vp_next(); return *this; }
  istream_iterator operator++(int) { auto o = *this; vp_next(); return o; }
  bool operator==(const istream_iterator& o) const { return m_in == o.m_in; }
  bool operator!=(const istream_iterator& o) const { return m_in != o.m_in; }
private:
  void vp_next() { if (m_in && !(*m_in >> m_v)) m_in = nullptr; }
  vp_istream* m_in = nullptr; T m_v{};
};
class vp_istreambuf_iterator
{
public:
  using iterator_category = input_iterator_tag; using value_type = char; using difference_type = ptrdiff_t; using pointer = const char*; using reference = char;
  vp_istreambuf_iterator() {}
  vp_istreambuf_iterator(vp_istream& i) : m_in(&i) {}
  vp_istreambuf_iterator(vp_istream::vp_rest r) : m_in(r.s) {}
  char operator*() const { return (char)m_in->rdbuf().sgetc(); }
  vp_istreambuf_iterator& operator++() { m_in->rdbuf().sbumpc(); return *this; }
  vp_istreambuf_iterator operator++(int) { auto o = *this; m_in->rdbuf().sbumpc(); return o; }
  bool vp_end() const { return !m_in || m_in->rdbuf().in_avail() <= 0; }
  bool operator==(const vp_istreambuf_iterator& o) const { return vp_end() == o.vp_end(); }
  bool operator!=(const vp_istreambuf_iterator& o) const { return vp_end() != o.vp_end(); }
  bool equal(const vp_istreambuf_iterator& o) const { return *this == o; }
private:
  vp_istream* m_in = nullptr;
};
template <class C, class T = char_traits<C>> using vp_istreambuf_iterator_t = vp_istreambuf_iterator;
class vp_ostringstream : public vp_ostream
{
public:
  vp_ostringstream() {}
  explicit vp_ostringstream(const std::string& s) : m_buf(s) {}
  explicit vp_ostringstream(std::ios_base::openmode) {}
  vp_ostringstream(const std::string& s, std::ios_base::openmode m) : m_buf((m & (std::ios_base::ate | std::ios_base::app)) ? s : std::string()) {}
  void vp_put(const char* s, size_t n) override { m_buf.append(s, n); }
  std::string str() const { return m_buf; }
  void str(const std::string& s) { m_buf = s; }
private:
  std::string m_buf;
};
class vp_istringstream : public vp_istream
{
public:
  vp_istringstream() {}
  explicit vp_istringstream(const std::string& s) : vp_istream(s) {}
  vp_istringstream(const std::string& s, std::ios_base::openmode) : vp_istream(s) {}
  std::string str() const { return m_text; }
  void str(const std::string& s) { vp_set(s); }
};
class vp_stringstream : public vp_ostream, public vp_istream
{
public:
  vp_stringstream() {}
  explicit vp_stringstream(const std::string& s) : vp_istream(s) {}
  explicit vp_stringstream(int) {}
  void vp_put(const char* s, size_t n) override { m_text.append(s, n); }
  std::string str() const { return m_text; }
  void str(const std::string& s) { vp_set(s); }
  using vp_istream::operator>>;
  using vp_ostream::operator<<;
  using vp_istream::char_type; using vp_istream::traits_type; using vp_istream::int_type; using vp_istream::bad; using vp_istream::eof; using vp_istream::clear; using vp_istream::setf; using vp_istream::unsetf;
  explicit operator bool() const { return !m_fail; }
  bool operator!() const { return m_fail; }
  bool fail() const { return m_fail; }
  bool good() const { return !m_fail && !m_eof; }
};
class vp_ifstream : public vp_istream
{
public:
  vp_ifstream() {}
  explicit vp_ifstream(const std::string& name) { open(name); }
  explicit vp_ifstream(const char* name) { open(name); }
  void open(const std::string& name) { m_open = vp_file_exists && vp_file_exists(name.c_str()); if (!m_open) m_fail = true; }
  bool is_open() const { return m_open; }
  void close() { m_open = false; }
private:
  bool m_open = false;
};
class vp_cout_t : public vp_ostream
{
public:
  void vp_put(const char* s, size_t n) override { m_buf.append(s, n); }
  std::string m_buf;
};
inline vp_cout_t vp_cout;
inline vp_cout_t vp_cerr;
inline vp_cout_t vp_clog;
inline vp_istream vp_cin;
}
#define ostream vp_ostream
#define istreambuf_iterator vp_istreambuf_iterator_t
#define istream vp_istream
#define ostringstream vp_ostringstream
#define stringstream vp_stringstream
#define istringstream vp_istringstream
#define ifstream vp_ifstream
#define cout vp_cout
#define cerr vp_cerr
#define clog vp_clog
#define flush vp_flush
#define cin vp_cin
#define endl vp_endl
#endif
