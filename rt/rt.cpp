// Model of the parts of libstdc++/libfmt/libspdlog that exist only as machine code: compiled to IR and
// linked with /repo's sources for symbolic execution (never used natively).  Everything that libstdc++ defines
// in headers is the real code, instantiated here.
#include <cstdio>
#include <cstring>
#include <ctime>
#include <sstream>
#include <string>
#include <vector>
#include <map>
#include <locale>
#include <fmt/core.h>
#include <fmt/format.h>
#include <spdlog/spdlog.h>
#include "rt.h"

namespace std {
template class basic_streambuf<char>;
template class basic_ios<char>;
template class basic_ostream<char>;
template class basic_istream<char>;
template class basic_iostream<char>;
template class basic_stringbuf<char>;
template class basic_istringstream<char>;
template class basic_ostringstream<char>;
template class basic_stringstream<char>;
template class basic_string<char>;
template ostream& ostream::_M_insert(unsigned long);
template ostream& ostream::_M_insert(long);
template ostream& ostream::_M_insert(bool);
template ostream& ostream::_M_insert(double);
template ostream& endl(ostream&);
template ostream& flush(ostream&);
template ostream& __ostream_insert(ostream&, const char*, streamsize);

// ---- ios_base / locale
ios_base::ios_base() noexcept
    : _M_precision(), _M_width(), _M_flags(), _M_exception(), _M_streambuf_state(), _M_callbacks(0), _M_word_zero(),
      _M_word_size(_S_local_word_size), _M_word(_M_local_word), _M_ios_locale() {}
ios_base::~ios_base() {}
void ios_base::_M_init() throw() {
  _M_precision = 6;
  _M_width = 0;
  _M_flags = skipws | dec;
}
void ios_base::_M_call_callbacks(event) throw() {}
void ios_base::_M_dispose_callbacks() throw() {}
void ios_base::_M_move(ios_base& r) noexcept {
  _M_precision = r._M_precision; _M_width = r._M_width; _M_flags = r._M_flags; _M_exception = r._M_exception;
  _M_streambuf_state = r._M_streambuf_state;
}
void ios_base::_M_swap(ios_base&) noexcept {}
bool uncaught_exception() noexcept { return false; }
int uncaught_exceptions() noexcept { return 0; }
locale ios_base::imbue(const locale& l) throw() { return l; }
locale::locale() throw() : _M_impl(nullptr) {}
locale::locale(const locale& l) throw() : _M_impl(l._M_impl) {}
locale::~locale() throw() {}
const locale& locale::operator=(const locale& l) throw() { _M_impl = l._M_impl; return *this; }
bool locale::operator==(const locale&) const throw() { return true; }
}  // namespace std

extern "C" {
void rt_ios_library_init() asm("_ZSt21ios_base_library_initv");
void rt_ios_library_init() {}

static char fake_ctype[sizeof(std::ctype<char>)] __attribute__((aligned(16)));
const void* rt_use_ctype(const void*) asm("_ZSt15__try_use_facetISt5ctypeIcEEPKT_RKSt6locale");
const void* rt_use_ctype(const void*) { return fake_ctype; }
const void* rt_use_np(const void*) asm("_ZSt15__try_use_facetISt7num_putIcSt19ostreambuf_iteratorIcSt11char_traitsIcEEEEPKT_RKSt6locale");
const void* rt_use_np(const void*) { return nullptr; }
const void* rt_use_ng(const void*) asm("_ZSt15__try_use_facetISt7num_getIcSt19istreambuf_iteratorIcSt11char_traitsIcEEEEPKT_RKSt6locale");
const void* rt_use_ng(const void*) { return nullptr; }

// std::cout discards its output
char rt_cout[sizeof(std::ostream)] asm("_ZSt4cout") __attribute__((aligned(16)));
char rt_cerr[sizeof(std::ostream)] asm("_ZSt4cerr") __attribute__((aligned(16)));
}
struct NullBuf : std::streambuf {
  int_type overflow(int_type c) override { return c == -1 ? 0 : c; }
  std::streamsize xsputn(const char*, std::streamsize n) override { return n; }
};
static char nullbuf_mem[sizeof(NullBuf)] __attribute__((aligned(16)));
__attribute__((constructor(101))) static void rt_init() {
  auto* ct = reinterpret_cast<std::ctype<char>*>(fake_ctype);
  ct->_M_widen_ok = 1;
  for (int i = 0; i < 256; i++) ct->_M_widen[i] = (char)i;
  auto* nb = new (nullbuf_mem) NullBuf;
  new (rt_cout) std::ostream(nb);
  new (rt_cerr) std::ostream(nb);
}

// ---- red-black tree: plain binary search tree (balance is not observable)
namespace std {
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() {
  if (x->_M_right) {
    x = x->_M_right;
    while (x->_M_left) x = x->_M_left;
  } else {
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    if (x->_M_right != y) x = y;
  }
  return x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() {
  if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) x = x->_M_right;
  else if (x->_M_left) {
    _Rb_tree_node_base* y = x->_M_left;
    while (y->_M_right) y = y->_M_right;
    x = y;
  } else {
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_left) { x = y; y = y->_M_parent; }
    x = y;
  }
  return x;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
  if (left) {
    p->_M_left = x;
    if (p == &h) { h._M_parent = x; h._M_right = x; }
    else if (p == h._M_left) h._M_left = x;
  } else {
    p->_M_right = x;
    if (p == h._M_right) h._M_right = x;
  }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
  // unlink z from an unbalanced tree
  auto repl = [&](_Rb_tree_node_base* o, _Rb_tree_node_base* n) {
    if (h._M_parent == o) h._M_parent = n;
    else if (o->_M_parent->_M_left == o) o->_M_parent->_M_left = n;
    else o->_M_parent->_M_right = n;
    if (n) n->_M_parent = o->_M_parent;
  };
  if (!z->_M_left) repl(z, z->_M_right);
  else if (!z->_M_right) repl(z, z->_M_left);
  else {
    _Rb_tree_node_base* y = z->_M_right;
    while (y->_M_left) y = y->_M_left;
    if (y->_M_parent != z) { repl(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
    repl(z, y);
    y->_M_left = z->_M_left; y->_M_left->_M_parent = y;
  }
  if (!h._M_parent) { h._M_left = &h; h._M_right = &h; }
  else {
    _Rb_tree_node_base* m = h._M_parent;
    while (m->_M_left) m = m->_M_left;
    h._M_left = m;
    m = h._M_parent;
    while (m->_M_right) m = m->_M_right;
    h._M_right = m;
  }
  return z;
}
}  // namespace std

// unordered containers: a fixed growth policy
extern "C" {
size_t rt_hash_bytes(const void* p, size_t n, size_t) asm("_ZSt11_Hash_bytesPKvmm");
size_t rt_hash_bytes(const void* p, size_t n, size_t) {
  size_t h = 5381;
  for (size_t i = 0; i < n; i++) h = h * 33 + ((const unsigned char*)p)[i];
  return h;
}
struct RtPolicy { float mlf; size_t next; };
struct RtPair { bool a; size_t b; };
size_t rt_next_bkt(const RtPolicy*, size_t n) asm("_ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm");
size_t rt_next_bkt(const RtPolicy*, size_t n) { return n < 13 ? 13 : n * 2 + 1; }
RtPair rt_need_rehash(const RtPolicy*, size_t nb, size_t ne, size_t ni) asm("_ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm");
RtPair rt_need_rehash(const RtPolicy*, size_t nb, size_t ne, size_t ni) {
  if (ne + ni > nb) return {true, (ne + ni) * 2 + 13};
  return {false, 0};
}

// ---- C library
size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
void* rt_memchr(const void* s, int c, size_t n) asm("memchr");
void* rt_memchr(const void* s, int c, size_t n) {
  const unsigned char* p = (const unsigned char*)s;
  for (size_t i = 0; i < n; i++) if (p[i] == (unsigned char)c) return (void*)(p + i);
  return nullptr;
}
int strcmp(const char* a, const char* b) {
  while (*a && *a == *b) { a++; b++; }
  return (int)(unsigned char)*a - (int)(unsigned char)*b;
}
char* rt_strchr(const char* s, int c) asm("strchr");
char* rt_strchr(const char* s, int c) {
  for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return nullptr; }
}
int isprint(int c) { return (c >= 0x20) & (c < 0x7f); }
int pthread_mutex_lock(pthread_mutex_t*) noexcept { return 0; }
int pthread_mutex_unlock(pthread_mutex_t*) noexcept { return 0; }
void* malloc(size_t);
char* strdup(const char* s) noexcept {
  size_t n = strlen(s) + 1;
  char* r = (char*)malloc(n);
  for (size_t i = 0; i < n; i++) r[i] = s[i];
  return r;
}

// ---- filesystem::path keeps only its string
void rt_fsl0(void* p) asm("_ZNSt10filesystem7__cxx114path5_ListC1Ev");
void rt_fsl0(void* p) { *(void**)p = nullptr; }
void rt_fsl1(void* p, const void*) asm("_ZNSt10filesystem7__cxx114path5_ListC1ERKS2_");
void rt_fsl1(void* p, const void*) { *(void**)p = nullptr; }
void* rt_fsla(void* p, const void*) asm("_ZNSt10filesystem7__cxx114path5_ListaSERKS2_");
void* rt_fsla(void* p, const void*) { return p; }
void rt_fsd(const void*, void*) asm("_ZNKSt10filesystem7__cxx114path5_List13_Impl_deleterclEPNS2_5_ImplE");
void rt_fsd(const void*, void*) {}
void rt_fss(void* p) asm("_ZNSt10filesystem7__cxx114path14_M_split_cmptsEv");
void rt_fss(void* p) {}
}

// ---- fmt: text of messages is not modelled, except std::tm with strftime-style conversions (enabled by a harness)
static void two(std::string& o, int v) { o.push_back((char)('0' + v / 10)); o.push_back((char)('0' + v % 10)); }
static std::string fmt_tm(fmt::string_view f, const std::tm* t) {
  std::string o;
  const char* p = f.data();
  size_t n = f.size(), i = 0;
  auto date = [&] {
    int y = t->tm_year + 1900;
    two(o, y / 100); two(o, y % 100); o.push_back('-'); two(o, t->tm_mon + 1); o.push_back('-'); two(o, t->tm_mday);
  };
  auto tim = [&] { two(o, t->tm_hour); o.push_back(':'); two(o, t->tm_min); o.push_back(':'); two(o, t->tm_sec); };
  while (i < n) {
    char c = p[i++];
    if (c == '{' ) { if (i < n && p[i] == ':') i++; continue; }
    if (c == '}') continue;
    if (c != '%') { o.push_back(c); continue; }
    switch (p[i++]) {
      case 'F': date(); break;
      case 'T': tim(); break;
      case 'Y': two(o, (t->tm_year + 1900) / 100); two(o, (t->tm_year + 1900) % 100); break;
      case 'm': two(o, t->tm_mon + 1); break;
      case 'd': two(o, t->tm_mday); break;
      case 'H': two(o, t->tm_hour); break;
      case 'M': two(o, t->tm_min); break;
      case 'S': two(o, t->tm_sec); break;
      default: o.push_back('?');
    }
  }
  return o;
}
std::string rt_vformat(fmt::string_view f, fmt::format_args a) asm("_ZN3fmt2v97vformatB5cxx11ENS0_17basic_string_viewIcEENS0_17basic_format_argsINS0_20basic_format_contextINS0_8appenderEcEEEE");
// the subset "{}", "{N}", "{:[0][width][d|x|X|c|s]}" for integers, characters, booleans and strings, and std::tm
static void put_num(std::string& o, unsigned long long v, bool neg, char fill, size_t width, int base, char ten) {
  char d[24];
  size_t n = 0;
  do { unsigned q = (unsigned)(v % base); d[n++] = (char)(q < 10 ? '0' + q : ten + q - 10); v /= base; } while (v);
  size_t len = n + (neg ? 1 : 0);
  if (fill == ' ') for (size_t i = len; i < width; i++) o.push_back(' ');
  if (neg) o.push_back('-');
  if (fill == '0') for (size_t i = len; i < width; i++) o.push_back('0');
  while (n) o.push_back(d[--n]);
}
std::string rt_vformat(fmt::string_view f, fmt::format_args a) {
  std::string o;
  if (!rt_format_tm) return o;
  const char* p = f.data();
  size_t n = f.size(), i = 0;
  int next = 0;
  while (i < n) {
    char c = p[i++];
    if (c == '}') { i++; o.push_back('}'); continue; }
    if (c != '{') { o.push_back(c); continue; }
    if (i < n && p[i] == '{') { i++; o.push_back('{'); continue; }
    int idx = -1;
    while (i < n && p[i] >= '0' && p[i] <= '9') { idx = (idx < 0 ? 0 : idx * 10) + (p[i] - '0'); i++; }
    if (idx < 0) idx = next++;
    size_t sb = i;
    if (i < n && p[i] == ':') sb = ++i;
    while (i < n && p[i] != '}') i++;
    fmt::string_view spec(p + sb, i - sb);
    i++;
    auto arg = a.get(idx);
    if (arg.type_ == fmt::detail::type::custom_type) { o += fmt_tm(spec, (const std::tm*)arg.value_.custom.value); continue; }
    char fill = ' ', ten = 'a';
    size_t width = 0, k = 0;
    int base = 10;
    if (k < spec.size() && spec.data()[k] == '>') k++;
    if (k < spec.size() && spec.data()[k] == '0') { fill = '0'; k++; }
    while (k < spec.size() && spec.data()[k] >= '0' && spec.data()[k] <= '9') width = width * 10 + (spec.data()[k++] - '0');
    char t = k < spec.size() ? spec.data()[k] : 0;
    if (t == 'x' || t == 'X') { base = 16; ten = t == 'x' ? 'a' : 'A'; }
    long long sv = 0;
    unsigned long long uv = 0;
    bool is_signed = true;
    switch (arg.type_) {
      case fmt::detail::type::int_type: sv = arg.value_.int_value; break;
      case fmt::detail::type::long_long_type: sv = arg.value_.long_long_value; break;
      case fmt::detail::type::uint_type: uv = arg.value_.uint_value; is_signed = false; break;
      case fmt::detail::type::ulong_long_type: uv = arg.value_.ulong_long_value; is_signed = false; break;
      case fmt::detail::type::bool_type: o += arg.value_.bool_value ? "true" : "false"; continue;
      case fmt::detail::type::char_type: o.push_back(arg.value_.char_value); continue;
      case fmt::detail::type::cstring_type: o += arg.value_.string.data; continue;
      case fmt::detail::type::string_type: o.append(arg.value_.string.data, arg.value_.string.size); continue;
      default: o.push_back('?'); continue;
    }
    if (t == 'c') { o.push_back((char)(is_signed ? sv : (long long)uv)); continue; }
    bool neg = is_signed && sv < 0;
    put_num(o, is_signed ? (neg ? 0 - (unsigned long long)sv : (unsigned long long)sv) : uv, neg, fill, width, base, ten);
  }
  return o;
}
extern "C" size_t strftime(char* out, size_t cap, const char* f, const std::tm* t) noexcept {
  std::string s = fmt_tm(fmt::string_view(f, strlen(f)), t);
  if (s.size() + 1 > cap) return 0;
  for (size_t i = 0; i < s.size(); i++) out[i] = s[i];
  out[s.size()] = 0;
  return s.size();
}
std::string rt_toString(const void*) asm("__ovr__ZNK9shiguredo3mp47BoxType8toStringB5cxx11Ev");
std::string rt_toString(const void*) { return std::string("type"); }

// ---- spdlog: a logger that is off
namespace spdlog {
static char logger_mem[sizeof(logger)] __attribute__((aligned(16)));
logger* default_logger_raw() {
  auto* l = reinterpret_cast<logger*>(logger_mem);
  l->level_.store(level::off);
  return l;
}
namespace details {
bool backtracer::enabled() const { return false; }
}
}  // namespace spdlog
