// C01: bit-level integer I/O
#include "common.hpp"
#include <array>
#include "shiguredo/mp4/bitio/bitio.hpp"
#include "shiguredo/mp4/bitio/reader.hpp"
#include "shiguredo/mp4/bitio/writer.hpp"
using namespace shiguredo::mp4;
typedef unsigned __int128 u128;

// expected stream: fields concatenated, most significant bit first
struct Ref {
  std::vector<std::pair<uint64_t, int>> f;
  void add(uint64_t v, int w) { f.push_back({v, w}); }
  std::string bytes() const {
    std::string o;
    unsigned cur = 0;
    int n = 0;
    for (auto& p : f)
      for (int i = p.second - 1; i >= 0; i--) {
        cur = cur << 1 | (unsigned)(p.first >> i & 1);
        if (++n == 8) { o.push_back((char)cur); cur = 0; n = 0; }
      }
    return o;
  }
};
template <class T> uint64_t W(bitio::Writer* w, T v, uint64_t n) {
  if constexpr (std::is_signed_v<T>) return bitio::write_int<T>(w, v, n);
  else return bitio::write_uint<T>(w, v, n);
}
template <class T> uint64_t R(bitio::Reader* r, T* v, uint64_t n) {
  if constexpr (std::is_signed_v<T>) return bitio::read_int<T>(r, v, n);
  else return bitio::read_uint<T>(r, v, n);
}
template <class T> void fits(T v, uint64_t w) {
  if (w >= sizeof(T) * 8) return;
  if constexpr (std::is_signed_v<T>) sym_assume((v >= -((int64_t)1 << (w - 1))) & (v < ((int64_t)1 << (w - 1))));
  else sym_assume((v >> w) == 0);
}

// [prefix bits][value of width w][padding to a byte boundary], every w, every alignment
template <class T>
void one(uint64_t lo, uint64_t hi) {
  uint64_t w = sym_pick(lo, hi, "width");
  uint64_t p = sym_pick(0, 7, "align");
  uint64_t pad = (16 - (p + w) % 8) % 8;
  T v = sym<T>("v");
  fits<T>(v, w);
  uint8_t pre = sym<uint8_t>("pre"), post = sym<uint8_t>("post");
  std::stringstream ss;
  bitio::Writer wr(ss);
  uint64_t n = 0;
  Ref ref;
  if (p) { n += bitio::write_uint<uint8_t>(&wr, pre & ((1 << p) - 1), p); ref.add(pre, (int)p); }
  uint64_t k = W<T>(&wr, v, w);
  sym_assert(k == w, "written bits reported");
  ref.add((uint64_t)v, (int)w);
  if (pad) { n += bitio::write_uint<uint8_t>(&wr, post & ((1 << pad) - 1), pad); ref.add(post, (int)pad); }
  sym_assert(n == p + pad, "neighbour bits reported");
  auto s = ss.str();
  auto e = ref.bytes();
  sym_assert(s.size() == (p + w + pad) / 8, "stream length");
  sym_assert(same(s, e), "stream bits");
  bitio::Reader rd(ss);
  uint8_t a = 0, b = 0;
  T x = 0;
  if (p) sym_assert(bitio::read_uint<uint8_t>(&rd, &a, p) == p, "read bits reported");
  sym_assert(R<T>(&rd, &x, w) == w, "read bits reported");
  if (pad) sym_assert(bitio::read_uint<uint8_t>(&rd, &b, pad) == pad, "read bits reported");
  sym_assert(x == v, "value read back");
  sym_assert(a == (pre & ((1 << p) - 1)), "preceding field untouched");
  sym_assert(b == (post & ((1 << pad) - 1)), "following field untouched");
  obs(x); obs(a); obs(b); obs_str(s);
  sym_reach("end");
}
ENTRY h_u8() { one<uint8_t>(sym_param(0), sym_param(1)); }
ENTRY h_u16() { one<uint16_t>(sym_param(0), sym_param(1)); }
ENTRY h_u32() { one<uint32_t>(sym_param(0), sym_param(1)); }
ENTRY h_u64() { one<uint64_t>(sym_param(0), sym_param(1)); }
ENTRY h_i8() { one<int8_t>(sym_param(0), sym_param(1)); }
ENTRY h_i16() { one<int16_t>(sym_param(0), sym_param(1)); }
ENTRY h_i32() { one<int32_t>(sym_param(0), sym_param(1)); }
ENTRY h_i64() { one<int64_t>(sym_param(0), sym_param(1)); }

// default width, unsigned truncation: the low bits of any value go out
template <class T> void low(uint64_t w) {
  T v = sym<T>("v");
  std::stringstream ss;
  bitio::Writer wr(ss);
  uint64_t k = bitio::write_uint<T>(&wr, v, w);
  uint64_t pad = (8 - w % 8) % 8;
  if (pad) bitio::write_uint<uint8_t>(&wr, 0, pad);
  sym_assert(k == w, "written bits reported");
  Ref ref;
  ref.add((uint64_t)v, (int)w);
  ref.add(0, (int)pad);
  sym_assert(same(ss.str(), ref.bytes()), "exactly the low bits");
}
ENTRY h_low() {
  switch (sym_pick(0, 3, "type")) {
    case 0: low<uint8_t>(sym_pick(1, 8, "w")); break;
    case 1: low<uint16_t>(sym_pick(1, 16, "w")); break;
    case 2: low<uint32_t>(sym_pick(1, 32, "w")); break;
    case 3: low<uint64_t>(sym_pick(1, 64, "w")); break;
  }
  sym_reach("end");
}
// default widths
template <class T> void dflt() {
  T v = sym<T>("v"), x;
  std::stringstream ss;
  bitio::Writer wr(ss);
  uint64_t k;
  if constexpr (std::is_signed_v<T>) k = bitio::write_int<T>(&wr, v);
  else k = bitio::write_uint<T>(&wr, v);
  sym_assert(k == sizeof(T) * 8, "default width");
  sym_assert(ss.str().size() == sizeof(T), "default width bytes");
  bitio::Reader rd(ss);
  if constexpr (std::is_signed_v<T>) k = bitio::read_int<T>(&rd, &x);
  else k = bitio::read_uint<T>(&rd, &x);
  sym_assert(k == sizeof(T) * 8 && x == v, "default width read back");
  obs(x);
}
ENTRY h_default() {
  dflt<uint8_t>(); dflt<uint16_t>(); dflt<uint32_t>(); dflt<uint64_t>();
  dflt<int8_t>(); dflt<int16_t>(); dflt<int32_t>(); dflt<int64_t>();
  sym_reach("end");
}
// three consecutive fields of symbolic widths
ENTRY h_seq() {
  uint64_t m = sym_param(0);
  uint64_t w1 = sym_pick(1, m, "w1"), w2 = sym_pick(1, m, "w2");
  uint32_t a = sym<uint32_t>("a");
  int32_t b = sym<int32_t>("b");
  fits(a, w1);
  fits(b, w2);
  bool f = sym<uint8_t>("f") & 1;
  uint64_t pad = (8 - (w1 + w2 + 1) % 8) % 8;
  std::stringstream ss;
  bitio::Writer wr(ss);
  sym_assert(bitio::write_uint(&wr, a, w1) == w1, "bits");
  sym_assert(bitio::write_bool(&wr, f) == 1, "bool is one bit");
  sym_assert(bitio::write_int(&wr, b, w2) == w2, "bits");
  if (pad) bitio::write_uint<uint8_t>(&wr, 0, pad);
  Ref ref;
  ref.add(a, (int)w1); ref.add(f, 1); ref.add((uint64_t)(int64_t)b, (int)w2); ref.add(0, (int)pad);
  sym_assert(same(ss.str(), ref.bytes()), "stream bits");
  bitio::Reader rd(ss);
  uint32_t x; int32_t y; bool g;
  sym_assert(bitio::read_uint(&rd, &x, w1) == w1, "bits");
  sym_assert(bitio::read_bool(&rd, &g) == 1, "bool is one bit");
  sym_assert(bitio::read_int(&rd, &y, w2) == w2, "bits");
  sym_assert(x == a && y == b && g == f, "values read back");
  obs(x); obs(y); obs(g);
  sym_reach("end");
}
template <class T> void vecs(uint64_t n, uint64_t al) {
  std::vector<T> v(n), x;
  if (n) sym_bytes(v.data(), n * sizeof(T), "vec");
  std::array<uint8_t, 4> a, c;
  sym_bytes(a.data(), 4, "arr");
  std::stringstream ss;
  bitio::Writer wr(ss);
  Ref ref;
  if (al) { bitio::write_uint<uint8_t>(&wr, 0, al); ref.add(0, (int)al); }
  sym_assert(bitio::write_vector_uint<T>(&wr, v) == n * sizeof(T) * 8, "vector bits");
  sym_assert(bitio::write_array_uint8_4(&wr, a) == 32, "array bits");
  if (al) { bitio::write_uint<uint8_t>(&wr, 0, 8 - al); }
  for (auto e : v) ref.add((uint64_t)e, sizeof(T) * 8);
  for (auto e : a) ref.add(e, 8);
  if (al) ref.add(0, 8 - (int)al);
  sym_assert(same(ss.str(), ref.bytes()), "stream bits");
  bitio::Reader rd(ss);
  uint8_t z;
  if (al) bitio::read_uint<uint8_t>(&rd, &z, al);
  sym_assert(bitio::read_vector_uint<T>(&rd, n, &x) == n * sizeof(T) * 8, "vector bits");
  sym_assert(bitio::read_array_uint8_4(&rd, &c) == 32, "array bits");
  sym_assert(x.size() == n, "vector length");
  for (uint64_t i = 0; i < n; i++) sym_assert(x[i] == v[i], "vector elements");
  sym_assert(sym_eq(a.data(), c.data(), 4), "array elements");
}
ENTRY h_vec() {
  uint64_t n = sym_pick(0, sym_param(0), "n"), al = sym_pick(0, 7, "align");
  switch (sym_pick(0, 3, "type")) {
    case 0: vecs<uint8_t>(n, al); break;
    case 1: vecs<uint16_t>(n, al); break;
    case 2: vecs<uint32_t>(n, al); break;
    case 3: vecs<uint64_t>(n, al); break;
  }
  sym_reach("end");
}
ENTRY h_bools() {
  uint64_t n = sym_param(0);
  std::stringstream ss;
  bitio::Writer wr(ss);
  std::vector<uint8_t> b = sym_vec(n, "b");
  Ref ref;
  for (uint64_t i = 0; i < n; i++) { sym_assert(bitio::write_bool(&wr, (b[i] & 1) != 0) == 1, "bool is one bit"); ref.add(b[i] & 1, 1); }
  sym_assert(same(ss.str(), ref.bytes()), "bool bits");
  bitio::Reader rd(ss);
  for (uint64_t i = 0; i < n / 8 * 8; i++) {
    bool x;
    sym_assert(bitio::read_bool(&rd, &x) == 1, "bool is one bit");
    sym_assert(x == ((b[i] & 1) != 0), "bool read back");
  }
  sym_reach("end");
}
// reading: any bytes give the big-endian interpretation; zero width and reading past the end are refused
template <class T> void rd() {
  uint64_t w = sym_pick(1, sizeof(T) * 8, "w"), al = sym_pick(0, 7, "align");
  uint64_t nb = (w + al + 7) / 8;
  std::string s = sym_str(nb, "bytes");
  std::stringstream ss(s);
  bitio::Reader r(ss);
  uint8_t z;
  if (al) bitio::read_uint<uint8_t>(&r, &z, al);
  T x;
  sym_assert(R<T>(&r, &x, w) == w, "bits");
  u128 acc = 0;
  for (char c : s) acc = acc << 8 | (uint8_t)c;
  acc >>= nb * 8 - w - al;
  uint64_t val = (uint64_t)acc;
  if (w < 64) val &= ((uint64_t)1 << w) - 1;
  if (std::is_signed_v<T> && w < 64 && (val >> (w - 1) & 1)) val |= ~(uint64_t)0 << w;
  sym_assert(x == (T)val, "big-endian value");
  sym_assert(ss.tellg() == (std::streampos)nb, "bytes consumed");
  uint64_t left = nb * 8 - w - al;
  bool t = throws([&] { T y; R<T>(&r, &y, left + 1); });
  sym_assert(t, "past the end refused");
}
ENTRY h_read() {
  switch (sym_param(0)) {
    case 0: rd<uint8_t>(); break;
    case 1: rd<uint16_t>(); break;
    case 2: rd<uint32_t>(); break;
    case 3: rd<uint64_t>(); break;
    case 4: rd<int8_t>(); break;
    case 5: rd<int16_t>(); break;
    case 6: rd<int32_t>(); break;
    case 7: rd<int64_t>(); break;
  }
  sym_reach("end");
}
template <class T> void zero() {
  std::stringstream ss("abcdefgh");
  bitio::Reader r(ss);
  T x = 0;
  sym_assert(throws([&] { R<T>(&r, &x, 0); }), "zero width rejected");
  uint8_t y;
  bitio::read_uint<uint8_t>(&r, &y);
  sym_assert(y == 'a', "nothing consumed");
}
ENTRY h_zero() {
  zero<uint8_t>(); zero<uint16_t>(); zero<uint32_t>(); zero<uint64_t>();
  zero<int8_t>(); zero<int16_t>(); zero<int32_t>(); zero<int64_t>();
  sym_reach("end");
}
// byte-wise access: only at byte alignment, exact
ENTRY h_raw() {
  uint64_t n = sym_pick(0, 4, "n"), al = sym_pick(0, 7, "align");
  std::vector<uint8_t> d = sym_vec(n, "d");
  std::stringstream ss;
  bitio::Writer wr(ss);
  if (al) bitio::write_uint<uint8_t>(&wr, 0, al);
  bool t = throws([&] { sym_assert(wr.write(d) == (std::streamsize)n, "bytes reported"); });
  sym_assert(t == (al != 0), "write only at byte alignment");
  if (!al) sym_assert(same(ss.str(), std::string(d.begin(), d.end())), "bytes written");
  std::string in = sym_str(n + 1, "in");
  std::stringstream is(in);
  bitio::Reader r(is);
  uint8_t z;
  if (al) bitio::read_uint<uint8_t>(&r, &z, al);
  std::vector<uint8_t> o(n);
  t = throws([&] { sym_assert(r.read(&o) == (std::streamsize)n, "bytes reported"); });
  sym_assert(t == (al != 0), "read only at byte alignment");
  if (!al) sym_assert(sym_eq(o.data(), in.data(), n), "bytes read");
  sym_reach("end");
}
