// C04: variable-length integers
#include "common.hpp"
#include "shiguredo/mp4/bitio/bitio.hpp"
using namespace shiguredo::mp4;
template <class T>
void rt() {
  constexpr int N = sizeof(T);
  T v = sym<T>("v");
  sym_assume(((uint64_t)v >> (7 * N)) == 0);
  std::stringstream ss;
  bitio::Writer w(ss);
  uint64_t k = bitio::write_uvarint<T>(&w, v);
  auto b = ss.str();
  sym_assert(b.size() == N, "as many bytes as the type is wide");
  sym_assert(k == N * 8, "bits reported");
  sym_assert(bitio::uvarint_size<T>(v) == N, "announced size");
  for (int i = 0; i < N; i++) sym_assert(((uint8_t)b[i] >> 7) == (i + 1 < N), "continuation bits");
  for (int i = 0; i < N; i++) sym_assert(((uint8_t)b[i] & 0x7f) == ((uint64_t)v >> (7 * (N - 1 - i)) & 0x7f), "payload bits");
  ss << "rest";
  bitio::Reader r(ss);
  T x = 0;
  sym_assert(bitio::read_uvarint<T>(&r, &x) == N * 8, "bits consumed");
  sym_assert(x == v, "read back");
  obs(x); obs_str(b);
}
// every encoding of at most the type's width: consumed up to the first byte without continuation bit
template <class T>
void any() {
  constexpr size_t N = sizeof(T);
  std::string in = sym_str(N, "in");
  std::stringstream ss(in);
  bitio::Reader r(ss);
  T x = 0;
  size_t len = 0;
  for (size_t i = 0; i < N; i++)
    if (!((uint8_t)in[i] & 0x80)) { len = i + 1; break; }
  uint64_t e = 0;
  for (size_t i = 0; i < len; i++) e = e << 7 | ((uint8_t)in[i] & 0x7f);
  uint64_t bits = 0;
  bool t = throws([&] { bits = bitio::read_uvarint<T>(&r, &x); });
  sym_assert(t == (len == 0), "unterminated refused, others accepted");
  if (!t) {
    sym_assert(bits == len * 8, "bits reported");
    sym_assert(ss.tellg() == (std::streampos)len, "consumed up to the first byte without continuation bit");
    sym_assert(x == (T)e, "value");
    obs(x);
    sym_reach("ok");
  } else sym_reach("cut");
}
ENTRY h_rt() {
  switch (sym_param(0)) {
    case 1: rt<uint8_t>(); break;
    case 2: rt<uint16_t>(); break;
    case 4: rt<uint32_t>(); break;
    case 8: rt<uint64_t>(); break;
  }
  sym_reach("end");
}
ENTRY h_any() {
  switch (sym_param(0)) {
    case 1: any<uint8_t>(); break;
    case 2: any<uint16_t>(); break;
    case 4: any<uint32_t>(); break;
    case 8: any<uint64_t>(); break;
  }
  sym_reach("end");
}
