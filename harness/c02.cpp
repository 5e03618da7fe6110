// C02: big-endian conversions
#include "common.hpp"
#include "shiguredo/mp4/endian/endian.hpp"
using namespace shiguredo::mp4;
ENTRY h_u32() {
  uint32_t v = sym<uint32_t>("v");
  auto a = endian::uint32_to_be(v);
  for (int i = 0; i < 4; i++) sym_assert(a[i] == (uint8_t)(v >> (24 - 8 * i)), "most significant byte first");
  sym_assert(endian::be_to_uint32(a) == v, "array inverse");
  sym_assert(endian::be_to_uint32(a[0], a[1], a[2], a[3]) == v, "bytes inverse");
  std::array<uint8_t, 4> b;
  sym_bytes(b.data(), 4, "b");
  uint32_t w = endian::be_to_uint32(b);
  sym_assert(w == endian::be_to_uint32(b[0], b[1], b[2], b[3]), "overloads agree");
  sym_assert(endian::uint32_to_be(w) == b, "array round trip");
  obs(w); obs(a);
  sym_reach("end");
}
ENTRY h_u64() {
  uint64_t v = sym<uint64_t>("v");
  auto a = endian::uint64_to_be(v);
  for (int i = 0; i < 8; i++) sym_assert(a[i] == (uint8_t)(v >> (56 - 8 * i)), "most significant byte first");
  sym_assert(endian::be_to_uint64(a) == v, "array inverse");
  sym_assert(endian::be_to_uint64(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]) == v, "bytes inverse");
  std::array<uint8_t, 8> b;
  sym_bytes(b.data(), 8, "b");
  uint64_t w = endian::be_to_uint64(b);
  sym_assert(w == endian::be_to_uint64(b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7]), "overloads agree");
  sym_assert(endian::uint64_to_be(w) == b, "array round trip");
  obs(w); obs(a);
  sym_reach("end");
}
