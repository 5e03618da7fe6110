// C18: language codes of the media header
#include "common.hpp"
#include "shiguredo/mp4/box/mdhd.hpp"
using namespace shiguredo::mp4;
static size_t at(uint8_t v) { return v == 1 ? 4 + 8 + 8 + 4 + 8 : 4 + 4 + 4 + 4 + 4; }
// letters given to a header, written, parsed, written
ENTRY h_letters() {
  std::array<uint8_t, 3> l;
  sym_bytes(l.data(), 3, "lang");
  for (auto c : l) sym_assume((c >= 'a') & (c <= 'z'));
  uint8_t v = (uint8_t)sym_pick(0, 1, "v");
  bool pad = sym<uint8_t>("pad") & 1;
  box::Mdhd b({.version = v, .creation_time = sym<uint32_t>("t"), .modification_time = 0, .timescale = sym<uint32_t>("ts"), .duration = sym<uint32_t>("d"), .pad = pad, .language = l});
  std::stringstream s1;
  if (throws([&] { b.writeData(s1); })) return sym_fail("header can be written");
  std::string p = s1.str();
  obs_str(p);
  uint64_t want = (uint64_t)pad << 15 | (uint64_t)(l[0] - 0x60) << 10 | (uint64_t)(l[1] - 0x60) << 5 | (uint64_t)(l[2] - 0x60);
  sym_assert(p.size() == at(v) + 4, "payload length");
  sym_assert(be(p, at(v), 2) == want, "packed letters");
  auto back = box::decode_language((uint16_t)(be(p, at(v), 2) & 0x7FFF));
  sym_assert(sym_eq(back.data(), l.data(), 3), "the same code");
  auto enc = box::encode_language(l);
  sym_assert(enc == (want & 0x7FFF), "packing function");
  box::Mdhd c;
  std::stringstream s2(p), s3;
  if (throws([&] { c.readData(s2); c.writeData(s3); })) return sym_fail("own payload is accepted");
  sym_assert(same(s3.str(), p), "the same header again");
  sym_reach("end");
}
// every packed value of a parsed header
ENTRY h_packed() {
  std::string p = sym_str(36, "payload");
  uint8_t v = (uint8_t)sym_pick(0, 1, "v");
  p[0] = (char)v;
  p.resize(at(v) + 4);
  box::Mdhd c;
  std::stringstream s2(p), s3;
  if (throws([&] { c.readData(s2); })) return sym_fail("payload is accepted");
  if (throws([&] { c.writeData(s3); })) return sym_fail("parsed header can be written");
  std::string q = s3.str();
  sym_assert(q.size() == p.size() && be(q, at(v), 2) == be(p, at(v), 2), "packed value unchanged");
  sym_assert(same(q, p), "the rest unchanged");
  uint16_t e = sym<uint16_t>("e") & 0x7FFF;
  sym_assert(box::encode_language(box::decode_language(e)) == e, "every 15-bit value");
  sym_reach("end");
}
