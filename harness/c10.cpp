// C10: box headers in all three size forms
#include <limits>
#include "streams.hpp"
#include "shiguredo/mp4/box_header.hpp"
using namespace shiguredo::mp4;
typedef unsigned __int128 u128;
static const uint64_t FAR = (uint64_t)1 << 60;
static std::array<uint8_t, 4> any4() { std::array<uint8_t, 4> t; sym_bytes(t.data(), 4, "type"); return t; }
static bool same4(std::array<uint8_t, 4> a, std::array<uint8_t, 4> b) { return sym_eq(a.data(), b.data(), 4); }
static BoxHeader* get(HugeBuf& buf, uint64_t off) {
  std::istream is(&buf);
  is.seekg((std::streamoff)off, std::ios_base::beg);
  return read_box_header(is);
}
// write a header, read it back: form 0 short, 1 long, 2 to the end of the file
ENTRY h_rt() {
  uint64_t form = sym_param(0);
  auto type = any4();
  uint64_t off = sym_range(0, FAR, "offset"), size = sym_range(0, FAR, "size"), hs = form == 1 ? 16 : 8;
  if (form == 0) sym_assume((size >= 8) & (size <= 0xFFFFFFFF));
  if (form == 1) sym_assume(size >= 16);
  if (form == 2) sym_assume(size >= 8);
  BoxHeader h({.offset = off, .size = size, .header_size = hs, .type = BoxType(type), .extend_to_eof = form == 2});
  uint64_t payload = h.getDataSize();
  sym_assert(payload == size - hs, "payload is size minus header");
  std::string pad = sym_str(20, "old");
  HugeBuf buf(off, pad, off + 20);
  std::ostream os(&buf);
  uint64_t r = h.write(os);
  obs(r); obs_str(buf.win);
  uint64_t whs = form == 1 ? 16 : 8;
  sym_assert(h.getHeaderSize() == whs, "header size written");
  sym_assert(h.getDataSize() == payload, "payload kept");
  sym_assert(h.getSize() == payload + whs && h.getOffset() == off, "size and offset");
  sym_assert(!buf.stray && same(buf.win.substr(whs), pad.substr(whs)), "only the header is written");
  sym_assert(buf.pos == off + whs, "stream stands behind the header");
  if (form == 0) sym_assert(be(buf.win, 0, 4) == size, "32-bit size");
  if (whs == 16) sym_assert(be(buf.win, 0, 4) == 1 && be(buf.win, 8, 8) == payload + 16, "64-bit size");
  if (form == 2) sym_assert(be(buf.win, 0, 4) == 0, "open size");
  sym_assert(sym_eq(buf.win.data() + 4, type.data(), 4), "type bytes");
  // read back; the file goes on for some bytes
  buf.end = form == 2 ? off + size : off + whs + sym_range(0, FAR, "tail");
  BoxHeader* g = nullptr;
  if (throws([&] { g = get(buf, off); })) return sym_fail("written header is read back");
  sym_assert(g->getOffset() == off, "same offset");
  sym_assert(g->getSize() == h.getSize(), "same size");
  sym_assert(g->getHeaderSize() == whs, "same header size");
  sym_assert(g->getDataSize() == payload, "same payload size");
  sym_assert(same4(g->getType().getData(), type), "same type");
  // seeking goes to the payload and to the end of the box
  std::istream is(&buf);
  g->seekToData(is);
  sym_assert(buf.pos == off + whs, "seekToData");
  g->seekToEnd(is);
  sym_assert(buf.pos == off + g->getSize(), "seekToEnd");
  // and is written back in the same form
  HugeBuf again(off, pad, off + 20);
  std::ostream os2(&again);
  g->write(os2);
  sym_assert(same(again.win, buf.win), "written back in the same form");
  delete g;
  sym_reach("end");
}
// a short header whose size does not fit it grows to the 64-bit form
ENTRY h_grow() {
  auto type = any4();
  uint64_t off = sym_range(0, FAR, "offset"), size = sym_range(0x100000000, FAR, "size");
  BoxHeader h({.offset = off, .size = size, .header_size = 8, .type = BoxType(type)});
  std::string pad = sym_str(20, "old");
  HugeBuf buf(off, pad, off + 20);
  std::ostream os(&buf);
  h.write(os);
  obs_str(buf.win);
  sym_assert(h.getHeaderSize() == 16 && h.getDataSize() == size - 8 && h.getSize() == size + 8 && h.getOffset() == off, "grown header keeps the payload");
  sym_assert(!buf.stray && buf.pos == off + 16 && same(buf.win.substr(16), pad.substr(16)), "only the header is written");
  sym_assert(be(buf.win, 0, 4) == 1 && sym_eq(buf.win.data() + 4, type.data(), 4), "64-bit form and type bytes");
  sym_reach("end");
  sym_assert(be(buf.win, 8, 8) == size + 8, "a grown header states its grown size");
}
// any bytes at any place of a file of any length
ENTRY h_any() {
  uint64_t off = sym_range(0, FAR, "offset"), len = sym_range(0, 40, "left");
  std::string w = sym_str(16, "in");
  HugeBuf buf(off, w, off + len);
  int64_t live = sym_live_heap();
  BoxHeader* g = nullptr;
  bool t = throws([&] { g = get(buf, off); });
  uint64_t s32 = be(w, 0, 4);
  bool enough = len >= 8 && (s32 != 1 || len >= 16);
  sym_assert(t == !enough, "refused exactly when the stream is too short for the header");
  if (!t) {
    uint64_t hs = s32 == 1 ? 16 : 8, size = s32 == 0 ? len : s32 == 1 ? be(w, 8, 8) : s32;
    obs(g->getSize());
    sym_assert(g->getOffset() == off && g->getHeaderSize() == hs && g->getSize() == size, "decoded size");
    sym_assert(g->getDataSize() == size - hs, "payload is size minus header");
    auto ty = g->getType().getData();
    sym_assert(sym_eq(ty.data(), w.data() + 4, 4), "decoded type");
    // what was read is written back as it was (a size form is not changed)
    if (hs == 8 ? (s32 == 0 || s32 >= 8) : size >= 16) {
      HugeBuf out(off, w, off + 16);
      std::ostream os(&out);
      g->write(os);
      sym_assert(same(out.win, w), "written back as it was");
    }
    delete g;
    sym_reach("read");
  } else {
    sym_reach("short");
  }
  sym_assert(sym_live_heap() == live, "nothing leaks");
  sym_reach("end");
}
// choosing the payload size picks the smallest form that can hold it, whatever the header was before
ENTRY h_choose() {
  uint64_t d = sym_range(0, FAR, "payload"), off = sym_range(0, FAR, "offset");
  auto type = any4();
  BoxHeader h({.offset = sym<uint64_t>("o"), .size = sym<uint64_t>("s"), .header_size = (sym<uint8_t>("h") & 1) ? 16ull : 8ull, .type = BoxType(type)});
  h.setOffsetAndDataSize(off, d);
  uint64_t hs = d + 8 <= 0xFFFFFFFF ? 8 : 16;
  obs(h.getSize());
  sym_assert(h.getHeaderSize() == hs, "smallest form");
  sym_assert(h.getSize() == d + hs && h.getDataSize() == d && h.getOffset() == off, "sizes add up");
  HugeBuf buf(off, std::string(20, 'x'), off + 20);
  std::ostream os(&buf);
  uint64_t r = h.write(os);
  sym_assert(r == d + hs && h.getSize() == d + hs && h.getHeaderSize() == hs, "writing does not change the form");
  buf.end = off + d + hs;
  BoxHeader* g = nullptr;
  if (throws([&] { g = get(buf, off); })) return sym_fail("written header is read back");
  sym_assert(g->getSize() == d + hs && g->getHeaderSize() == hs && g->getOffset() == off && g->getDataSize() == d, "same header");
  sym_assert(same4(g->getType().getData(), type), "same type");
  delete g;
  sym_reach("end");
}
