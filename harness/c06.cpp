// C06: announced size, reported bits and written bytes are one number; header + payload for a whole box
#include "boxmake.hpp"
using namespace shiguredo::mp4;
template <class B>
void size(size_t n, unsigned v) {
  B b = mk::Mk<B>::make(n, v);
  mk::dress(b);
  uint64_t d = b.getDataSize();
  std::stringstream s1;
  uint64_t w = 0;
  if (throws([&] { w = b.writeData(s1); })) return sym_fail("representable box can be written");
  std::string p = s1.str();
  obs_str(p);
  sym_assert(w == p.size() * 8, "reported bits are the bytes written");
  sym_assert(d == p.size(), "announced size is the bytes written");
  // as a whole box, laid out at some place of the file
  uint64_t at = sym_pick(0, 3, "at");
  b.setOffsetAndDataSize(at, b.getDataSize());
  uint64_t h = b.getHeaderSize();
  sym_assert(b.getSize() == h + d, "box size is header plus payload");
  std::stringstream s2;
  s2.write("\x11\x22\x33", (std::streamsize)at);
  if (throws([&] { w = b.write(s2); })) return sym_fail("laid out box can be written");
  std::string f = s2.str();
  sym_assert(f.size() == at + h + d, "whole box occupies header plus payload");
  sym_assert(h == 8 && be(f, at, 4) == h + d, "size field");
  auto t = b.getType().getData();
  sym_assert(sym_eq(f.data() + at + 4, t.data(), 4), "type field");
  sym_assert(sym_eq(f.data() + at + h, p.data(), p.size()), "payload follows the header");
  sym_assert(sym_eq(f.data(), "\x11\x22\x33", at), "nothing before the box is touched");
  sym_reach("done");
}
ENTRY h_size() {
  size_t n = sym_param(1);
  unsigned v = (unsigned)sym_param(2);
  switch (sym_param(0)) {
#define X(i, B) case i: size<box::B>(n, v); break;
    BOXES(X)
#undef X
  }
  sym_reach("end");
}
