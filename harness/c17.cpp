// C17: version and flags of every versioned box
#include "boxmake.hpp"
using namespace shiguredo::mp4;
// the operations in any order against a 24-bit word
template <class B>
void ops(B& b, int n) {
  uint32_t model = b.getFlags();
  sym_assert(model < (1u << 24), "initial flags are 24 bits");
  for (int i = 0; i < n; i++) {
    uint32_t f = sym<uint32_t>("arg");
    switch (sym_pick(0, 3, "op")) {
      case 0: b.setFlags(f); model = f & 0xFFFFFF; break;
      case 1: b.addFlag(f); model |= f & 0xFFFFFF; break;
      case 2: b.removeFlag(f); model &= ~f; break;
      case 3: { uint8_t v = sym<uint8_t>("ver"); b.setVersion(v); sym_assert(b.getVersion() == v, "version as set"); break; }
    }
    sym_assert(b.getFlags() == model, "flags as a set");
    uint32_t q = sym<uint32_t>("test");
    sym_assert(b.checkFlag(q) == ((model & q) != 0), "testing a flag");
  }
}
template <class B>
void one() {
  if constexpr (std::is_base_of_v<FullBox, B>) {
    {
      B b = mk::Mk<B>::make(0, 0);
      ops(b, (int)sym_param(1));
      Box* p = &b;
      ops(*p, 1);
    }
    // through the payload, every version and flag word
    if constexpr (!std::is_same_v<B, box::Meta>) {
      B b = mk::Mk<B>::make(0, 0);
      uint8_t v = sym<uint8_t>("v");
      uint32_t f = sym<uint32_t>("f") & 0xFFFFFF;
      b.setVersion(v);
      b.setFlags(f);
      std::stringstream ss;
      if (throws([&] { b.writeData(ss); })) return sym_fail("box can be written");
      std::string s = ss.str();
      sym_assert(s.size() >= 4 && be(s, 0, 1) == v && be(s, 1, 3) == f, "four bytes, version first");
      sym_assert(b.getVersion() == v && b.getFlags() == f, "writing changes nothing");
      B c;
      mk::like(c, b, 0);
      std::stringstream in(s);
      if (throws([&] { c.readData(in); })) return sym_fail("own payload is accepted");
      sym_assert(c.getVersion() == v && c.getFlags() == f, "version and flags survive");
    } else {
      // the meta box is written with its version and flags; reading it (in either of its two layouts) clears them
      B b;
      uint8_t v = sym<uint8_t>("v");
      uint32_t f = sym<uint32_t>("f") & 0xFFFFFF;
      b.setVersion(v);
      b.setFlags(f);
      std::stringstream ss;
      b.writeData(ss);
      std::string s = ss.str();
      sym_assert(s.size() == 4 && be(s, 0, 1) == v && be(s, 1, 3) == f, "four bytes, version first");
    }
    sym_reach("done");
  }
}
ENTRY h_box() {
  switch (sym_param(0)) {
#define X(i, B) case i: one<box::B>(); break;
    BOXES(X)
#undef X
  }
  sym_reach("end");
}
