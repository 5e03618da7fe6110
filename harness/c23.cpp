// C23: a payload that was cut off is refused (or, where the rest is data to the end, is exactly what was read)
#include "boxmake.hpp"
using namespace shiguredo::mp4;
template <class B>
void cut(size_t n, unsigned v, int open) {
  B b = mk::Mk<B>::make(n, v);
  mk::dress(b);
  std::stringstream s1;
  if (throws([&] { b.writeData(s1); })) return sym_fail("representable box can be written");
  std::string p = s1.str();
  if (p.empty()) return;
  size_t k = sym_pick(0, p.size() - 1, "cut");
  std::string q = p.substr(0, k);
  obs<uint64_t>(k);
  B c;
  mk::like(c, b, v);
  std::stringstream s2(q), s3;
  uint64_t r = 0;
  bool t = throws([&] { r = c.readData(s2); });
  if (!open) {
    sym_assert(t, "a cut payload is refused");
    sym_reach("cut");
    return;
  }
  sym_reach("cut");
  if (t) return;
  // open 1: data up to the end; 2: an optional tail that is taken as missing when there are too few bytes for it
  sym_assert(r == k * 8, "what was read was there");
  if (throws([&] { c.writeData(s3); })) return sym_fail("parsed box can be written");
  std::string o = s3.str();
  if (open == 2) {
    sym_assert(o.size() + 3 >= k && o.size() <= k && same(q.substr(0, o.size()), o), "exactly what was there");
    return;
  }
  // at most the ends of two cut strings are supplied
  sym_assert(o.size() <= k + 2 && o.size() >= k, "no fields beyond the payload");
  // open 3: a name that was cut may be split to leave room for the end of the location
  if (open == 3) return;
  sym_assert(same(o.substr(0, k), q) && (o.size() <= k || o[k] == 0) && (o.size() <= k + 1 || o[k + 1] == 0),
             "exactly what was there, and the ends of the cut strings");
}
ENTRY h_cut() {
  size_t n = sym_param(1);
  unsigned v = (unsigned)sym_param(2);
  int open = (int)sym_param(3);
  switch (sym_param(0)) {
#define X(i, B) case i: cut<box::B>(n, v, open); break;
    BOXES(X)
#undef X
  }
  sym_reach("end");
}
