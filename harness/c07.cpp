// C07: an accepted payload is accounted for exactly and has one stable meaning
#include "common.hpp"
#include "boxlist.hpp"
using namespace shiguredo::mp4;
template <class B>
void fuzz(size_t lo, size_t hi, bool uw = false) {
  size_t n = sym_pick(lo, hi, "n");
  std::string s = sym_str(n, "in");
  std::stringstream ss(s);
  BoxPrep prep{uw};
  B b;
  prep(b);
  uint64_t r = 0;
  try {
    r = b.readData(ss);
  } catch (const std::exception&) {
    sym_reach("refused");
    return;
  }
  sym_reach("accepted");
  int64_t at = (int64_t)ss.tellg();
  obs(r); obs(at);
  sym_assert(r <= n * 8, "reported bits within the payload");
  sym_assert(at >= 0 && r == (uint64_t)at * 8, "reported bits are the consumed bits");
  std::stringstream s1;
  bool t = throws([&] { b.writeData(s1); });
  sym_assert(!t, "accepted box can be serialised");
  if (t) return;
  std::string p1 = s1.str();
  obs_str(p1);
  B c;
  prep(c);
  std::stringstream s2(p1), s3;
  t = throws([&] { c.readData(s2); });
  sym_assert(!t, "its serialisation is accepted again");
  if (t) return;
  t = throws([&] { c.writeData(s3); });
  sym_assert(!t, "second serialisation works");
  if (t) return;
  sym_assert(same(s3.str(), p1), "same bytes again");
}
ENTRY h_fuzz() {
  size_t lo = sym_param(1), hi = sym_param(2);
  switch (sym_param(0)) {
#define X(i, B) case i: fuzz<box::B>(lo, hi); break;
    BOXES(X)
#undef X
    case 100: fuzz<box::AudioSampleEntry>(lo, hi, true); break;
  }
  sym_reach("end");
}
