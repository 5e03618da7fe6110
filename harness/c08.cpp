// C08: no payload makes a box parser misbehave (memory, undefined behaviour, leaks, termination)
#include "common.hpp"
#include "boxlist.hpp"
using namespace shiguredo::mp4;
template <class B>
void fuzz(size_t lo, size_t hi, bool uw = false) {
  size_t n = sym_pick(lo, hi, "n");
  std::string s = sym_str(n, "in");
  std::stringstream ss(s);
  int64_t live = sym_live_heap();
  {
    B b;
    BoxPrep prep{uw};
    prep(b);
    bool ok = true;
    uint64_t r = 0;
    try {
      r = b.readData(ss);
    } catch (const std::exception&) {
      ok = false;
    }
    // what was accepted can be reported
    if (ok) {
      std::string report = b.toStringOnlyData();
    }
    sym_reach(ok ? "accepted" : "refused");
    obs(ok);
    obs(r);
  }
  sym_assert(sym_live_heap() == live, "nothing leaks");
}
ENTRY h_fuzz() {
  size_t lo = sym_param(1), hi = sym_param(2);
  switch (sym_param(0)) {
#define X(i, B) case i: fuzz<box::B>(lo, hi); break;
    BOXES(X)
#undef X
    case 100: fuzz<box::AudioSampleEntry>(lo, hi, true); break;
  }
  sym_reach("end");
}
