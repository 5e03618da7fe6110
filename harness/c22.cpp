// C22: time conversion and formatting
#include "common.hpp"
#include "env.h"
#include "shiguredo/mp4/time/time.hpp"
using namespace shiguredo::mp4;
static const uint64_t DIFF = 2082844800ull;  // (66 years * 365 + 17 leap days) * 86400
ENTRY h_epoch() {
  uint64_t t = sym<uint64_t>("t");
  uint64_t r = time::convert_to_epoch_19040101(t);
  obs(r);
  sym_assert(r == t + DIFF, "66 years later");
  sym_assert(time::SECONDS_19040101_to_19700101 == DIFF, "the constant");
  sym_reach("end");
}
// the calendar itself (gmtime_r) is a stand-in whose answer is arbitrary: what is asked and what is made of the answer
ENTRY h_format() {
  uint64_t t = sym<uint64_t>("t");
  rt_format_tm = 1;
  rt_gm.mode = 1;
  rt_gm.tm_year = (int)sym_pick(0, 9, "y") * 23;  // 1900..2107
  rt_gm.tm_mon = (int)sym_pick(0, 11, "mon");
  rt_gm.tm_mday = 28; rt_gm.tm_hour = 23; rt_gm.tm_min = 5; rt_gm.tm_sec = 59;
  std::string s;
  if (throws([&] { s = time::format_epoch_19040101(t); })) return sym_fail("formatting never fails");
  obs_str(s);
  if (t > DIFF + 0xFFFFFFFFull) {
    sym_assert(s == "0000-00-00T00:00:00Z", "placeholder for times after 2106");
    sym_reach("late");
  } else {
    sym_assert(rt_gm.calls == 1 && rt_gm.arg == (int64_t)t - (int64_t)DIFF, "the calendar is asked for that instant");
    int y = rt_gm.tm_year + 1900, m = rt_gm.tm_mon + 1;
    std::string w = "0000-00-28T23:05:59Z";
    w[0] = (char)('0' + y / 1000); w[1] = (char)('0' + y / 100 % 10); w[2] = (char)('0' + y / 10 % 10); w[3] = (char)('0' + y % 10);
    w[5] = (char)('0' + m / 10); w[6] = (char)('0' + m % 10);
    sym_assert(s == w, "that instant in UTC");
    sym_reach(t < DIFF ? "early" : "in range");
  }
  sym_reach("end");
}
