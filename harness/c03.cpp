// C03: string codecs
#include "common.hpp"
#include "shiguredo/mp4/bitio/bitio.hpp"
using namespace shiguredo::mp4;
static std::string no_nul(size_t n) {
  std::string s = sym_str(n, "str");
  bool ok = true;
  for (char c : s) ok &= c != 0;
  sym_assume(ok);
  return s;
}
// NUL-terminated: any string without NUL, limit at least what was written
ENTRY h_cstr() {
  uint64_t n = sym_pick(0, sym_param(0), "n");
  std::string s = no_nul(n);
  std::stringstream ss;
  bitio::Writer w(ss);
  sym_assert(bitio::write_string(&w, s) == (n + 1) * 8, "bits reported");
  auto b = ss.str();
  sym_assert(b.size() == n + 1 && b[n] == 0, "terminator");
  sym_assert(sym_eq(b.data(), s.data(), n), "bytes");
  uint64_t extra = sym<uint32_t>("extra");
  ss << "rest";
  bitio::Reader r(ss);
  std::string o = "junk";
  sym_assert(bitio::read_string(&r, &o, (n + 1 + extra) * 8) == (n + 1) * 8, "bits consumed");
  sym_assert(same(o, s), "read back");
  sym_assert(ss.tellg() == (std::streampos)(n + 1), "consumed exactly");
  obs_str(o);
  sym_reach("end");
}
// any bytes, any limit: stops at the terminator or at the limit
ENTRY h_limit() {
  uint64_t n = sym_param(0);
  std::string in = sym_str(n, "in");
  uint64_t lim = sym_range(0, n * 8, "limit");
  std::stringstream ss(in);
  bitio::Reader r(ss);
  std::string o = "junk";
  uint64_t got = bitio::read_string(&r, &o, lim);
  uint64_t at = (uint64_t)ss.tellg();
  sym_assert(got <= lim, "never beyond the limit");
  sym_assert(got == at * 8, "reports what it consumed");
  uint64_t e = 0;  // expected length
  bool nul = false;
  for (e = 0; e < lim / 8; e++)
    if (in[e] == 0) { nul = true; break; }
  sym_assert(o.size() == e, "stops at terminator or limit");
  sym_assert(at == e + (nul ? 1 : 0), "terminator consumed");
  sym_assert(sym_eq(o.data(), in.data(), e), "content");
  obs_str(o); obs(got);
  sym_reach(nul ? "nul" : "limit");
  sym_reach("end");
}
// length-prefixed with the limit equal to what was written
ENTRY h_pascal() {
  uint64_t n = sym_param(1) ? sym_param(0) : sym_pick(0, sym_param(0), "n");
  std::string s = n <= 255 ? sym_str(n, "str") : std::string(n, 'x');
  std::stringstream ss;
  bitio::Writer w(ss);
  if (n > 255) {
    sym_assert(throws([&] { bitio::write_pascal_string(&w, s); }), "too long refused");
    sym_reach("end");
    return;
  }
  if (n == 0) { /* a single zero byte: an empty string either way */ }
  sym_assert(bitio::write_pascal_string(&w, s) == (n + 1) * 8, "bits reported");
  auto b = ss.str();
  sym_assert(b.size() == n + 1 && (uint8_t)b[0] == n, "length prefix");
  sym_assert(sym_eq(b.data() + 1, s.data(), n), "bytes");
  ss << "rest";
  bitio::Reader r(ss);
  std::string o = "junk";
  sym_assert(bitio::read_pascal_string(&r, &o, (n + 1) * 8) == (n + 1) * 8, "bits consumed");
  sym_assert(same(o, s), "read back");
  sym_assert(ss.tellg() == (std::streampos)(n + 1), "consumed exactly");
  obs_str(o);
  sym_reach("end");
}
// any bytes, any limit in whole bytes: matching prefix -> the string, otherwise the same bytes as a C string
ENTRY h_pascal_any() {
  uint64_t n = sym_param(0);
  std::string in = sym_str(n, "in");
  uint64_t k = sym_range(0, n, "limit");
  std::stringstream ss(in), s2(in);
  bitio::Reader r(ss), r2(s2);
  std::string o = "junk", c = "junk";
  uint64_t got = bitio::read_pascal_string(&r, &o, k * 8);
  uint64_t at = (uint64_t)ss.tellg();
  sym_assert(got <= k * 8, "never beyond the limit");
  sym_assert(got == at * 8, "reports what it consumed");
  if (k >= 2 && (uint8_t)in[0] == k - 1) {
    sym_assert(got == k * 8 && o.size() == k - 1, "prefixed length");
    sym_assert(sym_eq(o.data(), in.data() + 1, k - 1), "prefixed content");
    sym_reach("prefixed");
  } else {
    uint64_t g2 = bitio::read_string(&r2, &c, k * 8);
    sym_assert(g2 == got, "falls back to a C string: bits");
    sym_assert(same(o, c), "falls back to a C string: content");
    sym_reach("fallback");
  }
  obs_str(o); obs(got);
  sym_reach("end");
}
// the stream ends before the terminator or the announced length
ENTRY h_short() {
  uint64_t n = sym_pick(0, sym_param(0), "n");
  std::string s = no_nul(n);
  uint64_t more = sym_range(1, 200, "more");
  std::stringstream ss(s), s2(s);
  bitio::Reader r(ss), r2(s2);
  std::string o;
  sym_assert(throws([&] { bitio::read_string(&r, &o, (n + more) * 8); }), "short C string refused");
  sym_assert(throws([&] { bitio::read_pascal_string(&r2, &o, (n + more) * 8); }), "short pascal string refused");
  sym_reach("end");
}
