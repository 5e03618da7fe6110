// C15: splitting H.264 access units
#include "trackkit.hpp"
using namespace tk;
struct Nal { size_t from, to; uint8_t header; };  // the unit without its start code
// start codes are exactly the 00 00 01 that have a byte behind them, taking in one zero before them
static bool split(const std::string& d, std::vector<Nal>& out) {
  struct Code { size_t begin, end; };
  std::vector<Code> c;
  size_t free = 0;
  for (size_t j = 0; j + 3 < d.size();) {
    bool code = d[j] == 0 && d[j + 1] == 0 && d[j + 2] == 1;
    if (!code) {
      j++;
      continue;
    }
    c.push_back({j > free && d[j - 1] == 0 ? j - 1 : j, j + 3});
    free = j + 3;
    j += 3;
  }
  if (c.empty() || c[0].begin != 0) return false;
  for (size_t i = 0; i < c.size(); i++) out.push_back({c[i].end, i + 1 < c.size() ? c[i + 1].begin : d.size(), (uint8_t)d[c[i].end]});
  return true;
}
struct Want {
  std::string media;
  std::vector<uint64_t> sizes, times;
  std::vector<bool> keys;
  std::vector<std::string> sps, pps;
  bool refused = false;
};
static void put(std::vector<std::string>& v, const std::string& s) {
  for (auto& x : v) if (same(x, s)) return;
  v.push_back(s);
}
static void expect(Want& w, const std::string& d, uint64_t ts, bool key) {
  std::vector<Nal> n;
  if (!split(d, n)) {
    w.refused = true;
    return;
  }
  for (auto& x : n) {
    std::string u = d.substr(x.from, x.to - x.from);
    uint8_t type = x.header & 0x1F;
    if (type >= 1 && type <= 5) {
      for (int i = 3; i >= 0; i--) w.media.push_back((char)(u.size() >> (8 * i)));
      w.media += u;
      w.sizes.push_back(u.size() + 4);
      w.times.push_back(ts);
      w.keys.push_back(key);
    } else if (type == 7) put(w.sps, u);
    else if (type == 8) put(w.pps, u);
    else if (type != 6) {
      w.refused = true;
      return;
    }
  }
}
static void finish(RecWriter& w, track::H264Track& t, const Want& x, uint64_t total) {
  sym_assert(same(w.media, x.media), "media data is the slices with their lengths");
  w.appendTrakAndUdtaBoxInfo({&t});
  std::string stbl = one(w.moov(), "moov/trak/mdia/minf/stbl");
  auto got = play(stbl, false, false);
  sym_assert(got.size() == x.sizes.size(), "one sample for each slice");
  uint64_t at = 0;
  for (size_t i = 0; i < got.size() && i < x.sizes.size(); i++) {
    sym_assert(got[i].at == at && got[i].size == x.sizes[i], "sample is the slice with its length");
    at += x.sizes[i];
    uint64_t next = i + 1 < x.times.size() ? x.times[i + 1] : total;
    sym_assert(got[i].dur == (uint32_t)(next - x.times[i]), "time of the sample");
    sym_assert(got[i].key == x.keys[i], "key sample");
  }
  std::string c = one(stbl, "stsd/avc1/avcC");
  size_t p = 6;
  bool first = !x.sps.empty() && x.sps[0].size() > 4;
  sym_assert(c[0] == 1, "version");
  sym_assert((uint8_t)c[1] == (first ? (uint8_t)x.sps[0][1] : 77), "profile");
  sym_assert((uint8_t)c[2] == (first ? (uint8_t)x.sps[0][2] : 0xC1), "compatibility");
  sym_assert((uint8_t)c[3] == (first ? (uint8_t)x.sps[0][3] : 42), "level");
  sym_assert((c[4] & 3) == 3, "four-byte lengths");
  sym_assert((uint64_t)(c[5] & 31) == x.sps.size(), "number of sequence parameter sets");
  for (auto& s : x.sps) {
    if (p + 2 + s.size() > c.size()) return sym_fail("sequence parameter set fits");
    sym_assert(be(c, p, 2) == s.size() && same(c.substr(p + 2, s.size()), s), "sequence parameter set");
    p += 2 + s.size();
  }
  if (p >= c.size()) return sym_fail("number of picture parameter sets is there");
  sym_assert((uint8_t)c[p] == x.pps.size(), "number of picture parameter sets");
  p++;
  for (auto& s : x.pps) {
    if (p + 2 + s.size() > c.size()) return sym_fail("picture parameter set fits");
    sym_assert(be(c, p, 2) == s.size() && same(c.substr(p + 2, s.size()), s), "picture parameter set");
    p += 2 + s.size();
  }
}
// any bytes, as one or more access units
ENTRY h_split() {
  size_t n = sym_param(0), k = sym_param(1);
  RecWriter w(1000);
  track::H264Track t({.timescale = 1000, .duration = 100.0f, .track_id = 1, .width = 16, .height = 16, .profile = 77, .profile_compatibility = 0xC1, .level = 42, .writer = &w});
  Want x;
  uint64_t ts = 0;
  for (size_t i = 0; i < k; i++) {
    std::string d = sym_str(n, "data");
    ts += sym_range(0, 9, "time");
    bool key = sym<uint8_t>("key") & 1;
    expect(x, d, ts, key);
    // the buffer is exactly as long as stated
    std::unique_ptr<uint8_t[]> buf(new uint8_t[n]);
    std::memcpy(buf.get(), d.data(), n);
    bool thrown = throws([&] { t.addData(ts, buf.get(), n, key); });
    sym_assert(thrown == x.refused, "refused exactly when malformed or unsupported");
    if (thrown || x.refused) {
      sym_reach("refused");
      return;
    }
  }
  finish(w, t, x, 100000);
  sym_reach(x.sizes.empty() ? "nothing" : "slices");
  sym_reach("end");
}
// structured units: u units of given lengths with start codes of either form, contents free of zeros
ENTRY h_units() {
  size_t u = sym_param(0);
  RecWriter w(1000);
  track::H264Track t({.timescale = 1000, .duration = 100.0f, .track_id = 1, .width = 16, .height = 16, .profile = 77, .profile_compatibility = 0xC1, .level = 42, .writer = &w});
  std::string d;
  for (size_t i = 0; i < u; i++) {
    d += sym_pick(0, 1, "long") ? std::string("\0\0\0\1", 4) : std::string("\0\0\1", 3);
    static const uint8_t types[] = {1, 5, 6, 7, 8, 9};
    d.push_back((char)(types[sym_pick(0, sym_param(2), "type")] | (sym<uint8_t>("ref") & 0x60)));
    size_t n = sym_pick(0, sym_param(1), "length");
    for (size_t j = 0; j < n; j++) {
      uint8_t b = sym<uint8_t>("byte");
      sym_assume(b != 0);
      d.push_back((char)b);
    }
  }
  Want x;
  bool key = sym<uint8_t>("key") & 1;
  expect(x, d, 7, key);
  bool thrown = throws([&] { t.addData(7, std::vector<uint8_t>(d.begin(), d.end()), key); });
  sym_assert(thrown == x.refused, "refused exactly when unsupported");
  if (thrown || x.refused) {
    sym_reach("refused");
    return;
  }
  finish(w, t, x, 100000);
  sym_reach("end");
}
// a slice whose length needs more than one byte, followed by another unit
ENTRY h_big() {
  size_t n = sym_param(0);
  RecWriter w(1000);
  track::H264Track t({.timescale = 1000, .duration = 100.0f, .track_id = 1, .width = 16, .height = 16, .profile = 77, .profile_compatibility = 0xC1, .level = 42, .writer = &w});
  std::string d("\0\0\0\1\x65", 5), e("\0\0\1\x41\x9a", 5);
  std::string body(n - 1, '\x5b');
  uint8_t b = sym<uint8_t>("byte");
  sym_assume(b != 0);
  body[body.size() / 2] = (char)b;
  d += body + e;
  if (throws([&] { t.addData(0, reinterpret_cast<const uint8_t*>(d.data()), d.size(), true); })) return sym_fail("accepted");
  std::string want;
  for (int i = 3; i >= 0; i--) want.push_back((char)(n >> (8 * i)));
  want += '\x65' + body + std::string("\0\0\0\2\x41\x9a", 6);
  sym_assert(same(w.media, want), "the slice with its length");
  sym_reach("end");
}
// the scanner by itself, from every place
ENTRY h_find() {
  size_t n = sym_param(0);
  std::string d = sym_str(n, "data");
  size_t start = sym_pick(0, n, "start");
  std::unique_ptr<uint8_t[]> buf(new uint8_t[n]);
  std::memcpy(buf.get(), d.data(), n);
  track::NalUnit u{0, 0, 0, 0};
  bool thrown = throws([&] { u = track::find_next_nal_unit(buf.get(), n, start); });
  std::vector<Nal> want;
  bool ok = split(d.substr(start), want);
  sym_assert(thrown == !ok, "refused exactly when no unit begins there");
  if (thrown || !ok) {
    sym_reach("refused");
    return;
  }
  sym_assert(u.start == start && start + want[0].from == u.start + u.start_code_size, "begins after its start code");
  sym_assert(u.end == start + want[0].to, "ends where the next start code begins");
  sym_assert(u.header == want[0].header, "header byte");
  sym_reach("end");
}
