#pragma once
// tracks with a stand-in writer that records the media data, and an independent decoder of the movie box
#include <vector>
#include "common.hpp"
#include "shiguredo/mp4/box/boxes.hpp"
#include "shiguredo/mp4/box_info.hpp"
#include "shiguredo/mp4/track/aac.hpp"
#include "shiguredo/mp4/track/av1.hpp"
#include "shiguredo/mp4/track/h264.hpp"
#include "shiguredo/mp4/track/mp3.hpp"
#include "shiguredo/mp4/track/opus.hpp"
#include "shiguredo/mp4/track/track.hpp"
#include "shiguredo/mp4/track/vpx.hpp"
#include "shiguredo/mp4/writer/writer.hpp"

namespace tk {
using namespace shiguredo::mp4;
struct RecWriter : writer::Writer {
  std::string media;    // everything added, in order
  uint64_t base = 0;    // where the next byte is said to lie, minus media.size()
  int tells = 0;
  bool virt = false;    // count only
  uint64_t count = 0;
  const uint8_t* last = nullptr;
  uint64_t lastn = 0;
  explicit RecWriter(uint32_t timescale, uint64_t epoch = 0xD0000000) {
    m_mvhd_timescale = timescale;
    m_duration = 0;
    m_time_from_epoch = epoch;
    m_ftyp_size = 0;
    m_moov_box_info = new BoxInfo({.box = new box::Moov()});
    m_mvhd_box = nullptr;
  }
  using writer::Writer::addMdatData;
  void writeFtypBox() override {}
  void writeMoovBox() override {}
  void addMdatData(const std::uint8_t* p, const std::size_t n) override {
    last = p;
    lastn = n;
    count += n;
    if (!virt) media.append(reinterpret_cast<const char*>(p), n);
  }
  std::uint64_t tellCurrentMdatOffset() override {
    tells++;
    return base + count;
  }
  void appendTrakAndUdtaBoxInfo(const std::vector<track::Track*>& t) override {
    for (auto x : t) x->appendTrakBoxInfo(getMoovBoxInfo());
  }
  void setOffsetAndSize() override {}
  std::string moov() {
    getMoovBoxInfo()->adjustOffsetAndSize(0);
    std::stringstream ss;
    getMoovBoxInfo()->write(ss);
    return ss.str();
  }
};

// ---- an independent reader of box bytes
struct Bx { std::string type, data; uint64_t at; };
inline std::vector<Bx> boxes(const std::string& s, size_t from = 0) {
  std::vector<Bx> v;
  size_t p = from;
  while (p < s.size()) {
    if (p + 8 > s.size()) {
      sym_fail("a box header fits");
      break;
    }
    uint64_t n = sym_enum(be(s, p, 4)), h = 8;
    if (n == 1 && p + 16 <= s.size()) n = sym_enum(be(s, p + 8, 8)), h = 16;
    if (n < h || n > s.size() - p) {
      sym_fail("a box fits into its parent");
      break;
    }
    v.push_back({s.substr(p + 4, 4), s.substr(p + h, n - h), p});
    p += n;
  }
  return v;
}
inline size_t prefix(const std::string& t) {
  if (t == "stsd" || t == "dref") return 8;
  if (t == "meta") return 4;
  if (t == "vp08" || t == "vp09" || t == "avc1" || t == "av01") return 78;
  if (t == "Opus" || t == "mp4a") return 28;
  return 0;
}
// types of the direct children of the box, separated by spaces
inline std::string kinds(const std::string& data, size_t from = 0) {
  std::string r;
  for (auto& b : boxes(data, from)) r += (r.empty() ? "" : " ") + b.type;
  return r;
}
// all boxes on the path, e.g. "moov/trak/mdia"
inline std::vector<std::string> find(const std::string& s, const std::string& path, size_t from = 0) {
  std::vector<std::string> r;
  std::string head = path.substr(0, path.find('/'));
  bool last = head.size() == path.size();
  for (auto& b : boxes(s, from))
    if (b.type == head) {
      if (last) r.push_back(b.data);
      else
        for (auto& x : find(b.data, path.substr(head.size() + 1), prefix(head))) r.push_back(x);
    }
  return r;
}
inline std::string one(const std::string& s, const std::string& path) {
  auto v = find(s, path);
  sym_assert(v.size() == 1, "the box is there once");
  return v.empty() ? std::string(64, '\0') : v[0];
}

struct Sample { uint64_t at; uint32_t size, dur; bool key; };
// plays the sample tables as a player does
inline std::vector<Sample> play(const std::string& stbl, bool wide_needed, bool has_wide) {
  std::vector<Sample> v;
  std::string z = one(stbl, "stsz");
  uint64_t n = sym_enum(be(z, 8, 4));
  sym_assert(be(z, 4, 4) == 0 && z.size() == 12 + 4 * n, "a list of sample sizes");
  for (uint64_t i = 0; i < n && 16 + 4 * i <= z.size(); i++) v.push_back({0, (uint32_t)be(z, 12 + 4 * i, 4), 0, false});
  std::string t = one(stbl, "stts");
  uint64_t e = sym_enum(be(t, 4, 4)), k = 0;
  sym_assert(t.size() == 8 + 8 * e, "as many runs as stated");
  for (uint64_t i = 0; i < e && 16 + 8 * i <= t.size(); i++) {
    uint64_t c = sym_enum(be(t, 8 + 8 * i, 4));
    sym_assert(c > 0, "no empty run");
    sym_assert(k + c <= n, "no more durations than samples");
    for (uint64_t j = 0; j < c && k < n; j++) v[k++].dur = (uint32_t)be(t, 12 + 8 * i, 4);
  }
  sym_assert(k == n, "a duration for every sample");
  auto ss = find(stbl, "stss");
  if (ss.empty()) for (auto& x : v) x.key = true;
  else {
    sym_assert(ss.size() == 1, "one key table");
    uint64_t m = sym_enum(be(ss[0], 4, 4)), prev = 0;
    sym_assert(ss[0].size() == 8 + 4 * m, "as many keys as stated");
    for (uint64_t i = 0; i < m && 12 + 4 * i <= ss[0].size(); i++) {
      uint64_t x = sym_enum(be(ss[0], 8 + 4 * i, 4));
      sym_assert(x > prev && x <= n, "key numbers ascend and exist");
      if (x >= 1 && x <= n) v[x - 1].key = true;
      prev = x;
    }
  }
  auto o4 = find(stbl, "stco"), o8 = find(stbl, "co64");
  sym_assert(o4.size() + o8.size() == 1, "one chunk offset table");
  bool wide = !o8.empty();
  if (wide_needed) sym_assert(wide, "64-bit offsets when a chunk lies beyond 32 bits");
  if (!has_wide) sym_assert(!wide, "32-bit offsets otherwise");
  std::string o = wide ? o8.at(0) : o4.empty() ? std::string(8, '\0') : o4[0];
  uint64_t chunks = sym_enum(be(o, 4, 4)), w = wide ? 8 : 4;
  sym_assert(o.size() == 8 + w * chunks, "as many chunks as stated");
  std::string c = one(stbl, "stsc");
  uint64_t m = sym_enum(be(c, 4, 4));
  sym_assert(c.size() == 8 + 12 * m, "as many chunk runs as stated");
  uint64_t s = 0, chunk = 1, prevper = 0;
  for (uint64_t i = 0; i < m && 20 + 12 * i <= c.size(); i++) {
    uint64_t first = sym_enum(be(c, 8 + 12 * i, 4)), per = sym_enum(be(c, 12 + 12 * i, 4));
    uint64_t next = i + 1 < m && 24 + 12 * i <= c.size() ? sym_enum(be(c, 20 + 12 * i, 4)) : chunks + 1;
    sym_assert(first == chunk && next > first && next <= chunks + 1, "chunk runs ascend from the first chunk");
    sym_assert(per > 0, "no empty chunk");
    sym_assert(be(c, 16 + 12 * i, 4) == 1, "the one sample description");
    prevper = per;
    for (; chunk < next && chunk <= chunks; chunk++) {
      uint64_t at = be(o, 8 + w * (chunk - 1), (int)w);
      for (uint64_t j = 0; j < per; j++) {
        if (s >= n) {
          sym_fail("no more chunked samples than samples");
          return v;
        }
        v[s].at = at;
        at += v[s].size;
        s++;
      }
    }
  }
  sym_assert(chunk == chunks + 1, "every chunk is described");
  sym_assert(s == n, "every sample lies in a chunk");
  (void)prevper;
  return v;
}
}  // namespace tk

// ---- whole files
namespace tk {
// a seekable file of any size; bytes written from `magic` are only counted
struct SparseBuf : std::streambuf {
  struct W { uint64_t at, n; std::string data; bool virt; int stage; };
  std::vector<W> log;
  int stage = 0;
  uint64_t pos = 0;
  const void* magic = nullptr;
  std::streampos seekoff(std::streamoff o, std::ios_base::seekdir d, std::ios_base::openmode) override {
    uint64_t end = 0;
    if (d == std::ios_base::end)
      for (auto& w : log) if (w.at + w.n > end) end = w.at + w.n;
    uint64_t p = d == std::ios_base::beg ? (uint64_t)o : d == std::ios_base::end ? end + (uint64_t)o : pos + (uint64_t)o;
    if ((int64_t)p < 0) return std::streampos(std::streamoff(-1));
    pos = p;
    return std::streampos((std::streamoff)pos);
  }
  std::streampos seekpos(std::streampos p, std::ios_base::openmode m) override { return seekoff(std::streamoff(p), std::ios_base::beg, m); }
  std::streamsize xsputn(const char* s, std::streamsize n) override {
    if (s == magic) log.push_back({pos, (uint64_t)n, "", true, stage});
    else if (n > 0) {
      if (!log.empty() && !log.back().virt && log.back().stage == stage && log.back().at + log.back().n == pos) log.back().data.append(s, (size_t)n), log.back().n += (uint64_t)n;
      else log.push_back({pos, (uint64_t)n, std::string(s, (size_t)n), false, stage});
    }
    pos += (uint64_t)n;
    return n;
  }
  int overflow(int c) override {
    char ch = (char)c;
    xsputn(&ch, 1);
    return (unsigned char)ch;
  }
};
// an ordinary file: seeking behind its end is fine, what is never written is a hole
struct FileBuf : std::streambuf {
  std::string data;
  std::vector<bool> set;
  uint64_t pos = 0;
  std::streampos seekoff(std::streamoff o, std::ios_base::seekdir d, std::ios_base::openmode) override {
    uint64_t p = d == std::ios_base::beg ? (uint64_t)o : d == std::ios_base::end ? data.size() + (uint64_t)o : pos + (uint64_t)o;
    if ((int64_t)p < 0) return std::streampos(std::streamoff(-1));
    pos = p;
    return std::streampos((std::streamoff)pos);
  }
  std::streampos seekpos(std::streampos p, std::ios_base::openmode m) override { return seekoff(std::streamoff(p), std::ios_base::beg, m); }
  std::streamsize xsputn(const char* s, std::streamsize n) override {
    pos = sym_enum(pos);
    sym_assert(pos < 100000000, "a plausible place in the file");
    if (n > 0 && pos + (uint64_t)n > data.size()) data.resize(pos + (uint64_t)n), set.resize(pos + (uint64_t)n);
    for (std::streamsize i = 0; i < n; i++) data[pos + (uint64_t)i] = s[i], set[pos + (uint64_t)i] = true;
    pos += (uint64_t)n;
    return n;
  }
  int overflow(int c) override {
    char ch = (char)c;
    xsputn(&ch, 1);
    return (unsigned char)ch;
  }
  std::string str() {
    for (bool x : set) sym_assert(x, "no hole in the file");
    return data;
  }
};
inline const uint8_t* magic_bytes() {
  static const uint8_t m[1] = {0};
  return m;
}
struct Added { int track; uint64_t at, size, ts; bool key; };  // at: within the media data
// checks a movie box against what was added; media data begins at `mdat` in the file
inline void check_movie(const std::string& moov, const std::vector<Added>& all, int tracks, uint64_t mdat, const std::vector<uint32_t>& ids, const std::vector<uint64_t>& totals, const std::vector<bool>& vide) {
  auto b = boxes(moov);
  sym_assert(b.size() == 1 && b[0].type == "moov", "one movie box");
  std::string want = "mvhd";
  for (int i = 0; i < tracks; i++) want += " trak";
  want += " udta";
  sym_assert(kinds(b[0].data) == want, "movie header, tracks, user data");
  std::string h = one(b[0].data, "mvhd");
  uint64_t next = be(h, h.size() - 4, 4);
  for (auto id : ids) sym_assert(next > id, "next track id is greater than every one handed out");
  auto traks = find(b[0].data, "trak");
  for (int i = 0; i < tracks && i < (int)traks.size(); i++) {
    std::vector<Added> mine;
    for (auto& a : all) if (a.track == i) mine.push_back(a);
    auto got = play(one(traks[(size_t)i], "mdia/minf/stbl"), false, true);
    sym_assert(got.size() == mine.size(), "as many samples as added");
    for (size_t k = 0; k < got.size() && k < mine.size(); k++) {
      sym_assert(got[k].at == mdat + mine[k].at, "offset of the sample in the file");
      sym_assert(got[k].size == mine[k].size, "size of the sample");
      uint64_t nx = k + 1 < mine.size() ? mine[k + 1].ts : totals[(size_t)i];
      sym_assert(got[k].dur == (uint32_t)(nx - mine[k].ts), "duration of the sample");
      sym_assert(got[k].key == (mine[k].key | !vide[(size_t)i]), "key sample");
    }
  }
}
}  // namespace tk

// ---- a movie of one to three tracks
namespace tk {
struct Movie {
  std::vector<std::unique_ptr<track::Track>> t;
  std::vector<uint32_t> ids;
  std::vector<uint64_t> totals;
  std::vector<bool> vide;
  std::vector<Added> all;
  std::string media;
  uint64_t count = 0;
};
inline void tracks(Movie& m, writer::Writer& w, int n) {
  for (int i = 0; i < n; i++) {
    uint32_t id = w.getAndUpdateNextTrackID();
    for (auto x : m.ids) sym_assert(x != id, "a new track id");
    sym_assert(id > 0, "a valid track id");
    m.ids.push_back(id);
    if (i == 0) m.t.emplace_back(new track::OpusTrack({.pre_skip = 312, .duration = 4.0f, .track_id = id, .writer = &w}));
    else if (i == 2) m.t.emplace_back(new track::AACTrack({.timescale = 48000, .duration = 4.0f, .track_id = id, .buffer_size_db = 0, .max_bitrate = 64000, .avg_bitrate = 64000, .writer = &w}));
    else m.t.emplace_back(new track::VPXTrack({.timescale = 48000, .duration = 4.0f, .track_id = id, .width = 16, .height = 16, .writer = &w}));
    m.totals.push_back(192000);
    m.vide.push_back(i == 1);
  }
}
// adds samples to any of the tracks, ending the chunk of the one that was written before
inline bool feed(Movie& m, uint64_t steps, uint64_t maxsize, bool huge) {
  int last = -1;
  std::vector<uint64_t> prev(m.t.size(), 0);
  for (uint64_t i = 0; i < steps; i++) {
    int k = (int)sym_pick(0, m.t.size() - 1, "track");
    if (last >= 0 && last != k) m.t[(size_t)last]->terminateCurrentChunk();
    else if (last == k && sym_pick(0, 1, "cut")) m.t[(size_t)k]->terminateCurrentChunk();
    last = k;
    uint64_t ts = sym_range(0, 1000, "time") + prev[(size_t)k];
    prev[(size_t)k] = ts;
    bool key = k == 1 && sym_pick(0, 1, "key");
    std::string d = huge ? std::string() : sym_str(sym_pick(0, maxsize, "size"), "data");
    uint64_t size = huge ? sym<uint32_t>("size") : d.size();
    m.all.push_back({k, m.count, size, ts, key});
    m.count += size;
    m.media += d;
    const uint8_t* p = huge ? magic_bytes() : reinterpret_cast<const uint8_t*>(d.data());
    if (throws([&] { m.t[(size_t)k]->addData(ts, p, size, key); })) return false;
  }
  return true;
}
}  // namespace tk
