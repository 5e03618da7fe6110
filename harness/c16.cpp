// C16: the boxes of a track describe it as configured
#include <ostream>
#include "trackkit.hpp"
#include "env.h"
#include "shiguredo/mp4/writer/faststart_writer.hpp"
#include "shiguredo/mp4/writer/simple_writer.hpp"
using namespace tk;
enum { OPUS, VP9, VP8, AAC, MP3, AV1, H264 };
struct Header { int version; uint64_t created, modified, rest; };  // rest: where the fields after the times begin
static uint64_t wide(const std::string& s, size_t at, int version) { return version ? be(s, at, 8) : be(s, at, 4); }
static int version(const std::string& s) {
  uint64_t v = sym_enum(be(s, 0, 1));
  sym_assert(v <= 1, "version 0 or 1");
  return (int)v;
}
struct Want {
  int kind;
  bool vide;
  uint32_t id, timescale, mvhd;
  uint64_t media_duration, movie_duration, epoch;
  int64_t media_time;
  uint32_t width = 0, height = 0;
};
static void check_headers(const std::string& trak, const Want& w) {
  sym_assert(kinds(trak) == "tkhd edts mdia", "track header, edit list, media");
  std::string t = one(trak, "tkhd");
  int v = version(t);
  sym_assert(t.size() == (v ? 96u : 84u), "size of the track header");
  if (t.size() < 84) return;
  sym_assert(be(t, 1, 3) == 3, "the track is enabled and part of the movie");
  sym_assert(wide(t, 4, v) == w.epoch && wide(t, v ? 12 : 8, v) == w.epoch, "times of the track header");
  size_t p = v ? 20 : 12;
  sym_assert(be(t, p, 4) == w.id, "track id");
  sym_assert(wide(t, p + 8, v) == w.movie_duration, "duration in movie time scale");
  p += v ? 16 : 12;
  sym_assert(be(t, p + 12, 2) == (w.vide ? 0u : 0x100u), "volume only for sound");
  const uint32_t unity[9] = {0x10000, 0, 0, 0, 0x10000, 0, 0, 0, 0x40000000};
  for (size_t i = 0; i < 9; i++) sym_assert(be(t, p + 16 + 4 * i, 4) == unity[i], "unity matrix");
  sym_assert(be(t, p + 52, 4) == (uint64_t)w.width << 16 && be(t, p + 56, 4) == (uint64_t)w.height << 16, "dimensions as 16.16 values");
  sym_assert(kinds(one(trak, "edts")) == "elst", "edit list");
  std::string e = one(trak, "edts/elst");
  v = version(e);
  sym_assert(e.size() == (v ? 28u : 20u) && be(e, 4, 4) == 1, "one edit");
  if (e.size() < 20) return;
  sym_assert(wide(e, 8, v) == w.movie_duration, "duration of the edit");
  sym_assert(v ? be(e, 16, 8) == (uint64_t)w.media_time : (uint64_t)(int64_t)(int32_t)be(e, 12, 4) == (uint64_t)w.media_time, "media time");
  sym_assert(be(e, v ? 24 : 16, 4) == 0x10000, "normal rate");
  std::string mdia = one(trak, "mdia");
  sym_assert(kinds(mdia) == "mdhd hdlr minf", "media header, handler, information");
  std::string m = one(mdia, "mdhd");
  v = version(m);
  sym_assert(m.size() == (v ? 36u : 24u), "size of the media header");
  if (m.size() < 24) return;
  sym_assert(wide(m, 4, v) == w.epoch && wide(m, v ? 12 : 8, v) == w.epoch, "times of the media header");
  sym_assert(be(m, v ? 20 : 12, 4) == w.timescale, "time scale");
  sym_assert(wide(m, v ? 24 : 16, v) == w.media_duration, "duration in media time scale");
  std::string h = one(mdia, "hdlr");
  sym_assert(h.size() >= 25 && h.substr(8, 4) == (w.vide ? "vide" : "soun"), "handler type");
  std::string minf = one(mdia, "minf");
  sym_assert(kinds(minf) == (w.vide ? "vmhd dinf stbl" : "smhd dinf stbl"), "media information");
  if (w.vide) {
    std::string x = one(minf, "vmhd");
    sym_assert(x.size() == 12 && be(x, 0, 4) == 1, "video media header");
  } else {
    std::string x = one(minf, "smhd");
    sym_assert(x.size() == 8 && be(x, 0, 4) == 0 && be(x, 4, 2) == 0, "sound media header");
  }
  std::string dref = one(minf, "dinf/dref");
  sym_assert(be(dref, 0, 4) == 0 && be(dref, 4, 4) == 1 && kinds(dref, 8) == "url ", "one data reference");
  std::string url = one(minf, "dinf/dref/url ");
  sym_assert(url.size() == 4 && be(url, 0, 4) == 1, "the media data is in the same file");
  std::string want = w.vide ? "stsd stts stss stsc stsz" : "stsd stts stsc stsz";
  std::string got = kinds(one(minf, "stbl"));
  want += " stco";
  if (w.kind == OPUS || w.kind == AAC) want += " sgpd sbgp";
  sym_assert(got == want, "sample tables");
}
static std::string sub(const std::string& s, size_t at, size_t n) { return at + n <= s.size() ? s.substr(at, n) : std::string(n, '\xEE'); }
static void visual(const std::string& e, const Want& w) {
  sym_assert(e.size() >= 78, "visual sample description");
  if (e.size() < 78) return;
  sym_assert(be(e, 6, 2) == 1, "data reference");
  sym_assert(be(e, 24, 2) == w.width && be(e, 26, 2) == w.height, "dimensions of the sample description");
  sym_assert(be(e, 28, 4) == 0x480000 && be(e, 32, 4) == 0x480000 && be(e, 40, 2) == 1 && be(e, 74, 2) == 0x18 && be(e, 76, 2) == 0xFFFF, "fixed fields of the sample description");
}
static void sound(const std::string& e, const Want& w) {
  sym_assert(e.size() >= 28, "audio sample description");
  if (e.size() < 28) return;
  sym_assert(be(e, 6, 2) == 1, "data reference");
  sym_assert(be(e, 16, 2) == 2 && be(e, 18, 2) == 16, "two channels of 16 bits");
  sym_assert(be(e, 24, 4) == (uint64_t)w.timescale << 16, "sample rate as 16.16 value");
}
// an elementary stream descriptor: (tag, payload) with any length form
static std::vector<std::pair<uint64_t, std::string>> descriptors(const std::string& s, size_t at) {
  std::vector<std::pair<uint64_t, std::string>> r;
  while (at < s.size()) {
    uint64_t tag = sym_enum(be(s, at++, 1)), n = 0;
    for (int i = 0; i < 4 && at < s.size(); i++) {
      uint64_t b = sym_enum(be(s, at++, 1));
      n = n << 7 | (b & 0x7F);
      if (!(b & 0x80)) break;
    }
    if (n > s.size() - at) {
      sym_fail("a descriptor fits into its parent");
      return r;
    }
    r.push_back({tag, s.substr(at, n)});
    at += n;
  }
  return r;
}
static std::string be_bytes(uint64_t x, int n) {
  std::string r;
  for (int i = n - 1; i >= 0; i--) r.push_back((char)(x >> (8 * i)));
  return r;
}
ENTRY h_track() {
  int kind = (int)sym_param(0);
  bool vide = kind == VP9 || kind == VP8 || kind == AV1 || kind == H264;
  // the product of a duration and either time scale is exact, so that rounding is not judged
  static const struct { float seconds; uint32_t movie, media; } times[] = {{0.0f, 1000, 48000}, {1.5f, 1000, 90000}, {4.0f, 600, 44100}, {3.0f, 90000, 1}, {4096.0f, 1000, 1000000}, {8192.0f, 1000, 1000000}, {65536.0f, 90000, 90000}, {8388608.0f, 600, 300}};
  auto& pair = times[sym_param(1) ? sym_param(1) - 1 : sym_pick(0, 7, "times")];
  float d = pair.seconds;
  uint32_t ms = pair.movie, ts = kind == OPUS ? 48000 : pair.media;
  auto ticks = [&](uint32_t scale) { return (uint64_t)((double)d * scale); };
  Want w{kind, vide, sym<uint32_t>("id"), ts, ms, ticks(ts), ticks(ms), sym_range(0, (uint64_t)1 << 34, "epoch"), sym<int64_t>("media_time")};
  RecWriter rw(ms, w.epoch);
  uint32_t width = 0, height = 0;
  if (vide) width = (uint32_t)sym_range(0, 65535, "width"), height = (uint32_t)sym_range(0, 65535, "height");
  w.width = width, w.height = height;
  uint32_t maxrate = sym<uint32_t>("max"), avgrate = sym<uint32_t>("avg"), buffer = (uint32_t)sym_range(0, 0xFFFFFF, "buffer");
  uint64_t skip = sym_range(0, 65535, "skip");
  int16_t roll = sym<int16_t>("roll");
  uint8_t f[6] = {};
  std::vector<uint8_t> obu = sym_vec(kind == AV1 ? sym_pick(0, 3, "obus") : 0, "obu");
  static const uint8_t top[6] = {7, 31, 1, 1, 1, 3};
  for (int i = 0; i < 6; i++) f[i] = kind == AV1 ? (uint8_t)sym_range(0, top[i], "field") : sym<uint8_t>("field");
  std::unique_ptr<track::Track> t;
  bool late = sym_pick(0, 1, "late");  // the media time is set afterwards
  int64_t mt = late ? 0 : w.media_time;
  bool refused = throws([&] {
    if (kind == OPUS) t.reset(new track::OpusTrack({.pre_skip = skip, .duration = d, .media_time = mt, .roll_distance = roll, .track_id = w.id, .writer = &rw}));
    if (kind == VP9 || kind == VP8) t.reset(new track::VPXTrack({.codec = kind == VP9 ? track::VPXCodec::VP9 : track::VPXCodec::VP8, .timescale = ts, .media_time = mt, .duration = d, .track_id = w.id, .width = width, .height = height, .max_bitrate = maxrate, .avg_bitrate = avgrate, .writer = &rw}));
    if (kind == AAC) t.reset(new track::AACTrack({.timescale = ts, .duration = d, .media_time = mt, .track_id = w.id, .buffer_size_db = buffer, .max_bitrate = maxrate, .avg_bitrate = avgrate, .writer = &rw}));
    if (kind == MP3) t.reset(new track::MP3Track({.timescale = ts, .duration = d, .media_time = mt, .track_id = w.id, .buffer_size_db = buffer, .max_bitrate = maxrate, .avg_bitrate = avgrate, .writer = &rw}));
    if (kind == AV1) t.reset(new track::AV1Track({.timescale = ts, .media_time = mt, .duration = d, .track_id = w.id, .width = width, .height = height, .seq_profile = f[0], .seq_level_idx_0 = f[1], .seq_tier_0 = f[2], .chroma_subsampling_x = f[3], .chroma_subsampling_y = f[4], .chroma_sample_position = f[5], .config_OBUs = obu, .writer = &rw}));
    if (kind == H264) t.reset(new track::H264Track({.timescale = ts, .media_time = mt, .duration = d, .track_id = w.id, .width = width, .height = height, .configuration_version = f[0], .profile = f[1], .profile_compatibility = f[2], .level = f[3], .writer = &rw}));
  });
  if (w.id == 0) {
    sym_assert(refused, "a track id of zero is refused");
    return sym_reach("refused");
  }
  if (refused) return sym_fail("a valid track is accepted");
  if (late) t->setMediaTime(w.media_time);
  uint64_t samples = !late;
  if (samples && kind != H264) t->addData(0, std::vector<uint8_t>{1, 2, 3}, true);
  std::string bytes;
  if (throws([&] {
        rw.appendTrakAndUdtaBoxInfo({t.get()});
        bytes = rw.moov();
      })) return sym_fail("the track is added to the movie");
  sym_assert(kinds(one(bytes, "moov")) == "trak", "one track");
  std::string trak = one(bytes, "moov/trak");
  check_headers(trak, w);
  std::string stbl = one(trak, "mdia/minf/stbl"), stsd = one(stbl, "stsd");
  sym_assert(be(stsd, 0, 4) == 0 && be(stsd, 4, 4) == 1, "one sample description");
  static const char* const code[] = {"Opus", "vp09", "vp08", "mp4a", "mp4a", "av01", "avc1"};
  auto b = boxes(stsd, 8);
  sym_assert(b.size() == 1 && b[0].type == code[kind], "the sample description of the codec");
  if (b.size() != 1) return;
  std::string e = b[0].data;
  if (vide) visual(e, w);
  else if (w.timescale < 65536) sound(e, w);
  std::string in = e.size() >= (vide ? 78u : 28u) ? kinds(e, vide ? 78 : 28) : "";
  auto conf = [&](const char* type) {
    for (auto& x : boxes(e, vide ? 78 : 28)) if (x.type == type) return x.data;
    sym_fail("the configuration is there");
    return std::string(64, '\0');
  };
  if (kind == OPUS) {
    sym_assert(in == "dOps", "Opus configuration");
    std::string c = conf("dOps");
    sym_assert(c.size() == 11 && be(c, 0, 1) == 0 && be(c, 1, 1) == 2 && be(c, 2, 2) == skip && be(c, 4, 4) == 48000 && be(c, 8, 2) == 0 && be(c, 10, 1) == 0, "Opus configuration");
  }
  if (kind == OPUS || kind == AAC) {
    std::string g = one(stbl, "sgpd"), m = one(stbl, "sbgp");
    sym_assert(g.size() == 18 && be(g, 0, 4) == 1u << 24 && g.substr(4, 4) == "roll" && be(g, 8, 4) == 2 && be(g, 12, 4) == 1, "roll group");
    sym_assert(be(g, 16, 2) == (kind == OPUS ? (uint16_t)roll : (uint16_t)-1), "roll distance");
    sym_assert(m.size() == 20 && be(m, 0, 4) == 0 && m.substr(4, 4) == "roll" && be(m, 8, 4) == 1 && be(m, 12, 4) == samples && be(m, 16, 4) == 1, "every sample is in the group");
  }
  if (kind == VP8 || kind == VP9) {
    sym_assert(in == "vpcC fiel pasp btrt", "VP configuration");
    std::string c = conf("vpcC"), r = conf("btrt"), a = conf("pasp"), i = conf("fiel");
    sym_assert(c.size() == 12 && be(c, 0, 4) == 1u << 24 && be(c, 4, 1) == 0 && be(c, 5, 1) == 21 && be(c, 6, 1) == 0x82 && be(c, 7, 1) == 2 && be(c, 8, 1) == 2 && be(c, 9, 1) == 2 && be(c, 10, 2) == 0, "VP configuration");
    sym_assert(same(r, be_bytes(0, 4) + be_bytes(maxrate, 4) + be_bytes(avgrate, 4)), "bit rates");
    sym_assert(a == be_bytes(1, 4) + be_bytes(1, 4), "square pixels");
    sym_assert(i == be_bytes(1, 1) + be_bytes(0, 1), "progressive");
  }
  if (kind == AAC || kind == MP3) {
    sym_assert(in == (kind == AAC ? "esds btrt" : "esds"), "elementary stream");
    if (kind == AAC) sym_assert(same(conf("btrt"), be_bytes(0, 4) + be_bytes(maxrate, 4) + be_bytes(avgrate, 4)), "bit rates");
    std::string c = conf("esds");
    sym_assert(be(c, 0, 4) == 0, "version of the stream descriptor");
    auto es = descriptors(c, 4);
    sym_assert(es.size() == 1 && es[0].first == 3, "one stream descriptor");
    if (es.size() != 1 || es[0].second.size() < 3) return;
    std::string x = es[0].second;
    sym_assert(be(x, 0, 2) == (kind == AAC ? w.id & 0xFFFF : 0), "stream id");
    sym_assert(be(x, 2, 1) == 0, "no options of the stream");
    auto in2 = descriptors(x, 3);
    sym_assert(in2.size() == 2 && in2[0].first == 4 && in2[1].first == 6, "decoder configuration and sync layer");
    if (in2.size() != 2) return;
    sym_assert(in2[1].second == "\x02", "sync layer for files");
    std::string dc = in2[0].second;
    sym_assert(dc.size() >= 13, "decoder configuration");
    if (dc.size() < 13) return;
    sym_assert(be(dc, 0, 1) == (kind == AAC ? 0x40u : 0x6Bu), "object type");
    sym_assert(be(dc, 1, 1) == 0x15, "audio stream");
    sym_assert(be(dc, 2, 3) == buffer && be(dc, 5, 4) == maxrate && be(dc, 9, 4) == avgrate, "buffer size and bit rates");
    auto sp = descriptors(dc, 13);
    if (kind == AAC) sym_assert(sp.size() == 1 && sp[0].first == 5 && !sp[0].second.empty(), "decoder specific information");
    else sym_assert(sp.empty(), "no decoder specific information");
  }
  if (kind == AV1) {
    sym_assert(in == "av1C", "AV1 configuration");
    std::string c = conf("av1C");
    std::string r = be_bytes(0x81, 1) + be_bytes((uint64_t)f[0] << 5 | f[1], 1) + be_bytes((uint64_t)f[2] << 7 | (uint64_t)f[3] << 3 | (uint64_t)f[4] << 2 | f[5], 1) + be_bytes(0, 1) + std::string(obu.begin(), obu.end());
    sym_assert(c.size() == r.size() && same(c, r), "AV1 configuration");
  }
  if (kind == H264) {
    sym_assert(in == "avcC", "H.264 configuration");
    std::string c = conf("avcC");
    sym_assert(c.size() >= 7 && be(c, 0, 1) == f[0] && be(c, 1, 1) == f[1] && be(c, 2, 1) == f[2] && be(c, 3, 1) == f[3], "configured profile and level");
    sym_assert((be(c, 4, 1) & 3) == 3 && (be(c, 5, 1) & 31) == 0 && be(c, 6, 1) == 0, "four byte lengths, no parameter sets");
  }
  sym_reach("end");
}
// the movie header, whichever writer makes it
ENTRY h_movie() {
  static const struct { float seconds; uint32_t scale; } times[] = {{0.0f, 1000}, {1.5f, 1000}, {4.0f, 600}, {4096.0f, 1000000}, {8192.0f, 1000000}, {8388608.0f, 600}};
  static const int64_t clock[] = {0, 1700000000, 2212122495, 2212122496, 4000000000};
  auto& x = times[sym_pick(0, 5, "times")];
  int64_t now = clock[sym_pick(0, 4, "clock")];
  rt_now_ns = now * 1000000000 + (int64_t)sym_pick(0, 1, "nanoseconds") * 999999999;
  FileBuf file;
  std::ostream os(&file);
  bool fast = sym_param(0);
  uint64_t ids = sym_pick(0, 2, "ids");
  if (fast) {
    writer::FaststartWriter w(os, {.mvhd_timescale = x.scale, .duration = x.seconds, .mdat_path_templete = "tmp/mfXXXXXX"});
    sym_assert(w.getMvhdTimescale() == x.scale && w.getTimeFromEpoch() == (uint64_t)now + 2082844800, "time scale and time of the movie");
    w.writeFtypBox();
    for (uint64_t i = 0; i < ids; i++) w.getAndUpdateNextTrackID();
    w.appendTrakAndUdtaBoxInfo({});
    w.writeMoovBox();
    w.writeMdatHeader();
    w.copyMdatData();
  } else {
    writer::SimpleWriter w(os, {.mvhd_timescale = x.scale, .duration = x.seconds});
    sym_assert(w.getMvhdTimescale() == x.scale && w.getTimeFromEpoch() == (uint64_t)now + 2082844800, "time scale and time of the movie");
    w.writeFtypBox();
    for (uint64_t i = 0; i < ids; i++) w.getAndUpdateNextTrackID();
    w.appendTrakAndUdtaBoxInfo({});
    w.writeFreeBoxAndMdatHeader();
    w.writeMoovBox();
  }
  std::string s = file.str(), moov = one(s, "moov"), h = one(s, "moov/mvhd");
  sym_assert(kinds(moov) == "mvhd udta", "movie header and user data");
  int v = version(h);
  sym_assert(h.size() == (v ? 112u : 100u) && be(h, 1, 3) == 0, "size of the movie header");
  if (h.size() < 100) return;
  uint64_t t = (uint64_t)now + 2082844800;
  sym_assert(wide(h, 4, v) == t && wide(h, v ? 12 : 8, v) == t, "times of the movie header");
  sym_assert(be(h, v ? 20 : 12, 4) == x.scale, "time scale of the movie");
  sym_assert(wide(h, v ? 24 : 16, v) == (uint64_t)((double)x.seconds * x.scale), "duration of the movie");
  size_t p = v ? 32 : 20;
  sym_assert(be(h, p, 4) == 0x10000 && be(h, p + 4, 2) == 0x100, "normal rate and full volume");
  const uint32_t unity[9] = {0x10000, 0, 0, 0, 0x10000, 0, 0, 0, 0x40000000};
  for (size_t i = 0; i < 9; i++) sym_assert(be(h, p + 16 + 4 * i, 4) == unity[i], "unity matrix");
  sym_assert(be(h, p + 76, 4) == ids + 1, "next track id");
  sym_reach("end");
}
