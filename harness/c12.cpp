// C12: sample tables
#include "trackkit.hpp"
using namespace tk;
static track::Track* mk_track(int kind, writer::Writer* w, uint32_t id) {
  switch (kind) {
    case 0: return new track::OpusTrack({.pre_skip = 312, .duration = 4.0f, .track_id = id, .writer = w});
    case 1: return new track::VPXTrack({.timescale = 1000000, .duration = 4000.0f, .track_id = id, .width = 16, .height = 16, .writer = w});
    case 2: return new track::AACTrack({.timescale = 48000, .duration = 4.0f, .track_id = id, .max_bitrate = 1, .avg_bitrate = 1, .writer = w});
    case 3: return new track::MP3Track({.timescale = 44100, .duration = 4.0f, .track_id = id, .max_bitrate = 1, .avg_bitrate = 1, .writer = w});
    default: return new track::AV1Track({.timescale = 90000, .duration = 4.0f, .track_id = id, .width = 16, .height = 16, .writer = w});
  }
}
static uint64_t total(int kind) { return kind == 0 || kind == 2 ? 192000 : kind == 1 ? 4000000000ull : kind == 3 ? 176400 : 360000; }
// any history of adding samples and ending chunks; media data of somebody else may lie between chunks
ENTRY h_history() {
  int kind = (int)sym_param(0);
  uint64_t steps = sym_pick(1, sym_param(1), "steps");
  uint64_t maxsize = sym_param(2);
  bool vide = kind == 1 || kind == 4;
  RecWriter w(1000);
  std::unique_ptr<track::Track> t(mk_track(kind, &w, 1));
  w.base = sym_range(0, (uint64_t)1 << 40, "base");
  bool virt = w.virt = maxsize == 0;  // sizes up to 4 GiB, nothing copied
  static const uint8_t there[1] = {0};
  struct Want { uint64_t at, size, ts; bool key; std::string data; };
  std::vector<Want> want;
  bool open = false, wide = false;
  uint64_t prev = 0;
  for (uint64_t i = 0; i < steps; i++) {
    if (i > 0 && sym_pick(0, 1, "cut")) {
      t->terminateCurrentChunk();
      if (sym_param(3)) t->terminateCurrentChunk();
      open = false;
    }
    if (!open) w.base += sym_range(0, (uint64_t)1 << 33, "gap");
    open = true;
    std::string d = virt ? std::string() : sym_str(sym_pick(0, maxsize, "size"), "data");
    uint64_t size = virt ? sym<uint32_t>("size") : d.size();
    const uint8_t* ptr = virt ? there : reinterpret_cast<const std::uint8_t*>(d.data());
    uint64_t ts = sym_range(0, total(kind), "time");
    sym_assume(ts >= prev);
    prev = ts;
    bool key = vide ? sym_pick(0, 1, "key") : sym<uint8_t>("key") & 1;
    uint64_t at = w.base + w.count, before = w.count;
    want.push_back({at, size, ts, key, d});
    if (throws([&] { t->addData(ts, ptr, size, key); })) return sym_fail("a sample can be added");
    sym_assert(w.count == before + size, "exactly the sample becomes media data");
    if (virt) sym_assert(w.last == there && w.lastn == size, "the bytes of the sample become media data");
    else sym_assert(same(w.media.substr(before), d), "the bytes of the sample become media data");
  }
  if (sym_param(3)) t->terminateCurrentChunk();
  w.appendTrakAndUdtaBoxInfo({t.get()});
  // reference: offset of every chunk in 64 bits
  for (auto& x : want) wide |= x.at > 0xFFFFFFFF;
  std::string stbl = one(w.moov(), "moov/trak/mdia/minf/stbl");
  // a chunk may begin below and end above 4 GiB: only the beginnings count
  auto got = play(stbl, false, true);
  bool has64 = !find(stbl, "co64").empty();
  sym_assert(got.size() == want.size(), "as many samples as added");
  for (size_t i = 0; i < want.size() && i < got.size(); i++) {
    uint64_t next = i + 1 < want.size() ? want[i + 1].ts : total(kind);
    sym_assert(got[i].at == want[i].at, "place of the sample");
    sym_assert(got[i].size == want[i].size, "size of the sample");
    sym_assert(got[i].dur == (uint32_t)(next - want[i].ts), "duration of the sample");
    sym_assert(got[i].key == (want[i].key | !vide), "key sample");
  }
  obs<bool>(has64);
  if (has64) sym_assert(wide, "64-bit offsets only where needed");
  sym_reach(has64 ? "wide" : "narrow");
  sym_reach("end");
}
// tables of a track without samples
ENTRY h_empty() {
  RecWriter w(1000);
  std::unique_ptr<track::Track> t(mk_track((int)sym_param(0), &w, 1));
  if (sym_param(1)) t->terminateCurrentChunk();
  w.appendTrakAndUdtaBoxInfo({t.get()});
  auto got = play(one(w.moov(), "moov/trak/mdia/minf/stbl"), false, false);
  sym_assert(got.empty(), "no samples");
  sym_reach("end");
}
// the table builders by themselves, over any lists
ENTRY h_stts() {
  size_t n = sym_param(0);
  std::vector<uint32_t> d;
  for (size_t i = 0; i < n; i++) d.push_back(sym<uint32_t>("duration"));
  std::vector<box::SttsEntry> e;
  if (sym_param(1)) e.push_back(box::SttsEntry({.sample_count = 9, .sample_duration = 9}));
  track::make_stts_entries(&e, d);
  box::Stts b({.entries = e});
  std::stringstream ss;
  b.writeData(ss);
  std::string t = ss.str();
  obs_str(t);
  uint64_t k = 0, m = sym_enum(be(t, 4, 4));
  for (uint64_t i = 0; i < m; i++) {
    uint64_t c = sym_enum(be(t, 8 + 8 * i, 4));
    sym_assert(c > 0 && k + c <= n, "runs cover the samples");
    for (uint64_t j = 0; j < c && k < n; j++) sym_assert(be(t, 12 + 8 * i, 4) == d[k++], "duration");
    if (i) sym_assert(be(t, 12 + 8 * i, 4) != be(t, 4 + 8 * i, 4), "neighbouring runs differ");
  }
  sym_assert(k == n, "every sample has a duration");
  sym_reach("end");
}
ENTRY h_stsc() {
  size_t n = sym_param(0);
  std::vector<track::ChunkInfo> c;
  for (size_t i = 0; i < n; i++) {
    uint32_t k = sym<uint32_t>("samples");
    sym_assume(k > 0);
    c.push_back({.offset = sym<uint64_t>("offset"), .number_of_samples = k});
  }
  std::vector<box::StscEntry> e;
  if (sym_param(1)) e.push_back(box::StscEntry({.first_chunk = 9, .samples_per_chunk = 9, .sample_description_index = 9}));
  track::make_stsc_entries(&e, c);
  box::Stsc b({.entries = e});
  std::stringstream ss;
  b.writeData(ss);
  std::string t = ss.str();
  obs_str(t);
  uint64_t m = sym_enum(be(t, 4, 4)), chunk = 1;
  for (uint64_t i = 0; i < m; i++) {
    uint64_t first = sym_enum(be(t, 8 + 12 * i, 4)), next = i + 1 < m ? sym_enum(be(t, 20 + 12 * i, 4)) : n + 1;
    sym_assert(first == chunk && next > first && next <= n + 1, "runs ascend");
    sym_assert(be(t, 16 + 12 * i, 4) == 1, "description");
    for (; chunk < next && chunk <= n; chunk++) sym_assert(be(t, 12 + 12 * i, 4) == c[chunk - 1].number_of_samples, "samples of the chunk");
  }
  sym_assert(chunk == n + 1, "every chunk is described");
  sym_reach("end");
}
ENTRY h_offsets() {
  size_t n = sym_param(0);
  std::vector<track::ChunkInfo> c;
  uint64_t prev = 0;
  bool wide = false;
  for (size_t i = 0; i < n; i++) {
    uint64_t o = sym<uint64_t>("offset");
    sym_assume(o >= prev);
    prev = o;
    wide |= o > 0xFFFFFFFF;
    c.push_back({.offset = o, .number_of_samples = 1});
  }
  std::unique_ptr<Box> b(track::make_offset_box(c));
  std::stringstream ss;
  b->writeData(ss);
  std::string t = ss.str();
  bool is64 = b->getType() == BoxType("co64");
  sym_assert(is64 || b->getType() == BoxType("stco"), "a chunk offset table");
  sym_assert(is64 == wide, "64-bit offsets exactly when needed");
  int w = is64 ? 8 : 4;
  sym_assert(t.size() == 8 + (size_t)w * n && be(t, 4, 4) == n, "as many offsets as chunks");
  for (size_t i = 0; i < n; i++) sym_assert(be(t, 8 + (size_t)w * i, w) == c[i].offset, "offset of the chunk");
  sym_reach(is64 ? "wide" : "narrow");
  sym_reach("end");
}
