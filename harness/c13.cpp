// C13: files of the simple writer
#include <ostream>
#include "trackkit.hpp"
#include "shiguredo/mp4/writer/simple_writer.hpp"
using namespace tk;
ENTRY h_file() {
  FileBuf file;
  std::ostream os(&file);
  Movie m;
  uint32_t brands = (uint32_t)sym_param(3);
  std::vector<Brand> compatible;
  for (uint32_t i = 0; i < brands; i++) {
    std::array<uint8_t, 4> a;
    for (auto& x : a) x = sym<uint8_t>("brand");
    compatible.push_back(Brand(a));
  }
  uint32_t minor = sym<uint32_t>("minor");
  writer::SimpleWriter w(os, {.mvhd_timescale = 1000, .duration = 4.0f, .ftyp_params = {.major_brand = BrandIsom, .minor_version = minor, .compatible_brands = compatible}});
  int n = (int)sym_param(0);
  if (throws([&] { w.writeFtypBox(); })) return sym_fail("file type is written");
  tracks(m, w, n);
  if (n && !feed(m, sym_pick(0, sym_param(1), "steps"), sym_param(2), false)) return sym_fail("sample is accepted");
  if (!n) {
    std::string d = sym_str(sym_pick(0, sym_param(2), "size"), "data");
    m.media = d;
    static_cast<writer::Writer&>(w).addMdatData(std::vector<uint8_t>(d.begin(), d.end()));
  }
  std::vector<track::Track*> t;
  for (auto& x : m.t) t.push_back(x.get());
  if (throws([&] {
        w.appendTrakAndUdtaBoxInfo(t);
        w.writeFreeBoxAndMdatHeader();
        w.writeMoovBox();
      })) return sym_fail("the file is finished");
  std::string s = file.str();
  obs_str(s);
  auto b = boxes(s);
  sym_assert(kinds(s) == "ftyp free mdat moov", "file type, free, media data, movie");
  if (b.size() < 4) return;
  std::string f = std::string("isom");
  for (int i = 3; i >= 0; i--) f.push_back((char)(minor >> (8 * i)));
  sym_assert(b[0].data.size() == 8 + 4 * brands && same(b[0].data.substr(0, 8), f), "file type");
  sym_assert(b[1].data.empty(), "the free box is empty");
  sym_assert(same(b[2].data, m.media), "the media data is exactly what was added");
  check_movie(s.substr(b[3].at), m.all, n, b[2].at + 8, m.ids, m.totals, m.vide);
  sym_reach("end");
}
// media data of any size: the bytes are only counted
ENTRY h_huge() {
  SparseBuf buf;
  buf.magic = magic_bytes();
  std::ostream os(&buf);
  Movie m;
  writer::SimpleWriter w(os, {.mvhd_timescale = 1000, .duration = 4.0f});
  if (throws([&] { w.writeFtypBox(); })) return sym_fail("file type is written");
  int n = (int)sym_param(0);
  tracks(m, w, n);
  if (!feed(m, sym_param(1), 0, true)) return sym_fail("sample is accepted");
  sym_assume(m.count > 0);
  std::vector<track::Track*> t;
  for (auto& x : m.t) t.push_back(x.get());
  if (throws([&] {
        w.appendTrakAndUdtaBoxInfo(t);
        w.writeFreeBoxAndMdatHeader();
        buf.stage = 1;
        w.writeMoovBox();
      })) return sym_fail("the file is finished");
  std::string head, tail;
  std::vector<bool> sethead, settail;
  auto put = [](std::string& t, std::vector<bool>& set, uint64_t rel, const std::string& d) {
    rel = sym_enum(rel);
    if (rel > 100000) return sym_fail("a plausible place in the file");
    if (t.size() < rel + d.size()) t.resize(rel + d.size()), set.resize(rel + d.size());
    for (size_t i = 0; i < d.size(); i++) t[rel + i] = d[i], set[rel + i] = true;
  };
  for (auto& x : buf.log)
    if (!x.virt && x.stage == 0) put(head, sethead, x.at, x.data);
  for (bool x : sethead) sym_assert(x, "no gap before the media data");
  uint64_t f = sym_enum(be(head, 0, 4)), at = f + 16;
  sym_assert(head.substr(4, 4) == "ftyp" && head.size() == f + 16, "file type and the header of the media data");
  if (head.size() != f + 16) return;
  for (auto& x : buf.log)
    if (x.virt) {
      sym_assert(x.at == at, "media data without gaps");
      at += x.n;
    }
  sym_assert(at == f + 16 + m.count, "all of the media data");
  for (auto& x : buf.log)
    if (!x.virt && x.stage == 1) put(tail, settail, x.at - at, x.data);
  for (bool x : settail) sym_assert(x, "the movie box follows the media data without gaps");
  bool big = be(head, f, 4) == 1;
  if (big) {
    sym_assert(head.substr(f + 4, 4) == "mdat" && be(head, f + 8, 8) == m.count + 16, "64-bit header of the media data");
    sym_assert(m.count + 8 > 0xFFFFFFFF, "only where 32 bits are not enough");
  } else {
    sym_assert(be(head, f, 4) == 8 && head.substr(f + 4, 4) == "free", "free box");
    sym_assert(be(head, f + 8, 4) == m.count + 8 && head.substr(f + 12, 4) == "mdat", "32-bit header of the media data");
  }
  check_movie(tail, m.all, n, f + 16, m.ids, m.totals, m.vide);
  sym_reach(big ? "big" : "small");
  sym_reach("end");
}
// any number of track ids
ENTRY h_ids() {
  FileBuf file;
  std::ostream os(&file);
  writer::SimpleWriter w(os, {.mvhd_timescale = 1000, .duration = 1.0f});
  std::vector<uint32_t> ids;
  uint64_t k = sym_pick(0, sym_param(0), "ids");
  for (uint64_t i = 0; i < k; i++) {
    uint32_t id = w.getAndUpdateNextTrackID();
    for (auto x : ids) sym_assert(x != id, "a new track id");
    sym_assert(id > 0, "a valid track id");
    ids.push_back(id);
  }
  w.writeFtypBox();
  w.appendTrakAndUdtaBoxInfo({});
  w.writeFreeBoxAndMdatHeader();
  w.writeMoovBox();
  auto b = boxes(file.str());
  sym_assert(b.size() == 4, "four boxes");
  check_movie(file.str().substr(b[3].at), {}, 0, 0, ids, {}, {});
  sym_reach("end");
}
