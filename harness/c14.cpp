// C14: files of the fast-start writer
#include <ostream>
#include "trackkit.hpp"
#include "env.h"
#include "shiguredo/mp4/writer/faststart_writer.hpp"
using namespace tk;
static std::vector<track::Track*> raw(Movie& m) {
  std::vector<track::Track*> t;
  for (auto& x : m.t) t.push_back(x.get());
  return t;
}
static void done(const std::string& path) {
  sym_assert(path.compare(0, 6, "tmp/mf") == 0 && path == rt_file.name, "the path of the intermediate file");
  sym_assert(rt_file.created == 1 && rt_file.closed == 1, "the intermediate file is closed once");
  sym_assert(!rt_file.exists && rt_file.removes == 1, "the intermediate file is removed");
  sym_assert(rt_file.misuse == 0, "the intermediate file is not used after it was closed");
}
// param: tracks, steps, size, brands, padding of media data
ENTRY h_file() {
  FileBuf file;
  std::ostream os(&file);
  Movie m;
  uint32_t brands = (uint32_t)sym_param(3);
  std::vector<Brand> compatible;
  for (uint32_t i = 0; i < brands; i++) {
    std::array<uint8_t, 4> a;
    for (auto& x : a) x = sym<uint8_t>("brand");
    compatible.push_back(Brand(a));
  }
  uint32_t minor = sym<uint32_t>("minor");
  std::string path;
  {
    writer::FaststartWriter w(os, {.mvhd_timescale = 1000, .duration = 4.0f, .mdat_path_templete = "tmp/mfXXXXXX", .ftyp_params = {.major_brand = BrandIsom, .minor_version = minor, .compatible_brands = compatible}});
    path = w.getIntermediateFilePath().string();
    int n = (int)sym_param(0);
    uint64_t pad = sym_param(4);
    if (pad) {  // media data that belongs to no track: makes the file longer than the copy buffer
      std::vector<uint8_t> d(pad);
      d[0] = sym<uint8_t>("first");
      d[pad / 2] = sym<uint8_t>("middle");
      d[pad - 1] = sym<uint8_t>("last");
      static_cast<writer::Writer&>(w).addMdatData(d);
      m.media.assign(d.begin(), d.end());
      m.count = pad;
    }
    if (throws([&] { w.writeFtypBox(); })) return sym_fail("file type is written");
    tracks(m, w, n);
    if (n && !feed(m, sym_pick(0, sym_param(1), "steps"), sym_param(2), false)) return sym_fail("sample is accepted");
    bool reported = false;
    if (throws([&] {
          w.appendTrakAndUdtaBoxInfo(raw(m));
          w.writeMoovBox();
          w.writeMdatHeader();
          w.copyMdatData();
        })) return sym_fail("the file is finished");
    (void)reported;
    done(path);
  }
  done(path);
  std::string s = file.str();
  auto b = boxes(s);
  sym_assert(kinds(s) == "ftyp moov mdat", "file type, movie, media data");
  if (b.size() < 3) return;
  std::string f = std::string("isom");
  for (int i = 3; i >= 0; i--) f.push_back((char)(minor >> (8 * i)));
  sym_assert(b[0].data.size() == 8 + 4 * brands && same(b[0].data.substr(0, 8), f), "file type");
  sym_assert(b[2].data.size() == m.media.size() && same(b[2].data, m.media), "the media data is exactly what was added");
  sym_assert(b[2].at + 8 + m.media.size() == s.size(), "small header of the media data");
  check_movie(s.substr(b[1].at, b[2].at - b[1].at), m.all, (int)sym_param(0), b[2].at + 8, m.ids, m.totals, m.vide);
  sym_reach("end");
}
// media data of any size: the bytes are only counted
ENTRY h_huge() {
  FileBuf file;
  std::ostream os(&file);
  Movie m;
  rt_file.virt = magic_bytes();
  writer::FaststartWriter w(os, {.mvhd_timescale = 1000, .duration = 4.0f, .mdat_path_templete = "tmp/mfXXXXXX"});
  if (throws([&] { w.writeFtypBox(); })) return sym_fail("file type is written");
  int n = (int)sym_param(0);
  tracks(m, w, n);
  if (!feed(m, sym_param(1), 0, true)) return sym_fail("sample is accepted");
  if (throws([&] {
        w.appendTrakAndUdtaBoxInfo(raw(m));
        w.writeMoovBox();
        w.writeMdatHeader();
      })) return sym_fail("the file is finished");
  sym_assert(rt_file.virt_bytes == m.count, "all the media data went to the intermediate file");
  std::string s = file.str();
  uint64_t f = sym_enum(be(s, 0, 4));
  sym_assert(s.size() > f + 8 && s.substr(4, 4) == "ftyp" && s.substr(f + 4, 4) == "moov", "file type, movie");
  if (s.size() < f + 8) return;
  uint64_t mv = sym_enum(be(s, f, 4));
  sym_assert(s.size() >= f + mv + 8 && s.substr(f + mv + 4, 4) == "mdat", "media data after the movie");
  uint64_t at = f + mv, h = s.size() - at;
  if (h == 8) sym_assert(be(s, at, 4) == m.count + 8, "32-bit header of the media data");
  else sym_assert(h == 16 && be(s, at, 4) == 1 && be(s, at + 8, 8) == m.count + 16, "64-bit header of the media data");
  sym_assert(h == (m.count + 8 > 0xFFFFFFFF ? 16u : 8u), "the header form the size needs");
  check_movie(s.substr(f, mv), m.all, n, at + h, m.ids, m.totals, m.vide);
  sym_reach(h == 16 ? "big" : "small");
  bool wide = false, narrow = false;
  for (auto& x : find(s.substr(f + 8, mv - 8), "trak/mdia/minf/stbl")) (find(x, "co64").empty() ? narrow : wide) = true;
  sym_reach(wide && narrow ? "mixed" : wide ? "wide" : "narrow");
  sym_reach("end");
}
// the template of the intermediate file is used, and a file that cannot be made is reported
ENTRY h_make() {
  FileBuf file;
  std::ostream os(&file);
  rt_file.fail_mkstemp = sym_pick(0, 1, "mkstemp");
  rt_file.fail_fdopen = sym_pick(0, 1, "fdopen");
  bool ok = true;
  if (throws([&] {
        writer::FaststartWriter w(os, {.duration = 4.0f, .mdat_path_templete = "tmp/mfXXXXXX"});
        sym_assert(w.getIntermediateFilePath().string() == rt_file.name, "the path of the intermediate file");
        w.deleteIntermediateFile();
        sym_assert(!rt_file.exists, "the intermediate file is deleted on request");
        ok = !throws([&] { w.deleteIntermediateFile(); });
        sym_assert(!ok, "a file that is not there is reported");
      })) sym_assert(rt_file.fail_mkstemp | rt_file.fail_fdopen, "refused only where no file could be made");
  else sym_assert(!rt_file.fail_mkstemp && !rt_file.fail_fdopen, "without an intermediate file there is no writer");
  sym_reach("end");
}
