// C20: streams that fail
#include <iostream>
#include "boxmake.hpp"
#include "trackkit.hpp"
#include "env.h"
#include "shiguredo/mp4/bitio/bitio.hpp"
#include "shiguredo/mp4/reader/reader.hpp"
#include "shiguredo/mp4/stream/stream.hpp"
#include "shiguredo/mp4/writer/faststart_writer.hpp"
#include "shiguredo/mp4/writer/simple_writer.hpp"
using namespace shiguredo::mp4;
// A file of which, by `mode`:
//  0  the `left`-th request for data is served in part only, and all later ones fail, too
//  1  the `left`-th request (seek, tell, write, read) fails, later ones work
//  2  like 1, but the request throws
struct Shaky : std::streambuf {
  std::string data;
  uint64_t pos = 0, left = 0, ops = 0;
  int mode = 0;
  bool hit = false;
  bool request() {
    if (mode == 0) return true;
    if (hit) return true;
    if (++ops != left) return true;
    hit = true;
    if (mode == 2) throw std::runtime_error("device");
    return false;
  }
  std::streamsize room(std::streamsize n) {
    if (mode != 0) return n;
    if (hit) return 0;
    if (++ops != left) return n;
    hit = true;
    uint64_t part = sym_pick(0, 2, "part");
    return part == 0 ? 0 : part == 1 ? n / 2 : n - 1;
  }
  std::streampos seekoff(std::streamoff o, std::ios_base::seekdir d, std::ios_base::openmode) override {
    if (!request()) return std::streampos(std::streamoff(-1));
    uint64_t p = d == std::ios_base::beg ? (uint64_t)o : d == std::ios_base::end ? data.size() + (uint64_t)o : pos + (uint64_t)o;
    if ((int64_t)p < 0) return std::streampos(std::streamoff(-1));
    pos = p;
    return std::streampos((std::streamoff)pos);
  }
  std::streampos seekpos(std::streampos p, std::ios_base::openmode m) override { return seekoff(std::streamoff(p), std::ios_base::beg, m); }
  std::streamsize xsputn(const char* s, std::streamsize n) override {
    if (n <= 0) return n;
    if (!request()) return 0;
    n = room(n);
    pos = sym_enum(pos);
    sym_assert(pos < 100000000, "a plausible place in the file");
    if (n > 0 && pos + (uint64_t)n > data.size()) data.resize(pos + (uint64_t)n);
    for (std::streamsize i = 0; i < n; i++) data[pos + (uint64_t)i] = s[i];
    pos += (uint64_t)n;
    return n;
  }
  int overflow(int c) override {
    char ch = (char)c;
    return xsputn(&ch, 1) == 1 ? (unsigned char)ch : -1;
  }
  std::streamsize xsgetn(char* d, std::streamsize n) override {
    if (n <= 0) return 0;
    if (!request()) return 0;
    pos = sym_enum(pos);
    uint64_t have = pos < data.size() ? data.size() - pos : 0;
    if ((uint64_t)n > have) n = (std::streamsize)have;
    n = room(n);
    for (std::streamsize i = 0; i < n; i++) d[i] = data[pos + (uint64_t)i];
    pos += (uint64_t)n;
    return n;
  }
  char one = 0;
  int underflow() override {
    if (!request()) return -1;
    pos = sym_enum(pos);
    return pos < data.size() && (mode != 0 || !hit) ? (unsigned char)data[pos] : -1;
  }
  int uflow() override {
    char c;
    return xsgetn(&c, 1) == 1 ? (unsigned char)c : -1;
  }
  void fault(int m, uint64_t max) {
    mode = m;
    left = sym_range(1, max, "request");
  }
};
static void mark(std::ios& s) {
  switch (sym_pick(0, 2, "state")) {
    case 0: s.setstate(std::ios::failbit); break;
    case 1: s.setstate(std::ios::badbit); break;
    default: s.setstate(std::ios::eofbit);
  }
}
static int g_mode() { return (int)sym_param(0); }
// runs one operation; it throws exactly if the stream failed in it
struct Watch {
  Shaky& b;
  bool failed = false;
  std::ios* dead = nullptr;  // before the dead_at-th operation this stream is marked as failed
  uint64_t dead_at = 0, n = 0;
  template <class F> bool operator()(F f) {
    if (dead && ++n == dead_at) {
      mark(*dead);
      size_t had = b.data.size();
      sym_assert(throws(f), "an operation on a stream that has failed reports it");
      sym_assert(b.data.size() == had, "nothing is written to it");
      failed = true;
      sym_reach("failed");
      return false;
    }
    bool before = b.hit | rt_file.hit;
    bool t = throws(f);
    bool after = b.hit | rt_file.hit;
    if (after && !before) {
      sym_assert(t, "a failure is reported by the operation in progress");
      sym_reach("failed");
      failed = true;
    } else if (!after) sym_assert(!t, "nothing else fails");
    return !failed;
  }
};
// ---- boxes: writing and reading
template <class B>
static void write_box(size_t n, unsigned v) {
  B b = mk::Mk<B>::make(n, v);
  mk::dress(b);
  Shaky f;
  std::ostream os(&f);
  f.fault(g_mode(), 100000);
  Watch w{f};
  if (w([&] { b.writeData(os); })) sym_reach("fine");
  obs_str(f.data);
}
template <class B>
static void read_box(size_t n, unsigned v) {
  B b = mk::Mk<B>::make(n, v);
  mk::dress(b);
  std::stringstream ss;
  b.writeData(ss);
  Shaky f;
  f.data = ss.str();
  std::istream is(&f);
  f.fault(g_mode(), 100000);
  B c;
  mk::like(c, b, v);
  Watch w{f};
  uint64_t r = 0;
  if (w([&] { r = c.readData(is); })) sym_reach("fine"), obs(r);
}
#define EACH(NAME, FN)                                  \
  ENTRY NAME() {                                        \
    size_t n = sym_param(2);                            \
    unsigned v = (unsigned)sym_param(3);                \
    switch (sym_param(1)) {                             \
      BOXES(FN)                                         \
    }                                                   \
    sym_reach("end");                                   \
  }
#define W(i, B) case i: write_box<box::B>(n, v); break;
#define R(i, B) case i: read_box<box::B>(n, v); break;
EACH(h_write, W)
EACH(h_read, R)
// streams that had failed before the operation began
template <class B>
static void dead_box(size_t n, unsigned v) {
  B b = mk::Mk<B>::make(n, v);
  mk::dress(b);
  std::stringstream ss;
  uint64_t bits = b.writeData(ss);
  Shaky f;
  {
    std::ostream os(&f);
    mark(os);
    bool t = throws([&] { b.writeData(os); });
    sym_assert(t || bits == 0, "writing to a stream that has failed is reported");
    sym_assert(f.data.empty(), "nothing is written to it");
  }
  f.data = ss.str();
  std::istream is(&f);
  mark(is);
  B c;
  mk::like(c, b, v);
  bool t = throws([&] { c.readData(is); });
  sym_assert(t || bits == 0, "reading from a stream that has failed is reported");
  sym_reach("done");
}
#define D(i, B) case i: dead_box<box::B>(n, v); break;
EACH(h_dead, D)
// ---- headers
ENTRY h_header() {
  Shaky f;
  std::iostream s(&f);
  uint64_t off = sym_range(0, 20, "offset"), large = sym_pick(0, 1, "large");
  off = sym_enum(off);
  BoxHeader h({.offset = off, .size = 100, .header_size = large ? 16u : 8u, .type = BoxType("mdat")});
  f.fault(g_mode(), 100);
  Watch w{f};
  if (w([&] { h.write(s); })) sym_reach("written");
  // reading it back
  Shaky g;
  g.data = f.data;
  g.data.resize(off + 100);
  if (f.hit) return;
  g.fault(g_mode(), 100);
  std::istream is(&g);
  BoxHeader* r = nullptr;
  Watch x{g};
  is.seekg((std::streamoff)off);
  if (!is.good() || g.hit) return;
  if (!x([&] { r = read_box_header(is); })) return;
  if (!r) return;
  sym_assert(r->getSize() == 100 && r->getOffset() == off, "the header that was written");
  if (x([&] { r->seekToData(is); }) && x([&] { r->seekToEnd(is); })) sym_reach("fine");
  delete r;
  sym_reach("end");
}
// ---- trees of boxes
ENTRY h_tree() {
  Shaky f;
  std::ostream os(&f);
  BoxInfo* top = new BoxInfo({.box = new box::Moov()});
  int n = (int)sym_param(1);
  BoxInfo* at = top;
  for (int i = 0; i < n; i++) {
    Box* b = sym_pick(0, 1, "kind") ? (Box*)new box::Free({.data = std::vector<uint8_t>(sym_pick(0, 2, "n"), 7)}) : (Box*)new box::Trak();
    BoxInfo* c = new BoxInfo({.parent = at, .box = b});
    if (sym_pick(0, 1, "down")) at = c;
  }
  top->adjustOffsetAndSize(sym_pick(0, 3, "offset"));
  f.fault(g_mode(), 400);
  Watch w{f};
  if (w([&] { top->write(os); })) sym_reach("fine");
  delete top;
  sym_reach("end");
}
// ---- bits
ENTRY h_bits() {
  Shaky f;
  std::iostream s(&f);
  f.fault(g_mode(), 100);
  {
    bitio::Writer wr(s);
    Watch w{f};
    uint64_t x = sym<uint64_t>("x");
    std::vector<uint8_t> v = sym_vec(3, "v");
    std::string str = "abc";
    if (!w([&] { bitio::write_uint<uint64_t>(&wr, x); })) return;
    if (!w([&] { bitio::write_uint<uint8_t>(&wr, (uint8_t)(x & 7), 3); })) return;
    if (!w([&] { bitio::write_uint<uint8_t>(&wr, 1, 5); })) return;
    if (!w([&] { bitio::write_vector_uint<uint8_t>(&wr, v); })) return;
    if (!w([&] { bitio::write_string(&wr, str); })) return;
    if (!w([&] { bitio::write_pascal_string(&wr, str); })) return;
    if (!w([&] { bitio::write_uvarint(&wr, x & 0xFFFFFFF); })) return;
    if (!w([&] { bitio::write_bool(&wr, true); })) return;
    if (!w([&] { bitio::write_uint<uint8_t>(&wr, 1, 7); })) return;
  }
  sym_reach("written");
  if (f.hit) return;
  Shaky g;
  g.data = f.data;
  std::istream is(&g);
  g.fault(g_mode(), 200);
  bitio::Reader rd(is);
  Watch w{g};
  uint64_t x = 0;
  uint8_t y = 0;
  bool bo = false;
  std::vector<uint8_t> v;
  std::string str;
  if (!w([&] { bitio::read_uint<uint64_t>(&rd, &x); })) return;
  if (!w([&] { bitio::read_uint<uint8_t>(&rd, &y, 3); })) return;
  if (!w([&] { bitio::read_uint<uint8_t>(&rd, &y, 5); })) return;
  if (!w([&] { bitio::read_vector_uint<uint8_t>(&rd, 3, &v); })) return;
  if (!w([&] { bitio::read_string(&rd, &str, 100); })) return;
  if (!w([&] { bitio::read_pascal_string(&rd, &str, 32); })) return;
  if (!w([&] { bitio::read_uvarint(&rd, &x); })) return;
  if (!w([&] { bitio::read_bool(&rd, &bo); })) return;
  if (!w([&] { bitio::read_uint<uint8_t>(&rd, &y, 7); })) return;
  if (!w([&] { stream::get_istream_offset_to_end(is); })) return;
  sym_reach("end");
}
// ---- whole files
static bool feed1(Watch& w, tk::Movie& m, uint64_t steps) {
  int last = -1;
  static const uint8_t d[] = {1, 2, 3};
  for (uint64_t i = 0; i < steps; i++) {
    int k = (int)sym_pick(0, m.t.size() - 1, "track");
    if (last >= 0 && last != k) m.t[(size_t)last]->terminateCurrentChunk();
    last = k;
    size_t n = sym_pick(1, 3, "size");
    if (!w([&] { m.t[(size_t)k]->addData(i * 960, d, n, true); })) return false;
  }
  return true;
}
static std::vector<track::Track*> raw(tk::Movie& m) {
  std::vector<track::Track*> t;
  for (auto& x : m.t) t.push_back(x.get());
  return t;
}
static void simple(Watch& w, tk::Movie& m, std::ostream& os) {
  writer::SimpleWriter wr(os, {.mvhd_timescale = 1000, .duration = 4.0f});
  if (!w([&] { wr.writeFtypBox(); })) return;
  tk::tracks(m, wr, (int)sym_param(1));
  static const uint8_t d[] = {1, 2, 3};
  if (!w([&] { wr.addMdatData(d, 3); })) return;
  if (!m.t.empty() && !feed1(w, m, sym_param(2))) return;
  if (w.dead) wr.appendTrakAndUdtaBoxInfo(raw(m));
  else if (!w([&] { wr.appendTrakAndUdtaBoxInfo(raw(m)); })) return;
  if (!w([&] { wr.writeFreeBoxAndMdatHeader(); })) return;
  if (!w([&] { wr.writeMoovBox(); })) return;
  sym_reach("fine");
}
ENTRY h_simple() {
  Shaky f;
  std::ostream os(&f);
  f.fault(g_mode(), 5000);
  tk::Movie m;
  Watch w{f};
  simple(w, m, os);
  sym_reach("end");
}
ENTRY h_dead_simple() {
  Shaky f;
  f.mode = 1;
  std::ostream os(&f);
  tk::Movie m;
  Watch w{f};
  w.dead = &os;
  w.dead_at = sym_pick(1, 6, "operation");
  simple(w, m, os);
  sym_reach("end");
}
ENTRY h_dead_misc() {
  Shaky f;
  f.mode = 1;
  f.data = std::string(40, 'x');
  std::iostream s(&f);
  mark(s);
  bool t = false;
  uint64_t large = sym_pick(0, 1, "large"), u = 0;
  bool bo = false;
  std::vector<uint8_t> v{1};
  std::string str = "a";
  BoxHeader h({.offset = 3, .size = 30, .header_size = large ? 16u : 8u, .type = BoxType("mdat")});
  bitio::Writer wr(s);
  bitio::Reader rd(s);
  switch (sym_pick(0, 16, "operation")) {
    case 0: t = throws([&] { h.write(s); }); break;
    case 1: t = throws([&] { delete read_box_header(s); }); break;
    case 2: t = throws([&] { stream::get_istream_offset_to_end(s); }); break;
    case 3: t = throws([&] { bitio::write_uint<uint64_t>(&wr, 5); }); break;
    case 4: t = throws([&] { bitio::write_uint<uint8_t>(&wr, 5, 3); bitio::write_uint<uint8_t>(&wr, 5, 5); }); break;
    case 5: t = throws([&] { bitio::write_vector_uint<uint8_t>(&wr, v); }); break;
    case 6: t = throws([&] { bitio::write_string(&wr, str); }); break;
    case 7: t = throws([&] { bitio::write_pascal_string(&wr, str); }); break;
    case 8: t = throws([&] { bitio::write_uvarint<uint64_t>(&wr, 5); }); break;
    case 9: t = throws([&] { bitio::read_uint<uint64_t>(&rd, &u); }); break;
    case 10: t = throws([&] { bitio::read_uint<uint64_t>(&rd, &u, 3); }); break;
    case 11: t = throws([&] { bitio::read_vector_uint<uint8_t>(&rd, 1, &v); }); break;
    case 12: t = throws([&] { bitio::read_string(&rd, &str, 100); }); break;
    case 13: t = throws([&] { bitio::read_pascal_string(&rd, &str, 32); }); break;
    case 14: t = throws([&] { bitio::read_uvarint(&rd, &u); }); break;
    case 15: t = throws([&] { bitio::read_bool(&rd, &bo); }); break;
    case 16: {
      BoxInfo* top = new BoxInfo({.box = new box::Moov()});
      new BoxInfo({.parent = top, .box = new box::Trak()});
      top->adjustOffsetAndSize(0);
      t = throws([&] { top->write(s); });
      delete top;
    }
  }
  sym_assert(t, "a stream that has failed is reported");
  sym_assert(f.data == std::string(40, 'x'), "nothing is written to it");
  sym_reach("end");
}
// the output, or (mode 3) the intermediate file fails
ENTRY h_faststart() {
  Shaky f;
  std::ostream os(&f);
  if (g_mode() == 3) {
    f.mode = 1;
    rt_file.fault_at = (int)sym_range(1, 100, "request");
    rt_file.part = (int)sym_pick(0, 2, "part");
  } else f.fault(g_mode(), 5000);
  {
    tk::Movie m;
    Watch w{f};
    [&] {
      writer::FaststartWriter wr(os, {.mvhd_timescale = 1000, .duration = 4.0f, .mdat_path_templete = "tmp/mfXXXXXX"});
      if (!w([&] { wr.writeFtypBox(); })) return;
      tk::tracks(m, wr, (int)sym_param(1));
      std::vector<uint8_t> d(sym_param(3) ? sym_param(3) : 3, 7);  // may be more than the copy buffer holds
      if (!w([&] { wr.addMdatData(d.data(), d.size()); })) return;
      if (!m.t.empty() && !feed1(w, m, sym_param(2))) return;
      if (!w([&] { wr.appendTrakAndUdtaBoxInfo(raw(m)); })) return;
      if (!w([&] { wr.writeMoovBox(); })) return;
      if (!w([&] { wr.writeMdatHeader(); })) return;
      if (!w([&] { wr.copyMdatData(); })) return;
      sym_reach("fine");
    }();
  }
  sym_assert(rt_file.misuse == 0, "the intermediate file is not used after it was closed");
  sym_reach("end");
}
// the reader on a whole file
ENTRY h_reader() {
  struct : std::streambuf {
    int overflow(int c) override { return c == -1 ? 0 : c; }
    std::streamsize xsputn(const char*, std::streamsize k) override { return k; }
  } null;
  Shaky g;
  {
    tk::FileBuf f;
    std::ostream os(&f);
    tk::Movie m;
    Shaky none;
    none.mode = 1;
    Watch w{none};
    simple(w, m, os);
    g.data = f.str();
  }
  g.fault(g_mode(), 20000);
  std::istream is(&g);
  std::streambuf* old = std::cout.rdbuf(&null);
  {
    Watch w{g};
    if (w([&] {
          reader::SimpleReader r(is);
          r.read();
        })) sym_reach("read");
  }
  std::cout.rdbuf(old);
  sym_reach("end");
}
