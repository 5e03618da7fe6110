// C09: the reader on whole files
#include <iostream>
#include "boxmake.hpp"
#include "streams.hpp"
#include "shiguredo/mp4/reader/reader.hpp"
using namespace shiguredo::mp4;
// counts the lines of the report and remembers which bytes of the file were read
struct Lines : std::streambuf {
  int n = 0;
  int overflow(int c) override {
    n += c == '\n';
    return c == -1 ? 0 : c;
  }
  std::streamsize xsputn(const char* s, std::streamsize k) override {
    for (std::streamsize i = 0; i < k; i++) n += s[i] == '\n';
    return k;
  }
};
struct Seen : std::streambuf {
  const std::string& s;
  size_t pos = 0;
  std::vector<bool> seen;
  explicit Seen(const std::string& f) : s(f), seen(f.size()) {}
  std::streampos seekoff(std::streamoff o, std::ios_base::seekdir d, std::ios_base::openmode) override {
    uint64_t p = d == std::ios_base::beg ? (uint64_t)o : d == std::ios_base::end ? s.size() + (uint64_t)o : pos + (uint64_t)o;
    p = sym_enum(p);
    if (p > s.size()) return std::streampos(std::streamoff(-1));
    pos = p;
    return std::streampos((std::streamoff)pos);
  }
  std::streampos seekpos(std::streampos p, std::ios_base::openmode m) override { return seekoff(std::streamoff(p), std::ios_base::beg, m); }
  std::streamsize xsgetn(char* d, std::streamsize n) override {
    std::streamsize k = 0;
    for (; k < n && pos < s.size(); k++, pos++) d[k] = s[pos], seen[pos] = true;
    return k;
  }
  int underflow() override { return pos < s.size() ? (unsigned char)s[pos] : -1; }
  int uflow() override {
    if (pos >= s.size()) return -1;
    seen[pos] = true;
    return (unsigned char)s[pos++];
  }
};
// reads the file; the reader is destroyed before this returns
static bool read(std::istream& is, int* lines = nullptr) {
  Lines out;
  std::streambuf* old = std::cout.rdbuf(&out);
  bool ok = !throws([&] {
    reader::SimpleReader r(is);
    r.read();
  });
  std::cout.rdbuf(old);
  if (lines) *lines = out.n;
  sym_reach(ok ? "accepted" : "refused");
  obs(ok);
  return ok;
}
static std::string header(uint64_t size, const std::string& type, bool large) {
  std::string r;
  for (int i = 3; i >= 0; i--) r.push_back((char)((large ? 1 : size) >> (8 * i)));
  r += type;
  if (large)
    for (int i = 7; i >= 0; i--) r.push_back((char)(size >> (8 * i)));
  return r;
}
// any bytes at all
ENTRY h_any() {
  std::string s = sym_str(sym_pick(sym_param(0), sym_param(1), "n"), "in");
  std::stringstream is(s);
  read(is);
  sym_reach("end");
}
static const char* const LEAF[] = {"free", "skip", "mdat", "zzzz"};
static const char* const BOTH[] = {"free", "zzzz", "moov", "udta", "meta", "stsd", "dref", "mp4a", "avc1", "ilst", "wave"};
// boxes that accept any payload, one after the other, with any size fields: accepted exactly if they fill the file
ENTRY h_sizes() {
  uint64_t n = sym_param(0);
  size_t len = sym_param(1);
  std::string s = sym_str(len, "in");
  // the types sit wherever the sizes put them
  size_t p = 0;
  bool good = true, bad = false;
  uint64_t count = 0;
  while (p < len) {
    if (count == n) sym_assume(false);
    if (len - p < 8) {
      good = false;
      bad = true;
      break;
    }
    const char* t = LEAF[sym_pick(0, 3, "type")];
    for (size_t i = 0; i < 4; i++) s[p + 4 + i] = t[i];
    count++;
    uint64_t size = be(s, p, 4), h = 8;
    if (size == 1) {
      if (len - p < 16) {
        bad = true;
        break;
      }
      size = be(s, p + 8, 8);
      h = 16;
    }
    if (size == 0 && h == 8) size = len - p;
    if ((size < h) | (size > len - p)) {
      bad = true;
      break;
    }
    p += sym_enum(size);
  }
  (void)good;
  Seen in(s);
  std::istream is(&in);
  int lines = 0;
  bool ok = read(is, &lines);
  sym_assert(ok == !bad, "refused exactly where a size is wrong");
  if (ok) sym_assert((uint64_t)lines >= count, "every box is reported");
  sym_reach("end");
}
// what precedes the children of a box, or the contents of a box that has none
static std::string payload(const std::string& t, size_t n) {
  if (t == "stsd" || t == "dref") return std::string(8, '\0');
  if (t == "meta") return std::string(4, '\0');
  if (t == "mp4a") return std::string(28, '\0');
  if (t == "avc1") return std::string(78, '\0');
  if (t == "free" || t == "skip" || t == "mdat" || t == "zzzz") return sym_str(n, "data");
  return "";
}
// a container of each kind with any size field and what must precede its children, then any bytes
ENTRY h_nested() {
  const char* t = BOTH[sym_param(0)];
  std::string fill = payload(t, 0);
  size_t len = 8 + fill.size() + sym_param(1);
  std::string s = header(0, t, false) + fill + sym_str(sym_param(1), "in");
  for (size_t i = 0; i < 4; i++) s[i] = (char)sym<uint8_t>("size");
  uint64_t size = be(s, 0, 4);
  if (size == 0) size = len;
  if (size == 1) sym_assume(false);
  bool wrong = (size < 8) | (size > len);
  std::stringstream is(s);
  bool ok = read(is);
  sym_assert(!(ok & wrong), "a wrong size of the first box is refused");
  sym_reach("end");
}
// a box whose size is wrong in a file of any length
ENTRY h_far() {
  uint64_t total = sym_range(16, (uint64_t)1 << 40, "total"), at = sym_param(0) ? 24 : 0;
  uint64_t size = sym<uint64_t>("size");
  bool large = sym_pick(0, 1, "large");
  if (!large) sym_assume((size <= 0xFFFFFFFF) & (size > 1));
  std::string win = (at ? header(24, "free", false) + std::string(16, 'x') : std::string()) + header(size, LEAF[sym_pick(0, 3, "type")], large);
  sym_assume(total >= win.size());
  sym_assume((size < (large ? 16u : 8u)) | (size > total - at));
  HugeBuf buf(0, win, total);
  std::istream is(&buf);
  sym_assert(!read(is), "a wrong size is refused");
  sym_reach("end");
}
struct Tree {
  std::string bytes;
  std::vector<size_t> headers;  // where the headers are
  int top = 0;
};
// well-formed boxes with their children
static void grow(Tree& out, const char* const* kinds, size_t nk, uint64_t& budget, int depth, bool top) {
  while (budget > 0 && (top ? (out.top == 0 || sym_pick(0, 1, "more")) : sym_pick(0, 1, "child"))) {
    budget--;
    std::string t = kinds[sym_pick(0, nk - 1, "kind")];
    bool large = sym_pick(0, 1, "large");
    bool leaf = t == "free" || t == "skip" || t == "mdat" || t == "zzzz";
    std::string d = payload(t, leaf ? sym_pick(0, 2, "n") : 0);
    Tree sub;
    if (!leaf && depth > 0) grow(sub, kinds, nk, budget, depth - 1, false);
    std::string h = header((large ? 16 : 8) + d.size() + sub.bytes.size(), t, large);
    size_t at = out.bytes.size();
    out.headers.push_back(at);
    for (size_t x : sub.headers) out.headers.push_back(at + h.size() + d.size() + x);
    out.bytes += h + d + sub.bytes;
    if (top) out.top++;
  }
}
ENTRY h_tree() {
  static const char* const k0[] = {"moov", "free"};
  static const char* const k1[] = {"trak", "stsd", "mp4a", "zzzz"};
  static const char* const k2[] = {"meta", "dref", "udta", "mdat"};
  static const char* const k3[] = {"avc1", "stbl", "skip"};
  const char* const* k[] = {k0, k1, k2, k3};
  static const size_t nk[] = {2, 4, 4, 3};
  Tree t;
  uint64_t budget = sym_param(1);
  grow(t, k[sym_param(0)], nk[sym_param(0)], budget, (int)sym_param(2), true);
  Seen in(t.bytes);
  std::istream is(&in);
  int lines = 0;
  bool ok = read(is, &lines);
  sym_assert(ok, "a well-formed file is accepted");
  sym_assert(lines >= t.top, "every top-level box is reported");
  for (size_t x : t.headers)
    for (size_t i = 0; i < 8; i++) sym_assert(in.seen[x + i], "the header of every box is read");
  sym_reach("end");
}
// one box of every class with any contents, inside a container, between other boxes
template <class B>
static void one(size_t n, unsigned v) {
  B b = mk::Mk<B>::make(n, v);
  mk::dress(b);
  std::stringstream ss;
  b.writeData(ss);
  std::string d = ss.str(), type;
  auto ty = b.getType().getData();
  if constexpr (std::is_base_of_v<AnyTypeBox, B>) {
    static const char* const names[] = {"avc1", "av01", "mp4a", "Opus", "----", "trkn", "avcC", "avcC", "pasp", "pasp"};
    size_t first = std::is_same_v<B, box::VisualSampleEntry> ? 0 : std::is_same_v<B, box::AudioSampleEntry> ? 2 : std::is_same_v<B, box::IlstMeta> ? 4 : std::is_same_v<B, box::AVCDecoderConfiguration> ? 6 : 8;
    type = names[first + sym_pick(0, 1, "name")];
    sym_assume((ty[0] == (uint8_t)type[0]) & (ty[1] == (uint8_t)type[1]) & (ty[2] == (uint8_t)type[2]) & (ty[3] == (uint8_t)type[3]));
  } else
    for (auto c : ty) type.push_back((char)sym_enum(c));
  std::string box = header(8 + d.size(), type, false) + d, inner = box + header(8, "free", false);
  std::string s = header(16, "skip", false) + std::string(8, 'q') + header(8 + inner.size(), std::is_same_v<B, box::AudioSampleEntry> && v == 3 ? "wave" : "udta", false) + inner + header(8, "mdat", false);
  Seen in(s);
  std::istream is(&in);
  int lines = 0;
  sym_assert(read(is, &lines), "a well-formed file is accepted");
  sym_assert(lines >= 3, "every top-level box is reported");
  size_t at[] = {0, 16, 24, 24 + box.size(), 24 + inner.size()};
  for (size_t x : at)
    for (size_t i = 0; i < 8; i++) sym_assert(in.seen[x + i], "the header of every box is read");
}
ENTRY h_box() {
  size_t n = sym_param(1);
  unsigned v = (unsigned)sym_param(2);
  switch (sym_param(0)) {
#define X(i, B) case i: one<box::B>(n, v); break;
    BOXES(X)
#undef X
  }
  sym_reach("end");
}
// boxes within boxes
ENTRY h_deep() {
  uint64_t n = sym_param(0);
  std::string s;
  for (uint64_t i = 0; i < n; i++) s += header(8 * (n - i), i % 2 ? "udta" : "moov", false);
  std::stringstream is(s);
  bool ok = read(is);
  if (n <= 100) sym_assert(ok, "ordinary nesting is accepted");
  sym_reach("end");
}
