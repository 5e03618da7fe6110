// C11: laying out a box tree
#include "streams.hpp"
#include "shiguredo/mp4/box_info.hpp"
#include "shiguredo/mp4/box/free.hpp"
#include "shiguredo/mp4/box/moov.hpp"
#include "shiguredo/mp4/box/trak.hpp"
#include "shiguredo/mp4/box/mdhd.hpp"
using namespace shiguredo::mp4;
struct Node { int parent; FatBox* box; BoxInfo* info; std::vector<int> kids; };
static std::vector<Node> tree(int n, uint64_t cap, bool body) {
  std::vector<Node> v;
  for (int i = 0; i < n; i++) {
    int p = i == 0 ? -1 : i == 1 ? 0 : (int)sym_pick(0, (uint64_t)i - 1, "parent");
    uint64_t d = body ? sym_pick(0, cap, "size") : sym_range(0, cap, "size");
    std::array<uint8_t, 4> t{'b', 'o', 'x', (uint8_t)('0' + i)};
    auto b = new FatBox(d, t, body ? sym_str(d, "body") : std::string());
    auto info = new BoxInfo({.parent = p < 0 ? nullptr : v[(size_t)p].info, .box = b});
    v.push_back({p, b, info, {}});
    if (p >= 0) v[(size_t)p].kids.push_back(i);
  }
  return v;
}
// every box against its neighbours; together this is the tiling of the whole tree
static uint64_t check(std::vector<Node>& t, int i, uint64_t at) {
  Node& n = t[(size_t)i];
  sym_assert(place(*n.box) == at, "starts where its predecessor ends");
  uint64_t contents = n.box->size;
  for (int k : n.kids) contents += t[(size_t)k].box->getSize();
  uint64_t hs = contents + 8 <= 0xFFFFFFFF ? 8 : 16;
  sym_assert(n.box->getHeaderSize() == hs, "header form fits the size");
  sym_assert(n.box->getSize() == hs + contents, "size covers header, payload and children");
  sym_assert(n.info->getSize() == n.box->getSize(), "size of the node");
  uint64_t p = at + n.box->getHeaderSize() + n.box->size;
  for (int k : n.kids) p = check(t, k, p);
  return at + n.box->getSize();
}
static void verify(std::vector<Node>& t, uint64_t off, uint64_t ret) {
  sym_assert(ret == t[0].box->getSize(), "returns the size of the tree");
  check(t, 0, off);
}
ENTRY h_layout() {
  int n = (int)sym_param(0);
  int64_t live = sym_live_heap();
  {
    auto t = tree(n, (uint64_t)1 << sym_param(1), false);
    uint64_t off = sym_range(0, (uint64_t)1 << sym_param(1), "offset");
    uint64_t r = t[0].info->adjustOffsetAndSize(off);
    obs(r);
    verify(t, off, r);
    r = t[0].info->adjustOffsetAndSize(off);
    verify(t, off, r);
    sym_reach("laid");
    delete t[0].info;
  }
  sym_assert(sym_live_heap() == live, "the tree is freed once");
  sym_reach("end");
}
// sizes and place change between two layouts (a writer lays out again after adding boxes)
ENTRY h_relayout() {
  int n = (int)sym_param(0);
  auto t = tree(n, (uint64_t)1 << 40, false);
  t[0].info->adjustOffsetAndSize(sym_range(0, (uint64_t)1 << 40, "offset"));
  int w = (int)sym_pick(0, (uint64_t)n - 1, "which");
  t[(size_t)w].box->size = sym_range(0, (uint64_t)1 << 40, "size");
  uint64_t off = sym_range(0, (uint64_t)1 << 40, "offset");
  uint64_t r = t[0].info->adjustOffsetAndSize(off);
  obs(r);
  verify(t, off, r);
  sym_reach("laid");
  delete t[0].info;
  sym_reach("end");
}
static void expect(std::vector<Node>& t, int i, std::vector<RecBuf::W>& e) {
  Node& n = t[(size_t)i];
  uint64_t at = place(*n.box), hs = n.box->getHeaderSize(), size = n.box->getSize();
  std::string h(hs, '\0');
  for (int k = 0; k < 4; k++) h[(size_t)k] = (char)((hs == 16 ? 1 : size) >> (24 - 8 * k));
  auto ty = n.box->getType().getData();
  for (size_t k = 0; k < 4; k++) h[4 + k] = (char)ty[k];
  if (hs == 16)
    for (int k = 0; k < 8; k++) h[(size_t)(8 + k)] = (char)(size >> (56 - 8 * k));
  e.push_back({at, h});
  if (!n.box->body.empty()) e.push_back({at + hs, n.box->body});
  for (int k : n.kids) expect(t, k, e);
}
static std::vector<std::pair<uint64_t, char>> bytes(const std::vector<RecBuf::W>& log) {
  std::vector<std::pair<uint64_t, char>> r;
  for (auto& w : log)
    for (size_t i = 0; i < w.data.size(); i++) r.push_back({w.at + i, w.data[i]});
  return r;
}
// huge boxes: each header goes to its assigned place and nothing else is written
ENTRY h_write_huge() {
  int n = (int)sym_param(0);
  auto t = tree(n, (uint64_t)1 << 40, false);
  t[0].info->adjustOffsetAndSize(sym_range(0, (uint64_t)1 << 40, "offset"));
  std::vector<RecBuf::W> e;
  expect(t, 0, e);
  RecBuf buf;
  std::ostream os(&buf);
  if (throws([&] { t[0].info->write(os); })) return sym_fail("tree can be written");
  // byte for byte in the order written, however the writes are cut up
  auto got = bytes(buf.log), want = bytes(e);
  sym_assert(got.size() == want.size(), "the headers and nothing else");
  for (size_t i = 0; i < got.size() && i < want.size(); i++) {
    sym_assert(got[i].first == want[i].first, "header at its place");
    sym_assert(got[i].second == want[i].second, "header bytes");
  }
  sym_reach("written");
  delete t[0].info;
  sym_reach("end");
}
// small boxes with contents: the file is exactly the tiling
static void render(std::vector<Node>& t, int i, std::string& out) {
  Node& n = t[(size_t)i];
  size_t at = out.size();
  out.append(8, '\0');
  auto ty = n.box->getType().getData();
  for (size_t k = 0; k < 4; k++) out[at + 4 + k] = (char)ty[k];
  out += n.box->body;
  for (int k : n.kids) render(t, k, out);
  uint64_t s = out.size() - at;
  for (size_t k = 0; k < 4; k++) out[at + k] = (char)(s >> (24 - 8 * k));
}
ENTRY h_write() {
  int n = (int)sym_param(0);
  auto t = tree(n, sym_param(1), true);
  uint64_t off = sym_pick(0, 2, "offset");
  std::string old = sym_str(64, "old");
  t[0].info->adjustOffsetAndSize(off);
  std::stringstream ss(old, std::ios_base::in | std::ios_base::out);
  if (throws([&] { t[0].info->write(ss); })) return sym_fail("tree can be written");
  std::string want = old.substr(0, off);
  std::string file;
  render(t, 0, file);
  want += file;
  if (want.size() < old.size()) want += old.substr(want.size());
  std::string got = ss.str();
  obs_str(got);
  sym_assert(same(got, want), "exactly the tiling is written");
  // writing again (after laying out again) writes the same
  t[0].info->adjustOffsetAndSize(off);
  std::stringstream s2(old, std::ios_base::in | std::ios_base::out);
  t[0].info->write(s2);
  sym_assert(same(s2.str(), want), "and the same a second time");
  sym_reach("written");
  delete t[0].info;
  sym_reach("end");
}
// real boxes: moov(trak(mdhd, free), free) with lists of symbolic content
ENTRY h_real() {
  size_t a = sym_pick(0, 2, "a"), b = sym_pick(0, 2, "b");
  auto moov = new BoxInfo({.box = new box::Moov()});
  auto trak = new BoxInfo({.parent = moov, .box = new box::Trak()});
  uint8_t ver = (uint8_t)sym_pick(0, 1, "v");
  auto mdhd = new box::Mdhd({.version = ver, .creation_time = sym<uint64_t>("c"), .modification_time = 0, .timescale = 1, .duration = sym<uint64_t>("d")});
  new BoxInfo({.parent = trak, .box = mdhd});
  auto fa = new box::Free({.data = sym_vec(a, "fa")});
  auto fb = new box::Free({.data = sym_vec(b, "fb")});
  new BoxInfo({.parent = trak, .box = fa});
  new BoxInfo({.parent = moov, .box = fb});
  uint64_t off = sym_pick(0, 1, "off");
  moov->adjustOffsetAndSize(off);
  std::stringstream ss;
  ss.write("z", (std::streamsize)off);
  moov->write(ss);
  std::string f = ss.str();
  obs_str(f);
  size_t md = ver ? 36 : 24;
  sym_assert(f.size() == off + 8 + 8 + 8 + md + 8 + a + 8 + b, "file length");
  sym_assert(be(f, off, 4) == f.size() - off && f.substr(off + 4, 4) == "moov", "moov");
  sym_assert(be(f, off + 8, 4) == 8 + 8 + md + 8 + a && f.substr(off + 12, 4) == "trak", "trak");
  sym_assert(be(f, off + 16, 4) == 8 + md && f.substr(off + 20, 4) == "mdhd", "mdhd");
  sym_assert(be(f, off + 24 + md, 4) == 8 + a && f.substr(off + 28 + md, 4) == "free", "inner free");
  sym_assert(be(f, off + 32 + md + a, 4) == 8 + b && f.substr(off + 36 + md + a, 4) == "free", "outer free");
  sym_assert(place(*mdhd) == off + 16 && place(*fb) == off + 32 + md + a, "assigned places");
  delete moov;
  sym_reach("end");
}
