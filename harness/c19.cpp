// C19: elementary-stream descriptor trees
#include "boxmake.hpp"
#include "shiguredo/mp4/bitio/bitio.hpp"
#include "shiguredo/mp4/bitio/reader.hpp"
#include "shiguredo/mp4/bitio/writer.hpp"
using namespace shiguredo::mp4;
using namespace shiguredo::mp4::box;
// a descriptor to be built, with what its own fields must look like on the wire
struct Node {
  std::shared_ptr<Descriptor> d;
  uint8_t tag;
  std::string fields;
  std::vector<Node> kids;
};
static std::string num(uint64_t v, int n) {
  std::string s;
  for (int i = n - 1; i >= 0; i--) s.push_back((char)(v >> (8 * i)));
  return s;
}
static std::string bytes_of(const std::vector<uint8_t>& v) { return std::string(v.begin(), v.end()); }
static Node dsi(size_t n) {
  auto b = mk::bytes(n);
  return {std::make_shared<DecSpecificInfo>(DecSpecificInfoParameters{.data = b}), 5, bytes_of(b), {}};
}
static Node sl(size_t n) {
  auto b = mk::bytes(n);
  return {std::make_shared<SLConfigDescr>(SLConfigDescrParameters{.data = b}), 6, bytes_of(b), {}};
}
static Node dc(std::vector<Node> kids) {
  uint8_t ot = mk::u8(), st = mk::bits(6);
  bool up = mk::flag(), rs = mk::flag();
  uint32_t db = mk::u32() & 0xFFFFFF, mx = mk::u32(), av = mk::u32();
  auto d = std::make_shared<DecoderConfigDescriptor>(DecoderConfigDescriptorParameters{
      .object_type_indication = ot, .stream_type = (int8_t)st, .upstream = up, .reserved = rs, .buffer_size_db = db, .max_bitrate = mx, .avg_bitrate = av});
  for (auto& k : kids) d->addSubDescriptor(k.d);
  return {d, 4, num(ot, 1) + num((uint64_t)(st << 2 | up << 1 | rs), 1) + num(db, 3) + num(mx, 4) + num(av, 4), kids};
}
static Node es(size_t n, std::vector<Node> kids) {
  uint16_t id = mk::u16(), dep = mk::u16(), ocr = mk::u16();
  bool fd = sym_pick(0, 1, "dependent"), fu = sym_pick(0, 1, "url"), fo = sym_pick(0, 1, "ocr");
  uint8_t pr = mk::bits(5);
  auto url = mk::bytes(n);
  auto d = std::make_shared<ESDescriptor>(ESDescriptorParameters{.ESID = id, .stream_dependence_flag = fd, .url_flag = fu, .ocr_stream_flag = fo, .stream_priority = (int8_t)pr,
                                                                 .depends_on_esid = dep, .url_string = url, .OCRESID = ocr});
  for (auto& k : kids) d->addSubDescriptor(k.d);
  std::string f = num(id, 2) + num((uint64_t)(fd << 7 | fu << 6 | fo << 5 | pr), 1);
  if (fd) f += num(dep, 2);
  if (fu) f += num(n, 1) + bytes_of(url);
  if (fo) f += num(ocr, 2);
  return {d, 3, f, kids};
}
static void preorder(const Node& n, std::vector<std::shared_ptr<Descriptor>>& v) {
  v.push_back(n.d);
  for (auto& k : n.kids) preorder(k, v);
}
// checks the descriptor at p against the tree; returns where it ends
static size_t check(const std::string& s, size_t p, const Node& n) {
  if (p + 2 > s.size()) return sym_fail("a descriptor is there"), s.size();
  sym_assert((uint8_t)s[p] == n.tag, "tag");
  p++;
  uint64_t len = 0;
  for (int i = 0; i < 4; i++) {
    if (p >= s.size()) return sym_fail("length is there"), s.size();
    uint8_t b = (uint8_t)s[p++];
    len = len << 7 | (b & 0x7F);
    if (!(b & 0x80)) break;
    if (i == 3) sym_fail("length ends");
  }
  size_t from = p;
  if (p + n.fields.size() > s.size()) return sym_fail("fields are there"), s.size();
  sym_assert(same(s.substr(p, n.fields.size()), n.fields), "field values, optional ones when flagged");
  p += n.fields.size();
  for (auto& k : n.kids) p = check(s, p, k);
  sym_assert(len == p - from, "announced length covers its fields and all its sub-descriptors");
  sym_assert(n.d->getDataSizeWithSubDescriptors() == p - from, "size with sub-descriptors");
  sym_assert(n.d->getDataSize() == n.fields.size(), "size of its own fields");
  return p;
}
static std::vector<Node> shape(unsigned k, size_t n, size_t m) {
  switch (k) {
    case 0: return {es(m, {dc({dsi(n)}), sl(1)})};
    case 1: return {es(m, {dc({}), sl(n)})};
    case 2: return {es(m, {dc({dsi(n)})})};
    case 3: return {es(m, {sl(n)})};
    case 4: return {es(m, {})};
    case 5: return {dc({dsi(n)})};
    case 6: return {dc({dsi(n), dsi(m), sl(1)})};
    case 7: return {es(0, {dc({dsi(n)}), sl(1)}), es(m, {dc({}), sl(m)})};
    case 8: return {es(m, {dc({dsi(n), sl(2)})})};
    case 9: return {es(m, {dc({}), dc({dsi(n)}), dsi(1), sl(n)})};
    case 10: return {dsi(n), sl(m)};
    case 11: return {es(m, {es(0, {dc({dsi(n)})}), sl(1)})};
    default: return {};
  }
}
ENTRY h_tree() {
  size_t n = sym_pick(sym_param(1), sym_param(2), "info"), m = sym_pick(sym_param(3), sym_param(4), "urllen");
  auto roots = shape((unsigned)sym_param(0), n, m);
  std::vector<std::shared_ptr<Descriptor>> flat;
  for (auto& r : roots) preorder(r, flat);
  Esds b({.descriptors = flat});
  std::stringstream s1;
  if (throws([&] { b.writeData(s1); })) return sym_fail("tree can be written");
  std::string p = s1.str();
  obs_str(p);
  size_t at = 4;
  for (auto& r : roots) at = check(p, at, r);
  sym_assert(at == p.size(), "nothing else is written");
  sym_assert(b.getDataSize() == p.size(), "announced payload size");
  Esds c;
  std::stringstream s2(p), s3;
  uint64_t r = 0;
  if (throws([&] { r = c.readData(s2); })) return sym_fail("own payload is accepted");
  sym_assert(r == p.size() * 8, "all of the payload is parsed");
  sym_assert(c.getDataSize() == p.size(), "parsed payload size");
  if (throws([&] { c.writeData(s3); })) return sym_fail("parsed tree can be written");
  sym_assert(same(s3.str(), p), "the same tree with the same values");
  sym_reach("end");
}
// parsing one descriptor by itself keeps its lengths
template <class D>
static void back(const std::string& s, const Node& n) {
  std::stringstream is(s);
  bitio::Reader r(is);
  uint8_t tag = 0;
  D d;
  uint64_t bits = 0;
  if (throws([&] { bits = bitio::read_uint<std::uint8_t>(&r, &tag) + d.readData(&r); })) return sym_fail("own descriptor is accepted");
  sym_assert(d.getDataSize() == n.fields.size(), "own fields");
  sym_assert(d.getDataSizeWithSubDescriptors() == n.d->getDataSizeWithSubDescriptors(), "length with sub-descriptors");
  sym_assert(d.getSize() == n.d->getSize(), "size of the descriptor");
  sym_assert(d.getSize() * 8 == bits, "size is what is written");
}
ENTRY h_one() {
  size_t n = sym_pick(0, sym_param(1), "length");
  Node x = sym_param(0) == 0 ? es(n, {dc({dsi(n)}), sl(1)}) : sym_param(0) == 1 ? dc({dsi(n)}) : sym_param(0) == 2 ? dsi(n) : sl(n);
  std::stringstream os;
  {
    bitio::Writer w(os);
    uint64_t b = 0;
    if (throws([&] { b = x.d->writeData(&w); })) return sym_fail("descriptor can be written");
    sym_assert(b == x.d->getSize() * 8, "announced size");
  }
  std::string s = os.str();
  sym_assert(s.size() == x.d->getSize(), "written size");
  switch (sym_param(0)) {
    case 0: back<ESDescriptor>(s, x); break;
    case 1: back<DecoderConfigDescriptor>(s, x); break;
    case 2: back<DecSpecificInfo>(s, x); break;
    default: back<SLConfigDescr>(s, x); break;
  }
  sym_reach("end");
}
// a url that does not fit its length byte
ENTRY h_url() {
  size_t n = sym_param(0);
  ESDescriptor d(ESDescriptorParameters{.url_flag = true, .url_string = mk::bytes(n)});
  std::stringstream os;
  bitio::Writer w(os);
  bool t = throws([&] { d.writeData(&w); });
  if (n > 255) sym_assert(t, "a url that does not fit is refused");
  else if (t) sym_fail("a url that fits is written");
  else sym_assert(os.str().size() == 5 + 3 + 1 + n && (uint8_t)os.str()[8] == n, "url and its length");
  sym_reach("end");
}
// descriptors of any kind, announced with any length, with too few or too many bytes
ENTRY h_wrong() {
  int k = (int)sym_param(0);
  std::string s = num(0, 4);
  for (int i = 0; i < k; i++) {
    uint8_t tag = sym_param(2) ? (uint8_t)sym_param(2) : mk::u8("tag");
    s.push_back((char)tag);
    uint32_t len = mk::u32("length");
    for (int j = 3; j >= 0; j--) s.push_back((char)((len >> (7 * j) & 0x7F) | (j ? 0x80 : 0)));
    s += sym_str(sym_pick(sym_param(2) ? 11 : 0, sym_param(1), "size"), "content");
  }
  Esds c;
  std::stringstream s2(s), s3, s4;
  uint64_t r = 0;
  bool t = throws([&] { r = c.readData(s2); });
  if (!t) {
    sym_assert(r == s.size() * 8, "all of an accepted payload is accounted for");
    sym_reach("accepted");
  }
  bool w = throws([&] { c.writeData(s3); });
  obs<bool>(w);
  sym_reach("end");
}
