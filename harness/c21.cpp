// C21: the registry of box types
#include "common.hpp"
#include "boxlist.hpp"
#include "shiguredo/mp4/box_map.hpp"
#include "shiguredo/mp4/box_types.hpp"
using namespace shiguredo::mp4;
struct Row { const char* type; bool (*is)(Box*); int versions; };  // bit i: version i is listed; 0: no list
template <class B> bool is(Box* b) { return dynamic_cast<B*>(b) != nullptr; }
#define R(t, B, v) {t, is<box::B>, v}
static const Row table[] = {
    R("btrt", Btrt, 0), R("co64", Co64, 1), R("colr", Colr, 0), R("ctts", Ctts, 3), R("data", Data, 0), R("dinf", Dinf, 0), R("dOps", DOps, 0), R("dref", Dref, 1), R("edts", Edts, 0),
    R("elst", Elst, 3), R("emsg", Emsg, 3), R("esds", Esds, 1), R("fiel", Fiel, 0), R("free", Free, 0), R("ftyp", Ftyp, 0), R("hdlr", Hdlr, 1), R("ilst", Ilst, 0), R("iods", Iods, 1),
    R("mdat", Mdat, 0), R("mdhd", Mdhd, 3), R("mdia", Mdia, 0), R("mehd", Mehd, 3), R("meta", Meta, 1), R("mfhd", Mfhd, 1), R("mfra", Mfra, 0), R("mfro", Mfro, 1), R("minf", Minf, 0),
    R("moof", Moof, 0), R("moov", Moov, 0), R("mvex", Mvex, 0), R("mvhd", Mvhd, 3), R("pssh", Pssh, 3), R("sbgp", Sbgp, 3), R("schi", Schi, 0), R("sdtp", Sdtp, 1), R("sgpd", Sgpd, 6),
    R("sidx", Sidx, 3), R("sinf", Sinf, 0), R("skip", Skip, 0), R("smhd", Smhd, 1), R("stbl", Stbl, 0), R("stco", Stco, 0), R("stsc", Stsc, 1), R("stsd", Stsd, 1), R("stss", Stss, 1),
    R("stsz", Stsz, 1), R("stts", Stts, 1), R("styp", Styp, 0), R("tfdt", Tfdt, 3), R("tfhd", Tfhd, 1), R("tfra", Tfra, 3), R("tkhd", Tkhd, 3), R("traf", Traf, 0), R("trak", Trak, 0),
    R("trex", Trex, 1), R("trun", Trun, 3), R("udta", Udta, 0), R("vmhd", Vmhd, 1), R("url ", Url, 1), R("urn ", Urn, 1), R("wave", Wave, 1), R("avc1", VisualSampleEntry, 1),
    R("encv", VisualSampleEntry, 1), R("vp08", VisualSampleEntry, 1), R("vp09", VisualSampleEntry, 1), R("vp10", VisualSampleEntry, 1), R("av01", VisualSampleEntry, 1),
    R("mp4a", AudioSampleEntry, 1), R("enca", AudioSampleEntry, 1), R("Opus", AudioSampleEntry, 1), R("avcC", AVCDecoderConfiguration, 1), R("vpcC", VPCodecConfiguration, 3),
    R("av1C", AV1CodecConfiguration, 0), R("pasp", PixelAspectRatio, 1),
#define M(t) R(t, IlstMeta, 0)
    M("----"), M("aART"), M("akID"), M("apID"), M("atID"), M("cmID"), M("cnID"), M("covr"), M("cpil"), M("cprt"),
    M("desc"), M("disk"), M("egid"), M("geID"), M("gnre"), M("pcst"), M("pgap"), M("plID"), M("purd"), M("purl"),
    M("rtng"), M("sfID"), M("soaa"), M("soal"), M("soar"), M("soco"), M("sonm"), M("sosn"), M("stik"), M("tmpo"),
    M("trkn"), M("tven"), M("tves"), M("tvnn"), M("tvsh"), M("tvsn"), M("\xa9" "ART"), M("\xa9" "alb"), M("\xa9" "cmt"), M("\xa9" "com"),
    M("\xa9" "day"), M("\xa9" "gen"), M("\xa9" "grp"), M("\xa9" "nam"), M("\xa9" "too"), M("\xa9" "wrt"),
};
#undef M
#undef R
static const size_t N = sizeof table / sizeof *table;
static bool eq(const std::array<uint8_t, 4>& t, const char* k) { return (t[0] == (uint8_t)k[0]) & (t[1] == (uint8_t)k[1]) & (t[2] == (uint8_t)k[2]) & (t[3] == (uint8_t)k[3]); }
static const Row* row(const std::array<uint8_t, 4>& t) {
  for (size_t i = 0; i < N; i++)
    if (eq(t, table[i].type)) return &table[i];
  return nullptr;
}
static bool same4(BoxType a, const std::array<uint8_t, 4>& b) { auto d = a.getData(); return sym_eq(d.data(), b.data(), 4); }
static void check(BoxMap& map, const std::array<uint8_t, 4>& t, const Row* r) {
  BoxType ty(t);
  uint8_t v = sym<uint8_t>("version");
  sym_assert(map.isSupported(ty) == (r != nullptr), "registered exactly the listed types");
  bool listed = r && (r->versions == 0 || (v < 3 && (r->versions >> v & 1)));
  sym_assert(map.isSupportedVersion(ty, v) == listed, "accepts exactly the listed versions");
  std::vector<uint8_t> vs;
  bool t1 = throws([&] { vs = map.getSupportedVersions(ty); });
  sym_assert(t1 == !r, "versions of registered types only");
  int mask = 0;
  for (auto x : vs) mask |= 1 << x;
  if (r) sym_assert(mask == r->versions, "the listed versions");
  Box* b = nullptr;
  if (sym<uint8_t>("how") & 1) b = map.getBoxInstance(ty);
  else b = map.getBoxInstance(new BoxHeader({.offset = 3, .size = 20, .header_size = 8, .type = ty}));
  obs<bool>(r != nullptr);
  sym_assert(b != nullptr, "a box for every type");
  if (r) {
    sym_assert(same4(b->getType(), t), "reports that very type");
    sym_assert(r->is(b), "box of that kind");
    sym_reach("known");
  } else {
    sym_assert(is<box::Unsupported>(b), "opaque box for any other type");
    size_t n = sym_pick(0, 3, "n") * 3;
    std::string p = sym_str(n, "payload");
    std::stringstream in(p), out;
    if (throws([&] { b->readData(in); b->writeData(out); })) return sym_fail("opaque box takes any payload");
    sym_assert(same(out.str(), p), "payload preserved");
    sym_assert(b->getDataSize() == n, "size of the payload");
    sym_reach("other");
  }
  delete b;
}
ENTRY h_lookup() {
  int64_t live = sym_live_heap();
  {
    BoxMap map;
    register_box_map(&map);
    std::array<uint8_t, 4> t;
    sym_bytes(t.data(), 4, "type");
    check(map, t, row(t));
  }
  sym_assert(sym_live_heap() == live, "nothing leaks");
  sym_reach("end");
}
// comparison of types
ENTRY h_type() {
  std::array<uint8_t, 4> a, b;
  sym_bytes(a.data(), 4, "a");
  sym_bytes(b.data(), 4, "b");
  BoxType x(a), y(b);
  bool e = (a[0] == b[0]) & (a[1] == b[1]) & (a[2] == b[2]) & (a[3] == b[3]);
  bool za = (a[0] | a[1] | a[2] | a[3]) == 0, zb = (b[0] | b[1] | b[2] | b[3]) == 0;
  sym_assert((x == y) == e && (x != y) == !e, "equality of all four bytes");
  sym_assert(x.matchWith(y) == (e | za | zb) && y.matchWith(x) == (e | za | zb), "the all-zero type matches anything");
  sym_assert(same4(x, a), "bytes kept");
  BoxType z;
  z.setData(b[0], b[1], b[2], b[3]);
  sym_assert(z == y && same4(z, b), "set byte by byte");
  sym_assert((x < y) == (be(std::string((char*)a.data(), 4), 0, 4) < be(std::string((char*)b.data(), 4), 0, 4)), "ordered by bytes");
  size_t n = sym_pick(0, 6, "n");
  std::string s = sym_str(n, "text");
  std::unique_ptr<BoxType> q;
  bool t = throws([&] { q = std::make_unique<BoxType>(s); });
  sym_assert(t == (n != 4), "four characters exactly");
  if (!t) sym_assert(sym_eq(q->getData().data(), s.data(), 4), "of these characters");
  auto w = box_type_any().getData();
  sym_assert((w[0] | w[1] | w[2] | w[3]) == 0, "the wildcard");
  sym_reach("end");
}
