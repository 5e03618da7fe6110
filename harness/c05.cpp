// C05: serialise, parse, serialise again: byte for byte the same payload, same version, flags and type
#include "boxmake.hpp"
using namespace shiguredo::mp4;
template <class B>
void rt(size_t n, unsigned v) {
  B b = mk::Mk<B>::make(n, v);
  mk::dress(b);
  std::stringstream s1;
  if (throws([&] { b.writeData(s1); })) return sym_fail("representable box can be written");
  std::string p1 = s1.str();
  obs_str(p1);
  B c;
  mk::like(c, b, v);
  std::stringstream s2(p1), s3;
  uint64_t r = 0;
  if (throws([&] { r = c.readData(s2); })) return sym_fail("own payload is accepted");
  sym_assert(r == p1.size() * 8, "all of the payload is parsed");
  sym_assert((int64_t)s2.tellg() == (int64_t)p1.size(), "all of the payload is consumed");
  sym_assert(c.getVersion() == b.getVersion(), "version");
  sym_assert(c.getFlags() == b.getFlags(), "flags");
  auto t1 = b.getType().getData(), t2 = c.getType().getData();
  sym_assert(sym_eq(t1.data(), t2.data(), 4), "type");
  if (throws([&] { c.writeData(s3); })) return sym_fail("parsed box can be written");
  std::string p2 = s3.str();
  sym_assert(same(p2, p1), "same payload again");
  sym_assert(c.getDataSize() == b.getDataSize(), "same announced size");
  sym_reach("done");
}
ENTRY h_rt() {
  size_t n = sym_param(1);
  unsigned v = (unsigned)sym_param(2);
  switch (sym_param(0)) {
#define X(i, B) case i: rt<box::B>(n, v); break;
    BOXES(X)
#undef X
  }
  sym_reach("end");
}
// more list entries than the count field can hold are refused, as many as it can hold are kept
template <class B>
static void limit(const B& b, bool fits) {
  std::stringstream s1, s3;
  bool refused = throws([&] { b.writeData(s1); });
  sym_assert(refused == !fits, "refused exactly where the count field cannot hold the number of entries");
  if (!refused && fits) {
    B c;
    std::stringstream s2(s1.str());
    if (throws([&] { c.readData(s2); })) return sym_fail("own payload is accepted");
    sym_assert((uint64_t)s2.tellg() == s1.str().size(), "all of the payload is parsed");
    if (throws([&] { c.writeData(s3); })) return sym_fail("parsed box can be written");
    sym_assert(same(s3.str(), s1.str()), "same payload again");
  }
  sym_reach("end");
}
ENTRY h_limit() {
  size_t n = sym_param(1);
  auto set = [&](size_t k, size_t len) { return std::vector<box::AVCParameterSet>(k, box::AVCParameterSet({.nal_unit = std::vector<uint8_t>(len, sym<uint8_t>("nal"))})); };
  auto avc = [&](std::vector<box::AVCParameterSet> s, std::vector<box::AVCParameterSet> p, std::vector<box::AVCParameterSet> e, bool fits) {
    limit(box::AVCDecoderConfiguration({.configuration_version = 1, .profile = box::AVCHighProfile, .profile_compatibility = 0, .level = 31, .sequence_parameter_sets = s, .picture_parameter_sets = p, .high_profile_fields_enabled = true, .sequence_parameter_sets_ext = e}), fits);
  };
  switch (sym_param(0)) {
    case 0: return avc(set(n, 2), set(1, 1), {}, n <= 31);
    case 1: return avc(set(1, 1), set(n, 1), {}, n <= 255);
    case 2: return avc(set(1, 1), {}, set(n, 1), n <= 255);
    case 3: return avc(set(1, n), {}, {}, n <= 65535);
    case 4: return avc({}, set(1, n), {}, n <= 65535);
    case 5: return limit(box::Sidx({.reference_id = 1, .timescale = 1, .earliest_presentation_time = 0, .first_offset = 0, .references = std::vector<box::SidxReference>(n, box::SidxReference({.reference_type = false, .reference_size = 5, .subsegument_duration = sym<uint32_t>("duration"), .starts_with_sap = true, .sap_type = 1, .sap_delta_time = 2}))}), n <= 65535);
    case 6: return limit(box::VPCodecConfiguration({.codec_initialization_data = std::vector<uint8_t>(n, sym<uint8_t>("data"))}), n <= 65535);
 
    // blobs and strings of more than 16 bits
    case 19: return limit(box::Pssh({.system_id = {1, 2, 3}, .data = std::vector<uint8_t>(n, sym<uint8_t>("data"))}), true);
    case 20: return limit(box::Sdtp({.samples = std::vector<box::SdtpSample>(n, box::SdtpSample({.is_leading = 1, .sample_depends_on = 2, .sample_is_depended_on = 1, .sample_has_redundancy = (uint8_t)(sym<uint8_t>("redundancy") & 3)}))}), true);
    case 22: return limit(box::Mdat({.data = std::vector<uint8_t>(n, sym<uint8_t>("data"))}), true);
    case 23: return limit(box::Free({.data = std::vector<uint8_t>(n, sym<uint8_t>("data"))}), true);
    case 24: return limit(box::Data({.data_type = static_cast<box::DataType>(1), .data_lang = 0, .data = std::vector<uint8_t>(n, sym<uint8_t>("data"))}), true);
    case 25: return limit(box::Url({.flags = 0, .location = std::string(n, 'x')}), true);
    case 26: return limit(box::Unsupported({.data = std::vector<uint8_t>(n, sym<uint8_t>("data"))}), true);
  }
}
// lists of more entries than 16 bits count: the count that is written (mode 0), and that a payload which ends
// after a few of that many entries is not taken for a whole one (mode 1)
struct Stop : std::streambuf {
  std::string got;
  size_t room;
  explicit Stop(size_t n) : room(n) {}
  std::streamsize xsputn(const char* s, std::streamsize n) override {
    std::streamsize k = 0;
    while (k < n && got.size() < room) got.push_back(s[k++]);
    return k;
  }
  int overflow(int c) override {
    char ch = (char)c;
    return xsputn(&ch, 1) == 1 ? (unsigned char)ch : -1;
  }
};
template <class B>
static void count(const B& b, size_t n, size_t at, size_t each) {
  sym_assert(b.getDataSize() == at + 4 + n * each, "announced size of that many entries");
  if (sym_param(2) == 0) {
    Stop f(at + 4 + 2);
    std::ostream os(&f);
    sym_assert(throws([&] { b.writeData(os); }), "the stream ends before the entries do");
    sym_assert(f.got.size() >= at + 4 && be(f.got, at, 4) == n, "the count is the number of entries");
  } else {
    std::string p(at, '\0');
    for (int i = 24; i >= 0; i -= 8) p.push_back((char)(n >> i));
    if (sym_param(0) == 17) p[2] = 2;
    p += sym_str((n % 4 + 1) * each, "entries");
    std::stringstream s2(p);
    B c;
    sym_assert(throws([&] { c.readData(s2); }), "a payload without all of its entries is refused");
  }
  sym_reach("end");
}
ENTRY h_count() {
  size_t n = sym_param(1);
  switch (sym_param(0)) {
    case 9: return count(box::Pssh({.system_id = {1, 2, 3}, .data = std::vector<uint8_t>(n, 1)}), n, 20, 1);

    case 10: return count(box::Stco({.chunk_offsets = std::vector<uint32_t>(n, sym<uint32_t>("offset"))}), n, 4, 4);
    case 11: return count(box::Co64({.chunk_offsets = std::vector<uint64_t>(n, sym<uint64_t>("offset"))}), n, 4, 8);
    case 12: return count(box::Stsz({.entry_sizes = std::vector<uint32_t>(n, sym<uint32_t>("size"))}), n, 8, 4);
    case 13: return count(box::Stss({.sample_numbers = std::vector<uint32_t>(n, sym<uint32_t>("number"))}), n, 4, 4);
    case 14: return count(box::Stts({.entries = std::vector<box::SttsEntry>(n, box::SttsEntry({.sample_count = sym<uint32_t>("count"), .sample_duration = 2}))}), n, 4, 8);
    case 15: return count(box::Stsc({.entries = std::vector<box::StscEntry>(n, box::StscEntry({.first_chunk = sym<uint32_t>("chunk"), .samples_per_chunk = 2, .sample_description_index = 1}))}), n, 4, 12);
    case 16: return count(box::Ctts({.version = 1, .entries = std::vector<box::CttsEntry>(n, box::CttsEntry(sym<uint32_t>("count"), 2))}), n, 4, 8);
    case 17: return count(box::Trun({.flags = 0x200, .entries = std::vector<box::TrunEntry>(n, box::TrunEntry({.sample_size = sym<uint32_t>("size")}))}), n, 4, 4);
    case 18: return count(box::Elst({.version = 0, .entries = std::vector<box::ElstEntry>(n, box::ElstEntry({.track_duration = 5, .media_time = sym<int16_t>("time")}))}), n, 4, 12);
    case 21: return count(box::Sbgp({.version = 0, .grouping_type = {'r', 'o', 'l', 'l'}, .entries = std::vector<box::SbgpEntry>(n, box::SbgpEntry({.sample_count = sym<uint32_t>("count"), .group_description_index = 1}))}), n, 8, 8);
  }
}
