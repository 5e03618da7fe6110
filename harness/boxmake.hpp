#pragma once
// Boxes with symbolic field values, one maker per class: make(n, v) gives a box with n list entries
// (bytes, strings) of arbitrary content; v selects a variant where a class has several layouts.
#include "common.hpp"
#include "boxlist.hpp"
#include "shiguredo/mp4/brand.hpp"
#include "shiguredo/mp4/grouping_type.hpp"

namespace mk {
using namespace shiguredo::mp4;
using namespace shiguredo::mp4::box;
inline std::uint8_t u8(const char* n = "u8") { return sym<std::uint8_t>(n); }
inline std::uint16_t u16(const char* n = "u16") { return sym<std::uint16_t>(n); }
inline std::uint32_t u32(const char* n = "u32") { return sym<std::uint32_t>(n); }
inline std::uint64_t u64(const char* n = "u64") { return sym<std::uint64_t>(n); }
inline std::int16_t i16() { return sym<std::int16_t>("i16"); }
inline std::int32_t i32() { return sym<std::int32_t>("i32"); }
inline std::int64_t i64() { return sym<std::int64_t>("i64"); }
inline bool flag() { return (sym<std::uint8_t>("bool") & 1) != 0; }
inline std::uint8_t bits(int n) { return (std::uint8_t)(sym<std::uint8_t>("bits") & ((1u << n) - 1)); }
inline std::uint32_t fl() { return sym<std::uint32_t>("flags") & 0xFFFFFF; }
inline std::uint8_t ver(unsigned max) { return (std::uint8_t)sym_range(0, max, "version"); }
inline std::uint8_t anyver() { return sym<std::uint8_t>("version"); }
inline std::vector<std::uint8_t> bytes(size_t n) { return sym_vec(n, "bytes"); }
inline std::string text(size_t n) {
  std::string s = sym_str(n, "text");
  bool ok = true;
  for (char c : s) ok &= c != 0;
  sym_assume(ok);
  return s;
}
template <class T, size_t N>
std::array<T, N> arr(const char* nm = "arr") {
  std::array<T, N> a;
  sym_bytes(a.data(), sizeof(T) * N, nm);
  return a;
}
template <class F>
auto list(size_t n, F f) {
  std::vector<decltype(f())> v;
  for (size_t i = 0; i < n; i++) v.push_back(f());
  return v;
}

template <class B>
struct Mk {  // boxes without parameters
  static B make(size_t, unsigned) { return B(); }
};
#define MAKER(B) template <> struct Mk<B> { static B make([[maybe_unused]] size_t n, [[maybe_unused]] unsigned v)
MAKER(AV1CodecConfiguration) {
  return AV1CodecConfiguration({.marker = bits(1), .version = bits(7), .seq_profile = bits(3), .seq_level_idx_0 = bits(5), .seq_tier_0 = bits(1), .high_bitdepth = flag(), .twelve_bit = flag(),
    .monochrome = flag(), .chroma_subsampling_x = bits(1), .chroma_subsampling_y = bits(1), .chroma_sample_position = bits(2), .initial_presentation_delay_present = flag(),
    .initial_presentation_delay_minus_one = bits(4), .config_OBUs = bytes(n)}); } };
// variants: 0 low profile, 1 high profile with the extra fields, 2 high profile without them
MAKER(AVCDecoderConfiguration) {
  std::uint8_t profile = u8();
  sym_assume(is_avc_high_profile(profile) == (v != 0));
  auto ps = [&] { return AVCParameterSet({.nal_unit = bytes(n)}); };
  size_t e = v == 1 ? n : 0;
  return AVCDecoderConfiguration({.configuration_version = u8(), .profile = profile, .profile_compatibility = u8(), .level = u8(), .length_size_minus_one = bits(2),
    .sequence_parameter_sets = list(n, ps), .picture_parameter_sets = list(n, ps), .high_profile_fields_enabled = v == 1, .chroma_format = bits(2), .bit_depth_luma_minus8 = bits(3),
    .bit_depth_chroma_minus8 = bits(3), .sequence_parameter_sets_ext = list(e, ps)}); } };
// variants: 0 plain, 1 QuickTime version 1, 2 QuickTime version 2, 3 under wave, 4 other QuickTime versions
MAKER(AudioSampleEntry) {
  auto t = arr<std::uint8_t, 4>("type");
  std::uint16_t ev = v == 0 ? 0 : v == 1 ? 1 : v == 2 ? 2 : u16();
  bool opus = (t[0] == 'O') & (t[1] == 'p') & (t[2] == 'u') & (t[3] == 's');
  if (v == 4) sym_assume(ev > 2);
  if ((v == 1) | (v == 2) | (v == 4)) sym_assume(!opus & !((t[0] == 0) & (t[1] == 0) & (t[2] == 0) & (t[3] == 0)));
  return AudioSampleEntry({.type = BoxType(t), .data_reference_index = u16(), .entry_version = ev, .channel_count = u16(), .sample_size = u16(), .pre_defined = u16(), .sample_rate = u32(),
    .is_quick_time_compatible = v != 0, .quick_time_data = v == 0 ? std::vector<std::uint8_t>{} : bytes(v == 1 ? 16 : v == 2 ? 36 : n + 1), .under_wave = v == 3}); } };
MAKER(Btrt) { return Btrt({.decoding_buffer_size = u32(), .max_bitrate = u32(), .avg_bitrate = u32()}); } };
MAKER(Co64) { return Co64({.version = anyver(), .flags = fl(), .chunk_offsets = list(n, [] { return u64(); })}); } };
// variants: 0 nclx, 1 rICC, 2 prof, 3 anything else
MAKER(Colr) {
  std::array<std::uint8_t, 4> t{'n', 'c', 'l', 'x'};
  if (v == 1) t = {'r', 'I', 'C', 'C'};
  if (v == 2) t = {'p', 'r', 'o', 'f'};
  if (v == 3) t = arr<std::uint8_t, 4>();
  return Colr({.colour_type = t, .colour_primaries = u16(), .transfer_characteristics = u16(), .matrix_coefficients = u16(), .full_range_flag = flag(), .profile = bytes(n), .unknown = bytes(n)}); } };
MAKER(Ctts) { std::uint8_t ve = anyver(); return Ctts({.version = ve, .flags = fl(), .entries = list(n, [&] { std::uint32_t c = u32(); std::int64_t o = i64(); return CttsEntry(c, o); })}); } };
MAKER(DOps) {
  size_t n2 = n;
  return DOps({.version = u8(), .output_channel_count = (std::uint8_t)n2, .pre_skip = u16(), .input_sample_rate = u32(), .output_gain = i16(), .channel_mapping_family = u8(),
    .channel_mapping_table = DOpsChannelMappingTable({.stream_count = u8(), .coupled_count = u8(), .channel_mapping = bytes(n)})}); } };
MAKER(Data) { return Data({.data_type = static_cast<DataType>(u32()), .data_lang = u32(), .data = bytes(n)}); } };
MAKER(Dref) { return Dref({.version = anyver(), .flags = fl(), .entry_count = u32()}); } };
MAKER(Elst) { return Elst({.version = anyver(), .flags = fl(), .entries = list(n, [] { return ElstEntry({.track_duration = u64(), .media_time = i64(), .media_rate = i32()}); })}); } };
MAKER(Emsg) { return Emsg({.version = anyver(), .flags = fl(), .scheme_uri = text(n), .value = text(n), .timescale = u32(), .presentation_time = u64(), .event_duration = u32(), .id = u32(), .message_data = bytes(n)}); } };
// variants: bit 0 sub-descriptors hung below, bit 1 announced by size only
MAKER(Esds) {
  auto dsi = std::make_shared<DecSpecificInfo>(DecSpecificInfoParameters{.data = bytes(n)});
  auto sl = std::make_shared<SLConfigDescr>(SLConfigDescrParameters{.data = bytes(n)});
  auto dc = std::make_shared<DecoderConfigDescriptor>(DecoderConfigDescriptorParameters{.sub_descriptors_size = (v & 2) ? (u32() & 0xFFFFF) : 0, .object_type_indication = u8(), .stream_type = (std::int8_t)(bits(6)),
    .upstream = flag(), .reserved = flag(), .buffer_size_db = u32() & 0xFFFFFF, .max_bitrate = u32(), .avg_bitrate = u32()});
  auto es = std::make_shared<ESDescriptor>(ESDescriptorParameters{.sub_descriptors_size = (v & 2) ? (u32() & 0xFFFFF) : 0, .ESID = u16(), .stream_dependence_flag = flag(), .url_flag = flag(), .ocr_stream_flag = flag(),
    .stream_priority = (std::int8_t)bits(5), .depends_on_esid = u16(), .url_string = bytes(n), .OCRESID = u16()});
  if (v & 1) {
    dc->addSubDescriptor(dsi);
    es->addSubDescriptor(dc);
    es->addSubDescriptor(dsi);
    es->addSubDescriptor(sl);
  }
  return Esds({.descriptors = {es, dc, dsi, sl}}); } };
MAKER(Fiel) { return Fiel({.field_count = u8(), .field_ordering = u8()}); } };
MAKER(Free) { return Free({.data = bytes(n)}); } };
MAKER(Ftyp) { return Ftyp({.major_brand = Brand(arr<std::uint8_t, 4>()), .minor_version = u32(), .compatible_brands = list(n, [] { return Brand(arr<std::uint8_t, 4>()); })}); } };
MAKER(Styp) { return Styp({.major_brand = Brand(arr<std::uint8_t, 4>()), .minor_version = u32(), .compatible_brands = list(n, [] { return Brand(arr<std::uint8_t, 4>()); })}); } };
// variants: 0 no padding, 1 padding of n bytes
MAKER(Hdlr) {
  std::string name = text(n);
  size_t pad = v ? n : 0;
  // with pre_defined != 0 a name whose first byte is its own remaining length is the other (QuickTime) form
  std::uint32_t pd = u32();
  if (n > 0) sym_assume((pd == 0) | ((std::uint8_t)name[0] != n + pad));
  return Hdlr({.version = anyver(), .flags = fl(), .pre_defined = pd, .handler_type = arr<std::uint8_t, 4>(), .name = name, .padding = bytes(pad)}); } };
MAKER(IlstMeta) { return IlstMeta({.type = BoxType(arr<std::uint8_t, 4>())}); } };
MAKER(Iods) { return Iods({.version = anyver(), .flags = fl(), .type_tag = u8(), .OD_ID = u16(), .OD_profile_level = u8(), .scene_profile_level = u8(), .audio_profile_level = u8(), .video_profile_level = u8(), .graphics_profile_level = u8()}); } };
MAKER(Mdat) { return Mdat({.data = bytes(n)}); } };
MAKER(Mdhd) {
  auto l = arr<std::uint8_t, 3>();
  for (auto& c : l) sym_assume((c >= 0x60) & (c <= 0x7f));
  return Mdhd({.version = anyver(), .flags = fl(), .creation_time = u64(), .modification_time = u64(), .timescale = u32(), .duration = u64(), .pad = flag(), .language = l, .pre_defined = u16()}); } };
MAKER(Mehd) { return Mehd({.version = anyver(), .flags = fl(), .fragment_duration = u64()}); } };
MAKER(Mfhd) { return Mfhd({.version = anyver(), .flags = fl(), .sequence_number = u32()}); } };
MAKER(Mfro) { return Mfro({.version = anyver(), .flags = fl(), .size = u32()}); } };
MAKER(Mvhd) {
  return Mvhd({.version = anyver(), .flags = fl(), .creation_time = u64(), .modification_time = u64(), .timescale = u32(), .duration = u64(), .rate = i32(), .volume = i16(),
    .matrix = arr<std::int32_t, 9>(), .pre_defined = arr<std::int32_t, 6>(), .next_track_id = u32()}); } };
MAKER(PixelAspectRatio) { return PixelAspectRatio({.h_spacing = u32(), .v_spacing = u32()}); } };
MAKER(Pssh) {
  return Pssh({.version = anyver(), .flags = fl(), .system_id = arr<std::uint8_t, 16>(), .kids = list(n, [] { return PsshKID({.kid = arr<std::uint8_t, 16>()}); }), .data = bytes(n)}); } };
MAKER(Sbgp) {
  return Sbgp({.version = anyver(), .flags = fl(), .grouping_type = arr<std::uint8_t, 4>(), .grouping_type_parameter = u32(),
    .entries = list(n, [] { return SbgpEntry({.sample_count = u32(), .group_description_index = u32()}); })}); } };
MAKER(Sdtp) {
  return Sdtp({.samples = list(n, [] { return SdtpSample({.is_leading = bits(2), .sample_depends_on = bits(2), .sample_is_depended_on = bits(2), .sample_has_redundancy = bits(2)}); })}); } };
// (alst outside version 1 states its entries' length nowhere: the reader refuses it, so it is only made for writing)
// variants: 0 roll, 1 prol, 2 alst, 3 rap, 4 tele, 5 other type; +8: version 1 with per-entry lengths; +16: any other version
MAKER(Sgpd) {
  unsigned k = v & 7;
  bool perentry = (v & 8) != 0, other = (v & 16) != 0;
  std::uint8_t ve = 1;
  if (other) { ve = u8(); sym_assume(ve != 1); }
  std::uint32_t dl = perentry ? 0 : u32(), len = 0;
  if (perentry) { len = u32(); sym_assume(len > 0); }
  if (!perentry) sym_assume(dl > 0);
  GroupingType gt = k == 0 ? GroupingTypeRoll : k == 1 ? GroupingTypeProl : k == 2 ? GroupingTypeAlst : k == 3 ? GroupingTypeRap : k == 4 ? GroupingTypeTele : GroupingType{'x', 'x', 'x', 'x'};
  std::vector<RollDistance> rd; std::vector<AlternativeStartupEntry> al; std::vector<VisualRandomAccessEntry> ra; std::vector<TemporalLevelEntry> te;
  for (size_t i = 0; i < n; i++) {
    if (k <= 1) rd.push_back(RollDistance({.description_length = len, .roll_distance = i16()}));
    if (k == 2) {
      // the entry's length decides how many trailing pairs there are: i of them, or none when the length is common to all
      size_t offs = perentry ? i : 1, opts = perentry ? n - i : (other ? 0 : 1);
      std::uint32_t l = (std::uint32_t)(4 + 4 * offs + 4 * opts);
      if (!perentry) dl = l;
      al.push_back(AlternativeStartupEntry({.description_length = perentry ? l : 0, .roll_count = (std::uint16_t)offs, .first_output_sample = u16(), .sample_offsets = list(offs, [] { return u32(); }),
        .opts = list(opts, [] { return AlternativeStartupEntryOpt({.num_output_samples = u16(), .num_total_samples = u16()}); })}));
    }
    if (k == 3) ra.push_back(VisualRandomAccessEntry({.description_length = len, .num_leading_samples_known = flag(), .num_leading_samples = bits(7)}));
    if (k == 4) te.push_back(TemporalLevelEntry({.description_length = len, .level_independently_decodable = flag()}));
  }
  return Sgpd({.version = ve, .flags = fl(), .grouping_type = gt, .default_length = dl, .default_sample_description_index = u32(), .roll_distances = rd, .alternative_startup_entries = al,
    .visual_random_access_entries = ra, .temporal_level_entries = te}); } };
MAKER(Sidx) {
  return Sidx({.version = anyver(), .flags = fl(), .reference_id = u32(), .timescale = u32(), .earliest_presentation_time = u64(), .first_offset = u64(), .references = list(n, [] {
    return SidxReference({.reference_type = flag(), .reference_size = u32() & 0x7FFFFFFF, .subsegument_duration = u32(), .starts_with_sap = flag(), .sap_type = bits(3), .sap_delta_time = u32() & 0xFFFFFFF}); })}); } };
MAKER(Skip) { return Skip({.data = bytes(n)}); } };
MAKER(Smhd) { return Smhd({.version = anyver(), .flags = fl(), .balance = i16()}); } };
MAKER(Stco) { return Stco({.version = anyver(), .flags = fl(), .chunk_offsets = list(n, [] { return u32(); })}); } };
MAKER(Stsc) { return Stsc({.version = anyver(), .flags = fl(), .entries = list(n, [] { return StscEntry({.first_chunk = u32(), .samples_per_chunk = u32(), .sample_description_index = u32()}); })}); } };
MAKER(Stsd) { return Stsd({.version = anyver(), .flags = fl(), .entry_count = u32()}); } };
MAKER(Stss) { auto l = list(n, [] { return u32(); }); return Stss({.version = anyver(), .flags = fl(), .sample_numbers = l}); } };
MAKER(Stsz) { return Stsz({.version = anyver(), .flags = fl(), .sample_size = u32(), .entry_sizes = list(n, [] { return u32(); })}); } };
MAKER(Stts) { return Stts({.version = anyver(), .flags = fl(), .entries = list(n, [] { return SttsEntry({.sample_count = u32(), .sample_duration = u32()}); })}); } };
MAKER(Tfdt) { return Tfdt({.version = anyver(), .flags = fl(), .base_media_decode_time = u64()}); } };
MAKER(Tfhd) {
  return Tfhd({.version = anyver(), .flags = fl(), .track_id = u32(), .base_data_offset = u64(), .sample_description_index = u32(), .default_sample_duration = u32(), .default_sample_size = u32(), .default_sample_flags = u32()}); } };
MAKER(Tfra) {
  return Tfra({.version = anyver(), .flags = fl(), .track_id = u32(), .length_size_of_traf_num = bits(2), .length_size_of_trun_num = bits(2), .length_size_of_sample_num = bits(2),
    .entries = list(n, [] { return TfraEntry({.time = u64(), .moof_offset = u64(), .traf_number = u32(), .trun_number = u32(), .sample_number = u32()}); })}); } };
MAKER(Tkhd) {
  return Tkhd({.version = anyver(), .flags = fl(), .creation_time = u64(), .modification_time = u64(), .track_id = u32(), .duration = u64(), .layer = i16(), .alternate_group = i16(), .volume = i16(),
    .matrix = arr<std::int32_t, 9>(), .width = u32(), .height = u32()}); } };
MAKER(Trex) {
  return Trex({.version = anyver(), .flags = fl(), .track_id = u32(), .default_sample_description_index = u32(), .default_sample_duration = u32(), .default_sample_size = u32(), .default_sample_flags = u32()}); } };
MAKER(Trun) {
  return Trun({.version = anyver(), .flags = fl(), .data_offset = i32(), .first_sample_flags = u32(),
    .entries = list(n, [] { return TrunEntry({.sample_duration = u32(), .sample_size = u32(), .sample_flags = u32(), .sample_composition_time_offset = i64()}); })}); } };
MAKER(Unsupported) { return Unsupported({.data = bytes(n)}); } };
MAKER(Url) { return Url({.version = anyver(), .flags = fl(), .location = text(n)}); } };
MAKER(Urn) { return Urn({.version = anyver(), .flags = fl(), .name = text(n), .location = text(n)}); } };
MAKER(VPCodecConfiguration) {
  return VPCodecConfiguration({.version = anyver(), .flags = fl(), .profile = u8(), .level = u8(), .bit_depth = bits(4), .chroma_sub_sampling = bits(3), .video_full_range_flag = bits(1), .colour_primaries = u8(),
    .transfer_characteristics = u8(), .matrix_coefficients = u8(), .codec_initialization_data = bytes(n)}); } };
MAKER(VisualSampleEntry) {
  return VisualSampleEntry({.type = BoxType(arr<std::uint8_t, 4>("type")), .data_reference_index = u16(), .pre_defined = u16(), .pre_defined2 = arr<std::uint32_t, 3>(), .width = u16(), .height = u16(),
    .horizresolution = u32(), .vertresolution = u32(), .frame_count = u16(), .compressorname = arr<std::uint8_t, 32>(), .depth = u16(), .pre_defined3 = i16()}); } };
MAKER(Vmhd) { return Vmhd({.version = anyver(), .flags = fl(), .graphicsmode = u16(), .opcolor = arr<std::uint16_t, 3>()}); } };
#undef MAKER

// what a fresh box must be told before it parses the payload of b (its type and its place)
template <class B>
void like(B& fresh, const B& b, unsigned v) {
  if constexpr (std::is_base_of_v<AnyTypeBox, B>) fresh.setType(b.getType());
  if constexpr (std::is_same_v<B, AudioSampleEntry>) fresh.setUnderWave(v == 3);
}
// version and flags of boxes that carry them but take them from no parameter
template <class B>
void dress(B& b) {
  if constexpr (std::is_same_v<B, Esds> || std::is_same_v<B, Sdtp>) {
    b.setVersion(u8("version"));
    b.setFlags(fl());
  }
}
}  // namespace mk
