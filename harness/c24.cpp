// C24: the bytes of a box are those its format prescribes.  For each class a reference encoder, written from the
// format's definition and not from the library, next to the same values as parameters.
#include "boxmake.hpp"
using namespace shiguredo::mp4;
using namespace shiguredo::mp4::box;
using namespace mk;
struct Ref {
  std::string s;
  uint64_t acc = 0;
  int n = 0;
  // the low w bits of v, most significant first
  Ref& b(uint64_t v, int w) {
    if (n == 0 && w % 8 == 0) {
      for (int i = w - 8; i >= 0; i -= 8) s.push_back((char)(uint8_t)(v >> i));
      return *this;
    }
    for (int i = w - 1; i >= 0; i--) {
      acc = acc << 1 | ((v >> i) & 1);
      if (++n == 8) s.push_back((char)(uint8_t)acc), acc = 0, n = 0;
    }
    return *this;
  }
  Ref& vf(uint8_t v, uint32_t f) { return b(v, 8).b(f, 24); }
  template <class T> Ref& all(const T& c, int w) {
    for (auto x : c) b((uint64_t)x, w);
    return *this;
  }
  Ref& z(const std::string& t) { return all(t, 8).b(0, 8); }
  // the expandable length: four bytes, seven bits each, all but the last with their top bit set
  Ref& len(uint32_t v) {
    for (int i = 3; i >= 0; i--) b(((v >> (7 * i)) & 0x7f) | (i ? 0x80 : 0), 8);
    return *this;
  }
};
static uint8_t v01() { return (uint8_t)sym_range(0, 1, "version"); }
template <class B> struct Lay { static B make(Ref&, size_t, unsigned) { return B(); } };
#define LAY(B) template <> struct Lay<B> { static B make([[maybe_unused]] Ref& r, [[maybe_unused]] size_t n, [[maybe_unused]] unsigned v)
#define VF auto ve = anyver(); auto f = fl(); r.vf(ve, f);
#define VF1 auto ve = v01(); auto f = fl(); r.vf(ve, f); [[maybe_unused]] int tw = ve == 0 ? 32 : 64;
LAY(AV1CodecConfiguration) {
  auto mark = bits(1), ver = bits(7), prof = bits(3), lev = bits(5), tier = bits(1), cx = bits(1), cy = bits(1), cp = bits(2), del = bits(4);
  bool hb = flag(), tb = flag(), mono = flag(), pre = flag();
  auto obu = bytes(n);
  r.b(mark, 1).b(ver, 7).b(prof, 3).b(lev, 5).b(tier, 1).b(hb, 1).b(tb, 1).b(mono, 1).b(cx, 1).b(cy, 1).b(cp, 2).b(0, 3).b(pre, 1).b(del, 4).all(obu, 8);
  return AV1CodecConfiguration({.marker = mark, .version = ver, .seq_profile = prof, .seq_level_idx_0 = lev, .seq_tier_0 = tier, .high_bitdepth = hb, .twelve_bit = tb, .monochrome = mono,
    .chroma_subsampling_x = cx, .chroma_subsampling_y = cy, .chroma_sample_position = cp, .initial_presentation_delay_present = pre, .initial_presentation_delay_minus_one = del, .config_OBUs = obu}); } };
LAY(AVCDecoderConfiguration) {
  auto cv = u8(), prof = u8(), compat = u8(), lev = u8(), lsm = bits(2), cf = bits(2), bl = bits(3), bc = bits(3);
  bool high = (prof == 100) | (prof == 110) | (prof == 122) | (prof == 144);
  sym_assume(high == (v != 0));
  r.b(cv, 8).b(prof, 8).b(compat, 8).b(lev, 8).b(63, 6).b(lsm, 2).b(7, 3);
  auto sets = [&](size_t k) { std::vector<AVCParameterSet> o; for (size_t i = 0; i < k; i++) { auto d = bytes(i + n); r.b(d.size(), 16).all(d, 8); o.push_back(AVCParameterSet({.nal_unit = d})); } return o; };
  r.b(n, 5);
  auto s = sets(n);
  r.b(n + 1, 8);
  auto p = sets(n + 1);
  std::vector<AVCParameterSet> e;
  if (v == 1) {
    r.b(63, 6).b(cf, 2).b(31, 5).b(bl, 3).b(31, 5).b(bc, 3).b(n, 8);
    e = sets(n);
  }
  return AVCDecoderConfiguration({.configuration_version = cv, .profile = prof, .profile_compatibility = compat, .level = lev, .length_size_minus_one = lsm, .sequence_parameter_sets = s,
    .picture_parameter_sets = p, .high_profile_fields_enabled = v == 1, .chroma_format = cf, .bit_depth_luma_minus8 = bl, .bit_depth_chroma_minus8 = bc, .sequence_parameter_sets_ext = e}); } };
LAY(AudioSampleEntry) {
  auto t = arr<uint8_t, 4>("type");
  auto dr = u16(), ev = (uint16_t)v, ch = u16(), ss = u16(), pd = u16();
  auto sr = u32();
  bool opus = (t[0] == 'O') & (t[1] == 'p') & (t[2] == 'u') & (t[3] == 's');
  if (v) sym_assume(!opus);
  auto q = bytes(v == 1 ? 16 : v == 2 ? 36 : 0);
  r.b(0, 48).b(dr, 16).b(ev, 16).b(0, 48).b(ch, 16).b(ss, 16).b(pd, 16).b(0, 16).b(sr, 32).all(q, 8);
  return AudioSampleEntry({.type = BoxType(t), .data_reference_index = dr, .entry_version = ev, .channel_count = ch, .sample_size = ss, .pre_defined = pd, .sample_rate = sr, .is_quick_time_compatible = v != 0, .quick_time_data = q}); } };
LAY(Btrt) { auto a = u32(), m = u32(), g = u32(); r.b(a, 32).b(m, 32).b(g, 32); return Btrt({.decoding_buffer_size = a, .max_bitrate = m, .avg_bitrate = g}); } };
LAY(Co64) { VF r.b(n, 32); auto l = list(n, [] { return u64(); }); r.all(l, 64); return Co64({.version = ve, .flags = f, .chunk_offsets = l}); } };
LAY(Colr) {
  std::array<uint8_t, 4> t{'n', 'c', 'l', 'x'};
  if (v == 1) t = {'r', 'I', 'C', 'C'};
  if (v == 2) t = {'p', 'r', 'o', 'f'};
  if (v == 3) {
    t = arr<uint8_t, 4>();
    auto is = [&](const char* s) { return (t[0] == (uint8_t)s[0]) & (t[1] == (uint8_t)s[1]) & (t[2] == (uint8_t)s[2]) & (t[3] == (uint8_t)s[3]); };
    sym_assume(!(is("nclx") | is("rICC") | is("prof")));
  }
  auto p = u16(), x = u16(), m = u16(); bool fr = flag(); auto pr = bytes(n), un = bytes(n + 1);
  r.all(t, 8);
  if (v == 0) r.b(p, 16).b(x, 16).b(m, 16).b(fr, 1).b(0, 7);
  else r.all(v == 3 ? un : pr, 8);
  return Colr({.colour_type = t, .colour_primaries = p, .transfer_characteristics = x, .matrix_coefficients = m, .full_range_flag = fr, .profile = pr, .unknown = un}); } };
LAY(Ctts) {
  VF1 r.b(n, 32);
  return Ctts({.version = ve, .flags = f, .entries = list(n, [&] { auto c = u32(); int64_t o = i32(); sym_assume((ve == 1) | (o >= 0)); r.b(c, 32).b((uint64_t)o, 32); return CttsEntry(c, o); })}); } };
LAY(DOps) {
  auto ve = u8(), fam = u8(), st = u8(), co = u8(); auto ps = u16(); auto rate = u32(); auto g = i16(); auto cm = bytes(n);
  r.b(ve, 8).b(n, 8).b(ps, 16).b(rate, 32).b((uint64_t)g, 16).b(fam, 8);
  if (fam != 0) r.b(st, 8).b(co, 8).all(cm, 8);
  return DOps({.version = ve, .output_channel_count = (uint8_t)n, .pre_skip = ps, .input_sample_rate = rate, .output_gain = g, .channel_mapping_family = fam,
    .channel_mapping_table = DOpsChannelMappingTable({.stream_count = st, .coupled_count = co, .channel_mapping = cm})}); } };
LAY(Data) { auto t = u32(), l = u32(); auto d = bytes(n); r.b(t, 32).b(l, 32).all(d, 8); return Data({.data_type = static_cast<DataType>(t), .data_lang = l, .data = d}); } };
LAY(Dref) { VF auto c = u32(); r.b(c, 32); return Dref({.version = ve, .flags = f, .entry_count = c}); } };
LAY(Elst) {
  VF1 r.b(n, 32);
  return Elst({.version = ve, .flags = f, .entries = list(n, [&] { auto d = u64(); auto m = i64(); auto q = i32(); sym_assume((ve == 1) | (m == (int32_t)m)); r.b(d, tw).b((uint64_t)m, tw).b((uint64_t)q, 32); return ElstEntry({.track_duration = d, .media_time = m, .media_rate = q}); })}); } };
LAY(Emsg) {
  VF1 auto uri = text(n), val = text(n + 1); auto ts = u32(), du = u32(), id = u32(); auto pt = u64(); auto msg = bytes(n);
  if (ve == 0) r.z(uri).z(val).b(ts, 32).b(pt, 32).b(du, 32).b(id, 32);
  else r.b(ts, 32).b(pt, 64).b(du, 32).b(id, 32).z(uri).z(val);
  r.all(msg, 8);
  return Emsg({.version = ve, .flags = f, .scheme_uri = uri, .value = val, .timescale = ts, .presentation_time = pt, .event_duration = du, .id = id, .message_data = msg}); } };
LAY(Esds) {
  r.vf(0, 0);
  auto info = bytes(n), sldata = bytes(n + 1);
  auto oti = u8(), st = bits(6), pri = bits(5); bool up = flag(), res = flag(), dep = flag(), url = flag(), ocr = flag();
  auto buf = u32() & 0xFFFFFF, mx = u32(), av = u32(); auto id = u16(), did = u16(), oid = u16(); auto us = bytes(n);
  // sizes of: the specific info, the decoder config with it, the sync layer config, the ES descriptor with both
  uint32_t i = 5 + n, d = 5 + 13 + i, s = 5 + (n + 1);
  uint32_t es = 3 + (dep ? 2 : 0) + (url ? 1 + n : 0) + (ocr ? 2 : 0) + d + s;
  r.b(3, 8).len(es).b(id, 16).b(dep, 1).b(url, 1).b(ocr, 1).b(pri, 5);
  if (dep) r.b(did, 16);
  if (url) r.b(n, 8).all(us, 8);
  if (ocr) r.b(oid, 16);
  r.b(4, 8).len(13 + i).b(oti, 8).b(st, 6).b(up, 1).b(res, 1).b(buf, 24).b(mx, 32).b(av, 32);
  r.b(5, 8).len(n).all(info, 8);
  r.b(6, 8).len(n + 1).all(sldata, 8);
  auto dsi = std::make_shared<DecSpecificInfo>(DecSpecificInfoParameters{.data = info});
  auto sl = std::make_shared<SLConfigDescr>(SLConfigDescrParameters{.data = sldata});
  auto dc = std::make_shared<DecoderConfigDescriptor>(DecoderConfigDescriptorParameters{.object_type_indication = oti, .stream_type = (int8_t)st, .upstream = up, .reserved = res, .buffer_size_db = buf, .max_bitrate = mx, .avg_bitrate = av});
  auto e = std::make_shared<ESDescriptor>(ESDescriptorParameters{.ESID = id, .stream_dependence_flag = dep, .url_flag = url, .ocr_stream_flag = ocr, .stream_priority = (int8_t)pri, .depends_on_esid = did, .url_string = us, .OCRESID = oid});
  dc->addSubDescriptor(dsi);
  e->addSubDescriptor(dc);
  e->addSubDescriptor(sl);
  return Esds({.descriptors = {e, dc, dsi, sl}}); } };
LAY(Fiel) { auto a = u8(), o = u8(); r.b(a, 8).b(o, 8); return Fiel({.field_count = a, .field_ordering = o}); } };
LAY(Free) { auto d = bytes(n); r.all(d, 8); return Free({.data = d}); } };
#define BRANDS auto m = arr<uint8_t, 4>(); auto mv = u32(); r.all(m, 8).b(mv, 32); auto l = list(n, [&] { auto c = arr<uint8_t, 4>(); r.all(c, 8); return Brand(c); });
LAY(Ftyp) { BRANDS return Ftyp({.major_brand = Brand(m), .minor_version = mv, .compatible_brands = l}); } };
LAY(Styp) { BRANDS return Styp({.major_brand = Brand(m), .minor_version = mv, .compatible_brands = l}); } };
LAY(Hdlr) {
  VF auto t = arr<uint8_t, 4>(); auto name = text(n);
  r.b(0, 32).all(t, 8).b(0, 32).b(0, 32).b(0, 32).z(name);
  return Hdlr({.version = ve, .flags = f, .pre_defined = 0, .handler_type = t, .name = name, .padding = {}}); } };
LAY(Iods) {
  VF auto tag = u8(), a = u8(), s = u8(), o = u8(), vi = u8(), g = u8(); auto id = u16();
  r.b(tag, 8).len(7).b(id, 16).b(o, 8).b(s, 8).b(a, 8).b(vi, 8).b(g, 8);
  return Iods({.version = ve, .flags = f, .type_tag = tag, .OD_ID = id, .OD_profile_level = o, .scene_profile_level = s, .audio_profile_level = a, .video_profile_level = vi, .graphics_profile_level = g}); } };
LAY(Mdat) { auto d = bytes(n); r.all(d, 8); return Mdat({.data = d}); } };
LAY(Mdhd) {
  VF1 auto l = arr<uint8_t, 3>(); auto c = u64(), m = u64(), d = u64(); auto ts = u32(); bool pad = flag(); auto pd = u16();
  for (auto x : l) sym_assume((x >= 'a') & (x <= 'z'));
  r.b(c, tw).b(m, tw).b(ts, 32).b(d, tw).b(pad, 1);
  for (auto x : l) r.b((uint64_t)(x - 'a' + 1), 5);
  r.b(pd, 16);
  return Mdhd({.version = ve, .flags = f, .creation_time = c, .modification_time = m, .timescale = ts, .duration = d, .pad = pad, .language = l, .pre_defined = pd}); } };
LAY(Mehd) { VF1 auto d = u64(); r.b(d, tw); return Mehd({.version = ve, .flags = f, .fragment_duration = d}); } };
LAY(Meta) { r.vf(0, 0); return Meta(); } };
LAY(Mfhd) { VF auto s = u32(); r.b(s, 32); return Mfhd({.version = ve, .flags = f, .sequence_number = s}); } };
LAY(Mfro) { VF auto s = u32(); r.b(s, 32); return Mfro({.version = ve, .flags = f, .size = s}); } };
LAY(Mvhd) {
  VF1 auto c = u64(), m = u64(), d = u64(); auto ts = u32(), nt = u32(); auto rate = i32(); auto vol = i16(); auto mx = arr<int32_t, 9>(); auto pd = arr<int32_t, 6>();
  r.b(c, tw).b(m, tw).b(ts, 32).b(d, tw).b((uint64_t)rate, 32).b((uint64_t)vol, 16).b(0, 16).b(0, 64).all(mx, 32).all(pd, 32).b(nt, 32);
  return Mvhd({.version = ve, .flags = f, .creation_time = c, .modification_time = m, .timescale = ts, .duration = d, .rate = rate, .volume = vol, .matrix = mx, .pre_defined = pd, .next_track_id = nt}); } };
LAY(PixelAspectRatio) { auto h = u32(), w = u32(); r.b(h, 32).b(w, 32); return PixelAspectRatio({.h_spacing = h, .v_spacing = w}); } };
LAY(Pssh) {
  VF1 auto id = arr<uint8_t, 16>(); auto d = bytes(n + 1);
  r.all(id, 8);
  if (ve == 1) r.b(n, 32);
  auto k = list(n, [&] { auto x = arr<uint8_t, 16>(); if (ve == 1) r.all(x, 8); return PsshKID({.kid = x}); });
  r.b(n + 1, 32).all(d, 8);
  return Pssh({.version = ve, .flags = f, .system_id = id, .kids = k, .data = d}); } };
LAY(Sbgp) {
  VF1 auto g = arr<uint8_t, 4>(); auto p = u32();
  r.all(g, 8);
  if (ve == 1) r.b(p, 32);
  r.b(n, 32);
  return Sbgp({.version = ve, .flags = f, .grouping_type = g, .grouping_type_parameter = p, .entries = list(n, [&] { auto a = u32(), i = u32(); r.b(a, 32).b(i, 32); return SbgpEntry({.sample_count = a, .group_description_index = i}); })}); } };
LAY(Sdtp) {
  r.vf(0, 0);
  return Sdtp({.samples = list(n, [&] { auto a = bits(2), b = bits(2), c = bits(2), d = bits(2); r.b(a, 2).b(b, 2).b(c, 2).b(d, 2);
    return SdtpSample({.is_leading = a, .sample_depends_on = b, .sample_is_depended_on = c, .sample_has_redundancy = d}); })}); } };
// variants as in boxmake.hpp: 0 roll, 1 prol, 2 alst, 3 rap, 4 tele; +8: version 1 with a length per entry; +16: version 2; +32: version 0
LAY(Sgpd) {
  unsigned k = v & 7;
  bool per = (v & 8) != 0;
  uint8_t ve = (v & 16) ? 2 : (v & 32) ? 0 : 1;
  auto f = fl();
  static const char* types[] = {"roll", "prol", "alst", "rap ", "tele"};
  const char* t = types[k];
  uint32_t own = k <= 1 ? 2 : k == 2 ? 4 + 4 * 2 + 4 * n : 1;  // bytes of one entry: alst has two offsets and n pairs
  uint32_t index = u32();
  r.vf(ve, f);
  for (int i = 0; i < 4; i++) r.b((uint8_t)t[i], 8);
  if (ve == 1) r.b(per ? 0 : own, 32);
  if (ve >= 2) r.b(index, 32);
  r.b(n, 32);
  std::vector<RollDistance> rd; std::vector<AlternativeStartupEntry> al; std::vector<VisualRandomAccessEntry> ra; std::vector<TemporalLevelEntry> te;
  for (size_t i = 0; i < n; i++) {
    uint32_t dl = per ? own : 0;
    if (per) r.b(own, 32);
    if (k <= 1) { auto x = i16(); r.b((uint64_t)x, 16); rd.push_back(RollDistance({.description_length = dl, .roll_distance = x})); }
    if (k == 2) {
      auto fo = u16(); auto so = list(2, [] { return u32(); });
      r.b(2, 16).b(fo, 16).all(so, 32);
      al.push_back(AlternativeStartupEntry({.description_length = dl, .roll_count = 2, .first_output_sample = fo, .sample_offsets = so,
        .opts = list(n, [&] { auto a = u16(), b = u16(); r.b(a, 16).b(b, 16); return AlternativeStartupEntryOpt({.num_output_samples = a, .num_total_samples = b}); })}));
    }
    if (k == 3) { bool kn = flag(); auto c = bits(7); r.b(kn, 1).b(c, 7); ra.push_back(VisualRandomAccessEntry({.description_length = dl, .num_leading_samples_known = kn, .num_leading_samples = c})); }
    if (k == 4) { bool in = flag(); r.b(in, 1).b(0, 7); te.push_back(TemporalLevelEntry({.description_length = dl, .level_independently_decodable = in})); }
  }
  return Sgpd({.version = ve, .flags = f, .grouping_type = {(uint8_t)t[0], (uint8_t)t[1], (uint8_t)t[2], (uint8_t)t[3]}, .default_length = per ? 0 : own, .default_sample_description_index = index,
    .roll_distances = rd, .alternative_startup_entries = al, .visual_random_access_entries = ra, .temporal_level_entries = te}); } };
LAY(Sidx) {
  VF1 auto id = u32(), ts = u32(); auto ep = u64(), fo = u64();
  r.b(id, 32).b(ts, 32).b(ep, tw).b(fo, tw).b(0, 16).b(n, 16);
  return Sidx({.version = ve, .flags = f, .reference_id = id, .timescale = ts, .earliest_presentation_time = ep, .first_offset = fo, .references = list(n, [&] {
    bool rt = flag(), sap = flag(); auto rs = u32() & 0x7FFFFFFF, sd = u32(), dt = u32() & 0xFFFFFFF; auto st = bits(3);
    r.b(rt, 1).b(rs, 31).b(sd, 32).b(sap, 1).b(st, 3).b(dt, 28);
    return SidxReference({.reference_type = rt, .reference_size = rs, .subsegument_duration = sd, .starts_with_sap = sap, .sap_type = st, .sap_delta_time = dt}); })}); } };
LAY(Skip) { auto d = bytes(n); r.all(d, 8); return Skip({.data = d}); } };
LAY(Smhd) { VF auto b = i16(); r.b((uint64_t)b, 16).b(0, 16); return Smhd({.version = ve, .flags = f, .balance = b}); } };
LAY(Stco) { VF r.b(n, 32); auto l = list(n, [] { return u32(); }); r.all(l, 32); return Stco({.version = ve, .flags = f, .chunk_offsets = l}); } };
LAY(Stsc) { VF r.b(n, 32); return Stsc({.version = ve, .flags = f, .entries = list(n, [&] { auto a = u32(), b = u32(), c = u32(); r.b(a, 32).b(b, 32).b(c, 32); return StscEntry({.first_chunk = a, .samples_per_chunk = b, .sample_description_index = c}); })}); } };
LAY(Stsd) { VF auto c = u32(); r.b(c, 32); return Stsd({.version = ve, .flags = f, .entry_count = c}); } };
LAY(Stss) { VF r.b(n, 32); auto l = list(n, [] { return u32(); }); r.all(l, 32); return Stss({.version = ve, .flags = f, .sample_numbers = l}); } };
LAY(Stsz) {
  VF auto l = list(n, [] { return u32(); });
  r.b(0, 32).b(n, 32).all(l, 32);
  return Stsz({.version = ve, .flags = f, .sample_size = 0, .entry_sizes = l}); } };
LAY(Stts) { VF r.b(n, 32); return Stts({.version = ve, .flags = f, .entries = list(n, [&] { auto a = u32(), b = u32(); r.b(a, 32).b(b, 32); return SttsEntry({.sample_count = a, .sample_duration = b}); })}); } };
LAY(Tfdt) { VF1 auto t = u64(); r.b(t, tw); return Tfdt({.version = ve, .flags = f, .base_media_decode_time = t}); } };
LAY(Tfhd) {
  VF auto id = u32(), di = u32(), du = u32(), sz = u32(), sf = u32(); auto bo = u64();
  r.b(id, 32);
  if (f & 0x1) r.b(bo, 64);
  if (f & 0x2) r.b(di, 32);
  if (f & 0x8) r.b(du, 32);
  if (f & 0x10) r.b(sz, 32);
  if (f & 0x20) r.b(sf, 32);
  return Tfhd({.version = ve, .flags = f, .track_id = id, .base_data_offset = bo, .sample_description_index = di, .default_sample_duration = du, .default_sample_size = sz, .default_sample_flags = sf}); } };
LAY(Tfra) {
  VF1 auto id = u32(); int lt = (int)(v & 3), lr = (int)(v >> 2 & 3), ls = (int)(v >> 4 & 3);
  r.b(id, 32).b(0, 26).b(lt, 2).b(lr, 2).b(ls, 2).b(n, 32);
  return Tfra({.version = ve, .flags = f, .track_id = id, .length_size_of_traf_num = (uint8_t)lt, .length_size_of_trun_num = (uint8_t)lr, .length_size_of_sample_num = (uint8_t)ls, .entries = list(n, [&] {
    auto t = u64(), mo = u64(); auto a = u32(), b = u32(), c = u32();
    r.b(t, tw).b(mo, tw).b(a, 8 * (lt + 1)).b(b, 8 * (lr + 1)).b(c, 8 * (ls + 1));
    return TfraEntry({.time = t, .moof_offset = mo, .traf_number = a, .trun_number = b, .sample_number = c}); })}); } };
LAY(Tkhd) {
  VF1 auto c = u64(), m = u64(), d = u64(); auto id = u32(), w = u32(), h = u32(); auto la = i16(), ag = i16(), vo = i16(); auto mx = arr<int32_t, 9>();
  r.b(c, tw).b(m, tw).b(id, 32).b(0, 32).b(d, tw).b(0, 64).b((uint64_t)la, 16).b((uint64_t)ag, 16).b((uint64_t)vo, 16).b(0, 16).all(mx, 32).b(w, 32).b(h, 32);
  return Tkhd({.version = ve, .flags = f, .creation_time = c, .modification_time = m, .track_id = id, .duration = d, .layer = la, .alternate_group = ag, .volume = vo, .matrix = mx, .width = w, .height = h}); } };
LAY(Trex) {
  VF auto a = u32(), b = u32(), c = u32(), d = u32(), e = u32(); r.b(a, 32).b(b, 32).b(c, 32).b(d, 32).b(e, 32);
  return Trex({.version = ve, .flags = f, .track_id = a, .default_sample_description_index = b, .default_sample_duration = c, .default_sample_size = d, .default_sample_flags = e}); } };
LAY(Trun) {
  VF1 auto off = i32(); auto ff = u32();
  r.b(n, 32);
  if (f & 0x1) r.b((uint64_t)off, 32);
  if (f & 0x4) r.b(ff, 32);
  return Trun({.version = ve, .flags = f, .data_offset = off, .first_sample_flags = ff, .entries = list(n, [&] {
    auto d = u32(), s = u32(), sf = u32(); int64_t co = i32();
    sym_assume((ve == 1) | (co >= 0));
    if (f & 0x100) r.b(d, 32);
    if (f & 0x200) r.b(s, 32);
    if (f & 0x400) r.b(sf, 32);
    if (f & 0x800) r.b((uint64_t)co, 32);
    return TrunEntry({.sample_duration = d, .sample_size = s, .sample_flags = sf, .sample_composition_time_offset = co}); })}); } };
LAY(Unsupported) { auto d = bytes(n); r.all(d, 8); return Unsupported({.data = d}); } };
LAY(Url) { VF auto l = text(n); if (!(f & 1)) r.z(l); return Url({.version = ve, .flags = f, .location = l}); } };
LAY(Urn) { VF sym_assume(!(f & 1)); auto a = text(n), l = text(n + 1); r.z(a).z(l); return Urn({.version = ve, .flags = f, .name = a, .location = l}); } };
LAY(VPCodecConfiguration) {
  uint8_t ve = anyver(); sym_assume(ve != 0); auto f = fl(); r.vf(ve, f);
  auto p = u8(), l = u8(), cp = u8(), tc = u8(), mc = u8(), bd = bits(4), cs = bits(3), fr = bits(1); auto d = bytes(n);
  r.b(p, 8).b(l, 8).b(bd, 4).b(cs, 3).b(fr, 1).b(cp, 8).b(tc, 8).b(mc, 8).b(n, 16).all(d, 8);
  return VPCodecConfiguration({.version = ve, .flags = f, .profile = p, .level = l, .bit_depth = bd, .chroma_sub_sampling = cs, .video_full_range_flag = fr, .colour_primaries = cp, .transfer_characteristics = tc, .matrix_coefficients = mc, .codec_initialization_data = d}); } };
LAY(VisualSampleEntry) {
  auto t = arr<uint8_t, 4>("type"); auto dr = u16(), pd = u16(), w = u16(), h = u16(), fc = u16(), de = u16(); auto p2 = arr<uint32_t, 3>(); auto hr = u32(), vr = u32(); auto cn = arr<uint8_t, 32>(); auto p3 = i16();
  r.b(0, 48).b(dr, 16).b(pd, 16).b(0, 16).all(p2, 32).b(w, 16).b(h, 16).b(hr, 32).b(vr, 32).b(0, 32).b(fc, 16).all(cn, 8).b(de, 16).b((uint64_t)p3, 16);
  return VisualSampleEntry({.type = BoxType(t), .data_reference_index = dr, .pre_defined = pd, .pre_defined2 = p2, .width = w, .height = h, .horizresolution = hr, .vertresolution = vr, .frame_count = fc, .compressorname = cn, .depth = de, .pre_defined3 = p3}); } };
LAY(Vmhd) { VF auto g = u16(); auto o = arr<uint16_t, 3>(); r.b(g, 16).all(o, 16); return Vmhd({.version = ve, .flags = f, .graphicsmode = g, .opcolor = o}); } };

template <class B>
static void check(size_t n, unsigned v) {
  Ref r;
  B b = Lay<B>::make(r, n, v);
  std::stringstream out;
  if (throws([&] { b.writeData(out); })) return sym_fail("a representable box can be written");
  obs_str(out.str());
  sym_assert(same(out.str(), r.s), "written as its format prescribes");
  // and the other way round: what the format prescribes is understood, and means the same values
  B c;
  mk::like(c, b, 0);
  std::stringstream in(r.s), again;
  uint64_t k = 0;
  if (throws([&] { k = c.readData(in); })) return sym_fail("a payload as the format prescribes it is accepted");
  sym_assert(k == 8 * r.s.size(), "all of the payload is parsed");
  if (throws([&] { c.writeData(again); })) return sym_fail("a parsed box can be written");
  sym_assert(same(again.str(), r.s), "the parsed box holds the same values");
  sym_reach("done");
}
ENTRY h_lay() {
  size_t n = sym_param(1);
  unsigned v = (unsigned)sym_param(2);
  switch (sym_param(0)) {
#define X(i, B) case i: check<box::B>(n, v); break;
    BOXES(X)
#undef X
  }
  sym_reach("end");
}
