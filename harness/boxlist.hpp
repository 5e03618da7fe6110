#pragma once
#include "shiguredo/mp4/box/boxes.hpp"
#include "shiguredo/mp4/box/unsupported.hpp"
#include "shiguredo/mp4/box_header.hpp"
#include "shiguredo/mp4/box_type.hpp"
// X(index, class, four-character type used for boxes that take any type)
#define BOXES(X) \
  X(0, AV1CodecConfiguration) X(1, AVCDecoderConfiguration) X(2, AudioSampleEntry) X(3, Btrt) X(4, Co64) X(5, Colr) X(6, Ctts) X(7, DOps) \
  X(8, Data) X(9, Dinf) X(10, Dref) X(11, Edts) X(12, Elst) X(13, Emsg) X(14, Esds) X(15, Fiel) X(16, Free) X(17, Ftyp) X(18, Hdlr) X(19, Ilst) \
  X(20, IlstMeta) X(21, Iods) X(22, Mdat) X(23, Mdhd) X(24, Mdia) X(25, Mehd) X(26, Meta) X(27, Mfhd) X(28, Mfra) X(29, Mfro) X(30, Minf) \
  X(31, Moof) X(32, Moov) X(33, Mvex) X(34, Mvhd) X(35, PixelAspectRatio) X(36, Pssh) X(37, Sbgp) X(38, Schi) X(39, Sdtp) X(40, Sgpd) X(41, Sidx) \
  X(42, Sinf) X(43, Skip) X(44, Smhd) X(45, Stbl) X(46, Stco) X(47, Stsc) X(48, Stsd) X(49, Stss) X(50, Stsz) X(51, Stts) X(52, Styp) X(53, Tfdt) \
  X(54, Tfhd) X(55, Tfra) X(56, Tkhd) X(57, Traf) X(58, Trak) X(59, Trex) X(60, Trun) X(61, Udta) X(62, Unsupported) X(63, Url) X(64, Urn) \
  X(65, VPCodecConfiguration) X(66, VisualSampleEntry) X(67, Vmhd) X(68, Wave)
#include <type_traits>
#include "rt.h"
// what the reader's registry does to a fresh box before it parses: give it its type and its place
struct BoxPrep {
  bool under_wave = false;
  std::array<std::uint8_t, 4> type{};
  bool have = false;
  template <class B>
  void operator()(B& b) {
    using namespace shiguredo::mp4;
    if constexpr (std::is_base_of_v<AnyTypeBox, B>) {
      if (!have) {
        have = true;
        if (std::is_same_v<B, box::AudioSampleEntry>) sym_bytes(type.data(), 4, "type");
        else type = {'a', 'v', 'c', '1'};
      }
      b.setType(BoxType(type));
    }
    if constexpr (std::is_same_v<B, box::AudioSampleEntry>) b.setUnderWave(under_wave);
  }
};
