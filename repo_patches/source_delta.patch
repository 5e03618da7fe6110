From 1d8f0b256c663bd629b597d6d2a048b11a4e7a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:41 +0000
Subject: [PATCH 01/24] fix: read_string never reads past a limit that is not a
 whole number of bytes

---
 src/bitio/bitio.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bitio/bitio.cpp b/src/bitio/bitio.cpp
index 697c417..957edcc 100644
--- a/src/bitio/bitio.cpp
+++ b/src/bitio/bitio.cpp
@@ -32,7 +32,7 @@ std::uint64_t write_string(Writer* writer, const std::string& str) {
 std::uint64_t read_string(Reader* reader, std::string* str, const std::uint64_t max_rbits) {
   std::uint64_t rbits = 0;
   str->clear();
-  while (rbits < max_rbits) {
+  while (rbits + 8 <= max_rbits) {
     std::vector<std::uint8_t> v;
     reader->readBits(&v, 8);
     rbits += 8;
-- 
2.43.0


From ba5e8a8583a6fa30eed72c7b8b32753ada80a8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:39 +0000
Subject: [PATCH 02/24] fix: Hdlr::readData() reads the padding that follows
 the name as bytes, not bits

---
 src/box/hdlr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/box/hdlr.cpp b/src/box/hdlr.cpp
index 343d481..91ff9c0 100644
--- a/src/box/hdlr.cpp
+++ b/src/box/hdlr.cpp
@@ -77,7 +77,7 @@ std::uint64_t Hdlr::readData(std::istream& is) {
         fmt::format("Hdlr::readData(): invalid name_rbits: offset_to_end={} name_rbits={}", offset_to_end, name_rbits));
   }
   rbits += name_rbits;
-  return rbits + bitio::read_vector_uint<std::uint8_t>(&reader, (offset_to_end * 8) - name_rbits, &m_padding);
+  return rbits + bitio::read_vector_uint<std::uint8_t>(&reader, offset_to_end - (name_rbits / 8), &m_padding);
 }
 
 }  // namespace shiguredo::mp4::box
-- 
2.43.0


From 7534436ba89dc3885dd343d59ff1f6c6103dda7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:39 +0000
Subject: [PATCH 03/24] fix: FullBox::removeFlag() leaves a flag that is not
 set cleared

---
 src/box.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/box.cpp b/src/box.cpp
index 87bfa9b..00068ed 100644
--- a/src/box.cpp
+++ b/src/box.cpp
@@ -148,7 +148,7 @@ void FullBox::addFlag(std::uint32_t flag) {
 }
 
 void FullBox::removeFlag(std::uint32_t flag) {
-  setFlags(getFlags() ^ flag);
+  setFlags(getFlags() & ~flag);
 }
 
 std::uint64_t FullBox::writeVersionAndFlag(bitio::Writer* writer) const {
-- 
2.43.0


From e1051d4effbe4373b3f57319cd10689f83920609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:54 +0000
Subject: [PATCH 04/24] fix: format_epoch_19040101() gives the placeholder for
 times that gmtime_r() cannot convert

---
 src/time/time.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/time/time.cpp b/src/time/time.cpp
index ce8670a..f40f309 100644
--- a/src/time/time.cpp
+++ b/src/time/time.cpp
@@ -10,11 +10,11 @@
 namespace shiguredo::mp4::time {
 
 std::string format_epoch_19040101(const std::uint64_t t) {
-  std::time_t from1970 = static_cast<std::time_t>(t - SECONDS_19040101_to_19700101);
-  if (from1970 > std::numeric_limits<std::uint32_t>::max()) {
+  if (t > SECONDS_19040101_to_19700101 + std::numeric_limits<std::uint32_t>::max()) {
     // cannot handle big values.
     return "0000-00-00T00:00:00Z";
   }
+  std::time_t from1970 = static_cast<std::time_t>(t - SECONDS_19040101_to_19700101);
   std::tm tm;
 
   return fmt::format("{:%FT%TZ}", *gmtime_r(&from1970, &tm));
-- 
2.43.0


From 5c8f600c0d77b3ff8b783c1e65433ca476231d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:54 +0000
Subject: [PATCH 05/24] fix: Iods::readData() consumes the rest of its
 descriptor and refuses a too short length

---
 include/shiguredo/mp4/box/iods.hpp |  2 ++
 src/box/iods.cpp                   | 11 ++++++++---
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/shiguredo/mp4/box/iods.hpp b/include/shiguredo/mp4/box/iods.hpp
index 1e28056..be148a2 100644
--- a/include/shiguredo/mp4/box/iods.hpp
+++ b/include/shiguredo/mp4/box/iods.hpp
@@ -3,6 +3,7 @@
 #include <cstdint>
 #include <istream>
 #include <string>
+#include <vector>
 
 #include "shiguredo/mp4/box.hpp"
 #include "shiguredo/mp4/box_type.hpp"
@@ -44,6 +45,7 @@ class Iods : public FullBox {
   std::uint8_t m_audio_profile_level;
   std::uint8_t m_video_profile_level;
   std::uint8_t m_graphics_profile_level;
+  std::vector<std::uint8_t> m_extra_data;
 };
 
 }  // namespace shiguredo::mp4::box
diff --git a/src/box/iods.cpp b/src/box/iods.cpp
index 766ddd5..8ee4a57 100644
--- a/src/box/iods.cpp
+++ b/src/box/iods.cpp
@@ -4,6 +4,8 @@
 
 #include <cstdint>
 #include <istream>
+#include <iterator>
+#include <stdexcept>
 #include <string>
 #include <vector>
 
@@ -56,11 +58,11 @@ std::uint64_t Iods::writeData(std::ostream& os) const {
   wbits += bitio::write_uint<std::uint8_t>(&writer, m_audio_profile_level);
   wbits += bitio::write_uint<std::uint8_t>(&writer, m_video_profile_level);
   wbits += bitio::write_uint<std::uint8_t>(&writer, m_graphics_profile_level);
-  return wbits;
+  return wbits + bitio::write_vector_uint<std::uint8_t>(&writer, m_extra_data);
 }
 
 std::uint64_t Iods::getDataSize() const {
-  return 12 + bitio::uvarint_size(m_descriptor_length);
+  return 12 + bitio::uvarint_size(m_descriptor_length) + std::size(m_extra_data);
 }
 
 std::uint64_t Iods::readData(std::istream& is) {
@@ -74,7 +76,10 @@ std::uint64_t Iods::readData(std::istream& is) {
   rbits += bitio::read_uint<std::uint8_t>(&reader, &m_audio_profile_level);
   rbits += bitio::read_uint<std::uint8_t>(&reader, &m_video_profile_level);
   rbits += bitio::read_uint<std::uint8_t>(&reader, &m_graphics_profile_level);
-  return rbits + (m_descriptor_length - 7) * 8;
+  if (m_descriptor_length < 7) {
+    throw std::runtime_error(fmt::format("Iods::readData(): invalid descriptor_length: {}", m_descriptor_length));
+  }
+  return rbits + bitio::read_vector_uint<std::uint8_t>(&reader, m_descriptor_length - 7, &m_extra_data);
 }
 
 }  // namespace shiguredo::mp4::box
-- 
2.43.0


From 20b169ddeeb6804646c9b108f15981a1595900a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:14 +0000
Subject: [PATCH 06/24] fix: AVCDecoderConfiguration::readData() consumes the
 trailing bytes it reports

---
 src/box/avc.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/box/avc.cpp b/src/box/avc.cpp
index 5f2e4ca..95fd773 100644
--- a/src/box/avc.cpp
+++ b/src/box/avc.cpp
@@ -191,6 +191,7 @@ std::uint64_t AVCDecoderConfiguration::readData(std::istream& is) {
   const auto offset_to_end = shiguredo::mp4::stream::get_istream_offset_to_end(is);
   if (offset_to_end < AVCHighProfileMinimumSize) {
     spdlog::debug("AVCDecoderConfiguration::readData: offset_to_end: {}", offset_to_end);
+    reader.seek(0, std::ios_base::end);
     return rbits + static_cast<std::uint64_t>(offset_to_end) * 8;
   }
   m_high_profile_fields_enabled = true;
-- 
2.43.0


From 18c311f955c55eaa91fbe8d78656bb9c4dcde90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:14 +0000
Subject: [PATCH 07/24] fix: Esds::readData() consumes what follows an unknown
 tag and reports it once

---
 src/box/esds.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/box/esds.cpp b/src/box/esds.cpp
index ed8d5e9..cedee39 100644
--- a/src/box/esds.cpp
+++ b/src/box/esds.cpp
@@ -339,7 +339,8 @@ std::uint64_t Esds::readData(std::istream& is) {
         break;
       default:
         spdlog::info("Esds::readData(): unknown tag: {}", tag);
-        return rbits + static_cast<std::uint64_t>(offset_to_end) * 8;
+        reader.seek(0, std::ios_base::end);
+        return rbits + static_cast<std::uint64_t>(offset_to_end - 1) * 8;
     }
     rbits += p->readData(&reader);
     m_descriptors.push_back(p);
-- 
2.43.0


From a31b4412845342135b38a91176858e0516a284c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:14 +0000
Subject: [PATCH 08/24] fix: Sgpd does not parse entries with an uninitialised
 default length

---
 include/shiguredo/mp4/box/sgpd.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/shiguredo/mp4/box/sgpd.hpp b/include/shiguredo/mp4/box/sgpd.hpp
index fff5755..031a7e4 100644
--- a/include/shiguredo/mp4/box/sgpd.hpp
+++ b/include/shiguredo/mp4/box/sgpd.hpp
@@ -162,8 +162,8 @@ class Sgpd : public FullBox {
 
  private:
   GroupingType m_grouping_type;
-  std::uint32_t m_default_length;
-  std::uint32_t m_default_sample_description_index;
+  std::uint32_t m_default_length = 0;
+  std::uint32_t m_default_sample_description_index = 0;
   std::vector<RollDistance> m_roll_distances;
   std::vector<AlternativeStartupEntry> m_alternative_startup_entries;
   std::vector<VisualRandomAccessEntry> m_visual_random_access_entries;
-- 
2.43.0


From fd01f870152c7ef12f41c7bb22efdc494aafd083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:14 +0000
Subject: [PATCH 09/24] fix: AudioSampleEntry under wave writes and sizes what
 it reads, and starts with initialised flags

---
 include/shiguredo/mp4/box/sample_entry.hpp | 4 ++--
 src/box/sample_entry.cpp                   | 6 ++++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/shiguredo/mp4/box/sample_entry.hpp b/include/shiguredo/mp4/box/sample_entry.hpp
index 2a7a91a..b4dcb98 100644
--- a/include/shiguredo/mp4/box/sample_entry.hpp
+++ b/include/shiguredo/mp4/box/sample_entry.hpp
@@ -106,9 +106,9 @@ class AudioSampleEntry : public SampleEntry {
   std::uint16_t m_pre_defined;
   std::uint16_t m_reserved3 = 0;
   std::uint32_t m_sample_rate;
-  bool m_is_quick_time_compatible;
+  bool m_is_quick_time_compatible = false;
   std::vector<std::uint8_t> m_quick_time_data;
-  bool m_under_wave;
+  bool m_under_wave = false;
 
   void checkLengthOfQuickTimeData(std::uint64_t size) const;
   std::uint64_t getLengthOfQuickTimeData(std::uint64_t size) const;
diff --git a/src/box/sample_entry.cpp b/src/box/sample_entry.cpp
index 8e67cfc..983d5db 100644
--- a/src/box/sample_entry.cpp
+++ b/src/box/sample_entry.cpp
@@ -149,6 +149,9 @@ std::string AudioSampleEntry::toStringOnlyData() const {
 
 std::uint64_t AudioSampleEntry::writeData(std::ostream& os) const {
   bitio::Writer writer(os);
+  if (m_under_wave) {
+    return bitio::write_vector_uint<std::uint8_t>(&writer, m_quick_time_data);
+  }
   std::uint64_t wbits = writeReservedAndDataReferenceIndex(&writer);
   wbits += bitio::write_uint<std::uint16_t>(&writer, m_entry_version);
   for (const auto r : m_reserved2) {
@@ -166,6 +169,9 @@ std::uint64_t AudioSampleEntry::writeData(std::ostream& os) const {
 }
 
 std::uint64_t AudioSampleEntry::getDataSize() const {
+  if (m_under_wave) {
+    return std::size(m_quick_time_data);
+  }
   std::uint64_t size = 8 + 8 + 8 + 4;
   if (!m_is_quick_time_compatible) {
     return size;
-- 
2.43.0


From 80a1b56fab55dbd73682529ac13ea7551046881b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:31 +0000
Subject: [PATCH 10/24] fix: BoxHeader::write() notices that the stream did not
 take the header

---
 src/box_header.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/box_header.cpp b/src/box_header.cpp
index 5cc2e9e..f3932fc 100644
--- a/src/box_header.cpp
+++ b/src/box_header.cpp
@@ -105,7 +105,10 @@ std::uint64_t BoxHeader::write(std::ostream& os) {
   data[6] = type_data[2];
   data[7] = type_data[3];
 
-  std::copy(std::begin(data), std::end(data), std::ostreambuf_iterator<char>(os));
+  os.write(reinterpret_cast<const char*>(data.data()), static_cast<std::streamsize>(std::size(data)));
+  if (!os.good()) {
+    throw std::runtime_error(fmt::format("BoxHeader::write() ostream::write() failed: rdstate={}", os.rdstate()));
+  }
   m_size += std::size(data) - m_header_size;
   m_header_size = std::size(data);
   return m_size;
-- 
2.43.0


From 94ca8b4f6636515f6dbd8cf456229972fc199d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:31 +0000
Subject: [PATCH 11/24] fix: read_box_header() notices that the stream did not
 deliver the header

---
 src/box_header.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/box_header.cpp b/src/box_header.cpp
index f3932fc..ee4aa80 100644
--- a/src/box_header.cpp
+++ b/src/box_header.cpp
@@ -38,7 +38,10 @@ BoxHeader* read_box_header(std::istream& is) {
     throw std::runtime_error(fmt::format("read_box_header(): istream::seekg() failed: rdstate={}", is.rdstate()));
   }
   std::array<std::uint8_t, 8> buf;
-  std::copy_n(std::istreambuf_iterator<char>(is), 8, std::begin(buf));
+  is.read(reinterpret_cast<char*>(buf.data()), Constants::SMALL_HEADER_SIZE);
+  if (!is.good()) {
+    throw std::runtime_error(fmt::format("read_box_header(): istream::read() failed: rdstate={}", is.rdstate()));
+  }
   std::uint64_t header_size = Constants::SMALL_HEADER_SIZE;
   std::uint64_t size = endian::be_to_uint32(buf[0], buf[1], buf[2], buf[3]);
   BoxType type;
@@ -57,8 +60,10 @@ BoxHeader* read_box_header(std::istream& is) {
     if (!is.good()) {
       throw std::runtime_error(fmt::format("read_box_header(): istream::seekg() failed: rdstate={}", is.rdstate()));
     }
-    std::copy_n(std::istreambuf_iterator<char>(is), Constants::LARGE_HEADER_SIZE - Constants::SMALL_HEADER_SIZE,
-                std::begin(buf));
+    is.read(reinterpret_cast<char*>(buf.data()), Constants::LARGE_HEADER_SIZE - Constants::SMALL_HEADER_SIZE);
+    if (!is.good()) {
+      throw std::runtime_error(fmt::format("read_box_header(): istream::read() failed: rdstate={}", is.rdstate()));
+    }
     header_size = Constants::LARGE_HEADER_SIZE;
     size = endian::be_to_uint64(buf[0], buf[1], buf[2], buf[3], buf[4], buf[5], buf[6], buf[7]);
   }
-- 
2.43.0


From c87ff833b2ed1fc4c2c9eedeb51a2276c76530a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:31 +0000
Subject: [PATCH 12/24] fix: SimpleWriter::addMdatData() notices that the
 stream did not take the data

---
 src/writer/simple_writer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/writer/simple_writer.cpp b/src/writer/simple_writer.cpp
index e15648d..27b7efb 100644
--- a/src/writer/simple_writer.cpp
+++ b/src/writer/simple_writer.cpp
@@ -92,7 +92,7 @@ void SimpleWriter::writeFreeBoxAndMdatHeader() {
 }
 
 void SimpleWriter::addMdatData(const std::uint8_t* data, const std::size_t data_size) {
-  std::copy_n(data, data_size, std::ostreambuf_iterator<char>(m_os));
+  m_os.write(reinterpret_cast<const char*>(data), static_cast<std::streamsize>(data_size));
   if (!m_os.good()) {
     throw std::runtime_error(
         fmt::format("SimpleWriter::addMdatData(): ostream::write() failed: rdstate={}", m_os.rdstate()));
-- 
2.43.0


From 3bf520cd9f88d21c12a79baec311eab615507588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:31 +0000
Subject: [PATCH 13/24] fix: FaststartWriter::copyMdatData() notices failing
 reads and writes

---
 src/writer/faststart_writer.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/writer/faststart_writer.cpp b/src/writer/faststart_writer.cpp
index c109a70..0f681f3 100644
--- a/src/writer/faststart_writer.cpp
+++ b/src/writer/faststart_writer.cpp
@@ -150,7 +150,11 @@ void FaststartWriter::copyMdatData() {
   char buffer[COPY_MDAT_DATA_BUFFER_SIZE];
   while (!std::feof(m_mdat_fd)) {
     std::size_t size = std::fread(buffer, 1, COPY_MDAT_DATA_BUFFER_SIZE, m_mdat_fd);
-    std::copy_n(buffer, size, std::ostreambuf_iterator<char>(m_os));
+    if (std::ferror(m_mdat_fd)) {
+      throw std::runtime_error(fmt::format(
+          "FaststartWriter::copyMdatData(): cannot read the intermediate file: {}", m_mdat_path.string()));
+    }
+    m_os.write(buffer, static_cast<std::streamsize>(size));
     if (!m_os.good()) {
       throw std::runtime_error(
           fmt::format("FaststartWriter::copyMdatData(): copying mdat data failed: rdstate={}", m_os.rdstate()));
-- 
2.43.0


From e72fcdbe0a64970423e544a9d25eb3d7c7bb70ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:51 +0000
Subject: [PATCH 14/24] fix: SimpleReader notices that the stream did not
 deliver a payload

---
 src/reader/reader.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/reader/reader.cpp b/src/reader/reader.cpp
index 55d4433..f7229ec 100644
--- a/src/reader/reader.cpp
+++ b/src/reader/reader.cpp
@@ -54,7 +54,13 @@ std::uint64_t SimpleReader::readBox(BoxInfo* parent) {
     throw std::runtime_error(fmt::format("corrupt file? box data size({}) is greater than remaining_size({})",
                                          header->getDataSize(), remaining_size));
   }
-  std::copy_n(std::istreambuf_iterator<char>(m_is), header->getDataSize(), std::ostreambuf_iterator<char>(ss));
+  std::string data(header->getDataSize(), '\0');
+  m_is.read(data.data(), static_cast<std::streamsize>(std::size(data)));
+  if (!m_is.good()) {
+    throw std::runtime_error(
+        fmt::format("SimpleReader::readBox(): istream::read() failed: rdstate={}", m_is.rdstate()));
+  }
+  ss.str(data);
 
   spdlog::trace("SimpleReader::readBox(): Header={}", header->toString());
 
-- 
2.43.0


From 55e1960a7ed87a7e8bd6cb144ebd703778b03656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:51 +0000
Subject: [PATCH 15/24] fix: SimpleReader refuses boxes nested so deeply that
 the recursion would exhaust the stack

---
 src/reader/reader.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/reader/reader.cpp b/src/reader/reader.cpp
index f7229ec..94a1718 100644
--- a/src/reader/reader.cpp
+++ b/src/reader/reader.cpp
@@ -20,6 +20,9 @@
 
 namespace shiguredo::mp4::reader {
 
+// readBox() recurses once per nesting level; real files stay far below this
+static const std::size_t MAX_BOX_DEPTH = 128;
+
 SimpleReader::SimpleReader(std::istream& t_is) : m_is(t_is) {
   register_box_map(&m_box_map);
   m_is.seekg(0, std::ios_base::end);
@@ -45,6 +48,9 @@ void SimpleReader::read() {
 }
 
 std::uint64_t SimpleReader::readBox(BoxInfo* parent) {
+  if (parent && std::size(parent->getPath()) >= MAX_BOX_DEPTH) {
+    throw std::runtime_error("SimpleReader::readBox(): corrupt file? boxes are nested too deeply");
+  }
   BoxHeader* header = read_box_header(m_is);
   header->seekToData(m_is);
   std::stringstream ss;
-- 
2.43.0


From b4f1a1a9d8d145d1417a36e447b407d5ca8d6730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:25 +0000
Subject: [PATCH 16/24] fix: find_next_nal_unit() sees start codes near the end
 of the data and units with a zero header

---
 src/track/h264.cpp | 34 +++++++++++++++-------------------
 1 file changed, 15 insertions(+), 19 deletions(-)

diff --git a/src/track/h264.cpp b/src/track/h264.cpp
index 0a3efac..1517925 100644
--- a/src/track/h264.cpp
+++ b/src/track/h264.cpp
@@ -161,35 +161,31 @@ std::ostream& operator<<(std::ostream& os, const NalUnit& nu) {
 NalUnit find_next_nal_unit(const std::uint8_t* data, const std::size_t data_size, const std::size_t start) {
   // start から NalUnit が始まっていることを期待する
   auto index = start;
-  std::size_t start_code_size;
+  std::size_t start_code_size = 0;
   std::uint8_t header = 0;
-  while (index + 5 < data_size) {
-    if (data[index] == 0 && data[index + 1] == 0 && data[index + 2] == 0 & data[index + 3] == 1) {
-      if (header == 0) {
-        start_code_size = 4;
-        header = data[index + 4];
-      } else {
-        return NalUnit{start_code_size, start, index, header};
-      }
-      index += 4;
-      continue;
+  while (index + 3 < data_size) {
+    std::size_t found_size = 0;
+    if (index + 4 < data_size && data[index] == 0 && data[index + 1] == 0 && data[index + 2] == 0 &&
+        data[index + 3] == 1) {
+      found_size = 4;
+    } else if (data[index] == 0 && data[index + 1] == 0 && data[index + 2] == 1) {
+      found_size = 3;
     }
-    if (data[index] == 0 && data[index + 1] == 0 && data[index + 2] == 1) {
-      if (header == 0) {
-        start_code_size = 3;
-        header = data[index + 3];
-      } else {
+    if (found_size > 0) {
+      if (start_code_size > 0) {
         return NalUnit{start_code_size, start, index, header};
       }
-      index += 3;
+      start_code_size = found_size;
+      header = data[index + found_size];
+      index += found_size;
       continue;
     }
-    if (index == start && header == 0) {
+    if (start_code_size == 0) {
       throw std::runtime_error(fmt::format("not start with nalunit: start={}", start));
     }
     ++index;
   }
-  if (header == 0) {
+  if (start_code_size == 0) {
     throw std::runtime_error("nalunit not found");
   }
   return NalUnit{start_code_size, start, data_size, header};
-- 
2.43.0


From 6200cfa12f7bef38101fa10976351895c9d0580c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:35 +0000
Subject: [PATCH 17/24] fix: H264Track does not append parameter sets it
 already has, whose count would overflow in avcC

---
 include/shiguredo/mp4/box/avc.hpp |  2 ++
 src/track/h264.cpp                | 10 ++++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/shiguredo/mp4/box/avc.hpp b/include/shiguredo/mp4/box/avc.hpp
index adeead5..42a903e 100644
--- a/include/shiguredo/mp4/box/avc.hpp
+++ b/include/shiguredo/mp4/box/avc.hpp
@@ -53,6 +53,8 @@ class AVCParameterSet {
   std::uint64_t getSize() const;
   std::uint64_t readData(bitio::Reader*);
 
+  bool operator==(const AVCParameterSet&) const = default;
+
  private:
   std::vector<std::uint8_t> m_nal_unit;
 };
diff --git a/src/track/h264.cpp b/src/track/h264.cpp
index 1517925..9425513 100644
--- a/src/track/h264.cpp
+++ b/src/track/h264.cpp
@@ -192,11 +192,17 @@ NalUnit find_next_nal_unit(const std::uint8_t* data, const std::size_t data_size
 }
 
 void H264Track::appendSequenceParameterSets(const shiguredo::mp4::box::AVCParameterSet& params) {
-  m_sequence_parameter_sets.emplace_back(params);
+  if (std::find(std::begin(m_sequence_parameter_sets), std::end(m_sequence_parameter_sets), params) ==
+      std::end(m_sequence_parameter_sets)) {
+    m_sequence_parameter_sets.emplace_back(params);
+  }
 }
 
 void H264Track::appendPictureParameterSets(const shiguredo::mp4::box::AVCParameterSet& params) {
-  m_picture_parameter_sets.emplace_back(params);
+  if (std::find(std::begin(m_picture_parameter_sets), std::end(m_picture_parameter_sets), params) ==
+      std::end(m_picture_parameter_sets)) {
+    m_picture_parameter_sets.emplace_back(params);
+  }
 }
 
 }  // namespace shiguredo::mp4::track
-- 
2.43.0


From 3e4483e13d6bb546d3e59d0a2220955506fb0c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:15 +0000
Subject: [PATCH 18/24] fix: Hdlr writes a name that was read as a pascal
 string back as one

---
 include/shiguredo/mp4/box/hdlr.hpp | 1 +
 src/box/hdlr.cpp                   | 5 ++++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/shiguredo/mp4/box/hdlr.hpp b/include/shiguredo/mp4/box/hdlr.hpp
index 8143fc1..21d6a5f 100644
--- a/include/shiguredo/mp4/box/hdlr.hpp
+++ b/include/shiguredo/mp4/box/hdlr.hpp
@@ -40,6 +40,7 @@ class Hdlr : public FullBox {
   std::array<std::uint8_t, 4> m_flags = {0, 0, 0, 0};         // Reserved. Set to 0.
   std::array<std::uint8_t, 4> m_flags_mask = {0, 0, 0, 0};    // Reserved. Set to 0
   std::string m_name;
+  bool m_pascal_name = false;
   std::vector<std::uint8_t> m_padding = {};
 };
 
diff --git a/src/box/hdlr.cpp b/src/box/hdlr.cpp
index 91ff9c0..6329854 100644
--- a/src/box/hdlr.cpp
+++ b/src/box/hdlr.cpp
@@ -48,7 +48,7 @@ std::uint64_t Hdlr::writeData(std::ostream& os) const {
   wbits += bitio::write_array_uint8_4(&writer, m_manufacturer);
   wbits += bitio::write_array_uint8_4(&writer, m_flags);
   wbits += bitio::write_array_uint8_4(&writer, m_flags_mask);
-  wbits += bitio::write_string(&writer, m_name);
+  wbits += m_pascal_name ? bitio::write_pascal_string(&writer, m_name) : bitio::write_string(&writer, m_name);
   return wbits + bitio::write_vector_uint<std::uint8_t>(&writer, m_padding);
 }
 
@@ -67,6 +67,9 @@ std::uint64_t Hdlr::readData(std::istream& is) {
 
   const auto offset_to_end = static_cast<std::uint64_t>(shiguredo::mp4::stream::get_istream_offset_to_end(is));
   std::uint64_t name_rbits;
+  // a length byte that matches the rest of the box makes the name a pascal string
+  m_pascal_name =
+      m_pre_defined != 0 && offset_to_end >= 2 && static_cast<std::uint64_t>(is.peek()) == offset_to_end - 1;
   if (m_pre_defined != 0) {
     name_rbits = bitio::read_pascal_string(&reader, &m_name, offset_to_end * 8);
   } else {
-- 
2.43.0


From f06452590a73d0ff331d5c0f7fff5ba8a84cc4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:42 +0000
Subject: [PATCH 19/24] fix: Stsz keeps the sample count of boxes with a common
 sample size

---
 include/shiguredo/mp4/box/stsz.hpp |  3 ++-
 src/box/stsz.cpp                   | 14 ++++++++------
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/include/shiguredo/mp4/box/stsz.hpp b/include/shiguredo/mp4/box/stsz.hpp
index f59290d..55738d4 100644
--- a/include/shiguredo/mp4/box/stsz.hpp
+++ b/include/shiguredo/mp4/box/stsz.hpp
@@ -31,7 +31,8 @@ class Stsz : public FullBox {
   std::uint64_t readData(std::istream&) override;
 
  private:
-  std::uint32_t m_sample_size;
+  std::uint32_t m_sample_size = 0;
+  std::uint32_t m_sample_count = 0;
   std::vector<std::uint32_t> m_entry_sizes;
 };
 
diff --git a/src/box/stsz.cpp b/src/box/stsz.cpp
index c9281c7..b101577 100644
--- a/src/box/stsz.cpp
+++ b/src/box/stsz.cpp
@@ -24,7 +24,10 @@ Stsz::Stsz() {
   m_type = box_type_stsz();
 }
 
-Stsz::Stsz(const StszParameters& params) : m_sample_size(params.sample_size), m_entry_sizes(params.entry_sizes) {
+Stsz::Stsz(const StszParameters& params)
+    : m_sample_size(params.sample_size),
+      m_sample_count(static_cast<std::uint32_t>(std::size(params.entry_sizes))),
+      m_entry_sizes(params.entry_sizes) {
   setVersion(params.version);
   setFlags(params.flags);
   m_type = box_type_stsz();
@@ -32,14 +35,14 @@ Stsz::Stsz(const StszParameters& params) : m_sample_size(params.sample_size), m_
 
 std::string Stsz::toStringOnlyData() const {
   return fmt::format("{} SampleSize={} SampleCount={} EntrySizes=[{}]", getVersionAndFlagsString(), m_sample_size,
-                     std::size(m_entry_sizes), fmt::join(m_entry_sizes, ", "));
+                     m_sample_count, fmt::join(m_entry_sizes, ", "));
 }
 
 std::uint64_t Stsz::writeData(std::ostream& os) const {
   bitio::Writer writer(os);
   std::uint64_t wbits = writeVersionAndFlag(&writer);
   wbits += bitio::write_uint<std::uint32_t>(&writer, m_sample_size);
-  wbits += bitio::write_uint<std::uint32_t>(&writer, static_cast<std::uint32_t>(std::size(m_entry_sizes)));
+  wbits += bitio::write_uint<std::uint32_t>(&writer, m_sample_count);
   if (m_sample_size == 0) {
     wbits += bitio::write_vector_uint<std::uint32_t>(&writer, m_entry_sizes);
   }
@@ -54,10 +57,9 @@ std::uint64_t Stsz::readData(std::istream& is) {
   bitio::Reader reader(is);
   std::uint64_t rbits = readVersionAndFlag(&reader);
   rbits += bitio::read_uint<std::uint32_t>(&reader, &m_sample_size);
-  std::uint32_t sample_count;
-  rbits += bitio::read_uint<std::uint32_t>(&reader, &sample_count);
+  rbits += bitio::read_uint<std::uint32_t>(&reader, &m_sample_count);
   if (m_sample_size == 0) {
-    rbits += bitio::read_vector_uint<std::uint32_t>(&reader, sample_count, &m_entry_sizes);
+    rbits += bitio::read_vector_uint<std::uint32_t>(&reader, m_sample_count, &m_entry_sizes);
   } else {
     m_entry_sizes.clear();
   }
-- 
2.43.0


From a6ef3cf7fbe569464729154571d34ef318cd4315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:57 +0000
Subject: [PATCH 20/24] fix: keep the top bit of stream priority and stream
 type in ES descriptors

---
 src/box/esds.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/box/esds.cpp b/src/box/esds.cpp
index cedee39..b2bd4af 100644
--- a/src/box/esds.cpp
+++ b/src/box/esds.cpp
@@ -46,7 +46,7 @@ std::uint64_t ESDescriptor::writeData(bitio::Writer* writer) const {
   wbits += write_bool(writer, m_stream_dependence_flag);
   wbits += write_bool(writer, m_url_flag);
   wbits += write_bool(writer, m_ocr_stream_flag);
-  wbits += bitio::write_int<std::int8_t>(writer, m_stream_priority, 5);
+  wbits += bitio::write_uint<std::uint8_t>(writer, static_cast<std::uint8_t>(m_stream_priority), 5);
   if (m_stream_dependence_flag) {
     wbits += bitio::write_uint<std::uint16_t>(writer, m_depends_on_esid);
   }
@@ -101,7 +101,9 @@ std::uint64_t ESDescriptor::readData(bitio::Reader* reader) {
   rbits += read_bool(reader, &m_stream_dependence_flag);
   rbits += read_bool(reader, &m_url_flag);
   rbits += read_bool(reader, &m_ocr_stream_flag);
-  rbits += bitio::read_int<std::int8_t>(reader, &m_stream_priority, 5);
+  std::uint8_t stream_priority;
+  rbits += bitio::read_uint<std::uint8_t>(reader, &stream_priority, 5);
+  m_stream_priority = static_cast<std::int8_t>(stream_priority);
   if (m_stream_dependence_flag) {
     rbits += bitio::read_uint<std::uint16_t>(reader, &m_depends_on_esid);
   }
@@ -159,7 +161,7 @@ std::uint64_t DecoderConfigDescriptor::writeData(bitio::Writer* writer) const {
   auto wbits = bitio::write_int<std::int8_t>(writer, m_tag);
   wbits += bitio::write_uvarint<std::uint32_t>(writer, getDataSizeWithSubDescriptors());
   wbits += bitio::write_uint<std::uint8_t>(writer, m_object_type_indication);
-  wbits += bitio::write_int<std::int8_t>(writer, m_stream_type, 6);
+  wbits += bitio::write_uint<std::uint8_t>(writer, static_cast<std::uint8_t>(m_stream_type), 6);
   wbits += write_bool(writer, m_upstream);
   wbits += write_bool(writer, m_reserved);
   wbits += bitio::write_uint<std::uint32_t>(writer, m_buffer_size_db, 24);
@@ -189,7 +191,9 @@ std::uint64_t DecoderConfigDescriptor::readData(bitio::Reader* reader) {
   std::uint32_t data_size_with_sub_descriptors;
   auto rbits = bitio::read_uvarint<std::uint32_t>(reader, &data_size_with_sub_descriptors);
   rbits += bitio::read_uint<std::uint8_t>(reader, &m_object_type_indication);
-  rbits += bitio::read_int<std::int8_t>(reader, &m_stream_type, 6);
+  std::uint8_t stream_type;
+  rbits += bitio::read_uint<std::uint8_t>(reader, &stream_type, 6);
+  m_stream_type = static_cast<std::int8_t>(stream_type);
   rbits += read_bool(reader, &m_upstream);
   rbits += read_bool(reader, &m_reserved);
   rbits += bitio::read_uint<std::uint32_t>(reader, &m_buffer_size_db, 24);
-- 
2.43.0


From 49b6a6201387227916a0b753edce63d59c2f7b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:34 +0000
Subject: [PATCH 21/24] fix: use 64-bit header boxes where durations or times
 do not fit into 32 bits

---
 src/track/soun.cpp              |  9 ++++++++-
 src/track/track.cpp             | 13 +++++++++++--
 src/track/vide.cpp              |  7 +++++++
 src/writer/faststart_writer.cpp |  6 +++++-
 src/writer/simple_writer.cpp    |  6 +++++-
 5 files changed, 36 insertions(+), 5 deletions(-)

diff --git a/src/track/soun.cpp b/src/track/soun.cpp
index a7b21c6..dfbd58c 100644
--- a/src/track/soun.cpp
+++ b/src/track/soun.cpp
@@ -1,5 +1,8 @@
 #include "shiguredo/mp4/track/soun.hpp"
 
+#include <cstdint>
+#include <limits>
+
 #include "shiguredo/mp4/box/boxes.hpp"
 #include "shiguredo/mp4/box_info.hpp"
 
@@ -10,8 +13,12 @@ SounTrack::SounTrack() {
 }
 
 void SounTrack::makeTkhdBoxInfo(BoxInfo* trak) {
+  // version 1 where the values do not fit into 32 bits
+  const bool is_large = getDurationInMvhdTimescale() > std::numeric_limits<std::uint32_t>::max() ||
+                        m_time_from_epoch > std::numeric_limits<std::uint32_t>::max();
   new BoxInfo({.parent = trak,
-               .box = new box::Tkhd({.flags = 0x000003,
+               .box = new box::Tkhd({.version = static_cast<std::uint8_t>(is_large ? 1 : 0),
+                                     .flags = 0x000003,
                                      .creation_time = m_time_from_epoch,
                                      .modification_time = m_time_from_epoch,
                                      .track_id = m_track_id,
diff --git a/src/track/track.cpp b/src/track/track.cpp
index 9348463..8cd0dad 100644
--- a/src/track/track.cpp
+++ b/src/track/track.cpp
@@ -172,8 +172,13 @@ BoxInfo* Track::makeEdtsBoxInfo(BoxInfo* trak) {
 }
 
 void Track::makeElstBoxInfo(BoxInfo* edts) {
+  // version 1 where the values do not fit into 32 bits
+  const bool is_large = getDurationInMvhdTimescale() > std::numeric_limits<std::uint32_t>::max() ||
+                        m_media_time > std::numeric_limits<std::int32_t>::max() ||
+                        m_media_time < std::numeric_limits<std::int32_t>::min();
   new BoxInfo({.parent = edts,
-               .box = new box::Elst({.entries = {box::ElstEntry({.track_duration = getDurationInMvhdTimescale(),
+               .box = new box::Elst({.version = static_cast<std::uint8_t>(is_large ? 1 : 0),
+                                     .entries = {box::ElstEntry({.track_duration = getDurationInMvhdTimescale(),
                                                                  .media_time = m_media_time})}})});
 }
 
@@ -182,8 +187,12 @@ BoxInfo* Track::makeMdiaBoxInfo(BoxInfo* trak) {
 }
 
 void Track::makeMdhdBoxInfo(BoxInfo* mdia) {
+  // version 1 where the values do not fit into 32 bits
+  const bool is_large = getDurationInTimescale() > std::numeric_limits<std::uint32_t>::max() ||
+                        m_time_from_epoch > std::numeric_limits<std::uint32_t>::max();
   new BoxInfo({.parent = mdia,
-               .box = new box::Mdhd({.creation_time = m_time_from_epoch,
+               .box = new box::Mdhd({.version = static_cast<std::uint8_t>(is_large ? 1 : 0),
+                                     .creation_time = m_time_from_epoch,
                                      .modification_time = m_time_from_epoch,
                                      .timescale = m_timescale,
                                      .duration = getDurationInTimescale()})});
diff --git a/src/track/vide.cpp b/src/track/vide.cpp
index 4f46495..7d5b6b4 100644
--- a/src/track/vide.cpp
+++ b/src/track/vide.cpp
@@ -1,5 +1,8 @@
 #include "shiguredo/mp4/track/vide.hpp"
 
+#include <cstdint>
+#include <limits>
+
 #include "shiguredo/mp4/box/boxes.hpp"
 #include "shiguredo/mp4/box_info.hpp"
 
@@ -10,8 +13,12 @@ VideTrack::VideTrack() {
 }
 
 void VideTrack::makeTkhdBoxInfo(BoxInfo* trak) {
+  // version 1 where the values do not fit into 32 bits
+  const bool is_large = getDurationInMvhdTimescale() > std::numeric_limits<std::uint32_t>::max() ||
+                        m_time_from_epoch > std::numeric_limits<std::uint32_t>::max();
   new BoxInfo({.parent = trak,
                .box = new box::Tkhd({
+                   .version = static_cast<std::uint8_t>(is_large ? 1 : 0),
                    .flags = 0x000003,
                    .creation_time = m_time_from_epoch,
                    .modification_time = m_time_from_epoch,
diff --git a/src/writer/faststart_writer.cpp b/src/writer/faststart_writer.cpp
index 0f681f3..46876cf 100644
--- a/src/writer/faststart_writer.cpp
+++ b/src/writer/faststart_writer.cpp
@@ -54,7 +54,11 @@ void FaststartWriter::recreateMoovBoxInfo() {
 
   m_moov_box_info = new BoxInfo({.box = new box::Moov()});
   const std::uint64_t mvhd_duration = static_cast<std::uint64_t>(static_cast<float>(m_mvhd_timescale) * m_duration);
-  m_mvhd_box = new box::Mvhd({.creation_time = m_time_from_epoch,
+  // version 1 where the values do not fit into 32 bits
+  const bool is_large = mvhd_duration > std::numeric_limits<std::uint32_t>::max() ||
+                        m_time_from_epoch > std::numeric_limits<std::uint32_t>::max();
+  m_mvhd_box = new box::Mvhd({.version = static_cast<std::uint8_t>(is_large ? 1 : 0),
+                              .creation_time = m_time_from_epoch,
                               .modification_time = m_time_from_epoch,
                               .timescale = m_mvhd_timescale,
                               .duration = mvhd_duration,
diff --git a/src/writer/simple_writer.cpp b/src/writer/simple_writer.cpp
index 27b7efb..17b568c 100644
--- a/src/writer/simple_writer.cpp
+++ b/src/writer/simple_writer.cpp
@@ -31,7 +31,11 @@ SimpleWriter::SimpleWriter(std::ostream& t_os, const SimpleWriterParameters& par
   const std::uint64_t mvhd_duration = static_cast<std::uint64_t>(static_cast<float>(m_mvhd_timescale) * m_duration);
 
   m_moov_box_info = new BoxInfo({.box = new box::Moov()});
-  m_mvhd_box = new box::Mvhd({.creation_time = m_time_from_epoch,
+  // version 1 where the values do not fit into 32 bits
+  const bool is_large = mvhd_duration > std::numeric_limits<std::uint32_t>::max() ||
+                        m_time_from_epoch > std::numeric_limits<std::uint32_t>::max();
+  m_mvhd_box = new box::Mvhd({.version = static_cast<std::uint8_t>(is_large ? 1 : 0),
+                              .creation_time = m_time_from_epoch,
                               .modification_time = m_time_from_epoch,
                               .timescale = m_mvhd_timescale,
                               .duration = mvhd_duration,
-- 
2.43.0


From 8fc63a2d842c91b07ec6f6c7f9ac7bad4a0fe5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:40 +0000
Subject: [PATCH 22/24] fix: refuse lists that have more entries than their
 count fields can hold

---
 src/box/avc.cpp  | 12 ++++++++++++
 src/box/sidx.cpp |  5 +++++
 src/box/vpc.cpp  |  6 ++++++
 3 files changed, 23 insertions(+)

diff --git a/src/box/avc.cpp b/src/box/avc.cpp
index 95fd773..84659eb 100644
--- a/src/box/avc.cpp
+++ b/src/box/avc.cpp
@@ -8,6 +8,7 @@
 #include <algorithm>
 #include <cstdint>
 #include <iterator>
+#include <limits>
 #include <memory>
 #include <numeric>
 #include <stdexcept>
@@ -52,6 +53,10 @@ std::string AVCParameterSet::toString() const {
 }
 
 std::uint64_t AVCParameterSet::writeData(bitio::Writer* writer) const {
+  if (std::size(m_nal_unit) > std::numeric_limits<std::uint16_t>::max()) {
+    throw std::runtime_error(
+        fmt::format("AVCParameterSet::writeData(): nal_unit is too long: {}", std::size(m_nal_unit)));
+  }
   auto wbits = bitio::write_uint<std::uint16_t>(writer, static_cast<std::uint16_t>(std::size(m_nal_unit)));
   wbits += bitio::write_vector_uint<std::uint8_t>(writer, m_nal_unit);
   return wbits;
@@ -126,6 +131,13 @@ std::string AVCDecoderConfiguration::toStringOnlyData() const {
 }
 
 std::uint64_t AVCDecoderConfiguration::writeData(std::ostream& os) const {
+  if (std::size(m_sequence_parameter_sets) > 31 ||
+      std::size(m_picture_parameter_sets) > std::numeric_limits<std::uint8_t>::max() ||
+      std::size(m_sequence_parameter_sets_ext) > std::numeric_limits<std::uint8_t>::max()) {
+    throw std::runtime_error(fmt::format("AVCDecoderConfiguration::writeData(): too many parameter sets: {} {} {}",
+                                         std::size(m_sequence_parameter_sets), std::size(m_picture_parameter_sets),
+                                         std::size(m_sequence_parameter_sets_ext)));
+  }
   bitio::Writer writer(os);
   auto wbits = bitio::write_uint<std::uint8_t>(&writer, m_configuration_version);
   wbits += bitio::write_uint<std::uint8_t>(&writer, m_profile);
diff --git a/src/box/sidx.cpp b/src/box/sidx.cpp
index d9f9f39..f567389 100644
--- a/src/box/sidx.cpp
+++ b/src/box/sidx.cpp
@@ -7,8 +7,10 @@
 #include <cstdint>
 #include <istream>
 #include <iterator>
+#include <limits>
 #include <memory>
 #include <numeric>
+#include <stdexcept>
 #include <string>
 
 #include "shiguredo/mp4/bitio/bitio.hpp"
@@ -50,6 +52,9 @@ std::string Sidx::toStringOnlyData() const {
 }
 
 std::uint64_t Sidx::writeData(std::ostream& os) const {
+  if (std::size(m_references) > std::numeric_limits<std::uint16_t>::max()) {
+    throw std::runtime_error(fmt::format("Sidx::writeData(): too many references: {}", std::size(m_references)));
+  }
   bitio::Writer writer(os);
   std::uint64_t wbits = writeVersionAndFlag(&writer);
   wbits += bitio::write_uint<std::uint32_t>(&writer, m_reference_id);
diff --git a/src/box/vpc.cpp b/src/box/vpc.cpp
index dae7534..9713a80 100644
--- a/src/box/vpc.cpp
+++ b/src/box/vpc.cpp
@@ -5,7 +5,9 @@
 
 #include <cstdint>
 #include <istream>
+#include <limits>
 #include <ostream>
+#include <stdexcept>
 #include <string>
 
 #include "shiguredo/mp4/bitio/bitio.hpp"
@@ -33,6 +35,10 @@ std::string VPCodecConfiguration::toStringOnlyData() const {
 }
 
 std::uint64_t VPCodecConfiguration::writeData(std::ostream& os) const {
+  if (m_version != 0 && std::size(m_codec_initialization_data) > std::numeric_limits<std::uint16_t>::max()) {
+    throw std::runtime_error(fmt::format("VPCodecConfiguration::writeData(): codec_initialization_data is too long: {}",
+                                         std::size(m_codec_initialization_data)));
+  }
   bitio::Writer writer(os);
   std::uint64_t wbits = writeVersionAndFlag(&writer);
   wbits += bitio::write_uint<std::uint8_t>(&writer, m_profile);
-- 
2.43.0


From 430b5c65ff39c3f71474bd2990213f52529eee57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:47 +0000
Subject: [PATCH 23/24] fix: notice when the position of a stream cannot be
 told

---
 src/bitio/bitio.cpp          | 2 +-
 src/bitio/reader.cpp         | 6 +++++-
 src/box_header.cpp           | 4 ++--
 src/reader/reader.cpp        | 4 ++++
 src/stream/stream.cpp        | 4 ++--
 src/writer/simple_writer.cpp | 2 +-
 6 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/bitio/bitio.cpp b/src/bitio/bitio.cpp
index 957edcc..867907b 100644
--- a/src/bitio/bitio.cpp
+++ b/src/bitio/bitio.cpp
@@ -69,7 +69,7 @@ std::uint64_t read_pascal_string(Reader* reader, std::string* str, const std::ui
   std::istream& is = reader->getIStream();
 
   auto offset = is.tellg();
-  if (!is.good()) {
+  if (!is.good() || offset == std::istream::pos_type(-1)) {
     throw std::runtime_error(
         fmt::format("bitio::read_pascal_string(): istream::tellg() failed: rdstate={}", is.rdstate()));
   }
diff --git a/src/bitio/reader.cpp b/src/bitio/reader.cpp
index 55612e2..986c54e 100644
--- a/src/bitio/reader.cpp
+++ b/src/bitio/reader.cpp
@@ -66,7 +66,11 @@ std::uint64_t Reader::seek(const std::uint64_t offset, const std::ios_base::seek
     throw std::runtime_error(fmt::format("bitio::Reader::seek(): istream::seekg() failed: rdstate={}", m_is.rdstate()));
   }
   m_width = 0;
-  return static_cast<std::uint64_t>(m_is.tellg());
+  const auto position = m_is.tellg();
+  if (!m_is.good() || position == std::istream::pos_type(-1)) {
+    throw std::runtime_error(fmt::format("bitio::Reader::seek(): istream::tellg() failed: rdstate={}", m_is.rdstate()));
+  }
+  return static_cast<std::uint64_t>(position);
 }
 
 void Reader::setOctet(const std::uint8_t octet) {
diff --git a/src/box_header.cpp b/src/box_header.cpp
index ee4aa80..fb7ab1a 100644
--- a/src/box_header.cpp
+++ b/src/box_header.cpp
@@ -17,7 +17,7 @@ namespace shiguredo::mp4 {
 
 BoxHeader* read_box_header(std::istream& is) {
   const std::uint64_t offset = static_cast<std::uint64_t>(is.tellg());
-  if (!is.good()) {
+  if (!is.good() || offset == static_cast<std::uint64_t>(-1)) {
     throw std::runtime_error(fmt::format("read_box_header(): istream::tellg() failed: rdstate={}", is.rdstate()));
   }
   is.seekg(0, std::ios_base::end);
@@ -25,7 +25,7 @@ BoxHeader* read_box_header(std::istream& is) {
     throw std::runtime_error(fmt::format("read_box_header(): istream::seekg() failed: rdstate={}", is.rdstate()));
   }
   const auto offset_eof = static_cast<std::uint64_t>(is.tellg());
-  if (!is.good()) {
+  if (!is.good() || offset_eof == static_cast<std::uint64_t>(-1)) {
     throw std::runtime_error(fmt::format("read_box_header(): istream::tellg() failed: rdstate={}", is.rdstate()));
   }
   if ((offset_eof - offset) < Constants::SMALL_HEADER_SIZE) {
diff --git a/src/reader/reader.cpp b/src/reader/reader.cpp
index 94a1718..e6882fb 100644
--- a/src/reader/reader.cpp
+++ b/src/reader/reader.cpp
@@ -27,6 +27,10 @@ SimpleReader::SimpleReader(std::istream& t_is) : m_is(t_is) {
   register_box_map(&m_box_map);
   m_is.seekg(0, std::ios_base::end);
   m_total_size = static_cast<std::uint64_t>(m_is.tellg());
+  if (!m_is.good() || m_total_size == static_cast<std::uint64_t>(-1)) {
+    throw std::runtime_error(
+        fmt::format("SimpleReader::SimpleReader(): istream::tellg() failed: rdstate={}", m_is.rdstate()));
+  }
   m_is.seekg(0, std::ios_base::beg);
   spdlog::debug("SimpleReader::SimpleReader(): m_total_size={}", m_total_size);
 }
diff --git a/src/stream/stream.cpp b/src/stream/stream.cpp
index e99ca18..e20d8ed 100644
--- a/src/stream/stream.cpp
+++ b/src/stream/stream.cpp
@@ -8,7 +8,7 @@ namespace shiguredo::mp4::stream {
 
 std::streamoff get_istream_offset_to_end(std::istream& is) {
   const auto offset = is.tellg();
-  if (!is.good()) {
+  if (!is.good() || offset == std::istream::pos_type(-1)) {
     throw std::runtime_error(
         fmt::format("stream::get_istream_offset_to_end(): istream::tellg() failed: rdstate={}", is.rdstate()));
   }
@@ -18,7 +18,7 @@ std::streamoff get_istream_offset_to_end(std::istream& is) {
         fmt::format("stream::get_istream_offset_to_end(): istream::seekg() failed: rdstate={}", is.rdstate()));
   }
   const auto end_offset = is.tellg();
-  if (!is.good()) {
+  if (!is.good() || end_offset == std::istream::pos_type(-1)) {
     throw std::runtime_error(
         fmt::format("stream::get_istream_offset_to_end(): istream::tellg() failed: rdstate={}", is.rdstate()));
   }
diff --git a/src/writer/simple_writer.cpp b/src/writer/simple_writer.cpp
index 17b568c..8e8ebe9 100644
--- a/src/writer/simple_writer.cpp
+++ b/src/writer/simple_writer.cpp
@@ -111,7 +111,7 @@ void SimpleWriter::setOffsetAndSize() {
 
 std::uint64_t SimpleWriter::tellCurrentMdatOffset() {
   const auto offset = m_os.tellp();
-  if (!m_os.good()) {
+  if (!m_os.good() || offset == std::ostream::pos_type(-1)) {
     throw std::runtime_error(
         fmt::format("SimpleWriter::tellCurrentMdatOffset(): ostream::tellp() failed: rdstate={}", m_os.rdstate()));
   }
-- 
2.43.0


From a74abae2804168ccc1db430cc591afb34fdf0559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:33 +0000
Subject: [PATCH 24/24] fix: a version 0 sample group description has no
 default sample description index

---
 src/box/sgpd.cpp | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/box/sgpd.cpp b/src/box/sgpd.cpp
index 28bbadb..69ae084 100644
--- a/src/box/sgpd.cpp
+++ b/src/box/sgpd.cpp
@@ -48,7 +48,7 @@ std::string Sgpd::toStringOnlyData() const {
   std::string s = fmt::format(R"({} GroupingType="{}")", getVersionAndFlagsString(), grouping_type);
   if (m_version == 1) {
     s += fmt::format(" DefaultLength={}", m_default_length);
-  } else {
+  } else if (m_version >= 2) {
     s += fmt::format(" DefaultSampleDescriptionIndex={}", m_default_sample_description_index);
   }
   auto no_default_length = noDefaultLength();
@@ -107,7 +107,7 @@ std::uint64_t Sgpd::writeData(std::ostream& os) const {
   wbits += bitio::write_array_uint8_4(&writer, m_grouping_type);
   if (m_version == 1) {
     wbits += bitio::write_uint<std::uint32_t>(&writer, m_default_length);
-  } else {
+  } else if (m_version >= 2) {
     wbits += bitio::write_uint<std::uint32_t>(&writer, m_default_sample_description_index);
   }
   if (m_grouping_type == GroupingTypeRoll || m_grouping_type == GroupingTypeProl) {
@@ -142,23 +142,25 @@ std::uint64_t Sgpd::writeData(std::ostream& os) const {
 }
 
 std::uint64_t Sgpd::getDataSize() const {
+  // version 0 has neither a default length nor a default sample description index
+  const std::uint64_t base = m_version == 0 ? 12 : 16;
   if (m_grouping_type == GroupingTypeRoll || m_grouping_type == GroupingTypeProl) {
-    return 16 + std::accumulate(std::begin(m_roll_distances), std::end(m_roll_distances), 0UL,
-                                [](const auto a, const auto& e) { return a + e.getSize(); });
+    return base + std::accumulate(std::begin(m_roll_distances), std::end(m_roll_distances), 0UL,
+                                  [](const auto a, const auto& e) { return a + e.getSize(); });
   }
   if (m_grouping_type == GroupingTypeAlst) {
-    return 16 + std::accumulate(std::begin(m_alternative_startup_entries), std::end(m_alternative_startup_entries), 0UL,
-                                [](const auto a, const auto& e) { return a + e.getSize(); });
+    return base + std::accumulate(std::begin(m_alternative_startup_entries), std::end(m_alternative_startup_entries),
+                                  0UL, [](const auto a, const auto& e) { return a + e.getSize(); });
   }
   if (m_grouping_type == GroupingTypeRap) {
-    return 16 + std::accumulate(std::begin(m_visual_random_access_entries), std::end(m_visual_random_access_entries),
-                                0UL, [](const auto a, const auto& e) { return a + e.getSize(); });
+    return base + std::accumulate(std::begin(m_visual_random_access_entries), std::end(m_visual_random_access_entries),
+                                  0UL, [](const auto a, const auto& e) { return a + e.getSize(); });
   }
   if (m_grouping_type == GroupingTypeTele) {
-    return 16 + std::accumulate(std::begin(m_temporal_level_entries), std::end(m_temporal_level_entries), 0UL,
-                                [](const auto a, const auto& e) { return a + e.getSize(); });
+    return base + std::accumulate(std::begin(m_temporal_level_entries), std::end(m_temporal_level_entries), 0UL,
+                                  [](const auto a, const auto& e) { return a + e.getSize(); });
   }
-  return 12;
+  return base - 4;
 }
 
 std::uint64_t Sgpd::readData(std::istream& is) {
@@ -167,7 +169,7 @@ std::uint64_t Sgpd::readData(std::istream& is) {
   rbits += bitio::read_array_uint8_4(&reader, &m_grouping_type);
   if (m_version == 1) {
     rbits += bitio::read_uint<std::uint32_t>(&reader, &m_default_length);
-  } else {
+  } else if (m_version >= 2) {
     rbits += bitio::read_uint<std::uint32_t>(&reader, &m_default_sample_description_index);
   }
   auto no_default_length = noDefaultLength();
-- 
2.43.0

