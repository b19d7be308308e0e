From 9609f18ea8b5fe3b76e8ea18b1808f75c9c08722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:08 +0000
Subject: [PATCH 01/46] fix: format_epoch_19040101 dereferences a null tm for
 huge timestamps

---
 src/time/time.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/time/time.cpp b/src/time/time.cpp
index ce8670a..f40f309 100644
--- a/src/time/time.cpp
+++ b/src/time/time.cpp
@@ -10,11 +10,11 @@
 namespace shiguredo::mp4::time {
 
 std::string format_epoch_19040101(const std::uint64_t t) {
-  std::time_t from1970 = static_cast<std::time_t>(t - SECONDS_19040101_to_19700101);
-  if (from1970 > std::numeric_limits<std::uint32_t>::max()) {
+  if (t > SECONDS_19040101_to_19700101 + std::numeric_limits<std::uint32_t>::max()) {
     // cannot handle big values.
     return "0000-00-00T00:00:00Z";
   }
+  std::time_t from1970 = static_cast<std::time_t>(t - SECONDS_19040101_to_19700101);
   std::tm tm;
 
   return fmt::format("{:%FT%TZ}", *gmtime_r(&from1970, &tm));
-- 
2.43.0


From 5f53acfaa8867bafd1f55d57409d5bc1e2a0afb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:08 +0000
Subject: [PATCH 02/46] fix: hdlr padding length is counted in bits instead of
 bytes when reading

---
 src/box/hdlr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/box/hdlr.cpp b/src/box/hdlr.cpp
index 343d481..ffc0cde 100644
--- a/src/box/hdlr.cpp
+++ b/src/box/hdlr.cpp
@@ -77,7 +77,7 @@ std::uint64_t Hdlr::readData(std::istream& is) {
         fmt::format("Hdlr::readData(): invalid name_rbits: offset_to_end={} name_rbits={}", offset_to_end, name_rbits));
   }
   rbits += name_rbits;
-  return rbits + bitio::read_vector_uint<std::uint8_t>(&reader, (offset_to_end * 8) - name_rbits, &m_padding);
+  return rbits + bitio::read_vector_uint<std::uint8_t>(&reader, offset_to_end - name_rbits / 8, &m_padding);
 }
 
 }  // namespace shiguredo::mp4::box
-- 
2.43.0


From d2f220e17c410331d57c4193a0d781dc6f88e15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:08 +0000
Subject: [PATCH 03/46] fix: esds with an unknown descriptor reports one byte
 too many as consumed

---
 src/box/esds.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/box/esds.cpp b/src/box/esds.cpp
index ed8d5e9..c5581b6 100644
--- a/src/box/esds.cpp
+++ b/src/box/esds.cpp
@@ -339,7 +339,7 @@ std::uint64_t Esds::readData(std::istream& is) {
         break;
       default:
         spdlog::info("Esds::readData(): unknown tag: {}", tag);
-        return rbits + static_cast<std::uint64_t>(offset_to_end) * 8;
+        return rbits + (static_cast<std::uint64_t>(offset_to_end) - 1) * 8;
     }
     rbits += p->readData(&reader);
     m_descriptors.push_back(p);
-- 
2.43.0


From 7fb5ed522c1e0396921e137dd5cff856cc6d8e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:08 +0000
Subject: [PATCH 04/46] fix: FullBox::removeFlag sets flags that were not set

---
 src/box.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/box.cpp b/src/box.cpp
index 87bfa9b..00068ed 100644
--- a/src/box.cpp
+++ b/src/box.cpp
@@ -148,7 +148,7 @@ void FullBox::addFlag(std::uint32_t flag) {
 }
 
 void FullBox::removeFlag(std::uint32_t flag) {
-  setFlags(getFlags() ^ flag);
+  setFlags(getFlags() & ~flag);
 }
 
 std::uint64_t FullBox::writeVersionAndFlag(bitio::Writer* writer) const {
-- 
2.43.0


From 3cbe3e90d61fdddb7c243404a838cbfaaa17d9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:32 +0000
Subject: [PATCH 05/46] fix: iods accepts a descriptor length that underflows
 or exceeds the box

---
 src/box/iods.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/box/iods.cpp b/src/box/iods.cpp
index 766ddd5..291c095 100644
--- a/src/box/iods.cpp
+++ b/src/box/iods.cpp
@@ -4,6 +4,7 @@
 
 #include <cstdint>
 #include <istream>
+#include <stdexcept>
 #include <string>
 #include <vector>
 
@@ -11,6 +12,7 @@
 #include "shiguredo/mp4/bitio/reader.hpp"
 #include "shiguredo/mp4/bitio/writer.hpp"
 #include "shiguredo/mp4/box_type.hpp"
+#include "shiguredo/mp4/stream/stream.hpp"
 
 namespace shiguredo::mp4::box {
 
@@ -74,7 +76,13 @@ std::uint64_t Iods::readData(std::istream& is) {
   rbits += bitio::read_uint<std::uint8_t>(&reader, &m_audio_profile_level);
   rbits += bitio::read_uint<std::uint8_t>(&reader, &m_video_profile_level);
   rbits += bitio::read_uint<std::uint8_t>(&reader, &m_graphics_profile_level);
-  return rbits + (m_descriptor_length - 7) * 8;
+  const auto offset_to_end = static_cast<std::uint64_t>(shiguredo::mp4::stream::get_istream_offset_to_end(is));
+  if (m_descriptor_length < 7 || m_descriptor_length - 7 > offset_to_end) {
+    throw std::runtime_error(
+        fmt::format("Iods::readData(): invalid descriptor_length: descriptor_length={} offset_to_end={}",
+                    m_descriptor_length, offset_to_end));
+  }
+  return rbits + static_cast<std::uint64_t>(m_descriptor_length - 7) * 8;
 }
 
 }  // namespace shiguredo::mp4::box
-- 
2.43.0


From 694fbcc3c61e8737f88f70e33161fc52e36645e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:32 +0000
Subject: [PATCH 06/46] fix: read_box_header underflows when the stream is
 positioned past its end

---
 src/box_header.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/box_header.cpp b/src/box_header.cpp
index 5cc2e9e..e89cb71 100644
--- a/src/box_header.cpp
+++ b/src/box_header.cpp
@@ -28,7 +28,7 @@ BoxHeader* read_box_header(std::istream& is) {
   if (!is.good()) {
     throw std::runtime_error(fmt::format("read_box_header(): istream::tellg() failed: rdstate={}", is.rdstate()));
   }
-  if ((offset_eof - offset) < Constants::SMALL_HEADER_SIZE) {
+  if (offset_eof < offset || (offset_eof - offset) < Constants::SMALL_HEADER_SIZE) {
     throw std::invalid_argument(
         fmt::format("read_box_header(): stream has not enough data (1): {} {}", offset_eof, offset));
   }
-- 
2.43.0


From 1f574d38ce49a82df83321c5bb87a98d473aece7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:32 +0000
Subject: [PATCH 07/46] fix: sgpd uses an uninitialised default length and
 wraps description lengths

---
 include/shiguredo/mp4/box/sgpd.hpp | 2 +-
 src/box/sgpd.cpp                   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/shiguredo/mp4/box/sgpd.hpp b/include/shiguredo/mp4/box/sgpd.hpp
index fff5755..1fbbb86 100644
--- a/include/shiguredo/mp4/box/sgpd.hpp
+++ b/include/shiguredo/mp4/box/sgpd.hpp
@@ -162,7 +162,7 @@ class Sgpd : public FullBox {
 
  private:
   GroupingType m_grouping_type;
-  std::uint32_t m_default_length;
+  std::uint32_t m_default_length = 0;
   std::uint32_t m_default_sample_description_index;
   std::vector<RollDistance> m_roll_distances;
   std::vector<AlternativeStartupEntry> m_alternative_startup_entries;
diff --git a/src/box/sgpd.cpp b/src/box/sgpd.cpp
index 28bbadb..f7f6860 100644
--- a/src/box/sgpd.cpp
+++ b/src/box/sgpd.cpp
@@ -320,9 +320,9 @@ std::uint64_t AlternativeStartupEntry::readData(bitio::Reader* reader,
   std::size_t size;
   std::int64_t offset;
   if (m_with_length) {
-    offset = static_cast<std::int64_t>(m_description_length * 8) - static_cast<std::int64_t>(rbits - 32);
+    offset = static_cast<std::int64_t>(m_description_length) * 8 - static_cast<std::int64_t>(rbits - 32);
   } else {
-    offset = static_cast<std::int64_t>(length * 8) - static_cast<std::int64_t>(rbits);
+    offset = static_cast<std::int64_t>(length) * 8 - static_cast<std::int64_t>(rbits);
   }
   if ((offset < 0) || (offset % 32 != 0)) {
     throw std::runtime_error(
-- 
2.43.0


From ac973418562723608a21f7315bfc97024865290c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:48 +0000
Subject: [PATCH 08/46] fix: stsz loses the sample count when all samples have
 the same size

---
 include/shiguredo/mp4/box/stsz.hpp |  1 +
 src/box/stsz.cpp                   | 14 ++++++++------
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/shiguredo/mp4/box/stsz.hpp b/include/shiguredo/mp4/box/stsz.hpp
index f59290d..3e94586 100644
--- a/include/shiguredo/mp4/box/stsz.hpp
+++ b/include/shiguredo/mp4/box/stsz.hpp
@@ -32,6 +32,7 @@ class Stsz : public FullBox {
 
  private:
   std::uint32_t m_sample_size;
+  std::uint32_t m_sample_count;
   std::vector<std::uint32_t> m_entry_sizes;
 };
 
diff --git a/src/box/stsz.cpp b/src/box/stsz.cpp
index c9281c7..b101577 100644
--- a/src/box/stsz.cpp
+++ b/src/box/stsz.cpp
@@ -24,7 +24,10 @@ Stsz::Stsz() {
   m_type = box_type_stsz();
 }
 
-Stsz::Stsz(const StszParameters& params) : m_sample_size(params.sample_size), m_entry_sizes(params.entry_sizes) {
+Stsz::Stsz(const StszParameters& params)
+    : m_sample_size(params.sample_size),
+      m_sample_count(static_cast<std::uint32_t>(std::size(params.entry_sizes))),
+      m_entry_sizes(params.entry_sizes) {
   setVersion(params.version);
   setFlags(params.flags);
   m_type = box_type_stsz();
@@ -32,14 +35,14 @@ Stsz::Stsz(const StszParameters& params) : m_sample_size(params.sample_size), m_
 
 std::string Stsz::toStringOnlyData() const {
   return fmt::format("{} SampleSize={} SampleCount={} EntrySizes=[{}]", getVersionAndFlagsString(), m_sample_size,
-                     std::size(m_entry_sizes), fmt::join(m_entry_sizes, ", "));
+                     m_sample_count, fmt::join(m_entry_sizes, ", "));
 }
 
 std::uint64_t Stsz::writeData(std::ostream& os) const {
   bitio::Writer writer(os);
   std::uint64_t wbits = writeVersionAndFlag(&writer);
   wbits += bitio::write_uint<std::uint32_t>(&writer, m_sample_size);
-  wbits += bitio::write_uint<std::uint32_t>(&writer, static_cast<std::uint32_t>(std::size(m_entry_sizes)));
+  wbits += bitio::write_uint<std::uint32_t>(&writer, m_sample_count);
   if (m_sample_size == 0) {
     wbits += bitio::write_vector_uint<std::uint32_t>(&writer, m_entry_sizes);
   }
@@ -54,10 +57,9 @@ std::uint64_t Stsz::readData(std::istream& is) {
   bitio::Reader reader(is);
   std::uint64_t rbits = readVersionAndFlag(&reader);
   rbits += bitio::read_uint<std::uint32_t>(&reader, &m_sample_size);
-  std::uint32_t sample_count;
-  rbits += bitio::read_uint<std::uint32_t>(&reader, &sample_count);
+  rbits += bitio::read_uint<std::uint32_t>(&reader, &m_sample_count);
   if (m_sample_size == 0) {
-    rbits += bitio::read_vector_uint<std::uint32_t>(&reader, sample_count, &m_entry_sizes);
+    rbits += bitio::read_vector_uint<std::uint32_t>(&reader, m_sample_count, &m_entry_sizes);
   } else {
     m_entry_sizes.clear();
   }
-- 
2.43.0


From e910fe376cc5086788ac021da36c65a53d6ce7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:48 +0000
Subject: [PATCH 09/46] fix: an audio sample entry under wave is not written
 the way it was read

---
 src/box/sample_entry.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/box/sample_entry.cpp b/src/box/sample_entry.cpp
index 8e67cfc..983d5db 100644
--- a/src/box/sample_entry.cpp
+++ b/src/box/sample_entry.cpp
@@ -149,6 +149,9 @@ std::string AudioSampleEntry::toStringOnlyData() const {
 
 std::uint64_t AudioSampleEntry::writeData(std::ostream& os) const {
   bitio::Writer writer(os);
+  if (m_under_wave) {
+    return bitio::write_vector_uint<std::uint8_t>(&writer, m_quick_time_data);
+  }
   std::uint64_t wbits = writeReservedAndDataReferenceIndex(&writer);
   wbits += bitio::write_uint<std::uint16_t>(&writer, m_entry_version);
   for (const auto r : m_reserved2) {
@@ -166,6 +169,9 @@ std::uint64_t AudioSampleEntry::writeData(std::ostream& os) const {
 }
 
 std::uint64_t AudioSampleEntry::getDataSize() const {
+  if (m_under_wave) {
+    return std::size(m_quick_time_data);
+  }
   std::uint64_t size = 8 + 8 + 8 + 4;
   if (!m_is_quick_time_compatible) {
     return size;
-- 
2.43.0


From 7232f68ce7ad74e30d112ab9d057fcb766b93908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:49 +0000
Subject: [PATCH 10/46] fix: children of a QuickTime meta box are parsed four
 bytes too late

---
 src/box/meta.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/box/meta.cpp b/src/box/meta.cpp
index 5c91881..cebe910 100644
--- a/src/box/meta.cpp
+++ b/src/box/meta.cpp
@@ -32,8 +32,11 @@ std::uint64_t Meta::readData(std::istream& is) {
   bitio::Reader reader(is);
   std::uint64_t rbits = readVersionAndFlag(&reader);
   if ((m_version | m_flags[0] | m_flags[1] | m_flags[2]) != 0) {
+    // QuickTime: no version and flags, the child boxes start here.
     m_version = 0;
     m_flags = {0, 0, 0};
+    is.seekg(-static_cast<std::streamoff>(rbits / 8), std::ios_base::cur);
+    return 0;
   }
 
   return rbits;
-- 
2.43.0


From 6c230388a64e05733c7f4d2eca98186b7c1d90fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:10 +0000
Subject: [PATCH 11/46] fix: failed writes of sample data and box headers go
 unnoticed

---
 src/box_header.cpp              | 5 ++++-
 src/writer/faststart_writer.cpp | 2 +-
 src/writer/simple_writer.cpp    | 2 +-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/box_header.cpp b/src/box_header.cpp
index e89cb71..869be29 100644
--- a/src/box_header.cpp
+++ b/src/box_header.cpp
@@ -105,7 +105,10 @@ std::uint64_t BoxHeader::write(std::ostream& os) {
   data[6] = type_data[2];
   data[7] = type_data[3];
 
-  std::copy(std::begin(data), std::end(data), std::ostreambuf_iterator<char>(os));
+  os.write(reinterpret_cast<const char*>(data.data()), static_cast<std::streamsize>(std::size(data)));
+  if (!os.good()) {
+    throw std::runtime_error(fmt::format("BoxHeader::write() ostream::write() failed: rdstate={}", os.rdstate()));
+  }
   m_size += std::size(data) - m_header_size;
   m_header_size = std::size(data);
   return m_size;
diff --git a/src/writer/faststart_writer.cpp b/src/writer/faststart_writer.cpp
index c109a70..cd2b63f 100644
--- a/src/writer/faststart_writer.cpp
+++ b/src/writer/faststart_writer.cpp
@@ -150,7 +150,7 @@ void FaststartWriter::copyMdatData() {
   char buffer[COPY_MDAT_DATA_BUFFER_SIZE];
   while (!std::feof(m_mdat_fd)) {
     std::size_t size = std::fread(buffer, 1, COPY_MDAT_DATA_BUFFER_SIZE, m_mdat_fd);
-    std::copy_n(buffer, size, std::ostreambuf_iterator<char>(m_os));
+    m_os.write(buffer, static_cast<std::streamsize>(size));
     if (!m_os.good()) {
       throw std::runtime_error(
           fmt::format("FaststartWriter::copyMdatData(): copying mdat data failed: rdstate={}", m_os.rdstate()));
diff --git a/src/writer/simple_writer.cpp b/src/writer/simple_writer.cpp
index e15648d..27b7efb 100644
--- a/src/writer/simple_writer.cpp
+++ b/src/writer/simple_writer.cpp
@@ -92,7 +92,7 @@ void SimpleWriter::writeFreeBoxAndMdatHeader() {
 }
 
 void SimpleWriter::addMdatData(const std::uint8_t* data, const std::size_t data_size) {
-  std::copy_n(data, data_size, std::ostreambuf_iterator<char>(m_os));
+  m_os.write(reinterpret_cast<const char*>(data), static_cast<std::streamsize>(data_size));
   if (!m_os.good()) {
     throw std::runtime_error(
         fmt::format("SimpleWriter::addMdatData(): ostream::write() failed: rdstate={}", m_os.rdstate()));
-- 
2.43.0


From b8be201ef18923fc77b33451bc3f97863b023684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:10 +0000
Subject: [PATCH 12/46] fix: FaststartWriter::copyMdatData loops forever when
 reading fails

---
 src/writer/faststart_writer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/writer/faststart_writer.cpp b/src/writer/faststart_writer.cpp
index cd2b63f..76eaa76 100644
--- a/src/writer/faststart_writer.cpp
+++ b/src/writer/faststart_writer.cpp
@@ -150,6 +150,10 @@ void FaststartWriter::copyMdatData() {
   char buffer[COPY_MDAT_DATA_BUFFER_SIZE];
   while (!std::feof(m_mdat_fd)) {
     std::size_t size = std::fread(buffer, 1, COPY_MDAT_DATA_BUFFER_SIZE, m_mdat_fd);
+    if (std::ferror(m_mdat_fd)) {
+      throw std::runtime_error(fmt::format("FaststartWriter::copyMdatData(): cannot read the intermediate file: {}",
+                                           m_mdat_path.string()));
+    }
     m_os.write(buffer, static_cast<std::streamsize>(size));
     if (!m_os.good()) {
       throw std::runtime_error(
-- 
2.43.0


From ab08c86cdb8a50f1beddb4f474dba20126a65f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:10 +0000
Subject: [PATCH 13/46] fix: FaststartWriter leaks the intermediate file's
 descriptor and name

---
 include/shiguredo/mp4/writer/faststart_writer.hpp |  3 ++-
 src/writer/faststart_writer.cpp                   | 14 ++++++++++----
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/include/shiguredo/mp4/writer/faststart_writer.hpp b/include/shiguredo/mp4/writer/faststart_writer.hpp
index 4d53a08..ba39108 100644
--- a/include/shiguredo/mp4/writer/faststart_writer.hpp
+++ b/include/shiguredo/mp4/writer/faststart_writer.hpp
@@ -32,6 +32,7 @@ struct FaststartWriterParameters {
 class FaststartWriter : public Writer {
  public:
   FaststartWriter(std::ostream&, const FaststartWriterParameters&);
+  ~FaststartWriter() override;
 
   void writeFtypBox() override;
   void writeMoovBox() override;
@@ -49,7 +50,7 @@ class FaststartWriter : public Writer {
   std::ostream& m_os;
   const box::FtypParameters m_ftyp_params;
   std::filesystem::path m_mdat_path;
-  std::FILE* m_mdat_fd;
+  std::FILE* m_mdat_fd = nullptr;
 
   void setOffsetAndSize() override;
 
diff --git a/src/writer/faststart_writer.cpp b/src/writer/faststart_writer.cpp
index 76eaa76..b427214 100644
--- a/src/writer/faststart_writer.cpp
+++ b/src/writer/faststart_writer.cpp
@@ -12,6 +12,7 @@
 #include <limits>
 #include <stdexcept>
 #include <string>
+#include <utility>
 
 #include "shiguredo/mp4/box/boxes.hpp"
 #include "shiguredo/mp4/box_header.hpp"
@@ -32,12 +33,11 @@ FaststartWriter::FaststartWriter(std::ostream& t_os, const FaststartWriterParame
 
   char* mdat_filename = ::strdup(params.mdat_path_templete.c_str());
   int fd = ::mkstemp(mdat_filename);
+  m_mdat_path = mdat_filename;
+  std::free(mdat_filename);
   if (fd == -1) {
     throw std::runtime_error("FaststartWriter::FaststartWriter(): cannot open an intermediate file: mkstemp()");
   }
-
-  m_mdat_path = mdat_filename;
-  std::free(mdat_filename);
   spdlog::debug("FaststartWriter::FaststartWriter(): m_mdat_path: {}", m_mdat_path.string());
   m_mdat_fd = ::fdopen(fd, "w+");
   if (m_mdat_fd == nullptr) {
@@ -47,6 +47,12 @@ FaststartWriter::FaststartWriter(std::ostream& t_os, const FaststartWriterParame
   }
 }
 
+FaststartWriter::~FaststartWriter() {
+  if (m_mdat_fd) {
+    std::fclose(m_mdat_fd);
+  }
+}
+
 void FaststartWriter::recreateMoovBoxInfo() {
   if (m_moov_box_info) {
     delete m_moov_box_info;
@@ -161,7 +167,7 @@ void FaststartWriter::copyMdatData() {
     }
   }
 
-  if (auto ret = std::fclose(m_mdat_fd); ret == EOF) {
+  if (auto ret = std::fclose(std::exchange(m_mdat_fd, nullptr)); ret == EOF) {
     throw std::runtime_error(
         fmt::format("FaststartWriter::copyMdatData(): cannot close the intermediate file: {}", m_mdat_path.string()));
   }
-- 
2.43.0


From 91a0812a3a7d049243b77f6c927940497f13f75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:56 +0000
Subject: [PATCH 14/46] fix: SimpleReader accepts a box smaller than its header
 and leaks the header when it rejects a box

---
 src/reader/reader.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/reader/reader.cpp b/src/reader/reader.cpp
index 55d4433..75a3be9 100644
--- a/src/reader/reader.cpp
+++ b/src/reader/reader.cpp
@@ -8,6 +8,7 @@
 #include <iostream>
 #include <istream>
 #include <iterator>
+#include <memory>
 #include <sstream>
 #include <stdexcept>
 #include <string>
@@ -45,7 +46,12 @@ void SimpleReader::read() {
 }
 
 std::uint64_t SimpleReader::readBox(BoxInfo* parent) {
-  BoxHeader* header = read_box_header(m_is);
+  std::unique_ptr<BoxHeader> read_header(read_box_header(m_is));
+  BoxHeader* header = read_header.get();
+  if (header->getSize() < header->getHeaderSize()) {
+    throw std::runtime_error(fmt::format("corrupt file? box size({}) is less than header size({})", header->getSize(),
+                                         header->getHeaderSize()));
+  }
   header->seekToData(m_is);
   std::stringstream ss;
   const auto remaining_size = m_total_size - header->getOffset() - header->getHeaderSize();
@@ -58,7 +64,7 @@ std::uint64_t SimpleReader::readBox(BoxInfo* parent) {
 
   spdlog::trace("SimpleReader::readBox(): Header={}", header->toString());
 
-  Box* box = m_box_map.getBoxInstance(header);
+  Box* box = m_box_map.getBoxInstance(read_header.release());
   if (box == nullptr) {
     throw std::runtime_error("SimpleReader::readBox(): BoxMap::getBoxInstance() returns nullptr");
   }
-- 
2.43.0


From 4ec4bf468b7cfe927215391a912716e0b9fe1222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:15 +0000
Subject: [PATCH 15/46] fix: SimpleReader accepts a child box that extends past
 the end of its parent

---
 include/shiguredo/mp4/reader/reader.hpp | 2 +-
 src/reader/reader.cpp                   | 9 +++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/shiguredo/mp4/reader/reader.hpp b/include/shiguredo/mp4/reader/reader.hpp
index 68aaf3c..aaa7c78 100644
--- a/include/shiguredo/mp4/reader/reader.hpp
+++ b/include/shiguredo/mp4/reader/reader.hpp
@@ -26,7 +26,7 @@ class SimpleReader {
   std::vector<BoxInfo*> m_boxes;
   std::uint64_t m_total_size;
 
-  std::uint64_t readBox(BoxInfo*);
+  std::uint64_t readBox(BoxInfo* parent, const std::uint64_t end);
 };
 
 }  // namespace shiguredo::mp4::reader
diff --git a/src/reader/reader.cpp b/src/reader/reader.cpp
index 75a3be9..11769fb 100644
--- a/src/reader/reader.cpp
+++ b/src/reader/reader.cpp
@@ -38,14 +38,14 @@ SimpleReader::~SimpleReader() {
 void SimpleReader::read() {
   std::uint64_t size = 0;
   while (size < m_total_size) {
-    size += readBox(nullptr);
+    size += readBox(nullptr, m_total_size);
   }
   for (BoxInfo* i : m_boxes) {
     std::cout << i->toString() << std::endl;
   }
 }
 
-std::uint64_t SimpleReader::readBox(BoxInfo* parent) {
+std::uint64_t SimpleReader::readBox(BoxInfo* parent, const std::uint64_t end) {
   std::unique_ptr<BoxHeader> read_header(read_box_header(m_is));
   BoxHeader* header = read_header.get();
   if (header->getSize() < header->getHeaderSize()) {
@@ -54,7 +54,8 @@ std::uint64_t SimpleReader::readBox(BoxInfo* parent) {
   }
   header->seekToData(m_is);
   std::stringstream ss;
-  const auto remaining_size = m_total_size - header->getOffset() - header->getHeaderSize();
+  const auto data_offset = header->getOffset() + header->getHeaderSize();
+  const auto remaining_size = end > data_offset ? end - data_offset : 0;
   if (header->getDataSize() > remaining_size) {
     spdlog::trace("SimpleReader::readBox(): corrupt file? Header={}", header->toString());
     throw std::runtime_error(fmt::format("corrupt file? box data size({}) is greater than remaining_size({})",
@@ -82,7 +83,7 @@ std::uint64_t SimpleReader::readBox(BoxInfo* parent) {
   }
 
   while (header->getDataSize() > rbytes) {
-    rbytes += readBox(info);
+    rbytes += readBox(info, data_offset + header->getDataSize());
   }
   return header->getSize();
 }
-- 
2.43.0


From d567980cf9efe069fefc7164016f4757bd885162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:15 +0000
Subject: [PATCH 16/46] fix: SimpleReader keeps a copy of the data of every
 enclosing box while reading a nested box

---
 src/reader/reader.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/reader/reader.cpp b/src/reader/reader.cpp
index 11769fb..29f0488 100644
--- a/src/reader/reader.cpp
+++ b/src/reader/reader.cpp
@@ -53,7 +53,6 @@ std::uint64_t SimpleReader::readBox(BoxInfo* parent, const std::uint64_t end) {
                                          header->getHeaderSize()));
   }
   header->seekToData(m_is);
-  std::stringstream ss;
   const auto data_offset = header->getOffset() + header->getHeaderSize();
   const auto remaining_size = end > data_offset ? end - data_offset : 0;
   if (header->getDataSize() > remaining_size) {
@@ -61,8 +60,6 @@ std::uint64_t SimpleReader::readBox(BoxInfo* parent, const std::uint64_t end) {
     throw std::runtime_error(fmt::format("corrupt file? box data size({}) is greater than remaining_size({})",
                                          header->getDataSize(), remaining_size));
   }
-  std::copy_n(std::istreambuf_iterator<char>(m_is), header->getDataSize(), std::ostreambuf_iterator<char>(ss));
-
   spdlog::trace("SimpleReader::readBox(): Header={}", header->toString());
 
   Box* box = m_box_map.getBoxInstance(read_header.release());
@@ -74,7 +71,13 @@ std::uint64_t SimpleReader::readBox(BoxInfo* parent, const std::uint64_t end) {
     m_boxes.push_back(info);
   }
 
-  const auto rbits = box->readData(ss);
+  std::uint64_t rbits = 0;
+  {
+    // 子の box を読む前に解放するため, スコープを限定する
+    std::stringstream ss;
+    std::copy_n(std::istreambuf_iterator<char>(m_is), header->getDataSize(), std::ostreambuf_iterator<char>(ss));
+    rbits = box->readData(ss);
+  }
   std::uint64_t rbytes = rbits / 8;
   m_is.seekg(static_cast<std::streamoff>(header->getOffset() + header->getHeaderSize() + rbytes));
   if (!m_is.good()) {
-- 
2.43.0


From 451c37bd0fc1d5ab752579e8cd0959d5f0f30f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:15 +0000
Subject: [PATCH 17/46] fix: deeply nested boxes exhaust the stack of
 SimpleReader

---
 include/shiguredo/mp4/reader/reader.hpp |  2 +-
 src/reader/reader.cpp                   | 12 +++++++++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/shiguredo/mp4/reader/reader.hpp b/include/shiguredo/mp4/reader/reader.hpp
index aaa7c78..2770d21 100644
--- a/include/shiguredo/mp4/reader/reader.hpp
+++ b/include/shiguredo/mp4/reader/reader.hpp
@@ -26,7 +26,7 @@ class SimpleReader {
   std::vector<BoxInfo*> m_boxes;
   std::uint64_t m_total_size;
 
-  std::uint64_t readBox(BoxInfo* parent, const std::uint64_t end);
+  std::uint64_t readBox(BoxInfo* parent, const std::uint64_t end, const std::uint32_t depth);
 };
 
 }  // namespace shiguredo::mp4::reader
diff --git a/src/reader/reader.cpp b/src/reader/reader.cpp
index 29f0488..bcf8833 100644
--- a/src/reader/reader.cpp
+++ b/src/reader/reader.cpp
@@ -21,6 +21,9 @@
 
 namespace shiguredo::mp4::reader {
 
+// 再帰によるスタックの枯渇を防ぐため, box の入れ子の深さを制限する
+static constexpr std::uint32_t MAX_DEPTH = 64;
+
 SimpleReader::SimpleReader(std::istream& t_is) : m_is(t_is) {
   register_box_map(&m_box_map);
   m_is.seekg(0, std::ios_base::end);
@@ -38,14 +41,17 @@ SimpleReader::~SimpleReader() {
 void SimpleReader::read() {
   std::uint64_t size = 0;
   while (size < m_total_size) {
-    size += readBox(nullptr, m_total_size);
+    size += readBox(nullptr, m_total_size, 0);
   }
   for (BoxInfo* i : m_boxes) {
     std::cout << i->toString() << std::endl;
   }
 }
 
-std::uint64_t SimpleReader::readBox(BoxInfo* parent, const std::uint64_t end) {
+std::uint64_t SimpleReader::readBox(BoxInfo* parent, const std::uint64_t end, const std::uint32_t depth) {
+  if (depth >= MAX_DEPTH) {
+    throw std::runtime_error(fmt::format("corrupt file? boxes are nested more than {} levels deep", MAX_DEPTH));
+  }
   std::unique_ptr<BoxHeader> read_header(read_box_header(m_is));
   BoxHeader* header = read_header.get();
   if (header->getSize() < header->getHeaderSize()) {
@@ -86,7 +92,7 @@ std::uint64_t SimpleReader::readBox(BoxInfo* parent, const std::uint64_t end) {
   }
 
   while (header->getDataSize() > rbytes) {
-    rbytes += readBox(info, data_offset + header->getDataSize());
+    rbytes += readBox(info, data_offset + header->getDataSize(), depth + 1);
   }
   return header->getSize();
 }
-- 
2.43.0


From 2bce7ec5c09159e4732df26bdd7f945f297f0201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:15 +0000
Subject: [PATCH 18/46] fix: mp4-tool dump aborts when the file can not be read

---
 src/cli/mp4-tool.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/cli/mp4-tool.cpp b/src/cli/mp4-tool.cpp
index 089cbef..b68990f 100644
--- a/src/cli/mp4-tool.cpp
+++ b/src/cli/mp4-tool.cpp
@@ -41,9 +41,14 @@ int main(int argc, char** argv) {
   auto subcommands = app.get_subcommands();
 
   if (subcommands[0] == dump) {
-    std::ifstream ifs(filename, std::ios_base::binary);
-    shiguredo::mp4::reader::SimpleReader reader(ifs);
-    reader.read();
+    try {
+      std::ifstream ifs(filename, std::ios_base::binary);
+      shiguredo::mp4::reader::SimpleReader reader(ifs);
+      reader.read();
+    } catch (const std::exception& e) {
+      spdlog::error("{}: {}", filename, e.what());
+      return 1;
+    }
   }
 
   return 0;
-- 
2.43.0


From a4267722262e41222ebf5e7e85b1a195ef56c2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:51 +0000
Subject: [PATCH 19/46] fix: element counts are allocated before the input is
 known to hold that many elements

---
 include/shiguredo/mp4/bitio/bitio.hpp |  6 ++++--
 src/box/ctts.cpp                      |  4 ++--
 src/box/elst.cpp                      |  4 ++--
 src/box/pssh.cpp                      |  4 ++--
 src/box/sbgp.cpp                      |  4 ++--
 src/box/sgpd.cpp                      | 20 ++++++++++----------
 src/box/stsc.cpp                      |  4 ++--
 src/box/stts.cpp                      |  4 ++--
 src/box/tfra.cpp                      |  6 +++---
 src/box/trun.cpp                      |  4 ++--
 10 files changed, 31 insertions(+), 29 deletions(-)

diff --git a/include/shiguredo/mp4/bitio/bitio.hpp b/include/shiguredo/mp4/bitio/bitio.hpp
index ff7e1ec..72a6229 100644
--- a/include/shiguredo/mp4/bitio/bitio.hpp
+++ b/include/shiguredo/mp4/bitio/bitio.hpp
@@ -129,9 +129,11 @@ std::uint64_t write_vector_uint(Writer* writer, const std::vector<T>& v) {
 template <typename T>
 std::uint64_t read_vector_uint(Reader* reader, const std::size_t size, std::vector<T>* v) {
   std::uint64_t rbits = 0;
-  v->resize(size);
+  v->clear();
   for (std::size_t i = 0; i < size; ++i) {
-    rbits += read_uint<T>(reader, &((*v)[i]));
+    T var;
+    rbits += read_uint<T>(reader, &var);
+    v->push_back(var);
   }
   return rbits;
 }
diff --git a/src/box/ctts.cpp b/src/box/ctts.cpp
index ec1dae0..a5cba9a 100644
--- a/src/box/ctts.cpp
+++ b/src/box/ctts.cpp
@@ -76,9 +76,9 @@ std::uint64_t Ctts::readData(std::istream& is) {
   std::uint64_t rbits = readVersionAndFlag(&reader);
   std::uint32_t entry_count;
   rbits += bitio::read_uint<std::uint32_t>(&reader, &entry_count);
-  m_entries.resize(entry_count);
+  m_entries.clear();
   for (std::size_t i = 0; i < entry_count; ++i) {
-    rbits += m_entries[i].readData(&reader);
+    rbits += m_entries.emplace_back().readData(&reader);
   }
   return rbits;
 }
diff --git a/src/box/elst.cpp b/src/box/elst.cpp
index d0aa4fc..978041e 100644
--- a/src/box/elst.cpp
+++ b/src/box/elst.cpp
@@ -88,11 +88,11 @@ std::uint64_t Elst::readData(std::istream& is) {
   std::uint64_t rbits = readVersionAndFlag(&reader);
   std::uint32_t entry_count;
   rbits += bitio::read_uint<std::uint32_t>(&reader, &entry_count);
-  m_entries.resize(entry_count);
+  m_entries.clear();
   for (std::size_t i = 0; i < entry_count; ++i) {
     ElstEntry entry;
     rbits += entry.readData(&reader, m_version);
-    m_entries[i] = entry;
+    m_entries.push_back(entry);
   }
   return rbits;
 }
diff --git a/src/box/pssh.cpp b/src/box/pssh.cpp
index 28cc2c6..006df29 100644
--- a/src/box/pssh.cpp
+++ b/src/box/pssh.cpp
@@ -93,11 +93,11 @@ std::uint64_t Pssh::readData(std::istream& is) {
   if (m_version != 0) {
     std::uint32_t kid_count;
     rbits += bitio::read_uint<std::uint32_t>(&reader, &kid_count);
-    m_kids.resize(static_cast<std::size_t>(kid_count));
+    m_kids.clear();
     for (std::uint32_t i = 0; i < kid_count; ++i) {
       PsshKID kid;
       rbits += kid.readData(&reader);
-      m_kids[i] = kid;
+      m_kids.push_back(kid);
     }
   }
 
diff --git a/src/box/sbgp.cpp b/src/box/sbgp.cpp
index c25300b..dfade29 100644
--- a/src/box/sbgp.cpp
+++ b/src/box/sbgp.cpp
@@ -87,9 +87,9 @@ std::uint64_t Sbgp::readData(std::istream& is) {
 
   std::uint32_t size;
   rbits += bitio::read_uint<std::uint32_t>(&reader, &size);
-  m_entries.resize(size);
+  m_entries.clear();
   for (std::size_t i = 0; i < size; ++i) {
-    rbits += m_entries[i].readData(&reader);
+    rbits += m_entries.emplace_back().readData(&reader);
   }
 
   return rbits;
diff --git a/src/box/sgpd.cpp b/src/box/sgpd.cpp
index f7f6860..26dc8f9 100644
--- a/src/box/sgpd.cpp
+++ b/src/box/sgpd.cpp
@@ -174,36 +174,36 @@ std::uint64_t Sgpd::readData(std::istream& is) {
   if (m_grouping_type == GroupingTypeRoll || m_grouping_type == GroupingTypeProl) {
     std::uint32_t size;
     rbits += bitio::read_uint<std::uint32_t>(&reader, &size);
-    m_roll_distances.resize(size);
+    m_roll_distances.clear();
     for (std::size_t i = 0; i < size; ++i) {
-      rbits += m_roll_distances[i].readData(&reader, no_default_length);
+      rbits += m_roll_distances.emplace_back().readData(&reader, no_default_length);
     }
     return rbits;
   }
   if (m_grouping_type == GroupingTypeAlst) {
     std::uint32_t size;
     rbits += bitio::read_uint<std::uint32_t>(&reader, &size);
-    m_alternative_startup_entries.resize(size);
+    m_alternative_startup_entries.clear();
     for (std::size_t i = 0; i < size; ++i) {
-      rbits += m_alternative_startup_entries[i].readData(&reader, m_default_length, no_default_length);
+      rbits += m_alternative_startup_entries.emplace_back().readData(&reader, m_default_length, no_default_length);
     }
     return rbits;
   }
   if (m_grouping_type == GroupingTypeRap) {
     std::uint32_t size;
     rbits += bitio::read_uint<std::uint32_t>(&reader, &size);
-    m_visual_random_access_entries.resize(size);
+    m_visual_random_access_entries.clear();
     for (std::size_t i = 0; i < size; ++i) {
-      rbits += m_visual_random_access_entries[i].readData(&reader, no_default_length);
+      rbits += m_visual_random_access_entries.emplace_back().readData(&reader, no_default_length);
     }
     return rbits;
   }
   if (m_grouping_type == GroupingTypeTele) {
     std::uint32_t size;
     rbits += bitio::read_uint<std::uint32_t>(&reader, &size);
-    m_temporal_level_entries.resize(size);
+    m_temporal_level_entries.clear();
     for (std::size_t i = 0; i < size; ++i) {
-      rbits += m_temporal_level_entries[i].readData(&reader, no_default_length);
+      rbits += m_temporal_level_entries.emplace_back().readData(&reader, no_default_length);
     }
     return rbits;
   }
@@ -329,9 +329,9 @@ std::uint64_t AlternativeStartupEntry::readData(bitio::Reader* reader,
         fmt::format("AlternativeStartupEntry::readData(): invalid offset of AlternativeStartupEntry: {}", offset));
   }
   size = static_cast<std::size_t>(offset / 32);
-  m_opts.resize(size);
+  m_opts.clear();
   for (std::size_t i = 0; i < size; ++i) {
-    rbits += m_opts[i].readData(reader);
+    rbits += m_opts.emplace_back().readData(reader);
   }
   return rbits;
 }
diff --git a/src/box/stsc.cpp b/src/box/stsc.cpp
index 694a978..421723e 100644
--- a/src/box/stsc.cpp
+++ b/src/box/stsc.cpp
@@ -60,9 +60,9 @@ std::uint64_t Stsc::readData(std::istream& is) {
   std::uint64_t rbits = readVersionAndFlag(&reader);
   std::uint32_t entry_count;
   rbits += bitio::read_uint<std::uint32_t>(&reader, &entry_count);
-  m_entries.resize(entry_count);
+  m_entries.clear();
   for (std::uint32_t i = 0; i < entry_count; ++i) {
-    rbits += m_entries[i].readData(&reader);
+    rbits += m_entries.emplace_back().readData(&reader);
   }
   return rbits;
 }
diff --git a/src/box/stts.cpp b/src/box/stts.cpp
index a5c3dea..c105104 100644
--- a/src/box/stts.cpp
+++ b/src/box/stts.cpp
@@ -60,9 +60,9 @@ std::uint64_t Stts::readData(std::istream& is) {
   std::uint64_t rbits = readVersionAndFlag(&reader);
   std::uint32_t entry_count;
   rbits += bitio::read_uint<std::uint32_t>(&reader, &entry_count);
-  m_entries.resize(entry_count);
+  m_entries.clear();
   for (std::uint32_t i = 0; i < entry_count; ++i) {
-    rbits += m_entries[i].readData(&reader);
+    rbits += m_entries.emplace_back().readData(&reader);
   }
   return rbits;
 }
diff --git a/src/box/tfra.cpp b/src/box/tfra.cpp
index f890935..aee320f 100644
--- a/src/box/tfra.cpp
+++ b/src/box/tfra.cpp
@@ -83,10 +83,10 @@ std::uint64_t Tfra::readData(std::istream& is) {
   rbits += bitio::read_uint<std::uint8_t>(&reader, &m_length_size_of_sample_num, 2);
   std::uint32_t entry_count;
   rbits += bitio::read_uint<std::uint32_t>(&reader, &entry_count);
-  m_entries.resize(entry_count);
+  m_entries.clear();
   for (std::uint32_t i = 0; i < entry_count; ++i) {
-    rbits += m_entries[i].readData(&reader, m_version, m_length_size_of_traf_num, m_length_size_of_trun_num,
-                                   m_length_size_of_sample_num);
+    rbits += m_entries.emplace_back().readData(&reader, m_version, m_length_size_of_traf_num,
+                                               m_length_size_of_trun_num, m_length_size_of_sample_num);
   }
   return rbits;
 }
diff --git a/src/box/trun.cpp b/src/box/trun.cpp
index dcd0896..fbf853d 100644
--- a/src/box/trun.cpp
+++ b/src/box/trun.cpp
@@ -92,9 +92,9 @@ std::uint64_t Trun::readData(std::istream& is) {
   if (flags & 0x4) {
     rbits += bitio::read_uint<std::uint32_t>(&reader, &m_first_sample_flags);
   }
-  m_entries.resize(sample_count);
+  m_entries.clear();
   for (std::size_t i = 0; i < sample_count; ++i) {
-    rbits += m_entries[i].readData(&reader, flags);
+    rbits += m_entries.emplace_back().readData(&reader, flags);
   }
   return rbits;
 }
-- 
2.43.0


From 6dff1e209df2c30a4e98b9cd64d16838853f2be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:45 +0000
Subject: [PATCH 20/46] fix: H264Track repeats in-band parameter sets in avcC
 until their count overflows

---
 include/shiguredo/mp4/box/avc.hpp |  1 +
 src/track/h264.cpp                | 12 ++++++++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/shiguredo/mp4/box/avc.hpp b/include/shiguredo/mp4/box/avc.hpp
index adeead5..9bfd5ca 100644
--- a/include/shiguredo/mp4/box/avc.hpp
+++ b/include/shiguredo/mp4/box/avc.hpp
@@ -52,6 +52,7 @@ class AVCParameterSet {
   std::uint64_t writeData(bitio::Writer*) const;
   std::uint64_t getSize() const;
   std::uint64_t readData(bitio::Reader*);
+  bool operator==(const AVCParameterSet&) const = default;
 
  private:
   std::vector<std::uint8_t> m_nal_unit;
diff --git a/src/track/h264.cpp b/src/track/h264.cpp
index 0a3efac..829c1cd 100644
--- a/src/track/h264.cpp
+++ b/src/track/h264.cpp
@@ -196,11 +196,19 @@ NalUnit find_next_nal_unit(const std::uint8_t* data, const std::size_t data_size
 }
 
 void H264Track::appendSequenceParameterSets(const shiguredo::mp4::box::AVCParameterSet& params) {
-  m_sequence_parameter_sets.emplace_back(params);
+  // 繰り返し送られてきた同一の SPS は追加しない
+  if (std::find(std::begin(m_sequence_parameter_sets), std::end(m_sequence_parameter_sets), params) ==
+      std::end(m_sequence_parameter_sets)) {
+    m_sequence_parameter_sets.emplace_back(params);
+  }
 }
 
 void H264Track::appendPictureParameterSets(const shiguredo::mp4::box::AVCParameterSet& params) {
-  m_picture_parameter_sets.emplace_back(params);
+  // 繰り返し送られてきた同一の PPS は追加しない
+  if (std::find(std::begin(m_picture_parameter_sets), std::end(m_picture_parameter_sets), params) ==
+      std::end(m_picture_parameter_sets)) {
+    m_picture_parameter_sets.emplace_back(params);
+  }
 }
 
 }  // namespace shiguredo::mp4::track
-- 
2.43.0


From d1cb532729499de0ffd1fb3e97889b4d371954f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:45 +0000
Subject: [PATCH 21/46] fix: avcC silently truncates the number and the size of
 the parameter sets

---
 src/box/avc.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/box/avc.cpp b/src/box/avc.cpp
index 5f2e4ca..2044fdb 100644
--- a/src/box/avc.cpp
+++ b/src/box/avc.cpp
@@ -52,6 +52,10 @@ std::string AVCParameterSet::toString() const {
 }
 
 std::uint64_t AVCParameterSet::writeData(bitio::Writer* writer) const {
+  if (std::size(m_nal_unit) > 0xffff) {
+    throw std::runtime_error(
+        fmt::format("AVCParameterSet::writeData(): too large parameter set: {}", std::size(m_nal_unit)));
+  }
   auto wbits = bitio::write_uint<std::uint16_t>(writer, static_cast<std::uint16_t>(std::size(m_nal_unit)));
   wbits += bitio::write_vector_uint<std::uint8_t>(writer, m_nal_unit);
   return wbits;
@@ -126,6 +130,11 @@ std::string AVCDecoderConfiguration::toStringOnlyData() const {
 }
 
 std::uint64_t AVCDecoderConfiguration::writeData(std::ostream& os) const {
+  if (std::size(m_sequence_parameter_sets) > 0x1f || std::size(m_picture_parameter_sets) > 0xff) {
+    throw std::runtime_error(
+        fmt::format("AVCDecoderConfiguration::writeData(): too many parameter sets: sps={} pps={}",
+                    std::size(m_sequence_parameter_sets), std::size(m_picture_parameter_sets)));
+  }
   bitio::Writer writer(os);
   auto wbits = bitio::write_uint<std::uint8_t>(&writer, m_configuration_version);
   wbits += bitio::write_uint<std::uint8_t>(&writer, m_profile);
-- 
2.43.0


From 0bbcb14f2729a241d39b8a82ce61c1a0da12fcb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:45 +0000
Subject: [PATCH 22/46] fix: duration of the last sample underflows when the
 track duration is shorter than the samples

---
 src/track/track.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/track/track.cpp b/src/track/track.cpp
index 9348463..fdef0ce 100644
--- a/src/track/track.cpp
+++ b/src/track/track.cpp
@@ -57,7 +57,9 @@ void Track::finalize() {
   }
 
   if (!std::empty(m_mdat_sample_sizes)) {
-    m_sample_durations.push_back(static_cast<std::uint32_t>(getDurationInTimescale() - m_prev_timestamp));
+    const auto duration = getDurationInTimescale();
+    m_sample_durations.push_back(
+        duration > m_prev_timestamp ? static_cast<std::uint32_t>(duration - m_prev_timestamp) : 0);
   }
 }
 
-- 
2.43.0


From 2fd9dcd17a23ec92eda2667fd6c7f0c0ac12a2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:45 +0000
Subject: [PATCH 23/46] fix: durations beyond 32 bits are silently truncated in
 mvhd, tkhd, mdhd and elst

---
 src/track/soun.cpp              |  9 +++++++--
 src/track/track.cpp             | 18 +++++++++++++-----
 src/track/vide.cpp              |  7 ++++++-
 src/writer/faststart_writer.cpp |  4 +++-
 src/writer/simple_writer.cpp    |  4 +++-
 5 files changed, 32 insertions(+), 10 deletions(-)

diff --git a/src/track/soun.cpp b/src/track/soun.cpp
index a7b21c6..497ce3d 100644
--- a/src/track/soun.cpp
+++ b/src/track/soun.cpp
@@ -1,5 +1,7 @@
 #include "shiguredo/mp4/track/soun.hpp"
 
+#include <limits>
+
 #include "shiguredo/mp4/box/boxes.hpp"
 #include "shiguredo/mp4/box_info.hpp"
 
@@ -10,12 +12,15 @@ SounTrack::SounTrack() {
 }
 
 void SounTrack::makeTkhdBoxInfo(BoxInfo* trak) {
+  const auto duration = getDurationInMvhdTimescale();
+  const bool use_version_1 = duration > std::numeric_limits<std::uint32_t>::max();
   new BoxInfo({.parent = trak,
-               .box = new box::Tkhd({.flags = 0x000003,
+               .box = new box::Tkhd({.version = static_cast<std::uint8_t>(use_version_1 ? 1 : 0),
+                                     .flags = 0x000003,
                                      .creation_time = m_time_from_epoch,
                                      .modification_time = m_time_from_epoch,
                                      .track_id = m_track_id,
-                                     .duration = getDurationInMvhdTimescale()})});
+                                     .duration = duration})});
 }
 
 void SounTrack::makeSmhdBoxInfo(BoxInfo* minf) {
diff --git a/src/track/track.cpp b/src/track/track.cpp
index fdef0ce..eed6f2f 100644
--- a/src/track/track.cpp
+++ b/src/track/track.cpp
@@ -174,9 +174,14 @@ BoxInfo* Track::makeEdtsBoxInfo(BoxInfo* trak) {
 }
 
 void Track::makeElstBoxInfo(BoxInfo* edts) {
-  new BoxInfo({.parent = edts,
-               .box = new box::Elst({.entries = {box::ElstEntry({.track_duration = getDurationInMvhdTimescale(),
-                                                                 .media_time = m_media_time})}})});
+  const auto duration = getDurationInMvhdTimescale();
+  const bool use_version_1 = duration > std::numeric_limits<std::uint32_t>::max() ||
+                             m_media_time > std::numeric_limits<std::int32_t>::max() ||
+                             m_media_time < std::numeric_limits<std::int32_t>::min();
+  new BoxInfo(
+      {.parent = edts,
+       .box = new box::Elst({.version = static_cast<std::uint8_t>(use_version_1 ? 1 : 0),
+                             .entries = {box::ElstEntry({.track_duration = duration, .media_time = m_media_time})}})});
 }
 
 BoxInfo* Track::makeMdiaBoxInfo(BoxInfo* trak) {
@@ -184,11 +189,14 @@ BoxInfo* Track::makeMdiaBoxInfo(BoxInfo* trak) {
 }
 
 void Track::makeMdhdBoxInfo(BoxInfo* mdia) {
+  const auto duration = getDurationInTimescale();
+  const bool use_version_1 = duration > std::numeric_limits<std::uint32_t>::max();
   new BoxInfo({.parent = mdia,
-               .box = new box::Mdhd({.creation_time = m_time_from_epoch,
+               .box = new box::Mdhd({.version = static_cast<std::uint8_t>(use_version_1 ? 1 : 0),
+                                     .creation_time = m_time_from_epoch,
                                      .modification_time = m_time_from_epoch,
                                      .timescale = m_timescale,
-                                     .duration = getDurationInTimescale()})});
+                                     .duration = duration})});
 }
 
 void Track::makeHdlrBoxInfo(BoxInfo* mdia, const std::string& name) {
diff --git a/src/track/vide.cpp b/src/track/vide.cpp
index 4f46495..0b98f4a 100644
--- a/src/track/vide.cpp
+++ b/src/track/vide.cpp
@@ -1,5 +1,7 @@
 #include "shiguredo/mp4/track/vide.hpp"
 
+#include <limits>
+
 #include "shiguredo/mp4/box/boxes.hpp"
 #include "shiguredo/mp4/box_info.hpp"
 
@@ -10,13 +12,16 @@ VideTrack::VideTrack() {
 }
 
 void VideTrack::makeTkhdBoxInfo(BoxInfo* trak) {
+  const auto duration = getDurationInMvhdTimescale();
+  const bool use_version_1 = duration > std::numeric_limits<std::uint32_t>::max();
   new BoxInfo({.parent = trak,
                .box = new box::Tkhd({
+                   .version = static_cast<std::uint8_t>(use_version_1 ? 1 : 0),
                    .flags = 0x000003,
                    .creation_time = m_time_from_epoch,
                    .modification_time = m_time_from_epoch,
                    .track_id = m_track_id,
-                   .duration = getDurationInMvhdTimescale(),
+                   .duration = duration,
                    .volume = 0,
                    .width = m_width << 16,
                    .height = m_height << 16,
diff --git a/src/writer/faststart_writer.cpp b/src/writer/faststart_writer.cpp
index b427214..e5b5ae0 100644
--- a/src/writer/faststart_writer.cpp
+++ b/src/writer/faststart_writer.cpp
@@ -60,7 +60,9 @@ void FaststartWriter::recreateMoovBoxInfo() {
 
   m_moov_box_info = new BoxInfo({.box = new box::Moov()});
   const std::uint64_t mvhd_duration = static_cast<std::uint64_t>(static_cast<float>(m_mvhd_timescale) * m_duration);
-  m_mvhd_box = new box::Mvhd({.creation_time = m_time_from_epoch,
+  const bool use_version_1 = mvhd_duration > std::numeric_limits<std::uint32_t>::max();
+  m_mvhd_box = new box::Mvhd({.version = static_cast<std::uint8_t>(use_version_1 ? 1 : 0),
+                              .creation_time = m_time_from_epoch,
                               .modification_time = m_time_from_epoch,
                               .timescale = m_mvhd_timescale,
                               .duration = mvhd_duration,
diff --git a/src/writer/simple_writer.cpp b/src/writer/simple_writer.cpp
index 27b7efb..85832d3 100644
--- a/src/writer/simple_writer.cpp
+++ b/src/writer/simple_writer.cpp
@@ -29,9 +29,11 @@ SimpleWriter::SimpleWriter(std::ostream& t_os, const SimpleWriterParameters& par
       static_cast<std::uint64_t>(duration_cast<std::chrono::seconds>(p.time_since_epoch()).count()));
 
   const std::uint64_t mvhd_duration = static_cast<std::uint64_t>(static_cast<float>(m_mvhd_timescale) * m_duration);
+  const bool use_version_1 = mvhd_duration > std::numeric_limits<std::uint32_t>::max();
 
   m_moov_box_info = new BoxInfo({.box = new box::Moov()});
-  m_mvhd_box = new box::Mvhd({.creation_time = m_time_from_epoch,
+  m_mvhd_box = new box::Mvhd({.version = static_cast<std::uint8_t>(use_version_1 ? 1 : 0),
+                              .creation_time = m_time_from_epoch,
                               .modification_time = m_time_from_epoch,
                               .timescale = m_mvhd_timescale,
                               .duration = mvhd_duration,
-- 
2.43.0


From b99eac70923aed148e2581d65222fa14db66e5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:39 +0000
Subject: [PATCH 24/46] fix: sample, ftyp and free boxes are leaked when
 writing them fails

---
 src/track/h264.cpp              | 9 ++++-----
 src/writer/faststart_writer.cpp | 4 ++--
 src/writer/simple_writer.cpp    | 7 +++----
 3 files changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/track/h264.cpp b/src/track/h264.cpp
index 829c1cd..adc3b66 100644
--- a/src/track/h264.cpp
+++ b/src/track/h264.cpp
@@ -93,7 +93,7 @@ void H264Track::addData(const std::uint64_t timestamp,
     std::vector<uint8_t> sps_data = {};
     std::vector<uint8_t> pps_data = {};
     std::size_t video_data_size;
-    std::uint8_t* mdat_data;
+    std::vector<std::uint8_t> mdat_data;
     switch (nu.header & 0x1f) {
       case 1:
       case 2:
@@ -102,16 +102,15 @@ void H264Track::addData(const std::uint64_t timestamp,
       case 5:
         // VCL
         video_data_size = nu.end - nu.start - nu.start_code_size;
-        mdat_data = new std::uint8_t[video_data_size + 4];
+        mdat_data.resize(video_data_size + 4);
         mdat_data[0] = static_cast<std::uint8_t>(video_data_size >> 24);
         mdat_data[1] = static_cast<std::uint8_t>(video_data_size >> 16);
         mdat_data[2] = static_cast<std::uint8_t>(video_data_size >> 8);
         mdat_data[3] = static_cast<std::uint8_t>(video_data_size & 0xff);
 
-        std::copy_n(data + nu.start + nu.start_code_size, video_data_size, mdat_data + 4);
+        std::copy_n(data + nu.start + nu.start_code_size, video_data_size, std::begin(mdat_data) + 4);
 
-        addMdatData(timestamp, mdat_data, video_data_size + 4, is_key);
-        delete[] mdat_data;
+        addMdatData(timestamp, mdat_data, is_key);
         break;
       case 6:
         // SEI
diff --git a/src/writer/faststart_writer.cpp b/src/writer/faststart_writer.cpp
index e5b5ae0..b8ffe66 100644
--- a/src/writer/faststart_writer.cpp
+++ b/src/writer/faststart_writer.cpp
@@ -10,6 +10,7 @@
 #include <cstring>
 #include <iterator>
 #include <limits>
+#include <memory>
 #include <stdexcept>
 #include <string>
 #include <utility>
@@ -72,12 +73,11 @@ void FaststartWriter::recreateMoovBoxInfo() {
 }
 
 void FaststartWriter::writeFtypBox() {
-  BoxInfo* ftyp = new BoxInfo({.box = new box::Ftyp(m_ftyp_params)});
+  const auto ftyp = std::make_unique<BoxInfo>(BoxInfoParameters{.box = new box::Ftyp(m_ftyp_params)});
 
   ftyp->adjustOffsetAndSize(0);
   ftyp->write(m_os);
   m_ftyp_size = ftyp->getSize();
-  delete ftyp;
 }
 
 void FaststartWriter::writeMdatHeader() {
diff --git a/src/writer/simple_writer.cpp b/src/writer/simple_writer.cpp
index 85832d3..ad466cc 100644
--- a/src/writer/simple_writer.cpp
+++ b/src/writer/simple_writer.cpp
@@ -8,6 +8,7 @@
 #include <cstdint>
 #include <iterator>
 #include <limits>
+#include <memory>
 #include <stdexcept>
 #include <string>
 
@@ -42,12 +43,11 @@ SimpleWriter::SimpleWriter(std::ostream& t_os, const SimpleWriterParameters& par
 }
 
 void SimpleWriter::writeFtypBox() {
-  BoxInfo* ftyp = new BoxInfo({.box = new box::Ftyp(m_ftyp_params)});
+  const auto ftyp = std::make_unique<BoxInfo>(BoxInfoParameters{.box = new box::Ftyp(m_ftyp_params)});
 
   ftyp->adjustOffsetAndSize(0);
   ftyp->write(m_os);
   m_ftyp_size = ftyp->getSize();
-  delete ftyp;
 
   m_os.seekp(static_cast<std::streamoff>(m_ftyp_size + Constants::LARGE_HEADER_SIZE), std::ios_base::beg);
   if (!m_os.good()) {
@@ -73,7 +73,7 @@ void SimpleWriter::writeFreeBoxAndMdatHeader() {
           "SimpleWriter::writeFreeBoxAndMdatHeader(): ostream::write() failed: rdstate={}", m_os.rdstate()));
     }
   } else {
-    BoxInfo* free = new BoxInfo({.box = new box::Free()});
+    const auto free = std::make_unique<BoxInfo>(BoxInfoParameters{.box = new box::Free()});
     free->adjustOffsetAndSize(m_ftyp_size);
     free->write(m_os);
     if (!m_os.good()) {
@@ -84,7 +84,6 @@ void SimpleWriter::writeFreeBoxAndMdatHeader() {
                     .size = m_mdat_data_size + Constants::SMALL_HEADER_SIZE,
                     .header_size = Constants::SMALL_HEADER_SIZE,
                     .type = BoxType("mdat")});
-    delete free;
     mdat.write(m_os);
     if (!m_os.good()) {
       throw std::runtime_error(fmt::format(
-- 
2.43.0


From 912befc262e2d96a4c3a65aed865527998140007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:07 +0000
Subject: [PATCH 25/46] fix: a short last NAL unit, or one with a zero header
 byte, is merged into its neighbour

---
 src/track/h264.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/track/h264.cpp b/src/track/h264.cpp
index adc3b66..6878a44 100644
--- a/src/track/h264.cpp
+++ b/src/track/h264.cpp
@@ -162,9 +162,12 @@ NalUnit find_next_nal_unit(const std::uint8_t* data, const std::size_t data_size
   auto index = start;
   std::size_t start_code_size;
   std::uint8_t header = 0;
-  while (index + 5 < data_size) {
-    if (data[index] == 0 && data[index + 1] == 0 && data[index + 2] == 0 & data[index + 3] == 1) {
-      if (header == 0) {
+  bool found = false;
+  while (index < data_size) {
+    if (index + 4 < data_size && data[index] == 0 && data[index + 1] == 0 && data[index + 2] == 0 &&
+        data[index + 3] == 1) {
+      if (!found) {
+        found = true;
         start_code_size = 4;
         header = data[index + 4];
       } else {
@@ -173,8 +176,9 @@ NalUnit find_next_nal_unit(const std::uint8_t* data, const std::size_t data_size
       index += 4;
       continue;
     }
-    if (data[index] == 0 && data[index + 1] == 0 && data[index + 2] == 1) {
-      if (header == 0) {
+    if (index + 3 < data_size && data[index] == 0 && data[index + 1] == 0 && data[index + 2] == 1) {
+      if (!found) {
+        found = true;
         start_code_size = 3;
         header = data[index + 3];
       } else {
@@ -183,12 +187,12 @@ NalUnit find_next_nal_unit(const std::uint8_t* data, const std::size_t data_size
       index += 3;
       continue;
     }
-    if (index == start && header == 0) {
+    if (!found) {
       throw std::runtime_error(fmt::format("not start with nalunit: start={}", start));
     }
     ++index;
   }
-  if (header == 0) {
+  if (!found) {
     throw std::runtime_error("nalunit not found");
   }
   return NalUnit{start_code_size, start, data_size, header};
-- 
2.43.0


From bc5c86a2d407fbf4409dc952b63486e561c063fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:47 +0000
Subject: [PATCH 26/46] fix: an intermediate file that lost data is copied
 without an error

---
 src/writer/faststart_writer.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/writer/faststart_writer.cpp b/src/writer/faststart_writer.cpp
index b8ffe66..1d386c4 100644
--- a/src/writer/faststart_writer.cpp
+++ b/src/writer/faststart_writer.cpp
@@ -155,6 +155,7 @@ void FaststartWriter::copyMdatData() {
     throw std::runtime_error("fseek failed");
   }
 
+  std::uint64_t copied_size = 0;
   char buffer[COPY_MDAT_DATA_BUFFER_SIZE];
   while (!std::feof(m_mdat_fd)) {
     std::size_t size = std::fread(buffer, 1, COPY_MDAT_DATA_BUFFER_SIZE, m_mdat_fd);
@@ -167,6 +168,12 @@ void FaststartWriter::copyMdatData() {
       throw std::runtime_error(
           fmt::format("FaststartWriter::copyMdatData(): copying mdat data failed: rdstate={}", m_os.rdstate()));
     }
+    copied_size += static_cast<std::uint64_t>(size);
+  }
+  if (copied_size != m_mdat_data_size) {
+    throw std::runtime_error(
+        fmt::format("FaststartWriter::copyMdatData(): the size of the intermediate file is invalid: {} {} {}",
+                    m_mdat_path.string(), copied_size, m_mdat_data_size));
   }
 
   if (auto ret = std::fclose(std::exchange(m_mdat_fd, nullptr)); ret == EOF) {
-- 
2.43.0


From a0af3d047824e4ec4ef8319c07d62a973b7c4cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:03 +0000
Subject: [PATCH 27/46] fix: the intermediate file is leaked when a stream
 cannot be opened on it

---
 src/writer/faststart_writer.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/writer/faststart_writer.cpp b/src/writer/faststart_writer.cpp
index 1d386c4..bd477f1 100644
--- a/src/writer/faststart_writer.cpp
+++ b/src/writer/faststart_writer.cpp
@@ -1,5 +1,7 @@
 #include "shiguredo/mp4/writer/faststart_writer.hpp"
 
+#include <unistd.h>
+
 #include <fmt/core.h>
 #include <spdlog/spdlog.h>
 
@@ -13,6 +15,7 @@
 #include <memory>
 #include <stdexcept>
 #include <string>
+#include <system_error>
 #include <utility>
 
 #include "shiguredo/mp4/box/boxes.hpp"
@@ -42,6 +45,9 @@ FaststartWriter::FaststartWriter(std::ostream& t_os, const FaststartWriterParame
   spdlog::debug("FaststartWriter::FaststartWriter(): m_mdat_path: {}", m_mdat_path.string());
   m_mdat_fd = ::fdopen(fd, "w+");
   if (m_mdat_fd == nullptr) {
+    ::close(fd);
+    std::error_code ec;
+    std::filesystem::remove(m_mdat_path, ec);
     throw std::runtime_error(
         fmt::format("FaststartWriter::FaststartWriter(): cannot open an intermediate file: fdopen(), m_mdat_path={}",
                     m_mdat_path.string()));
-- 
2.43.0


From b01b8c47aa568a58d9cb3e7d9616ae7456bdade9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:55 +0000
Subject: [PATCH 28/46] fix: a start code at the end of a stream is stored as
 part of the NAL unit before it

---
 src/track/h264.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/track/h264.cpp b/src/track/h264.cpp
index 6878a44..e0cdcb2 100644
--- a/src/track/h264.cpp
+++ b/src/track/h264.cpp
@@ -164,9 +164,12 @@ NalUnit find_next_nal_unit(const std::uint8_t* data, const std::size_t data_size
   std::uint8_t header = 0;
   bool found = false;
   while (index < data_size) {
-    if (index + 4 < data_size && data[index] == 0 && data[index + 1] == 0 && data[index + 2] == 0 &&
+    if (index + 4 <= data_size && data[index] == 0 && data[index + 1] == 0 && data[index + 2] == 0 &&
         data[index + 3] == 1) {
       if (!found) {
+        if (index + 4 == data_size) {
+          throw std::runtime_error(fmt::format("nalunit is empty: start={}", start));
+        }
         found = true;
         start_code_size = 4;
         header = data[index + 4];
@@ -176,8 +179,11 @@ NalUnit find_next_nal_unit(const std::uint8_t* data, const std::size_t data_size
       index += 4;
       continue;
     }
-    if (index + 3 < data_size && data[index] == 0 && data[index + 1] == 0 && data[index + 2] == 1) {
+    if (index + 3 <= data_size && data[index] == 0 && data[index + 1] == 0 && data[index + 2] == 1) {
       if (!found) {
+        if (index + 3 == data_size) {
+          throw std::runtime_error(fmt::format("nalunit is empty: start={}", start));
+        }
         found = true;
         start_code_size = 3;
         header = data[index + 3];
-- 
2.43.0


From a44fb30695e1061f51b43b530dc25bd7c4690b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:38 +0000
Subject: [PATCH 29/46] fix: sample durations beyond 32 bits are truncated in
 the time table

---
 src/track/track.cpp | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/track/track.cpp b/src/track/track.cpp
index eed6f2f..6dba695 100644
--- a/src/track/track.cpp
+++ b/src/track/track.cpp
@@ -1,11 +1,13 @@
 #include "shiguredo/mp4/track/track.hpp"
 
+#include <fmt/core.h>
 #include <spdlog/spdlog.h>
 
 #include <algorithm>
 #include <cstdint>
 #include <iterator>
 #include <limits>
+#include <stdexcept>
 
 #include "shiguredo/mp4/box/boxes.hpp"
 #include "shiguredo/mp4/box_info.hpp"
@@ -28,6 +30,14 @@ void Track::addMdatData(const std::uint64_t timestamp,
                         const std::uint8_t* data,
                         const std::size_t data_size,
                         bool is_key) {
+  // stts の sample_duration は 32 bit
+  if (!std::empty(m_mdat_sample_sizes) && timestamp > m_prev_timestamp &&
+      timestamp - m_prev_timestamp > std::numeric_limits<std::uint32_t>::max()) {
+    throw std::runtime_error(
+        fmt::format("Track::addMdatData(): sample duration is too large: timestamp={} prev_timestamp={}", timestamp,
+                    m_prev_timestamp));
+  }
+
   if (!m_current_chunk_info.initialized) {
     m_current_chunk_info.initialized = true;
     m_current_chunk_info.offset = m_writer->tellCurrentMdatOffset();
@@ -51,15 +61,21 @@ void Track::finalize() {
   if (m_finalized) {
     return;
   }
+
+  const auto duration = getDurationInTimescale();
+  const auto last_sample_duration = duration > m_prev_timestamp ? duration - m_prev_timestamp : 0;
+  if (!std::empty(m_mdat_sample_sizes) && last_sample_duration > std::numeric_limits<std::uint32_t>::max()) {
+    throw std::runtime_error(
+        fmt::format("Track::finalize(): the duration of the last sample is too large: {}", last_sample_duration));
+  }
+
   m_finalized = true;
   if (m_current_chunk_info.number_of_samples > 0) {
     m_chunk_infos.push_back(m_current_chunk_info);
   }
 
   if (!std::empty(m_mdat_sample_sizes)) {
-    const auto duration = getDurationInTimescale();
-    m_sample_durations.push_back(
-        duration > m_prev_timestamp ? static_cast<std::uint32_t>(duration - m_prev_timestamp) : 0);
+    m_sample_durations.push_back(static_cast<std::uint32_t>(last_sample_duration));
   }
 }
 
-- 
2.43.0


From 3858914ae2769c7aa2250c2e852ba65060168df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:47 +0000
Subject: [PATCH 30/46] fix: sample sizes beyond 32 bits are truncated in the
 sample size table

---
 src/track/track.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/track/track.cpp b/src/track/track.cpp
index 6dba695..597d84a 100644
--- a/src/track/track.cpp
+++ b/src/track/track.cpp
@@ -30,6 +30,11 @@ void Track::addMdatData(const std::uint64_t timestamp,
                         const std::uint8_t* data,
                         const std::size_t data_size,
                         bool is_key) {
+  // stsz の entry_size は 32 bit
+  if (data_size > std::numeric_limits<std::uint32_t>::max()) {
+    throw std::runtime_error(fmt::format("Track::addMdatData(): sample is too large: data_size={}", data_size));
+  }
+
   // stts の sample_duration は 32 bit
   if (!std::empty(m_mdat_sample_sizes) && timestamp > m_prev_timestamp &&
       timestamp - m_prev_timestamp > std::numeric_limits<std::uint32_t>::max()) {
-- 
2.43.0


From c6237f0cc726fe2e6df74b06b4ea098a27bda65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:48 +0000
Subject: [PATCH 31/46] fix: sidx allocates its references before the input is
 known to hold them

---
 src/box/sidx.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/box/sidx.cpp b/src/box/sidx.cpp
index d9f9f39..5dbb4a9 100644
--- a/src/box/sidx.cpp
+++ b/src/box/sidx.cpp
@@ -79,9 +79,9 @@ std::uint64_t Sidx::readData(std::istream& is) {
   rbits += bitio::read_uint<std::uint16_t>(&reader, &m_reserved);
   std::uint16_t size;
   rbits += bitio::read_uint<std::uint16_t>(&reader, &size);
-  m_references.resize(size);
+  m_references.clear();
   for (std::size_t i = 0; i < size; ++i) {
-    rbits += m_references[i].readData(&reader);
+    rbits += m_references.emplace_back().readData(&reader);
   }
 
   return rbits;
-- 
2.43.0


From 1d8505ca720b2c16cf925855dc4a1384ee13a047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:54 +0000
Subject: [PATCH 32/46] fix: an input that ends before its announced size
 dereferences a null stream buffer

---
 src/box_header.cpp    | 11 ++++++++---
 src/reader/reader.cpp | 12 ++++++++----
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/box_header.cpp b/src/box_header.cpp
index 869be29..031e7d9 100644
--- a/src/box_header.cpp
+++ b/src/box_header.cpp
@@ -38,7 +38,10 @@ BoxHeader* read_box_header(std::istream& is) {
     throw std::runtime_error(fmt::format("read_box_header(): istream::seekg() failed: rdstate={}", is.rdstate()));
   }
   std::array<std::uint8_t, 8> buf;
-  std::copy_n(std::istreambuf_iterator<char>(is), 8, std::begin(buf));
+  is.read(reinterpret_cast<char*>(buf.data()), Constants::SMALL_HEADER_SIZE);
+  if (!is.good()) {
+    throw std::runtime_error(fmt::format("read_box_header(): istream::read() failed: rdstate={}", is.rdstate()));
+  }
   std::uint64_t header_size = Constants::SMALL_HEADER_SIZE;
   std::uint64_t size = endian::be_to_uint32(buf[0], buf[1], buf[2], buf[3]);
   BoxType type;
@@ -57,8 +60,10 @@ BoxHeader* read_box_header(std::istream& is) {
     if (!is.good()) {
       throw std::runtime_error(fmt::format("read_box_header(): istream::seekg() failed: rdstate={}", is.rdstate()));
     }
-    std::copy_n(std::istreambuf_iterator<char>(is), Constants::LARGE_HEADER_SIZE - Constants::SMALL_HEADER_SIZE,
-                std::begin(buf));
+    is.read(reinterpret_cast<char*>(buf.data()), Constants::LARGE_HEADER_SIZE - Constants::SMALL_HEADER_SIZE);
+    if (!is.good()) {
+      throw std::runtime_error(fmt::format("read_box_header(): istream::read() failed: rdstate={}", is.rdstate()));
+    }
     header_size = Constants::LARGE_HEADER_SIZE;
     size = endian::be_to_uint64(buf[0], buf[1], buf[2], buf[3], buf[4], buf[5], buf[6], buf[7]);
   }
diff --git a/src/reader/reader.cpp b/src/reader/reader.cpp
index bcf8833..3519ff3 100644
--- a/src/reader/reader.cpp
+++ b/src/reader/reader.cpp
@@ -3,15 +3,14 @@
 #include <bits/exception.h>
 #include <spdlog/spdlog.h>
 
-#include <algorithm>
 #include <cstdint>
 #include <iostream>
 #include <istream>
-#include <iterator>
 #include <memory>
 #include <sstream>
 #include <stdexcept>
 #include <string>
+#include <utility>
 
 #include "shiguredo/mp4/box.hpp"
 #include "shiguredo/mp4/box_header.hpp"
@@ -80,8 +79,13 @@ std::uint64_t SimpleReader::readBox(BoxInfo* parent, const std::uint64_t end, co
   std::uint64_t rbits = 0;
   {
     // 子の box を読む前に解放するため, スコープを限定する
-    std::stringstream ss;
-    std::copy_n(std::istreambuf_iterator<char>(m_is), header->getDataSize(), std::ostreambuf_iterator<char>(ss));
+    std::string data(header->getDataSize(), '\0');
+    m_is.read(data.data(), static_cast<std::streamsize>(std::size(data)));
+    if (!m_is.good()) {
+      throw std::runtime_error(
+          fmt::format("SimpleReader::readBox(): istream::read() failed: rdstate={}", m_is.rdstate()));
+    }
+    std::stringstream ss(std::move(data));
     rbits = box->readData(ss);
   }
   std::uint64_t rbytes = rbits / 8;
-- 
2.43.0


From f3b382b79a78661eb30540da799cb3dab871eb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:54 +0000
Subject: [PATCH 33/46] fix: a failure of tellp() on the output is recorded as
 a chunk offset

---
 src/writer/simple_writer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/writer/simple_writer.cpp b/src/writer/simple_writer.cpp
index ad466cc..5a48f24 100644
--- a/src/writer/simple_writer.cpp
+++ b/src/writer/simple_writer.cpp
@@ -108,7 +108,7 @@ void SimpleWriter::setOffsetAndSize() {
 
 std::uint64_t SimpleWriter::tellCurrentMdatOffset() {
   const auto offset = m_os.tellp();
-  if (!m_os.good()) {
+  if (!m_os.good() || offset == std::ostream::pos_type(-1)) {
     throw std::runtime_error(
         fmt::format("SimpleWriter::tellCurrentMdatOffset(): ostream::tellp() failed: rdstate={}", m_os.rdstate()));
   }
-- 
2.43.0


From 056913ab37c8502213530ec704c12c9113057642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:41 +0000
Subject: [PATCH 34/46] fix: setHeader leaks the header it replaces

---
 src/box.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/box.cpp b/src/box.cpp
index 00068ed..eb8fa8b 100644
--- a/src/box.cpp
+++ b/src/box.cpp
@@ -58,6 +58,9 @@ std::uint64_t Box::getDataSize() const {
 }
 
 void Box::setHeader(BoxHeader* header) {
+  if (m_header && m_header != header) {
+    delete m_header;
+  }
   m_header = header;
 }
 
-- 
2.43.0


From 8f59dffa815974a1134d917731610c54ba7fb5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:27 +0000
Subject: [PATCH 35/46] fix: a failing tellg() goes unnoticed in Reader::seek,
 read_box_header and get_istream_offset_to_end

---
 src/bitio/reader.cpp  | 6 +++++-
 src/box_header.cpp    | 4 ++--
 src/stream/stream.cpp | 4 ++--
 3 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/bitio/reader.cpp b/src/bitio/reader.cpp
index 55612e2..297c59e 100644
--- a/src/bitio/reader.cpp
+++ b/src/bitio/reader.cpp
@@ -66,7 +66,11 @@ std::uint64_t Reader::seek(const std::uint64_t offset, const std::ios_base::seek
     throw std::runtime_error(fmt::format("bitio::Reader::seek(): istream::seekg() failed: rdstate={}", m_is.rdstate()));
   }
   m_width = 0;
-  return static_cast<std::uint64_t>(m_is.tellg());
+  const auto position = m_is.tellg();
+  if (position == std::istream::pos_type(-1)) {
+    throw std::runtime_error(fmt::format("bitio::Reader::seek(): istream::tellg() failed: rdstate={}", m_is.rdstate()));
+  }
+  return static_cast<std::uint64_t>(position);
 }
 
 void Reader::setOctet(const std::uint8_t octet) {
diff --git a/src/box_header.cpp b/src/box_header.cpp
index 031e7d9..246d9e2 100644
--- a/src/box_header.cpp
+++ b/src/box_header.cpp
@@ -17,7 +17,7 @@ namespace shiguredo::mp4 {
 
 BoxHeader* read_box_header(std::istream& is) {
   const std::uint64_t offset = static_cast<std::uint64_t>(is.tellg());
-  if (!is.good()) {
+  if (!is.good() || offset == static_cast<std::uint64_t>(-1)) {
     throw std::runtime_error(fmt::format("read_box_header(): istream::tellg() failed: rdstate={}", is.rdstate()));
   }
   is.seekg(0, std::ios_base::end);
@@ -25,7 +25,7 @@ BoxHeader* read_box_header(std::istream& is) {
     throw std::runtime_error(fmt::format("read_box_header(): istream::seekg() failed: rdstate={}", is.rdstate()));
   }
   const auto offset_eof = static_cast<std::uint64_t>(is.tellg());
-  if (!is.good()) {
+  if (!is.good() || offset_eof == static_cast<std::uint64_t>(-1)) {
     throw std::runtime_error(fmt::format("read_box_header(): istream::tellg() failed: rdstate={}", is.rdstate()));
   }
   if (offset_eof < offset || (offset_eof - offset) < Constants::SMALL_HEADER_SIZE) {
diff --git a/src/stream/stream.cpp b/src/stream/stream.cpp
index e99ca18..e20d8ed 100644
--- a/src/stream/stream.cpp
+++ b/src/stream/stream.cpp
@@ -8,7 +8,7 @@ namespace shiguredo::mp4::stream {
 
 std::streamoff get_istream_offset_to_end(std::istream& is) {
   const auto offset = is.tellg();
-  if (!is.good()) {
+  if (!is.good() || offset == std::istream::pos_type(-1)) {
     throw std::runtime_error(
         fmt::format("stream::get_istream_offset_to_end(): istream::tellg() failed: rdstate={}", is.rdstate()));
   }
@@ -18,7 +18,7 @@ std::streamoff get_istream_offset_to_end(std::istream& is) {
         fmt::format("stream::get_istream_offset_to_end(): istream::seekg() failed: rdstate={}", is.rdstate()));
   }
   const auto end_offset = is.tellg();
-  if (!is.good()) {
+  if (!is.good() || end_offset == std::istream::pos_type(-1)) {
     throw std::runtime_error(
         fmt::format("stream::get_istream_offset_to_end(): istream::tellg() failed: rdstate={}", is.rdstate()));
   }
-- 
2.43.0


From 622aff1c7768386440e520c42fc3eacaca619d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:28 +0000
Subject: [PATCH 36/46] fix: reading a version 0 vpcC keeps the initialization
 data the box held before

---
 src/box/vpc.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/box/vpc.cpp b/src/box/vpc.cpp
index dae7534..94c96e6 100644
--- a/src/box/vpc.cpp
+++ b/src/box/vpc.cpp
@@ -69,6 +69,7 @@ std::uint64_t VPCodecConfiguration::readData(std::istream& is) {
   rbits += bitio::read_uint<std::uint8_t>(&reader, &m_colour_primaries);
   rbits += bitio::read_uint<std::uint8_t>(&reader, &m_transfer_characteristics);
   rbits += bitio::read_uint<std::uint8_t>(&reader, &m_matrix_coefficients);
+  m_codec_initialization_data.clear();
   if (m_version == 0) {
     return rbits;
   }
-- 
2.43.0


From bd087d235970530bc4fd89d239837add5aa35981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:39 +0000
Subject: [PATCH 37/46] fix: lists longer than their count field are written
 with a wrapped count (sidx, vpcC, avcC extensions)

---
 src/box/avc.cpp  | 4 ++++
 src/box/sidx.cpp | 4 ++++
 src/box/vpc.cpp  | 5 +++++
 3 files changed, 13 insertions(+)

diff --git a/src/box/avc.cpp b/src/box/avc.cpp
index 2044fdb..c83fd7e 100644
--- a/src/box/avc.cpp
+++ b/src/box/avc.cpp
@@ -164,6 +164,10 @@ std::uint64_t AVCDecoderConfiguration::writeData(std::ostream& os) const {
   wbits += bitio::write_uint<std::uint8_t>(&writer, m_bit_depth_luma_minus8, 3);
   wbits += bitio::write_uint<std::uint8_t>(&writer, m_reserved5, 5);
   wbits += bitio::write_uint<std::uint8_t>(&writer, m_bit_depth_chroma_minus8, 3);
+  if (std::size(m_sequence_parameter_sets_ext) > 0xff) {
+    throw std::runtime_error(fmt::format("AVCDecoderConfiguration::writeData(): too many parameter set extensions: {}",
+                                         std::size(m_sequence_parameter_sets_ext)));
+  }
   std::uint8_t size_of_ext = static_cast<std::uint8_t>(std::size(m_sequence_parameter_sets_ext));
   wbits += bitio::write_uint<std::uint8_t>(&writer, size_of_ext);
   wbits += std::accumulate(std::begin(m_sequence_parameter_sets_ext), std::end(m_sequence_parameter_sets_ext), 0UL,
diff --git a/src/box/sidx.cpp b/src/box/sidx.cpp
index 5dbb4a9..c6c40fe 100644
--- a/src/box/sidx.cpp
+++ b/src/box/sidx.cpp
@@ -9,6 +9,7 @@
 #include <iterator>
 #include <memory>
 #include <numeric>
+#include <stdexcept>
 #include <string>
 
 #include "shiguredo/mp4/bitio/bitio.hpp"
@@ -57,6 +58,9 @@ std::uint64_t Sidx::writeData(std::ostream& os) const {
   wbits += bitio::write_uint<std::uint64_t>(&writer, m_earliest_presentation_time, m_version == 0 ? 32 : 64);
   wbits += bitio::write_uint<std::uint64_t>(&writer, m_first_offset, m_version == 0 ? 32 : 64);
   wbits += bitio::write_uint<std::uint16_t>(&writer, m_reserved);
+  if (std::size(m_references) > 0xffff) {
+    throw std::runtime_error(fmt::format("Sidx::writeData(): too many references: {}", std::size(m_references)));
+  }
   std::uint16_t size = static_cast<std::uint16_t>(std::size(m_references));
   wbits += bitio::write_uint<std::uint16_t>(&writer, size);
   wbits += std::accumulate(std::begin(m_references), std::end(m_references), 0UL,
diff --git a/src/box/vpc.cpp b/src/box/vpc.cpp
index 94c96e6..8843d9c 100644
--- a/src/box/vpc.cpp
+++ b/src/box/vpc.cpp
@@ -6,6 +6,7 @@
 #include <cstdint>
 #include <istream>
 #include <ostream>
+#include <stdexcept>
 #include <string>
 
 #include "shiguredo/mp4/bitio/bitio.hpp"
@@ -46,6 +47,10 @@ std::uint64_t VPCodecConfiguration::writeData(std::ostream& os) const {
   if (m_version == 0) {
     return wbits;
   }
+  if (std::size(m_codec_initialization_data) > 0xffff) {
+    throw std::runtime_error(fmt::format("VPCodecConfiguration::writeData(): too large initialization data: {}",
+                                         std::size(m_codec_initialization_data)));
+  }
   std::uint16_t size = static_cast<std::uint16_t>(std::size(m_codec_initialization_data));
   wbits += bitio::write_uint<std::uint16_t>(&writer, size);
   return wbits + bitio::write_vector_uint<std::uint8_t>(&writer, m_codec_initialization_data);
-- 
2.43.0


From e4ffafba8ebb9e48e325861450da633d5620a74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:57 +0000
Subject: [PATCH 38/46] fix: sample rates that do not fit 16.16 are recorded as
 another rate

---
 src/track/aac.cpp | 3 ++-
 src/track/mp3.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/track/aac.cpp b/src/track/aac.cpp
index e85f5f7..2a1d6e0 100644
--- a/src/track/aac.cpp
+++ b/src/track/aac.cpp
@@ -34,7 +34,8 @@ void AACTrack::makeStsdBoxInfo(BoxInfo* stbl) {
                                .entry_version = 0,
                                .channel_count = 2,
                                .sample_size = 16,
-                               .sample_rate = m_timescale << 16,
+                               // 16.16 固定小数点で表せない値は 0 とする
+                               .sample_rate = m_timescale > 0xffff ? 0 : m_timescale << 16,
                            })});
   std::shared_ptr<box::DecoderConfigDescriptor> dcd(
       new box::DecoderConfigDescriptor({.object_type_indication = 0x40,  // Audio ISO/IEC 14496-3 (MPEG-4 Audio)
diff --git a/src/track/mp3.cpp b/src/track/mp3.cpp
index aab4bc1..921c1c3 100644
--- a/src/track/mp3.cpp
+++ b/src/track/mp3.cpp
@@ -32,7 +32,8 @@ void MP3Track::makeStsdBoxInfo(BoxInfo* stbl) {
                                .entry_version = 0,
                                .channel_count = 2,
                                .sample_size = 16,
-                               .sample_rate = m_timescale << 16,
+                               // 16.16 固定小数点で表せない値は 0 とする
+                               .sample_rate = m_timescale > 0xffff ? 0 : m_timescale << 16,
                            })});
   std::shared_ptr<box::DecoderConfigDescriptor> dcd(
       new box::DecoderConfigDescriptor({.object_type_indication = 0x6b,  // Audio ISO/IEC 11172-3 (MPEG-1 Audio)
-- 
2.43.0


From 88004740613c4491f2d8fa19f26111db94080853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:32 +0000
Subject: [PATCH 39/46] fix: composition offsets of version 0 ctts and trun are
 written and read as signed

---
 include/shiguredo/mp4/box/ctts.hpp |  4 ++--
 include/shiguredo/mp4/box/trun.hpp |  4 ++--
 src/box/ctts.cpp                   | 18 +++++++++++++-----
 src/box/trun.cpp                   | 20 +++++++++++++++-----
 4 files changed, 32 insertions(+), 14 deletions(-)

diff --git a/include/shiguredo/mp4/box/ctts.hpp b/include/shiguredo/mp4/box/ctts.hpp
index 716bb7f..a0dc5a4 100644
--- a/include/shiguredo/mp4/box/ctts.hpp
+++ b/include/shiguredo/mp4/box/ctts.hpp
@@ -25,8 +25,8 @@ class CttsEntry {
   CttsEntry(const std::uint32_t, const std::int64_t);
 
   std::string toString() const;
-  std::uint64_t writeData(bitio::Writer*) const;
-  std::uint64_t readData(bitio::Reader*);
+  std::uint64_t writeData(bitio::Writer*, const std::uint8_t) const;
+  std::uint64_t readData(bitio::Reader*, const std::uint8_t);
 
  private:
   std::uint32_t m_sample_count;
diff --git a/include/shiguredo/mp4/box/trun.hpp b/include/shiguredo/mp4/box/trun.hpp
index 5f91c77..8e42032 100644
--- a/include/shiguredo/mp4/box/trun.hpp
+++ b/include/shiguredo/mp4/box/trun.hpp
@@ -30,9 +30,9 @@ class TrunEntry {
   explicit TrunEntry(const TrunEntryParameters&);
 
   std::string toString(const std::uint32_t) const;
-  std::uint64_t writeData(bitio::Writer*, const std::uint32_t) const;
+  std::uint64_t writeData(bitio::Writer*, const std::uint8_t, const std::uint32_t) const;
   std::uint64_t getSize(const std::uint32_t) const;
-  std::uint64_t readData(bitio::Reader*, const std::uint32_t);
+  std::uint64_t readData(bitio::Reader*, const std::uint8_t, const std::uint32_t);
 
  private:
   std::uint32_t m_sample_duration;
diff --git a/src/box/ctts.cpp b/src/box/ctts.cpp
index a5cba9a..edb6b64 100644
--- a/src/box/ctts.cpp
+++ b/src/box/ctts.cpp
@@ -27,15 +27,23 @@ std::string CttsEntry::toString() const {
   return fmt::format("{{SampleCount={} SampleOffset={}}}", m_sample_count, m_sample_offset);
 }
 
-std::uint64_t CttsEntry::writeData(bitio::Writer* writer) const {
+std::uint64_t CttsEntry::writeData(bitio::Writer* writer, const std::uint8_t version) const {
   std::uint64_t wbits = bitio::write_uint<std::uint32_t>(writer, m_sample_count);
-  wbits += bitio::write_int<std::int64_t>(writer, m_sample_offset, 32);
+  // version 0 の sample_offset は符号なし
+  if (version == 0) {
+    wbits += bitio::write_uint<std::uint32_t>(writer, static_cast<std::uint32_t>(m_sample_offset));
+  } else {
+    wbits += bitio::write_int<std::int64_t>(writer, m_sample_offset, 32);
+  }
   return wbits;
 }
 
-std::uint64_t CttsEntry::readData(bitio::Reader* reader) {
+std::uint64_t CttsEntry::readData(bitio::Reader* reader, const std::uint8_t version) {
   std::uint64_t rbits = bitio::read_uint<std::uint32_t>(reader, &m_sample_count);
   rbits += bitio::read_int<std::int64_t>(reader, &m_sample_offset, 32);
+  if (version == 0) {
+    m_sample_offset &= 0xffffffff;
+  }
   return rbits;
 }
 
@@ -67,7 +75,7 @@ std::uint64_t Ctts::writeData(std::ostream& os) const {
   std::uint64_t wbits = writeVersionAndFlag(&writer);
   wbits += bitio::write_uint<std::uint32_t>(&writer, static_cast<std::uint32_t>(std::size(m_entries)));
   wbits += std::accumulate(std::begin(m_entries), std::end(m_entries), 0UL,
-                           [&writer](const auto a, const auto& e) { return a + e.writeData(&writer); });
+                           [&](const auto a, const auto& e) { return a + e.writeData(&writer, m_version); });
   return wbits;
 }
 
@@ -78,7 +86,7 @@ std::uint64_t Ctts::readData(std::istream& is) {
   rbits += bitio::read_uint<std::uint32_t>(&reader, &entry_count);
   m_entries.clear();
   for (std::size_t i = 0; i < entry_count; ++i) {
-    rbits += m_entries.emplace_back().readData(&reader);
+    rbits += m_entries.emplace_back().readData(&reader, m_version);
   }
   return rbits;
 }
diff --git a/src/box/trun.cpp b/src/box/trun.cpp
index fbf853d..ce3f045 100644
--- a/src/box/trun.cpp
+++ b/src/box/trun.cpp
@@ -61,7 +61,7 @@ std::uint64_t Trun::writeData(std::ostream& os) const {
     wbits += bitio::write_uint<std::uint32_t>(&writer, m_first_sample_flags);
   }
   wbits += std::accumulate(std::begin(m_entries), std::end(m_entries), 0UL,
-                           [&writer, &flags](const auto a, const auto& e) { return a + e.writeData(&writer, flags); });
+                           [&](const auto a, const auto& e) { return a + e.writeData(&writer, m_version, flags); });
   return wbits;
 }
 
@@ -94,7 +94,7 @@ std::uint64_t Trun::readData(std::istream& is) {
   }
   m_entries.clear();
   for (std::size_t i = 0; i < sample_count; ++i) {
-    rbits += m_entries.emplace_back().readData(&reader, flags);
+    rbits += m_entries.emplace_back().readData(&reader, m_version, flags);
   }
   return rbits;
 }
@@ -124,7 +124,9 @@ std::string TrunEntry::toString(const std::uint32_t flags) const {
   return fmt::format("{{{}}}", fmt::join(ss, " "));
 }
 
-std::uint64_t TrunEntry::writeData(bitio::Writer* writer, const std::uint32_t flags) const {
+std::uint64_t TrunEntry::writeData(bitio::Writer* writer,
+                                   const std::uint8_t version,
+                                   const std::uint32_t flags) const {
   std::uint64_t wbits = 0;
   if (flags & 0x100) {
     wbits += bitio::write_uint<std::uint32_t>(writer, m_sample_duration);
@@ -136,7 +138,12 @@ std::uint64_t TrunEntry::writeData(bitio::Writer* writer, const std::uint32_t fl
     wbits += bitio::write_uint<std::uint32_t>(writer, m_sample_flags);
   }
   if (flags & 0x800) {
-    wbits += bitio::write_int<std::int64_t>(writer, m_sample_composition_time_offset, 32);
+    // version 0 の sample_composition_time_offset は符号なし
+    if (version == 0) {
+      wbits += bitio::write_uint<std::uint32_t>(writer, static_cast<std::uint32_t>(m_sample_composition_time_offset));
+    } else {
+      wbits += bitio::write_int<std::int64_t>(writer, m_sample_composition_time_offset, 32);
+    }
   }
   return wbits;
 }
@@ -158,7 +165,7 @@ std::uint64_t TrunEntry::getSize(const std::uint32_t flags) const {
   return size;
 }
 
-std::uint64_t TrunEntry::readData(bitio::Reader* reader, const std::uint32_t flags) {
+std::uint64_t TrunEntry::readData(bitio::Reader* reader, const std::uint8_t version, const std::uint32_t flags) {
   std::uint64_t rbits = 0;
   if (flags & 0x100) {
     rbits += bitio::read_uint<std::uint32_t>(reader, &m_sample_duration);
@@ -171,6 +178,9 @@ std::uint64_t TrunEntry::readData(bitio::Reader* reader, const std::uint32_t fla
   }
   if (flags & 0x800) {
     rbits += bitio::read_int<std::int64_t>(reader, &m_sample_composition_time_offset, 32);
+    if (version == 0) {
+      m_sample_composition_time_offset &= 0xffffffff;
+    }
   }
   return rbits;
 }
-- 
2.43.0


From 46664e5954b609f2a50040cdb27931495d412f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:05 +0000
Subject: [PATCH 40/46] fix: chunk offsets beyond 32 bits are truncated when
 the last one fits

---
 src/track/track.cpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/track/track.cpp b/src/track/track.cpp
index 597d84a..09fcd40 100644
--- a/src/track/track.cpp
+++ b/src/track/track.cpp
@@ -149,13 +149,9 @@ void Track::makeStscBoxInfo(BoxInfo* stbl) {
 }
 
 Box* make_offset_box(const std::vector<ChunkInfo>& chunk_infos) {
-  bool use_co64 = false;
-  if (!std::empty(chunk_infos)) {
-    auto last = chunk_infos.back();
-    if (last.offset > (std::numeric_limits<std::uint32_t>::max())) {
-      use_co64 = true;
-    }
-  }
+  const bool use_co64 = std::any_of(std::begin(chunk_infos), std::end(chunk_infos), [](const auto& e) {
+    return e.offset > std::numeric_limits<std::uint32_t>::max();
+  });
 
   if (use_co64) {
     std::vector<std::uint64_t> chunk_offsets;
-- 
2.43.0


From d92f3c1bf109a7b9f58df41c814bb5ae2c20bd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:38 +0000
Subject: [PATCH 41/46] fix: esds writes descriptor lengths in another form
 than it read, so that outer lengths no longer fit

---
 include/shiguredo/mp4/bitio/bitio.hpp | 11 ++++++-----
 include/shiguredo/mp4/box/esds.hpp    |  2 ++
 src/box/esds.cpp                      | 20 ++++++++++++--------
 3 files changed, 20 insertions(+), 13 deletions(-)

diff --git a/include/shiguredo/mp4/bitio/bitio.hpp b/include/shiguredo/mp4/bitio/bitio.hpp
index 72a6229..fbd5fa8 100644
--- a/include/shiguredo/mp4/bitio/bitio.hpp
+++ b/include/shiguredo/mp4/bitio/bitio.hpp
@@ -144,18 +144,19 @@ std::uint64_t uvarint_size(const T u) {
 }
 
 template <typename T>
-std::uint64_t write_uvarint(Writer* writer, const T u) {
+std::uint64_t write_uvarint(Writer* writer, const T u, const std::uint64_t size = sizeof(T)) {
   std::uint64_t val = static_cast<std::uint64_t>(u);
-  for (std::int8_t i = 7 * (sizeof(u) - 1); i >= 0; i -= 7) {
-    std::uint8_t data = static_cast<std::uint8_t>((val >> i) & 0x7f);
-    if (i > 0) {
+  for (std::uint64_t i = size; i > 0; --i) {
+    const std::uint64_t shift = 7 * (i - 1);
+    std::uint8_t data = shift < 64 ? static_cast<std::uint8_t>((val >> shift) & 0x7f) : 0;
+    if (i > 1) {
       data |= 0x80;
     }
     std::vector<std::uint8_t> v{data};
     writer->writeBits(v, 8);
   }
 
-  return sizeof(u) * 8;
+  return size * 8;
 }
 
 template <typename T>
diff --git a/include/shiguredo/mp4/box/esds.hpp b/include/shiguredo/mp4/box/esds.hpp
index ba2512c..82d57aa 100644
--- a/include/shiguredo/mp4/box/esds.hpp
+++ b/include/shiguredo/mp4/box/esds.hpp
@@ -31,6 +31,7 @@ class Descriptor {
 
  protected:
   std::int8_t m_tag;
+  std::uint64_t m_length_size = 4;  // number of bytes of the length field
 };
 
 const std::int8_t ESDescrTag = 0x03;
@@ -171,6 +172,7 @@ class Esds : public FullBox {
 
  private:
   std::vector<std::shared_ptr<Descriptor>> m_descriptors;
+  std::vector<std::uint8_t> m_unknown_descriptors;
 };
 
 }  // namespace shiguredo::mp4::box
diff --git a/src/box/esds.cpp b/src/box/esds.cpp
index c5581b6..c2285d7 100644
--- a/src/box/esds.cpp
+++ b/src/box/esds.cpp
@@ -41,7 +41,7 @@ ESDescriptor::ESDescriptor() {
 
 std::uint64_t ESDescriptor::writeData(bitio::Writer* writer) const {
   auto wbits = bitio::write_int<std::int8_t>(writer, m_tag);
-  wbits += bitio::write_uvarint<std::uint32_t>(writer, getDataSizeWithSubDescriptors());
+  wbits += bitio::write_uvarint<std::uint32_t>(writer, getDataSizeWithSubDescriptors(), m_length_size);
   wbits += bitio::write_uint<std::uint16_t>(writer, m_ESID);
   wbits += write_bool(writer, m_stream_dependence_flag);
   wbits += write_bool(writer, m_url_flag);
@@ -66,7 +66,7 @@ std::uint64_t ESDescriptor::writeData(bitio::Writer* writer) const {
 }
 
 std::uint64_t ESDescriptor::getSize() const {
-  return 1 + bitio::uvarint_size<std::uint32_t>(getDataSize()) + getDataSize();
+  return 1 + m_length_size + getDataSize();
 }
 
 std::uint32_t ESDescriptor::getDataSizeWithSubDescriptors() const {
@@ -97,6 +97,7 @@ std::uint32_t ESDescriptor::getDataSize() const {
 std::uint64_t ESDescriptor::readData(bitio::Reader* reader) {
   std::uint32_t data_size_with_sub_descriptors;
   auto rbits = bitio::read_uvarint<std::uint32_t>(reader, &data_size_with_sub_descriptors);
+  m_length_size = rbits / 8;
   rbits += bitio::read_uint<std::uint16_t>(reader, &m_ESID);
   rbits += read_bool(reader, &m_stream_dependence_flag);
   rbits += read_bool(reader, &m_url_flag);
@@ -157,7 +158,7 @@ DecoderConfigDescriptor::DecoderConfigDescriptor(const DecoderConfigDescriptorPa
 
 std::uint64_t DecoderConfigDescriptor::writeData(bitio::Writer* writer) const {
   auto wbits = bitio::write_int<std::int8_t>(writer, m_tag);
-  wbits += bitio::write_uvarint<std::uint32_t>(writer, getDataSizeWithSubDescriptors());
+  wbits += bitio::write_uvarint<std::uint32_t>(writer, getDataSizeWithSubDescriptors(), m_length_size);
   wbits += bitio::write_uint<std::uint8_t>(writer, m_object_type_indication);
   wbits += bitio::write_int<std::int8_t>(writer, m_stream_type, 6);
   wbits += write_bool(writer, m_upstream);
@@ -169,7 +170,7 @@ std::uint64_t DecoderConfigDescriptor::writeData(bitio::Writer* writer) const {
 }
 
 std::uint64_t DecoderConfigDescriptor::getSize() const {
-  return 1 + getDataSize() + bitio::uvarint_size<std::uint32_t>(getDataSize());
+  return 1 + getDataSize() + m_length_size;
 }
 
 std::uint32_t DecoderConfigDescriptor::getDataSizeWithSubDescriptors() const {
@@ -188,6 +189,7 @@ std::uint32_t DecoderConfigDescriptor::getDataSize() const {
 std::uint64_t DecoderConfigDescriptor::readData(bitio::Reader* reader) {
   std::uint32_t data_size_with_sub_descriptors;
   auto rbits = bitio::read_uvarint<std::uint32_t>(reader, &data_size_with_sub_descriptors);
+  m_length_size = rbits / 8;
   rbits += bitio::read_uint<std::uint8_t>(reader, &m_object_type_indication);
   rbits += bitio::read_int<std::int8_t>(reader, &m_stream_type, 6);
   rbits += read_bool(reader, &m_upstream);
@@ -217,12 +219,12 @@ DecSpecificInfo::DecSpecificInfo(const DecSpecificInfoParameters& params) : m_da
 
 std::uint64_t DecSpecificInfo::writeData(bitio::Writer* writer) const {
   auto wbits = bitio::write_int<std::int8_t>(writer, m_tag);
-  wbits += bitio::write_uvarint<std::uint32_t>(writer, static_cast<std::uint32_t>(std::size(m_data)));
+  wbits += bitio::write_uvarint<std::uint32_t>(writer, static_cast<std::uint32_t>(std::size(m_data)), m_length_size);
   return wbits + bitio::write_vector_uint<std::uint8_t>(writer, m_data);
 }
 
 std::uint64_t DecSpecificInfo::getSize() const {
-  return 1 + bitio::uvarint_size<std::uint32_t>(getDataSize()) + std::size(m_data);
+  return 1 + m_length_size + std::size(m_data);
 }
 
 std::uint32_t DecSpecificInfo::getDataSize() const {
@@ -236,6 +238,7 @@ std::uint32_t DecSpecificInfo::getDataSizeWithSubDescriptors() const {
 std::uint64_t DecSpecificInfo::readData(bitio::Reader* reader) {
   std::uint32_t size;
   auto rbits = bitio::read_uvarint<std::uint32_t>(reader, &size);
+  m_length_size = rbits / 8;
   return rbits + bitio::read_vector_uint<std::uint8_t>(reader, size, &m_data);
 }
 
@@ -253,12 +256,12 @@ SLConfigDescr::SLConfigDescr(const SLConfigDescrParameters& params) : m_data(par
 
 std::uint64_t SLConfigDescr::writeData(bitio::Writer* writer) const {
   auto wbits = bitio::write_int<std::int8_t>(writer, m_tag);
-  wbits += bitio::write_uvarint<std::uint32_t>(writer, static_cast<std::uint32_t>(std::size(m_data)));
+  wbits += bitio::write_uvarint<std::uint32_t>(writer, static_cast<std::uint32_t>(std::size(m_data)), m_length_size);
   return wbits + bitio::write_vector_uint<std::uint8_t>(writer, m_data);
 }
 
 std::uint64_t SLConfigDescr::getSize() const {
-  return 1 + bitio::uvarint_size<std::uint32_t>(getDataSize()) + std::size(m_data);
+  return 1 + m_length_size + std::size(m_data);
 }
 
 std::uint32_t SLConfigDescr::getDataSize() const {
@@ -272,6 +275,7 @@ std::uint32_t SLConfigDescr::getDataSizeWithSubDescriptors() const {
 std::uint64_t SLConfigDescr::readData(bitio::Reader* reader) {
   std::uint32_t size;
   auto rbits = bitio::read_uvarint<std::uint32_t>(reader, &size);
+  m_length_size = rbits / 8;
   return rbits + bitio::read_vector_uint<std::uint8_t>(reader, size, &m_data);
 }
 
-- 
2.43.0


From da193577790518a5d0b0d7bd0654169d7885b68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:55 +0000
Subject: [PATCH 42/46] fix: esds drops what follows an unknown descriptor,
 although the outer lengths count it

---
 src/box/esds.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/box/esds.cpp b/src/box/esds.cpp
index c2285d7..be63acd 100644
--- a/src/box/esds.cpp
+++ b/src/box/esds.cpp
@@ -308,11 +308,11 @@ std::uint64_t Esds::writeData(std::ostream& os) const {
   std::uint64_t wbits = writeVersionAndFlag(&writer);
   wbits += std::accumulate(std::begin(m_descriptors), std ::end(m_descriptors), 0UL,
                            [&writer](const auto a, const auto d) { return a + d->writeData(&writer); });
-  return wbits;
+  return wbits + bitio::write_vector_uint<std::uint8_t>(&writer, m_unknown_descriptors);
 }
 
 std::uint64_t Esds::getDataSize() const {
-  return std::accumulate(std::begin(m_descriptors), std::end(m_descriptors), 4UL,
+  return std::accumulate(std::begin(m_descriptors), std::end(m_descriptors), 4UL + std::size(m_unknown_descriptors),
                          [](const std::uint64_t a, const auto d) { return a + d->getSize(); });
 }
 
@@ -320,6 +320,7 @@ std::uint64_t Esds::readData(std::istream& is) {
   bitio::Reader reader(is);
   std::uint64_t rbits = readVersionAndFlag(&reader);
   m_descriptors.clear();
+  m_unknown_descriptors.clear();
   while (true) {
     const auto offset_to_end = shiguredo::mp4::stream::get_istream_offset_to_end(is);
     if (offset_to_end == 0) {
@@ -343,7 +344,10 @@ std::uint64_t Esds::readData(std::istream& is) {
         break;
       default:
         spdlog::info("Esds::readData(): unknown tag: {}", tag);
-        return rbits + (static_cast<std::uint64_t>(offset_to_end) - 1) * 8;
+        rbits += bitio::read_vector_uint<std::uint8_t>(&reader, static_cast<std::size_t>(offset_to_end) - 1,
+                                                       &m_unknown_descriptors);
+        m_unknown_descriptors.insert(std::begin(m_unknown_descriptors), static_cast<std::uint8_t>(tag));
+        return rbits;
     }
     rbits += p->readData(&reader);
     m_descriptors.push_back(p);
-- 
2.43.0


From 2afab66c2743a8cb4cb6e9e9875f9f5fa7095979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:55 +0000
Subject: [PATCH 43/46] fix: iods drops the descriptors its length counts and
 writes another length form than it read

---
 include/shiguredo/mp4/box/iods.hpp |  3 +++
 src/box/iods.cpp                   | 12 +++++++-----
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/shiguredo/mp4/box/iods.hpp b/include/shiguredo/mp4/box/iods.hpp
index 1e28056..e5623a5 100644
--- a/include/shiguredo/mp4/box/iods.hpp
+++ b/include/shiguredo/mp4/box/iods.hpp
@@ -3,6 +3,7 @@
 #include <cstdint>
 #include <istream>
 #include <string>
+#include <vector>
 
 #include "shiguredo/mp4/box.hpp"
 #include "shiguredo/mp4/box_type.hpp"
@@ -38,12 +39,14 @@ class Iods : public FullBox {
  private:
   std::uint8_t m_type_tag;
   std::uint32_t m_descriptor_length;
+  std::uint64_t m_length_size = 4;  // number of bytes of the length field
   std::uint16_t m_OD_ID;
   std::uint8_t m_OD_profile_level;
   std::uint8_t m_scene_profile_level;
   std::uint8_t m_audio_profile_level;
   std::uint8_t m_video_profile_level;
   std::uint8_t m_graphics_profile_level;
+  std::vector<std::uint8_t> m_sub_descriptors;
 };
 
 }  // namespace shiguredo::mp4::box
diff --git a/src/box/iods.cpp b/src/box/iods.cpp
index 291c095..4ada60f 100644
--- a/src/box/iods.cpp
+++ b/src/box/iods.cpp
@@ -51,25 +51,27 @@ std::uint64_t Iods::writeData(std::ostream& os) const {
   bitio::Writer writer(os);
   std::uint64_t wbits = writeVersionAndFlag(&writer);
   wbits += bitio::write_uint<std::uint8_t>(&writer, m_type_tag);
-  wbits += bitio::write_uvarint<std::uint32_t>(&writer, m_descriptor_length);
+  wbits += bitio::write_uvarint<std::uint32_t>(&writer, m_descriptor_length, m_length_size);
   wbits += bitio::write_uint<std::uint16_t>(&writer, m_OD_ID);
   wbits += bitio::write_uint<std::uint8_t>(&writer, m_OD_profile_level);
   wbits += bitio::write_uint<std::uint8_t>(&writer, m_scene_profile_level);
   wbits += bitio::write_uint<std::uint8_t>(&writer, m_audio_profile_level);
   wbits += bitio::write_uint<std::uint8_t>(&writer, m_video_profile_level);
   wbits += bitio::write_uint<std::uint8_t>(&writer, m_graphics_profile_level);
-  return wbits;
+  return wbits + bitio::write_vector_uint<std::uint8_t>(&writer, m_sub_descriptors);
 }
 
 std::uint64_t Iods::getDataSize() const {
-  return 12 + bitio::uvarint_size(m_descriptor_length);
+  return 12 + m_length_size + std::size(m_sub_descriptors);
 }
 
 std::uint64_t Iods::readData(std::istream& is) {
   bitio::Reader reader(is);
   std::uint64_t rbits = readVersionAndFlag(&reader);
   rbits += bitio::read_uint<std::uint8_t>(&reader, &m_type_tag);
-  rbits += bitio::read_uvarint<std::uint32_t>(&reader, &m_descriptor_length);
+  const auto length_rbits = bitio::read_uvarint<std::uint32_t>(&reader, &m_descriptor_length);
+  m_length_size = length_rbits / 8;
+  rbits += length_rbits;
   rbits += bitio::read_uint<std::uint16_t>(&reader, &m_OD_ID);
   rbits += bitio::read_uint<std::uint8_t>(&reader, &m_OD_profile_level);
   rbits += bitio::read_uint<std::uint8_t>(&reader, &m_scene_profile_level);
@@ -82,7 +84,7 @@ std::uint64_t Iods::readData(std::istream& is) {
         fmt::format("Iods::readData(): invalid descriptor_length: descriptor_length={} offset_to_end={}",
                     m_descriptor_length, offset_to_end));
   }
-  return rbits + static_cast<std::uint64_t>(m_descriptor_length - 7) * 8;
+  return rbits + bitio::read_vector_uint<std::uint8_t>(&reader, m_descriptor_length - 7, &m_sub_descriptors);
 }
 
 }  // namespace shiguredo::mp4::box
-- 
2.43.0


From 3432228f2aa52fd8891319745648883c97c486e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:31 +0000
Subject: [PATCH 44/46] fix: a sample that could not be written is counted all
 the same, so that a recording that goes on is broken

---
 src/track/track.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/track/track.cpp b/src/track/track.cpp
index 09fcd40..2f9eef2 100644
--- a/src/track/track.cpp
+++ b/src/track/track.cpp
@@ -43,10 +43,12 @@ void Track::addMdatData(const std::uint64_t timestamp,
                     m_prev_timestamp));
   }
 
+  // 書き込みに失敗した sample を数えないように、状態は書き込みの後で更新する
   if (!m_current_chunk_info.initialized) {
-    m_current_chunk_info.initialized = true;
     m_current_chunk_info.offset = m_writer->tellCurrentMdatOffset();
   }
+  m_writer->addMdatData(data, data_size);
+  m_current_chunk_info.initialized = true;
   ++m_current_chunk_info.number_of_samples;
 
   if (!std::empty(m_mdat_sample_sizes)) {
@@ -55,7 +57,6 @@ void Track::addMdatData(const std::uint64_t timestamp,
   }
   m_prev_timestamp = timestamp;
 
-  m_writer->addMdatData(data, data_size);
   m_mdat_sample_sizes.push_back(static_cast<std::uint32_t>(data_size));
   if (m_handler_type == HandlerType::vide && is_key) {
     m_key_sample_numbers.push_back(static_cast<std::uint32_t>(std::size(m_mdat_sample_sizes)));
-- 
2.43.0


From ca960821d6970f3da76e6f0b601a106800460c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:55 +0000
Subject: [PATCH 45/46] fix: mp4-tool reports a dump that could not be written

---
 src/cli/mp4-tool.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cli/mp4-tool.cpp b/src/cli/mp4-tool.cpp
index b68990f..c09af9f 100644
--- a/src/cli/mp4-tool.cpp
+++ b/src/cli/mp4-tool.cpp
@@ -45,6 +45,11 @@ int main(int argc, char** argv) {
       std::ifstream ifs(filename, std::ios_base::binary);
       shiguredo::mp4::reader::SimpleReader reader(ifs);
       reader.read();
+      std::cout.flush();
+      if (!std::cout) {
+        spdlog::error("{}: cannot write the dump", filename);
+        return 1;
+      }
     } catch (const std::exception& e) {
       spdlog::error("{}: {}", filename, e.what());
       return 1;
-- 
2.43.0


From 84932b3abdb583b2b72bfed31c0a6a02df3ef939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:32 +0000
Subject: [PATCH 46/46] fix: headers of recordings made after February 2040
 hold the whole time

---
 src/track/soun.cpp              | 3 ++-
 src/track/track.cpp             | 3 ++-
 src/track/vide.cpp              | 3 ++-
 src/writer/faststart_writer.cpp | 3 ++-
 src/writer/simple_writer.cpp    | 3 ++-
 5 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/track/soun.cpp b/src/track/soun.cpp
index 497ce3d..83ce4fe 100644
--- a/src/track/soun.cpp
+++ b/src/track/soun.cpp
@@ -13,7 +13,8 @@ SounTrack::SounTrack() {
 
 void SounTrack::makeTkhdBoxInfo(BoxInfo* trak) {
   const auto duration = getDurationInMvhdTimescale();
-  const bool use_version_1 = duration > std::numeric_limits<std::uint32_t>::max();
+  const bool use_version_1 = duration > std::numeric_limits<std::uint32_t>::max() ||
+                             m_time_from_epoch > std::numeric_limits<std::uint32_t>::max();
   new BoxInfo({.parent = trak,
                .box = new box::Tkhd({.version = static_cast<std::uint8_t>(use_version_1 ? 1 : 0),
                                      .flags = 0x000003,
diff --git a/src/track/track.cpp b/src/track/track.cpp
index 2f9eef2..2cb1219 100644
--- a/src/track/track.cpp
+++ b/src/track/track.cpp
@@ -208,7 +208,8 @@ BoxInfo* Track::makeMdiaBoxInfo(BoxInfo* trak) {
 
 void Track::makeMdhdBoxInfo(BoxInfo* mdia) {
   const auto duration = getDurationInTimescale();
-  const bool use_version_1 = duration > std::numeric_limits<std::uint32_t>::max();
+  const bool use_version_1 = duration > std::numeric_limits<std::uint32_t>::max() ||
+                             m_time_from_epoch > std::numeric_limits<std::uint32_t>::max();
   new BoxInfo({.parent = mdia,
                .box = new box::Mdhd({.version = static_cast<std::uint8_t>(use_version_1 ? 1 : 0),
                                      .creation_time = m_time_from_epoch,
diff --git a/src/track/vide.cpp b/src/track/vide.cpp
index 0b98f4a..15d2fa1 100644
--- a/src/track/vide.cpp
+++ b/src/track/vide.cpp
@@ -13,7 +13,8 @@ VideTrack::VideTrack() {
 
 void VideTrack::makeTkhdBoxInfo(BoxInfo* trak) {
   const auto duration = getDurationInMvhdTimescale();
-  const bool use_version_1 = duration > std::numeric_limits<std::uint32_t>::max();
+  const bool use_version_1 = duration > std::numeric_limits<std::uint32_t>::max() ||
+                             m_time_from_epoch > std::numeric_limits<std::uint32_t>::max();
   new BoxInfo({.parent = trak,
                .box = new box::Tkhd({
                    .version = static_cast<std::uint8_t>(use_version_1 ? 1 : 0),
diff --git a/src/writer/faststart_writer.cpp b/src/writer/faststart_writer.cpp
index bd477f1..a3ee80f 100644
--- a/src/writer/faststart_writer.cpp
+++ b/src/writer/faststart_writer.cpp
@@ -67,7 +67,8 @@ void FaststartWriter::recreateMoovBoxInfo() {
 
   m_moov_box_info = new BoxInfo({.box = new box::Moov()});
   const std::uint64_t mvhd_duration = static_cast<std::uint64_t>(static_cast<float>(m_mvhd_timescale) * m_duration);
-  const bool use_version_1 = mvhd_duration > std::numeric_limits<std::uint32_t>::max();
+  const bool use_version_1 = mvhd_duration > std::numeric_limits<std::uint32_t>::max() ||
+                             m_time_from_epoch > std::numeric_limits<std::uint32_t>::max();
   m_mvhd_box = new box::Mvhd({.version = static_cast<std::uint8_t>(use_version_1 ? 1 : 0),
                               .creation_time = m_time_from_epoch,
                               .modification_time = m_time_from_epoch,
diff --git a/src/writer/simple_writer.cpp b/src/writer/simple_writer.cpp
index 5a48f24..1f78d3d 100644
--- a/src/writer/simple_writer.cpp
+++ b/src/writer/simple_writer.cpp
@@ -30,7 +30,8 @@ SimpleWriter::SimpleWriter(std::ostream& t_os, const SimpleWriterParameters& par
       static_cast<std::uint64_t>(duration_cast<std::chrono::seconds>(p.time_since_epoch()).count()));
 
   const std::uint64_t mvhd_duration = static_cast<std::uint64_t>(static_cast<float>(m_mvhd_timescale) * m_duration);
-  const bool use_version_1 = mvhd_duration > std::numeric_limits<std::uint32_t>::max();
+  const bool use_version_1 = mvhd_duration > std::numeric_limits<std::uint32_t>::max() ||
+                             m_time_from_epoch > std::numeric_limits<std::uint32_t>::max();
 
   m_moov_box_info = new BoxInfo({.box = new box::Moov()});
   m_mvhd_box = new box::Mvhd({.version = static_cast<std::uint8_t>(use_version_1 ? 1 : 0),
-- 
2.43.0

