From 5ee267bfb4e4796689c6887a3394187e43257251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:55 +0000
Subject: [PATCH 001/172] fix: copy flags and native data when copying a
 TagValue

---
 tagvalue.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tagvalue.cpp b/tagvalue.cpp
index aaa0924..14fbf6b 100644
--- a/tagvalue.cpp
+++ b/tagvalue.cpp
@@ -137,10 +137,11 @@ TagValue::TagValue(const TagValue &other)
     , m_desc(other.m_desc)
     , m_mimeType(other.m_mimeType)
     , m_locale(other.m_locale)
+    , m_nativeData(other.m_nativeData)
     , m_type(other.m_type)
     , m_encoding(other.m_encoding)
     , m_descEncoding(other.m_descEncoding)
-    , m_flags(TagValueFlags::None)
+    , m_flags(other.m_flags)
 {
     if (!other.isEmpty()) {
         m_ptr = make_unique<char[]>(m_size);
@@ -295,6 +296,7 @@ TagValue &TagValue::operator=(const TagValue &other)
     m_desc = other.m_desc;
     m_mimeType = other.m_mimeType;
     m_locale = other.m_locale;
+    m_nativeData = other.m_nativeData;
     m_flags = other.m_flags;
     m_encoding = other.m_encoding;
     m_descEncoding = other.m_descEncoding;
-- 
2.43.0


From 0fbd9ca20e2627d34a79a525b6b121763f1d8746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:19 +0000
Subject: [PATCH 002/172] fix: initialize all members when constructing a
 TagValue from a C-string

---
 tagvalue.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tagvalue.cpp b/tagvalue.cpp
index 14fbf6b..2353eda 100644
--- a/tagvalue.cpp
+++ b/tagvalue.cpp
@@ -190,6 +190,8 @@ TagValue::TagValue(const char *text, std::size_t textSize, TagTextEncoding textE
  * \remarks Strips the BOM of the specified \a text.
  */
 TagValue::TagValue(const char *text, TagTextEncoding textEncoding, TagTextEncoding convertTo)
+    : m_descEncoding(TagTextEncoding::Latin1)
+    , m_flags(TagValueFlags::None)
 {
     assignText(text, std::strlen(text), textEncoding, convertTo);
 }
-- 
2.43.0


From c15e089646cf12ac0c788d4bac18353183fb80d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:38 +0000
Subject: [PATCH 003/172] fix: compare UTF-16 text case-insensitively by
 character instead of by byte

---
 tagvalue.cpp | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/tagvalue.cpp b/tagvalue.cpp
index 2353eda..50a716c 100644
--- a/tagvalue.cpp
+++ b/tagvalue.cpp
@@ -332,6 +332,26 @@ TagTextEncoding pickUtfEncoding(TagTextEncoding encoding1, TagTextEncoding encod
     }
     return TagTextEncoding::Utf8;
 }
+
+/*!
+ * \brief Compares text of the specified \a encoding considering that the case is an attribute of a character and not
+ *        of the single bytes it is made of.
+ */
+bool compareText(const char *text1, std::size_t size1, const char *text2, std::size_t size2, TagTextEncoding encoding, bool ignoreCase)
+{
+    if (!ignoreCase || characterSize(encoding) != 2 || size1 != size2) {
+        return TagValue::compareData(text1, size1, text2, size2, ignoreCase);
+    }
+    const auto lowByte = encoding == TagTextEncoding::Utf16BigEndian ? std::size_t(1) : std::size_t(0), highByte = std::size_t(1) - lowByte;
+    auto i = std::size_t(0);
+    for (; i + 1 < size1; i += 2) {
+        if (text1[i + highByte] != text2[i + highByte]
+            || !TagValue::compareData(text1 + i + lowByte, 1, text2 + i + lowByte, 1, !text1[i + highByte])) {
+            return false;
+        }
+    }
+    return i == size1 || text1[i] == text2[i];
+}
 /// \endcond
 
 /*!
@@ -367,7 +387,9 @@ bool TagValue::compareTo(const TagValue &other, TagValueComparisionFlags options
         // check description which might use different encodings
         if (m_descEncoding == other.m_descEncoding || m_descEncoding == TagTextEncoding::Unspecified
             || other.m_descEncoding == TagTextEncoding::Unspecified || m_desc.empty() || other.m_desc.empty()) {
-            if (!compareData(m_desc, other.m_desc, options & TagValueComparisionFlags::CaseInsensitive)) {
+            if (!compareText(m_desc.data(), m_desc.size(), other.m_desc.data(), other.m_desc.size(),
+                    m_descEncoding == TagTextEncoding::Unspecified ? other.m_descEncoding : m_descEncoding,
+                    options & TagValueComparisionFlags::CaseInsensitive)) {
                 return false;
             }
         } else {
@@ -395,7 +417,7 @@ bool TagValue::compareTo(const TagValue &other, TagValueComparisionFlags options
                 data2 = other.m_desc.data();
                 size2 = other.m_desc.size();
             }
-            if (!compareData(data1, size1, data2, size2, options & TagValueComparisionFlags::CaseInsensitive)) {
+            if (!compareText(data1, size1, data2, size2, utfEncodingToUse, options & TagValueComparisionFlags::CaseInsensitive)) {
                 return false;
             }
         }
@@ -412,7 +434,9 @@ bool TagValue::compareTo(const TagValue &other, TagValueComparisionFlags options
                 }
                 if (m_encoding == other.m_encoding || m_encoding == TagTextEncoding::Unspecified
                     || other.m_encoding == TagTextEncoding::Unspecified) {
-                    return compareData(other, options & TagValueComparisionFlags::CaseInsensitive);
+                    return compareText(m_ptr.get(), m_size, other.m_ptr.get(), other.m_size,
+                        m_encoding == TagTextEncoding::Unspecified ? other.m_encoding : m_encoding,
+                        options & TagValueComparisionFlags::CaseInsensitive);
                 }
 
                 // compare UTF-8 or UTF-16 representation of strings avoiding unnecessary conversions
@@ -436,7 +460,7 @@ bool TagValue::compareTo(const TagValue &other, TagValueComparisionFlags options
                     data2 = other.m_ptr.get();
                     size2 = other.m_size;
                 }
-                return compareData(data1, size1, data2, size2, options & TagValueComparisionFlags::CaseInsensitive);
+                return compareText(data1, size1, data2, size2, utfEncodingToUse, options & TagValueComparisionFlags::CaseInsensitive);
             }
             case TagDataType::PositionInSet:
                 return toPositionInSet() == other.toPositionInSet();
-- 
2.43.0


From 3aa2405bcc0d3b28c6bca5c02a9f944cf39e4de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:50 +0000
Subject: [PATCH 004/172] fix: return actual text from TagValue::toWString()
 for non-text values

---
 tagvalue.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tagvalue.cpp b/tagvalue.cpp
index 50a716c..d0d895a 100644
--- a/tagvalue.cpp
+++ b/tagvalue.cpp
@@ -1218,8 +1218,8 @@ void TagValue::toWString(std::u16string &result, TagTextEncoding encoding) const
         throw ConversionException(argsToString("Can not convert ", tagDataTypeString(m_type), " to string."));
     }
     if (encoding == TagTextEncoding::Utf16LittleEndian || encoding == TagTextEncoding::Utf16BigEndian) {
-        auto encodedData = encoding == TagTextEncoding::Utf16LittleEndian ? convertUtf8ToUtf16LE(regularStrRes.data(), result.size())
-                                                                          : convertUtf8ToUtf16BE(regularStrRes.data(), result.size());
+        auto encodedData = encoding == TagTextEncoding::Utf16LittleEndian ? convertUtf8ToUtf16LE(regularStrRes.data(), regularStrRes.size())
+                                                                          : convertUtf8ToUtf16BE(regularStrRes.data(), regularStrRes.size());
         result.assign(reinterpret_cast<const char16_t *>(encodedData.first.get()), encodedData.second / sizeof(const char16_t));
     }
 }
-- 
2.43.0


From 510ad4abf8843f8499c7d327a5ce4a43eea41d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:02 +0000
Subject: [PATCH 005/172] fix: keep text when converting from or to an
 unspecified encoding

---
 tagvalue.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tagvalue.cpp b/tagvalue.cpp
index d0d895a..eac5007 100644
--- a/tagvalue.cpp
+++ b/tagvalue.cpp
@@ -951,7 +951,7 @@ void TagValue::convertDataEncoding(TagTextEncoding encoding)
     if (m_encoding == encoding) {
         return;
     }
-    if (type() == TagDataType::Text) {
+    if (type() == TagDataType::Text && m_encoding != TagTextEncoding::Unspecified && encoding != TagTextEncoding::Unspecified) {
         StringData encodedData;
         switch (encoding) {
         case TagTextEncoding::Utf8:
@@ -1003,7 +1003,7 @@ void TagValue::convertDescriptionEncoding(TagTextEncoding encoding)
     if (encoding == m_descEncoding) {
         return;
     }
-    if (m_desc.empty()) {
+    if (m_desc.empty() || m_descEncoding == TagTextEncoding::Unspecified || encoding == TagTextEncoding::Unspecified) {
         m_descEncoding = encoding;
         return;
     }
@@ -1151,7 +1151,7 @@ void TagValue::toWString(std::u16string &result, TagTextEncoding encoding) const
     string regularStrRes;
     switch (m_type) {
     case TagDataType::Text:
-        if (encoding == TagTextEncoding::Unspecified || encoding == dataEncoding()) {
+        if (encoding == TagTextEncoding::Unspecified || dataEncoding() == TagTextEncoding::Unspecified || encoding == dataEncoding()) {
             result.assign(reinterpret_cast<const char16_t *>(m_ptr.get()), m_size / sizeof(char16_t));
         } else {
             StringData encodedData;
@@ -1246,7 +1246,7 @@ void TagValue::assignText(const char *text, std::size_t textSize, TagTextEncodin
         return;
     }
 
-    if (convertTo == TagTextEncoding::Unspecified || textEncoding == convertTo) {
+    if (convertTo == TagTextEncoding::Unspecified || textEncoding == TagTextEncoding::Unspecified || textEncoding == convertTo) {
         m_ptr = make_unique<char[]>(m_size = textSize);
         copy(text, text + textSize, m_ptr.get());
         return;
-- 
2.43.0


From 64ac8e8e03e999f734708d52eaa4710a1d075193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:56 +0000
Subject: [PATCH 006/172] fix: take the extension only from the file name and
 not from a directory

---
 basicfileinfo.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/basicfileinfo.cpp b/basicfileinfo.cpp
index f9a4991..5915c67 100644
--- a/basicfileinfo.cpp
+++ b/basicfileinfo.cpp
@@ -9,6 +9,14 @@ using namespace CppUtilities;
  * \brief Contains all classes and functions of the TagInfo library.
  */
 namespace TagParser {
+
+/// \brief Returns the position of the file extension within \a path (not considering points within directory names) or npos.
+static std::string_view::size_type findExtension(std::string_view path)
+{
+    const auto pos = path.find_last_of("./\\");
+    return pos != std::string_view::npos && path[pos] == '.' ? pos : std::string_view::npos;
+}
+
 /*!
  * \class BasicFileInfo
  * \brief The BasicFileInfo class provides basic file information such as
@@ -150,7 +158,7 @@ std::string BasicFileInfo::fileName(std::string_view path, bool cutExtension)
 {
     const auto lastSlash = path.rfind('/');
     const auto lastBackSlash = path.rfind('\\');
-    const auto lastPoint = cutExtension ? path.rfind('.') : string::npos;
+    const auto lastPoint = cutExtension ? findExtension(path) : string::npos;
     auto lastSeparator = decltype(lastSlash)();
     if (lastSlash == string::npos && lastBackSlash == string::npos) {
         return std::string(lastPoint == string::npos ? path : path.substr(0, lastPoint));
@@ -181,7 +189,7 @@ std::string BasicFileInfo::fileName(bool cutExtension) const
  */
 std::string BasicFileInfo::extension(std::string_view path)
 {
-    const auto lastPoint = path.rfind('.');
+    const auto lastPoint = findExtension(path);
     if (lastPoint == std::string::npos) {
         return std::string();
     } else {
@@ -202,7 +210,7 @@ std::string BasicFileInfo::extension() const
  */
 std::string BasicFileInfo::pathWithoutExtension(std::string_view fullPath)
 {
-    const auto lastPoint = fullPath.rfind('.');
+    const auto lastPoint = findExtension(fullPath);
     return std::string(lastPoint != std::string::npos ? fullPath.substr(0, lastPoint) : fullPath);
 }
 
-- 
2.43.0


From cf11145a40650815ad3b770a168b2b5afc2de327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:34 +0000
Subject: [PATCH 007/172] fix: consider the year when checking whether an ID3v1
 tag has a field

---
 id3/id3v1tag.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/id3/id3v1tag.cpp b/id3/id3v1tag.cpp
index 66f40de..d02a968 100644
--- a/id3/id3v1tag.cpp
+++ b/id3/id3v1tag.cpp
@@ -207,6 +207,7 @@ bool Id3v1Tag::hasField(KnownField field) const
         return !m_artist.isEmpty();
     case KnownField::Album:
         return !m_album.isEmpty();
+    case KnownField::RecordDate:
         return !m_year.isEmpty();
     case KnownField::Comment:
         return !m_comment.isEmpty();
-- 
2.43.0


From 108a115166fe5b3e01edcfb0d32f2415203a4dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:35 +0000
Subject: [PATCH 008/172] fix: read ID3v1 values which consist of only one
 character

---
 id3/id3v1tag.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/id3/id3v1tag.cpp b/id3/id3v1tag.cpp
index d02a968..d5027f8 100644
--- a/id3/id3v1tag.cpp
+++ b/id3/id3v1tag.cpp
@@ -278,12 +278,10 @@ void Id3v1Tag::ensureTextValuesAreProperlyEncoded()
  */
 void Id3v1Tag::readValue(TagValue &value, size_t maxLength, const char *buffer)
 {
-    const char *end = buffer + maxLength - 1;
-    while ((*end == 0x0 || *end == ' ') && end >= buffer) {
-        --end;
+    while (maxLength && (buffer[maxLength - 1] == 0x0 || buffer[maxLength - 1] == ' ')) {
         --maxLength;
     }
-    if (buffer == end) {
+    if (!maxLength) {
         return;
     }
     if (maxLength >= 3 && BE::toUInt24(buffer) == 0x00EFBBBF) {
-- 
2.43.0


From 1780005f10ab185425987ee1fd110af2d502b677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:35 +0000
Subject: [PATCH 009/172] fix: read ID3v1 track numbers beyond 127 and absent
 track and genre correctly

---
 id3/id3v1tag.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/id3/id3v1tag.cpp b/id3/id3v1tag.cpp
index d5027f8..1d747e2 100644
--- a/id3/id3v1tag.cpp
+++ b/id3/id3v1tag.cpp
@@ -1,4 +1,5 @@
 #include "./id3v1tag.h"
+#include "./id3genres.h"
 
 #include "../diagnostics.h"
 #include "../exceptions.h"
@@ -77,10 +78,12 @@ void Id3v1Tag::parse(std::istream &stream, Diagnostics &diag)
         m_version = "1.0";
     }
     readValue(m_comment, is11 ? 28 : 30, buffer + 97);
-    if (is11) {
-        m_trackPos.assignPosition(PositionInSet(*reinterpret_cast<char *>(buffer + 126), 0));
+    if (is11 && buffer[126]) {
+        m_trackPos.assignPosition(PositionInSet(static_cast<unsigned char>(buffer[126]), 0));
+    }
+    if (const auto genreIndex = static_cast<unsigned char>(buffer[127]); !Id3Genres::isEmptyGenre(genreIndex)) {
+        m_genre.assignStandardGenreIndex(genreIndex);
     }
-    m_genre.assignStandardGenreIndex(*reinterpret_cast<unsigned char *>(buffer + 127));
 }
 
 /*!
-- 
2.43.0


From 88931ea3308e8b711f1fcb8b9bcc7166b23bc3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:52 +0000
Subject: [PATCH 010/172] fix: avoid reading beyond the bitrate table for MPEG
 audio frames with bad bitrate

---
 mpegaudio/mpegaudioframe.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mpegaudio/mpegaudioframe.h b/mpegaudio/mpegaudioframe.h
index 7f95a0d..06f07c0 100644
--- a/mpegaudio/mpegaudioframe.h
+++ b/mpegaudio/mpegaudioframe.h
@@ -108,8 +108,9 @@ constexpr bool MpegAudioFrame::isProtectedByCrc() const
  */
 inline std::uint16_t MpegAudioFrame::bitrate() const
 {
-    if (mpegVersion() > 0.0 && layer() > 0) {
-        return s_bitrateTable[mpegVersion() == 1.0 ? 0 : 1][layer() - 1][(m_header & 0xf000u) >> 12];
+    const auto bitrateIndex = (m_header & 0xf000u) >> 12;
+    if (mpegVersion() > 0.0 && layer() > 0 && bitrateIndex < 0xFu) {
+        return s_bitrateTable[mpegVersion() == 1.0 ? 0 : 1][layer() - 1][bitrateIndex];
     } else {
         return 0;
     }
-- 
2.43.0


From f7feeace12300478925076a957fee320f8ff089d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:52 +0000
Subject: [PATCH 011/172] fix: compute size of MPEG audio frames correctly and
 avoid division by zero

---
 mpegaudio/mpegaudioframe.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/mpegaudio/mpegaudioframe.cpp b/mpegaudio/mpegaudioframe.cpp
index df8a99d..5cdd447 100644
--- a/mpegaudio/mpegaudioframe.cpp
+++ b/mpegaudio/mpegaudioframe.cpp
@@ -207,17 +207,17 @@ std::uint32_t MpegAudioFrame::sampleCount() const
  */
 std::uint32_t MpegAudioFrame::size() const
 {
+    const auto frequency = samplingFrequency();
+    if (!frequency) {
+        return 0;
+    }
+    const auto byteRate = static_cast<std::uint32_t>(bitrate()) * 125u;
     switch (m_header & 0x60000u) {
-    case 0x60000u: // layer 1
-        return static_cast<std::uint32_t>(
-                   ((static_cast<double>(bitrate()) * 1024.0 / 8.0) / static_cast<double>(samplingFrequency())) * static_cast<double>(sampleCount())
-                   + static_cast<double>(paddingSize()))
-            * 4;
+    case 0x60000u: // layer 1 (consists of slots of 4 bytes)
+        return (byteRate * (sampleCount() / 4u) / frequency) * 4u + paddingSize();
     case 0x40000u: // layer 2
     case 0x20000u: // layer 3
-        return static_cast<std::uint32_t>(
-            ((static_cast<double>(bitrate()) * 1024.0 / 8.0) / static_cast<double>(samplingFrequency())) * static_cast<double>(sampleCount())
-            + static_cast<double>(paddingSize()));
+        return static_cast<std::uint32_t>(static_cast<std::uint64_t>(byteRate) * sampleCount() / frequency) + paddingSize();
     default:
         return 0;
     }
-- 
2.43.0


From fd4f5fc883677bd6735b7603242c51e6e8b86306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:52 +0000
Subject: [PATCH 012/172] fix: avoid overflow and division by zero when
 computing the duration of MPEG audio streams

---
 mpegaudio/mpegaudioframestream.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/mpegaudio/mpegaudioframestream.cpp b/mpegaudio/mpegaudioframestream.cpp
index 32d05ba..04c96db 100644
--- a/mpegaudio/mpegaudioframestream.cpp
+++ b/mpegaudio/mpegaudioframestream.cpp
@@ -78,13 +78,17 @@ void MpegAudioFrameStream::internalParseHeader(Diagnostics &diag, AbortableProgr
                 context);
         }
     }
-    if (frame.isXingFramefieldPresent()) {
-        const auto duration = static_cast<double>(frame.xingFrameCount() * frame.sampleCount()) / static_cast<double>(frame.samplingFrequency());
+    if (frame.isXingFramefieldPresent() && frame.xingFrameCount() && frame.sampleCount() && frame.samplingFrequency()) {
+        const auto duration
+            = static_cast<double>(frame.xingFrameCount()) * static_cast<double>(frame.sampleCount()) / static_cast<double>(frame.samplingFrequency());
         m_bitrate = static_cast<double>(m_size) / duration / 125.0;
         m_duration = TimeSpan::fromSeconds(duration);
     } else {
         m_bitrate = frame.bitrate();
-        m_duration = TimeSpan::fromSeconds(static_cast<double>(m_size) / (m_bytesPerSecond = static_cast<std::uint32_t>(m_bitrate * 125)));
+        m_bytesPerSecond = static_cast<std::uint32_t>(m_bitrate * 125);
+        if (m_bytesPerSecond) {
+            m_duration = TimeSpan::fromSeconds(static_cast<double>(m_size) / m_bytesPerSecond);
+        }
     }
 }
 
-- 
2.43.0


From 1aba249d54830651d798b8a58b2755c37ac55606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:52 +0000
Subject: [PATCH 013/172] fix: read size of ADTS frames with all its bits

---
 adts/adtsframe.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/adts/adtsframe.h b/adts/adtsframe.h
index 53ad236..88fce67 100644
--- a/adts/adtsframe.h
+++ b/adts/adtsframe.h
@@ -102,7 +102,7 @@ constexpr std::uint8_t AdtsFrame::mpeg4ChannelConfig() const
  */
 constexpr std::uint16_t AdtsFrame::totalSize() const
 {
-    return static_cast<std::uint8_t>((m_header2 >> 0x1D) & 0x1FFFu);
+    return static_cast<std::uint16_t>((m_header2 >> 0x1D) & 0x1FFFu);
 }
 
 /*!
-- 
2.43.0


From 6548307ac9b51d170921f37864460402b06785b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:52 +0000
Subject: [PATCH 014/172] fix: check index of MPEG-4 sampling frequencies
 against the number of elements of the table

---
 aac/aacframe.cpp           | 6 +++---
 adts/adtsstream.cpp        | 2 +-
 matroska/matroskatrack.cpp | 4 ++--
 mp4/mp4track.cpp           | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/aac/aacframe.cpp b/aac/aacframe.cpp
index 62120b0..6913225 100644
--- a/aac/aacframe.cpp
+++ b/aac/aacframe.cpp
@@ -1297,12 +1297,12 @@ void AacFrameElementParser::parseSbrChannelPairElement(std::shared_ptr<AacSbrInf
 
 shared_ptr<AacSbrInfo> AacFrameElementParser::makeSbrInfo(std::uint8_t sbrElement, bool isDrm)
 {
-    if (m_mpeg4ExtensionSamplingFrequencyIndex >= sizeof(mpeg4SamplingFrequencyTable)
-        && m_mpeg4SamplingFrequencyIndex >= sizeof(mpeg4SamplingFrequencyTable)) {
+    if (m_mpeg4ExtensionSamplingFrequencyIndex >= sizeof(mpeg4SamplingFrequencyTable) / sizeof(*mpeg4SamplingFrequencyTable)
+        && m_mpeg4SamplingFrequencyIndex >= sizeof(mpeg4SamplingFrequencyTable) / sizeof(*mpeg4SamplingFrequencyTable)) {
         throw InvalidDataException(); // sampling frequency index is invalid
     }
     return make_shared<AacSbrInfo>(m_elementId[sbrElement],
-        m_mpeg4ExtensionSamplingFrequencyIndex < sizeof(mpeg4SamplingFrequencyTable)
+        m_mpeg4ExtensionSamplingFrequencyIndex < sizeof(mpeg4SamplingFrequencyTable) / sizeof(*mpeg4SamplingFrequencyTable)
             ? mpeg4SamplingFrequencyTable[m_mpeg4ExtensionSamplingFrequencyIndex]
             : mpeg4SamplingFrequencyTable[m_mpeg4SamplingFrequencyIndex] * 2,
         m_frameLength, isDrm);
diff --git a/adts/adtsstream.cpp b/adts/adtsstream.cpp
index 405fbda..c9c6466 100644
--- a/adts/adtsstream.cpp
+++ b/adts/adtsstream.cpp
@@ -30,7 +30,7 @@ void AdtsStream::internalParseHeader(Diagnostics &diag, AbortableProgressFeedbac
     m_format = Mpeg4AudioObjectIds::idToMediaFormat(m_firstFrame.mpeg4AudioObjectId());
     m_channelCount = Mpeg4ChannelConfigs::channelCount(m_channelConfig = m_firstFrame.mpeg4ChannelConfig());
     std::uint8_t sampleRateIndex = m_firstFrame.mpeg4SamplingFrequencyIndex();
-    m_samplingFrequency = sampleRateIndex < sizeof(mpeg4SamplingFrequencyTable) ? mpeg4SamplingFrequencyTable[sampleRateIndex] : 0;
+    m_samplingFrequency = sampleRateIndex < sizeof(mpeg4SamplingFrequencyTable) / sizeof(*mpeg4SamplingFrequencyTable) ? mpeg4SamplingFrequencyTable[sampleRateIndex] : 0;
 }
 
 } // namespace TagParser
diff --git a/matroska/matroskatrack.cpp b/matroska/matroskatrack.cpp
index 74beeb4..30571df 100644
--- a/matroska/matroskatrack.cpp
+++ b/matroska/matroskatrack.cpp
@@ -491,14 +491,14 @@ void MatroskaTrack::internalParseHeader(Diagnostics &diag, AbortableProgressFeed
                 audioSpecificConfig->audioObjectType, audioSpecificConfig->sbrPresent, audioSpecificConfig->psPresent);
             if (audioSpecificConfig->sampleFrequencyIndex == 0xF) {
                 //m_samplingFrequency = audioSpecificConfig->sampleFrequency;
-            } else if (audioSpecificConfig->sampleFrequencyIndex < sizeof(mpeg4SamplingFrequencyTable)) {
+            } else if (audioSpecificConfig->sampleFrequencyIndex < sizeof(mpeg4SamplingFrequencyTable) / sizeof(*mpeg4SamplingFrequencyTable)) {
                 //m_samplingFrequency = mpeg4SamplingFrequencyTable[audioSpecificConfig->sampleFrequencyIndex];
             } else {
                 diag.emplace_back(DiagLevel::Warning, "Audio specific config has invalid sample frequency index.", context);
             }
             if (audioSpecificConfig->extensionSampleFrequencyIndex == 0xF) {
                 //m_extensionSamplingFrequency = audioSpecificConfig->extensionSampleFrequency;
-            } else if (audioSpecificConfig->extensionSampleFrequencyIndex < sizeof(mpeg4SamplingFrequencyTable)) {
+            } else if (audioSpecificConfig->extensionSampleFrequencyIndex < sizeof(mpeg4SamplingFrequencyTable) / sizeof(*mpeg4SamplingFrequencyTable)) {
                 //m_extensionSamplingFrequency = mpeg4SamplingFrequencyTable[audioSpecificConfig->extensionSampleFrequencyIndex];
             } else {
                 diag.emplace_back(DiagLevel::Warning, "Audio specific config has invalid extension sample frequency index.", context);
diff --git a/mp4/mp4track.cpp b/mp4/mp4track.cpp
index 8a77edd..59161ff 100644
--- a/mp4/mp4track.cpp
+++ b/mp4/mp4track.cpp
@@ -1892,14 +1892,14 @@ void Mp4Track::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
                                     m_esInfo->audioSpecificConfig->sbrPresent, m_esInfo->audioSpecificConfig->psPresent);
                                 if (m_esInfo->audioSpecificConfig->sampleFrequencyIndex == 0xF) {
                                     m_samplingFrequency = m_esInfo->audioSpecificConfig->sampleFrequency;
-                                } else if (m_esInfo->audioSpecificConfig->sampleFrequencyIndex < sizeof(mpeg4SamplingFrequencyTable)) {
+                                } else if (m_esInfo->audioSpecificConfig->sampleFrequencyIndex < sizeof(mpeg4SamplingFrequencyTable) / sizeof(*mpeg4SamplingFrequencyTable)) {
                                     m_samplingFrequency = mpeg4SamplingFrequencyTable[m_esInfo->audioSpecificConfig->sampleFrequencyIndex];
                                 } else {
                                     diag.emplace_back(DiagLevel::Warning, "Audio specific config has invalid sample frequency index.", context);
                                 }
                                 if (m_esInfo->audioSpecificConfig->extensionSampleFrequencyIndex == 0xF) {
                                     m_extensionSamplingFrequency = m_esInfo->audioSpecificConfig->extensionSampleFrequency;
-                                } else if (m_esInfo->audioSpecificConfig->extensionSampleFrequencyIndex < sizeof(mpeg4SamplingFrequencyTable)) {
+                                } else if (m_esInfo->audioSpecificConfig->extensionSampleFrequencyIndex < sizeof(mpeg4SamplingFrequencyTable) / sizeof(*mpeg4SamplingFrequencyTable)) {
                                     m_extensionSamplingFrequency
                                         = mpeg4SamplingFrequencyTable[m_esInfo->audioSpecificConfig->extensionSampleFrequencyIndex];
                                 } else {
-- 
2.43.0


From 29c245c22b0a5c0564eb7b3097d7f1dee245b1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:15 +0000
Subject: [PATCH 015/172] fix: preserve all data after ID3v2 tags when editing
 small files of unknown format

---
 mediafileinfo.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mediafileinfo.cpp b/mediafileinfo.cpp
index cb56aa9..ba82b46 100644
--- a/mediafileinfo.cpp
+++ b/mediafileinfo.cpp
@@ -303,7 +303,9 @@ startParsingSignature:
     // set parsing status
     if (m_containerParsingStatus == ParsingStatus::NotParsedYet) {
         if (m_containerFormat == ContainerFormat::Unknown) {
+            // do not consider anything besides ID3v2 tags as skippable if the format is unknown
             m_containerParsingStatus = ParsingStatus::NotSupported;
+            m_containerOffset = id3v2Size;
         } else {
             m_containerParsingStatus = ParsingStatus::Ok;
         }
-- 
2.43.0


From f248f26bb736880b33382362dc4978537b62fe79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:45 +0000
Subject: [PATCH 016/172] fix: report new file size after adding an ID3v1 tag

---
 mediafileinfo.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mediafileinfo.cpp b/mediafileinfo.cpp
index ba82b46..ea32087 100644
--- a/mediafileinfo.cpp
+++ b/mediafileinfo.cpp
@@ -1708,6 +1708,8 @@ void MediaFileInfo::makeMp3File(Diagnostics &diag, AbortableProgressFeedback &pr
             }
             // prevent deferring final write operations (to catch and handle possible errors here)
             stream().flush();
+            // report new size
+            reportSizeChanged(static_cast<std::uint64_t>(stream().tellp()));
         }
         return;
     }
-- 
2.43.0


From b260a70b494c5d728a332567ce2cbb4bdd2e407b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:03 +0000
Subject: [PATCH 017/172] fix: write no genre instead of "Blues" into ID3v1
 tags if the genre is not supported

---
 id3/id3v1tag.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/id3/id3v1tag.cpp b/id3/id3v1tag.cpp
index 1d747e2..c6112b4 100644
--- a/id3/id3v1tag.cpp
+++ b/id3/id3v1tag.cpp
@@ -112,7 +112,7 @@ void Id3v1Tag::make(ostream &stream, Diagnostics &diag)
     // set "default" values for numeric fields
     buffer[0] = 0x0; // empty byte
     buffer[1] = 0x0; // track number
-    buffer[2] = 0x0; // genre
+    buffer[2] = static_cast<char>(Id3Genres::emptyGenreIndex()); // genre
 
     // write track
     if (!m_trackPos.isEmpty()) {
-- 
2.43.0


From c246c1a0378f8137fb52ee99cd2a287e076b6018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:03 +0000
Subject: [PATCH 018/172] fix: do not read beyond the end of ID3v2 frames when
 parsing substrings

---
 id3/id3v2frame.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/id3/id3v2frame.cpp b/id3/id3v2frame.cpp
index df12b8e..4419a66 100644
--- a/id3/id3v2frame.cpp
+++ b/id3/id3v2frame.cpp
@@ -116,7 +116,8 @@ static std::string stringFromSubstring(std::tuple<const char *, std::size_t, con
  */
 static std::u16string wideStringFromSubstring(std::tuple<const char *, std::size_t, const char *> substr, TagTextEncoding encoding)
 {
-    std::u16string res(reinterpret_cast<u16string::const_pointer>(std::get<0>(substr)), std::get<1>(substr) / 2);
+    auto res = std::u16string(std::get<1>(substr) / 2, u'\0');
+    std::memcpy(res.data(), std::get<0>(substr), res.size() * 2);
     TagValue::ensureHostByteOrder(res, encoding);
     return res;
 }
@@ -932,8 +933,11 @@ tuple<const char *, size_t, const char *> Id3v2Frame::parseSubstring(
             get<0>(res) += 3;
         }
         const char *pos = get<0>(res);
-        for (; *pos != 0x00; ++pos) {
+        for (;; ++pos) {
             if (pos < get<2>(res)) {
+                if (*pos == 0x00) {
+                    break;
+                }
                 ++get<1>(res);
             } else {
                 if (addWarnings) {
@@ -964,9 +968,12 @@ tuple<const char *, size_t, const char *> Id3v2Frame::parseSubstring(
                 get<0>(res) += 2;
             }
         }
-        const std::uint16_t *pos = reinterpret_cast<const std::uint16_t *>(get<0>(res));
-        for (; *pos != 0x0000; ++pos) {
-            if (pos < reinterpret_cast<const std::uint16_t *>(get<2>(res))) {
+        const char *pos = get<0>(res);
+        for (;; pos += 2) {
+            if (get<2>(res) - pos >= 2) {
+                if (!pos[0] && !pos[1]) {
+                    break;
+                }
                 get<1>(res) += 2;
             } else {
                 if (addWarnings) {
@@ -976,7 +983,7 @@ tuple<const char *, size_t, const char *> Id3v2Frame::parseSubstring(
                 break;
             }
         }
-        get<2>(res) = reinterpret_cast<const char *>(pos + 1);
+        get<2>(res) = pos + 2;
         break;
     }
     }
-- 
2.43.0


From f491c54d6cb6c665d4203e13183f28cc2d31a5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:07 +0000
Subject: [PATCH 019/172] fix: preserve data before an APE tag at the end of
 small files of unknown format

---
 mediafileinfo.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mediafileinfo.cpp b/mediafileinfo.cpp
index ea32087..cb4daef 100644
--- a/mediafileinfo.cpp
+++ b/mediafileinfo.cpp
@@ -300,12 +300,15 @@ startParsingSignature:
         diag.emplace_back(DiagLevel::Warning, argsToString(bytesSkippedBeforeContainer, " bytes of junk skipped"), context);
     }
 
+    // do not consider anything besides ID3v2 tags as skippable if the format is unknown
+    if (m_containerFormat == ContainerFormat::Unknown || m_containerFormat == ContainerFormat::ApeTag) {
+        m_containerOffset = id3v2Size;
+    }
+
     // set parsing status
     if (m_containerParsingStatus == ParsingStatus::NotParsedYet) {
         if (m_containerFormat == ContainerFormat::Unknown) {
-            // do not consider anything besides ID3v2 tags as skippable if the format is unknown
             m_containerParsingStatus = ParsingStatus::NotSupported;
-            m_containerOffset = id3v2Size;
         } else {
             m_containerParsingStatus = ParsingStatus::Ok;
         }
-- 
2.43.0


From eb6837eb9b4f1cb233e4d31545397ec2bc307145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:17 +0000
Subject: [PATCH 020/172] fix: preserve all data after ID3v2 tags when editing
 files of formats without special handling

---
 mediafileinfo.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/mediafileinfo.cpp b/mediafileinfo.cpp
index cb4daef..f4a4fbd 100644
--- a/mediafileinfo.cpp
+++ b/mediafileinfo.cpp
@@ -300,8 +300,21 @@ startParsingSignature:
         diag.emplace_back(DiagLevel::Warning, argsToString(bytesSkippedBeforeContainer, " bytes of junk skipped"), context);
     }
 
-    // do not consider anything besides ID3v2 tags as skippable if the format is unknown
-    if (m_containerFormat == ContainerFormat::Unknown || m_containerFormat == ContainerFormat::ApeTag) {
+    // do not consider anything besides ID3v2 tags as skippable unless the format is one of those which are actually handled
+    switch (m_containerFormat) {
+    case ContainerFormat::Adts:
+    case ContainerFormat::Ebml:
+    case ContainerFormat::Flac:
+    case ContainerFormat::Ivf:
+    case ContainerFormat::Matroska:
+    case ContainerFormat::Mp4:
+    case ContainerFormat::MpegAudioFrames:
+    case ContainerFormat::Ogg:
+    case ContainerFormat::QuickTime:
+    case ContainerFormat::RiffWave:
+    case ContainerFormat::Webm:
+        break;
+    default:
         m_containerOffset = id3v2Size;
     }
 
-- 
2.43.0


From 8d39b96b06770e901a8ef8d7dd4929f8b38b56cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:17 +0000
Subject: [PATCH 021/172] fix: avoid underflow when saving a file with the
 media data starting within the ID3v1 tag

---
 mediafileinfo.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mediafileinfo.cpp b/mediafileinfo.cpp
index f4a4fbd..1fda416 100644
--- a/mediafileinfo.cpp
+++ b/mediafileinfo.cpp
@@ -1760,6 +1760,11 @@ void MediaFileInfo::makeMp3File(Diagnostics &diag, AbortableProgressFeedback &pr
         // make no further metadata, just use the container offset as stream offset
         streamOffset = static_cast<std::uint32_t>(m_containerOffset);
     }
+    // ensure the stream does not start within the ID3v1 tag (in case the signature of the format has only been found there)
+    if (const auto id3v1Size = (m_fileStructureFlags & MediaFileStructureFlags::ActualExistingId3v1Tag) ? std::uint64_t(128) : std::uint64_t();
+        streamOffset > size() - id3v1Size) {
+        streamOffset = static_cast<std::uint32_t>(size() - id3v1Size);
+    }
 
     // check whether rewrite is required
     auto rewriteRequired = isForcingRewrite() || !m_saveFilePath.empty() || (tagsSize > streamOffset);
-- 
2.43.0


From c21ffbea1dfdd009fd31d7bf56273ea77b9c4e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:56 +0000
Subject: [PATCH 022/172] fix: use a strict weak ordering for the fields of an
 ID3v2 tag

---
 id3/id3v2tag.cpp | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/id3/id3v2tag.cpp b/id3/id3v2tag.cpp
index f90071f..d5d1ab5 100644
--- a/id3/id3v2tag.cpp
+++ b/id3/id3v2tag.cpp
@@ -709,25 +709,20 @@ void Id3v2Tag::setVersion(std::uint8_t majorVersion, std::uint8_t revisionVersio
  */
 bool FrameComparer::operator()(std::uint32_t lhs, std::uint32_t rhs) const
 {
-    if (lhs == rhs) {
-        return false;
+    // compare via the long ID if possible so an ID is always treated the same no matter what it is compared with
+    if (Id3v2FrameIds::isShortId(lhs)) {
+        if (const auto longId = Id3v2FrameIds::convertToLongId(lhs)) {
+            lhs = longId;
+        }
     }
-
-    const bool lhsLong = Id3v2FrameIds::isLongId(lhs);
-    const bool rhsLong = Id3v2FrameIds::isLongId(rhs);
-    if (lhsLong != rhsLong) {
-        if (!lhsLong) {
-            lhs = Id3v2FrameIds::convertToLongId(lhs);
-            if (!lhs) {
-                return true;
-            }
-        } else if (!rhsLong) {
-            rhs = Id3v2FrameIds::convertToLongId(rhs);
-            if (!rhs) {
-                return true;
-            }
+    if (Id3v2FrameIds::isShortId(rhs)) {
+        if (const auto longId = Id3v2FrameIds::convertToLongId(rhs)) {
+            rhs = longId;
         }
     }
+    if (lhs == rhs) {
+        return false;
+    }
 
     if (lhs == Id3v2FrameIds::lUniqueFileId || lhs == Id3v2FrameIds::sUniqueFileId) {
         return true;
-- 
2.43.0


From 9f1647c6a8adac783a559a3f60c44cc5e1e48f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:56 +0000
Subject: [PATCH 023/172] fix: convert IDs of composer, unique file ID and
 synchronized lyrics frames between ID3v2 versions

---
 id3/id3v2frameids.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/id3/id3v2frameids.cpp b/id3/id3v2frameids.cpp
index 9afb674..1cd05f2 100644
--- a/id3/id3v2frameids.cpp
+++ b/id3/id3v2frameids.cpp
@@ -77,6 +77,12 @@ std::uint32_t convertToShortId(std::uint32_t id)
         return sRecordLabel;
     case lUserDefinedText:
         return sUserDefinedText;
+    case lComposer:
+        return sComposer;
+    case lUniqueFileId:
+        return sUniqueFileId;
+    case lSynchronizedLyrics:
+        return sSynchronizedLyrics;
     case lRemixedBy:
         return sRemixedBy;
     case lCopyright:
@@ -167,6 +173,12 @@ std::uint32_t convertToLongId(std::uint32_t id)
         return lRecordLabel;
     case sUserDefinedText:
         return lUserDefinedText;
+    case sComposer:
+        return lComposer;
+    case sUniqueFileId:
+        return lUniqueFileId;
+    case sSynchronizedLyrics:
+        return lSynchronizedLyrics;
     case sRemixedBy:
         return lRemixedBy;
     case sCopyright:
-- 
2.43.0


From e1ee22baf5a751a11854328a483e9840bbaee330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:56 +0000
Subject: [PATCH 024/172] fix: avoid integer overflow when parsing the index of
 the genre in ID3v2 tags

---
 id3/id3v2frame.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/id3/id3v2frame.cpp b/id3/id3v2frame.cpp
index 4419a66..d8b3e76 100644
--- a/id3/id3v2frame.cpp
+++ b/id3/id3v2frame.cpp
@@ -92,7 +92,7 @@ template <class stringtype> static int parseGenreIndex(const stringtype &denotat
             case '\0':
                 return index;
             default:
-                if (c >= '0' && c <= '9') {
+                if (c >= '0' && c <= '9' && index < 1000) {
                     index = index * 10 + c - '0';
                 } else {
                     return -1;
-- 
2.43.0


From cfaaef8508d88b7589ea638c72a93106deb23a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:56 +0000
Subject: [PATCH 025/172] fix: read the last character of URLs in ID3v2 tags

---
 id3/id3v2frame.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/id3/id3v2frame.cpp b/id3/id3v2frame.cpp
index d8b3e76..2156ecc 100644
--- a/id3/id3v2frame.cpp
+++ b/id3/id3v2frame.cpp
@@ -279,13 +279,14 @@ void Id3v2Frame::parse(BinaryReader &reader, std::uint32_t version, std::uint32_
         auto dataEncoding = isTextFrame ? parseTextEncodingByte(static_cast<std::uint8_t>(*(currentOffset++)), diag) : TagTextEncoding::Latin1;
 
         // parse string values (since ID3v2.4 a text frame may contain multiple strings)
-        for (size_t currentIndex = 1; currentIndex < m_dataSize;) {
+        const auto startIndex = static_cast<std::size_t>(currentOffset - buffer.get());
+        for (auto currentIndex = startIndex; currentIndex < m_dataSize;) {
             // determine the next substring
             const auto substr(parseSubstring(currentOffset, m_dataSize - currentIndex, dataEncoding, false, diag));
 
             // handle case when string is empty
             if (!get<1>(substr)) {
-                if (currentIndex == 1) {
+                if (currentIndex == startIndex) {
                     value().clearDataAndMetadata();
                 }
                 currentIndex = static_cast<size_t>(get<2>(substr) - buffer.get());
-- 
2.43.0


From 67428c397f8f3b2e798550837300b2ba8b090d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:56 +0000
Subject: [PATCH 026/172] fix: check range of the length in ID3v2 tags and read
 all its values

---
 id3/id3v2frame.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/id3/id3v2frame.cpp b/id3/id3v2frame.cpp
index 2156ecc..cd93fc9 100644
--- a/id3/id3v2frame.cpp
+++ b/id3/id3v2frame.cpp
@@ -322,16 +322,19 @@ void Id3v2Frame::parse(BinaryReader &reader, std::uint32_t version, std::uint32_
                 try {
                     const auto milliseconds = [&] {
                         if (dataEncoding == TagTextEncoding::Utf16BigEndian || dataEncoding == TagTextEncoding::Utf16LittleEndian) {
-                            const auto parsedStringRef = parseSubstring(buffer.get() + 1, m_dataSize - 1, dataEncoding, false, diag);
                             const auto convertedStringData = dataEncoding == TagTextEncoding::Utf16BigEndian
-                                ? convertUtf16BEToUtf8(get<0>(parsedStringRef), get<1>(parsedStringRef))
-                                : convertUtf16LEToUtf8(get<0>(parsedStringRef), get<1>(parsedStringRef));
+                                ? convertUtf16BEToUtf8(get<0>(substr), get<1>(substr))
+                                : convertUtf16LEToUtf8(get<0>(substr), get<1>(substr));
                             return string(convertedStringData.first.get(), convertedStringData.second);
                         } else { // Latin-1 or UTF-8
                             return stringFromSubstring(substr);
                         }
                     }();
-                    value->assignTimeSpan(TimeSpan::fromMilliseconds(stringToNumber<double>(milliseconds)));
+                    const auto parsedMilliseconds = stringToNumber<double>(milliseconds);
+                    if (!(parsedMilliseconds >= 0.0 && parsedMilliseconds < 9e14)) {
+                        throw ConversionException("length is not in the supported range");
+                    }
+                    value->assignTimeSpan(TimeSpan::fromMilliseconds(parsedMilliseconds));
                 } catch (const ConversionException &) {
                     diag.emplace_back(DiagLevel::Warning, "The value of the length frame is not numeric and will be ignored.", context);
                 }
-- 
2.43.0


From c0b757543668aff62ec357e2fd5f41e10313d08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:18 +0000
Subject: [PATCH 027/172] fix: avoid cutting off UTF-16 descriptions in ID3v2
 tags within a character

---
 id3/id3v2frame.cpp | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/id3/id3v2frame.cpp b/id3/id3v2frame.cpp
index cd93fc9..ee2d637 100644
--- a/id3/id3v2frame.cpp
+++ b/id3/id3v2frame.cpp
@@ -1149,6 +1149,21 @@ size_t Id3v2Frame::makeBom(char *buffer, TagTextEncoding encoding)
     }
 }
 
+/*!
+ * \brief Returns the size of the specified \a description up to the first termination (which spans two bytes in case of UTF-16).
+ */
+static std::size_t descriptionSizeWithoutTermination(const std::string &description, TagTextEncoding encoding)
+{
+    if (encoding != TagTextEncoding::Utf16BigEndian && encoding != TagTextEncoding::Utf16LittleEndian) {
+        return std::min(description.find('\0'), description.size());
+    }
+    auto size = std::size_t();
+    while (size + 1 < description.size() && (description[size] || description[size + 1])) {
+        size += 2;
+    }
+    return size;
+}
+
 /*!
  * \brief Writes the specified picture to the specified buffer (ID3v2.2 compatible).
  */
@@ -1158,11 +1173,7 @@ void Id3v2Frame::makeLegacyPicture(
     // determine description
     TagTextEncoding descriptionEncoding = picture.descriptionEncoding();
     StringData convertedDescription;
-    string::size_type descriptionSize = picture.description().find(
-        "\0\0", 0, descriptionEncoding == TagTextEncoding::Utf16BigEndian || descriptionEncoding == TagTextEncoding::Utf16LittleEndian ? 2 : 1);
-    if (descriptionSize == string::npos) {
-        descriptionSize = picture.description().size();
-    }
+    auto descriptionSize = descriptionSizeWithoutTermination(picture.description(), descriptionEncoding);
     if (descriptionEncoding == TagTextEncoding::Utf8) {
         // UTF-8 is only supported by ID3v2.4, so convert back to UTF-16
         descriptionEncoding = TagTextEncoding::Utf16LittleEndian;
@@ -1233,11 +1244,7 @@ void Id3v2Frame::makePicture(std::unique_ptr<char[]> &buffer, std::uint32_t &buf
     // determine description
     TagTextEncoding descriptionEncoding = picture.descriptionEncoding();
     StringData convertedDescription;
-    string::size_type descriptionSize = picture.description().find(
-        "\0\0", 0, descriptionEncoding == TagTextEncoding::Utf16BigEndian || descriptionEncoding == TagTextEncoding::Utf16LittleEndian ? 2 : 1);
-    if (descriptionSize == string::npos) {
-        descriptionSize = picture.description().size();
-    }
+    auto descriptionSize = descriptionSizeWithoutTermination(picture.description(), descriptionEncoding);
     if (version < 4 && descriptionEncoding == TagTextEncoding::Utf8) {
         // UTF-8 is only supported by ID3v2.4, so convert back to UTF-16
         descriptionEncoding = TagTextEncoding::Utf16LittleEndian;
@@ -1307,11 +1314,7 @@ void Id3v2Frame::makeComment(unique_ptr<char[]> &buffer, std::uint32_t &bufferSi
         throw InvalidDataException();
     }
     StringData convertedDescription;
-    string::size_type descriptionSize = comment.description().find(
-        "\0\0", 0, encoding == TagTextEncoding::Utf16BigEndian || encoding == TagTextEncoding::Utf16LittleEndian ? 2 : 1);
-    if (descriptionSize == string::npos) {
-        descriptionSize = comment.description().size();
-    }
+    auto descriptionSize = descriptionSizeWithoutTermination(comment.description(), encoding);
     if (version < 4 && encoding == TagTextEncoding::Utf8) {
         // UTF-8 is only supported by ID3v2.4, so convert back to UTF-16
         encoding = TagTextEncoding::Utf16LittleEndian;
-- 
2.43.0


From 03e8400832ed455ef0c882d3c241c9e6c1583eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:18 +0000
Subject: [PATCH 028/172] fix: avoid trailing garbage in comment and lyrics
 frames of ID3v2 tags

---
 id3/id3v2frame.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/id3/id3v2frame.cpp b/id3/id3v2frame.cpp
index ee2d637..e115273 100644
--- a/id3/id3v2frame.cpp
+++ b/id3/id3v2frame.cpp
@@ -1326,7 +1326,7 @@ void Id3v2Frame::makeComment(unique_ptr<char[]> &buffer, std::uint32_t &bufferSi
     // note: encoding byte + language + description size + actual data size + BOMs and termination
     const auto data = comment.toString(encoding);
     const auto requiredBufferSize = 1 + 3 + descriptionSize + data.size()
-        + (encoding == TagTextEncoding::Utf16BigEndian || encoding == TagTextEncoding::Utf16LittleEndian ? 6 : 1) + data.size();
+        + (encoding == TagTextEncoding::Utf16BigEndian || encoding == TagTextEncoding::Utf16LittleEndian ? 6 : 1);
     if (requiredBufferSize > numeric_limits<uint32_t>::max()) {
         diag.emplace_back(DiagLevel::Critical, "Required size exceeds maximum.", context);
         throw InvalidDataException();
-- 
2.43.0


From 1999784bca57c5e1a0444d36475f41749839ce9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:18 +0000
Subject: [PATCH 029/172] fix: read MIME type of pictures in ID3v2.2 tags

---
 id3/id3v2frame.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/id3/id3v2frame.cpp b/id3/id3v2frame.cpp
index e115273..40bfe4d 100644
--- a/id3/id3v2frame.cpp
+++ b/id3/id3v2frame.cpp
@@ -1058,6 +1058,16 @@ void Id3v2Frame::parseLegacyPicture(const char *buffer, std::size_t maxSize, Tag
     }
     const char *end = buffer + maxSize;
     auto dataEncoding = parseTextEncodingByte(static_cast<std::uint8_t>(*buffer), diag); // the first byte stores the encoding
+    const auto imageFormat = std::string_view(buffer + 1, 3);
+    if (imageFormat == "JPG") {
+        tagValue.setMimeType("image/jpeg");
+    } else if (imageFormat == "PNG") {
+        tagValue.setMimeType("image/png");
+    } else if (imageFormat == "GIF") {
+        tagValue.setMimeType("image/gif");
+    } else if (imageFormat == "-->") {
+        tagValue.setMimeType(imageFormat);
+    }
     typeInfo = static_cast<unsigned char>(*(buffer + 4));
     auto substr = parseSubstring(buffer + 5, static_cast<size_t>(end - 5 - buffer), dataEncoding, true, diag);
     tagValue.setDescription(string(get<0>(substr), get<1>(substr)), dataEncoding);
-- 
2.43.0


From adfb222bae9aa525367da82ce1965408626e96e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:04 +0000
Subject: [PATCH 030/172] fix: handle flags and additional header data of ID3v2
 frames according to the version

---
 id3/id3v2frame.cpp | 84 +++++++++++++++++++++++++++++++++++-----------
 id3/id3v2frame.h   |  6 ++--
 2 files changed, 68 insertions(+), 22 deletions(-)

diff --git a/id3/id3v2frame.cpp b/id3/id3v2frame.cpp
index 40bfe4d..da2ed53 100644
--- a/id3/id3v2frame.cpp
+++ b/id3/id3v2frame.cpp
@@ -11,6 +11,7 @@
 #include <zlib.h>
 
 #include <algorithm>
+#include <array>
 #include <cstdint>
 #include <cstring>
 #include <limits>
@@ -155,6 +156,7 @@ void Id3v2Frame::parse(BinaryReader &reader, std::uint32_t version, std::uint32_
     string context;
 
     // parse header
+    m_parsedVersion = version;
     if (version < 3) {
         // parse header for ID3v2.1 and ID3v2.2
         // -> read ID
@@ -200,14 +202,14 @@ void Id3v2Frame::parse(BinaryReader &reader, std::uint32_t version, std::uint32_
         // -> read size, check whether frame is truncated
         m_dataSize = version >= 4 ? reader.readSynchsafeUInt32BE() : reader.readUInt32BE();
         m_totalSize = m_dataSize + 10;
-        if (m_totalSize > maximalSize) {
+        if (m_totalSize < 10 || m_totalSize > maximalSize) {
+            m_totalSize = maximalSize;
             diag.emplace_back(DiagLevel::Warning, "The frame is truncated and will be ignored.", context);
             throw TruncatedDataException();
         }
 
-        // -> read flags and group
+        // -> read flags
         m_flag = reader.readUInt16BE();
-        m_group = hasGroupInformation() ? reader.readByte() : 0;
         if (isEncrypted()) {
             // encryption is not implemented
             diag.emplace_back(DiagLevel::Critical, "Encrypted frames aren't supported.", context);
@@ -230,14 +232,32 @@ void Id3v2Frame::parse(BinaryReader &reader, std::uint32_t version, std::uint32_
         throw InvalidDataException();
     }
 
+    // read the additional information (which counts as part of the frame's data) present according to the flags
+    const auto hasSizeField = isCompressed() || hasDataLengthIndicator();
+    const auto additionalSize = (hasGroupInformation() ? 1u : 0u) + (hasSizeField ? 4u : 0u);
+    if (m_dataSize <= additionalSize) {
+        diag.emplace_back(DiagLevel::Critical, "The frame is too small to contain the information denoted by its flags.", context);
+        throw InvalidDataException();
+    }
+    m_dataSize -= additionalSize;
+    m_group = 0;
+    auto decompressedSize = uLongf();
+    if (version >= 4) {
+        m_group = hasGroupInformation() ? reader.readByte() : 0;
+        decompressedSize = hasSizeField ? reader.readSynchsafeUInt32BE() : 0;
+    } else {
+        decompressedSize = hasSizeField ? reader.readUInt32BE() : 0;
+        m_group = hasGroupInformation() ? reader.readByte() : 0;
+    }
+
     // parse the data
     unique_ptr<char[]> buffer;
 
     // -> decompress data if compressed; otherwise just read it
     if (isCompressed()) {
-        uLongf decompressedSize = version >= 4 ? reader.readSynchsafeUInt32BE() : reader.readUInt32BE();
-        if (decompressedSize < m_dataSize) {
-            diag.emplace_back(DiagLevel::Critical, "The decompressed size is smaller than the compressed size.", context);
+        // note: The compression ratio of zlib cannot exceed 1032:1.
+        if (decompressedSize > static_cast<std::uint64_t>(m_dataSize) * 1032u) {
+            diag.emplace_back(DiagLevel::Critical, "The decompressed size exceeds the maximum for the present compressed data.", context);
             throw InvalidDataException();
         }
         const auto bufferCompressed = make_unique<char[]>(m_dataSize);
@@ -264,7 +284,10 @@ void Id3v2Frame::parse(BinaryReader &reader, std::uint32_t version, std::uint32_
             diag.emplace_back(DiagLevel::Critical, "The decompressed data exceeds the maximum supported frame size.", context);
             throw InvalidDataException();
         }
-        m_dataSize = static_cast<std::uint32_t>(decompressedSize);
+        if (!(m_dataSize = static_cast<std::uint32_t>(decompressedSize))) {
+            diag.emplace_back(DiagLevel::Warning, "The decompressed size is 0.", context);
+            throw InvalidDataException();
+        }
     } else {
         buffer = make_unique<char[]>(m_dataSize);
         reader.read(buffer.get(), m_dataSize);
@@ -823,12 +846,31 @@ Id3v2FrameMaker::Id3v2FrameMaker(Id3v2Frame &frame, std::uint8_t version, Diagno
             m_requiredSize += 1;
         }
         // -> decompressed size
-        if (version >= 3 && m_frame.isCompressed()) {
+        if (m_frame.isCompressed()) {
             m_requiredSize += 4;
         }
     }
 }
 
+/*!
+ * \brief Returns the flags to be written for the specified \a frame when making a tag of the specified \a version.
+ * \remarks The flags of the frame are stored the way they have been parsed but the position of the flags differs between versions.
+ */
+static std::uint16_t makeFlags(const Id3v2Frame &frame, std::uint8_t version)
+{
+    const auto flags = version >= 4 ? std::array<std::uint16_t, 5>{ 0x4000, 0x2000, 0x1000, 0x0040, 0x0008 | 0x0001 }
+                                    : std::array<std::uint16_t, 5>{ 0x8000, 0x4000, 0x2000, 0x0020, 0x0080 };
+    const auto isSet = std::array<bool, 5>{ frame.toDiscardWhenUnknownAndTagIsAltered(), frame.toDiscardWhenUnknownAndFileIsAltered(),
+        frame.isReadOnly(), frame.hasGroupInformation(), frame.isCompressed() };
+    auto res = std::uint16_t();
+    for (auto i = std::size_t(); i != flags.size(); ++i) {
+        if (isSet[i]) {
+            res |= flags[i];
+        }
+    }
+    return res;
+}
+
 /*!
  * \brief Saves the frame (specified when constructing the object) using
  *        the specified \a writer.
@@ -842,22 +884,26 @@ void Id3v2FrameMaker::make(BinaryWriter &writer)
         writer.writeUInt24BE(m_frameId);
         writer.writeUInt24BE(m_dataSize);
     } else {
+        // note: The group and the decompressed size are part of the header but count as data.
         writer.writeUInt32BE(m_frameId);
         if (m_version >= 4) {
-            writer.writeSynchsafeUInt32BE(m_dataSize);
-        } else {
-            writer.writeUInt32BE(m_dataSize);
-        }
-        writer.writeUInt16BE(m_frame.flag());
-        if (m_frame.hasGroupInformation()) {
-            writer.writeByte(m_frame.group());
-        }
-        if (m_version >= 3 && m_frame.isCompressed()) {
-            if (m_version >= 4) {
+            writer.writeSynchsafeUInt32BE(m_requiredSize - 10);
+            writer.writeUInt16BE(makeFlags(m_frame, m_version));
+            if (m_frame.hasGroupInformation()) {
+                writer.writeByte(m_frame.group());
+            }
+            if (m_frame.isCompressed()) {
                 writer.writeSynchsafeUInt32BE(m_decompressedSize);
-            } else {
+            }
+        } else {
+            writer.writeUInt32BE(m_requiredSize - 10);
+            writer.writeUInt16BE(makeFlags(m_frame, m_version));
+            if (m_frame.isCompressed()) {
                 writer.writeUInt32BE(m_decompressedSize);
             }
+            if (m_frame.hasGroupInformation()) {
+                writer.writeByte(m_frame.group());
+            }
         }
     }
     writer.write(m_data.get(), m_dataSize);
diff --git a/id3/id3v2frame.h b/id3/id3v2frame.h
index 27799aa..178e567 100644
--- a/id3/id3v2frame.h
+++ b/id3/id3v2frame.h
@@ -236,7 +236,7 @@ inline std::uint32_t Id3v2Frame::dataSize() const
  */
 inline bool Id3v2Frame::toDiscardWhenUnknownAndTagIsAltered() const
 {
-    return m_flag & 0x8000;
+    return m_flag & (m_parsedVersion >= 4 ? 0x4000 : 0x8000);
 }
 
 /*!
@@ -244,7 +244,7 @@ inline bool Id3v2Frame::toDiscardWhenUnknownAndTagIsAltered() const
  */
 inline bool Id3v2Frame::toDiscardWhenUnknownAndFileIsAltered() const
 {
-    return m_flag & 0x4000;
+    return m_flag & (m_parsedVersion >= 4 ? 0x2000 : 0x4000);
 }
 
 /*!
@@ -252,7 +252,7 @@ inline bool Id3v2Frame::toDiscardWhenUnknownAndFileIsAltered() const
  */
 inline bool Id3v2Frame::isReadOnly() const
 {
-    return m_flag & 0x2000;
+    return m_flag & (m_parsedVersion >= 4 ? 0x1000 : 0x2000);
 }
 
 /*!
-- 
2.43.0


From 9b546b1c272cdbe50f0668547ba0b5286b5eb93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:04 +0000
Subject: [PATCH 031/172] fix: refuse writing ID3v2 frames and tags exceeding
 the maximum size

---
 id3/id3v2frame.cpp | 6 ++++++
 id3/id3v2tag.cpp   | 8 +++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/id3/id3v2frame.cpp b/id3/id3v2frame.cpp
index da2ed53..5b838f6 100644
--- a/id3/id3v2frame.cpp
+++ b/id3/id3v2frame.cpp
@@ -832,6 +832,12 @@ Id3v2FrameMaker::Id3v2FrameMaker(Id3v2Frame &frame, std::uint8_t version, Diagno
         m_dataSize = m_decompressedSize;
     }
 
+    // check whether the size can be stored
+    if (m_dataSize > (version < 3 ? 0xFFFFFFu : (version < 4 ? maxId3v2FrameDataSize : 0xFFFFFF0u))) {
+        diag.emplace_back(DiagLevel::Critical, "Assigned value exceeds maximum size.", context);
+        throw InvalidDataException();
+    }
+
     // calculate required size
     // -> data size
     m_requiredSize = m_dataSize;
diff --git a/id3/id3v2tag.cpp b/id3/id3v2tag.cpp
index d5d1ab5..30e500f 100644
--- a/id3/id3v2tag.cpp
+++ b/id3/id3v2tag.cpp
@@ -862,17 +862,23 @@ Id3v2TagMaker::Id3v2TagMaker(Id3v2Tag &tag, Diagnostics &diag)
     }
 
     // prepare frames
+    auto framesSize = std::uint64_t();
     m_maker.reserve(tag.fields().size());
     for (auto &pair : tag.fields()) {
         try {
             m_maker.emplace_back(pair.second.prepareMaking(tag.majorVersion(), diag));
-            m_framesSize += m_maker.back().requiredSize();
+            framesSize += m_maker.back().requiredSize();
         } catch (const Failure &) {
         }
     }
 
     // calculate required size
     // -> header + size of frames
+    if (framesSize > 0xFFFFFFFu) {
+        diag.emplace_back(DiagLevel::Critical, "The size of the frames exceeds the maximum size of an ID3v2 tag.", context);
+        throw InvalidDataException();
+    }
+    m_framesSize = static_cast<std::uint32_t>(framesSize);
     m_requiredSize = 10 + m_framesSize;
 }
 
-- 
2.43.0


From b5c36ae6de5905c4f8f498baf78d3699e9019dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:04 +0000
Subject: [PATCH 032/172] fix: avoid denoting unsynchronisation and a footer in
 ID3v2 tags written without

---
 id3/id3v2tag.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/id3/id3v2tag.cpp b/id3/id3v2tag.cpp
index 30e500f..08d3b5c 100644
--- a/id3/id3v2tag.cpp
+++ b/id3/id3v2tag.cpp
@@ -901,8 +901,8 @@ void Id3v2TagMaker::make(std::ostream &stream, std::uint32_t padding, Diagnostic
     // -> version
     writer.writeByte(m_tag.majorVersion());
     writer.writeByte(m_tag.revisionVersion());
-    // -> flags, but without extended header or compression bit set
-    writer.writeByte(m_tag.flags() & 0xBF);
+    // -> flags, but only the experimental flag as the tag is written without unsynchronisation, extended header and footer
+    writer.writeByte(m_tag.majorVersion() >= 3 ? (m_tag.flags() & 0x20) : 0);
     // -> size (excluding header)
     writer.writeSynchsafeUInt32BE(m_framesSize + padding);
 
-- 
2.43.0


From 5ec7168f3c43253bcc7626892e408c26ba3cd18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:04 +0000
Subject: [PATCH 033/172] fix: read footer of ID3v2 tags at the correct
 position

---
 id3/id3v2tag.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/id3/id3v2tag.cpp b/id3/id3v2tag.cpp
index 08d3b5c..d52d25e 100644
--- a/id3/id3v2tag.cpp
+++ b/id3/id3v2tag.cpp
@@ -643,9 +643,10 @@ void Id3v2Tag::parse(istream &stream, const std::uint64_t maximalSize, Diagnosti
     if (!hasFooter()) {
         return;
     }
-    if (maximalSize && m_size + 10 < maximalSize) {
+    if (!maximalSize || m_size + 10 <= maximalSize) {
         // the footer does not provide additional information, just check the signature
-        stream.seekg(static_cast<streamoff>(startOffset + (m_size += 10)));
+        stream.seekg(static_cast<streamoff>(startOffset + m_size));
+        m_size += 10;
         if (reader.readUInt24LE() != 0x494433u) {
             diag.emplace_back(DiagLevel::Critical, "Footer signature is invalid.", context);
         }
-- 
2.43.0


From 32a44947ad388d797cf7b1199c9e4022e6bce1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:04 +0000
Subject: [PATCH 034/172] fix: compute size of extended header of ID3v2.3 tags
 correctly

---
 id3/id3v2tag.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/id3/id3v2tag.cpp b/id3/id3v2tag.cpp
index d52d25e..6542740 100644
--- a/id3/id3v2tag.cpp
+++ b/id3/id3v2tag.cpp
@@ -589,7 +589,11 @@ void Id3v2Tag::parse(istream &stream, const std::uint64_t maximalSize, Diagnosti
             diag.emplace_back(DiagLevel::Critical, "Extended header denoted but not present.", context);
             throw TruncatedDataException();
         }
-        m_extendedHeaderSize = reader.readSynchsafeUInt32BE();
+        // note: The size is a regular integer and does not include itself in versions before 2.4.0.
+        m_extendedHeaderSize = majorVersion >= 4 ? reader.readSynchsafeUInt32BE() : reader.readUInt32BE();
+        if (majorVersion < 4 && m_extendedHeaderSize <= m_sizeExcludingHeader) {
+            m_extendedHeaderSize += 4;
+        }
         if (m_extendedHeaderSize < 6 || m_extendedHeaderSize > m_sizeExcludingHeader || (maximalSize && maximalSize < (10 + m_extendedHeaderSize))) {
             diag.emplace_back(DiagLevel::Critical, "Extended header is invalid/truncated.", context);
             throw TruncatedDataException();
@@ -599,8 +603,8 @@ void Id3v2Tag::parse(istream &stream, const std::uint64_t maximalSize, Diagnosti
 
     // how many bytes remain for frames and padding?
     std::uint32_t bytesRemaining = m_sizeExcludingHeader - m_extendedHeaderSize;
-    if (maximalSize && bytesRemaining > maximalSize) {
-        bytesRemaining = static_cast<std::uint32_t>(maximalSize);
+    if (maximalSize && bytesRemaining > maximalSize - 10 - m_extendedHeaderSize) {
+        bytesRemaining = static_cast<std::uint32_t>(maximalSize - 10 - m_extendedHeaderSize);
         diag.emplace_back(DiagLevel::Critical, "Frames are truncated.", context);
     }
 
-- 
2.43.0


From 2bab88b50ed73050e4455a25e135f99d5b73a45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:05 +0000
Subject: [PATCH 035/172] fix: do not read beyond the end of an ID3v2 tag when
 checking for further frames

---
 id3/id3v2tag.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/id3/id3v2tag.cpp b/id3/id3v2tag.cpp
index 6542740..c90d00a 100644
--- a/id3/id3v2tag.cpp
+++ b/id3/id3v2tag.cpp
@@ -610,7 +610,13 @@ void Id3v2Tag::parse(istream &stream, const std::uint64_t maximalSize, Diagnosti
 
     // read frames
     auto pos = static_cast<std::uint64_t>(stream.tellg());
+    const auto frameHeaderSize = majorVersion < 3 ? 6u : 10u;
     while (bytesRemaining) {
+        // treat remaining bytes as padding if there is not enough space for another frame
+        if (bytesRemaining < frameHeaderSize) {
+            m_paddingSize = bytesRemaining;
+            break;
+        }
         // seek to next frame
         stream.seekg(static_cast<streamoff>(pos));
         // parse frame
@@ -623,7 +629,7 @@ void Id3v2Tag::parse(istream &stream, const std::uint64_t maximalSize, Diagnosti
             fields().emplace(frame.id(), std::move(frame));
         } catch (const NoDataFoundException &) {
             if (frame.hasPaddingReached()) {
-                m_paddingSize = startOffset + m_size - pos;
+                m_paddingSize = bytesRemaining;
                 break;
             }
         } catch (const Failure &) {
-- 
2.43.0


From 0f8e86a94dc8b31ebddfe968a105d5da497ef0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:36 +0000
Subject: [PATCH 036/172] fix: undo unsynchronisation when parsing ID3v2 tags

---
 id3/id3v2frame.cpp | 26 ++++++++++++++++++++++++--
 id3/id3v2frame.h   |  1 +
 id3/id3v2tag.cpp   | 38 +++++++++++++++++++++++++++++---------
 3 files changed, 54 insertions(+), 11 deletions(-)

diff --git a/id3/id3v2frame.cpp b/id3/id3v2frame.cpp
index 5b838f6..f7c1bd0 100644
--- a/id3/id3v2frame.cpp
+++ b/id3/id3v2frame.cpp
@@ -252,6 +252,12 @@ void Id3v2Frame::parse(BinaryReader &reader, std::uint32_t version, std::uint32_
 
     // parse the data
     unique_ptr<char[]> buffer;
+    const auto readData = [&](char *data) {
+        reader.read(data, m_dataSize);
+        if (isUnsynchronized()) {
+            m_dataSize = static_cast<std::uint32_t>(resynchronize(data, m_dataSize));
+        }
+    };
 
     // -> decompress data if compressed; otherwise just read it
     if (isCompressed()) {
@@ -261,7 +267,7 @@ void Id3v2Frame::parse(BinaryReader &reader, std::uint32_t version, std::uint32_
             throw InvalidDataException();
         }
         const auto bufferCompressed = make_unique<char[]>(m_dataSize);
-        reader.read(bufferCompressed.get(), m_dataSize);
+        readData(bufferCompressed.get());
         buffer = make_unique<char[]>(decompressedSize);
         switch (
             uncompress(reinterpret_cast<Bytef *>(buffer.get()), &decompressedSize, reinterpret_cast<Bytef *>(bufferCompressed.get()), m_dataSize)) {
@@ -290,7 +296,7 @@ void Id3v2Frame::parse(BinaryReader &reader, std::uint32_t version, std::uint32_
         }
     } else {
         buffer = make_unique<char[]>(m_dataSize);
-        reader.read(buffer.get(), m_dataSize);
+        readData(buffer.get());
     }
 
     const auto isTextFrame = Id3v2FrameIds::isTextFrame(id());
@@ -939,6 +945,22 @@ TagTextEncoding Id3v2Frame::parseTextEncodingByte(std::uint8_t textEncodingByte,
     }
 }
 
+/*!
+ * \brief Undoes the unsynchronisation scheme within the specified \a data.
+ * \returns Returns the size of the resulting data (which is stored in place).
+ */
+std::size_t Id3v2Frame::resynchronize(char *data, std::size_t size)
+{
+    auto target = std::size_t();
+    for (auto source = std::size_t(); source != size; ++source) {
+        data[target++] = data[source];
+        if (data[source] == '\xFF' && source + 1 != size && !data[source + 1]) {
+            ++source;
+        }
+    }
+    return target;
+}
+
 /*!
  * \brief Returns a text encoding byte for the specified \a textEncoding.
  */
diff --git a/id3/id3v2frame.h b/id3/id3v2frame.h
index 178e567..73ebc65 100644
--- a/id3/id3v2frame.h
+++ b/id3/id3v2frame.h
@@ -142,6 +142,7 @@ public:
 
     static IdentifierType fieldIdFromString(std::string_view idString);
     static std::string fieldIdToString(IdentifierType id);
+    static std::size_t resynchronize(char *data, std::size_t size);
 
 private:
     void internallyClearValue();
diff --git a/id3/id3v2tag.cpp b/id3/id3v2tag.cpp
index c90d00a..54799ac 100644
--- a/id3/id3v2tag.cpp
+++ b/id3/id3v2tag.cpp
@@ -583,33 +583,52 @@ void Id3v2Tag::parse(istream &stream, const std::uint64_t maximalSize, Diagnosti
         throw VersionNotSupportedException();
     }
 
+    // undo unsynchronisation (which is applied to particular frames as of version 2.4.0 and on the whole tag before)
+    auto resynchronizedStream = std::stringstream();
+    auto framesStream = &stream;
+    auto framesMaximalSize = maximalSize;
+    auto framesTotalSize = m_sizeExcludingHeader;
+    if (isUnsynchronisationUsed() && majorVersion < 4) {
+        if (maximalSize && m_sizeExcludingHeader > maximalSize - 10) {
+            framesTotalSize = static_cast<std::uint32_t>(maximalSize - 10);
+            diag.emplace_back(DiagLevel::Critical, "Frames are truncated.", context);
+        }
+        auto data = reader.readString(framesTotalSize);
+        data.resize(Id3v2Frame::resynchronize(data.data(), data.size()));
+        framesTotalSize = static_cast<std::uint32_t>(data.size());
+        framesMaximalSize = 0;
+        resynchronizedStream.exceptions(std::ios_base::badbit | std::ios_base::failbit);
+        resynchronizedStream.str(std::move(data));
+        reader.setStream(framesStream = &resynchronizedStream);
+    }
+
     // read extended header (if present)
     if (hasExtendedHeader()) {
-        if (maximalSize && maximalSize < 14) {
+        if (framesMaximalSize && framesMaximalSize < 14) {
             diag.emplace_back(DiagLevel::Critical, "Extended header denoted but not present.", context);
             throw TruncatedDataException();
         }
         // note: The size is a regular integer and does not include itself in versions before 2.4.0.
         m_extendedHeaderSize = majorVersion >= 4 ? reader.readSynchsafeUInt32BE() : reader.readUInt32BE();
-        if (majorVersion < 4 && m_extendedHeaderSize <= m_sizeExcludingHeader) {
+        if (majorVersion < 4 && m_extendedHeaderSize <= framesTotalSize) {
             m_extendedHeaderSize += 4;
         }
-        if (m_extendedHeaderSize < 6 || m_extendedHeaderSize > m_sizeExcludingHeader || (maximalSize && maximalSize < (10 + m_extendedHeaderSize))) {
+        if (m_extendedHeaderSize < 6 || m_extendedHeaderSize > framesTotalSize || (framesMaximalSize && framesMaximalSize < (10 + m_extendedHeaderSize))) {
             diag.emplace_back(DiagLevel::Critical, "Extended header is invalid/truncated.", context);
             throw TruncatedDataException();
         }
-        stream.seekg(m_extendedHeaderSize - 4, ios_base::cur);
+        framesStream->seekg(m_extendedHeaderSize - 4, ios_base::cur);
     }
 
     // how many bytes remain for frames and padding?
-    std::uint32_t bytesRemaining = m_sizeExcludingHeader - m_extendedHeaderSize;
-    if (maximalSize && bytesRemaining > maximalSize - 10 - m_extendedHeaderSize) {
-        bytesRemaining = static_cast<std::uint32_t>(maximalSize - 10 - m_extendedHeaderSize);
+    std::uint32_t bytesRemaining = framesTotalSize - m_extendedHeaderSize;
+    if (framesMaximalSize && bytesRemaining > framesMaximalSize - 10 - m_extendedHeaderSize) {
+        bytesRemaining = static_cast<std::uint32_t>(framesMaximalSize - 10 - m_extendedHeaderSize);
         diag.emplace_back(DiagLevel::Critical, "Frames are truncated.", context);
     }
 
     // read frames
-    auto pos = static_cast<std::uint64_t>(stream.tellg());
+    auto pos = static_cast<std::uint64_t>(framesStream->tellg());
     const auto frameHeaderSize = majorVersion < 3 ? 6u : 10u;
     while (bytesRemaining) {
         // treat remaining bytes as padding if there is not enough space for another frame
@@ -618,7 +637,7 @@ void Id3v2Tag::parse(istream &stream, const std::uint64_t maximalSize, Diagnosti
             break;
         }
         // seek to next frame
-        stream.seekg(static_cast<streamoff>(pos));
+        framesStream->seekg(static_cast<streamoff>(pos));
         // parse frame
         Id3v2Frame frame;
         try {
@@ -655,6 +674,7 @@ void Id3v2Tag::parse(istream &stream, const std::uint64_t maximalSize, Diagnosti
     }
     if (!maximalSize || m_size + 10 <= maximalSize) {
         // the footer does not provide additional information, just check the signature
+        reader.setStream(&stream);
         stream.seekg(static_cast<streamoff>(startOffset + m_size));
         m_size += 10;
         if (reader.readUInt24LE() != 0x494433u) {
-- 
2.43.0


From b510d2902ea88a891a3f4fa70dfba7c9f88386cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:36 +0000
Subject: [PATCH 037/172] fix: avoid replacing the year in ID3v2 tags with a
 made-up date if it cannot be parsed

---
 id3/id3v2tag.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/id3/id3v2tag.cpp b/id3/id3v2tag.cpp
index 54799ac..c3384f4 100644
--- a/id3/id3v2tag.cpp
+++ b/id3/id3v2tag.cpp
@@ -482,15 +482,15 @@ void Id3v2Tag::convertOldRecordDateFields(const std::string &diagContext, Diagno
     auto expr = DateTimeExpression();
     auto year = 1, month = 1, day = 1, hour = 0, minute = 0;
     if (const auto &v = value(Id3v2FrameIds::lYear)) {
-        expr.parts |= DateTimeParts::Year;
         try {
             year = v.toInteger();
+            expr.parts |= DateTimeParts::Year;
         } catch (const ConversionException &e) {
             diag.emplace_back(DiagLevel::Critical, argsToString("Unable to parse year from \"TYER\" frame: ", e.what()), diagContext);
+            return; // keep fields as-is
         }
     }
     if (const auto &v = value(Id3v2FrameIds::lDate)) {
-        expr.parts |= DateTimeParts::Day | DateTimeParts::Month;
         try {
             auto str = v.toString();
             if (str.size() != 4) {
@@ -498,12 +498,12 @@ void Id3v2Tag::convertOldRecordDateFields(const std::string &diagContext, Diagno
             }
             day = stringToNumber<unsigned short>(std::string_view(str.data() + 0, 2));
             month = stringToNumber<unsigned short>(std::string_view(str.data() + 2, 2));
+            expr.parts |= DateTimeParts::Day | DateTimeParts::Month;
         } catch (const ConversionException &e) {
             diag.emplace_back(DiagLevel::Critical, argsToString("Unable to parse month and day from \"TDAT\" frame: ", e.what()), diagContext);
         }
     }
     if (const auto &v = value(Id3v2FrameIds::lTime)) {
-        expr.parts |= DateTimeParts::Hour | DateTimeParts::Minute;
         try {
             auto str = v.toString();
             if (str.size() != 4) {
@@ -511,6 +511,7 @@ void Id3v2Tag::convertOldRecordDateFields(const std::string &diagContext, Diagno
             }
             hour = stringToNumber<unsigned short>(std::string_view(str.data() + 0, 2));
             minute = stringToNumber<unsigned short>(std::string_view(str.data() + 2, 2));
+            expr.parts |= DateTimeParts::Hour | DateTimeParts::Minute;
         } catch (const ConversionException &e) {
             diag.emplace_back(DiagLevel::Critical, argsToString("Unable to parse hour and minute from \"TIME\" frame: ", +e.what()), diagContext);
         }
-- 
2.43.0


From f53685fc972536187eb2856c41e1d7a2e6a3ae83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:36 +0000
Subject: [PATCH 038/172] fix: convert encoding of all values of ID3v2 text
 frames

---
 id3/id3v2tag.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/id3/id3v2tag.cpp b/id3/id3v2tag.cpp
index c3384f4..519b58c 100644
--- a/id3/id3v2tag.cpp
+++ b/id3/id3v2tag.cpp
@@ -69,6 +69,10 @@ void Id3v2Tag::ensureTextValuesAreProperlyEncoded()
         auto &value = field.second.value();
         value.convertDataEncoding(encoding);
         value.convertDescriptionEncoding(encoding);
+        for (auto &additionalValue : field.second.additionalValues()) {
+            additionalValue.convertDataEncoding(encoding);
+            additionalValue.convertDescriptionEncoding(encoding);
+        }
     }
 }
 
-- 
2.43.0


From 917ee96532e7ee4089b3d265a8a5e3a6d6f2b605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:36 +0000
Subject: [PATCH 039/172] fix: propose data type for the disk position of
 ID3v2.2 tags

---
 id3/id3v2tag.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/id3/id3v2tag.cpp b/id3/id3v2tag.cpp
index 519b58c..2106c83 100644
--- a/id3/id3v2tag.cpp
+++ b/id3/id3v2tag.cpp
@@ -453,6 +453,7 @@ TagDataType Id3v2Tag::internallyGetProposedDataType(const std::uint32_t &id) con
     case lTrackPosition:
     case sTrackPosition:
     case lDiskPosition:
+    case sDiskPosition:
         return TagDataType::PositionInSet;
     case lCover:
     case sCover:
-- 
2.43.0


From 023bc670e14a0589423d35b78f99c6cad42fb54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:23 +0000
Subject: [PATCH 040/172] fix: avoid undefined behavior when writing ratings
 beyond 127 into ID3v2 tags

---
 id3/id3v2frame.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/id3/id3v2frame.cpp b/id3/id3v2frame.cpp
index f7c1bd0..aa4f0f8 100644
--- a/id3/id3v2frame.cpp
+++ b/id3/id3v2frame.cpp
@@ -790,7 +790,7 @@ Id3v2FrameMaker::Id3v2FrameMaker(Id3v2Frame &frame, std::uint8_t version, Diagno
             m_data = make_unique<char[]>(m_decompressedSize);
             auto pos = popularity.user.size() + 1;
             std::memcpy(m_data.get(), popularity.user.data(), pos);
-            m_data[pos] = static_cast<char>(popularity.rating);
+            m_data[pos] = static_cast<char>(static_cast<std::uint8_t>(popularity.rating));
             writePlayCounter(m_data.get() + pos + playCounterSize, playCounterSize, popularity.playCounter);
 
         } else {
-- 
2.43.0


From a876ec250fc02027d10e592b623ba201a34751ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:23 +0000
Subject: [PATCH 041/172] fix: parse UTF-16 encoded recording dates of ID3v2.3
 tags

---
 id3/id3v2tag.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/id3/id3v2tag.cpp b/id3/id3v2tag.cpp
index 2106c83..10e04aa 100644
--- a/id3/id3v2tag.cpp
+++ b/id3/id3v2tag.cpp
@@ -497,7 +497,7 @@ void Id3v2Tag::convertOldRecordDateFields(const std::string &diagContext, Diagno
     }
     if (const auto &v = value(Id3v2FrameIds::lDate)) {
         try {
-            auto str = v.toString();
+            auto str = v.toString(TagTextEncoding::Latin1);
             if (str.size() != 4) {
                 throw ConversionException("format is not DDMM");
             }
@@ -510,7 +510,7 @@ void Id3v2Tag::convertOldRecordDateFields(const std::string &diagContext, Diagno
     }
     if (const auto &v = value(Id3v2FrameIds::lTime)) {
         try {
-            auto str = v.toString();
+            auto str = v.toString(TagTextEncoding::Latin1);
             if (str.size() != 4) {
                 throw ConversionException("format is not HHMM");
             }
-- 
2.43.0


From eaf75583d1b39ec71a2cd64343303e000ab172ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:23 +0000
Subject: [PATCH 042/172] fix: write standard genres in the encoding used by
 the other genres of an ID3v2 tag

---
 id3/id3v2frame.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/id3/id3v2frame.cpp b/id3/id3v2frame.cpp
index aa4f0f8..dcd30c8 100644
--- a/id3/id3v2frame.cpp
+++ b/id3/id3v2frame.cpp
@@ -707,7 +707,8 @@ Id3v2FrameMaker::Id3v2FrameMaker(Id3v2Frame &frame, std::uint8_t version, Diagno
                     if ((value->type() == TagDataType::StandardGenreIndex)
                         && ((version >= 3 && m_frameId == Id3v2FrameIds::lGenre) || (version < 3 && m_frameId == Id3v2FrameIds::sGenre))) {
                         // make standard genere index
-                        substrings.emplace_back(numberToString(value->toStandardGenreIndex()));
+                        substrings.emplace_back(
+                            TagValue(numberToString(value->toStandardGenreIndex()), TagTextEncoding::Latin1).toString(encoding));
 
                     } else {
                         // make other text frame
-- 
2.43.0


From 4ee8f72309b62f84dd61b4e82a23c71f2fbca50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:44 +0000
Subject: [PATCH 043/172] fix: accept different byte orders for description and
 text of ID3v2 comments

---
 id3/id3v2frame.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/id3/id3v2frame.cpp b/id3/id3v2frame.cpp
index dcd30c8..4f2ee92 100644
--- a/id3/id3v2frame.cpp
+++ b/id3/id3v2frame.cpp
@@ -1203,17 +1203,20 @@ void Id3v2Frame::parseComment(const char *buffer, std::size_t dataSize, TagValue
         throw TruncatedDataException();
     }
     TagTextEncoding dataEncoding = parseTextEncodingByte(static_cast<std::uint8_t>(*buffer), diag);
+    auto descriptionEncoding = dataEncoding; // the byte order might be different
     if (*(++buffer)) {
         tagValue.setLocale(Locale(std::string(buffer, 3), LocaleFormat::ISO_639_2_B)); // does standard say whether T or B?
     }
-    auto substr = parseSubstring(buffer += 3, dataSize -= 4, dataEncoding, true, diag);
-    tagValue.setDescription(string(get<0>(substr), get<1>(substr)), dataEncoding);
+    auto substr = parseSubstring(buffer += 3, dataSize -= 4, descriptionEncoding, true, diag);
+    tagValue.setDescription(string(get<0>(substr), get<1>(substr)), descriptionEncoding);
     if (get<2>(substr) > end) {
         diag.emplace_back(DiagLevel::Critical, "Comment frame is incomplete (description not terminated?).", context);
         throw TruncatedDataException();
     }
     substr = parseSubstring(get<2>(substr), static_cast<size_t>(end - get<2>(substr)), dataEncoding, false, diag);
     tagValue.assignData(get<0>(substr), get<1>(substr), TagDataType::Text, dataEncoding);
+    // ensure encodings are equal as required when making the frame
+    tagValue.convertDescriptionEncoding(dataEncoding);
 }
 
 /*!
-- 
2.43.0


From dfcc09ba8011fd29e7d6c83025e9daca2fa3c325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:02 +0000
Subject: [PATCH 044/172] fix: avoid mistaking arbitrary audio data for a Xing
 header

---
 mpegaudio/mpegaudioframe.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpegaudio/mpegaudioframe.h b/mpegaudio/mpegaudioframe.h
index 06f07c0..1c1801d 100644
--- a/mpegaudio/mpegaudioframe.h
+++ b/mpegaudio/mpegaudioframe.h
@@ -159,7 +159,7 @@ constexpr XingHeaderFlags operator&(XingHeaderFlags lhs, XingHeaderFlags rhs)
  */
 constexpr bool MpegAudioFrame::isXingHeaderAvailable() const
 {
-    return ((m_xingHeader & 0x58696e6700000000uL) == 0x58696e6700000000uL) || ((m_xingHeader & 0x496e666f00000000uL) == 0x496e666f00000000uL);
+    return ((m_xingHeader & 0xffffffff00000000uL) == 0x58696e6700000000uL) || ((m_xingHeader & 0xffffffff00000000uL) == 0x496e666f00000000uL);
 }
 
 /*!
-- 
2.43.0


From 6cb26d7127b3ab262b9a70d007a732f4656328f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:48 +0000
Subject: [PATCH 045/172] fix: locate the Xing header according to MPEG version
 and channels

---
 mpegaudio/mpegaudioframe.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mpegaudio/mpegaudioframe.cpp b/mpegaudio/mpegaudioframe.cpp
index 5cdd447..963c3ce 100644
--- a/mpegaudio/mpegaudioframe.cpp
+++ b/mpegaudio/mpegaudioframe.cpp
@@ -60,10 +60,14 @@ void MpegAudioFrame::parseHeader(BinaryReader &reader, Diagnostics &diag)
     }
 
     // read XING header (see https://www.codeproject.com/Articles/8295/MPEG-Audio-Frame-Header#XINGHeader)
-    if (size() < s_xingHeaderOffset - 4 + 8) {
+    // note: The header follows the side information of which the size depends on the version and the number of channels.
+    const auto xingHeaderOffset = layer() != 3 ? s_xingHeaderOffset
+        : mpegVersion() == 1.0                 ? (channelMode() == MpegChannelMode::SingleChannel ? 0x15u : s_xingHeaderOffset)
+                                               : (channelMode() == MpegChannelMode::SingleChannel ? 0xDu : 0x15u);
+    if (size() < xingHeaderOffset + 8) {
         return;
     }
-    reader.stream()->seekg(s_xingHeaderOffset - 4, ios_base::cur);
+    reader.stream()->seekg(static_cast<std::streamoff>(xingHeaderOffset - 4), ios_base::cur);
     m_xingHeader = reader.readUInt64BE();
     if (isXingHeaderAvailable()) {
         m_xingHeaderFlags = static_cast<XingHeaderFlags>(m_xingHeader & 0xffffffffuL);
-- 
2.43.0


From 3b329f02fee5e46a3d3640881a18e2824dc6b5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:56 +0000
Subject: [PATCH 046/172] fix: handle FLAC pictures preceding the Vorbis
 comment

---
 flac/flacstream.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flac/flacstream.cpp b/flac/flacstream.cpp
index 0b8cfee..3454866 100644
--- a/flac/flacstream.cpp
+++ b/flac/flacstream.cpp
@@ -2,6 +2,7 @@
 #include "./flacmetadata.h"
 
 #include "../vorbis/vorbiscomment.h"
+#include "../vorbis/vorbiscommentids.h"
 
 #include "../exceptions.h"
 #include "../mediafileinfo.h"
@@ -129,7 +130,7 @@ void FlacStream::internalParseHeader(Diagnostics &diag, AbortableProgressFeedbac
             try {
                 // parse the cover
                 VorbisCommentField coverField;
-                coverField.setId(m_vorbisComment->fieldId(KnownField::Cover));
+                coverField.setId(std::string(VorbisCommentIds::cover()));
                 FlacMetaDataBlockPicture picture(coverField.value());
                 picture.parse(*m_istream, header.dataSize());
                 coverField.setTypeInfo(picture.pictureType());
-- 
2.43.0


From 0dc60fdedc036ca6b85ae85b13dd1460268b4105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:56 +0000
Subject: [PATCH 047/172] fix: avoid division by zero when computing the
 duration of FLAC streams

---
 flac/flacstream.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flac/flacstream.cpp b/flac/flacstream.cpp
index 3454866..8011e9d 100644
--- a/flac/flacstream.cpp
+++ b/flac/flacstream.cpp
@@ -103,7 +103,9 @@ void FlacStream::internalParseHeader(Diagnostics &diag, AbortableProgressFeedbac
                 m_samplingFrequency = streamInfo.samplingFrequency();
                 m_sampleCount = streamInfo.totalSampleCount();
                 m_bitsPerSample = streamInfo.bitsPerSample();
-                m_duration = TimeSpan::fromSeconds(static_cast<double>(m_sampleCount) / m_samplingFrequency);
+                if (m_samplingFrequency) {
+                    m_duration = TimeSpan::fromSeconds(static_cast<double>(m_sampleCount) / m_samplingFrequency);
+                }
             } else {
                 diag.emplace_back(DiagLevel::Critical, "\"METADATA_BLOCK_STREAMINFO\" is truncated and will be ignored.", context);
             }
-- 
2.43.0


From 468af59bc4a689863c32d41f2ea9da6faf13d0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:27 +0000
Subject: [PATCH 048/172] fix: avoid overwriting the last metadata block when
 its last flag needs to be adjusted

---
 flac/flacstream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flac/flacstream.cpp b/flac/flacstream.cpp
index 8011e9d..e0768e3 100644
--- a/flac/flacstream.cpp
+++ b/flac/flacstream.cpp
@@ -224,7 +224,7 @@ std::streamoff FlacStream::makeHeader(ostream &outputStream, Diagnostics &diag)
         outputStream.seekp(lastStartOffset);
         lastActuallyWrittenHeader.setLast(!m_vorbisComment);
         lastActuallyWrittenHeader.makeHeader(outputStream);
-        originalStream.seekg(lastActuallyWrittenHeader.dataSize(), ios_base::cur);
+        outputStream.seekp(static_cast<streamoff>(lastActuallyWrittenHeader.dataSize()), ios_base::cur);
     }
 
     // write Vorbis comment
-- 
2.43.0


From af1fb68fc6c7c0a56a17c2a18d206baa32e433e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:27 +0000
Subject: [PATCH 049/172] fix: handle empty and too big pictures when making
 FLAC metadata

---
 flac/flacstream.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/flac/flacstream.cpp b/flac/flacstream.cpp
index e0768e3..ca86351 100644
--- a/flac/flacstream.cpp
+++ b/flac/flacstream.cpp
@@ -262,15 +262,22 @@ std::streamoff FlacStream::makeHeader(ostream &outputStream, Diagnostics &diag)
     }
     header.setType(FlacMetaDataBlockType::Picture);
     const auto coverFields = m_vorbisComment->fields().equal_range(coverId);
-    for (auto i = coverFields.first; i != coverFields.second;) {
+    for (auto i = coverFields.first; i != coverFields.second; ++i) {
+        if (i->second.value().isEmpty()) {
+            continue;
+        }
         const auto lastCoverStartOffset = outputStream.tellp();
 
         try {
             // write the structure
             FlacMetaDataBlockPicture pictureBlock(i->second.value());
             pictureBlock.setPictureType(i->second.typeInfo());
-            header.setDataSize(pictureBlock.requiredSize());
-            header.setLast(++i == coverFields.second);
+            const auto requiredSize = pictureBlock.requiredSize();
+            if (requiredSize > 0xFFFFFF) {
+                throw InvalidDataException();
+            }
+            header.setDataSize(requiredSize);
+            header.setLast(false); // adjusted later
             header.makeHeader(outputStream);
             pictureBlock.make(outputStream);
 
@@ -293,7 +300,7 @@ std::streamoff FlacStream::makeHeader(ostream &outputStream, Diagnostics &diag)
         outputStream.seekp(lastStartOffset);
         lastActuallyWrittenHeader.setLast(true);
         lastActuallyWrittenHeader.makeHeader(outputStream);
-        outputStream.seekp(lastActuallyWrittenHeader.dataSize());
+        outputStream.seekp(static_cast<streamoff>(lastActuallyWrittenHeader.dataSize()), ios_base::cur);
     }
 
     return lastStartOffset;
-- 
2.43.0


From 67ceb99286e671101ed337f4ccb934320b74e797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:27 +0000
Subject: [PATCH 050/172] fix: refuse to write a too big Vorbis comment instead
 of creating an invalid FLAC file

---
 flac/flacstream.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flac/flacstream.cpp b/flac/flacstream.cpp
index ca86351..e0a09f3 100644
--- a/flac/flacstream.cpp
+++ b/flac/flacstream.cpp
@@ -246,8 +246,8 @@ std::streamoff FlacStream::makeHeader(ostream &outputStream, Diagnostics &diag)
     header.setType(FlacMetaDataBlockType::VorbisComment);
     auto dataSize(static_cast<std::uint64_t>(endOffset) - static_cast<std::uint64_t>(lastStartOffset) - 4);
     if (dataSize > 0xFFFFFF) {
-        dataSize = 0xFFFFFF;
-        diag.emplace_back(DiagLevel::Critical, "Vorbis Comment is too big and will be truncated.", "write Vorbis Comment to FLAC stream");
+        diag.emplace_back(DiagLevel::Critical, "Vorbis Comment is too big.", "write Vorbis Comment to FLAC stream");
+        throw InvalidDataException();
     }
     header.setDataSize(static_cast<std::uint32_t>(dataSize));
     header.setLast(!m_vorbisComment->hasField(coverId));
-- 
2.43.0


From 841f41bbf0ea941fb5ae928c7f39a3823aa310dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:27 +0000
Subject: [PATCH 051/172] fix: write padding of FLAC files with ID3v2 tags only
 once

---
 mediafileinfo.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mediafileinfo.cpp b/mediafileinfo.cpp
index 1fda416..d558fc9 100644
--- a/mediafileinfo.cpp
+++ b/mediafileinfo.cpp
@@ -1862,11 +1862,11 @@ void MediaFileInfo::makeMp3File(Diagnostics &diag, AbortableProgressFeedback &pr
                 i->make(outputStream, 0, diag);
             }
             // include padding into the last ID3v2 tag
-            makers.back().make(outputStream, (flacStream && padding && padding < 4) ? 0 : static_cast<std::uint32_t>(padding), diag);
+            makers.back().make(outputStream, static_cast<std::uint32_t>(padding), diag);
         }
 
         if (flacStream) {
-            if (padding && startOfLastMetaDataBlock) {
+            if (padding && makers.empty() && startOfLastMetaDataBlock) {
                 // if appending padding, ensure the last flag of the last "METADATA_BLOCK_HEADER" is not set
                 flacMetaData.seekg(startOfLastMetaDataBlock);
                 flacMetaData.seekp(startOfLastMetaDataBlock);
@@ -1877,8 +1877,8 @@ void MediaFileInfo::makeMp3File(Diagnostics &diag, AbortableProgressFeedback &pr
             // write FLAC metadata
             outputStream << flacMetaData.rdbuf();
 
-            // write padding
-            if (padding) {
+            // write padding (unless already included in the last ID3v2 tag)
+            if (padding && makers.empty()) {
                 flacStream->makePadding(outputStream, static_cast<std::uint32_t>(padding), true, diag);
             }
         }
-- 
2.43.0


From fa0c5eb8bedf6dc0c0ea82a2944a606ed2b30bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:38 +0000
Subject: [PATCH 052/172] fix: avoid division by zero and skipping too far when
 parsing WAVE header

---
 wav/waveaudiostream.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/wav/waveaudiostream.cpp b/wav/waveaudiostream.cpp
index 38c6950..ccfff3d 100644
--- a/wav/waveaudiostream.cpp
+++ b/wav/waveaudiostream.cpp
@@ -8,6 +8,8 @@
 #include <c++utilities/conversion/stringconversion.h>
 #include <c++utilities/io/binaryreader.h>
 
+#include <algorithm>
+
 using namespace std;
 using namespace CppUtilities;
 
@@ -55,13 +57,14 @@ std::uint64_t WaveFormatHeader::parse(CppUtilities::BinaryReader &reader, std::u
 
     // skip extended header unless format is "WAVE_FORMAT_EXTENSIBLE"
     if (formatTag != 65534) {
-        reader.stream()->seekg(extensionSize, ios_base::cur);
-        bytesRead += extensionSize;
+        const auto bytesToSkip = min<std::uint64_t>(extensionSize, maxSize);
+        reader.stream()->seekg(static_cast<std::streamoff>(bytesToSkip), ios_base::cur);
+        bytesRead += bytesToSkip;
         return bytesRead;
     }
 
     // read extended header for "WAVE_FORMAT_EXTENSIBLE"
-    if (extensionSize != 22) {
+    if (extensionSize != 22 || maxSize < 22) {
         diag.emplace_back(DiagLevel::Warning, "\"fmt \" extended header has unexptected size.", "parsing WAVE format header");
         return bytesRead;
     }
@@ -172,8 +175,12 @@ void WaveAudioStream::internalParseHeader(Diagnostics &diag, AbortableProgressFe
         case 0x64617461u: // data segment
             m_dataOffset = static_cast<std::uint64_t>(m_istream->tellg());
             m_size = restHeaderLen;
-            m_sampleCount = m_size / m_chunkSize;
-            m_duration = TimeSpan::fromSeconds(static_cast<double>(m_sampleCount) / static_cast<double>(m_samplingFrequency));
+            if (m_chunkSize) {
+                m_sampleCount = m_size / m_chunkSize;
+            }
+            if (m_samplingFrequency) {
+                m_duration = TimeSpan::fromSeconds(static_cast<double>(m_sampleCount) / static_cast<double>(m_samplingFrequency));
+            }
             break;
         default:;
         }
-- 
2.43.0


From 07ffcd32db67ba5526c3b6949b3dcc0388e56586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:38 +0000
Subject: [PATCH 053/172] fix: take padding of RIFF segments with an odd size
 into account

---
 wav/waveaudiostream.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wav/waveaudiostream.cpp b/wav/waveaudiostream.cpp
index ccfff3d..630cdf0 100644
--- a/wav/waveaudiostream.cpp
+++ b/wav/waveaudiostream.cpp
@@ -165,6 +165,7 @@ void WaveAudioStream::internalParseHeader(Diagnostics &diag, AbortableProgressFe
     while (!m_dataOffset) {
         const auto segmentId = m_reader.readUInt32BE();
         auto restHeaderLen = static_cast<std::uint64_t>(m_reader.readUInt32LE());
+        const auto padding = restHeaderLen & 1; // segments are aligned to 2 byte boundaries
         switch (segmentId) {
         case 0x666D7420u: { // format segment
             WaveFormatHeader waveHeader;
@@ -184,7 +185,7 @@ void WaveAudioStream::internalParseHeader(Diagnostics &diag, AbortableProgressFe
             break;
         default:;
         }
-        m_istream->seekg(static_cast<std::streamoff>(restHeaderLen), ios_base::cur);
+        m_istream->seekg(static_cast<std::streamoff>(restHeaderLen + padding), ios_base::cur);
     }
     if (m_format.general != GeneralMediaFormat::Mpeg1Audio || !m_dataOffset) {
         return;
-- 
2.43.0


From 05ce053079610fdb9f9ccf949a0a6d9c9b6b7c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:38 +0000
Subject: [PATCH 054/172] fix: provide the bitrate of WAVE files in kbit/s as
 documented

---
 wav/waveaudiostream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wav/waveaudiostream.cpp b/wav/waveaudiostream.cpp
index 630cdf0..ed0be76 100644
--- a/wav/waveaudiostream.cpp
+++ b/wav/waveaudiostream.cpp
@@ -144,7 +144,7 @@ void WaveAudioStream::addInfo(const WaveFormatHeader &waveHeader, AbstractTrack
     track.m_bytesPerSecond = waveHeader.bytesPerSecond;
     track.m_chunkSize = waveHeader.chunkSize;
     track.m_bitsPerSample = waveHeader.bitsPerSample;
-    track.m_bitrate = waveHeader.bitrate();
+    track.m_bitrate = static_cast<double>(waveHeader.bitrate()) / 1000.0;
 }
 
 void WaveAudioStream::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback &progress)
-- 
2.43.0


From 589714896074646140bd16e896022d84cb7a8dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:10 +0000
Subject: [PATCH 055/172] fix: treat the description of FLAC pictures as UTF-8

---
 flac/flacmetadata.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/flac/flacmetadata.cpp b/flac/flacmetadata.cpp
index b212a63..6941560 100644
--- a/flac/flacmetadata.cpp
+++ b/flac/flacmetadata.cpp
@@ -90,7 +90,7 @@ void FlacMetaDataBlockPicture::parse(istream &inputStream, std::uint32_t maxSize
     m_value.setMimeType(reader.readString(size));
     size = reader.readUInt32BE();
     CHECK_MAX_SIZE(size);
-    m_value.setDescription(reader.readString(size));
+    m_value.setDescription(reader.readString(size), TagTextEncoding::Utf8);
     // skip width, height, color depth, number of colors used
     inputStream.seekg(4 * 4, ios_base::cur);
     size = reader.readUInt32BE();
@@ -104,6 +104,21 @@ void FlacMetaDataBlockPicture::parse(istream &inputStream, std::uint32_t maxSize
     }
 }
 
+/// \cond
+/*!
+ * \brief Ensures the description of the specified \a value is UTF-8 encoded as required by the specification.
+ * \throws Throws an InvalidDataException() if the conversion fails.
+ */
+static void ensureUtf8Description(TagValue &value)
+{
+    try {
+        value.convertDescriptionEncoding(TagTextEncoding::Utf8);
+    } catch (const ConversionException &) {
+        throw InvalidDataException();
+    }
+}
+/// \endcond
+
 /*!
  * \brief Returns the number of bytes make() will write.
  * \remarks Any changes to the object will invalidate this value.
@@ -111,6 +126,7 @@ void FlacMetaDataBlockPicture::parse(istream &inputStream, std::uint32_t maxSize
  */
 std::uint32_t FlacMetaDataBlockPicture::requiredSize() const
 {
+    ensureUtf8Description(m_value);
     const auto requiredSize(32 + m_value.mimeType().size() + m_value.description().size() + m_value.dataSize());
     if (requiredSize > numeric_limits<std::uint32_t>::max()) {
         throw InvalidDataException();
@@ -124,6 +140,7 @@ std::uint32_t FlacMetaDataBlockPicture::requiredSize() const
  */
 void FlacMetaDataBlockPicture::make(ostream &outputStream)
 {
+    ensureUtf8Description(m_value);
     if (m_value.mimeType().size() > numeric_limits<std::uint32_t>::max() || m_value.description().size() > numeric_limits<std::uint32_t>::max()
         || m_value.dataSize() > numeric_limits<std::uint32_t>::max()) {
         throw InvalidDataException();
-- 
2.43.0


From bd9fcb174b37b5f8a7fc09386801ea43a11d3832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:10 +0000
Subject: [PATCH 056/172] fix: write vendor of Vorbis comments always as UTF-8

---
 vorbis/vorbiscomment.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vorbis/vorbiscomment.cpp b/vorbis/vorbiscomment.cpp
index 0a7ac6f..9abdc4c 100644
--- a/vorbis/vorbiscomment.cpp
+++ b/vorbis/vorbiscomment.cpp
@@ -391,7 +391,7 @@ void VorbisComment::make(std::ostream &stream, VorbisCommentFlags flags, Diagnos
     static const string context("making Vorbis comment");
     string vendor;
     try {
-        m_vendor.toString(vendor);
+        m_vendor.toString(vendor, TagTextEncoding::Utf8);
     } catch (const ConversionException &) {
         diag.emplace_back(DiagLevel::Warning, "Can not convert the assigned vendor to string.", context);
     }
-- 
2.43.0


From f393b2766524aea82263857496acd2451c9fa1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:10 +0000
Subject: [PATCH 057/172] fix: write all covers of a Vorbis comment and not
 only the first

---
 vorbis/vorbiscomment.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vorbis/vorbiscomment.cpp b/vorbis/vorbiscomment.cpp
index 9abdc4c..c50eb0a 100644
--- a/vorbis/vorbiscomment.cpp
+++ b/vorbis/vorbiscomment.cpp
@@ -415,7 +415,7 @@ void VorbisComment::make(std::ostream &stream, VorbisCommentFlags flags, Diagnos
             fieldsWritten += makeField(i.second, writer, flags, diag);
         }
     }
-    if (const auto cover = fields().find(coverId); cover != fields().end()) {
+    for (auto [cover, end] = fields().equal_range(coverId); cover != end; ++cover) {
         fieldsWritten += makeField(cover->second, writer, flags, diag);
     }
     // write field count
-- 
2.43.0


From 04cb0fb6a7b06c9a04db241415766805ef585e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:10 +0000
Subject: [PATCH 058/172] fix: map LANGUAGE field of Vorbis comments to known
 field

---
 vorbis/vorbiscomment.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vorbis/vorbiscomment.cpp b/vorbis/vorbiscomment.cpp
index c50eb0a..f2dcaa3 100644
--- a/vorbis/vorbiscomment.cpp
+++ b/vorbis/vorbiscomment.cpp
@@ -144,6 +144,7 @@ KnownField VorbisComment::internallyGetKnownField(const IdentifierType &id) cons
          { grouping(), KnownField::Grouping },
          { label(), KnownField::RecordLabel },
          { performer(), KnownField::Performers },
+         { language(), KnownField::Language },
          { lyricist(), KnownField::Lyricist },
          { lyrics(), KnownField::Lyrics },
          { albumArtist(), KnownField::AlbumArtist },
-- 
2.43.0


From a6e4d7c6975c33d7d6d995f12bbb47a637730911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:10 +0000
Subject: [PATCH 059/172] fix: avoid reading out of bounds when
 METADATA_BLOCK_PICTURE has no value

---
 vorbis/vorbiscommentfield.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vorbis/vorbiscommentfield.cpp b/vorbis/vorbiscommentfield.cpp
index aebc010..9497639 100644
--- a/vorbis/vorbiscommentfield.cpp
+++ b/vorbis/vorbiscommentfield.cpp
@@ -72,7 +72,7 @@ template <class StreamType> void VorbisCommentField::internalParse(StreamType &s
                 diag.emplace_back(
                     DiagLevel::Critical, argsToString("The field ID at ", static_cast<std::streamoff>(stream.tellg()), " is empty."), context);
                 throw InvalidDataException();
-            } else if (id() == VorbisCommentIds::cover()) {
+            } else if (id() == VorbisCommentIds::cover() && idSize < size) {
                 // extract cover value
                 try {
                     auto decoded = decodeBase64(data.get() + idSize + 1, size - idSize - 1);
-- 
2.43.0


From 80872c4504bdb3d682aa00dadfcbb6be30eeb8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:36 +0000
Subject: [PATCH 060/172] fix: adjust ID of the field as well when turning YEAR
 into DATE

---
 vorbis/vorbiscomment.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vorbis/vorbiscomment.cpp b/vorbis/vorbiscomment.cpp
index f2dcaa3..853fa19 100644
--- a/vorbis/vorbiscomment.cpp
+++ b/vorbis/vorbiscomment.cpp
@@ -288,6 +288,7 @@ void VorbisComment::internalParse(StreamType &stream, std::uint64_t maxSize, Vor
             if (fields().find(dateFieldId) == fields().end()) {
                 const auto [first, end] = fields().equal_range(yearFieldId);
                 for (auto i = first; i != end; ++i) {
+                    i->second.setId(dateFieldId);
                     fields().emplace(dateFieldId, std::move(i->second));
                 }
                 fields().erase(first, end);
-- 
2.43.0


From 520131d828a9420f82c1643efb026e561ec0dff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:08 +0000
Subject: [PATCH 061/172] fix: report correct offset of APE tag

---
 mediafileinfo.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mediafileinfo.cpp b/mediafileinfo.cpp
index d558fc9..ff0eaf2 100644
--- a/mediafileinfo.cpp
+++ b/mediafileinfo.cpp
@@ -464,7 +464,7 @@ void MediaFileInfo::parseTags(Diagnostics &diag, AbortableProgressFeedback &prog
                 effectiveSize -= apeHeaderSize;
             }
             diag.emplace_back(DiagLevel::Warning,
-                argsToString("Found an APE tag at the end of the file at offset ", (footerOffset - tagSize),
+                argsToString("Found an APE tag at the end of the file at offset ", effectiveSize,
                     ". This tag format is not supported and the tag will therefore be ignored. It will be preserved when saving as-is."),
                 context);
         }
-- 
2.43.0


From 66eaccdb556c64d7d0c0de6432c615da131c28df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:41 +0000
Subject: [PATCH 062/172] fix: reset number of read bytes when repositioning
 OggIterator

---
 ogg/oggiterator.cpp | 8 +++++---
 ogg/oggiterator.h   | 3 ++-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/ogg/oggiterator.cpp b/ogg/oggiterator.cpp
index 7a3cd22..6d8b37e 100644
--- a/ogg/oggiterator.cpp
+++ b/ogg/oggiterator.cpp
@@ -45,7 +45,7 @@ void OggIterator::clear(istream &stream, std::uint64_t startOffset, std::uint64_
  */
 void OggIterator::reset()
 {
-    for (m_page = m_segment = m_offset = 0; m_page < m_pages.size() || fetchNextPage(); ++m_page) {
+    for (m_page = m_segment = m_offset = m_bytesRead = 0; m_page < m_pages.size() || fetchNextPage(); ++m_page) {
         const OggPage &page = m_pages[m_page];
         if (!page.segmentSizes().empty() && matchesFilter(page)) {
             // page is not empty and matches ID filter if set
@@ -99,8 +99,9 @@ void OggIterator::previousPage()
 {
     while (m_page) {
         const OggPage &page = m_pages[--m_page];
-        if (matchesFilter(page)) {
+        if (!page.segmentSizes().empty() && matchesFilter(page)) {
             m_offset = page.dataOffset(m_segment = page.segmentSizes().size() - 1);
+            m_bytesRead = 0;
             return;
         }
     }
@@ -114,7 +115,8 @@ void OggIterator::previousSegment()
 {
     const OggPage &page = m_pages[m_page];
     if (m_segment && matchesFilter(page)) {
-        m_offset -= page.segmentSizes()[m_segment--];
+        m_offset -= page.segmentSizes()[--m_segment];
+        m_bytesRead = 0;
     } else {
         previousPage();
     }
diff --git a/ogg/oggiterator.h b/ogg/oggiterator.h
index c76a06f..f01c30b 100644
--- a/ogg/oggiterator.h
+++ b/ogg/oggiterator.h
@@ -183,7 +183,7 @@ inline std::vector<OggPage>::size_type OggIterator::currentPageIndex() const
 inline void OggIterator::setPageIndex(std::vector<OggPage>::size_type index)
 {
     const OggPage &page = m_pages[m_page = index];
-    m_segment = 0;
+    m_segment = m_bytesRead = 0;
     m_offset = page.startOffset() + page.headerSize();
 }
 
@@ -196,6 +196,7 @@ inline void OggIterator::setSegmentIndex(std::vector<std::uint32_t>::size_type i
 {
     const OggPage &page = m_pages[m_page];
     m_offset = page.dataOffset(m_segment = index);
+    m_bytesRead = 0;
 }
 
 /*!
-- 
2.43.0


From 917e5b85d965278cd3a39312984871cb06032089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:41 +0000
Subject: [PATCH 063/172] fix: limit search for next Ogg page as documented

---
 ogg/oggiterator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ogg/oggiterator.cpp b/ogg/oggiterator.cpp
index 6d8b37e..6e04d79 100644
--- a/ogg/oggiterator.cpp
+++ b/ogg/oggiterator.cpp
@@ -4,6 +4,7 @@
 
 #include <c++utilities/io/binaryreader.h>
 
+#include <algorithm>
 #include <iostream>
 #include <limits>
 
@@ -246,7 +247,7 @@ bool OggIterator::resyncAt(std::uint64_t offset)
     // find capture pattern 'OggS'
     stream().seekg(static_cast<streamoff>(offset));
     std::uint8_t lettersFound = 0;
-    for (std::uint64_t bytesAvailable = max<std::uint64_t>(streamSize() - offset, 65307ul); bytesAvailable >= 27; --bytesAvailable) {
+    for (std::uint64_t bytesAvailable = min<std::uint64_t>(streamSize() - offset, 65307ul); bytesAvailable >= 27; --bytesAvailable) {
         switch (static_cast<char>(stream().get())) {
         case 'O':
             lettersFound = 1;
-- 
2.43.0


From 21237058e88cc39e64400bc4e44f1c35c07c86dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:41 +0000
Subject: [PATCH 064/172] fix: determine end of Vorbis comment within Ogg
 stream correctly

---
 vorbis/vorbiscomment.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/vorbis/vorbiscomment.cpp b/vorbis/vorbiscomment.cpp
index 853fa19..8567a0b 100644
--- a/vorbis/vorbiscomment.cpp
+++ b/vorbis/vorbiscomment.cpp
@@ -308,11 +308,16 @@ void VorbisComment::internalParse(StreamType &stream, std::uint64_t maxSize, Vor
         auto bytesRemaining = std::uint64_t();
         if (stream) {
             bytesRemaining = stream.remainingBytesInCurrentSegment();
-            if (stream.currentPage().isLastSegmentUnconcluded()) {
+            // consider following pages as well if the packet is not concluded within the current page
+            while (stream.currentPage().isLastSegmentUnconcluded() && stream.currentSegmentIndex() + 1 == stream.currentPage().segmentSizes().size()) {
+                const auto pageIndex = stream.currentPageIndex();
                 stream.nextSegment();
-                if (stream) {
-                    bytesRemaining += stream.remainingBytesInCurrentSegment();
+                if (!stream) {
+                    stream.setPageIndex(pageIndex);
+                    stream.setSegmentIndex(stream.currentPage().segmentSizes().size() - 1);
+                    break;
                 }
+                bytesRemaining += stream.remainingBytesInCurrentSegment();
             }
         }
         if (bytesRemaining) {
-- 
2.43.0


From 542a24539795c5bd18725e21be75376ca274256c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:51 +0000
Subject: [PATCH 065/172] fix: consider all bytes of the file available when
 re-syncing Ogg pages

---
 ogg/oggiterator.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ogg/oggiterator.cpp b/ogg/oggiterator.cpp
index 6e04d79..544a992 100644
--- a/ogg/oggiterator.cpp
+++ b/ogg/oggiterator.cpp
@@ -261,9 +261,9 @@ bool OggIterator::resyncAt(std::uint64_t offset)
                 const auto currentOffset = stream().tellg();
                 // -> try to parse an Ogg page at this position
                 try {
-                    m_pages.emplace_back(stream(), static_cast<std::uint64_t>(stream().tellg()) - 4,
-                        bytesAvailable > numeric_limits<std::int32_t>::max() ? numeric_limits<std::int32_t>::max()
-                                                                             : static_cast<std::int32_t>(bytesAvailable));
+                    const auto pageOffset = static_cast<std::uint64_t>(currentOffset) - 4;
+                    m_pages.emplace_back(stream(), pageOffset,
+                        static_cast<std::int32_t>(min<std::uint64_t>(streamSize() - pageOffset, numeric_limits<std::int32_t>::max())));
                     setPageIndex(m_pages.size() - 1);
                     return true;
                 } catch (const Failure &) {
-- 
2.43.0


From 1c2d8a694257b6f39f862338b4aacfa2f968fff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:53 +0000
Subject: [PATCH 066/172] fix: treat the IDs of covers and ratings in Vorbis
 comments case-insensitively

---
 vorbis/vorbiscomment.cpp      |  2 +-
 vorbis/vorbiscommentfield.cpp | 15 ++++++++++++---
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/vorbis/vorbiscomment.cpp b/vorbis/vorbiscomment.cpp
index 8567a0b..e497176 100644
--- a/vorbis/vorbiscomment.cpp
+++ b/vorbis/vorbiscomment.cpp
@@ -418,7 +418,7 @@ void VorbisComment::make(std::ostream &stream, VorbisCommentFlags flags, Diagnos
     std::uint32_t fieldsWritten = 0;
     static const auto coverId = std::string(VorbisCommentIds::cover());
     for (auto &i : fields()) {
-        if (i.first != coverId) { // write cover at the end
+        if (const auto less = fields().key_comp(); less(i.first, coverId) || less(coverId, i.first)) { // write cover at the end
             fieldsWritten += makeField(i.second, writer, flags, diag);
         }
     }
diff --git a/vorbis/vorbiscommentfield.cpp b/vorbis/vorbiscommentfield.cpp
index 9497639..1f7c647 100644
--- a/vorbis/vorbiscommentfield.cpp
+++ b/vorbis/vorbiscommentfield.cpp
@@ -5,6 +5,7 @@
 
 #include "../ogg/oggiterator.h"
 
+#include "../caseinsensitivecomparer.h"
 #include "../diagnostics.h"
 #include "../exceptions.h"
 
@@ -42,6 +43,14 @@ VorbisCommentField::VorbisCommentField(const IdentifierType &id, const TagValue
 {
 }
 
+/// \cond
+static bool isSameId(std::string_view id, std::string_view otherId)
+{
+    static constexpr auto less = CaseInsensitiveStringComparer();
+    return !less(id, otherId) && !less(otherId, id);
+}
+/// \endcond
+
 /*!
  * \brief Internal implementation for parsing.
  */
@@ -72,7 +81,7 @@ template <class StreamType> void VorbisCommentField::internalParse(StreamType &s
                 diag.emplace_back(
                     DiagLevel::Critical, argsToString("The field ID at ", static_cast<std::streamoff>(stream.tellg()), " is empty."), context);
                 throw InvalidDataException();
-            } else if (id() == VorbisCommentIds::cover() && idSize < size) {
+            } else if (isSameId(id(), VorbisCommentIds::cover()) && idSize < size) {
                 // extract cover value
                 try {
                     auto decoded = decodeBase64(data.get() + idSize + 1, size - idSize - 1);
@@ -99,7 +108,7 @@ template <class StreamType> void VorbisCommentField::internalParse(StreamType &s
                 }
             } else if (id().size() + 1 < size) {
                 const auto str = std::string_view(data.get() + idSize + 1, size - idSize - 1);
-                if (id() == VorbisCommentIds::rating()) {
+                if (isSameId(id(), VorbisCommentIds::rating())) {
                     try {
                         // set rating as Popularity to preserve the scale information
                         value().assignPopularity(Popularity{ .rating = stringToNumber<double>(str), .scale = TagType::VorbisComment });
@@ -184,7 +193,7 @@ bool VorbisCommentField::make(BinaryWriter &writer, VorbisCommentFlags flags, Di
     try {
         // try to convert value to string
         string valueString;
-        if (id() == VorbisCommentIds::cover()) {
+        if (isSameId(id(), VorbisCommentIds::cover())) {
             if (flags & VorbisCommentFlags::NoCovers) {
                 return false;
             }
-- 
2.43.0


From 3faf7718744fa8a9b598e992921b958cb73faaf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:36 +0000
Subject: [PATCH 067/172] fix: preserve packets, empty pages and flags of all
 streams when rewriting Ogg files

---
 ogg/oggcontainer.cpp | 287 +++++++++++++++++++++----------------------
 1 file changed, 142 insertions(+), 145 deletions(-)

diff --git a/ogg/oggcontainer.cpp b/ogg/oggcontainer.cpp
index a8348c4..525f54b 100644
--- a/ogg/oggcontainer.cpp
+++ b/ogg/oggcontainer.cpp
@@ -10,8 +10,10 @@
 #include <c++utilities/conversion/stringbuilder.h>
 #include <c++utilities/io/copy.h>
 
+#include <algorithm>
 #include <limits>
 #include <memory>
+#include <unordered_set>
 
 using namespace std;
 using namespace CppUtilities;
@@ -408,6 +410,7 @@ void OggContainer::makeVorbisCommentSegment(stringstream &buffer, CopyHelper<653
         if (header.dataSize() > 0xFFFFFF) {
             diag.emplace_back(
                 DiagLevel::Critical, "Size of Vorbis comment exceeds size limit for FLAC \"METADATA_BLOCK_HEADER\".", "making Vorbis Comment");
+            throw InvalidDataException();
         }
         buffer.seekp(offset);
         header.makeHeader(buffer);
@@ -416,7 +419,10 @@ void OggContainer::makeVorbisCommentSegment(stringstream &buffer, CopyHelper<653
     }
     default:;
     }
-    MediaFileInfo::writePadding(buffer, fileInfo().preferredPadding());
+    // write padding (but not within FLAC packets which contain exactly one "METADATA_BLOCK")
+    if (params->streamFormat != GeneralMediaFormat::Flac) {
+        MediaFileInfo::writePadding(buffer, fileInfo().preferredPadding());
+    }
 
     newSegmentSizes.push_back(static_cast<std::uint32_t>(buffer.tellp() - offset));
 }
@@ -458,29 +464,35 @@ void OggContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback
     try {
         progress.nextStepOrStop("Writing Ogg pages ...");
 
-        // prepare iterating comments
-        OggVorbisComment *currentComment;
-        OggParameter *currentParams;
-        auto tagIterator = m_tags.cbegin(), tagEnd = m_tags.cend();
-        if (tagIterator != tagEnd) {
-            currentParams = &(currentComment = tagIterator->get())->oggParams();
-        } else {
-            currentComment = nullptr;
-            currentParams = nullptr;
-        }
-
         // define misc variables
-        const OggPage *lastPage = nullptr;
+        auto anyPagesWritten = false;
         static constexpr auto oggPageHeaderSize = 27u;
         auto lastPageNewOffset = std::uint64_t();
         auto copyHelper = CopyHelper<65307>();
         auto updatedPageOffsets = std::vector<std::uint64_t>();
         auto nextPageOffset = std::uint64_t();
         auto pageSequenceNumberBySerialNo = std::unordered_map<std::uint32_t, std::uint32_t>();
+        auto lastPageNewOffsetBySerialNo = std::unordered_map<std::uint32_t, std::uint64_t>();
+        auto droppedLastPageSerialNos = std::unordered_set<std::uint32_t>();
 
         // iterate through all pages of the original file
         auto updateTick = 0u;
-        for (m_iterator.setStream(backupStream), m_iterator.removeFilter(), m_iterator.reset(); m_iterator; m_iterator.nextPage(), ++updateTick) {
+        m_iterator.setStream(backupStream);
+        m_iterator.removeFilter();
+        m_iterator.reset();
+        for (auto pageIndex = std::size_t();; ++pageIndex, ++updateTick) {
+            // fetch further pages if not already done when parsing
+            // note: The page index is incremented manually (instead of relying on nextPage()) so pages without segments are preserved.
+            if (pageIndex >= m_iterator.pages().size()) {
+                if (pageIndex) {
+                    m_iterator.setPageIndex(pageIndex - 1);
+                    m_iterator.nextPage();
+                }
+                if (pageIndex >= m_iterator.pages().size()) {
+                    break;
+                }
+            }
+            m_iterator.setPageIndex(pageIndex);
             const OggPage &currentPage = m_iterator.currentPage();
             if (updateTick % 10) {
                 progress.updateStepPercentage(static_cast<std::uint8_t>(currentPage.startOffset() * 100ul / totalFileSize));
@@ -490,8 +502,8 @@ void OggContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback
             // check for gaps
             // note: This is not just to print diag messages but also for taking into account that the parser might skip pages
             //       unless a full parse has been enforced.
-            if (lastPage && currentPage.startOffset() != nextPageOffset) {
-                m_iterator.pages().resize(m_iterator.currentPageIndex() - 1); // drop all further pages after the last consecutively parsed one
+            if (anyPagesWritten && currentPage.startOffset() != nextPageOffset) {
+                m_iterator.pages().resize(pageIndex); // drop all further pages after the last consecutively parsed one
                 if (m_iterator.resyncAt(nextPageOffset)) {
                     // try again at the page we've just found
                     const auto actuallyNextPageOffset = m_iterator.currentPageOffset();
@@ -502,7 +514,7 @@ void OggContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback
                             context);
                         nextPageOffset = actuallyNextPageOffset;
                     }
-                    m_iterator.previousPage();
+                    --pageIndex;
                     continue;
                 } else {
                     diag.emplace_back(DiagLevel::Critical,
@@ -514,13 +526,22 @@ void OggContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback
             }
             const auto pageSize = currentPage.totalSize();
             auto &pageSequenceNumber = pageSequenceNumberBySerialNo[currentPage.streamSerialNumber()];
-            lastPage = &currentPage;
-            lastPageNewOffset = static_cast<std::uint64_t>(stream().tellp());
+            anyPagesWritten = true;
             nextPageOffset = currentPage.startOffset() + pageSize;
 
-            // check whether the Vorbis Comment is present in this Ogg page
-            if (currentComment && m_iterator.currentPageIndex() >= currentParams->firstPageIndex
-                && m_iterator.currentPageIndex() <= currentParams->lastPageIndex && !currentPage.segmentSizes().empty()) {
+            // check whether a Vorbis Comment is present in this Ogg page (or supposed to be inserted into it)
+            OggVorbisComment *currentComment = nullptr;
+            OggParameter *currentParams = nullptr;
+            for (const auto &tag : m_tags) {
+                auto &params = tag->oggParams();
+                if (pageIndex >= params.firstPageIndex && pageIndex <= params.lastPageIndex
+                    && m_iterator.pages()[params.firstPageIndex].streamSerialNumber() == currentPage.streamSerialNumber()) {
+                    currentComment = tag.get();
+                    currentParams = &params;
+                    break;
+                }
+            }
+            if (currentComment && !currentPage.segmentSizes().empty()) {
                 // page needs to be rewritten (not just copied)
                 // -> write segments to a buffer first
                 auto buffer = std::stringstream(std::ios_base::in | std::ios_base::out | std::ios_base::binary);
@@ -528,149 +549,117 @@ void OggContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback
                 newSegmentSizes.reserve(currentPage.segmentSizes().size());
                 auto segmentOffset = m_iterator.currentSegmentOffset();
                 auto segmentIndex = std::vector<std::uint32_t>::size_type();
+                auto isFirstSegmentKept = false, isLastSegmentKept = false;
                 for (const auto segmentSize : currentPage.segmentSizes()) {
-                    if (!segmentSize) {
-                        ++segmentIndex;
-                        continue;
-                    }
                     // check whether this segment contains the Vorbis Comment
-                    if (currentParams
-                        && (m_iterator.currentPageIndex() >= currentParams->firstPageIndex && segmentIndex >= currentParams->firstSegmentIndex)
-                        && (m_iterator.currentPageIndex() <= currentParams->lastPageIndex && segmentIndex <= currentParams->lastSegmentIndex)) {
+                    const auto isLastSegment = segmentIndex + 1 == currentPage.segmentSizes().size();
+                    if ((pageIndex > currentParams->firstPageIndex || segmentIndex >= currentParams->firstSegmentIndex)
+                        && (pageIndex < currentParams->lastPageIndex || segmentIndex <= currentParams->lastSegmentIndex)) {
                         // prevent making the comment twice if it spreads over multiple pages/segments
-                        if (!currentParams->removed
-                            && ((m_iterator.currentPageIndex() == currentParams->firstPageIndex
-                                && m_iterator.currentSegmentIndex() == currentParams->firstSegmentIndex))) {
+                        if (!currentParams->removed && pageIndex == currentParams->firstPageIndex && segmentIndex == currentParams->firstSegmentIndex) {
                             makeVorbisCommentSegment(buffer, copyHelper, newSegmentSizes, currentComment, currentParams, diag);
                         }
-
-                        // proceed with next comment?
-                        if (m_iterator.currentPageIndex() > currentParams->lastPageIndex
-                            || (m_iterator.currentPageIndex() == currentParams->lastPageIndex && segmentIndex > currentParams->lastSegmentIndex)) {
-                            if (++tagIterator != tagEnd) {
-                                currentParams = &(currentComment = tagIterator->get())->oggParams();
-                            } else {
-                                currentComment = nullptr;
-                                currentParams = nullptr;
-                            }
-                        }
                     } else {
                         // copy other segments unchanged
-                        backupStream.seekg(static_cast<std::streamoff>(segmentOffset));
-                        copyHelper.copy(backupStream, buffer, segmentSize);
+                        if (segmentSize) {
+                            backupStream.seekg(static_cast<std::streamoff>(segmentOffset));
+                            copyHelper.copy(backupStream, buffer, segmentSize);
+                        }
                         newSegmentSizes.push_back(segmentSize);
+                        isFirstSegmentKept = isFirstSegmentKept || !segmentIndex;
+                        isLastSegmentKept = isLastSegment;
 
                         // check whether there is a new comment to be inserted into the current page
-                        if (currentParams && m_iterator.currentPageIndex() == currentParams->lastPageIndex
-                            && currentParams->firstSegmentIndex == numeric_limits<size_t>::max()) {
-                            if (!currentParams->removed) {
-                                makeVorbisCommentSegment(buffer, copyHelper, newSegmentSizes, currentComment, currentParams, diag);
-                            }
-                            // proceed with next comment
-                            if (++tagIterator != tagEnd) {
-                                currentParams = &(currentComment = tagIterator->get())->oggParams();
-                            } else {
-                                currentComment = nullptr;
-                                currentParams = nullptr;
-                            }
+                        if (!segmentIndex && currentParams->firstSegmentIndex == numeric_limits<size_t>::max() && !currentParams->removed) {
+                            makeVorbisCommentSegment(buffer, copyHelper, newSegmentSizes, currentComment, currentParams, diag);
+                            isLastSegmentKept = false;
                         }
                     }
                     segmentOffset += segmentSize;
                     ++segmentIndex;
                 }
 
-                // write buffered data to actual stream
-                if (auto newSegmentSizesIterator = newSegmentSizes.cbegin(), newSegmentSizesEnd = newSegmentSizes.cend();
-                    newSegmentSizesIterator != newSegmentSizesEnd) {
-                    auto bytesLeft = *newSegmentSizesIterator;
-                    auto continuePreviousSegment = false, needsZeroLacingValue = false;
-                    // write pages until all data in the buffer is written
-                    while (newSegmentSizesIterator != newSegmentSizesEnd) {
-                        // memorize offset to update checksum later
-                        updatedPageOffsets.push_back(static_cast<std::uint64_t>(stream().tellp()));
-                        // copy page header from original file (except for the segment table)
-                        backupStream.seekg(static_cast<streamoff>(currentPage.startOffset()));
-                        copyHelper.copy(backupStream, stream(), oggPageHeaderSize);
-                        // use flags of original page as base and adjust "continued packet"-flag as needed
-                        auto flags = (currentPage.headerTypeFlag() & 0xFE) | (continuePreviousSegment ? 0x01 : 0x00);
-                        continuePreviousSegment = true;
-                        // ensure "first page of logical bitstream"-flag is cleared for additional pages we need to insert
-                        // ensure "last page of logical bitstream"-flag is cleared for the first page
-                        flags = flags & (newSegmentSizesIterator != newSegmentSizes.cbegin() ? 0xFD : 0xF);
-                        // override flags copied from original file
-                        stream().seekp(-22, ios_base::cur);
-                        stream().put(static_cast<char>(flags));
-                        // update absolute granule position later (8 byte) and keep stream serial number (4 byte)
-                        stream().seekp(12, ios_base::cur);
-                        // adjust page sequence number
-                        writer().writeUInt32LE(pageSequenceNumber);
-                        // skip checksum (4 bytes) and number of page segments (1 byte); those are update later
-                        stream().seekp(5, ios_base::cur);
-                        // write segment sizes as long as there are segment sizes to be written and
-                        // the max number of segment sizes (255) is not exceeded
-                        auto segmentSizesWritten = std::int16_t(); // in the current page header only
-                        auto currentSize = std::uint32_t();
-                        while ((bytesLeft || needsZeroLacingValue) && segmentSizesWritten < 0xFF) {
-                            while (bytesLeft > 0xFF && segmentSizesWritten < 0xFF) {
-                                stream().put(static_cast<char>(0xFF));
-                                currentSize += 0xFF;
-                                bytesLeft -= 0xFF;
-                                ++segmentSizesWritten;
-                            }
-                            if ((bytesLeft || needsZeroLacingValue) && segmentSizesWritten < 0xFF) {
-                                // bytes left is here <= 0xFF
-                                stream().put(static_cast<char>(bytesLeft));
-                                currentSize += bytesLeft;
-                                needsZeroLacingValue = bytesLeft == 0xFF;
-                                bytesLeft = 0;
-                                ++segmentSizesWritten;
-                            }
-                            if (!bytesLeft && !needsZeroLacingValue) {
-                                // sizes for the segment have been written
-                                // -> continue with next segment
-                                if (++newSegmentSizesIterator != newSegmentSizesEnd) {
-                                    bytesLeft = *newSegmentSizesIterator;
-                                    continuePreviousSegment = false;
-                                }
-                            }
-                        }
+                // compute lacing values
+                // note: A packet is concluded by a lacing value less than 255. That is not supposed to be written if the last packet of the
+                //       page is continued on the next page.
+                auto lacingValues = std::vector<std::uint8_t>();
+                for (auto i = newSegmentSizes.cbegin(), end = newSegmentSizes.cend(); i != end; ++i) {
+                    lacingValues.insert(lacingValues.end(), *i / 0xFFu, 0xFFu);
+                    if (i + 1 != end || !isLastSegmentKept || !currentPage.isLastSegmentUnconcluded()) {
+                        lacingValues.emplace_back(static_cast<std::uint8_t>(*i % 0xFFu));
+                    }
+                }
 
-                        // remove continue flag if there are no bytes left in the current segment
-                        if (!bytesLeft && !needsZeroLacingValue) {
-                            continuePreviousSegment = false;
-                        }
+                // determine granule position for pages on which a packet ends
+                static constexpr auto noPacketsFinishOnPage = std::numeric_limits<std::uint64_t>::max();
+                auto granulePosition = currentPage.absoluteGranulePosition();
+                if (granulePosition == noPacketsFinishOnPage) {
+                    // use the granule position of the page the comment ends on in the existing file
+                    granulePosition = m_iterator.pages()[currentParams->lastPageIndex].absoluteGranulePosition();
+                    if (granulePosition == noPacketsFinishOnPage) {
+                        granulePosition = 0;
+                    }
+                }
 
-                        // set the absolute granule postion
-                        if (newSegmentSizesIterator != newSegmentSizesEnd) {
-                            // set absolute granule position to special value "-1" if there are still bytes to be written in the current packet
-                            stream().seekp(-21 - segmentSizesWritten, ios_base::cur);
-                            writer().writeInt64LE(-1);
-                            stream().seekp(12, ios_base::cur);
-                        } else if (currentParams->lastPageIndex != currentParams->firstPageIndex) {
-                            // ensure the written absolute granule position matches the one from the last page of the existing file
-                            backupStream.seekg(static_cast<streamoff>(m_iterator.pages()[currentParams->lastPageIndex].startOffset() + 6));
-                            stream().seekp(-21 - segmentSizesWritten, ios_base::cur);
-                            copyHelper.copy(backupStream, stream(), 8);
-                            stream().seekp(12, ios_base::cur);
-                        } else {
-                            // leave the absolute granule position unchanged
-                            stream().seekp(-1 - segmentSizesWritten, ios_base::cur);
-                        }
+                // ensure the "last page of logical bitstream"-flag is not lost if the page is omitted
+                if (lacingValues.empty() && currentPage.isLastPage()) {
+                    droppedLastPageSerialNos.emplace(currentPage.streamSerialNumber());
+                }
 
-                        // page is full or all segment data has been covered
-                        // -> write segment table size (segmentSizesWritten) and segment data
-                        // -> seek back and write updated page segment number
-                        stream().put(static_cast<char>(segmentSizesWritten));
-                        stream().seekp(segmentSizesWritten, ios_base::cur);
-                        // -> write actual page data
+                // write buffered data to actual stream
+                // -> write pages (with up to 255 lacing values) until all data in the buffer is written
+                for (auto lacingBegin = lacingValues.cbegin(), lacingEnd = lacingValues.cend(); lacingBegin != lacingEnd;) {
+                    const auto isFirst = lacingBegin == lacingValues.cbegin();
+                    const auto lacingCount = std::min<std::ptrdiff_t>(lacingEnd - lacingBegin, 0xFF);
+                    const auto lacingPageEnd = lacingBegin + lacingCount;
+                    // memorize offset to update checksum later
+                    lastPageNewOffset = static_cast<std::uint64_t>(stream().tellp());
+                    lastPageNewOffsetBySerialNo[currentPage.streamSerialNumber()] = lastPageNewOffset;
+                    updatedPageOffsets.push_back(lastPageNewOffset);
+                    // copy page header from original file (except for the segment table)
+                    backupStream.seekg(static_cast<streamoff>(currentPage.startOffset()));
+                    copyHelper.copy(backupStream, stream(), oggPageHeaderSize);
+                    // use flags of original page as base and adjust flags as needed:
+                    // - set "continued packet"-flag if the packet has been started on the previous page
+                    // - ensure "first page of logical bitstream"-flag is cleared for additional pages we need to insert
+                    // - ensure "last page of logical bitstream"-flag is only present on the last page
+                    auto flags = currentPage.headerTypeFlag() & 0xF8;
+                    if (isFirst ? (isFirstSegmentKept && currentPage.isContinued()) : (*(lacingBegin - 1) == 0xFF)) {
+                        flags |= 0x01;
+                    }
+                    if (isFirst && currentPage.isFirstpage()) {
+                        flags |= 0x02;
+                    }
+                    if (lacingPageEnd == lacingEnd && currentPage.isLastPage()) {
+                        flags |= 0x04;
+                    }
+                    // override flags copied from original file
+                    stream().seekp(-22, ios_base::cur);
+                    stream().put(static_cast<char>(flags));
+                    // update absolute granule position (8 byte) and keep stream serial number (4 byte)
+                    const auto finishesPacket = std::any_of(lacingBegin, lacingPageEnd, [](auto value) { return value != 0xFF; });
+                    writer().writeUInt64LE(finishesPacket ? granulePosition : noPacketsFinishOnPage);
+                    stream().seekp(4, ios_base::cur);
+                    // adjust page sequence number
+                    writer().writeUInt32LE(pageSequenceNumber);
+                    // skip checksum (4 bytes) which is updated later
+                    stream().seekp(4, ios_base::cur);
+                    // write segment table and actual page data
+                    stream().put(static_cast<char>(lacingCount));
+                    auto currentSize = std::uint32_t();
+                    for (; lacingBegin != lacingPageEnd; ++lacingBegin) {
+                        stream().put(static_cast<char>(*lacingBegin));
+                        currentSize += *lacingBegin;
+                    }
+                    if (currentSize) {
                         copyHelper.copy(buffer, stream(), currentSize);
-
-                        ++pageSequenceNumber;
                     }
+                    ++pageSequenceNumber;
                 }
-
             } else {
-                if (pageSequenceNumber != m_iterator.currentPageIndex()) {
+                lastPageNewOffset = static_cast<std::uint64_t>(stream().tellp());
+                lastPageNewOffsetBySerialNo[currentPage.streamSerialNumber()] = lastPageNewOffset;
+                if (pageSequenceNumber != currentPage.sequenceNumber()) {
                     // just update page sequence number
                     backupStream.seekg(static_cast<streamoff>(currentPage.startOffset()));
                     updatedPageOffsets.push_back(static_cast<std::uint64_t>(stream().tellp())); // memorize offset to update checksum later
@@ -705,14 +694,22 @@ void OggContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback
         stream.open(BasicFileInfo::pathForOpen(fileInfo().path()).data(), ios_base::in | ios_base::out | ios_base::binary);
 
         // ensure the "last page of logical bitstream"-flag is set on the last Ogg page (in case the last page was written/modified by us)
-        if (lastPage && lastPageNewOffset) {
-            const auto offset = static_cast<std::streamoff>(lastPageNewOffset + 5ul);
+        const auto ensureLastPageFlag = [&stream, &updatedPageOffsets](std::uint64_t pageOffset) {
+            const auto offset = static_cast<std::streamoff>(pageOffset + 5ul);
             stream.seekg(offset);
             if (const auto flag = stream.get(); !(flag & 0x04)) {
-                updatedPageOffsets.emplace_back(lastPageNewOffset);
+                updatedPageOffsets.emplace_back(pageOffset);
                 stream.seekp(offset);
                 stream.put(static_cast<char>(flag | 0x04));
             }
+        };
+        if (anyPagesWritten && lastPageNewOffset) {
+            ensureLastPageFlag(lastPageNewOffset);
+        }
+        for (const auto serialNo : droppedLastPageSerialNos) {
+            if (const auto i = lastPageNewOffsetBySerialNo.find(serialNo); i != lastPageNewOffsetBySerialNo.end()) {
+                ensureLastPageFlag(i->second);
+            }
         }
 
         // update checksums of modified pages
-- 
2.43.0


From abb1c955cd5bb31ff5626d40d49d9609175d5495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:36 +0000
Subject: [PATCH 068/172] fix: compute duration of Ogg streams according to the
 granule position

---
 ogg/oggstream.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/ogg/oggstream.cpp b/ogg/oggstream.cpp
index dd83fce..3c10196 100644
--- a/ogg/oggstream.cpp
+++ b/ogg/oggstream.cpp
@@ -16,6 +16,7 @@
 
 #include <functional>
 #include <iostream>
+#include <limits>
 
 using namespace std;
 using namespace std::placeholders;
@@ -298,9 +299,13 @@ void OggStream::calculateDurationViaSampleCount(std::uint16_t preSkip)
     if (!m_sampleCount && iterator.isLastPageFetched()) {
         const auto &pages = iterator.pages();
         const auto firstPage = find_if(pages.cbegin(), pages.cend(), pred);
-        const auto lastPage = find_if(pages.crbegin(), pages.crend(), pred);
+        // note: Pages on which no packet ends have no granule position (denoted by "-1").
+        const auto lastPage = find_if(pages.crbegin(), pages.crend(), [&pred](const OggPage &page) {
+            return pred(page) && page.absoluteGranulePosition() != std::numeric_limits<std::uint64_t>::max();
+        });
         if (firstPage != pages.cend() && lastPage != pages.crend()) {
-            m_sampleCount = lastPage->absoluteGranulePosition() - firstPage->absoluteGranulePosition();
+            m_sampleCount = lastPage->absoluteGranulePosition()
+                - (firstPage->absoluteGranulePosition() != std::numeric_limits<std::uint64_t>::max() ? firstPage->absoluteGranulePosition() : 0u);
             // must apply "pre-skip" here to calculate effective sample count and duration?
             if (m_sampleCount > preSkip) {
                 m_sampleCount -= preSkip;
@@ -311,8 +316,10 @@ void OggStream::calculateDurationViaSampleCount(std::uint16_t preSkip)
     }
 
     // actually calculate the duration
-    if (m_sampleCount && m_samplingFrequency != 0.0) {
-        m_duration = TimeSpan::fromSeconds(static_cast<double>(m_sampleCount) / m_samplingFrequency);
+    // note: The granule position of Opus streams is always in 48 kHz samples regardless of the sample rate of the original input.
+    const auto granuleRate = m_format.general == GeneralMediaFormat::Opus ? 48000.0 : static_cast<double>(m_samplingFrequency);
+    if (m_sampleCount && granuleRate != 0.0) {
+        m_duration = TimeSpan::fromSeconds(static_cast<double>(m_sampleCount) / granuleRate);
     }
 }
 
-- 
2.43.0


From 20e50841a402b00354789c20f2ee7b049a87ad88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:47 +0000
Subject: [PATCH 069/172] fix: abort instead of continuing with incomplete data
 when aborted while copying

---
 genericfileelement.h | 1 +
 mediafileinfo.cpp    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/genericfileelement.h b/genericfileelement.h
index eef3987..c52029f 100644
--- a/genericfileelement.h
+++ b/genericfileelement.h
@@ -954,6 +954,7 @@ void GenericFileElement<ImplementationType>::copyInternal(
     if (progress) {
         copyHelper.callbackCopy(stream, targetStream, bytesToCopy, std::bind(&AbortableProgressFeedback::isAborted, std::ref(progress)),
             std::bind(&AbortableProgressFeedback::updateStepPercentageFromFraction, std::ref(progress), std::placeholders::_1));
+        progress->stopIfAborted();
     } else {
         copyHelper.copy(stream, targetStream, bytesToCopy);
     }
diff --git a/mediafileinfo.cpp b/mediafileinfo.cpp
index ff0eaf2..9736208 100644
--- a/mediafileinfo.cpp
+++ b/mediafileinfo.cpp
@@ -1907,6 +1907,7 @@ void MediaFileInfo::makeMp3File(Diagnostics &diag, AbortableProgressFeedback &pr
             CopyHelper<0x4000> copyHelper;
             copyHelper.callbackCopy(backupStream, stream(), mediaDataSize, std::bind(&AbortableProgressFeedback::isAborted, std::ref(progress)),
                 std::bind(&AbortableProgressFeedback::updateStepPercentage, std::ref(progress), _1));
+            progress.stopIfAborted();
         } else {
             // just skip actual stream data
             outputStream.seekp(static_cast<std::streamoff>(mediaDataSize), ios_base::cur);
-- 
2.43.0


From 48dc0fe14da9ce93dac9287096b0ca100cee5882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:47 +0000
Subject: [PATCH 070/172] fix: report errors when writing buffered data of MP3
 and FLAC files fails

---
 mediafileinfo.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/mediafileinfo.cpp b/mediafileinfo.cpp
index 9736208..5f2338a 100644
--- a/mediafileinfo.cpp
+++ b/mediafileinfo.cpp
@@ -1923,6 +1923,10 @@ void MediaFileInfo::makeMp3File(Diagnostics &diag, AbortableProgressFeedback &pr
             }
         }
 
+        // prevent deferring final write operations (to catch and handle possible errors here)
+        // note: Closing the stream does not report errors.
+        outputStream.flush();
+
         // handle streams
         if (rewriteRequired) {
             // report new size
@@ -1932,14 +1936,12 @@ void MediaFileInfo::makeMp3File(Diagnostics &diag, AbortableProgressFeedback &pr
                 reportPathChanged(saveFilePath());
                 m_saveFilePath.clear();
             }
-            // prevent deferring final write operations (to catch and handle possible errors here); stream is useless for further
-            // usage anyways because it is write-only
+            // stream is useless for further usage because it is write-only
             outputStream.close();
         } else {
             const auto newSize = static_cast<std::uint64_t>(outputStream.tellp());
             if (newSize < size()) {
                 // file is smaller after the modification -> truncate
-                // -> prevent deferring final write operations
                 outputStream.close();
                 // -> truncate file
                 auto ec = std::error_code();
@@ -1950,10 +1952,7 @@ void MediaFileInfo::makeMp3File(Diagnostics &diag, AbortableProgressFeedback &pr
                     diag.emplace_back(DiagLevel::Critical, "Unable to truncate the file: " + ec.message(), context);
                 }
             } else {
-                // file is longer after the modification
-                // -> prevent deferring final write operations (to catch and handle possible errors here)
-                outputStream.flush();
-                // -> report new size
+                // file is longer after the modification -> report new size
                 reportSizeChanged(newSize);
             }
         }
-- 
2.43.0


From ab313fffd97a56bc02760b175b96aaeb2d2fbb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:44 +0000
Subject: [PATCH 071/172] fix: avoid truncating the current file when it is
 also specified as output file

---
 mediafileinfo.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mediafileinfo.cpp b/mediafileinfo.cpp
index 5f2338a..037743f 100644
--- a/mediafileinfo.cpp
+++ b/mediafileinfo.cpp
@@ -782,6 +782,13 @@ void MediaFileInfo::applyChanges(Diagnostics &diag, AbortableProgressFeedback &p
     if (!previousParsingSuccessful) {
         throw InvalidDataException();
     }
+    // save changes in place (with a backup) if the output file is the current file (which would be truncated otherwise before it is read)
+    auto ec = std::error_code();
+    if (!m_saveFilePath.empty()
+        && std::filesystem::equivalent(
+            makeNativePath(BasicFileInfo::pathForOpen(path())), makeNativePath(BasicFileInfo::pathForOpen(m_saveFilePath)), ec)) {
+        m_saveFilePath.clear();
+    }
     if (m_container) { // container object takes care
         // ID3 tags can not be applied in this case -> add warnings if ID3 tags have been assigned
         if (hasId3v1Tag()) {
-- 
2.43.0


From f819003406db9ef8146224fe18ffccb4746dc2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:49 +0000
Subject: [PATCH 072/172] fix: preserve a rating of zero in Vorbis comments

---
 vorbis/vorbiscommentfield.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vorbis/vorbiscommentfield.cpp b/vorbis/vorbiscommentfield.cpp
index 1f7c647..3076198 100644
--- a/vorbis/vorbiscommentfield.cpp
+++ b/vorbis/vorbiscommentfield.cpp
@@ -228,7 +228,9 @@ bool VorbisCommentField::make(BinaryWriter &writer, VorbisCommentFlags flags, Di
                 throw Failure();
             }
         } else if (value().type() == TagDataType::Popularity) {
-            valueString = value().toScaledPopularity(TagType::VorbisComment).toString();
+            const auto popularity = value().toScaledPopularity(TagType::VorbisComment);
+            // preserve an explicit rating of zero for which there is otherwise no text representation
+            valueString = popularity.isEmpty() ? std::string(1, '0') : popularity.toString();
         } else {
             // make normal string value
             valueString = value().toString(TagTextEncoding::Utf8);
-- 
2.43.0


From 1665d5a5d5f3227d552a1da1499cd64993845aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:38 +0000
Subject: [PATCH 073/172] fix: update MP4 offsets relative to the atom which
 actually contains the data

---
 mp4/mp4container.cpp | 10 +++++-----
 mp4/mp4track.cpp     | 15 ++++++++-------
 2 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/mp4/mp4container.cpp b/mp4/mp4container.cpp
index 1cf39d5..a378ad2 100644
--- a/mp4/mp4container.cpp
+++ b/mp4/mp4container.cpp
@@ -727,13 +727,12 @@ calculatePadding:
                             if (writeChunkByChunk) {
                                 // write actual data separately when writing chunk-by-chunk
                                 break;
-                            } else {
-                                // store media data offsets when not writing chunk-by-chunk to be able to update chunk offset table
-                                origMediaDataOffsets.push_back(static_cast<std::int64_t>(level0Atom->startOffset()));
-                                newMediaDataOffsets.push_back(outputStream.tellp());
                             }
                             [[fallthrough]];
                         default:
+                            // store offsets of copied atoms to be able to update chunk offset table and base data offsets
+                            origMediaDataOffsets.push_back(static_cast<std::int64_t>(level0Atom->startOffset()));
+                            newMediaDataOffsets.push_back(outputStream.tellp());
                             // update status
                             progress.updateStep("Writing atom: " + level0Atom->idToString());
                             // copy atom entirely and forward status update calls
@@ -971,7 +970,8 @@ void Mp4Container::updateOffsets(const std::vector<std::int64_t> &oldMdatOffsets
                         }
                         stream().seekg(4, ios_base::cur); // skip track ID
                         std::uint64_t off = reader().readUInt64BE();
-                        for (auto iOld = oldMdatOffsets.cbegin(), iNew = newMdatOffsets.cbegin(), end = oldMdatOffsets.cend(); iOld != end;
+                        // find the last atom starting at or before the base offset
+                        for (auto iOld = oldMdatOffsets.crbegin(), iNew = newMdatOffsets.crbegin(), end = oldMdatOffsets.crend(); iOld != end;
                             ++iOld, ++iNew) {
                             if (off < static_cast<std::uint64_t>(*iOld)) {
                                 continue;
diff --git a/mp4/mp4track.cpp b/mp4/mp4track.cpp
index 59161ff..11837ee 100644
--- a/mp4/mp4track.cpp
+++ b/mp4/mp4track.cpp
@@ -958,16 +958,16 @@ void Mp4Track::updateChunkOffsets(const vector<std::int64_t> &oldMdatOffsets, co
     m_istream->seekg(static_cast<streamoff>(startPos));
     m_ostream->seekp(static_cast<streamoff>(startPos));
     vector<std::int64_t>::size_type i;
-    vector<std::int64_t>::size_type size;
     auto currentPos = static_cast<std::uint64_t>(m_istream->tellg());
     switch (m_stcoAtom->id()) {
     case Mp4AtomIds::ChunkOffset: {
         std::uint32_t off;
         while ((currentPos + 4) <= endPos) {
             off = m_reader.readUInt32BE();
-            for (i = 0, size = oldMdatOffsets.size(); i < size; ++i) {
-                if (off > static_cast<std::uint64_t>(oldMdatOffsets[i])) {
-                    off += static_cast<std::uint32_t>(newMdatOffsets[i] - oldMdatOffsets[i]);
+            // find the last atom starting before the chunk
+            for (i = oldMdatOffsets.size(); i > 0; --i) {
+                if (off > static_cast<std::uint64_t>(oldMdatOffsets[i - 1])) {
+                    off += static_cast<std::uint32_t>(newMdatOffsets[i - 1] - oldMdatOffsets[i - 1]);
                     break;
                 }
             }
@@ -981,9 +981,10 @@ void Mp4Track::updateChunkOffsets(const vector<std::int64_t> &oldMdatOffsets, co
         std::uint64_t off;
         while ((currentPos + 8) <= endPos) {
             off = m_reader.readUInt64BE();
-            for (i = 0, size = oldMdatOffsets.size(); i < size; ++i) {
-                if (off > static_cast<std::uint64_t>(oldMdatOffsets[i])) {
-                    off += static_cast<std::uint64_t>(newMdatOffsets[i] - oldMdatOffsets[i]);
+            // find the last atom starting before the chunk
+            for (i = oldMdatOffsets.size(); i > 0; --i) {
+                if (off > static_cast<std::uint64_t>(oldMdatOffsets[i - 1])) {
+                    off += static_cast<std::uint64_t>(newMdatOffsets[i - 1] - oldMdatOffsets[i - 1]);
                     break;
                 }
             }
-- 
2.43.0


From cf758ef629f42957b880bd9f91adefe7271ca03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:38 +0000
Subject: [PATCH 074/172] fix: skip voided MP4 atoms entirely when updating a
 file in-place

---
 mp4/mp4container.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mp4/mp4container.cpp b/mp4/mp4container.cpp
index a378ad2..5038f89 100644
--- a/mp4/mp4container.cpp
+++ b/mp4/mp4container.cpp
@@ -821,6 +821,7 @@ calculatePadding:
                             // must void these if they occur "between" the media data
                             outputStream.seekp(4, ios_base::cur);
                             outputWriter.writeUInt32BE(Mp4AtomIds::Free);
+                            outputStream.seekp(static_cast<iostream::off_type>(level0Atom->totalSize() - 8), ios_base::cur);
                             break;
                         default:
                             outputStream.seekp(static_cast<iostream::off_type>(level0Atom->totalSize()), ios_base::cur);
-- 
2.43.0


From c2bc9662ab5caf0ab05f1eac8a3a3481d1d42471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:55 +0000
Subject: [PATCH 075/172] fix: handle saving MP4 files without media data

---
 mp4/mp4container.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/mp4/mp4container.cpp b/mp4/mp4container.cpp
index 5038f89..3850f28 100644
--- a/mp4/mp4container.cpp
+++ b/mp4/mp4container.cpp
@@ -333,7 +333,12 @@ void Mp4Container::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback
                 newTagPos = currentTagPos;
             }
         } else {
-            currentTagPos = ElementPosition::Keep;
+            // there is no media data at all (e.g. an initialization segment) -> just put movie atom and padding one after the other
+            currentTagPos = ElementPosition::BeforeData;
+            if (newTagPos == ElementPosition::Keep) {
+                newTagPos = currentTagPos;
+            }
+            rewriteRequired = true;
         }
 
         // ensure index and tags are always placed at the beginning when dealing with DASH files
@@ -908,7 +913,9 @@ calculatePadding:
                 }
             } else {
                 progress.updateStep("Updating chunk offset table for each track ...");
-                updateOffsets(origMediaDataOffsets, newMediaDataOffsets, diag, progress);
+                if (!origMediaDataOffsets.empty()) {
+                    updateOffsets(origMediaDataOffsets, newMediaDataOffsets, diag, progress);
+                }
             }
         }
 
-- 
2.43.0


From bf08228df409fe77a19be6f1988d84395e041b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:55 +0000
Subject: [PATCH 076/172] fix: write MP4 tags only once if source has multiple
 meta atoms

---
 mp4/mp4container.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mp4/mp4container.cpp b/mp4/mp4container.cpp
index 3850f28..7dbb5ba 100644
--- a/mp4/mp4container.cpp
+++ b/mp4/mp4container.cpp
@@ -649,11 +649,13 @@ calculatePadding:
                             for (level2Atom = level1Atom->firstChild(); level2Atom; level2Atom = level2Atom->nextSibling()) {
                                 switch (level2Atom->id()) {
                                 case Mp4AtomIds::Meta:
-                                    // write meta atom
-                                    for (auto &maker : tagMaker) {
-                                        maker.make(outputStream, diag);
+                                    // write meta atom (only once; tags from surplus meta atoms are ignored)
+                                    if (!metaAtomWritten) {
+                                        for (auto &maker : tagMaker) {
+                                            maker.make(outputStream, diag);
+                                        }
+                                        metaAtomWritten = true;
                                     }
-                                    metaAtomWritten = true;
                                     break;
                                 default:
                                     // write buffered data
-- 
2.43.0


From e7b7be67b5ca07df2f0315a40a374405d27905b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:22 +0000
Subject: [PATCH 077/172] fix: preserve all children of MP4 track and media
 atoms

---
 mp4/mp4track.cpp | 57 +++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 54 insertions(+), 3 deletions(-)

diff --git a/mp4/mp4track.cpp b/mp4/mp4track.cpp
index 11837ee..9a739f5 100644
--- a/mp4/mp4track.cpp
+++ b/mp4/mp4track.cpp
@@ -1113,6 +1113,21 @@ void Mp4Track::addInfo(const Av1Configuration &av1Config, AbstractTrack &track)
     throw NotImplementedException();
 }
 
+/*!
+ * \brief Returns whether the specified child of the mdia atom is none of those written by makeMedia() itself.
+ */
+static bool isAdditionalMediaChild(const Mp4Atom &mdiaChild)
+{
+    switch (mdiaChild.id()) {
+    case Mp4AtomIds::MediaHeader:
+    case Mp4AtomIds::HandlerReference:
+    case Mp4AtomIds::MediaInformation:
+        return false;
+    default:
+        return true;
+    }
+}
+
 /*!
  * \brief Buffers all atoms required by the makeTrack() method.
  *
@@ -1132,6 +1147,13 @@ void Mp4Track::bufferTrackAtoms(Diagnostics &diag)
         }
         trakChild->makeBuffer();
     }
+    if (m_mdiaAtom) {
+        for (Mp4Atom *childAtom = m_mdiaAtom->firstChild(); childAtom; childAtom = childAtom->nextSibling()) {
+            if (isAdditionalMediaChild(*childAtom)) {
+                childAtom->makeBuffer();
+            }
+        }
+    }
     if (m_minfAtom) {
         for (Mp4Atom *childAtom = m_minfAtom->firstChild(); childAtom; childAtom = childAtom->nextSibling()) {
             if (childAtom->id() == Mp4AtomIds::SampleTable) {
@@ -1199,7 +1221,20 @@ std::tuple<std::uint64_t, std::uint64_t> Mp4Track::calculateSampleTableSize(Diag
  */
 std::uint64_t Mp4Track::requiredSize(Diagnostics &diag) const
 {
-    CPP_UTILITIES_UNUSED(diag)
+    // ensure also children following the ones which have been looked up explicitly are parsed as otherwise they would be omitted
+    for (auto *const parentAtom : { m_trakAtom, m_mdiaAtom, m_minfAtom, m_stblAtom }) {
+        if (!parentAtom) {
+            continue;
+        }
+        try {
+            for (auto *childAtom = parentAtom->firstChild(); childAtom; childAtom = childAtom->nextSibling()) {
+                childAtom->parse(diag);
+            }
+        } catch (const Failure &) {
+            diag.emplace_back(DiagLevel::Warning, argsToString("Unable to parse all children of \"", parentAtom->idToString(), "\"-atom."),
+                argsToString("calculating size of track ", m_id));
+        }
+    }
 
     const auto &info = verifyPresentTrackHeader();
     // add size of
@@ -1215,7 +1250,7 @@ std::uint64_t Mp4Track::requiredSize(Diagnostics &diag) const
         size += trakChild->totalSize();
     }
     // ... mdhd total size
-    if (info.timingsVersion == 0) {
+    if (info.timings.requiredMdhdVersion() == 0) {
         // write version 0 where timing fields are 32-bit
         size += 32;
     } else {
@@ -1224,6 +1259,14 @@ std::uint64_t Mp4Track::requiredSize(Diagnostics &diag) const
     }
     // ... mdia header + hdlr total size + minf header
     size += 8 + (33 + m_name.size()) + 8;
+    // ... mdia children besides mdhd, hdlr and minf
+    if (m_mdiaAtom) {
+        for (Mp4Atom *childAtom = m_mdiaAtom->firstChild(); childAtom; childAtom = childAtom->nextSibling()) {
+            if (isAdditionalMediaChild(*childAtom)) {
+                size += childAtom->totalSize();
+            }
+        }
+    }
     // ... minf children
     auto dinfAtomWritten = false;
     if (m_minfAtom) {
@@ -1462,6 +1505,14 @@ void Mp4Track::makeMedia(Diagnostics &diag)
     for (int i = 0; i < 3; ++i)
         writer().writeUInt32BE(0); // reserved
     writer().writeTerminatedString(m_name);
+    // write other children of mdia atom
+    if (m_mdiaAtom) {
+        for (Mp4Atom *childAtom = m_mdiaAtom->firstChild(); childAtom; childAtom = childAtom->nextSibling()) {
+            if (isAdditionalMediaChild(*childAtom)) {
+                childAtom->copyPreferablyFromBuffer(outputStream(), diag, nullptr);
+            }
+        }
+    }
     // write minf atom
     makeMediaInfo(diag);
     // write size (of mdia atom)
@@ -1624,7 +1675,7 @@ void Mp4Track::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
     BinaryReader &reader = m_trakAtom->reader();
 
     // read tkhd atom
-    m_istream->seekg(static_cast<streamoff>(m_tkhdAtom->startOffset() + 8)); // seek to beg, skip size and name
+    m_istream->seekg(static_cast<streamoff>(m_tkhdAtom->dataOffset())); // seek to beg, skip size and name
     auto atomVersion = reader.readByte(); // read version
     const auto flags = reader.readUInt24BE();
     modFlagEnum(m_flags, TrackFlags::Enabled, flags & 0x000001);
-- 
2.43.0


From 24e98e2c2dee9cf18231ea3f98d7c4e27ae88035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:00 +0000
Subject: [PATCH 078/172] fix: denote MP4 media data size explicitly when
 appending further atoms

---
 mp4/mp4container.cpp | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/mp4/mp4container.cpp b/mp4/mp4container.cpp
index 7dbb5ba..056a695 100644
--- a/mp4/mp4container.cpp
+++ b/mp4/mp4container.cpp
@@ -269,7 +269,8 @@ void Mp4Container::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback
 
     // find relevant atoms in original file and determine media size
     Mp4Atom *fileTypeAtom, *progressiveDownloadInfoAtom, *movieAtom, *firstMediaDataAtom, *firstMovieFragmentAtom /*, *userDataAtom*/;
-    Mp4Atom *level0Atom, *level1Atom, *level2Atom, *lastAtomToBeWritten = nullptr;
+    Mp4Atom *level0Atom, *level1Atom, *level2Atom, *lastAtomToBeWritten = nullptr, *lastMediaDataAtom = nullptr;
+    auto lastMediaDataAtomExtendsUntilEndOfFile = false;
     try {
         // file type atom (mandatory)
         if ((fileTypeAtom = firstElement()->siblingByIdIncludingThis(Mp4AtomIds::FileType, diag))) {
@@ -322,8 +323,14 @@ void Mp4Container::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback
                     firstMediaDataAtom = level0Atom;
                 }
                 mediaSize += level0Atom->totalSize();
+                lastMediaDataAtom = level0Atom;
             }
         }
+        // check whether the last media data atom extends until the end of the file (only possible if it is the last atom at all)
+        if (lastMediaDataAtom && !lastMediaDataAtom->nextSibling()) {
+            stream().seekg(static_cast<iostream::off_type>(lastMediaDataAtom->startOffset()));
+            lastMediaDataAtomExtendsUntilEndOfFile = !reader().readUInt32BE();
+        }
 
         // determine current tag position
         // -> since tags are nested in the movie atom its position is relevant here
@@ -536,6 +543,14 @@ calculatePadding:
         }
     }
 
+    // check whether it is possible to write something after the last media data atom
+    if (lastMediaDataAtomExtendsUntilEndOfFile && newTagPos == ElementPosition::AfterData
+        && lastMediaDataAtom->totalSize() > numeric_limits<std::uint32_t>::max()) {
+        diag.emplace_back(DiagLevel::Critical,
+            "Unable to put index/tags at the end because the last atom extends until the end of the file and is too big.", context);
+        throw NotImplementedException();
+    }
+
     // setup stream(s) for writing
     // -> update status
     progress.nextStepOrStop("Preparing streams ...");
@@ -742,8 +757,14 @@ calculatePadding:
                             newMediaDataOffsets.push_back(outputStream.tellp());
                             // update status
                             progress.updateStep("Writing atom: " + level0Atom->idToString());
+                            // denote the size explicitly if the atom extends until the end of the file but is not going to be the last one
+                            const auto denoteSize = lastMediaDataAtomExtendsUntilEndOfFile && level0Atom == lastMediaDataAtom
+                                && newTagPos == ElementPosition::AfterData;
                             // copy atom entirely and forward status update calls
                             level0Atom->copyEntirely(outputStream, diag, &progress);
+                            if (denoteSize) {
+                                Mp4Atom::seekBackAndWriteAtomSize(outputStream, newMediaDataOffsets.back(), diag);
+                            }
                         }
                     }
 
@@ -832,6 +853,12 @@ calculatePadding:
                             break;
                         default:
                             outputStream.seekp(static_cast<iostream::off_type>(level0Atom->totalSize()), ios_base::cur);
+                            // denote the size explicitly if the atom extends until the end of the file but is not going to be the last one
+                            if (lastMediaDataAtomExtendsUntilEndOfFile && level0Atom == lastMediaDataAtom
+                                && newTagPos == ElementPosition::AfterData) {
+                                Mp4Atom::seekBackAndWriteAtomSize(
+                                    outputStream, static_cast<ostream::pos_type>(static_cast<iostream::off_type>(level0Atom->startOffset())), diag);
+                            }
                         }
                         if (level0Atom == lastAtomToBeWritten) {
                             break;
-- 
2.43.0


From e7c1baba0381afe7b4ade3e801e29450cd43d983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:57 +0000
Subject: [PATCH 079/172] fix: update random access tables of fragmented MP4
 files when media data is moved

---
 mp4/mp4container.cpp | 53 ++++++++++++++++++++++++++++++++++++++++++++
 mp4/mp4container.h   |  2 ++
 mp4/mp4ids.h         |  1 +
 3 files changed, 56 insertions(+)

diff --git a/mp4/mp4container.cpp b/mp4/mp4container.cpp
index 056a695..9330de3 100644
--- a/mp4/mp4container.cpp
+++ b/mp4/mp4container.cpp
@@ -11,6 +11,7 @@
 #include <c++utilities/io/copy.h>
 #include <c++utilities/io/path.h>
 
+#include <algorithm>
 #include <filesystem>
 #include <memory>
 #include <numeric>
@@ -1037,6 +1038,20 @@ void Mp4Container::updateOffsets(const std::vector<std::int64_t> &oldMdatOffsets
     } catch (const Failure &) {
         diag.emplace_back(DiagLevel::Critical, "Unable to parse top-level atom moof.", context);
     }
+    // update offsets of "moof"-atoms within the random access tables
+    try {
+        for (Mp4Atom *mfraAtom = firstElement()->siblingById(Mp4AtomIds::MovieFragmentRandomAccess, diag); mfraAtom;
+            mfraAtom = mfraAtom->siblingById(Mp4AtomIds::MovieFragmentRandomAccess, diag)) {
+            for (auto *tfraAtom = mfraAtom->denoteFirstChild(mfraAtom->headerSize()); tfraAtom; tfraAtom = tfraAtom->nextSibling()) {
+                tfraAtom->parse(diag);
+                if (tfraAtom->id() == Mp4AtomIds::TrackFragmentRandomAccess) {
+                    updateRandomAccessOffsets(*tfraAtom, oldMdatOffsets, newMdatOffsets, diag);
+                }
+            }
+        }
+    } catch (const Failure &) {
+        diag.emplace_back(DiagLevel::Critical, "Unable to parse top-level atom mfra.", context);
+    }
     // update each track
     for (auto &track : tracks()) {
         if (!track->isHeaderValid()) {
@@ -1059,4 +1074,42 @@ void Mp4Container::updateOffsets(const std::vector<std::int64_t> &oldMdatOffsets
     }
 }
 
+/*!
+ * \brief Updates the offsets of "moof"-atoms within the specified "tfra"-atom.
+ */
+void Mp4Container::updateRandomAccessOffsets(
+    Mp4Atom &tfraAtom, const std::vector<std::int64_t> &oldOffsets, const std::vector<std::int64_t> &newOffsets, Diagnostics &diag)
+{
+    if (tfraAtom.dataSize() < 16) {
+        diag.emplace_back(DiagLevel::Warning, "tfra atom is truncated.", "updating MP4 container random access table");
+        return;
+    }
+    stream().seekg(static_cast<iostream::off_type>(tfraAtom.dataOffset()));
+    const auto version = reader().readByte();
+    stream().seekg(7, ios_base::cur); // skip flags and track ID
+    const auto sizes = reader().readUInt32BE();
+    const auto numberSizes = static_cast<std::uint64_t>(((sizes >> 4) & 3u) + ((sizes >> 2) & 3u) + (sizes & 3u) + 3u);
+    const auto fieldSize = static_cast<std::uint64_t>(version ? 8u : 4u);
+    const auto entrySize = 2u * fieldSize + numberSizes;
+    const auto entryCount = std::min<std::uint64_t>(reader().readUInt32BE(), (tfraAtom.dataSize() - 16u) / entrySize);
+    for (auto entryOffset = tfraAtom.dataOffset() + 16u, end = entryOffset + entryCount * entrySize; entryOffset != end; entryOffset += entrySize) {
+        const auto moofOffsetPos = static_cast<iostream::off_type>(entryOffset + fieldSize);
+        stream().seekg(moofOffsetPos);
+        auto moofOffset = version ? reader().readUInt64BE() : static_cast<std::uint64_t>(reader().readUInt32BE());
+        for (auto iOld = oldOffsets.crbegin(), iNew = newOffsets.crbegin(), endOld = oldOffsets.crend(); iOld != endOld; ++iOld, ++iNew) {
+            if (moofOffset < static_cast<std::uint64_t>(*iOld)) {
+                continue;
+            }
+            moofOffset += static_cast<std::uint64_t>(*iNew - *iOld);
+            break;
+        }
+        stream().seekp(moofOffsetPos);
+        if (version) {
+            writer().writeUInt64BE(moofOffset);
+        } else {
+            writer().writeUInt32BE(static_cast<std::uint32_t>(moofOffset));
+        }
+    }
+}
+
 } // namespace TagParser
diff --git a/mp4/mp4container.h b/mp4/mp4container.h
index c636947..b903f45 100644
--- a/mp4/mp4container.h
+++ b/mp4/mp4container.h
@@ -37,6 +37,8 @@ protected:
 private:
     void updateOffsets(const std::vector<std::int64_t> &oldMdatOffsets, const std::vector<std::int64_t> &newMdatOffsets, Diagnostics &diag,
         AbortableProgressFeedback &progress);
+    void updateRandomAccessOffsets(
+        Mp4Atom &tfraAtom, const std::vector<std::int64_t> &oldOffsets, const std::vector<std::int64_t> &newOffsets, Diagnostics &diag);
 
     bool m_fragmented;
 };
diff --git a/mp4/mp4ids.h b/mp4/mp4ids.h
index 13a94cd..e00d3d0 100644
--- a/mp4/mp4ids.h
+++ b/mp4/mp4ids.h
@@ -70,6 +70,7 @@ enum KnownValue : std::uint32_t {
     TrackFragmentHeader = 0x74666864, /**< tfhd */
     TrackHeader = 0x746b6864, /**< tkhd */
     TrackFragment = 0x74726166, /**< traf */
+    TrackFragmentRandomAccess = 0x74667261, /**< tfra */
     Track = 0x7472616b, /**< trak */
     TrackReference = 0x74726566, /**< tref */
     TrackExtends = 0x74726578, /**< trex */
-- 
2.43.0


From 4b934015bdc23414f78e027da025ed679b256039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:40 +0000
Subject: [PATCH 080/172] fix: determine raw data type for each value of an MP4
 tag field individually

---
 mp4/mp4tagfield.cpp | 119 +++++++++++++++++++++++++++++++++++++-------
 mp4/mp4tagfield.h   |   6 ++-
 2 files changed, 105 insertions(+), 20 deletions(-)

diff --git a/mp4/mp4tagfield.cpp b/mp4/mp4tagfield.cpp
index bffd89b..479f5fd 100644
--- a/mp4/mp4tagfield.cpp
+++ b/mp4/mp4tagfield.cpp
@@ -144,10 +144,13 @@ void Mp4TagField::reparse(Mp4Atom &ilstChild, Diagnostics &diag)
                     diag.emplace_back(DiagLevel::Warning,
                         "The version indicator byte is not zero, the tag atom might be unsupported and hence not be parsed correctly.", context);
                 }
-                setTypeInfo(*rawDataType = reader.readUInt24BE());
+                *rawDataType = reader.readUInt24BE();
+                if (dataAtomFound == 1) {
+                    setTypeInfo(m_parsedRawDataType);
+                }
                 try { // try to show warning if parsed raw data type differs from expected raw data type for this atom id
                     const vector<std::uint32_t> expectedRawDataTypes = this->expectedRawDataTypes();
-                    if (find(expectedRawDataTypes.cbegin(), expectedRawDataTypes.cend(), m_parsedRawDataType) == expectedRawDataTypes.cend()) {
+                    if (find(expectedRawDataTypes.cbegin(), expectedRawDataTypes.cend(), *rawDataType) == expectedRawDataTypes.cend()) {
                         diag.emplace_back(DiagLevel::Warning, "Unexpected data type indicator found.", context);
                     }
                 } catch (const Failure &) {
@@ -160,13 +163,13 @@ void Mp4TagField::reparse(Mp4Atom &ilstChild, Diagnostics &diag)
                 case RawDataType::Utf16:
                     stream.seekg(static_cast<streamoff>(dataAtom->dataOffset() + 8));
                     val->assignText(reader.readString(dataAtom->dataSize() - 8),
-                        (m_parsedRawDataType == RawDataType::Utf16) ? TagTextEncoding::Utf16BigEndian : TagTextEncoding::Utf8);
+                        (*rawDataType == RawDataType::Utf16) ? TagTextEncoding::Utf16BigEndian : TagTextEncoding::Utf8);
                     break;
                 case RawDataType::Gif:
                 case RawDataType::Jpeg:
                 case RawDataType::Png:
                 case RawDataType::Bmp: {
-                    switch (m_parsedRawDataType) {
+                    switch (*rawDataType) {
                     case RawDataType::Gif:
                         val->setMimeType("image/gif");
                         break;
@@ -398,6 +401,23 @@ std::vector<std::uint32_t> Mp4TagField::expectedRawDataTypes() const
     return res;
 }
 
+/*!
+ * \brief Returns the raw data type for pictures of the specified \a mimeType.
+ */
+static std::optional<std::uint32_t> pictureRawDataType(std::string_view mimeType)
+{
+    if (mimeType == "image/jpg" || mimeType == "image/jpeg") { // "well-known" type
+        return RawDataType::Jpeg;
+    } else if (mimeType == "image/png") {
+        return RawDataType::Png;
+    } else if (mimeType == "image/bmp") {
+        return RawDataType::Bmp;
+    } else if (mimeType == "image/gif") {
+        return RawDataType::Gif;
+    }
+    return std::nullopt;
+}
+
 /*!
  * \brief Returns an appropriate raw data type.
  * \return
@@ -461,16 +481,11 @@ std::uint32_t Mp4TagField::appropriateRawDataTypeForValue(const TagValue &value)
     case Rating:
     case Mp4TagAtomIds::MediaType:
         return RawDataType::BeSignedInt;
-    case Cover: {
-        const string &mimeType = value.mimeType();
-        if (mimeType == "image/jpg" || mimeType == "image/jpeg") { // "well-known" type
-            return RawDataType::Jpeg;
-        } else if (mimeType == "image/png") {
-            return RawDataType::Png;
-        } else if (mimeType == "image/bmp") {
-            return RawDataType::Bmp;
+    case Cover:
+        if (const auto pictureType = pictureRawDataType(value.mimeType()); pictureType.has_value()) {
+            return pictureType.value();
         }
-    } break;
+        break;
     case Extended:
         if (mean() != Mp4TagExtendedMeanIds::iTunes) {
             throw Failure();
@@ -491,6 +506,68 @@ std::uint32_t Mp4TagField::appropriateRawDataTypeForValue(const TagValue &value)
     throw Failure();
 }
 
+/*!
+ * \brief Returns whether the specified \a value can be stored using the specified \a rawDataType.
+ *
+ * The raw data type read from the file is preserved as long as it still makes sense for the assigned value. It
+ * must not be used anymore if e.g. a PNG image has been replaced with a JPEG image.
+ */
+bool Mp4TagField::isRawDataTypeUsable(std::uint32_t rawDataType, const TagValue &value) const
+{
+    switch (rawDataType) {
+    case RawDataType::Gif:
+    case RawDataType::Jpeg:
+    case RawDataType::Png:
+    case RawDataType::Bmp: {
+        if (value.type() == TagDataType::Text) {
+            return false;
+        }
+        const auto typeForMimeType = pictureRawDataType(value.mimeType());
+        return !typeForMimeType.has_value() || typeForMimeType.value() == rawDataType;
+    }
+    case RawDataType::Utf8:
+    case RawDataType::Utf16:
+        return value.type() != TagDataType::Picture;
+    case RawDataType::BeSignedInt:
+    case RawDataType::BeUnsignedInt:
+        switch (value.type()) {
+        case TagDataType::Picture:
+            return false;
+        case TagDataType::Text:
+            switch (id()) {
+            case Mp4TagAtomIds::MediaType:
+            case Mp4TagAtomIds::Rating:
+                return true;
+            default:;
+            }
+            try {
+                return value.toInteger(), true;
+            } catch (const ConversionException &) {
+                return false;
+            }
+        default:
+            return true;
+        }
+    default:
+        // avoid storing text and pictures as untyped data
+        switch (id()) {
+        case Mp4TagAtomIds::TrackPosition:
+        case Mp4TagAtomIds::DiskPosition:
+        case Mp4TagAtomIds::PreDefinedGenre:
+            return true;
+        default:;
+        }
+        switch (value.type()) {
+        case TagDataType::Text:
+            return value.dataEncoding() == TagTextEncoding::Utf8 && rawDataType != RawDataType::Reserved && rawDataType != RawDataType::Undefined;
+        case TagDataType::Picture:
+            return !pictureRawDataType(value.mimeType()).has_value();
+        default:
+            return true;
+        }
+    }
+}
+
 /*!
  * \brief Clears MP4-specific values. Called via clear() and clearValue().
  */
@@ -549,9 +626,11 @@ Mp4TagFieldMaker::Mp4TagFieldMaker(Mp4TagField &field, Diagnostics &diag)
     m_totalSize = 8 + (m_field.name().empty() ? 0 : (12 + m_field.name().size())) + (m_field.mean().empty() ? 0 : (12 + m_field.mean().size()));
 
     // prepare making data atom and calculate the expected size
-    m_totalSize += prepareDataAtom(field.value(), field.countryIndicator(), field.languageIndicator(), context, diag);
+    const auto rawDataType = m_field.isTypeInfoAssigned() ? std::make_optional(m_field.typeInfo()) : std::nullopt;
+    m_totalSize += prepareDataAtom(field.value(), rawDataType, field.countryIndicator(), field.languageIndicator(), context, diag);
     for (const auto &additionalData : m_field.additionalData()) {
-        m_totalSize += prepareDataAtom(additionalData.value, additionalData.countryIndicator, additionalData.languageIndicator, context, diag);
+        m_totalSize += prepareDataAtom(additionalData.value, additionalData.rawDataType, additionalData.countryIndicator,
+            additionalData.languageIndicator, context, diag);
     }
 
     if (m_totalSize > numeric_limits<std::uint32_t>::max()) {
@@ -589,8 +668,8 @@ static bool writeSpecialInteger(std::underlying_type_t<Mp4TagAtomIds::KnownValue
 /*!
  * \brief Prepares making a data atom for the specified \a value.
  */
-std::uint64_t Mp4TagFieldMaker::prepareDataAtom(
-    const TagValue &value, std::uint16_t countryIndicator, std::uint16_t languageIndicator, const std::string &context, Diagnostics &diag)
+std::uint64_t Mp4TagFieldMaker::prepareDataAtom(const TagValue &value, std::optional<std::uint32_t> rawDataType, std::uint16_t countryIndicator,
+    std::uint16_t languageIndicator, const std::string &context, Diagnostics &diag)
 {
     // add new data entry
     auto &data = m_data.emplace_back();
@@ -603,7 +682,10 @@ std::uint64_t Mp4TagFieldMaker::prepareDataAtom(
 
     try {
         // try to use appropriate raw data type
-        data.rawType = m_field.isTypeInfoAssigned() ? m_field.typeInfo() : m_field.appropriateRawDataTypeForValue(value);
+        data.rawType = rawDataType.value_or(RawDataType::Reserved);
+        if (!rawDataType.has_value() || !m_field.isRawDataTypeUsable(data.rawType, value)) {
+            data.rawType = m_field.appropriateRawDataTypeForValue(value);
+        }
     } catch (const Failure &) {
         // unable to obtain appropriate raw data type
         if (m_field.id() == Mp4TagAtomIds::Cover) {
@@ -659,6 +741,7 @@ std::uint64_t Mp4TagFieldMaker::prepareDataAtom(
                 break;
             }
             case RawDataType::Bmp:
+            case RawDataType::Gif:
             case RawDataType::Jpeg:
             case RawDataType::Png:
                 break; // leave converted data empty to write original data later
diff --git a/mp4/mp4tagfield.h b/mp4/mp4tagfield.h
index a491763..d624d13 100644
--- a/mp4/mp4tagfield.h
+++ b/mp4/mp4tagfield.h
@@ -7,6 +7,7 @@
 #include <c++utilities/io/binarywriter.h>
 
 #include <cstdint>
+#include <optional>
 #include <sstream>
 #include <vector>
 
@@ -84,8 +85,8 @@ private:
     /// \endcond
 
     Mp4TagFieldMaker(Mp4TagField &field, Diagnostics &diag);
-    std::uint64_t prepareDataAtom(
-        const TagValue &value, std::uint16_t countryIndicator, std::uint16_t languageIndicator, const std::string &context, Diagnostics &diag);
+    std::uint64_t prepareDataAtom(const TagValue &value, std::optional<std::uint32_t> rawDataType, std::uint16_t countryIndicator,
+        std::uint16_t languageIndicator, const std::string &context, Diagnostics &diag);
 
     Mp4TagField &m_field;
     CppUtilities::BinaryWriter m_writer;
@@ -142,6 +143,7 @@ public:
     std::vector<std::uint32_t> expectedRawDataTypes() const;
     std::uint32_t appropriateRawDataType() const;
     std::uint32_t appropriateRawDataTypeForValue(const TagValue &value) const;
+    bool isRawDataTypeUsable(std::uint32_t rawDataType, const TagValue &value) const;
 
     static IdentifierType fieldIdFromString(std::string_view idString);
     static std::string fieldIdToString(IdentifierType id);
-- 
2.43.0


From 1ca3ca406a2dd858cbeff7516ddf8a0dcb915ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:40 +0000
Subject: [PATCH 081/172] fix: write UTF-16 text within MP4 tags using big
 endian byte order

---
 mp4/mp4tagfield.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mp4/mp4tagfield.cpp b/mp4/mp4tagfield.cpp
index 479f5fd..0d93084 100644
--- a/mp4/mp4tagfield.cpp
+++ b/mp4/mp4tagfield.cpp
@@ -710,8 +710,8 @@ std::uint64_t Mp4TagFieldMaker::prepareDataAtom(const TagValue &value, std::opti
                 }
                 break;
             case RawDataType::Utf16:
-                if (value.type() != TagDataType::Text || value.dataEncoding() != TagTextEncoding::Utf16LittleEndian) {
-                    m_writer.writeString(value.toString(TagTextEncoding::Utf16LittleEndian));
+                if (value.type() != TagDataType::Text || value.dataEncoding() != TagTextEncoding::Utf16BigEndian) {
+                    m_writer.writeString(value.toString(TagTextEncoding::Utf16BigEndian));
                 }
                 break;
             case RawDataType::BeSignedInt: {
-- 
2.43.0


From 27c29623c4f2387676353b2a9087eaebfc40a201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:12 +0000
Subject: [PATCH 082/172] fix: write index of predefined genre within MP4 tags
 the way it is parsed

---
 mp4/mp4tagfield.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mp4/mp4tagfield.cpp b/mp4/mp4tagfield.cpp
index 0d93084..32fc27a 100644
--- a/mp4/mp4tagfield.cpp
+++ b/mp4/mp4tagfield.cpp
@@ -475,8 +475,8 @@ std::uint32_t Mp4TagField::appropriateRawDataTypeForValue(const TagValue &value)
         break;
     case TrackPosition:
     case DiskPosition:
-        return RawDataType::Reserved;
     case PreDefinedGenre:
+        return RawDataType::Reserved;
     case Bpm:
     case Rating:
     case Mp4TagAtomIds::MediaType:
@@ -659,6 +659,9 @@ static bool writeSpecialInteger(std::underlying_type_t<Mp4TagAtomIds::KnownValue
             }
         }
         break;
+    case Mp4TagAtomIds::PreDefinedGenre:
+        writer.writeUInt16BE(static_cast<std::uint16_t>(value.toStandardGenreIndex() + 1));
+        return true;
     default:;
     }
     return false;
@@ -764,7 +767,7 @@ std::uint64_t Mp4TagFieldMaker::prepareDataAtom(const TagValue &value, std::opti
                     break;
                 }
                 case Mp4TagAtomIds::PreDefinedGenre:
-                    m_writer.writeUInt16BE(static_cast<std::uint16_t>(value.toStandardGenreIndex()));
+                    m_writer.writeUInt16BE(static_cast<std::uint16_t>(value.toStandardGenreIndex() + 1));
                     break;
                 default:
                     if (writeSpecialInteger(m_field.id(), value, m_writer)) {
-- 
2.43.0


From a2cca606dd00fd5131228f0310dcf2684cf06276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:31 +0000
Subject: [PATCH 083/172] fix: preserve integers within MP4 tags regardless of
 their size

---
 mp4/mp4tagfield.cpp | 41 +++++++++++++++++++++++++++++++++++------
 1 file changed, 35 insertions(+), 6 deletions(-)

diff --git a/mp4/mp4tagfield.cpp b/mp4/mp4tagfield.cpp
index 32fc27a..5e8e8fe 100644
--- a/mp4/mp4tagfield.cpp
+++ b/mp4/mp4tagfield.cpp
@@ -191,12 +191,27 @@ void Mp4TagField::reparse(Mp4Atom &ilstChild, Diagnostics &diag)
                     break;
                 }
                 case RawDataType::BeSignedInt: {
-                    auto number = int();
-                    if (dataAtom->dataSize() > (8 + 4)) {
+                    auto number = std::int32_t();
+                    if (dataAtom->dataSize() == (8 + 8)) {
+                        const auto number64 = reader.readInt64BE();
+                        if (number64 > std::numeric_limits<std::int32_t>::max()) {
+                            val->assignUnsignedInteger(static_cast<std::uint64_t>(number64));
+                            break;
+                        } else if (number64 < std::numeric_limits<std::int32_t>::min()) {
+                            // preserve raw data as the number is not representable by TagValue
+                            auto data = make_unique<char[]>(8);
+                            BE::getBytes(number64, data.get());
+                            val->assignData(std::move(data), 8, TagDataType::Binary);
+                            break;
+                        }
+                        number = static_cast<std::int32_t>(number64);
+                    } else if (dataAtom->dataSize() > (8 + 4)) {
                         diag.emplace_back(DiagLevel::Warning, "Data atom stores integer of invalid size. Trying to read data anyway.", context);
-                    }
-                    if (dataAtom->dataSize() >= (8 + 4)) {
                         number = reader.readInt32BE();
+                    } else if (dataAtom->dataSize() == (8 + 4)) {
+                        number = reader.readInt32BE();
+                    } else if (dataAtom->dataSize() == (8 + 3)) {
+                        number = reader.readInt24BE();
                     } else if (dataAtom->dataSize() == (8 + 2)) {
                         number = reader.readInt16BE();
                     } else if (dataAtom->dataSize() == (8 + 1)) {
@@ -216,13 +231,15 @@ void Mp4TagField::reparse(Mp4Atom &ilstChild, Diagnostics &diag)
                         number = reader.readUInt64BE();
                     } else if (dataAtom->dataSize() >= (8 + 4)) {
                         number = reader.readUInt32BE();
+                    } else if (dataAtom->dataSize() == (8 + 3)) {
+                        number = reader.readUInt24BE();
                     } else if (dataAtom->dataSize() == (8 + 2)) {
                         number = reader.readUInt16BE();
                     } else if (dataAtom->dataSize() == (8 + 1)) {
                         number = reader.readByte();
                     }
-                    if (number <= static_cast<std::uint64_t>(std::numeric_limits<int>::max())
-                        && !assignSpecialInteger(ilstChild, static_cast<int>(number), *val)) {
+                    if (number > static_cast<std::uint64_t>(std::numeric_limits<int>::max())
+                        || !assignSpecialInteger(ilstChild, static_cast<int>(number), *val)) {
                         val->assignUnsignedInteger(number);
                     }
                     break;
@@ -721,6 +738,18 @@ std::uint64_t Mp4TagFieldMaker::prepareDataAtom(const TagValue &value, std::opti
                 if (writeSpecialInteger(m_field.id(), value, m_writer)) {
                     break;
                 }
+                if (value.type() == TagDataType::Binary) {
+                    break; // leave converted data empty to write original data later
+                }
+                if (value.type() == TagDataType::UnsignedInteger) {
+                    const auto number = value.toUnsignedInteger();
+                    if (number > static_cast<std::uint64_t>(numeric_limits<std::int64_t>::max())) {
+                        throw ConversionException("The number is too big to be stored as signed integer.");
+                    } else if (number > static_cast<std::uint64_t>(numeric_limits<std::int32_t>::max())) {
+                        m_writer.writeUInt64BE(number);
+                        break;
+                    }
+                }
                 const auto number = value.toInteger();
                 if (number <= numeric_limits<std::int16_t>::max() && number >= numeric_limits<std::int16_t>::min()) {
                     m_writer.writeInt16BE(static_cast<std::int16_t>(number));
-- 
2.43.0


From fe6891a3812b29dde61e104753663f715f21d0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:31 +0000
Subject: [PATCH 084/172] fix: read short meaning of extended MP4 tag fields

---
 mp4/mp4tagfield.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mp4/mp4tagfield.cpp b/mp4/mp4tagfield.cpp
index 5e8e8fe..e7dcdf7 100644
--- a/mp4/mp4tagfield.cpp
+++ b/mp4/mp4tagfield.cpp
@@ -282,7 +282,7 @@ void Mp4TagField::reparse(Mp4Atom &ilstChild, Diagnostics &diag)
                     }
                 }
             } else if (dataAtom->id() == Mp4AtomIds::Mean) {
-                if (dataAtom->dataSize() < 8) {
+                if (dataAtom->dataSize() < 4) {
                     diag.emplace_back(DiagLevel::Warning,
                         "Truncated child atom \"mean\" in tag atom (ilst child) found. It will be ignored and discarded when applying changes.",
                         context);
-- 
2.43.0


From 81248bd3628c43ed83c3c24e741a249b74abac8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:31 +0000
Subject: [PATCH 085/172] fix: deny writing positions which do not fit into MP4
 tag field

---
 mp4/mp4tagfield.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mp4/mp4tagfield.cpp b/mp4/mp4tagfield.cpp
index e7dcdf7..30cb70b 100644
--- a/mp4/mp4tagfield.cpp
+++ b/mp4/mp4tagfield.cpp
@@ -784,13 +784,14 @@ std::uint64_t Mp4TagFieldMaker::prepareDataAtom(const TagValue &value, std::opti
                 case Mp4TagAtomIds::TrackPosition:
                 case Mp4TagAtomIds::DiskPosition: {
                     PositionInSet pos = value.toPositionInSet();
-                    m_writer.writeInt32BE(pos.position());
-                    if (pos.total() <= numeric_limits<std::int16_t>::max()) {
-                        m_writer.writeInt16BE(static_cast<std::int16_t>(pos.total()));
+                    constexpr auto max = static_cast<std::int32_t>(numeric_limits<std::uint16_t>::max());
+                    if (pos.position() >= 0 && pos.position() <= max && pos.total() >= 0 && pos.total() <= max) {
+                        m_writer.writeInt32BE(pos.position());
+                        m_writer.writeUInt16BE(static_cast<std::uint16_t>(pos.total()));
                     } else {
                         throw ConversionException(
                             "Integer can not be assigned to the field with the id \"" % interpretIntegerAsString<std::uint32_t>(m_field.id())
-                            + "\" because it is to big.");
+                            + "\" because it is out of range.");
                     }
                     m_writer.writeUInt16BE(0);
                     break;
-- 
2.43.0


From 663c6eb33135083d1a4ea5edf89be326abe34a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:51 +0000
Subject: [PATCH 086/172] fix: set values of extended MP4 tag fields correctly

---
 mp4/mp4tag.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/mp4/mp4tag.cpp b/mp4/mp4tag.cpp
index eb230b6..bb5f218 100644
--- a/mp4/mp4tag.cpp
+++ b/mp4/mp4tag.cpp
@@ -329,14 +329,18 @@ bool Mp4Tag::setValues(KnownField field, const std::vector<TagValue> &values)
                 ++valuesIterator;
             }
         }
-        for (; valuesIterator != values.cend(); ++valuesIterator) {
-            if (valuesIterator->isEmpty()) {
-                fields().emplace(std::piecewise_construct, std::forward_as_tuple(Mp4TagAtomIds::Extended),
-                    std::forward_as_tuple(extendedId.mean, extendedId.name, *valuesIterator));
+        if (!extendedId.updateOnly) {
+            for (; valuesIterator != values.cend(); ++valuesIterator) {
+                if (!valuesIterator->isEmpty()) {
+                    fields().emplace(std::piecewise_construct, std::forward_as_tuple(Mp4TagAtomIds::Extended),
+                        std::forward_as_tuple(extendedId.mean, extendedId.name, *valuesIterator));
+                }
             }
         }
         for (; range.first != range.second; ++range.first) {
-            range.first->second.clearValue();
+            if (extendedId.matches(range.first->second)) {
+                range.first->second.clearValue();
+            }
         }
     }
     return FieldMapBasedTag<Mp4Tag>::setValues(field, values);
@@ -358,7 +362,9 @@ bool Mp4Tag::setValue(std::string_view mean, std::string_view name, const TagVal
             return true;
         }
     }
-    fields().insert(make_pair(Mp4TagAtomIds::Extended, FieldType(mean, name, value)));
+    if (!value.isEmpty()) {
+        fields().insert(make_pair(Mp4TagAtomIds::Extended, FieldType(mean, name, value)));
+    }
     return true;
 }
 
-- 
2.43.0


From 3669d65aaf3282f0feadfe908a2b717493160bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:10 +0000
Subject: [PATCH 087/172] fix: consider values of extended MP4 tag fields when
 checking whether a field is present

---
 mp4/mp4tag.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mp4/mp4tag.cpp b/mp4/mp4tag.cpp
index bb5f218..dbb17a7 100644
--- a/mp4/mp4tag.cpp
+++ b/mp4/mp4tag.cpp
@@ -342,6 +342,9 @@ bool Mp4Tag::setValues(KnownField field, const std::vector<TagValue> &values)
                 range.first->second.clearValue();
             }
         }
+        if (!extendedId.updateOnly) {
+            return true;
+        }
     }
     return FieldMapBasedTag<Mp4Tag>::setValues(field, values);
 }
@@ -373,6 +376,9 @@ bool Mp4Tag::hasField(KnownField field) const
     switch (field) {
     case KnownField::Genre:
         return FieldMapBasedTag<Mp4Tag>::hasField(Mp4TagAtomIds::PreDefinedGenre) || FieldMapBasedTag<Mp4Tag>::hasField(Mp4TagAtomIds::Genre);
+    case KnownField::EncoderSettings:
+    case KnownField::RecordLabel:
+        return !value(field).isEmpty();
     default:
         return FieldMapBasedTag<Mp4Tag>::hasField(field);
     }
-- 
2.43.0


From 67a49d17d42574bd71b02de9c64c6db5cd054542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:14 +0000
Subject: [PATCH 088/172] fix: avoid storing text using a non-text data type
 within MP4 tags

---
 mp4/mp4tagfield.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/mp4/mp4tagfield.cpp b/mp4/mp4tagfield.cpp
index 30cb70b..c67347a 100644
--- a/mp4/mp4tagfield.cpp
+++ b/mp4/mp4tagfield.cpp
@@ -576,7 +576,18 @@ bool Mp4TagField::isRawDataTypeUsable(std::uint32_t rawDataType, const TagValue
         }
         switch (value.type()) {
         case TagDataType::Text:
-            return value.dataEncoding() == TagTextEncoding::Utf8 && rawDataType != RawDataType::Reserved && rawDataType != RawDataType::Undefined;
+            switch (rawDataType) {
+            case RawDataType::Utf8Sort:
+            case RawDataType::Html:
+            case RawDataType::Xml:
+            case RawDataType::Isrc:
+            case RawDataType::Mi3p:
+            case RawDataType::Url:
+            case RawDataType::Upc:
+                return value.dataEncoding() == TagTextEncoding::Utf8;
+            default:
+                return false;
+            }
         case TagDataType::Picture:
             return !pictureRawDataType(value.mimeType()).has_value();
         default:
-- 
2.43.0


From 86af657384d5e73f6a42ae8596182151f31e5acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:55 +0000
Subject: [PATCH 089/172] fix: avoid using an unsigned data type for negative
 numbers within MP4 tags

---
 mp4/mp4tagfield.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/mp4/mp4tagfield.cpp b/mp4/mp4tagfield.cpp
index c67347a..891a88a 100644
--- a/mp4/mp4tagfield.cpp
+++ b/mp4/mp4tagfield.cpp
@@ -557,8 +557,16 @@ bool Mp4TagField::isRawDataTypeUsable(std::uint32_t rawDataType, const TagValue
                 return true;
             default:;
             }
+            [[fallthrough]];
+        case TagDataType::Integer:
+        case TagDataType::UnsignedInteger:
             try {
-                return value.toInteger(), true;
+                if (rawDataType == RawDataType::BeUnsignedInt) {
+                    value.toUnsignedInteger();
+                } else if (value.type() != TagDataType::UnsignedInteger) {
+                    value.toInteger();
+                }
+                return true;
             } catch (const ConversionException &) {
                 return false;
             }
-- 
2.43.0


From 450ba01302ef201c29c19ff5a168c82ea8101b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:21 +0000
Subject: [PATCH 090/172] fix: read 4-bit sample sizes of the MP4 stz2 atom
 correctly and not past its end

---
 mp4/mp4track.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mp4/mp4track.cpp b/mp4/mp4track.cpp
index 9a739f5..9432589 100644
--- a/mp4/mp4track.cpp
+++ b/mp4/mp4track.cpp
@@ -2034,13 +2034,13 @@ void Mp4Track::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
             std::uint32_t i = 1;
             switch (fieldSize) {
             case 4:
-                for (; i <= actualSampleCount; i += 2) {
+                for (; i < actualSampleCount; i += 2) {
                     std::uint8_t val = reader.readByte();
                     m_sampleSizes.push_back(val >> 4);
-                    m_sampleSizes.push_back(val & 0xF0);
-                    m_size += (val >> 4) + (val & 0xF0);
+                    m_sampleSizes.push_back(val & 0x0F);
+                    m_size += (val >> 4) + (val & 0x0F);
                 }
-                if (i <= actualSampleCount + 1) {
+                if (i <= actualSampleCount) {
                     m_sampleSizes.push_back(reader.readByte() >> 4);
                     m_size += m_sampleSizes.back();
                 }
-- 
2.43.0


From d72b79685f5fc9e8ee4bbbaf80dd85d74ab3a36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:49 +0000
Subject: [PATCH 091/172] fix: write the ilst atom of empty MP4 tags so they
 are recognized when reading the file again

---
 mp4/mp4tag.cpp | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/mp4/mp4tag.cpp b/mp4/mp4tag.cpp
index dbb17a7..4334dc8 100644
--- a/mp4/mp4tag.cpp
+++ b/mp4/mp4tag.cpp
@@ -505,9 +505,7 @@ Mp4TagMaker::Mp4TagMaker(Mp4Tag &tag, Diagnostics &diag)
             }
         }
     }
-    if (m_ilstSize != 8) {
-        m_metaSize += m_ilstSize;
-    }
+    m_metaSize += m_ilstSize;
     if (m_metaSize >= numeric_limits<std::uint32_t>::max()) {
         diag.emplace_back(DiagLevel::Critical, "Making such big tags is not implemented.", "making MP4 tag");
         throw NotImplementedException();
@@ -531,16 +529,14 @@ void Mp4TagMaker::make(ostream &stream, Diagnostics &diag)
     static const std::uint8_t hdlrData[37] = { 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x21, 0x68, 0x64, 0x6C, 0x72, 0x00, 0x00, 0x00, 0x00, 0x00,
         0x00, 0x00, 0x00, 0x6D, 0x64, 0x69, 0x72, 0x61, 0x70, 0x70, 0x6C, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00 };
     stream.write(reinterpret_cast<const char *>(hdlrData), sizeof(hdlrData));
-    if (m_ilstSize != 8) {
-        // write ilst head
-        writer.writeUInt32BE(static_cast<std::uint32_t>(m_ilstSize));
-        writer.writeUInt32BE(Mp4AtomIds::ItunesList);
-        // write fields
-        for (auto &maker : m_maker) {
-            maker.make(stream);
-        }
-    } else {
-        // no fields to be written -> no ilst to be written
+    // write ilst head (also if there are no fields as a meta atom without ilst atom is not considered a tag)
+    writer.writeUInt32BE(static_cast<std::uint32_t>(m_ilstSize));
+    writer.writeUInt32BE(Mp4AtomIds::ItunesList);
+    // write fields
+    for (auto &maker : m_maker) {
+        maker.make(stream);
+    }
+    if (m_maker.empty()) {
         diag.emplace_back(DiagLevel::Warning, "Tag is empty.", "making MP4 tag");
     }
 }
-- 
2.43.0


From a0967aeebefa7dcdea20da24456e393d3893fae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:49 +0000
Subject: [PATCH 092/172] fix: do not ignore errors when writing the last
 buffered data before reopening MP4, Matroska and Ogg files

---
 matroska/matroskacontainer.cpp | 1 +
 mp4/mp4container.cpp           | 1 +
 ogg/oggcontainer.cpp           | 3 +++
 3 files changed, 5 insertions(+)

diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index 22b8c3f..40241a2 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -1824,6 +1824,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
 
         // reparse what is written so far
         progress.updateStep("Reparsing output file ...");
+        outputStream.flush(); // ensure errors occurring when writing buffered data are not ignored when closing the stream
         if (rewriteRequired) {
             // report new size
             fileInfo().reportSizeChanged(static_cast<std::uint64_t>(outputStream.tellp()));
diff --git a/mp4/mp4container.cpp b/mp4/mp4container.cpp
index 9330de3..a65a09c 100644
--- a/mp4/mp4container.cpp
+++ b/mp4/mp4container.cpp
@@ -871,6 +871,7 @@ calculatePadding:
 
         // reparse what is written so far
         progress.updateStep("Reparsing output file ...");
+        outputStream.flush(); // ensure errors occurring when writing buffered data are not ignored when closing the stream
         if (rewriteRequired) {
             // report new size
             fileInfo().reportSizeChanged(static_cast<std::uint64_t>(outputStream.tellp()));
diff --git a/ogg/oggcontainer.cpp b/ogg/oggcontainer.cpp
index 525f54b..80262b0 100644
--- a/ogg/oggcontainer.cpp
+++ b/ogg/oggcontainer.cpp
@@ -677,6 +677,9 @@ void OggContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback
             }
         }
 
+        // ensure errors occurring when writing buffered data are not ignored when closing the stream
+        stream().flush();
+
         // report new size
         fileInfo().reportSizeChanged(static_cast<std::uint64_t>(stream().tellp()));
         progress.updateStepPercentage(100);
-- 
2.43.0


From 7432f6667ee861a628b0d2ddce1aaa4535c8ba63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:34 +0000
Subject: [PATCH 093/172] fix: store media type and rating of MP4 tags always
 with the same size

---
 mp4/mp4tagfield.cpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/mp4/mp4tagfield.cpp b/mp4/mp4tagfield.cpp
index 891a88a..ab9e000 100644
--- a/mp4/mp4tagfield.cpp
+++ b/mp4/mp4tagfield.cpp
@@ -676,11 +676,27 @@ Mp4TagFieldMaker::Mp4TagFieldMaker(Mp4TagField &field, Diagnostics &diag)
 }
 
 /// \cond
+static bool writeSmallInteger(const TagValue &value, CppUtilities::BinaryWriter &writer)
+{
+    // store small numbers the same way as names to avoid that the size changes when rewriting a number which was read as name
+    if (value.type() == TagDataType::Integer ? value.toInteger() < 0 : value.type() != TagDataType::UnsignedInteger) {
+        return false;
+    }
+    const auto number = value.toUnsignedInteger();
+    if (number > static_cast<std::uint64_t>(numeric_limits<std::int8_t>::max())) {
+        return false;
+    }
+    writer.writeByte(static_cast<std::uint8_t>(number));
+    return true;
+}
+
 static bool writeSpecialInteger(std::underlying_type_t<Mp4TagAtomIds::KnownValue> fieldId, const TagValue &value, CppUtilities::BinaryWriter &writer)
 {
     switch (fieldId) {
     case Mp4TagAtomIds::MediaType:
-        if (value.type() == TagDataType::Text) {
+        if (writeSmallInteger(value, writer)) {
+            return true;
+        } else if (value.type() == TagDataType::Text) {
             if (const auto id = mp4TagMediaTypeId(value.toString(TagTextEncoding::Utf8)); id.has_value()) {
                 writer.writeByte(static_cast<Mp4TagMediaTypeId>(id.value()));
                 return true;
@@ -688,7 +704,9 @@ static bool writeSpecialInteger(std::underlying_type_t<Mp4TagAtomIds::KnownValue
         }
         break;
     case Mp4TagAtomIds::Rating:
-        if (value.type() == TagDataType::Text) {
+        if (writeSmallInteger(value, writer)) {
+            return true;
+        } else if (value.type() == TagDataType::Text) {
             if (const auto id = mp4TagContentRatingId(value.toString(TagTextEncoding::Utf8)); id.has_value()) {
                 writer.writeByte(static_cast<Mp4TagContentRatingId>(id.value()));
                 return true;
-- 
2.43.0


From 97824699bb849237782d17ac59f68b86694a9def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:41 +0000
Subject: [PATCH 094/172] fix: keep all values when inserting fields of a tag
 into another one

When inserting several fields with the same ID only the last one was kept (or
only the first one if fields should not be overwritten). An existing value was
also amended if another field with the same ID had been cleared before and
extended MP4 fields replaced other extended fields.
---
 fieldbasedtag.h | 47 +++++++++++++++++++++++++++++++++++------------
 mp4/mp4tag.cpp  |  8 ++++++++
 mp4/mp4tag.h    |  1 +
 3 files changed, 44 insertions(+), 12 deletions(-)

diff --git a/fieldbasedtag.h b/fieldbasedtag.h
index 6d95b6c..bb2d78f 100644
--- a/fieldbasedtag.h
+++ b/fieldbasedtag.h
@@ -5,6 +5,7 @@
 
 #include <functional>
 #include <map>
+#include <set>
 
 namespace TagParser {
 
@@ -72,6 +73,7 @@ protected:
     bool internallySetValue(const IdentifierType &id, const TagValue &value);
     bool internallySetValues(const IdentifierType &id, const std::vector<TagValue> &values);
     bool internallyHasField(const IdentifierType &id) const;
+    bool internallyAreFieldsCorresponding(const FieldType &field, const FieldType &otherField) const;
     // no default implementation: IdentifierType internallyGetFieldId(KnownField field) const;
     // no default implementation: KnownField internallyGetKnownField(const IdentifierType &id) const;
     TagDataType internallyGetProposedDataType(const IdentifierType &id) const;
@@ -391,6 +393,18 @@ template <class ImplementationType> inline TagDataType FieldMapBasedTag<Implemen
     return static_cast<ImplementationType *>(this)->determineProposedDataType(id);
 }
 
+/*!
+ * \brief Default implementation for determining whether the specified fields (which have the same ID) are considered the
+ *        same field when inserting fields from one tag into another.
+ */
+template <class ImplementationType>
+bool FieldMapBasedTag<ImplementationType>::internallyAreFieldsCorresponding(
+    const FieldMapBasedTag<ImplementationType>::FieldType &field, const FieldMapBasedTag<ImplementationType>::FieldType &otherField) const
+{
+    return field.isTypeInfoAssigned() == otherField.isTypeInfoAssigned()
+        && (!field.isTypeInfoAssigned() || field.typeInfo() == otherField.typeInfo());
+}
+
 /*!
  * \brief Inserts all fields \a from another tag of the same field type and compare function.
  * \param from Specifies the tag the fields should be inserted from.
@@ -401,29 +415,38 @@ template <class ImplementationType>
 std::size_t FieldMapBasedTag<ImplementationType>::insertFields(const FieldMapBasedTag<ImplementationType> &from, bool overwrite)
 {
     auto fieldsInserted = std::size_t(0);
+    auto assignedFields = std::set<const FieldType *>();
     for (const auto &pair : from.fields()) {
         const FieldType &fromField = pair.second;
         if (fromField.value().isEmpty()) {
             continue;
         }
-        bool fieldInserted = false;
+        // find the field to be replaced considering only fields which have not been assigned here before (so multiple
+        // fields of the other tag sharing the same ID don't replace each other)
+        auto *fieldToReplace = static_cast<FieldType *>(nullptr);
+        auto keepExisting = false;
         auto range = fields().equal_range(fromField.id());
-        for (auto i = range.first; i != range.second; ++i) {
+        for (auto i = range.first; i != range.second && !keepExisting; ++i) {
             FieldType &ownField = i->second;
-            if ((fromField.isTypeInfoAssigned() && ownField.isTypeInfoAssigned() && fromField.typeInfo() == ownField.typeInfo())
-                || (!fromField.isTypeInfoAssigned() && !ownField.isTypeInfoAssigned())) {
-                if (overwrite || ownField.value().isEmpty()) {
-                    ownField = fromField;
-                    ++fieldsInserted;
-                }
-                fieldInserted = true;
+            if (assignedFields.find(&ownField) != assignedFields.end()
+                || !static_cast<const ImplementationType *>(this)->internallyAreFieldsCorresponding(ownField, fromField)) {
                 continue;
             }
+            keepExisting = !overwrite && !ownField.value().isEmpty();
+            if (!fieldToReplace) {
+                fieldToReplace = &ownField;
+            }
+        }
+        if (keepExisting) {
+            continue;
         }
-        if (!fieldInserted) {
-            fields().insert(std::make_pair(fromField.id(), fromField));
-            ++fieldsInserted;
+        if (fieldToReplace) {
+            *fieldToReplace = fromField;
+        } else {
+            fieldToReplace = &fields().insert(std::make_pair(fromField.id(), fromField))->second;
         }
+        assignedFields.emplace(fieldToReplace);
+        ++fieldsInserted;
     }
     return fieldsInserted;
 }
diff --git a/mp4/mp4tag.cpp b/mp4/mp4tag.cpp
index 4334dc8..9d0a1b8 100644
--- a/mp4/mp4tag.cpp
+++ b/mp4/mp4tag.cpp
@@ -284,6 +284,14 @@ void Mp4Tag::internallyGetValuesFromField(const Mp4Tag::FieldType &field, std::v
     }
 }
 
+/*!
+ * \brief Extended fields are only considered the same if "mean" and "name" are the same as well.
+ */
+bool Mp4Tag::internallyAreFieldsCorresponding(const FieldType &field, const FieldType &otherField) const
+{
+    return field.mean() == otherField.mean() && field.name() == otherField.name() && CRTPBase::internallyAreFieldsCorresponding(field, otherField);
+}
+
 bool Mp4Tag::setValue(KnownField field, const TagValue &value)
 {
     switch (field) {
diff --git a/mp4/mp4tag.h b/mp4/mp4tag.h
index 587bf47..d2d3ea3 100644
--- a/mp4/mp4tag.h
+++ b/mp4/mp4tag.h
@@ -128,6 +128,7 @@ protected:
     IdentifierType internallyGetFieldId(KnownField field) const;
     KnownField internallyGetKnownField(const IdentifierType &id) const;
     void internallyGetValuesFromField(const FieldType &field, std::vector<const TagValue *> &values) const;
+    bool internallyAreFieldsCorresponding(const FieldType &field, const FieldType &otherField) const;
 };
 
 /*!
-- 
2.43.0


From 303c383fdf5989108459ee8d472cf094e194a0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:41 +0000
Subject: [PATCH 095/172] fix: insert values of all known fields when copying
 between tags of different types

---
 tag.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tag.cpp b/tag.cpp
index 065e98b..07619f8 100644
--- a/tag.cpp
+++ b/tag.cpp
@@ -89,7 +89,7 @@ bool Tag::setValues(KnownField field, const std::vector<TagValue> &values)
 std::size_t Tag::insertValues(const Tag &from, bool overwrite)
 {
     auto count = std::size_t(0);
-    for (int i = static_cast<int>(KnownField::Invalid) + 1, last = static_cast<int>(KnownField::Description); i <= last; ++i) {
+    for (int i = static_cast<int>(KnownField::Invalid) + 1, last = static_cast<int>(lastKnownField); i <= last; ++i) {
         auto field = static_cast<KnownField>(i);
         const TagValue &ownValue = value(field);
         if (overwrite || ownValue.isEmpty()) {
-- 
2.43.0


From bf6f562c6e8b062d0fe325c2eb3da189a2532f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:41 +0000
Subject: [PATCH 096/172] fix: recognize the Matroska field GENRE

---
 matroska/matroskatag.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/matroska/matroskatag.cpp b/matroska/matroskatag.cpp
index 1c3c20f..d262105 100644
--- a/matroska/matroskatag.cpp
+++ b/matroska/matroskatag.cpp
@@ -218,6 +218,7 @@ KnownField MatroskaTag::internallyGetKnownField(const IdentifierType &id) const
         { dateRecorded(), KnownField::RecordDate },
         { dateRelease(), KnownField::ReleaseDate },
         { title(), KnownField::Title },
+        { genre(), KnownField::Genre },
         { partNumber(), KnownField::PartNumber },
         { totalParts(), KnownField::TotalParts },
         { encoder(), KnownField::Encoder },
-- 
2.43.0


From def504d21002bdd0f4aa968aeda230f1ad3800ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:41 +0000
Subject: [PATCH 097/172] fix: consider additional values of ID3v2 and MP4
 fields when checking for presence and clearing

---
 fieldbasedtag.h  | 13 +++++++------
 id3/id3v2tag.cpp |  2 +-
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/fieldbasedtag.h b/fieldbasedtag.h
index bb2d78f..a2fed97 100644
--- a/fieldbasedtag.h
+++ b/fieldbasedtag.h
@@ -301,12 +301,11 @@ template <class ImplementationType> inline bool FieldMapBasedTag<ImplementationT
  */
 template <class ImplementationType> bool FieldMapBasedTag<ImplementationType>::internallyHasField(const IdentifierType &id) const
 {
-    for (auto range = m_fields.equal_range(id); range.first != range.second; ++range.first) {
-        if (!range.first->second.value().isEmpty()) {
-            return true;
-        }
+    auto values = std::vector<const TagValue *>();
+    for (auto range = m_fields.equal_range(id); range.first != range.second && values.empty(); ++range.first) {
+        static_cast<const ImplementationType *>(this)->internallyGetValuesFromField(range.first->second, values);
     }
-    return false;
+    return !values.empty();
 }
 
 /*!
@@ -343,7 +342,9 @@ template <class ImplementationType> std::size_t FieldMapBasedTag<ImplementationT
 {
     auto count = std::size_t(0);
     for (const auto &field : m_fields) {
-        if (!field.second.value().isEmpty()) {
+        auto values = std::vector<const TagValue *>();
+        static_cast<const ImplementationType *>(this)->internallyGetValuesFromField(field.second, values);
+        if (!values.empty()) {
             ++count;
         }
     }
diff --git a/id3/id3v2tag.cpp b/id3/id3v2tag.cpp
index 10e04aa..6162fe8 100644
--- a/id3/id3v2tag.cpp
+++ b/id3/id3v2tag.cpp
@@ -134,7 +134,7 @@ bool Id3v2Tag::internallySetValues(const IdentifierType &id, const std::vector<T
 
     // remove remaining existing values (there are more existing values than specified ones)
     for (; range.first != range.second; ++range.first) {
-        range.first->second.setValue(TagValue());
+        range.first->second.clearValue();
     }
     return true;
 }
-- 
2.43.0


From a635b012b9c5bf0b072708df0231b62ebbae1cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:41 +0000
Subject: [PATCH 098/172] fix: consider the pre-defined genre of MP4 tags and
 ignore empty extended fields in lists of values

---
 mp4/mp4tag.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/mp4/mp4tag.cpp b/mp4/mp4tag.cpp
index 9d0a1b8..e319e09 100644
--- a/mp4/mp4tag.cpp
+++ b/mp4/mp4tag.cpp
@@ -85,15 +85,15 @@ const TagValue &Mp4Tag::value(KnownField field) const
 std::vector<const TagValue *> Mp4Tag::values(KnownField field) const
 {
     auto values = FieldMapBasedTag<Mp4Tag>::values(field);
+    if (field == KnownField::Genre && values.empty()) {
+        return FieldMapBasedTag<Mp4Tag>::values(Mp4TagAtomIds::PreDefinedGenre);
+    }
     if (const auto extendedId = Mp4ExtendedFieldId(field)) {
         auto range = fields().equal_range(Mp4TagAtomIds::Extended);
         for (auto i = range.first; i != range.second; ++i) {
             const auto &extendedField = i->second;
             if (extendedId.matches(extendedField)) {
-                values.emplace_back(&extendedField.value());
-                for (const auto &additionalData : extendedField.additionalData()) {
-                    values.emplace_back(&additionalData.value);
-                }
+                internallyGetValuesFromField(extendedField, values);
             }
         }
     }
@@ -353,6 +353,9 @@ bool Mp4Tag::setValues(KnownField field, const std::vector<TagValue> &values)
         if (!extendedId.updateOnly) {
             return true;
         }
+    } else if (field == KnownField::Genre) {
+        // avoid keeping a pre-defined genre in addition to the specified values
+        fields().erase(Mp4TagAtomIds::PreDefinedGenre);
     }
     return FieldMapBasedTag<Mp4Tag>::setValues(field, values);
 }
-- 
2.43.0


From 5e97e8b8d4f3c1542f76ae0740e2751b40e4f023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:37 +0000
Subject: [PATCH 099/172] fix: keep values when converting between ID3v1 and
 ID3v2 tags

---
 mediafileinfo.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mediafileinfo.cpp b/mediafileinfo.cpp
index 037743f..8007071 100644
--- a/mediafileinfo.cpp
+++ b/mediafileinfo.cpp
@@ -1480,7 +1480,10 @@ bool MediaFileInfo::id3v1ToId3v2()
         return false;
     }
     return createAppropriateTags(TagCreationSettings{
-        {}, TagCreationFlags::MergeMultipleSuccessiveId3v2Tags | TagCreationFlags::KeepExistingId3v2Version, TagUsage::Never, TagUsage::Always, 3 });
+        {},
+        TagCreationFlags::Id3InitOnCreate | TagCreationFlags::Id3TransferValuesOnRemoval | TagCreationFlags::MergeMultipleSuccessiveId3v2Tags
+            | TagCreationFlags::KeepExistingId3v2Version,
+        TagUsage::Never, TagUsage::Always, 3 });
 }
 
 /*!
@@ -1499,7 +1502,10 @@ bool MediaFileInfo::id3v2ToId3v1()
         return false;
     }
     return createAppropriateTags(TagCreationSettings{
-        {}, TagCreationFlags::MergeMultipleSuccessiveId3v2Tags | TagCreationFlags::KeepExistingId3v2Version, TagUsage::Always, TagUsage::Never, 3 });
+        {},
+        TagCreationFlags::Id3InitOnCreate | TagCreationFlags::Id3TransferValuesOnRemoval | TagCreationFlags::MergeMultipleSuccessiveId3v2Tags
+            | TagCreationFlags::KeepExistingId3v2Version,
+        TagUsage::Always, TagUsage::Never, 3 });
 }
 
 /*!
-- 
2.43.0


From 08ba4c5be9938e296d077cbebe750ea901e1997c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:28 +0000
Subject: [PATCH 100/172] fix: convert text encoding when transferring values
 from ID3v2 to ID3v1 tags

---
 mediafileinfo.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mediafileinfo.cpp b/mediafileinfo.cpp
index 8007071..4f30dc4 100644
--- a/mediafileinfo.cpp
+++ b/mediafileinfo.cpp
@@ -727,6 +727,8 @@ bool MediaFileInfo::createAppropriateTags(const TagCreationSettings &settings)
             for (const auto &tag : id3v2Tags()) {
                 id3v1Tag()->insertValues(*tag, false);
             }
+            // ID3v1 does not support all text encodings which might be used in ID3v2
+            id3v1Tag()->ensureTextValuesAreProperlyEncoded();
         }
         removeAllId3v2Tags();
     } else if (!(flags & TagCreationFlags::KeepExistingId3v2Version)) {
-- 
2.43.0


From 6084afe5bf9e54048b2d81bdce3e2ebd9151ec8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:57 +0000
Subject: [PATCH 101/172] fix: consider all values when checking for presence
 of the MP4 record label

---
 mp4/mp4tag.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mp4/mp4tag.cpp b/mp4/mp4tag.cpp
index e319e09..ff7e0d2 100644
--- a/mp4/mp4tag.cpp
+++ b/mp4/mp4tag.cpp
@@ -389,7 +389,7 @@ bool Mp4Tag::hasField(KnownField field) const
         return FieldMapBasedTag<Mp4Tag>::hasField(Mp4TagAtomIds::PreDefinedGenre) || FieldMapBasedTag<Mp4Tag>::hasField(Mp4TagAtomIds::Genre);
     case KnownField::EncoderSettings:
     case KnownField::RecordLabel:
-        return !value(field).isEmpty();
+        return !values(field).empty();
     default:
         return FieldMapBasedTag<Mp4Tag>::hasField(field);
     }
-- 
2.43.0


From d3f5135d609d89fff38b90ef7e587819189f6f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:11 +0000
Subject: [PATCH 102/172] fix: avoid division by zero and overflows when
 reading MP4 times and durations

---
 mp4/mp4container.cpp | 41 +++++++++++++++++++++++++++++++----------
 mp4/mp4container.h   |  2 ++
 mp4/mp4track.cpp     |  6 +++---
 3 files changed, 36 insertions(+), 13 deletions(-)

diff --git a/mp4/mp4container.cpp b/mp4/mp4container.cpp
index a65a09c..1798537 100644
--- a/mp4/mp4container.cpp
+++ b/mp4/mp4container.cpp
@@ -13,6 +13,7 @@
 
 #include <algorithm>
 #include <filesystem>
+#include <limits>
 #include <memory>
 #include <numeric>
 #include <tuple>
@@ -121,6 +122,28 @@ void Mp4Container::internalParseTags(Diagnostics &diag, AbortableProgressFeedbac
     }
 }
 
+/*!
+ * \brief Returns the time for the specified number of seconds since the epoch or the epoch itself if the value is out of range.
+ */
+DateTime Mp4Container::timeFromRawValue(std::uint64_t secondsSinceEpoch)
+{
+    constexpr auto max = static_cast<std::uint64_t>(std::numeric_limits<TimeSpan::TickType>::max() / TimeSpan::ticksPerSecond / 2);
+    return secondsSinceEpoch <= max ? epoch + TimeSpan::fromSeconds(static_cast<TimeSpan::TickType>(secondsSinceEpoch)) : epoch;
+}
+
+/*!
+ * \brief Returns the duration for the specified \a rawDuration or a null duration if it is out of range or the \a timeScale is zero.
+ */
+TimeSpan Mp4Container::durationFromRawValue(std::uint64_t rawDuration, std::uint32_t timeScale)
+{
+    constexpr auto max = static_cast<std::uint64_t>(std::numeric_limits<TimeSpan::TickType>::max() / TimeSpan::ticksPerSecond / 2);
+    if (!timeScale || rawDuration / timeScale > max) {
+        return TimeSpan();
+    }
+    constexpr auto ticksPerSecond = static_cast<std::uint64_t>(TimeSpan::ticksPerSecond);
+    return TimeSpan(static_cast<TimeSpan::TickType>(rawDuration / timeScale * ticksPerSecond + rawDuration % timeScale * ticksPerSecond / timeScale));
+}
+
 void Mp4Container::internalParseTracks(Diagnostics &diag, AbortableProgressFeedback &progress)
 {
     static const string context("parsing tracks of MP4 container");
@@ -136,18 +159,16 @@ void Mp4Container::internalParseTracks(Diagnostics &diag, AbortableProgressFeedb
                         stream().seekg(3, ios_base::cur); // skip flags
                         switch (version) {
                         case 0:
-                            m_creationTime = epoch + TimeSpan::fromSeconds(static_cast<TimeSpan::TickType>(reader().readUInt32BE()));
-                            m_modificationTime = epoch + TimeSpan::fromSeconds(static_cast<TimeSpan::TickType>(reader().readUInt32BE()));
+                            m_creationTime = timeFromRawValue(reader().readUInt32BE());
+                            m_modificationTime = timeFromRawValue(reader().readUInt32BE());
                             m_timeScale = reader().readUInt32BE();
-                            m_duration = TimeSpan::fromSeconds(static_cast<TimeSpan::TickType>(reader().readUInt32BE()))
-                                / static_cast<TimeSpan::TickType>(m_timeScale);
+                            m_duration = durationFromRawValue(reader().readUInt32BE(), m_timeScale);
                             break;
                         case 1:
-                            m_creationTime = epoch + TimeSpan::fromSeconds(static_cast<TimeSpan::TickType>(reader().readUInt64BE()));
-                            m_modificationTime = epoch + TimeSpan::fromSeconds(static_cast<TimeSpan::TickType>(reader().readUInt64BE()));
+                            m_creationTime = timeFromRawValue(reader().readUInt64BE());
+                            m_modificationTime = timeFromRawValue(reader().readUInt64BE());
                             m_timeScale = reader().readUInt32BE();
-                            m_duration = TimeSpan::fromSeconds(static_cast<TimeSpan::TickType>(reader().readUInt64BE()))
-                                / static_cast<TimeSpan::TickType>(m_timeScale);
+                            m_duration = durationFromRawValue(reader().readUInt64BE(), m_timeScale);
                             break;
                         default:;
                         }
@@ -170,10 +191,10 @@ void Mp4Container::internalParseTracks(Diagnostics &diag, AbortableProgressFeedb
                         stream().seekg(3, ios_base::cur); // skip flags
                         switch (durationSize) {
                         case 4u:
-                            m_duration = TimeSpan::fromSeconds(static_cast<double>(reader().readUInt32BE()) / static_cast<double>(m_timeScale));
+                            m_duration = durationFromRawValue(reader().readUInt32BE(), m_timeScale);
                             break;
                         case 8u:
-                            m_duration = TimeSpan::fromSeconds(static_cast<double>(reader().readUInt64BE()) / static_cast<double>(m_timeScale));
+                            m_duration = durationFromRawValue(reader().readUInt64BE(), m_timeScale);
                             break;
                         default:;
                         }
diff --git a/mp4/mp4container.h b/mp4/mp4container.h
index b903f45..df95dbf 100644
--- a/mp4/mp4container.h
+++ b/mp4/mp4container.h
@@ -27,6 +27,8 @@ public:
     ElementPosition determineIndexPosition(Diagnostics &diag) const override;
 
     static const CppUtilities::DateTime epoch;
+    static CppUtilities::DateTime timeFromRawValue(std::uint64_t secondsSinceEpoch);
+    static CppUtilities::TimeSpan durationFromRawValue(std::uint64_t rawDuration, std::uint32_t timeScale);
 
 protected:
     void internalParseHeader(Diagnostics &diag, AbortableProgressFeedback &progress) override;
diff --git a/mp4/mp4track.cpp b/mp4/mp4track.cpp
index 9432589..9316465 100644
--- a/mp4/mp4track.cpp
+++ b/mp4/mp4track.cpp
@@ -1732,9 +1732,9 @@ void Mp4Track::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
         m_timeScale = 0;
         m_duration = TimeSpan();
     }
-    m_creationTime = Mp4Container::epoch + TimeSpan::fromSeconds(static_cast<TimeSpan::TickType>(m_rawMdhdCreationTime));
-    m_modificationTime = Mp4Container::epoch + TimeSpan::fromSeconds(static_cast<TimeSpan::TickType>(m_rawMdhdModificationTime));
-    m_duration = TimeSpan::fromSeconds(static_cast<TimeSpan::TickType>(m_rawMdhdDuration)) / static_cast<TimeSpan::TickType>(m_timeScale);
+    m_creationTime = Mp4Container::timeFromRawValue(m_rawMdhdCreationTime);
+    m_modificationTime = Mp4Container::timeFromRawValue(m_rawMdhdModificationTime);
+    m_duration = Mp4Container::durationFromRawValue(m_rawMdhdDuration, m_timeScale);
 
     std::uint16_t tmp = reader.readUInt16BE();
     if (tmp) {
-- 
2.43.0


From dc4fba659057169707ff0f240981f3b920a30e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:11 +0000
Subject: [PATCH 103/172] fix: read sampling frequency from MP4 sample
 descriptions

---
 mp4/mp4track.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mp4/mp4track.cpp b/mp4/mp4track.cpp
index 9316465..16b737d 100644
--- a/mp4/mp4track.cpp
+++ b/mp4/mp4track.cpp
@@ -1825,7 +1825,7 @@ void Mp4Track::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
                     m_bitsPerSample = reader.readUInt16BE();
                     m_istream->seekg(4, ios_base::cur); // skip reserved bytes (again)
                     if (!m_samplingFrequency) {
-                        m_samplingFrequency = reader.readUInt32BE() >> 16;
+                        m_samplingFrequency = reader.readUInt32BE();
                         if (codecConfigContainerAtom->id() != FourccIds::DolbyMpl) {
                             m_samplingFrequency >>= 16;
                         }
-- 
2.43.0


From 7f50f13c361a19f40f29e35e1ad05a4e00e01787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:11 +0000
Subject: [PATCH 104/172] fix: compute bitrates in kbit/s consistently and
 avoid division by zero

---
 mediafileinfo.cpp       | 2 +-
 mp4/mp4track.cpp        | 4 ++--
 wav/waveaudiostream.cpp | 9 ++++++---
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/mediafileinfo.cpp b/mediafileinfo.cpp
index 4f30dc4..7e25ed8 100644
--- a/mediafileinfo.cpp
+++ b/mediafileinfo.cpp
@@ -995,7 +995,7 @@ double MediaFileInfo::overallAverageBitrate() const
     if (duration.isNull()) {
         return 0.0;
     }
-    return 0.0078125 * static_cast<double>(size()) / duration.totalSeconds();
+    return 0.008 * static_cast<double>(size()) / duration.totalSeconds();
 }
 
 /*!
diff --git a/mp4/mp4track.cpp b/mp4/mp4track.cpp
index 16b737d..c420df3 100644
--- a/mp4/mp4track.cpp
+++ b/mp4/mp4track.cpp
@@ -2214,8 +2214,8 @@ void Mp4Track::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
     }
 
     // calculate average bitrate
-    if (m_bitrate < 0.01 && m_bitrate > -0.01) {
-        m_bitrate = (static_cast<double>(m_size) * 0.0078125) / m_duration.totalSeconds();
+    if (m_bitrate < 0.01 && m_bitrate > -0.01 && !m_duration.isNull()) {
+        m_bitrate = (static_cast<double>(m_size) * 0.008) / m_duration.totalSeconds();
     }
 
     // read stsc atom (only number of entries)
diff --git a/wav/waveaudiostream.cpp b/wav/waveaudiostream.cpp
index ed0be76..5694b14 100644
--- a/wav/waveaudiostream.cpp
+++ b/wav/waveaudiostream.cpp
@@ -194,12 +194,15 @@ void WaveAudioStream::internalParseHeader(Diagnostics &diag, AbortableProgressFe
     MpegAudioFrame frame;
     frame.parseHeader(m_reader, diag);
     MpegAudioFrameStream::addInfo(frame, *this);
-    m_bitrate = frame.isXingFramefieldPresent()
+    m_bitrate = frame.isXingFramefieldPresent() && frame.xingFrameCount() && frame.sampleCount() && frame.samplingFrequency()
         ? ((static_cast<double>(m_size) * 8.0)
-              / (static_cast<double>(frame.xingFrameCount() * frame.sampleCount()) / static_cast<double>(frame.samplingFrequency())) / 1024.0)
+              / (static_cast<double>(frame.xingFrameCount()) * static_cast<double>(frame.sampleCount()) / static_cast<double>(frame.samplingFrequency()))
+              / 1000.0)
         : frame.bitrate();
     m_bytesPerSecond = static_cast<std::uint32_t>(m_bitrate * 125);
-    m_duration = TimeSpan::fromSeconds(static_cast<double>(m_size) / (m_bitrate * 128.0));
+    if (m_bitrate > 0.0) {
+        m_duration = TimeSpan::fromSeconds(static_cast<double>(m_size) / (m_bitrate * 125.0));
+    }
 }
 
 } // namespace TagParser
-- 
2.43.0


From 2e740033a19a283975a85213b8229a296f44827e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:11 +0000
Subject: [PATCH 105/172] fix: consider time scale when computing the duration
 of IVF files

---
 ivf/ivfstream.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ivf/ivfstream.cpp b/ivf/ivfstream.cpp
index 05a272f..353473b 100644
--- a/ivf/ivfstream.cpp
+++ b/ivf/ivfstream.cpp
@@ -52,7 +52,9 @@ void IvfStream::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
 
     // compute further values
     m_format = FourccIds::fourccToMediaFormat(formatId);
-    m_duration = TimeSpan::fromSeconds(static_cast<double>(m_sampleCount) / m_fps);
+    if (m_fps) {
+        m_duration = TimeSpan::fromSeconds(static_cast<double>(m_sampleCount) * static_cast<double>(m_timeScale) / static_cast<double>(m_fps));
+    }
 
     // skip unused bytes
     m_istream->seekg(4, ios_base::cur);
-- 
2.43.0


From aa04a7f55282508fb2d846ec02e44dea28aa1deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:11 +0000
Subject: [PATCH 106/172] fix: ignore emulation prevention bytes when parsing
 AVC sequence parameter sets

---
 avc/avcinfo.cpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/avc/avcinfo.cpp b/avc/avcinfo.cpp
index 6adac0f..2b15af6 100644
--- a/avc/avcinfo.cpp
+++ b/avc/avcinfo.cpp
@@ -13,6 +13,24 @@ using namespace CppUtilities;
 
 namespace TagParser {
 
+/*!
+ * \brief Removes the bytes which have been inserted to prevent start codes from being emulated.
+ * \returns Returns the size of the remaining data.
+ */
+static std::size_t removeEmulationPreventionBytes(char *buffer, std::size_t size)
+{
+    auto newSize = std::size_t();
+    for (auto i = std::size_t(), zeros = std::size_t(); i != size; ++i) {
+        if (zeros >= 2 && buffer[i] == 3) {
+            zeros = 0;
+            continue;
+        }
+        zeros = buffer[i] ? 0 : zeros + 1;
+        buffer[newSize++] = buffer[i];
+    }
+    return newSize;
+}
+
 /*!
  * \struct TagParser::SpsInfo
  * \brief The SpsInfo struct holds the sequence parameter set.
@@ -31,7 +49,7 @@ void SpsInfo::parse(BinaryReader &reader, std::uint32_t maxSize)
     // buffer data for reading with BitReader
     auto buffer = make_unique<char[]>(size);
     reader.read(buffer.get(), size);
-    BitReader bitReader(buffer.get(), size);
+    BitReader bitReader(buffer.get(), removeEmulationPreventionBytes(buffer.get(), size));
 
     try {
         // read general values
-- 
2.43.0


From 31a50cf510d34b6583a6e18432de71c6f0cef6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:32 +0000
Subject: [PATCH 107/172] fix: skip scaling lists of AVC sequence parameter
 sets correctly

---
 avc/avcinfo.cpp | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/avc/avcinfo.cpp b/avc/avcinfo.cpp
index 2b15af6..1cffb83 100644
--- a/avc/avcinfo.cpp
+++ b/avc/avcinfo.cpp
@@ -31,6 +31,21 @@ static std::size_t removeEmulationPreventionBytes(char *buffer, std::size_t size
     return newSize;
 }
 
+/*!
+ * \brief Skips a scaling list of the specified \a size.
+ */
+static void skipScalingList(BitReader &bitReader, std::uint8_t size)
+{
+    for (std::int32_t lastScale = 8; size; --size) {
+        const auto nextScale = static_cast<std::int32_t>(
+            (static_cast<std::uint32_t>(lastScale) + static_cast<std::uint32_t>(bitReader.readSignedExpGolombCodedBits<std::int32_t>())) & 0xFFu);
+        if (!nextScale) {
+            return; // remaining values are implied
+        }
+        lastScale = nextScale;
+    }
+}
+
 /*!
  * \struct TagParser::SpsInfo
  * \brief The SpsInfo struct holds the sequence parameter set.
@@ -81,14 +96,10 @@ void SpsInfo::parse(BinaryReader &reader, std::uint32_t maxSize)
             bitReader.readUnsignedExpGolombCodedBits<std::uint8_t>(); // bit depth chroma minus8
             bitReader.skipBits(1); // qpprime y zero transform bypass flag
             if (bitReader.readBit()) { // sequence scaling matrix present flag
-                for (std::uint8_t i = 0; i < 8; ++i) {
+                for (std::uint8_t i = 0, count = chromaFormatIndication == 3 ? 12 : 8; i < count; ++i) {
                     // TODO: store values
                     if (bitReader.readBit()) { // sequence scaling list present
-                        if (i < 6) {
-                            bitReader.skipBits(16); // scalingList4x4[i]
-                        } else {
-                            bitReader.skipBits(64); // scalingList8x8[i - 6]
-                        }
+                        skipScalingList(bitReader, i < 6 ? 16 : 64); // scalingList4x4[i] or scalingList8x8[i - 6]
                     }
                 }
             }
-- 
2.43.0


From d61c74dc030ed01894d4d426d6a66e3ccc735aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:29 +0000
Subject: [PATCH 108/172] fix: ignore unset bitrates of Vorbis streams

---
 ogg/oggstream.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ogg/oggstream.cpp b/ogg/oggstream.cpp
index 3c10196..bb7c123 100644
--- a/ogg/oggstream.cpp
+++ b/ogg/oggstream.cpp
@@ -95,10 +95,11 @@ void OggStream::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
                         m_version = ind.version();
                         m_channelCount = ind.channels();
                         m_samplingFrequency = ind.sampleRate();
-                        if (ind.nominalBitrate()) {
-                            m_bitrate = ind.nominalBitrate();
-                        } else if (ind.maxBitrate() == ind.minBitrate()) {
-                            m_bitrate = ind.maxBitrate();
+                        // note: The bitrate fields are signed. Zero and negative values mean the bitrate is not set.
+                        if (const auto nominalBitrate = static_cast<std::int32_t>(ind.nominalBitrate()); nominalBitrate > 0) {
+                            m_bitrate = nominalBitrate;
+                        } else if (const auto maxBitrate = static_cast<std::int32_t>(ind.maxBitrate()); maxBitrate > 0 && ind.maxBitrate() == ind.minBitrate()) {
+                            m_bitrate = maxBitrate;
                         }
                         if (m_bitrate != 0.0) {
                             m_bitrate /= 1000.0;
-- 
2.43.0


From a1d82fac0be41e64a2f9db652969afaa04657e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:26 +0000
Subject: [PATCH 109/172] fix: use the right time scale when computing
 durations of MP4 tracks

---
 mp4/mp4track.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mp4/mp4track.cpp b/mp4/mp4track.cpp
index c420df3..b26988a 100644
--- a/mp4/mp4track.cpp
+++ b/mp4/mp4track.cpp
@@ -500,7 +500,10 @@ Mp4Timings Mp4Track::computeTimings() const
         timings.tkhdCreationTime = timings.mdhdCreationTime = static_cast<std::uint64_t>((m_creationTime - Mp4Container::epoch).totalSeconds());
         timings.tkhdModificationTime = timings.mdhdModificationTime
             = static_cast<std::uint64_t>((m_modificationTime - Mp4Container::epoch).totalSeconds());
-        timings.tkhdDuration = timings.mdhdDuration = static_cast<std::uint64_t>(m_duration.totalTicks() * m_timeScale / TimeSpan::ticksPerSecond);
+        // note: The "tkhd"-atom uses the time scale of the movie and the "mdhd"-atom the time scale of the media.
+        const auto movieTimeScale = m_trakAtom ? m_trakAtom->container().timeScale() : m_timeScale;
+        timings.tkhdDuration = static_cast<std::uint64_t>(std::round(m_duration.totalSeconds() * static_cast<double>(movieTimeScale)));
+        timings.mdhdDuration = static_cast<std::uint64_t>(std::round(m_duration.totalSeconds() * static_cast<double>(m_timeScale)));
     }
     return timings;
 }
-- 
2.43.0


From 983357b3ebf4c763ee1cf63566a7b5d138232e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:12 +0000
Subject: [PATCH 110/172] fix: recognise signatures in buffers of less than
 eight bytes

---
 signature.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/signature.cpp b/signature.cpp
index b4675ef..c8f487b 100644
--- a/signature.cpp
+++ b/signature.cpp
@@ -118,10 +118,10 @@ ContainerFormat parseSignature(std::string_view buffer)
         sig = BE::toInt<std::uint64_t>(buffer.data());
     } else if (buffer.size() >= 4) {
         sig = BE::toInt<std::uint32_t>(buffer.data());
-        sig <<= 4;
+        sig <<= 32;
     } else if (buffer.size() >= 2) {
         sig = BE::toInt<std::uint16_t>(buffer.data());
-        sig <<= 6;
+        sig <<= 48;
     } else {
         return ContainerFormat::Unknown;
     }
@@ -206,7 +206,10 @@ ContainerFormat parseSignature(std::string_view buffer)
     case TiffLittleEndian:
         return ContainerFormat::TiffLittleEndian;
     case Utf32Text:
-        return ContainerFormat::Utf32Text;
+        if (buffer.size() >= 4) {
+            return ContainerFormat::Utf32Text;
+        }
+        break;
     case WavPack:
         return ContainerFormat::WavPack;
     case WindowsIcon:
-- 
2.43.0


From b8cc40400f2999489f55c87305e2a573fa8d3fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:12 +0000
Subject: [PATCH 111/172] fix: recognise MP4 files after zero bytes

---
 mediafileinfo.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mediafileinfo.cpp b/mediafileinfo.cpp
index 7e25ed8..fee3316 100644
--- a/mediafileinfo.cpp
+++ b/mediafileinfo.cpp
@@ -177,6 +177,8 @@ startParsingSignature:
         for (buffOffset = buff; buffOffset != buffEnd && !(*buffOffset); ++buffOffset, ++bytesSkipped)
             ;
         if (bytesSkipped >= 4) {
+            // do not skip the last zero bytes yet as they might already belong to a signature (size denotation of MP4 files)
+            bytesSkipped -= 3;
         skipJunkBytes:
             m_containerOffset += static_cast<std::streamoff>(bytesSkipped);
             m_paddingSize += bytesSkipped;
-- 
2.43.0


From 8cba6ac5ff8274a5d59e800a0c071f15cace8bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:12 +0000
Subject: [PATCH 112/172] fix: handle ID3v2 tags exceeding the file when
 parsing the container format

---
 mediafileinfo.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mediafileinfo.cpp b/mediafileinfo.cpp
index fee3316..6fc5176 100644
--- a/mediafileinfo.cpp
+++ b/mediafileinfo.cpp
@@ -164,7 +164,7 @@ startParsingSignature:
         diag.emplace_back(DiagLevel::Information, "Parsing the container format has been aborted.", context);
         return;
     }
-    if (size() - containerOffset() >= 16) {
+    if (size() >= containerOffset() && size() - containerOffset() >= 16) {
         stream().seekg(m_containerOffset, ios_base::beg);
         stream().read(buff, sizeof(buff));
 
-- 
2.43.0


From 4d235c33ef3a391a62ba24aec10a502bf2505c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:41 +0000
Subject: [PATCH 113/172] fix: avoid computing durations which can not be
 represented

---
 abstracttrack.cpp                  | 11 +++++++++++
 abstracttrack.h                    |  1 +
 ivf/ivfstream.cpp                  |  2 +-
 matroska/matroskacontainer.cpp     |  7 ++++++-
 mpegaudio/mpegaudioframestream.cpp |  4 ++--
 ogg/oggstream.cpp                  |  4 ++--
 wav/waveaudiostream.cpp            |  8 +++++---
 7 files changed, 28 insertions(+), 9 deletions(-)

diff --git a/abstracttrack.cpp b/abstracttrack.cpp
index 800877c..884ae53 100644
--- a/abstracttrack.cpp
+++ b/abstracttrack.cpp
@@ -6,6 +6,8 @@
 
 #include "mpegaudio/mpegaudioframe.h"
 
+#include <limits>
+
 using namespace std;
 using namespace CppUtilities;
 
@@ -252,6 +254,15 @@ void AbstractTrack::parseHeader(Diagnostics &diag, AbortableProgressFeedback &pr
     }
 }
 
+/*!
+ * \brief Returns the duration for the specified number of \a seconds or a null duration if it can not be represented.
+ */
+TimeSpan AbstractTrack::durationFromSeconds(double seconds)
+{
+    constexpr auto max = static_cast<double>(std::numeric_limits<TimeSpan::TickType>::max() / TimeSpan::ticksPerSecond / 2);
+    return seconds >= 0.0 && seconds < max ? TimeSpan::fromSeconds(seconds) : TimeSpan();
+}
+
 /*!
  * \fn AbstractTrack::internalParseHeader()
  * \brief This method is internally called to parse header information.
diff --git a/abstracttrack.h b/abstracttrack.h
index f3bae43..072b156 100644
--- a/abstracttrack.h
+++ b/abstracttrack.h
@@ -188,6 +188,7 @@ protected:
     AbstractTrack(std::istream &inputStream, std::ostream &outputStream, std::uint64_t startOffset);
     AbstractTrack(std::iostream &stream, std::uint64_t startOffset);
     virtual void internalParseHeader(Diagnostics &diag, AbortableProgressFeedback &progress) = 0;
+    static CppUtilities::TimeSpan durationFromSeconds(double seconds);
 
     std::istream *m_istream;
     std::ostream *m_ostream;
diff --git a/ivf/ivfstream.cpp b/ivf/ivfstream.cpp
index 353473b..77bda54 100644
--- a/ivf/ivfstream.cpp
+++ b/ivf/ivfstream.cpp
@@ -53,7 +53,7 @@ void IvfStream::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
     // compute further values
     m_format = FourccIds::fourccToMediaFormat(formatId);
     if (m_fps) {
-        m_duration = TimeSpan::fromSeconds(static_cast<double>(m_sampleCount) * static_cast<double>(m_timeScale) / static_cast<double>(m_fps));
+        m_duration = durationFromSeconds(static_cast<double>(m_sampleCount) * static_cast<double>(m_timeScale) / static_cast<double>(m_fps));
     }
 
     // skip unused bytes
diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index 40241a2..b981b49 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -642,7 +642,12 @@ void MatroskaContainer::parseSegmentInfo(Diagnostics &diag)
             m_titles.emplace_back();
         }
         if (rawDuration > 0.0) {
-            m_duration += TimeSpan::fromSeconds(rawDuration * static_cast<double>(timeScale) / 1000000000.0);
+            // ignore durations which can not be represented
+            constexpr auto max = static_cast<double>(std::numeric_limits<TimeSpan::TickType>::max() / TimeSpan::ticksPerSecond / 2);
+            const auto duration = rawDuration * static_cast<double>(timeScale) / 1000000000.0;
+            if (m_duration.totalSeconds() + duration < max) {
+                m_duration += TimeSpan::fromSeconds(duration);
+            }
         }
     }
 }
diff --git a/mpegaudio/mpegaudioframestream.cpp b/mpegaudio/mpegaudioframestream.cpp
index 04c96db..9c2f09e 100644
--- a/mpegaudio/mpegaudioframestream.cpp
+++ b/mpegaudio/mpegaudioframestream.cpp
@@ -82,12 +82,12 @@ void MpegAudioFrameStream::internalParseHeader(Diagnostics &diag, AbortableProgr
         const auto duration
             = static_cast<double>(frame.xingFrameCount()) * static_cast<double>(frame.sampleCount()) / static_cast<double>(frame.samplingFrequency());
         m_bitrate = static_cast<double>(m_size) / duration / 125.0;
-        m_duration = TimeSpan::fromSeconds(duration);
+        m_duration = durationFromSeconds(duration);
     } else {
         m_bitrate = frame.bitrate();
         m_bytesPerSecond = static_cast<std::uint32_t>(m_bitrate * 125);
         if (m_bytesPerSecond) {
-            m_duration = TimeSpan::fromSeconds(static_cast<double>(m_size) / m_bytesPerSecond);
+            m_duration = durationFromSeconds(static_cast<double>(m_size) / m_bytesPerSecond);
         }
     }
 }
diff --git a/ogg/oggstream.cpp b/ogg/oggstream.cpp
index bb7c123..22e284e 100644
--- a/ogg/oggstream.cpp
+++ b/ogg/oggstream.cpp
@@ -286,7 +286,7 @@ void OggStream::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
     // estimate duration from size and bitrate if sample count and sample rate could not be determined
     if (m_duration.isNull() && m_size && m_bitrate != 0.0) {
         // calculate duration from stream size and bitrate, assuming 1 % overhead
-        m_duration = TimeSpan::fromSeconds(static_cast<double>(m_size) / (m_bitrate * 125.0) * 1.1);
+        m_duration = durationFromSeconds(static_cast<double>(m_size) / (m_bitrate * 125.0) * 1.1);
     }
 }
 
@@ -320,7 +320,7 @@ void OggStream::calculateDurationViaSampleCount(std::uint16_t preSkip)
     // note: The granule position of Opus streams is always in 48 kHz samples regardless of the sample rate of the original input.
     const auto granuleRate = m_format.general == GeneralMediaFormat::Opus ? 48000.0 : static_cast<double>(m_samplingFrequency);
     if (m_sampleCount && granuleRate != 0.0) {
-        m_duration = TimeSpan::fromSeconds(static_cast<double>(m_sampleCount) / granuleRate);
+        m_duration = durationFromSeconds(static_cast<double>(m_sampleCount) / granuleRate);
     }
 }
 
diff --git a/wav/waveaudiostream.cpp b/wav/waveaudiostream.cpp
index 5694b14..a93d333 100644
--- a/wav/waveaudiostream.cpp
+++ b/wav/waveaudiostream.cpp
@@ -9,6 +9,7 @@
 #include <c++utilities/io/binaryreader.h>
 
 #include <algorithm>
+#include <limits>
 
 using namespace std;
 using namespace CppUtilities;
@@ -180,7 +181,7 @@ void WaveAudioStream::internalParseHeader(Diagnostics &diag, AbortableProgressFe
                 m_sampleCount = m_size / m_chunkSize;
             }
             if (m_samplingFrequency) {
-                m_duration = TimeSpan::fromSeconds(static_cast<double>(m_sampleCount) / static_cast<double>(m_samplingFrequency));
+                m_duration = durationFromSeconds(static_cast<double>(m_sampleCount) / static_cast<double>(m_samplingFrequency));
             }
             break;
         default:;
@@ -199,9 +200,10 @@ void WaveAudioStream::internalParseHeader(Diagnostics &diag, AbortableProgressFe
               / (static_cast<double>(frame.xingFrameCount()) * static_cast<double>(frame.sampleCount()) / static_cast<double>(frame.samplingFrequency()))
               / 1000.0)
         : frame.bitrate();
-    m_bytesPerSecond = static_cast<std::uint32_t>(m_bitrate * 125);
+    m_bytesPerSecond
+        = m_bitrate * 125.0 <= static_cast<double>(std::numeric_limits<std::uint32_t>::max()) ? static_cast<std::uint32_t>(m_bitrate * 125) : 0;
     if (m_bitrate > 0.0) {
-        m_duration = TimeSpan::fromSeconds(static_cast<double>(m_size) / (m_bitrate * 125.0));
+        m_duration = durationFromSeconds(static_cast<double>(m_size) / (m_bitrate * 125.0));
     }
 }
 
-- 
2.43.0


From d03d8ec3babcd225299dcd33d3f76f582ac2afd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:41 +0000
Subject: [PATCH 114/172] fix: handle invalid text in ID3v2 comments and
 additional values

---
 id3/id3v2frame.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/id3/id3v2frame.cpp b/id3/id3v2frame.cpp
index 4f2ee92..3178a29 100644
--- a/id3/id3v2frame.cpp
+++ b/id3/id3v2frame.cpp
@@ -499,10 +499,14 @@ void Id3v2Frame::internallyClearFurtherData()
  */
 std::string Id3v2Frame::ignoreAdditionalValuesDiagMsg() const
 {
-    if (m_additionalValues.size() == 1) {
-        return argsToString("Additional value \"", m_additionalValues.front().toString(TagTextEncoding::Utf8), "\" is supposed to be ignored.");
+    try {
+        if (m_additionalValues.size() == 1) {
+            return argsToString("Additional value \"", m_additionalValues.front().toString(TagTextEncoding::Utf8), "\" is supposed to be ignored.");
+        }
+        return argsToString("Additional values ", DiagMessage::formatList(TagValue::toStrings(m_additionalValues)), " are supposed to be ignored.");
+    } catch (const ConversionException &) {
+        return "Additional values are supposed to be ignored.";
     }
-    return argsToString("Additional values ", DiagMessage::formatList(TagValue::toStrings(m_additionalValues)), " are supposed to be ignored.");
 }
 
 /*!
@@ -1216,7 +1220,12 @@ void Id3v2Frame::parseComment(const char *buffer, std::size_t dataSize, TagValue
     substr = parseSubstring(get<2>(substr), static_cast<size_t>(end - get<2>(substr)), dataEncoding, false, diag);
     tagValue.assignData(get<0>(substr), get<1>(substr), TagDataType::Text, dataEncoding);
     // ensure encodings are equal as required when making the frame
-    tagValue.convertDescriptionEncoding(dataEncoding);
+    try {
+        tagValue.convertDescriptionEncoding(dataEncoding);
+    } catch (const ConversionException &) {
+        diag.emplace_back(DiagLevel::Warning, "The description of the comment frame is not valid and will be ignored.", context);
+        tagValue.setDescription(std::string(), dataEncoding);
+    }
 }
 
 /*!
-- 
2.43.0


From 66d5c0d2e47f25aa654e13d759e88a3116ef5423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:41 +0000
Subject: [PATCH 115/172] fix: avoid accessing Ogg pages beyond the last one

---
 ogg/oggcontainer.cpp | 10 ++++++++--
 ogg/oggiterator.cpp  |  7 +++++++
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/ogg/oggcontainer.cpp b/ogg/oggcontainer.cpp
index 80262b0..135d990 100644
--- a/ogg/oggcontainer.cpp
+++ b/ogg/oggcontainer.cpp
@@ -310,8 +310,14 @@ void OggContainer::internalParseTags(Diagnostics &diag, AbortableProgressFeedbac
         default:
             diag.emplace_back(DiagLevel::Critical, "Stream format not supported.", context);
         }
-        params.lastPageIndex = m_iterator.currentPageIndex();
-        params.lastSegmentIndex = m_iterator.currentSegmentIndex();
+        if (m_iterator) {
+            params.lastPageIndex = m_iterator.currentPageIndex();
+            params.lastSegmentIndex = m_iterator.currentSegmentIndex();
+        } else {
+            // consider everything until the last page part of the comment if it is truncated
+            params.lastPageIndex = m_iterator.pages().size() - 1;
+            params.lastSegmentIndex = m_iterator.pages().back().segmentSizes().size();
+        }
         fileInfo().reportPaddingSizeChanged(fileInfo().paddingSize() + padding);
 
         // do a few sanity checks on the continued-flag and absolute granule position as some Ogg demuxers are picky about them
diff --git a/ogg/oggiterator.cpp b/ogg/oggiterator.cpp
index 544a992..1974810 100644
--- a/ogg/oggiterator.cpp
+++ b/ogg/oggiterator.cpp
@@ -81,6 +81,9 @@ void OggIterator::nextPage()
  */
 void OggIterator::nextSegment()
 {
+    if (m_page >= m_pages.size()) {
+        return; // iterator is already in invalid state
+    }
     const OggPage &page = m_pages[m_page];
     if (matchesFilter(page) && ++m_segment < page.segmentSizes().size()) {
         // current page has next segment
@@ -114,6 +117,10 @@ void OggIterator::previousPage()
  */
 void OggIterator::previousSegment()
 {
+    if (m_page >= m_pages.size()) {
+        previousPage();
+        return;
+    }
     const OggPage &page = m_pages[m_page];
     if (m_segment && matchesFilter(page)) {
         m_offset -= page.segmentSizes()[--m_segment];
-- 
2.43.0


From 701fb32a9abfae2a964ddd61f0eca66025542059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:41 +0000
Subject: [PATCH 116/172] fix: handle invalid values when parsing AVC parameter
 sets

---
 avc/avcinfo.cpp | 95 ++++++++++++++++++++++++++++++++-----------------
 1 file changed, 63 insertions(+), 32 deletions(-)

diff --git a/avc/avcinfo.cpp b/avc/avcinfo.cpp
index 1cffb83..3a1f70e 100644
--- a/avc/avcinfo.cpp
+++ b/avc/avcinfo.cpp
@@ -31,6 +31,31 @@ static std::size_t removeEmulationPreventionBytes(char *buffer, std::size_t size
     return newSize;
 }
 
+/*!
+ * \brief Reads an unsigned, Exp-Golomb coded value.
+ * \throws Throws InvalidDataException() if the value can not be represented using 32 bits.
+ */
+static ugolomb readUnsignedGolomb(BitReader &bitReader)
+{
+    std::uint8_t count = 0;
+    while (!bitReader.readBit()) {
+        if (++count >= 32) {
+            throw InvalidDataException();
+        }
+    }
+    return static_cast<ugolomb>((static_cast<ugolomb>(1) << count) | bitReader.readBits<ugolomb>(count)) - 1u;
+}
+
+/*!
+ * \brief Reads a signed, Exp-Golomb coded value.
+ * \throws Throws InvalidDataException() if the value can not be represented using 32 bits.
+ */
+static sgolomb readSignedGolomb(BitReader &bitReader)
+{
+    const auto value = static_cast<std::int64_t>(readUnsignedGolomb(bitReader));
+    return static_cast<sgolomb>(value % 2 ? (value + 1) / 2 : -(value / 2));
+}
+
 /*!
  * \brief Skips a scaling list of the specified \a size.
  */
@@ -38,7 +63,7 @@ static void skipScalingList(BitReader &bitReader, std::uint8_t size)
 {
     for (std::int32_t lastScale = 8; size; --size) {
         const auto nextScale = static_cast<std::int32_t>(
-            (static_cast<std::uint32_t>(lastScale) + static_cast<std::uint32_t>(bitReader.readSignedExpGolombCodedBits<std::int32_t>())) & 0xFFu);
+            (static_cast<std::uint32_t>(lastScale) + static_cast<std::uint32_t>(readSignedGolomb(bitReader))) & 0xFFu);
         if (!nextScale) {
             return; // remaining values are implied
         }
@@ -60,6 +85,9 @@ void SpsInfo::parse(BinaryReader &reader, std::uint32_t maxSize)
     if ((maxSize < minSize) || (size = reader.readUInt16BE()) > (maxSize - minSize)) {
         throw TruncatedDataException();
     }
+    if (!size) {
+        throw InvalidDataException();
+    }
 
     // buffer data for reading with BitReader
     auto buffer = make_unique<char[]>(size);
@@ -75,7 +103,7 @@ void SpsInfo::parse(BinaryReader &reader, std::uint32_t maxSize)
         profileIndication = bitReader.readBits<std::uint8_t>(8);
         profileConstraints = bitReader.readBits<std::uint8_t>(8);
         levelIndication = bitReader.readBits<std::uint8_t>(8);
-        id = bitReader.readUnsignedExpGolombCodedBits<ugolomb>();
+        id = readUnsignedGolomb(bitReader);
 
         // read chroma profile specific values
         switch (profileIndication) {
@@ -89,11 +117,11 @@ void SpsInfo::parse(BinaryReader &reader, std::uint32_t maxSize)
         case 128:
         case 244:
             // high-level profile
-            if ((chromaFormatIndication = bitReader.readUnsignedExpGolombCodedBits<ugolomb>()) == 3) {
+            if ((chromaFormatIndication = readUnsignedGolomb(bitReader)) == 3) {
                 bitReader.skipBits(1); // separate color plane flag
             }
-            bitReader.readUnsignedExpGolombCodedBits<std::uint8_t>(); // bit depth luma minus8
-            bitReader.readUnsignedExpGolombCodedBits<std::uint8_t>(); // bit depth chroma minus8
+            readUnsignedGolomb(bitReader); // bit depth luma minus8
+            readUnsignedGolomb(bitReader); // bit depth chroma minus8
             bitReader.skipBits(1); // qpprime y zero transform bypass flag
             if (bitReader.readBit()) { // sequence scaling matrix present flag
                 for (std::uint8_t i = 0, count = chromaFormatIndication == 3 ? 12 : 8; i < count; ++i) {
@@ -109,18 +137,18 @@ void SpsInfo::parse(BinaryReader &reader, std::uint32_t maxSize)
         }
 
         // read misc values
-        log2MaxFrameNum = bitReader.readUnsignedExpGolombCodedBits<ugolomb>() + 4;
-        switch (pictureOrderCountType = bitReader.readUnsignedExpGolombCodedBits<ugolomb>()) {
+        log2MaxFrameNum = readUnsignedGolomb(bitReader) + 4;
+        switch (pictureOrderCountType = readUnsignedGolomb(bitReader)) {
         case 0:
-            log2MaxPictureOrderCountLsb = bitReader.readUnsignedExpGolombCodedBits<ugolomb>() + 4;
+            log2MaxPictureOrderCountLsb = readUnsignedGolomb(bitReader) + 4;
             break;
         case 1:
             deltaPicOrderAlwaysZeroFlag = bitReader.readBit();
-            offsetForNonRefPic = bitReader.readSignedExpGolombCodedBits<sgolomb>();
-            offsetForTopToBottomField = bitReader.readSignedExpGolombCodedBits<sgolomb>();
-            numRefFramesInPicOrderCntCycle = bitReader.readUnsignedExpGolombCodedBits<ugolomb>();
+            offsetForNonRefPic = readSignedGolomb(bitReader);
+            offsetForTopToBottomField = readSignedGolomb(bitReader);
+            numRefFramesInPicOrderCntCycle = readUnsignedGolomb(bitReader);
             for (std::uint8_t i = 0; i < numRefFramesInPicOrderCntCycle; ++i) {
-                bitReader.readUnsignedExpGolombCodedBits<ugolomb>(); // offset for ref frames
+                readUnsignedGolomb(bitReader); // offset for ref frames
             }
             break;
         case 2:
@@ -128,13 +156,13 @@ void SpsInfo::parse(BinaryReader &reader, std::uint32_t maxSize)
         default:
             throw InvalidDataException();
         }
-        bitReader.readUnsignedExpGolombCodedBits<ugolomb>(); // ref frames num
+        readUnsignedGolomb(bitReader); // ref frames num
         bitReader.skipBits(1); // gaps in frame num value allowed flag
 
         // read picture size related values
         Size mbSize;
-        mbSize.setWidth(bitReader.readUnsignedExpGolombCodedBits<std::uint32_t>() + 1);
-        mbSize.setHeight(bitReader.readUnsignedExpGolombCodedBits<std::uint32_t>() + 1);
+        mbSize.setWidth(readUnsignedGolomb(bitReader) + 1);
+        mbSize.setHeight(readUnsignedGolomb(bitReader) + 1);
         if (!(frameMbsOnly = bitReader.readBit())) { // frame mbs only flag
             bitReader.readBit(); // mb adaptive frame field flag
         }
@@ -142,10 +170,10 @@ void SpsInfo::parse(BinaryReader &reader, std::uint32_t maxSize)
 
         // read cropping values
         if (bitReader.readBit()) { // frame cropping flag
-            cropping.setLeft(bitReader.readUnsignedExpGolombCodedBits<std::uint32_t>());
-            cropping.setRight(bitReader.readUnsignedExpGolombCodedBits<std::uint32_t>());
-            cropping.setTop(bitReader.readUnsignedExpGolombCodedBits<std::uint32_t>());
-            cropping.setBottom(bitReader.readUnsignedExpGolombCodedBits<std::uint32_t>());
+            cropping.setLeft(readUnsignedGolomb(bitReader));
+            cropping.setRight(readUnsignedGolomb(bitReader));
+            cropping.setTop(readUnsignedGolomb(bitReader));
+            cropping.setBottom(readUnsignedGolomb(bitReader));
         }
 
         // calculate actual picture size
@@ -195,8 +223,8 @@ void SpsInfo::parse(BinaryReader &reader, std::uint32_t maxSize)
                 }
             }
             if (bitReader.readBit()) { // chroma loc info present
-                bitReader.readUnsignedExpGolombCodedBits<std::uint8_t>(); // chroma sample loc type top field
-                bitReader.readUnsignedExpGolombCodedBits<std::uint8_t>(); // chroma sample loc type bottom field
+                readUnsignedGolomb(bitReader); // chroma sample loc type top field
+                readUnsignedGolomb(bitReader); // chroma sample loc type bottom field
             }
 
             // read timing info
@@ -225,12 +253,12 @@ void SpsInfo::parse(BinaryReader &reader, std::uint32_t maxSize)
             // TODO: investigate error (truncated data) when parsing mtx-test-data/mkv/attachment-without-fileuid.mkv
             if (bitReader.readBit()) { // bitstream restriction flag
                 bitReader.skipBits(1); // motion vectors over pic boundaries flag
-                bitReader.readUnsignedExpGolombCodedBits<std::uint8_t>(); // max bytes per pic denom
-                bitReader.readUnsignedExpGolombCodedBits<std::uint8_t>(); // max bytes per mb denom
-                bitReader.readUnsignedExpGolombCodedBits<std::uint8_t>(); // log2 max mv length horizontal
-                bitReader.readUnsignedExpGolombCodedBits<std::uint8_t>(); // log2 max mv length vertical
-                bitReader.readUnsignedExpGolombCodedBits<std::uint8_t>(); // reorder frames num
-                bitReader.readUnsignedExpGolombCodedBits<std::uint8_t>(); // max decoder frame buffering
+                readUnsignedGolomb(bitReader); // max bytes per pic denom
+                readUnsignedGolomb(bitReader); // max bytes per mb denom
+                readUnsignedGolomb(bitReader); // log2 max mv length horizontal
+                readUnsignedGolomb(bitReader); // log2 max mv length vertical
+                readUnsignedGolomb(bitReader); // reorder frames num
+                readUnsignedGolomb(bitReader); // max decoder frame buffering
             }
         }
 
@@ -253,6 +281,9 @@ void PpsInfo::parse(BinaryReader &reader, std::uint32_t maxSize)
     if ((maxSize < minSize) || (size = reader.readUInt16BE()) > (maxSize - minSize)) {
         throw TruncatedDataException();
     }
+    if (!size) {
+        throw InvalidDataException();
+    }
 
     // buffer data for reading with BitReader
     auto buffer = make_unique<char[]>(size);
@@ -265,8 +296,8 @@ void PpsInfo::parse(BinaryReader &reader, std::uint32_t maxSize)
         if (bitReader.readBits<std::uint8_t>(5) != 8) { // nal unit type
             throw NotImplementedException();
         }
-        id = bitReader.readUnsignedExpGolombCodedBits<ugolomb>();
-        spsId = bitReader.readUnsignedExpGolombCodedBits<ugolomb>();
+        id = readUnsignedGolomb(bitReader);
+        spsId = readUnsignedGolomb(bitReader);
         bitReader.skipBits(1); // entropy coding mode flag
         picOrderPresent = bitReader.readBit();
     } catch (const std::ios_base::failure &) {
@@ -285,13 +316,13 @@ void PpsInfo::parse(BinaryReader &reader, std::uint32_t maxSize)
  */
 void HrdParameters::parse(CppUtilities::BitReader &reader)
 {
-    cpbCount = reader.readUnsignedExpGolombCodedBits<ugolomb>() + 1;
+    cpbCount = readUnsignedGolomb(reader) + 1;
     bitRateScale = reader.readBits<std::uint8_t>(4);
     cpbSizeScale = reader.readBits<std::uint8_t>(4);
     for (ugolomb i = 0; i < cpbCount; ++i) {
         // just skip those values
-        reader.readUnsignedExpGolombCodedBits<std::uint8_t>(); // bit rate value minus 1
-        reader.readUnsignedExpGolombCodedBits<std::uint8_t>(); // cpb size value minus 1
+        readUnsignedGolomb(reader); // bit rate value minus 1
+        readUnsignedGolomb(reader); // cpb size value minus 1
         reader.skipBits(1); // cbr flag
     }
     initialCpbRemovalDelayLength = reader.readBits<std::uint8_t>(5) + 1;
-- 
2.43.0


From 7b8e08fdd8a1aeeb1bb5a1c451b675fba3ed12ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:41 +0000
Subject: [PATCH 117/172] fix: refuse FLAC metadata blocks exceeding the file

---
 flac/flacstream.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/flac/flacstream.cpp b/flac/flacstream.cpp
index e0a09f3..a43b1a3 100644
--- a/flac/flacstream.cpp
+++ b/flac/flacstream.cpp
@@ -10,6 +10,7 @@
 
 #include "resources/config.h"
 
+#include <c++utilities/conversion/stringbuilder.h>
 #include <c++utilities/io/copy.h>
 
 #include <sstream>
@@ -92,6 +93,12 @@ void FlacStream::internalParseHeader(Diagnostics &diag, AbortableProgressFeedbac
         // remember start offset
         const auto startOffset = m_istream->tellg();
 
+        // check whether the block is within the file
+        if (static_cast<std::uint64_t>(startOffset) + header.dataSize() > m_mediaFileInfo.size()) {
+            diag.emplace_back(DiagLevel::Critical, argsToString("Metadata block at ", static_cast<std::streamoff>(startOffset), " exceeds the file."), context);
+            throw TruncatedDataException();
+        }
+
         // parse relevant meta data
         switch (static_cast<FlacMetaDataBlockType>(header.type())) {
         case FlacMetaDataBlockType::StreamInfo:
@@ -104,7 +111,7 @@ void FlacStream::internalParseHeader(Diagnostics &diag, AbortableProgressFeedbac
                 m_sampleCount = streamInfo.totalSampleCount();
                 m_bitsPerSample = streamInfo.bitsPerSample();
                 if (m_samplingFrequency) {
-                    m_duration = TimeSpan::fromSeconds(static_cast<double>(m_sampleCount) / m_samplingFrequency);
+                    m_duration = durationFromSeconds(static_cast<double>(m_sampleCount) / m_samplingFrequency);
                 }
             } else {
                 diag.emplace_back(DiagLevel::Critical, "\"METADATA_BLOCK_STREAMINFO\" is truncated and will be ignored.", context);
-- 
2.43.0


From 249b5242562f17158914e567502d26da30ff6ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:41 +0000
Subject: [PATCH 118/172] fix: check sizes of damaged MP4 atoms

---
 mp4/mp4atom.cpp  |  6 +++++-
 mp4/mp4track.cpp | 21 ++++++++++++++++++---
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/mp4/mp4atom.cpp b/mp4/mp4atom.cpp
index 2e99a81..b0032b9 100644
--- a/mp4/mp4atom.cpp
+++ b/mp4/mp4atom.cpp
@@ -86,7 +86,7 @@ void Mp4Atom::internalParse(Diagnostics &diag)
     if (m_dataSize == 1) { // atom denotes 64-bit size
         m_dataSize = reader().readUInt64BE();
         m_sizeLength = 12; // 4 bytes indicate long size denotation + 8 bytes for actual size denotation
-        if (dataSize() < 16 && m_dataSize != 1) {
+        if (dataSize() < 16) {
             diag.emplace_back(DiagLevel::Critical, "Atom denoting 64-bit size is smaller than 16 byte and hence invalid.", parsingContext());
             throw TruncatedDataException();
         }
@@ -97,6 +97,10 @@ void Mp4Atom::internalParse(Diagnostics &diag)
         diag.emplace_back(DiagLevel::Warning, "The atom seems to be truncated; unable to parse siblings of that ", parsingContext());
         m_dataSize = maxTotalSize(); // using max size instead
     }
+    if (m_dataSize < headerSize()) {
+        diag.emplace_back(DiagLevel::Critical, "Atom is smaller than its header and hence invalid.", parsingContext());
+        throw TruncatedDataException();
+    }
     // currently m_dataSize holds data size plus header size!
     m_dataSize -= headerSize();
     Mp4Atom *child = nullptr;
diff --git a/mp4/mp4track.cpp b/mp4/mp4track.cpp
index b26988a..c3ac265 100644
--- a/mp4/mp4track.cpp
+++ b/mp4/mp4track.cpp
@@ -711,6 +711,10 @@ unique_ptr<Mpeg4AudioSpecificConfig> Mp4Track::parseAudioSpecificConfig(
 {
     static const string context("parsing MPEG-4 audio specific config from elementary stream descriptor");
     using namespace Mpeg4AudioObjectIds;
+    if (!size) {
+        diag.emplace_back(DiagLevel::Critical, "Audio specific configuration is empty.", context);
+        return make_unique<Mpeg4AudioSpecificConfig>();
+    }
     // read config into buffer and construct BitReader for bitwise reading
     stream.seekg(static_cast<streamoff>(startOffset));
     auto buff = make_unique<char[]>(size);
@@ -1776,7 +1780,10 @@ void Mp4Track::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
     }
     // -> name
     m_istream->seekg(12, ios_base::cur); // skip reserved bytes
-    if (static_cast<std::uint64_t>(tmp = static_cast<std::uint8_t>(m_istream->peek())) == m_hdlrAtom->dataSize() - 12 - 4 - 8 - 1) {
+    if (m_hdlrAtom->dataSize() < 12 + 4 + 8) {
+        diag.emplace_back(DiagLevel::Critical, "The \"hdlr\"-atom is truncated. The name of the track can not be determined.", context);
+        m_name.clear();
+    } else if (static_cast<std::uint64_t>(tmp = static_cast<std::uint8_t>(m_istream->peek())) == m_hdlrAtom->dataSize() - 12 - 4 - 8 - 1) {
         // assume size prefixed string (seems to appear in QuickTime files)
         m_istream->seekg(1, ios_base::cur);
         m_name = reader.readString(tmp);
@@ -2033,7 +2040,15 @@ void Mp4Track::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
                 diag.emplace_back(DiagLevel::Critical, "The stsz atom is truncated. It stores less entries as denoted.", context);
                 actualSampleCount = static_cast<std::uint64_t>(floor(static_cast<double>(actualSampleSizeTableSize) / (0.125 * fieldSize)));
             }
-            m_sampleSizes.reserve(actualSampleCount);
+            switch (fieldSize) {
+            case 4:
+            case 8:
+            case 16:
+            case 32:
+                m_sampleSizes.reserve(actualSampleCount);
+                break;
+            default:;
+            }
             std::uint32_t i = 1;
             switch (fieldSize) {
             case 4:
@@ -2212,7 +2227,7 @@ void Mp4Track::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
             timeScale = trakAtom().container().timeScale();
         }
         if (timeScale) {
-            m_duration = TimeSpan::fromSeconds(static_cast<double>(totalDuration) / static_cast<double>(timeScale));
+            m_duration = durationFromSeconds(static_cast<double>(totalDuration) / static_cast<double>(timeScale));
         }
     }
 
-- 
2.43.0


From 82e1c641affbdf40fe3a582e671b14667ca7227d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:43 +0000
Subject: [PATCH 119/172] fix: Refuse to save MP4 files with invalid tracks
 before modifying the file

---
 mp4/mp4container.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/mp4/mp4container.cpp b/mp4/mp4container.cpp
index 1798537..3a82192 100644
--- a/mp4/mp4container.cpp
+++ b/mp4/mp4container.cpp
@@ -253,6 +253,15 @@ void Mp4Container::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback
         throw InvalidDataException();
     }
 
+    // ensure the chunk offset tables can be updated before starting to write anything
+    for (const auto &track : m_tracks) {
+        if (!track->isHeaderValid()) {
+            diag.emplace_back(DiagLevel::Critical,
+                argsToString("The header of track ", track->id(), " is invalid so its chunk offsets can not be updated."), context);
+            throw InvalidDataException();
+        }
+    }
+
     // define variables needed to parse atoms of original file
     if (!firstElement()) {
         diag.emplace_back(DiagLevel::Critical, "No MP4 atoms could be found.", context);
-- 
2.43.0


From 7e040e358154eee2959685b422d7309d7600ad5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:58 +0000
Subject: [PATCH 120/172] fix: Do not throw when initializing an ID3v1 tag from
 malformed UTF-16 text

---
 id3/id3v1tag.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/id3/id3v1tag.cpp b/id3/id3v1tag.cpp
index c6112b4..14c2319 100644
--- a/id3/id3v1tag.cpp
+++ b/id3/id3v1tag.cpp
@@ -271,7 +271,12 @@ void Id3v1Tag::ensureTextValuesAreProperlyEncoded()
         case TagTextEncoding::Unspecified:
             break;
         default:
-            value->convertDataEncoding(TagTextEncoding::Utf8);
+            try {
+                value->convertDataEncoding(TagTextEncoding::Utf8);
+            } catch (const ConversionException &) {
+                // drop malformed text which could not be written anyways
+                value->clearDataAndMetadata();
+            }
         }
     }
 }
-- 
2.43.0


From 38cde48516481deeb48f15daaf437702d57f577c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:36 +0000
Subject: [PATCH 121/172] fix: Avoid writing endless padding when Matroska
 padding is one byte

---
 matroska/matroskacontainer.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index b981b49..c667e9d 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -1338,9 +1338,10 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                             }
                             if (totalOffset <= segment.firstClusterElement->startOffset()) {
                                 // calculate new padding
+                                segment.newPadding = segment.firstClusterElement->startOffset() - totalOffset;
                                 if (segment.newPadding != 1) {
                                     // "Void"-element is at least 2 byte long -> can't add 1 byte padding
-                                    newPadding += (segment.newPadding = segment.firstClusterElement->startOffset() - totalOffset);
+                                    newPadding += segment.newPadding;
                                 } else {
                                     rewriteRequired = true;
                                 }
@@ -1376,8 +1377,9 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
 
                     // pretend writing "Void"-element (only if there is at least one "Cluster"-element in the segment)
                     if (!segmentIndex && rewriteRequired && (level1Element = level0Element->childById(MatroskaIds::Cluster, diag))) {
-                        // simply use the preferred padding
-                        segment.totalDataSize += (segment.newPadding = newPadding = fileInfo().preferredPadding());
+                        // simply use the preferred padding ("Void"-element is at least 2 byte long -> can't add 1 byte padding)
+                        segment.newPadding = newPadding = fileInfo().preferredPadding() == 1 ? 2 : fileInfo().preferredPadding();
+                        segment.totalDataSize += segment.newPadding;
                     }
 
                     // pretend writing "Cluster"-element
-- 
2.43.0


From fac0064c46e2f8cf250ffb98c0e750a4a7c9eda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:36 +0000
Subject: [PATCH 122/172] fix: Rewrite Matroska files without clusters instead
 of corrupting them

---
 matroska/matroskacontainer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index c667e9d..cebfb7d 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -1352,7 +1352,9 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                             rewriteRequired = true;
                         }
                     } else {
+                        // there is no "Cluster"-element so there is nothing to preserve the offset of and the calculations above do not apply
                         diag.emplace_back(DiagLevel::Warning, argsToString("There are no clusters in segment ", segmentIndex, "."), context);
+                        rewriteRequired = true;
                     }
 
                     if (rewriteRequired) {
-- 
2.43.0


From 027d61d7e1f8fbe0f846b39f660e8ae826469074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:07 +0000
Subject: [PATCH 123/172] fix: Consider Matroska fields without TagDefault
 element as default

---
 matroska/matroskatagfield.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/matroska/matroskatagfield.cpp b/matroska/matroskatagfield.cpp
index 581e35d..ee3bb6c 100644
--- a/matroska/matroskatagfield.cpp
+++ b/matroska/matroskatagfield.cpp
@@ -48,6 +48,7 @@ void MatroskaTagField::reparse(EbmlElement &simpleTagElement, Diagnostics &diag,
 {
     string context("parsing Matroska tag field");
     simpleTagElement.parse(diag);
+    setDefault(true); // the default value of "TagDefault" is 1
     bool tagDefaultFound = false, tagLanguageFound = false, tagLanguageIETFFound = false;
     for (EbmlElement *child = simpleTagElement.firstChild(); child; child = child->nextSibling()) {
         try {
-- 
2.43.0


From 137b21a2f42c31a9eb5fe70e00225881e6bead7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:07 +0000
Subject: [PATCH 124/172] fix: Convert Matroska ratings only after all elements
 of the field have been read

---
 matroska/matroskatagfield.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/matroska/matroskatagfield.cpp b/matroska/matroskatagfield.cpp
index ee3bb6c..2512b44 100644
--- a/matroska/matroskatagfield.cpp
+++ b/matroska/matroskatagfield.cpp
@@ -138,14 +138,14 @@ void MatroskaTagField::reparse(EbmlElement &simpleTagElement, Diagnostics &diag,
                     "\"SimpleTag\"-element contains unknown element ", child->idToString(), " at ", child->startOffset(), ". It will be ignored."),
                 context);
         }
+    }
 
-        // set rating as Popularity to preserve the scale information
-        if (id() == MatroskaTagIds::rating()) {
-            try {
-                value().assignPopularity(Popularity{ .rating = stringToNumber<double>(value().toString()), .scale = TagType::MatroskaTag });
-            } catch (const ConversionException &) {
-                diag.emplace_back(DiagLevel::Warning, argsToString("The rating is not a number."), context);
-            }
+    // set rating as Popularity to preserve the scale information
+    if (id() == MatroskaTagIds::rating() && value().type() == TagDataType::Text && !value().isEmpty()) {
+        try {
+            value().assignPopularity(Popularity{ .rating = stringToNumber<double>(value().toString()), .scale = TagType::MatroskaTag });
+        } catch (const ConversionException &) {
+            diag.emplace_back(DiagLevel::Warning, argsToString("The rating is not a number."), context);
         }
     }
 }
-- 
2.43.0


From 19ad66f660e6f1c99956ec73d5f09de21f191ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:07 +0000
Subject: [PATCH 125/172] fix: Compute the size of binary Matroska fields
 correctly

---
 matroska/matroskatagfield.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/matroska/matroskatagfield.cpp b/matroska/matroskatagfield.cpp
index 2512b44..c86cbae 100644
--- a/matroska/matroskatagfield.cpp
+++ b/matroska/matroskatagfield.cpp
@@ -238,6 +238,9 @@ MatroskaTagFieldMaker::MatroskaTagFieldMaker(MatroskaTagField &field, Diagnostic
     const auto languageIETFElementSize
         = m_languageIETF.empty() ? 0 : (2 + EbmlElement::calculateSizeDenotationLength(m_languageIETF.size()) + m_languageIETF.size());
 
+    // compute size of the value
+    const auto valueSize = m_isBinary ? m_field.value().dataSize() : m_stringValue.size();
+
     // compute "SimpleTag" element size
     m_simpleTagSize =
         // "TagName" element
@@ -249,8 +252,8 @@ MatroskaTagFieldMaker::MatroskaTagFieldMaker(MatroskaTagField &field, Diagnostic
         // "TagDefault" element
         + 2 + 1
         + 1
-        // "TagString" element
-        + 2 + EbmlElement::calculateSizeDenotationLength(m_stringValue.size()) + m_stringValue.size();
+        // "TagString"/"TagBinary" element
+        + 2 + EbmlElement::calculateSizeDenotationLength(valueSize) + valueSize;
 
     // compute size of nested tags
     for (auto &nestedField : field.nestedFields()) {
-- 
2.43.0


From 5f111e37d4c7f84552acfa465ef28b707c799209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:07 +0000
Subject: [PATCH 126/172] fix: Do not drop a Matroska field only because a
 nested field is invalid

---
 matroska/matroskatagfield.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/matroska/matroskatagfield.cpp b/matroska/matroskatagfield.cpp
index c86cbae..5ed111a 100644
--- a/matroska/matroskatagfield.cpp
+++ b/matroska/matroskatagfield.cpp
@@ -257,8 +257,12 @@ MatroskaTagFieldMaker::MatroskaTagFieldMaker(MatroskaTagField &field, Diagnostic
 
     // compute size of nested tags
     for (auto &nestedField : field.nestedFields()) {
-        m_nestedMaker.emplace_back(nestedField.prepareMaking(diag));
-        m_simpleTagSize += m_nestedMaker.back().m_totalSize;
+        try {
+            m_nestedMaker.emplace_back(nestedField.prepareMaking(diag));
+            m_simpleTagSize += m_nestedMaker.back().m_totalSize;
+        } catch (const Failure &) {
+            // message will be added to diag anyways
+        }
     }
     m_totalSize = 2 + EbmlElement::calculateSizeDenotationLength(m_simpleTagSize) + m_simpleTagSize;
 }
-- 
2.43.0


From a27ccd5e9d8f839785aaeaa9be1c93299f0c639a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:07 +0000
Subject: [PATCH 127/172] fix: Preserve Matroska fields which only consist of
 nested fields

---
 matroska/matroskatag.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matroska/matroskatag.cpp b/matroska/matroskatag.cpp
index d262105..4b02a50 100644
--- a/matroska/matroskatag.cpp
+++ b/matroska/matroskatag.cpp
@@ -461,7 +461,7 @@ MatroskaTagMaker::MatroskaTagMaker(MatroskaTag &tag, Diagnostics &diag)
     m_maker.reserve(m_tag.fields().size());
     m_simpleTagsSize = 0; // including ID and size
     for (auto &pair : m_tag.fields()) {
-        if (pair.second.value().isNull()) {
+        if (pair.second.value().isNull() && pair.second.nestedFields().empty()) {
             continue;
         }
         try {
-- 
2.43.0


From baaca2438d71f725a1ba1d8d3f70318e1faeca71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:38 +0000
Subject: [PATCH 128/172] fix: Write Matroska CueReference elements correctly

---
 matroska/matroskacues.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/matroska/matroskacues.cpp b/matroska/matroskacues.cpp
index ff48ec2..a092693 100644
--- a/matroska/matroskacues.cpp
+++ b/matroska/matroskacues.cpp
@@ -330,7 +330,7 @@ void MatroskaCuePositionUpdater::make(ostream &stream, Diagnostics &diag)
                                 break;
                             case MatroskaIds::CueReference:
                                 // write "CueReference"-element
-                                stream.put(static_cast<char>(MatroskaIds::CueRefTime));
+                                stream.put(static_cast<char>(MatroskaIds::CueReference));
                                 len = EbmlElement::makeSizeDenotation(m_sizes[cueTrackPositionsChild], buff);
                                 stream.write(buff, len);
                                 for (EbmlElement *cueReferenceChild = cueTrackPositionsChild->firstChild(); cueReferenceChild;
@@ -345,7 +345,6 @@ void MatroskaCuePositionUpdater::make(ostream &stream, Diagnostics &diag)
                                         // write unchanged children of "CueReference"-element
                                         cueReferenceChild->copyBuffer(stream);
                                         cueReferenceChild->discardBuffer();
-                                        cueReferenceChild->copyEntirely(stream, diag, nullptr);
                                         break;
                                     case MatroskaIds::CueRefCluster:
                                     case MatroskaIds::CueRefCodecState:
-- 
2.43.0


From ffb33789c4d1f8f116ec788d5b48811a00717ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:38 +0000
Subject: [PATCH 129/172] fix: Clear all offsets when parsing Matroska cues
 again

---
 matroska/matroskacues.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/matroska/matroskacues.h b/matroska/matroskacues.h
index 1e08f69..1adac1a 100644
--- a/matroska/matroskacues.h
+++ b/matroska/matroskacues.h
@@ -122,6 +122,9 @@ inline void MatroskaCuePositionUpdater::clear()
 {
     m_cuesElement = nullptr;
     m_offsets.clear();
+    m_cueElementByOriginalOffset.clear();
+    m_relativeOffsets.clear();
+    m_cueRelativePositionElementByOriginalOffsets.clear();
     m_sizes.clear();
 }
 
-- 
2.43.0


From edfb36842a23d4ffcb9d5ad402cc818900a19854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:03 +0000
Subject: [PATCH 130/172] fix: Recognize unknown sizes of EBML elements denoted
 by more than one byte

---
 matroska/ebmlelement.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/matroska/ebmlelement.cpp b/matroska/ebmlelement.cpp
index d1baf02..be5c4a4 100644
--- a/matroska/ebmlelement.cpp
+++ b/matroska/ebmlelement.cpp
@@ -173,6 +173,11 @@ void EbmlElement::internalParse(Diagnostics &diag)
             // xor the first byte in buffer which has been read from the file with mask
             *(buf + (maximumSizeLengthSupported() - m_sizeLength)) ^= static_cast<char>(mask);
             m_dataSize = BE::toInt<std::uint64_t>(buf);
+            // check if the size is unknown (all bits are set)
+            if ((m_sizeUnknown = (m_dataSize == (static_cast<std::uint64_t>(1) << (7 * m_sizeLength)) - 1 && headerSize() <= maxTotalSize()))) {
+                // -> just assume the element takes the maximum available size (as above)
+                m_dataSize = maxTotalSize() - headerSize();
+            }
             // check if element is truncated
             if (totalSize() > maxTotalSize()) {
                 if (m_idLength + m_sizeLength > maxTotalSize()) { // header truncated
-- 
2.43.0


From 0ae476706aa113607670486b2a70e85cd82aa447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:13 +0000
Subject: [PATCH 131/172] fix: Use the correct CRC-32 algorithm for Matroska
 segments

---
 matroska/matroskacontainer.cpp | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index cebfb7d..2f1eb73 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -15,6 +15,8 @@
 #include <c++utilities/conversion/stringconversion.h>
 #include <c++utilities/io/path.h>
 
+#include <algorithm>
+#include <array>
 #include <chrono>
 #include <filesystem>
 #include <functional>
@@ -814,6 +816,25 @@ void MatroskaContainer::internalParseAttachments(Diagnostics &diag, AbortablePro
     }
 }
 
+/// \brief Computes the CRC-32 used by EBML (see ISO 3309) for the next \a length bytes of the specified \a stream.
+static std::uint32_t readEbmlCrc32(std::istream &stream, std::uint64_t length)
+{
+    auto crc = std::uint32_t(0xFFFFFFFF);
+    auto buffer = std::array<char, 0x4000>();
+    while (length) {
+        const auto chunkSize = std::min<std::uint64_t>(length, buffer.size());
+        stream.read(buffer.data(), static_cast<std::streamsize>(chunkSize));
+        for (std::uint64_t i = 0; i != chunkSize; ++i) {
+            crc ^= static_cast<std::uint8_t>(buffer[static_cast<std::size_t>(i)]);
+            for (auto bit = 0; bit != 8; ++bit) {
+                crc = (crc >> 1) ^ (crc & 1 ? std::uint32_t(0xEDB88320) : std::uint32_t(0));
+            }
+        }
+        length -= chunkSize;
+    }
+    return ~crc;
+}
+
 /// \brief The private SegmentData struct is used in MatroskaContainer::internalMakeFile() to store segment specific data.
 struct SegmentData {
     /// \brief Constructs a new segment data object.
@@ -1884,8 +1905,9 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
             progress.updateStep("Updating CRC-32 checksums ...");
             for (const auto &crc32Offset : crc32Offsets) {
                 outputStream.seekg(static_cast<streamoff>(get<0>(crc32Offset) + 6));
+                const auto crc32 = readEbmlCrc32(outputStream, get<1>(crc32Offset) - 6);
                 outputStream.seekp(static_cast<streamoff>(get<0>(crc32Offset) + 2));
-                writer().writeUInt32LE(reader().readCrc32(get<1>(crc32Offset) - 6));
+                writer().writeUInt32LE(crc32);
             }
         }
 
-- 
2.43.0


From e2d66f6773446d2130b6f0ff82479b1a692305ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:01 +0000
Subject: [PATCH 132/172] fix: Determine the end of Matroska clusters of
 unknown size before writing

---
 matroska/ebmlelement.h         | 11 +++++++++++
 matroska/matroskacontainer.cpp | 11 +++++++++++
 2 files changed, 22 insertions(+)

diff --git a/matroska/ebmlelement.h b/matroska/ebmlelement.h
index fd8abcc..c5bd945 100644
--- a/matroska/ebmlelement.h
+++ b/matroska/ebmlelement.h
@@ -38,6 +38,7 @@ public:
     std::string idToString() const;
     bool isParent() const;
     bool isPadding() const;
+    bool isSizeUnknown() const;
     std::uint64_t firstChildOffset() const;
     std::string readString();
     std::uint64_t readUInteger();
@@ -150,6 +151,16 @@ inline bool EbmlElement::isPadding() const
     return id() == EbmlIds::Void;
 }
 
+/*!
+ * \brief Returns whether the size of the element is unknown.
+ * \remarks The size is assumed to be the rest of the available space until the next sibling is found by parsing
+ *          the children of the element.
+ */
+inline bool EbmlElement::isSizeUnknown() const
+{
+    return m_sizeUnknown;
+}
+
 /*!
  * \brief Returns the offset of the first child of the element.
  * \remarks The returned offset is relative to the start offset if this element.
diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index 2f1eb73..344d1c2 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -1041,6 +1041,17 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                 switch (level0Element->id()) {
                 case MatroskaIds::Segment:
                     ++lastSegmentIndex;
+                    // find the end of "Cluster"-elements of unknown size by parsing their children
+                    for (level1Element = level0Element->firstChild(); level1Element; level1Element = level1Element->nextSibling()) {
+                        level1Element->parse(diag);
+                        if (level1Element->id() != MatroskaIds::Cluster || !level1Element->isSizeUnknown()) {
+                            continue;
+                        }
+                        for (level2Element = level1Element->firstChild(); level2Element && level2Element->parent() == level1Element;
+                            level2Element = level2Element->nextSibling()) {
+                            level2Element->parse(diag);
+                        }
+                    }
                     for (level1Element = level0Element->firstChild(); level1Element && !firstClusterFound && !firstTagFound;
                         level1Element = level1Element->nextSibling()) {
                         level1Element->parse(diag);
-- 
2.43.0


From b1481e46cc85c9ff918990781fd5f8cae1673d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:22 +0000
Subject: [PATCH 133/172] fix: Avoid endless loop when calculating the size of
 Matroska segments

---
 matroska/matroskacontainer.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index 344d1c2..ee44c3e 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -1286,7 +1286,9 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                                 diag.emplace_back(DiagLevel::Critical, "Header size of \"Segment\"-element from original file is invalid.", context);
                                 throw InvalidDataException();
                             }
-                            segment.sizeDenotationLength = static_cast<std::uint8_t>(level0Element->headerSize() - 4u);
+                            // note: The length is only ever increased when calculating again; otherwise the calculation might never finish.
+                            segment.sizeDenotationLength
+                                = max(segment.sizeDenotationLength, static_cast<std::uint8_t>(level0Element->headerSize() - 4u));
 
                         nonRewriteCalculations:
                             // pretend writing "Cluster"-elements assuming there is no rewrite required
@@ -1356,14 +1358,14 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
 
                             // calculate total offset again (taking everything into account)
                             // -> check whether assumed size denotation was correct
-                            if (segment.sizeDenotationLength != (sizeLength = EbmlElement::calculateSizeDenotationLength(segment.totalDataSize))) {
+                            if (segment.sizeDenotationLength < (sizeLength = EbmlElement::calculateSizeDenotationLength(segment.totalDataSize))) {
                                 // assumption was wrong -> recalculate with new length
                                 segment.sizeDenotationLength = sizeLength;
                                 level1Element = segment.firstClusterElement;
                                 goto nonRewriteCalculations;
                             }
 
-                            totalOffset = currentOffset + 4 + sizeLength + offset;
+                            totalOffset = currentOffset + 4 + segment.sizeDenotationLength + offset;
                             // offset does not include size of "Cues"-element
                             if (newCuesPos == ElementPosition::BeforeData) {
                                 totalOffset += segment.cuesUpdater.totalSize();
@@ -1512,7 +1514,10 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                 ++segmentIndex;
 
                 // increase write offsets by the size of the segment which size has just been computed
-                segment.totalSize = 4 + EbmlElement::calculateSizeDenotationLength(segment.totalDataSize) + segment.totalDataSize;
+                if (rewriteRequired) {
+                    segment.sizeDenotationLength = EbmlElement::calculateSizeDenotationLength(segment.totalDataSize);
+                }
+                segment.totalSize = 4 + segment.sizeDenotationLength + segment.totalDataSize;
                 currentPosition += segment.totalSize;
                 currentOffset += segment.totalSize;
 
@@ -1643,7 +1648,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                 // write "Segment"-element actually
                 progress.updateStep("Writing segment header ...");
                 outputWriter.writeUInt32BE(MatroskaIds::Segment);
-                sizeLength = EbmlElement::makeSizeDenotation(segment.totalDataSize, buff);
+                sizeLength = EbmlElement::makeSizeDenotation(segment.totalDataSize, buff, segment.sizeDenotationLength);
                 outputStream.write(buff, sizeLength);
                 segment.newDataOffset = offset = static_cast<std::uint64_t>(outputStream.tellp()); // store segment data offset here
 
-- 
2.43.0


From 37ce5beb556b8adfc62452d1332222314100b120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:33 +0000
Subject: [PATCH 134/172] fix: Take all Matroska clusters into account when the
 size of the index changes

---
 matroska/matroskacontainer.cpp | 49 +++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 25 deletions(-)

diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index ee44c3e..5d7fc4c 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -1427,34 +1427,33 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                         if (segment.cuesElement && segment.cuesUpdater.updateOffsets(clusterReadOffset, currentPosition + segment.totalDataSize)
                             && newCuesPos == ElementPosition::BeforeData) {
                             cuesInvalidated = true;
+                        }
+                        if (index == 0 && segment.seekInfo.push(index, MatroskaIds::Cluster, currentPosition + segment.totalDataSize)) {
+                            goto calculateSegmentSize;
                         } else {
-                            if (index == 0 && segment.seekInfo.push(index, MatroskaIds::Cluster, currentPosition + segment.totalDataSize)) {
-                                goto calculateSegmentSize;
-                            } else {
-                                // add size of "Cluster"-element
-                                clusterSize = clusterReadSize = 0;
-                                for (level2Element = level1Element->firstChild(); level2Element; level2Element = level2Element->nextSibling()) {
-                                    level2Element->parse(diag);
-                                    if (segment.cuesElement
-                                        && segment.cuesUpdater.updateRelativeOffsets(clusterReadOffset, clusterReadSize, clusterSize)
-                                        && newCuesPos == ElementPosition::BeforeData) {
-                                        cuesInvalidated = true;
-                                    }
-                                    switch (level2Element->id()) {
-                                    case EbmlIds::Void:
-                                    case EbmlIds::Crc32:
-                                        break;
-                                    case MatroskaIds::Position:
-                                        clusterSize += 1u + 1u + EbmlElement::calculateUIntegerLength(currentPosition + segment.totalDataSize);
-                                        break;
-                                    default:
-                                        clusterSize += level2Element->totalSize();
-                                    }
-                                    clusterReadSize += level2Element->totalSize();
+                            // add size of "Cluster"-element
+                            clusterSize = clusterReadSize = 0;
+                            for (level2Element = level1Element->firstChild(); level2Element; level2Element = level2Element->nextSibling()) {
+                                level2Element->parse(diag);
+                                if (segment.cuesElement
+                                    && segment.cuesUpdater.updateRelativeOffsets(clusterReadOffset, clusterReadSize, clusterSize)
+                                    && newCuesPos == ElementPosition::BeforeData) {
+                                    cuesInvalidated = true;
+                                }
+                                switch (level2Element->id()) {
+                                case EbmlIds::Void:
+                                case EbmlIds::Crc32:
+                                    break;
+                                case MatroskaIds::Position:
+                                    clusterSize += 1u + 1u + EbmlElement::calculateUIntegerLength(currentPosition + segment.totalDataSize);
+                                    break;
+                                default:
+                                    clusterSize += level2Element->totalSize();
                                 }
-                                segment.clusterSizes.push_back(clusterSize);
-                                segment.totalDataSize += 4u + EbmlElement::calculateSizeDenotationLength(clusterSize) + clusterSize;
+                                clusterReadSize += level2Element->totalSize();
                             }
+                            segment.clusterSizes.push_back(clusterSize);
+                            segment.totalDataSize += 4u + EbmlElement::calculateSizeDenotationLength(clusterSize) + clusterSize;
                         }
                         // check whether aborted (because this loop might take some seconds to process)
                         progress.stopIfAborted();
-- 
2.43.0


From 040d23008ee24f855c041321bbe576b2c28cbefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:13 +0000
Subject: [PATCH 135/172] fix: Update the PrevSize of Matroska clusters when
 rewriting them

---
 matroska/matroskacontainer.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index 5d7fc4c..b6f9bc5 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -884,6 +884,12 @@ struct SegmentData {
     std::uint8_t sizeDenotationLength;
 };
 
+/// \brief Returns the size of a "Cluster"-element (including its header) with the specified \a dataSize.
+static std::uint64_t totalClusterSize(std::uint64_t dataSize)
+{
+    return 4u + EbmlElement::calculateSizeDenotationLength(dataSize) + dataSize;
+}
+
 void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback &progress)
 {
     static const string context("making Matroska container");
@@ -1447,6 +1453,12 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                                 case MatroskaIds::Position:
                                     clusterSize += 1u + 1u + EbmlElement::calculateUIntegerLength(currentPosition + segment.totalDataSize);
                                     break;
+                                case MatroskaIds::PrevSize:
+                                    if (!segment.clusterSizes.empty()) {
+                                        clusterSize += 1u + 1u + EbmlElement::calculateUIntegerLength(totalClusterSize(segment.clusterSizes.back()));
+                                        break;
+                                    }
+                                    [[fallthrough]];
                                 default:
                                     clusterSize += level2Element->totalSize();
                                 }
@@ -1783,6 +1795,13 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                             case MatroskaIds::Position:
                                 EbmlElement::makeSimpleElement(outputStream, MatroskaIds::Position, clusterSize);
                                 break;
+                            case MatroskaIds::PrevSize:
+                                if (index) {
+                                    EbmlElement::makeSimpleElement(
+                                        outputStream, MatroskaIds::PrevSize, totalClusterSize(segment.clusterSizes[index - 1]));
+                                    break;
+                                }
+                                [[fallthrough]];
                             default:
                                 level2Element->copyEntirely(outputStream, diag, nullptr);
                             }
-- 
2.43.0


From 91424969177e2e394705ffe0c8fc0a89df398eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:16 +0000
Subject: [PATCH 136/172] fix: Update the Position of Matroska clusters when
 not rewriting the file

---
 matroska/matroskacontainer.cpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index b6f9bc5..666a4cc 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -1308,6 +1308,12 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                             for (index = 0; level1Element; level1Element = level1Element->siblingById(MatroskaIds::Cluster, diag), ++index) {
                                 clusterReadOffset = level1Element->startOffset() - level0Element->dataOffset() + readOffset;
                                 segment.clusterEndOffset = level1Element->endOffset();
+                                // -> ensure children are parsed if "Position"-elements need to be updated
+                                if (currentOffset + 4 + segment.sizeDenotationLength != level0Element->dataOffset()) {
+                                    for (level2Element = level1Element->firstChild(); level2Element; level2Element = level2Element->nextSibling()) {
+                                        level2Element->parse(diag);
+                                    }
+                                }
                                 if (segment.cuesElement
                                     && segment.cuesUpdater.updateOffsets(
                                         clusterReadOffset, level1Element->startOffset() - 4 - segment.sizeDenotationLength - ebmlHeaderSize)
@@ -1817,10 +1823,22 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                     // can't just skip existing "Cluster"-elements: "Position"-elements must be updated
                     progress.nextStepOrStop("Updating cluster ...",
                         static_cast<std::uint8_t>((static_cast<std::uint64_t>(outputStream.tellp()) - offset) * 100 / segment.totalDataSize));
-                    for (; level1Element; level1Element = level1Element->nextSibling()) {
+                    for (; level1Element && segment.newDataOffset != level0Element->dataOffset(); level1Element = level1Element->nextSibling()) {
+                        if (level1Element->id() != MatroskaIds::Cluster) {
+                            continue;
+                        }
+                        EbmlElement *crc32Element = nullptr;
                         for (level2Element = level1Element->firstChild(); level2Element; level2Element = level2Element->nextSibling()) {
                             switch (level2Element->id()) {
+                            case EbmlIds::Crc32:
+                                crc32Element = level2Element;
+                                break;
                             case MatroskaIds::Position:
+                                // void the checksum (if there is one) as it will not be valid anymore
+                                if (crc32Element) {
+                                    outputStream.seekp(static_cast<streamoff>(crc32Element->startOffset()));
+                                    outputStream.put(static_cast<char>(EbmlIds::Void));
+                                }
                                 // calculate new position
                                 sizeLength = EbmlElement::makeUInteger(level1Element->startOffset() - segmentData.front().newDataOffset, buff,
                                     level2Element->dataSize() > 8 ? 8 : static_cast<std::uint8_t>(level2Element->dataSize()));
-- 
2.43.0


From 484ad3f93839f792b0742cafc1017930f54f5f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:33 +0000
Subject: [PATCH 137/172] fix: Skip outdated checksums when writing Matroska
 tracks

---
 matroska/matroskatrack.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/matroska/matroskatrack.cpp b/matroska/matroskatrack.cpp
index 30571df..feae632 100644
--- a/matroska/matroskatrack.cpp
+++ b/matroska/matroskatrack.cpp
@@ -1,5 +1,6 @@
 #include "./matroskatrack.h"
 #include "./ebmlelement.h"
+#include "./ebmlid.h"
 #include "./matroskacontainer.h"
 #include "./matroskaid.h"
 #include "./matroskatag.h"
@@ -597,6 +598,9 @@ MatroskaTrackHeaderMaker::MatroskaTrackHeaderMaker(const MatroskaTrack &track, D
         case MatroskaIds::TrackFlagDefault:
         case MatroskaIds::TrackFlagForced:
             // skip recognized elements
+        case EbmlIds::Void:
+        case EbmlIds::Crc32:
+            // skip padding and checksum (which would not be valid anymore)
             break;
         default:
             trackInfoElement->makeBuffer();
@@ -648,6 +652,9 @@ void MatroskaTrackHeaderMaker::make(ostream &stream) const
         case MatroskaIds::TrackFlagDefault:
         case MatroskaIds::TrackFlagForced:
             // skip recognized elements
+        case EbmlIds::Void:
+        case EbmlIds::Crc32:
+            // skip padding and checksum (which would not be valid anymore)
             break;
         default:
             trackInfoElement->copyBuffer(stream);
-- 
2.43.0


From 1a84b8f715c6fb8102559e731af199e5fa6a8802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:05 +0000
Subject: [PATCH 138/172] fix: Avoid underflow when size of truncated EBML
 element is unknown

---
 matroska/ebmlelement.cpp | 72 ++++++++++++++++++----------------------
 1 file changed, 33 insertions(+), 39 deletions(-)

diff --git a/matroska/ebmlelement.cpp b/matroska/ebmlelement.cpp
index be5c4a4..f829197 100644
--- a/matroska/ebmlelement.cpp
+++ b/matroska/ebmlelement.cpp
@@ -146,50 +146,44 @@ void EbmlElement::internalParse(Diagnostics &diag)
         beg = static_cast<std::uint8_t>(stream().peek());
         mask = 0x80;
         m_sizeLength = 1;
-        if ((m_sizeUnknown = (beg == 0xFF))) {
-            // this indicates that the element size is unknown
-            // -> just assume the element takes the maximum available size
-            m_dataSize = maxTotalSize() - headerSize();
-        } else {
-            while (m_sizeLength <= maximumSizeLengthSupported() && (beg & mask) == 0) {
-                ++m_sizeLength;
-                mask >>= 1;
+        while (m_sizeLength <= maximumSizeLengthSupported() && (beg & mask) == 0) {
+            ++m_sizeLength;
+            mask >>= 1;
+        }
+        if (m_sizeLength > maximumSizeLengthSupported()) {
+            if (!skipped) {
+                diag.emplace_back(DiagLevel::Critical, "EBML size length is not supported.", parsingContext());
             }
-            if (m_sizeLength > maximumSizeLengthSupported()) {
-                if (!skipped) {
-                    diag.emplace_back(DiagLevel::Critical, "EBML size length is not supported.", parsingContext());
-                }
-                continue; // try again
+            continue; // try again
+        }
+        if (m_sizeLength > container().maxSizeLength()) {
+            if (!skipped) {
+                diag.emplace_back(DiagLevel::Critical, "EBML size length is invalid.", parsingContext());
             }
-            if (m_sizeLength > container().maxSizeLength()) {
+            continue; // try again
+        }
+        // read size into buffer
+        memset(buf, 0, sizeof(DataSizeType)); // reset buffer
+        reader().read(buf + (maximumSizeLengthSupported() - m_sizeLength), m_sizeLength);
+        // xor the first byte in buffer which has been read from the file with mask
+        *(buf + (maximumSizeLengthSupported() - m_sizeLength)) ^= static_cast<char>(mask);
+        m_dataSize = BE::toInt<std::uint64_t>(buf);
+        // check if the size is unknown (all bits are set)
+        if ((m_sizeUnknown = (m_dataSize == (static_cast<std::uint64_t>(1) << (7 * m_sizeLength)) - 1 && headerSize() <= maxTotalSize()))) {
+            // -> just assume the element takes the maximum available size
+            m_dataSize = maxTotalSize() - headerSize();
+        }
+        // check if element is truncated
+        if (totalSize() > maxTotalSize()) {
+            if (m_idLength + m_sizeLength > maxTotalSize()) { // header truncated
                 if (!skipped) {
-                    diag.emplace_back(DiagLevel::Critical, "EBML size length is invalid.", parsingContext());
+                    diag.emplace_back(DiagLevel::Critical, "EBML header seems to be truncated.", parsingContext());
                 }
                 continue; // try again
-            }
-            // read size into buffer
-            memset(buf, 0, sizeof(DataSizeType)); // reset buffer
-            reader().read(buf + (maximumSizeLengthSupported() - m_sizeLength), m_sizeLength);
-            // xor the first byte in buffer which has been read from the file with mask
-            *(buf + (maximumSizeLengthSupported() - m_sizeLength)) ^= static_cast<char>(mask);
-            m_dataSize = BE::toInt<std::uint64_t>(buf);
-            // check if the size is unknown (all bits are set)
-            if ((m_sizeUnknown = (m_dataSize == (static_cast<std::uint64_t>(1) << (7 * m_sizeLength)) - 1 && headerSize() <= maxTotalSize()))) {
-                // -> just assume the element takes the maximum available size (as above)
-                m_dataSize = maxTotalSize() - headerSize();
-            }
-            // check if element is truncated
-            if (totalSize() > maxTotalSize()) {
-                if (m_idLength + m_sizeLength > maxTotalSize()) { // header truncated
-                    if (!skipped) {
-                        diag.emplace_back(DiagLevel::Critical, "EBML header seems to be truncated.", parsingContext());
-                    }
-                    continue; // try again
-                } else { // data truncated
-                    diag.emplace_back(DiagLevel::Warning, "Data of EBML element seems to be truncated; unable to parse siblings of that element.",
-                        parsingContext());
-                    m_dataSize = maxTotalSize() - m_idLength - m_sizeLength; // using max size instead
-                }
+            } else { // data truncated
+                diag.emplace_back(DiagLevel::Warning, "Data of EBML element seems to be truncated; unable to parse siblings of that element.",
+                    parsingContext());
+                m_dataSize = maxTotalSize() - m_idLength - m_sizeLength; // using max size instead
             }
         }
 
-- 
2.43.0


From 55a1e16470e422c773b92a887ef2bbf3cc12e996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:05 +0000
Subject: [PATCH 139/172] fix: Consider default duration of Matroska tracks
 independently of the order of elements

---
 matroska/matroskatrack.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/matroska/matroskatrack.cpp b/matroska/matroskatrack.cpp
index feae632..2878391 100644
--- a/matroska/matroskatrack.cpp
+++ b/matroska/matroskatrack.cpp
@@ -297,6 +297,7 @@ void MatroskaTrack::internalParseHeader(Diagnostics &diag, AbortableProgressFeed
     }
     // read information about the track from the children of the track entry element
     auto hasIsoLanguage = false;
+    auto defaultDuration = std::uint64_t();
     m_flags = TrackFlags::Default | TrackFlags::Enabled;
     for (EbmlElement *trackInfoElement = m_trackElement->firstChild(), *subElement = nullptr; trackInfoElement;
         trackInfoElement = trackInfoElement->nextSibling()) {
@@ -306,7 +307,6 @@ void MatroskaTrack::internalParseHeader(Diagnostics &diag, AbortableProgressFeed
             diag.emplace_back(DiagLevel::Critical, "Unable to parse track information element.", context);
             break;
         }
-        std::uint64_t defaultDuration = 0;
         switch (trackInfoElement->id()) {
         case MatroskaIds::TrackType:
             switch (trackInfoElement->readUInteger()) {
@@ -445,14 +445,16 @@ void MatroskaTrack::internalParseHeader(Diagnostics &diag, AbortableProgressFeed
             break;
         default:;
         }
-        switch (m_mediaType) {
-        case MediaType::Video:
-            if (!m_fps && defaultDuration) {
-                m_fps = static_cast<std::uint32_t>(1000000000.0 / static_cast<double>(defaultDuration));
-            }
-            break;
-        default:;
+    }
+
+    // compute the frame rate from the default duration (which might occur before the type of the track)
+    switch (m_mediaType) {
+    case MediaType::Video:
+        if (!m_fps && defaultDuration) {
+            m_fps = static_cast<std::uint32_t>(1000000000.0 / static_cast<double>(defaultDuration));
         }
+        break;
+    default:;
     }
 
     // read further information from the CodecPrivate element for some codecs
-- 
2.43.0


From ce4c2997305ce4bc10d287008e16369634fbaf87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:17 +0000
Subject: [PATCH 140/172] fix: Handle out-of-range values of float elements
 when parsing Matroska tracks

---
 matroska/matroskatrack.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/matroska/matroskatrack.cpp b/matroska/matroskatrack.cpp
index 2878391..27ede87 100644
--- a/matroska/matroskatrack.cpp
+++ b/matroska/matroskatrack.cpp
@@ -24,6 +24,12 @@ using namespace CppUtilities;
 
 namespace TagParser {
 
+/// \brief Converts the specified floating point \a value to an integer; returns zero if the value is not representable.
+static std::uint32_t toUInt32(double value)
+{
+    return value >= 0.0 && value < 4294967296.0 ? static_cast<std::uint32_t>(value) : 0;
+}
+
 /*!
  * \class TagParser::MatroskaTrack
  * \brief Implementation of TagParser::AbstractTrack for the Matroska container.
@@ -363,7 +369,7 @@ void MatroskaTrack::internalParseHeader(Diagnostics &diag, AbortableProgressFeed
                     m_cropping.setRight(static_cast<std::uint32_t>(subElement->readUInteger()));
                     break;
                 case MatroskaIds::FrameRate:
-                    m_fps = static_cast<std::uint32_t>(subElement->readFloat());
+                    m_fps = toUInt32(subElement->readFloat());
                     break;
                 case MatroskaIds::FlagInterlaced:
                     modFlagEnum(m_flags, TrackFlags::Interlaced, subElement->readUInteger());
@@ -392,12 +398,12 @@ void MatroskaTrack::internalParseHeader(Diagnostics &diag, AbortableProgressFeed
                     break;
                 case MatroskaIds::SamplingFrequency:
                     if (!m_samplingFrequency) {
-                        m_samplingFrequency = static_cast<std::uint32_t>(subElement->readFloat());
+                        m_samplingFrequency = toUInt32(subElement->readFloat());
                     }
                     break;
                 case MatroskaIds::OutputSamplingFrequency:
                     if (!m_extensionSamplingFrequency) {
-                        m_extensionSamplingFrequency = static_cast<std::uint32_t>(subElement->readFloat());
+                        m_extensionSamplingFrequency = toUInt32(subElement->readFloat());
                     }
                     break;
                 default:;
-- 
2.43.0


From effb757d616edc50ddb8885ad7905831a9cfe673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:17 +0000
Subject: [PATCH 141/172] fix: Write Matroska seek entries in deterministic
 order

---
 matroska/matroskacontainer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index 666a4cc..51b89ac 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -1115,6 +1115,11 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
             newCuesPos = fileInfo().indexPosition();
         }
 
+        // discard seek information from a previous calculation so the order of the entries only depends on the final layout
+        for (auto &segment : segmentData) {
+            segment.seekInfo.clear();
+        }
+
         // calculate sizes and other information required to make segments
         for (level0Element = firstElement(), currentPosition = newPadding = segmentIndex = 0; level0Element;
             level0Element = level0Element->nextSibling()) {
-- 
2.43.0


From 33198608035d05b34951b37b5dcd478efa7b5304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:32 +0000
Subject: [PATCH 142/172] fix: Avoid writing Matroska file which has no segment

---
 matroska/matroskacontainer.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index 51b89ac..8669842 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -1078,6 +1078,12 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                 }
             }
 
+            // abort before touching the file if there's no segment to write the tags to
+            if (lastSegmentIndex == numeric_limits<unsigned int>::max()) {
+                diag.emplace_back(DiagLevel::Critical, "The original file does not contain a \"Segment\"-element.", context);
+                throw InvalidDataException();
+            }
+
             // now the number of segments is known -> allocate segment specific data
             segmentData.resize(lastSegmentIndex + 1);
 
@@ -1089,8 +1095,10 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
             }
 
         } catch (const Failure &) {
-            diag.emplace_back(DiagLevel::Critical,
-                "Unable to parse content in top-level element at " % numberToString(level0Element->startOffset()) + " of original file.", context);
+            if (level0Element) {
+                diag.emplace_back(DiagLevel::Critical,
+                    "Unable to parse content in top-level element at " % numberToString(level0Element->startOffset()) + " of original file.", context);
+            }
             throw;
         }
 
-- 
2.43.0


From c1950fd1225eb4cab5eaa42edf07fa8b4ac6d9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:32 +0000
Subject: [PATCH 143/172] fix: Rewrite Matroska files with unknown top-level
 elements instead of copying these onto themselves

---
 matroska/matroskacontainer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index 8669842..c3038c1 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -1557,6 +1557,11 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                 break;
             }
             default:
+                // rewrite the file if there are unknown top-level elements as these need to be copied
+                if (!rewriteRequired) {
+                    rewriteRequired = true;
+                    goto calculateSegmentData;
+                }
                 // just copy any unknown top-level elements
                 diag.emplace_back(DiagLevel::Warning,
                     "The top-level element \"" % level0Element->idToString() + "\" of the original file is unknown and will just be copied.",
-- 
2.43.0


From f7c422e4ec2e1f207eee453066c43710d561c704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:57 +0000
Subject: [PATCH 144/172] fix: Refuse to write Matroska files with incomplete
 track headers

---
 matroska/matroskacontainer.cpp | 12 +++++-------
 matroska/matroskatrack.cpp     |  3 +--
 2 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index c3038c1..23e4d72 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -1025,14 +1025,12 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
             = attachedFileElementsSize ? 4 + EbmlElement::calculateSizeDenotationLength(attachedFileElementsSize) + attachedFileElementsSize : 0;
 
         // calculate size of "Tracks"-element
+        // note: Not catching errors here as omitting tracks which could not be read completely would lead to data loss.
         for (auto &track : tracks()) {
-            try {
-                const auto &maker = trackHeaderMaker.emplace_back(track->prepareMakingHeader(diag));
-                if (maker.requiredSize() > 3) {
-                    // a track header of 3 bytes size is empty and can be skipped
-                    trackHeaderElementsSize += maker.requiredSize();
-                }
-            } catch (const Failure &) {
+            const auto &maker = trackHeaderMaker.emplace_back(track->prepareMakingHeader(diag));
+            if (maker.requiredSize() > 3) {
+                // a track header of 3 bytes size is empty and can be skipped
+                trackHeaderElementsSize += maker.requiredSize();
             }
         }
         trackHeaderSize
diff --git a/matroska/matroskatrack.cpp b/matroska/matroskatrack.cpp
index 27ede87..bb4d2a5 100644
--- a/matroska/matroskatrack.cpp
+++ b/matroska/matroskatrack.cpp
@@ -574,8 +574,6 @@ MatroskaTrackHeaderMaker::MatroskaTrackHeaderMaker(const MatroskaTrack &track, D
     , m_languageIETF(m_track.locale().abbreviatedName(LocaleFormat::BCP_47))
     , m_dataSize(0)
 {
-    CPP_UTILITIES_UNUSED(diag);
-
     // calculate size for recognized elements
     m_dataSize += 2u + 1u + EbmlElement::calculateUIntegerLength(m_track.id());
     m_dataSize += 1u + 1u + EbmlElement::calculateUIntegerLength(m_track.trackNumber());
@@ -611,6 +609,7 @@ MatroskaTrackHeaderMaker::MatroskaTrackHeaderMaker(const MatroskaTrack &track, D
             // skip padding and checksum (which would not be valid anymore)
             break;
         default:
+            trackInfoElement->parse(diag);
             trackInfoElement->makeBuffer();
             m_dataSize += trackInfoElement->totalSize();
         }
-- 
2.43.0


From 11d0a2792359e6a1deaeeb81d5c4ceb8900e47b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:57 +0000
Subject: [PATCH 145/172] fix: Take clusters of further Matroska segments into
 account

---
 matroska/matroskacontainer.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index 23e4d72..45e632b 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -1434,8 +1434,9 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                 } else {
                     // if rewrite is required, pretend writing the remaining elements to compute total segment size and cluster sizes
 
-                    // pretend writing "Void"-element (only if there is at least one "Cluster"-element in the segment)
-                    if (!segmentIndex && rewriteRequired && (level1Element = level0Element->childById(MatroskaIds::Cluster, diag))) {
+                    // pretend writing "Void"-element (only if there is at least one "Cluster"-element in the first segment)
+                    level1Element = level0Element->childById(MatroskaIds::Cluster, diag);
+                    if (!segmentIndex && rewriteRequired && level1Element) {
                         // simply use the preferred padding ("Void"-element is at least 2 byte long -> can't add 1 byte padding)
                         segment.newPadding = newPadding = fileInfo().preferredPadding() == 1 ? 2 : fileInfo().preferredPadding();
                         segment.totalDataSize += segment.newPadding;
-- 
2.43.0


From 777ae46e81ba81d80389ead0eb5ead20d2899cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:37 +0000
Subject: [PATCH 146/172] fix: Rewrite Matroska files with truncated clusters

---
 matroska/ebmlelement.cpp       |  2 ++
 matroska/ebmlelement.h         | 11 +++++++++++
 matroska/matroskacontainer.cpp |  5 +++++
 3 files changed, 18 insertions(+)

diff --git a/matroska/ebmlelement.cpp b/matroska/ebmlelement.cpp
index f829197..e2dd756 100644
--- a/matroska/ebmlelement.cpp
+++ b/matroska/ebmlelement.cpp
@@ -174,6 +174,7 @@ void EbmlElement::internalParse(Diagnostics &diag)
             m_dataSize = maxTotalSize() - headerSize();
         }
         // check if element is truncated
+        m_truncated = false;
         if (totalSize() > maxTotalSize()) {
             if (m_idLength + m_sizeLength > maxTotalSize()) { // header truncated
                 if (!skipped) {
@@ -184,6 +185,7 @@ void EbmlElement::internalParse(Diagnostics &diag)
                 diag.emplace_back(DiagLevel::Warning, "Data of EBML element seems to be truncated; unable to parse siblings of that element.",
                     parsingContext());
                 m_dataSize = maxTotalSize() - m_idLength - m_sizeLength; // using max size instead
+                m_truncated = true;
             }
         }
 
diff --git a/matroska/ebmlelement.h b/matroska/ebmlelement.h
index c5bd945..2184fd6 100644
--- a/matroska/ebmlelement.h
+++ b/matroska/ebmlelement.h
@@ -39,6 +39,7 @@ public:
     bool isParent() const;
     bool isPadding() const;
     bool isSizeUnknown() const;
+    bool isTruncated() const;
     std::uint64_t firstChildOffset() const;
     std::string readString();
     std::uint64_t readUInteger();
@@ -64,6 +65,8 @@ protected:
 
 private:
     std::string parsingContext() const;
+
+    bool m_truncated = false;
 };
 
 /*!
@@ -161,6 +164,14 @@ inline bool EbmlElement::isSizeUnknown() const
     return m_sizeUnknown;
 }
 
+/*!
+ * \brief Returns whether the denoted size of the element exceeds the available space.
+ */
+inline bool EbmlElement::isTruncated() const
+{
+    return m_truncated;
+}
+
 /*!
  * \brief Returns the offset of the first child of the element.
  * \remarks The returned offset is relative to the start offset if this element.
diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index 45e632b..60f863e 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -1319,6 +1319,11 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                             for (index = 0; level1Element; level1Element = level1Element->siblingById(MatroskaIds::Cluster, diag), ++index) {
                                 clusterReadOffset = level1Element->startOffset() - level0Element->dataOffset() + readOffset;
                                 segment.clusterEndOffset = level1Element->endOffset();
+                                // -> rewrite the file if the denoted size of the element is wrong; otherwise what is written after it would
+                                //    be considered part of it
+                                if (level1Element->isTruncated()) {
+                                    rewriteRequired = true;
+                                }
                                 // -> ensure children are parsed if "Position"-elements need to be updated
                                 if (currentOffset + 4 + segment.sizeDenotationLength != level0Element->dataOffset()) {
                                     for (level2Element = level1Element->firstChild(); level2Element; level2Element = level2Element->nextSibling()) {
-- 
2.43.0


From 89bb454a68457a69b66c162e7d0c94c9ed6190e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:40 +0000
Subject: [PATCH 147/172] fix: Map object types of MPEG-2 video to the right
 format and profile

---
 mp4/mp4ids.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mp4/mp4ids.cpp b/mp4/mp4ids.cpp
index caab905..92bee4a 100644
--- a/mp4/mp4ids.cpp
+++ b/mp4/mp4ids.cpp
@@ -248,17 +248,17 @@ MediaFormat streamObjectTypeFormat(std::uint8_t streamObjectTypeId)
     case Aac:
         return MediaFormat(GeneralMediaFormat::Aac, SubFormats::AacMpeg4LowComplexityProfile);
     case Mpeg2VideoSimpleProfile:
-        return MediaFormat(GeneralMediaFormat::Mpeg4Video, SubFormats::Mpeg2SimpleProfile);
+        return MediaFormat(GeneralMediaFormat::Mpeg2Video, SubFormats::Mpeg2SimpleProfile);
     case Mpeg2VideoMainProfile:
-        return MediaFormat(GeneralMediaFormat::Mpeg4Video, SubFormats::Mpeg2SnrProfile);
+        return MediaFormat(GeneralMediaFormat::Mpeg2Video, SubFormats::Mpeg2MainProfile);
     case Mpeg2VideoSnrProfile:
-        return MediaFormat(GeneralMediaFormat::Mpeg4Video, SubFormats::Mpeg2SpatialProfile);
+        return MediaFormat(GeneralMediaFormat::Mpeg2Video, SubFormats::Mpeg2SnrProfile);
     case Mpeg2VideoSpatialProfile:
-        return MediaFormat(GeneralMediaFormat::Mpeg4Video, SubFormats::Mpeg2HighProfile);
+        return MediaFormat(GeneralMediaFormat::Mpeg2Video, SubFormats::Mpeg2SpatialProfile);
     case Mpeg2VideoHighProfile:
-        return MediaFormat(GeneralMediaFormat::Mpeg4Video, SubFormats::Mpeg2HighProfile);
+        return MediaFormat(GeneralMediaFormat::Mpeg2Video, SubFormats::Mpeg2HighProfile);
     case Mpeg2Video422Profile:
-        return MediaFormat(GeneralMediaFormat::Mpeg4Video, SubFormats::Mpeg2SimpleProfile);
+        return MediaFormat(GeneralMediaFormat::Mpeg2Video, SubFormats::Mpeg2422Profile);
     case Mpeg2AacMainProfile:
         return MediaFormat(GeneralMediaFormat::Aac, SubFormats::AacMpeg2MainProfile);
     case Mpeg2AacLowComplexityProfile:
-- 
2.43.0


From 075b84bd30e10c6e7e0f4b18049d5dd872e212ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:40 +0000
Subject: [PATCH 148/172] fix: Use the registered object types of DTS and
 DTS-HD

---
 mp4/mp4ids.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mp4/mp4ids.h b/mp4/mp4ids.h
index e00d3d0..8198eaf 100644
--- a/mp4/mp4ids.h
+++ b/mp4/mp4ids.h
@@ -493,7 +493,7 @@ enum KnownValue : std::uint8_t {
     Dirac, /**< Dirac */
     Ac3, /**< AC-3 */
     EAc3, /**< E-AC-3 */
-    Dts, /**< DTS */
+    Dts = 0xA9, /**< DTS */
     DtsHdHighResolution, /**< DTS-HD High Resolution */
     DtsHdMasterAudio, /**< DTS-HD Master Audio */
     DtsHdExpress, /**< DTS-HD Express */
-- 
2.43.0


From f1da0fc21dc77cc6b59bc314bddcf6ab9a42a733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:24 +0000
Subject: [PATCH 149/172] fix: Read QuickTime sound descriptions of version 2

---
 mp4/mp4track.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mp4/mp4track.cpp b/mp4/mp4track.cpp
index c3ac265..0941d47 100644
--- a/mp4/mp4track.cpp
+++ b/mp4/mp4track.cpp
@@ -1848,7 +1848,13 @@ void Mp4Track::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
                             codecConfigContainerAtom->denoteFirstChild(codecConfigContainerAtom->headerSize() + 28 + 16);
                             break;
                         case 2:
-                            codecConfigContainerAtom->denoteFirstChild(codecConfigContainerAtom->headerSize() + 28 + 32);
+                            // read the actual values of the version 2 sound description
+                            m_istream->seekg(4, ios_base::cur); // skip size of structure
+                            m_samplingFrequency = static_cast<std::uint32_t>(reader.readFloat64BE());
+                            m_channelCount = static_cast<std::uint16_t>(reader.readUInt32BE());
+                            m_istream->seekg(4, ios_base::cur); // skip reserved bytes
+                            m_bitsPerSample = static_cast<std::uint16_t>(reader.readUInt32BE());
+                            codecConfigContainerAtom->denoteFirstChild(codecConfigContainerAtom->headerSize() + 28 + 36);
                             break;
                         default:
                             codecConfigContainerAtom->denoteFirstChild(codecConfigContainerAtom->headerSize() + 28);
-- 
2.43.0


From 1684e7b5591afea9324a56a6040663ba31db6e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:24 +0000
Subject: [PATCH 150/172] fix: Don't read MPEG audio frame from MP4 tracks
 without chunks

---
 mp4/mp4track.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mp4/mp4track.cpp b/mp4/mp4track.cpp
index 0941d47..fdf9c6f 100644
--- a/mp4/mp4track.cpp
+++ b/mp4/mp4track.cpp
@@ -1991,6 +1991,9 @@ void Mp4Track::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
                             switch (m_format.general) {
                             case GeneralMediaFormat::Mpeg1Audio:
                             case GeneralMediaFormat::Mpeg2Audio: {
+                                if (!m_chunkCount) {
+                                    break; // there's no stream data (except maybe in fragments)
+                                }
                                 MpegAudioFrame frame;
                                 m_istream->seekg(static_cast<streamoff>(m_stcoAtom->dataOffset() + 8));
                                 m_istream->seekg(static_cast<streamoff>(m_chunkOffsetSize == 8 ? reader.readUInt64BE() : reader.readUInt32BE()));
-- 
2.43.0


From e94ffc7f5e7ed28280a18f4eae10155002751532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:24 +0000
Subject: [PATCH 151/172] fix: Take SBR denoted by Matroska codec IDs into
 account

---
 matroska/matroskatrack.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/matroska/matroskatrack.cpp b/matroska/matroskatrack.cpp
index bb4d2a5..7daf8c3 100644
--- a/matroska/matroskatrack.cpp
+++ b/matroska/matroskatrack.cpp
@@ -158,7 +158,7 @@ MediaFormat MatroskaTrack::codecIdToMediaFormat(const string &codecId)
                 fmt.sub = SubFormats::AacMpeg2MainProfile;
             } else if (part3 == "LC") {
                 fmt.sub = SubFormats::AacMpeg2LowComplexityProfile;
-            } else if (part3 == "SBR") {
+            } else if (part3 == "SBR" || part3 == "LC/SBR") {
                 fmt.sub = SubFormats::AacMpeg2LowComplexityProfile;
                 fmt.extension = ExtensionFormats::SpectralBandReplication;
             } else if (part3 == "SSR") {
@@ -169,7 +169,7 @@ MediaFormat MatroskaTrack::codecIdToMediaFormat(const string &codecId)
                 fmt.sub = SubFormats::AacMpeg4MainProfile;
             } else if (part3 == "LC") {
                 fmt.sub = SubFormats::AacMpeg4LowComplexityProfile;
-            } else if (part3 == "SBR") {
+            } else if (part3 == "SBR" || part3 == "LC/SBR") {
                 fmt.sub = SubFormats::AacMpeg4LowComplexityProfile;
                 fmt.extension = ExtensionFormats::SpectralBandReplication;
             } else if (part3 == "SSR") {
-- 
2.43.0


From bcdb1d814dc166c9bf87b96a9799963c7c4b6830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:46 +0000
Subject: [PATCH 152/172] fix: Read tracks chapters of Matroska files apply to

---
 matroska/matroskachapter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matroska/matroskachapter.cpp b/matroska/matroskachapter.cpp
index d695f7a..8786d63 100644
--- a/matroska/matroskachapter.cpp
+++ b/matroska/matroskachapter.cpp
@@ -76,7 +76,7 @@ void MatroskaChapter::internalParse(Diagnostics &diag, AbortableProgressFeedback
                 chapterTrackElement = chapterTrackElement->nextSibling()) {
                 chapterTrackElement->parse(diag);
                 switch (chapterTrackElement->id()) {
-                case MatroskaIds::ChapterTrack:
+                case MatroskaIds::ChapterTrackNumber:
                     m_tracks.emplace_back(chapterTrackElement->readUInteger());
                     break;
                 default:
-- 
2.43.0


From 757f4575f23160599ef0c26e2f3b3947d769cfd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:46 +0000
Subject: [PATCH 153/172] fix: Don't report progressive Matroska tracks as
 interlaced

---
 matroska/matroskatrack.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matroska/matroskatrack.cpp b/matroska/matroskatrack.cpp
index 7daf8c3..ce75d3f 100644
--- a/matroska/matroskatrack.cpp
+++ b/matroska/matroskatrack.cpp
@@ -372,7 +372,7 @@ void MatroskaTrack::internalParseHeader(Diagnostics &diag, AbortableProgressFeed
                     m_fps = toUInt32(subElement->readFloat());
                     break;
                 case MatroskaIds::FlagInterlaced:
-                    modFlagEnum(m_flags, TrackFlags::Interlaced, subElement->readUInteger());
+                    modFlagEnum(m_flags, TrackFlags::Interlaced, subElement->readUInteger() == 1);
                     break;
                 case MatroskaIds::ColorSpace:
                     m_colorSpace = static_cast<std::uint32_t>(subElement->readUInteger());
-- 
2.43.0


From bf119f8e220ed8971af4eb291f630c63d898cfcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:23 +0000
Subject: [PATCH 154/172] fix: Read all 14 bits of the core coder delay

---
 mp4/mp4track.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mp4/mp4track.cpp b/mp4/mp4track.cpp
index fdf9c6f..6f1a14b 100644
--- a/mp4/mp4track.cpp
+++ b/mp4/mp4track.cpp
@@ -772,7 +772,7 @@ unique_ptr<Mpeg4AudioSpecificConfig> Mp4Track::parseAudioSpecificConfig(
         case ErAacLd:
             audioCfg->frameLengthFlag = bitReader.readBits<std::uint8_t>(1);
             if ((audioCfg->dependsOnCoreCoder = bitReader.readBit())) {
-                audioCfg->coreCoderDelay = bitReader.readBits<std::uint8_t>(14);
+                audioCfg->coreCoderDelay = bitReader.readBits<std::uint16_t>(14);
             }
             audioCfg->extensionFlag = bitReader.readBit();
             if (audioCfg->channelConfiguration == 0) {
-- 
2.43.0


From 1e9764632a8f1e29ea92bedcbb76677175df2778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:23 +0000
Subject: [PATCH 155/172] fix: Find start codes directly after user data of
 MPEG-4 video

---
 mp4/mp4track.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/mp4/mp4track.cpp b/mp4/mp4track.cpp
index 6f1a14b..16fcc34 100644
--- a/mp4/mp4track.cpp
+++ b/mp4/mp4track.cpp
@@ -910,7 +910,10 @@ std::unique_ptr<Mpeg4VideoSpecificConfig> Mp4Track::parseVideoSpecificConfig(
                         break;
                     }
                 }
-                if (buff1 != 1 && size > 0) {
+                if (buff1 == 1) {
+                    continue; // the start of the next video object has already been reached
+                }
+                if (size > 0) {
                     videoCfg->userData += reader.readString(size);
                     size = 0;
                 }
@@ -918,15 +921,20 @@ std::unique_ptr<Mpeg4VideoSpecificConfig> Mp4Track::parseVideoSpecificConfig(
             default:;
             }
             // skip remaining values to get the start of the next video object
+            auto hasNext = false;
             while (size >= 3) {
                 if (reader.readUInt24BE() != 1) {
                     reader.stream()->seekg(-2, ios_base::cur);
                     --size;
                 } else {
                     size -= 3;
+                    hasNext = true;
                     break;
                 }
             }
+            if (!hasNext) {
+                break; // the remaining bytes are too few for a start code
+            }
         }
     } else {
         diag.emplace_back(DiagLevel::Critical, "\"Visual Object Sequence Header\" not found.", context);
-- 
2.43.0


From f786b78e179b9532f95f3350daa8dae03c0f6086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:49:08 +0000
Subject: [PATCH 156/172] fix: Don't return Vorbis comments which have been
 removed

---
 mediafileinfo.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mediafileinfo.cpp b/mediafileinfo.cpp
index 6fc5176..ecb24ba 100644
--- a/mediafileinfo.cpp
+++ b/mediafileinfo.cpp
@@ -1352,8 +1352,8 @@ const vector<unique_ptr<MatroskaTag>> &MediaFileInfo::matroskaTags() const
  */
 VorbisComment *MediaFileInfo::vorbisComment() const
 {
-    return m_containerFormat == ContainerFormat::Ogg && m_container && m_container->tagCount()
-        ? static_cast<OggContainer *>(m_container.get())->tags().front().get()
+    return m_containerFormat == ContainerFormat::Ogg && m_container
+        ? static_cast<OggContainer *>(m_container.get())->tag(0)
         : (m_containerFormat == ContainerFormat::Flac && m_singleTrack ? static_cast<FlacStream *>(m_singleTrack.get())->vorbisComment() : nullptr);
 }
 
-- 
2.43.0


From 53f03168046ac12db53128b70da55300b033ee29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:49:08 +0000
Subject: [PATCH 157/172] fix: Keep track in target of Vorbis comments created
 for the first track

---
 ogg/oggcontainer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ogg/oggcontainer.cpp b/ogg/oggcontainer.cpp
index 135d990..33a061f 100644
--- a/ogg/oggcontainer.cpp
+++ b/ogg/oggcontainer.cpp
@@ -109,7 +109,9 @@ OggVorbisComment *OggContainer::createTag(const TagTarget &target)
                 // check whether start page has a valid value
                 if (track->startPage() < m_iterator.pages().size()) {
                     announceComment(track->startPage(), numeric_limits<size_t>::max(), false, track->format().general);
-                    m_tags.back()->setTarget(target);
+                    if (!target.tracks().empty()) {
+                        m_tags.back()->setTarget(target);
+                    }
                     return m_tags.back().get();
                 } else {
                     // TODO: error handling?
-- 
2.43.0


From 8af65d3e10b73cc7519f3aaa2a37e0d28244c8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:49:08 +0000
Subject: [PATCH 158/172] fix: Insert Vorbis comments on a page following the
 identification header

---
 ogg/oggcontainer.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ogg/oggcontainer.cpp b/ogg/oggcontainer.cpp
index 33a061f..09f7d26 100644
--- a/ogg/oggcontainer.cpp
+++ b/ogg/oggcontainer.cpp
@@ -557,7 +557,7 @@ void OggContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback
                 newSegmentSizes.reserve(currentPage.segmentSizes().size());
                 auto segmentOffset = m_iterator.currentSegmentOffset();
                 auto segmentIndex = std::vector<std::uint32_t>::size_type();
-                auto isFirstSegmentKept = false, isLastSegmentKept = false;
+                auto isFirstSegmentKept = false, isLastSegmentKept = false, isInserted = false;
                 for (const auto segmentSize : currentPage.segmentSizes()) {
                     // check whether this segment contains the Vorbis Comment
                     const auto isLastSegment = segmentIndex + 1 == currentPage.segmentSizes().size();
@@ -581,6 +581,7 @@ void OggContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback
                         if (!segmentIndex && currentParams->firstSegmentIndex == numeric_limits<size_t>::max() && !currentParams->removed) {
                             makeVorbisCommentSegment(buffer, copyHelper, newSegmentSizes, currentComment, currentParams, diag);
                             isLastSegmentKept = false;
+                            isInserted = true;
                         }
                     }
                     segmentOffset += segmentSize;
@@ -618,7 +619,11 @@ void OggContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback
                 // -> write pages (with up to 255 lacing values) until all data in the buffer is written
                 for (auto lacingBegin = lacingValues.cbegin(), lacingEnd = lacingValues.cend(); lacingBegin != lacingEnd;) {
                     const auto isFirst = lacingBegin == lacingValues.cbegin();
-                    const auto lacingCount = std::min<std::ptrdiff_t>(lacingEnd - lacingBegin, 0xFF);
+                    auto lacingCount = std::min<std::ptrdiff_t>(lacingEnd - lacingBegin, 0xFF);
+                    if (isFirst && isInserted) {
+                        // keep only the identification header on the first page of the logical bitstream
+                        lacingCount = std::min<std::ptrdiff_t>(lacingCount, newSegmentSizes.front() / 0xFF + 1);
+                    }
                     const auto lacingPageEnd = lacingBegin + lacingCount;
                     // memorize offset to update checksum later
                     lastPageNewOffset = static_cast<std::uint64_t>(stream().tellp());
-- 
2.43.0


From 85646242cd59d6771d5dad5812c3ba4eea7b7869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:20 +0000
Subject: [PATCH 159/172] fix: Don't add empty positions for unparsable total
 fields of Vorbis comments

---
 vorbis/vorbiscomment.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vorbis/vorbiscomment.cpp b/vorbis/vorbiscomment.cpp
index e497176..5a28dee 100644
--- a/vorbis/vorbiscomment.cpp
+++ b/vorbis/vorbiscomment.cpp
@@ -211,6 +211,9 @@ void VorbisComment::extendPositionInSetField(std::string_view field, std::string
             DiagLevel::Warning, argsToString("Vorbis Comment contains more \"", totalField, "\" fields than \"", field, "\" fields."), diagContext);
     }
     for (; totalIter != totalEnd; ++totalIter) {
+        if (!*totalIter) {
+            continue; // the value could not be parsed and is kept as-is
+        }
         fields().insert(std::make_pair(field, VorbisCommentField(std::string(field), TagValue(PositionInSet(0, *totalIter)))));
     }
 }
-- 
2.43.0


From 5101ca79c6336e1420345517e3996350ac9a5c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:20 +0000
Subject: [PATCH 160/172] fix: Keep total fields of Vorbis comments which can
 not be incorporated

---
 vorbis/vorbiscomment.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/vorbis/vorbiscomment.cpp b/vorbis/vorbiscomment.cpp
index 5a28dee..efd8772 100644
--- a/vorbis/vorbiscomment.cpp
+++ b/vorbis/vorbiscomment.cpp
@@ -186,6 +186,7 @@ void VorbisComment::extendPositionInSetField(std::string_view field, std::string
         }
     }
 
+    auto keptTotalValues = std::vector<std::int32_t>();
     auto totalIter = totalValues.begin(), totalEnd = totalValues.end();
     for (fieldsIter = fields().equal_range(std::string(field)); fieldsIter.first != fieldsIter.second && totalIter != totalEnd;
         ++fieldsIter.first, ++totalIter) {
@@ -204,6 +205,9 @@ void VorbisComment::extendPositionInSetField(std::string_view field, std::string
         } catch (const ConversionException &e) {
             diag.emplace_back(DiagLevel::Warning,
                 argsToString("Unable to parse \"", field, "\" as position in set for incorporating \"", totalField, "\": ", e.what()), diagContext);
+            if (*totalIter) {
+                keptTotalValues.emplace_back(*totalIter);
+            }
         }
     }
     if (totalIter != totalEnd) {
@@ -216,6 +220,9 @@ void VorbisComment::extendPositionInSetField(std::string_view field, std::string
         }
         fields().insert(std::make_pair(field, VorbisCommentField(std::string(field), TagValue(PositionInSet(0, *totalIter)))));
     }
+    for (const auto total : keptTotalValues) {
+        fields().insert(std::make_pair(totalField, VorbisCommentField(std::string(totalField), TagValue(total))));
+    }
 }
 /// \endcond
 
-- 
2.43.0


From e5f93d85cb7d411aea9e0a1127dbbad08ca1f52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:48 +0000
Subject: [PATCH 161/172] fix: Allow altering tracks of MP4 files which have
 tracks without chunks

---
 mp4/mp4track.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mp4/mp4track.cpp b/mp4/mp4track.cpp
index 16fcc34..c53db6e 100644
--- a/mp4/mp4track.cpp
+++ b/mp4/mp4track.cpp
@@ -211,7 +211,7 @@ std::vector<std::uint64_t> Mp4Track::readChunkOffsets(bool parseFragments, Diagn
         // verify integrity of the chunk offset table
         auto offsetSize = m_stcoAtom->id() == Mp4AtomIds::ChunkOffset64 ? 8u : 4u;
         auto actualTableSize = m_stcoAtom->dataSize();
-        if (actualTableSize < (8 + offsetSize)) {
+        if (actualTableSize < 8 || (actualTableSize < (8 + offsetSize) && chunkCount())) {
             diag.emplace_back(DiagLevel::Critical, "The stco/co64 atom is truncated. There are no chunk offsets present.", context);
             throw InvalidDataException();
         } else {
@@ -524,7 +524,7 @@ vector<tuple<std::uint32_t, std::uint32_t, std::uint32_t>> Mp4Track::readSampleT
     }
     // verify integrity of the sample to chunk table
     std::uint64_t actualTableSize = m_stscAtom->dataSize();
-    if (actualTableSize < 20) {
+    if (actualTableSize < 8 || (actualTableSize < 20 && sampleToChunkEntryCount())) {
         diag.emplace_back(DiagLevel::Critical, "The stsc atom is truncated. There are no \"sample to chunk\" entries present.", context);
         throw InvalidDataException();
     } else {
-- 
2.43.0


From e7b7a6c015d424e74271b2a519aaf61d204c9699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:27 +0000
Subject: [PATCH 162/172] fix: Read MP4 chunk offsets from the buffer when
 converting them to 64-bit in place

---
 mp4/mp4track.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/mp4/mp4track.cpp b/mp4/mp4track.cpp
index c53db6e..e9d1b5f 100644
--- a/mp4/mp4track.cpp
+++ b/mp4/mp4track.cpp
@@ -226,18 +226,21 @@ std::vector<std::uint64_t> Mp4Track::readChunkOffsets(bool parseFragments, Diagn
             diag.emplace_back(DiagLevel::Critical, "The stco/co64 atom is truncated. It stores less chunk offsets as denoted.", context);
             actualChunkCount = static_cast<std::uint32_t>(std::floor(static_cast<double>(actualTableSize) / static_cast<double>(offsetSize)));
         }
-        // read the table
+        // read the table (preferably from the buffer as the atom might have already been overwritten if there is one)
         offsets.reserve(actualChunkCount);
-        m_istream->seekg(static_cast<streamoff>(m_stcoAtom->dataOffset() + 8));
+        const auto *bufferedTable = m_stcoAtom->buffer() ? m_stcoAtom->buffer().get() + m_stcoAtom->headerSize() + 8 : nullptr;
+        if (!bufferedTable) {
+            m_istream->seekg(static_cast<streamoff>(m_stcoAtom->dataOffset() + 8));
+        }
         switch (offsetSize) {
         case 4:
             for (std::uint32_t i = 0; i < actualChunkCount; ++i) {
-                offsets.push_back(reader().readUInt32BE());
+                offsets.push_back(bufferedTable ? BE::toInt<std::uint32_t>(bufferedTable + std::uint64_t(i) * 4u) : reader().readUInt32BE());
             }
             break;
         case 8:
             for (std::uint32_t i = 0; i < actualChunkCount; ++i) {
-                offsets.push_back(reader().readUInt64BE());
+                offsets.push_back(bufferedTable ? BE::toInt<std::uint64_t>(bufferedTable + std::uint64_t(i) * 8u) : reader().readUInt64BE());
             }
             break;
         }
-- 
2.43.0


From 9447d3c34eab6d403f3c0b977c5585cbecd035d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:05 +0000
Subject: [PATCH 163/172] fix: Avoid dereferencing null pointer when checking
 for tags of FLAC files which have not been parsed

---
 mediafileinfo.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mediafileinfo.cpp b/mediafileinfo.cpp
index ecb24ba..7058f39 100644
--- a/mediafileinfo.cpp
+++ b/mediafileinfo.cpp
@@ -1626,7 +1626,7 @@ vector<Tag *> MediaFileInfo::tags() const
 bool MediaFileInfo::hasAnyTag() const
 {
     return hasId3v1Tag() || hasId3v2Tag() || (m_container && m_container->tagCount())
-        || (m_containerFormat == ContainerFormat::Flac && static_cast<FlacStream *>(m_singleTrack.get())->vorbisComment());
+        || (m_containerFormat == ContainerFormat::Flac && m_singleTrack && static_cast<FlacStream *>(m_singleTrack.get())->vorbisComment());
 }
 
 /*!
-- 
2.43.0


From 9ffa2f2e2165541780ba720222b702a2d4c152c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:18:15 +0000
Subject: [PATCH 164/172] fix: Limit chunk count of damaged MP4 tracks and
 check sampling frequency of QuickTime sound descriptions

---
 mp4/mp4track.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/mp4/mp4track.cpp b/mp4/mp4track.cpp
index e9d1b5f..26e3fdc 100644
--- a/mp4/mp4track.cpp
+++ b/mp4/mp4track.cpp
@@ -1807,6 +1807,12 @@ void Mp4Track::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
     m_chunkOffsetSize = (m_stcoAtom->id() == Mp4AtomIds::ChunkOffset64) ? 8 : 4;
     m_istream->seekg(static_cast<streamoff>(m_stcoAtom->dataOffset() + 4));
     m_chunkCount = reader.readUInt32BE();
+    if (const auto actualDataSize = m_stcoAtom->dataSize() < 8 ? std::uint64_t(0) : (m_stcoAtom->dataSize() - 8);
+        m_chunkCount > actualDataSize / m_chunkOffsetSize) {
+        diag.emplace_back(DiagLevel::Critical,
+            "The chunk offset atom of the track is truncated. The number of chunks is limited to the number of offsets it contains.", context);
+        m_chunkCount = static_cast<std::uint32_t>(actualDataSize / m_chunkOffsetSize);
+    }
 
     // read stsd atom
     m_istream->seekg(static_cast<streamoff>(m_stsdAtom->dataOffset() + 4)); // seek to beg, skip size, name, version and flags
@@ -1861,7 +1867,12 @@ void Mp4Track::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
                         case 2:
                             // read the actual values of the version 2 sound description
                             m_istream->seekg(4, ios_base::cur); // skip size of structure
-                            m_samplingFrequency = static_cast<std::uint32_t>(reader.readFloat64BE());
+                            if (const auto samplingFrequency = reader.readFloat64BE();
+                                samplingFrequency >= 0.0 && samplingFrequency <= static_cast<double>(std::numeric_limits<std::uint32_t>::max())) {
+                                m_samplingFrequency = static_cast<std::uint32_t>(samplingFrequency);
+                            } else {
+                                diag.emplace_back(DiagLevel::Warning, "The sampling frequency of the sound description is invalid.", context);
+                            }
                             m_channelCount = static_cast<std::uint16_t>(reader.readUInt32BE());
                             m_istream->seekg(4, ios_base::cur); // skip reserved bytes
                             m_bitsPerSample = static_cast<std::uint16_t>(reader.readUInt32BE());
-- 
2.43.0


From 609dad9000e85557faa151467110359f2bf6dbcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:24:39 +0000
Subject: [PATCH 165/172] fix: Report percentage when copying data of
 single-track files

---
 mediafileinfo.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mediafileinfo.cpp b/mediafileinfo.cpp
index 7058f39..b65dc4e 100644
--- a/mediafileinfo.cpp
+++ b/mediafileinfo.cpp
@@ -1923,7 +1923,7 @@ void MediaFileInfo::makeMp3File(Diagnostics &diag, AbortableProgressFeedback &pr
             backupStream.seekg(static_cast<streamoff>(streamOffset));
             CopyHelper<0x4000> copyHelper;
             copyHelper.callbackCopy(backupStream, stream(), mediaDataSize, std::bind(&AbortableProgressFeedback::isAborted, std::ref(progress)),
-                std::bind(&AbortableProgressFeedback::updateStepPercentage, std::ref(progress), _1));
+                std::bind(&AbortableProgressFeedback::updateStepPercentageFromFraction, std::ref(progress), _1));
             progress.stopIfAborted();
         } else {
             // just skip actual stream data
-- 
2.43.0


From 2897a72390c440d6d4566dd103a0e02195277b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:24:39 +0000
Subject: [PATCH 166/172] fix: Format lists with less than two values in
 diagnostic messages

---
 diagnostics.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/diagnostics.cpp b/diagnostics.cpp
index 39e3336..4277fbf 100644
--- a/diagnostics.cpp
+++ b/diagnostics.cpp
@@ -74,11 +74,9 @@ string DiagMessage::formatList(const std::vector<string> &values)
     }
     std::string res;
     res.reserve(size);
-    for (auto value = values.cbegin(), end = values.cend(), last = values.cend() - 1; value != end; ++value) {
-        if (value == last) {
-            res += " and ";
-        } else if (!res.empty()) {
-            res += ", ";
+    for (auto value = values.cbegin(), end = values.cend(); value != end; ++value) {
+        if (!res.empty()) {
+            res += value + 1 == end ? " and " : ", ";
         }
         res += '\"';
         res += *value;
-- 
2.43.0


From 02587800f7d14a6489e7afd46d91aa48cd81c891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:24:39 +0000
Subject: [PATCH 167/172] fix: Avoid duplicate ID3v2 tags when continuing to
 parse after an abort

---
 mediafileinfo.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mediafileinfo.cpp b/mediafileinfo.cpp
index b65dc4e..59564df 100644
--- a/mediafileinfo.cpp
+++ b/mediafileinfo.cpp
@@ -153,6 +153,7 @@ void MediaFileInfo::parseContainerFormat(Diagnostics &diag, AbortableProgressFee
     // file size
     m_paddingSize = 0;
     m_containerOffset = 0;
+    m_actualId3v2TagOffsets.clear(); // possibly present if parsing has been aborted before
     std::size_t bytesSkippedBeforeContainer = 0;
     std::streamoff id3v2Size = 0;
 
-- 
2.43.0


From cbbc1d99b94863d69ee2ed3e8bd0e2bcaab1d426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:24:39 +0000
Subject: [PATCH 168/172] fix: Do not treat aborting as error when parsing
 chapters

---
 matroska/matroskacontainer.cpp | 5 +++++
 mediafileinfo.cpp              | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index 60f863e..44f39ab 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -761,6 +761,8 @@ void MatroskaContainer::internalParseChapters(Diagnostics &diag, AbortableProgre
                         m_editionEntries.back()->parseNested(diag, progress);
                     } catch (const NoDataFoundException &) {
                         m_editionEntries.pop_back();
+                    } catch (const OperationAbortedException &) {
+                        throw;
                     } catch (const Failure &) {
                         diag.emplace_back(DiagLevel::Critical, argsToString("Unable to parse edition entry ", m_editionEntries.size(), '.'), context);
                     }
@@ -773,6 +775,9 @@ void MatroskaContainer::internalParseChapters(Diagnostics &diag, AbortableProgre
                         "\"Chapters\"-element contains unknown child element \"" % subElement->idToString() + "\". It will be ignored.", context);
                 }
             }
+        } catch (const OperationAbortedException &) {
+            m_editionEntries.clear(); // allow parsing again later
+            throw;
         } catch (const Failure &) {
             diag.emplace_back(DiagLevel::Critical, "Element structure seems to be invalid.", context);
             throw;
diff --git a/mediafileinfo.cpp b/mediafileinfo.cpp
index 59564df..6535b94 100644
--- a/mediafileinfo.cpp
+++ b/mediafileinfo.cpp
@@ -557,6 +557,8 @@ void MediaFileInfo::parseChapters(Diagnostics &diag, AbortableProgressFeedback &
     } catch (const NotImplementedException &) {
         m_chaptersParsingStatus = ParsingStatus::NotSupported;
         diag.emplace_back(DiagLevel::Information, "Parsing chapters is not implemented for the container format of the file.", context);
+    } catch (const OperationAbortedException &) {
+        diag.emplace_back(DiagLevel::Information, "Parsing chapters has been aborted.", context);
     } catch (const Failure &) {
         m_chaptersParsingStatus = ParsingStatus::CriticalFailure;
         diag.emplace_back(DiagLevel::Critical, "Unable to parse chapters.", context);
-- 
2.43.0


From 80b63774e1952245805fecefcb2733481f54c7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:26:34 +0000
Subject: [PATCH 169/172] fix: Avoid inconsistent streams and tags when
 continuing to parse Ogg files after an abort

---
 ogg/oggcontainer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ogg/oggcontainer.cpp b/ogg/oggcontainer.cpp
index 09f7d26..d874b4d 100644
--- a/ogg/oggcontainer.cpp
+++ b/ogg/oggcontainer.cpp
@@ -196,6 +196,10 @@ void OggContainer::internalParseHeader(Diagnostics &diag, AbortableProgressFeedb
     static const auto context = std::string("parsing Ogg bitstream header");
     auto pagesSkipped = false, continueFromHere = false;
 
+    // discard streams of previous attempt to parse the header (which might have been aborted)
+    m_tracks.clear();
+    m_streamsBySerialNo.clear();
+
     // iterate through pages using OggIterator helper class
     try {
         // ensure iterator is setup properly
@@ -372,6 +376,7 @@ void OggContainer::internalParseTracks(Diagnostics &diag, AbortableProgressFeedb
     static const string context("parsing Ogg stream");
     for (auto &stream : m_tracks) {
         if (progress.isAborted()) {
+            m_tags.clear(); // the comments are announced again when parsing is continued
             throw OperationAbortedException();
         }
         try { // try to parse header
-- 
2.43.0


From e3e25aba18d8bb5b741105040b745fa68184288c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:26:56 +0000
Subject: [PATCH 170/172] fix: Do not treat aborting as error when parsing
 attachments

---
 mediafileinfo.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mediafileinfo.cpp b/mediafileinfo.cpp
index 6535b94..064fac9 100644
--- a/mediafileinfo.cpp
+++ b/mediafileinfo.cpp
@@ -592,6 +592,8 @@ void MediaFileInfo::parseAttachments(Diagnostics &diag, AbortableProgressFeedbac
     } catch (const NotImplementedException &) {
         m_attachmentsParsingStatus = ParsingStatus::NotSupported;
         diag.emplace_back(DiagLevel::Information, "Parsing attachments is not implemented for the container format of the file.", context);
+    } catch (const OperationAbortedException &) {
+        diag.emplace_back(DiagLevel::Information, "Parsing attachments has been aborted.", context);
     } catch (const Failure &) {
         m_attachmentsParsingStatus = ParsingStatus::CriticalFailure;
         diag.emplace_back(DiagLevel::Critical, "Unable to parse attachments.", context);
-- 
2.43.0


From 30408f2cd9f68324d242dbf6c10343e34a7da211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:29:02 +0000
Subject: [PATCH 171/172] fix: Avoid percentage going backwards when updating
 checksums of Ogg pages

---
 ogg/oggcontainer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ogg/oggcontainer.cpp b/ogg/oggcontainer.cpp
index d874b4d..8f725ee 100644
--- a/ogg/oggcontainer.cpp
+++ b/ogg/oggcontainer.cpp
@@ -738,7 +738,7 @@ void OggContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback
         updateTick = 0u;
         for (auto offset : updatedPageOffsets) {
             if (updateTick++ % 10) {
-                progress.updateStepPercentage(static_cast<std::uint8_t>(offset * 100ul / fileInfo().size()));
+                progress.updateStepPercentage(static_cast<std::uint8_t>(updateTick * 100ul / updatedPageOffsets.size()));
                 progress.stopIfAborted();
             }
             OggPage::updateChecksum(stream, offset);
-- 
2.43.0


From 7b9c4ef6320daee6514300b70bcdee7401f9eccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:46:30 +0000
Subject: [PATCH 172/172] fix: Allow removing ID3v1 tag from files having a
 container via removeTag()

---
 mediafileinfo.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mediafileinfo.cpp b/mediafileinfo.cpp
index 064fac9..d310051 100644
--- a/mediafileinfo.cpp
+++ b/mediafileinfo.cpp
@@ -1197,8 +1197,8 @@ bool MediaFileInfo::removeTag(Tag *tag)
     }
 
     // remove tag via container
-    if (m_container) {
-        return m_container->removeTag(tag);
+    if (m_container && m_container->removeTag(tag)) {
+        return true;
     }
 
     // remove tag via track for "single-track" formats
-- 
2.43.0

