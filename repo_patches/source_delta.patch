From 2df270888e3ae20447bf9e065e092efcef00d504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:20 +0000
Subject: [PATCH 01/70] fix: payload-only framing returns the payload, not the
 bytes after it

---
 src/decoders/oem/src/framer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoders/oem/src/framer.cpp b/src/decoders/oem/src/framer.cpp
index 0e363a0..9bc13a9 100644
--- a/src/decoders/oem/src/framer.cpp
+++ b/src/decoders/oem/src/framer.cpp
@@ -289,7 +289,7 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
                         stMetaData_.uiLength = uiMyExpectedPayloadLength;
                         if (!bMetadataOnly_)
                         {
-                            pclMyBuffer->erase_begin((uiMyExpectedMessageLength - uiMyExpectedPayloadLength) + OEM4_BINARY_CRC_LENGTH);
+                            pclMyBuffer->erase_begin((uiMyExpectedMessageLength - uiMyExpectedPayloadLength) - OEM4_BINARY_CRC_LENGTH);
                             pclMyBuffer->copy_out(pucFrameBuffer_, stMetaData_.uiLength);
                             pclMyBuffer->erase_begin(uiMyExpectedPayloadLength + OEM4_BINARY_CRC_LENGTH);
                         }
-- 
2.43.0


From 1f5173a5e6e2378d11caacccd46ff8ca3f82d059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:20 +0000
Subject: [PATCH 02/70] fix: do not read past the data held when an ASCII CRC
 delimiter arrives early

---
 src/decoders/oem/src/framer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoders/oem/src/framer.cpp b/src/decoders/oem/src/framer.cpp
index 9bc13a9..b63bd12 100644
--- a/src/decoders/oem/src/framer.cpp
+++ b/src/decoders/oem/src/framer.cpp
@@ -318,7 +318,7 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
             if (ucDataByte == OEM4_ASCII_CRC_DELIMITER)
             {
                 // Need to be able to check for *12345678CRLF
-                if (uiMyByteCount > clInternalFrameBuffer.size() - OEM4_ASCII_CRC_LENGTH - 2)
+                if (uiMyByteCount + OEM4_ASCII_CRC_LENGTH + 2 > clInternalFrameBuffer.size())
                 {
                     uiMyByteCount--; // Rewind so that we reprocess the '*' delimiter after getting more bytes
                     return STATUS::INCOMPLETE;
-- 
2.43.0


From 4d317e1909814bef8fc57c177f117fbbf1470822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:20 +0000
Subject: [PATCH 03/70] fix: the framer keeps the format of the frame in
 progress itself, not in the caller's metadata

---
 include/novatel_edie/decoders/oem/framer.hpp | 1 +
 src/decoders/oem/src/framer.cpp              | 7 +++++++
 2 files changed, 8 insertions(+)

diff --git a/include/novatel_edie/decoders/oem/framer.hpp b/include/novatel_edie/decoders/oem/framer.hpp
index 083cb35..bb0bb75 100644
--- a/include/novatel_edie/decoders/oem/framer.hpp
+++ b/include/novatel_edie/decoders/oem/framer.hpp
@@ -40,6 +40,7 @@ class Framer : public FramerBase
 {
   private:
     NovAtelFrameState eMyFrameState{NovAtelFrameState::WAITING_FOR_SYNC};
+    HEADER_FORMAT eMyFrameFormat{HEADER_FORMAT::UNKNOWN}; // Format of the frame being assembled across calls
 
     uint32_t uiMyJsonObjectOpenBraces{0};
     uint32_t uiMyAbbrevAsciiHeaderPosition{0};
diff --git a/src/decoders/oem/src/framer.cpp b/src/decoders/oem/src/framer.cpp
index b63bd12..a8df19c 100644
--- a/src/decoders/oem/src/framer.cpp
+++ b/src/decoders/oem/src/framer.cpp
@@ -52,6 +52,9 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
     // Dereferencing the pointer in the loop is expensive, so we cache the reference here
     const auto& clInternalFrameBuffer = *pclMyBuffer;
 
+    // The caller may provide different metadata for each call, so resume with the format of the frame in progress
+    stMetaData_.eFormat = eMyFrameState == NovAtelFrameState::WAITING_FOR_SYNC ? HEADER_FORMAT::UNKNOWN : eMyFrameFormat;
+
     // Loop buffer to complete NovAtel message
     while (eMyFrameState != NovAtelFrameState::COMPLETE_MESSAGE)
     {
@@ -64,6 +67,7 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
                 // If the data lands on the abbreviated header CRLF then it can be missed unless it's tested again when there is more data
                 if (stMetaData_.eFormat == HEADER_FORMAT::ABB_ASCII) { uiMyByteCount--; }
 
+                eMyFrameFormat = stMetaData_.eFormat;
                 return STATUS::INCOMPLETE;
             }
 
@@ -321,6 +325,7 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
                 if (uiMyByteCount + OEM4_ASCII_CRC_LENGTH + 2 > clInternalFrameBuffer.size())
                 {
                     uiMyByteCount--; // Rewind so that we reprocess the '*' delimiter after getting more bytes
+                    eMyFrameFormat = stMetaData_.eFormat;
                     return STATUS::INCOMPLETE;
                 }
 
@@ -380,6 +385,7 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
                     uiMyByteCount--; // If the data lands on the header CRLF then it can be
                                      // missed unless it's tested again when there is more data
                     stMetaData_.uiLength = uiMyByteCount;
+                    eMyFrameFormat = stMetaData_.eFormat;
                     return STATUS::INCOMPLETE;
                 }
                 // New line with abbrev data
@@ -414,6 +420,7 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
                 uiMyByteCount--; // If the data lands on the header CRLF then it can be missed
                                  // unless it's tested again when there is more data
                 stMetaData_.uiLength = static_cast<uint32_t>(clInternalFrameBuffer.size());
+                eMyFrameFormat = stMetaData_.eFormat;
                 return STATUS::INCOMPLETE;
             }
 
-- 
2.43.0


From bf738165f1a6c041f725c15756333fd089dcd43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:20 +0000
Subject: [PATCH 04/70] fix: a short binary message never starts with the
 proprietary sync byte

---
 src/decoders/oem/src/framer.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/decoders/oem/src/framer.cpp b/src/decoders/oem/src/framer.cpp
index a8df19c..ccceab1 100644
--- a/src/decoders/oem/src/framer.cpp
+++ b/src/decoders/oem/src/framer.cpp
@@ -166,23 +166,23 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
             break;
 
         case NovAtelFrameState::WAITING_FOR_BINARY_SYNC3:
-            switch (ucDataByte)
+            if (ucDataByte == OEM4_BINARY_SYNC3)
             {
-            case OEM4_BINARY_SYNC3:
                 CalculateCharacterCrc32(uiMyCalculatedCrc32, ucDataByte);
                 if (stMetaData_.eFormat != HEADER_FORMAT::PROPRIETARY_BINARY) { stMetaData_.eFormat = HEADER_FORMAT::BINARY; }
                 eMyFrameState = NovAtelFrameState::WAITING_FOR_BINARY_HEADER;
-                break;
-            case OEM4_SHORT_BINARY_SYNC3:
+            }
+            else if (ucDataByte == OEM4_SHORT_BINARY_SYNC3 && stMetaData_.eFormat != HEADER_FORMAT::PROPRIETARY_BINARY)
+            {
                 CalculateCharacterCrc32(uiMyCalculatedCrc32, ucDataByte);
                 stMetaData_.eFormat = HEADER_FORMAT::SHORT_BINARY;
                 eMyFrameState = NovAtelFrameState::WAITING_FOR_SHORT_BINARY_HEADER;
-                break;
-            default:
+            }
+            else
+            {
                 stMetaData_.eFormat = HEADER_FORMAT::UNKNOWN;
                 ResetState();
                 uiMyByteCount--;
-                break;
             }
             break;
 
-- 
2.43.0


From 967c07cac917756c4ad64b9635f6e4fca575a69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:20 +0000
Subject: [PATCH 05/70] fix: a text checksum field must consist entirely of
 hexadecimal digits

---
 include/novatel_edie/decoders/oem/framer_ascii_base.hpp | 2 +-
 src/decoders/oem/src/framer.cpp                         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/novatel_edie/decoders/oem/framer_ascii_base.hpp b/include/novatel_edie/decoders/oem/framer_ascii_base.hpp
index 8b84182..a6211d7 100644
--- a/include/novatel_edie/decoders/oem/framer_ascii_base.hpp
+++ b/include/novatel_edie/decoders/oem/framer_ascii_base.hpp
@@ -113,7 +113,7 @@ template <HEADER_FORMAT HeaderFormat, unsigned char SyncByte, size_t MaxMessageL
         auto result = std::from_chars(pCrcStart, pCrcStart + OEM4_ASCII_CRC_LENGTH, uiMessageCrc, 16);
         auto uiCalcCrc = CalculateBlockCrc32(clFrameBuffer.data() + OEM4_ASCII_SYNC_LENGTH,
                                              static_cast<uint32_t>(frameEnd - OEM4_ASCII_SYNC_LENGTH - OEM4_ASCII_CRC_LENGTH - 3));
-        return result.ec == std::errc() && uiCalcCrc == uiMessageCrc ? 0 : OEM4_ASCII_SYNC_LENGTH;
+        return result.ec == std::errc() && result.ptr == pCrcStart + OEM4_ASCII_CRC_LENGTH && uiCalcCrc == uiMessageCrc ? 0 : OEM4_ASCII_SYNC_LENGTH;
     }
 
     //----------------------------------------------------------------------------
diff --git a/src/decoders/oem/src/framer.cpp b/src/decoders/oem/src/framer.cpp
index ccceab1..f9c57da 100644
--- a/src/decoders/oem/src/framer.cpp
+++ b/src/decoders/oem/src/framer.cpp
@@ -475,7 +475,7 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
                 uint32_t uiMessageCrc;
                 auto result = std::from_chars(acCrc, acCrc + OEM4_ASCII_CRC_LENGTH, uiMessageCrc, 16);
 
-                if (result.ec == std::errc() && uiMyCalculatedCrc32 == uiMessageCrc)
+                if (result.ec == std::errc() && result.ptr == acCrc + OEM4_ASCII_CRC_LENGTH && uiMyCalculatedCrc32 == uiMessageCrc)
                 {
                     uiMyByteCount = 0;
 
-- 
2.43.0


From 8b649e83bd7d73b913ce6557a4355f0eda69d3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:20 +0000
Subject: [PATCH 06/70] fix: an NMEA frame ends with '*', two hexadecimal
 digits and CRLF

---
 src/decoders/oem/src/framer.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/decoders/oem/src/framer.cpp b/src/decoders/oem/src/framer.cpp
index f9c57da..7e3e798 100644
--- a/src/decoders/oem/src/framer.cpp
+++ b/src/decoders/oem/src/framer.cpp
@@ -536,7 +536,10 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
                 uint32_t uiMessageCrc;
                 auto result = std::from_chars(acCrc, acCrc + NMEA_CRC_LENGTH, uiMessageCrc, 16);
 
-                if (result.ec == std::errc() && uiMyCalculatedCrc32 == uiMessageCrc)
+                const bool bTrailer = clInternalFrameBuffer[crcStartIndexInBuffer - 1] == OEM4_ASCII_CRC_DELIMITER &&
+                                      clInternalFrameBuffer[crcStartIndexInBuffer + NMEA_CRC_LENGTH] == '\r';
+
+                if (bTrailer && result.ec == std::errc() && result.ptr == acCrc + NMEA_CRC_LENGTH && uiMyCalculatedCrc32 == uiMessageCrc)
                 {
                     uiMyByteCount = 0;
 
@@ -560,7 +563,7 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
                     ResetState();
                 }
             }
-            else if (uiMyByteCount >= MAX_NMEA_MESSAGE_LENGTH)
+            else if (ucDataByte == OEM4_ASCII_CRC_DELIMITER || uiMyByteCount >= MAX_NMEA_MESSAGE_LENGTH)
             {
                 uiMyByteCount = NMEA_SYNC_LENGTH;
                 uiMyExpectedPayloadLength = 0;
-- 
2.43.0


From 8a4e3e09c8d015439dbcf01741acbcc5992247fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:55 +0000
Subject: [PATCH 07/70] fix: the OEM framer returns no more unknown bytes than
 the caller has room for

---
 src/decoders/oem/src/framer.cpp | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/decoders/oem/src/framer.cpp b/src/decoders/oem/src/framer.cpp
index 7e3e798..d52d182 100644
--- a/src/decoders/oem/src/framer.cpp
+++ b/src/decoders/oem/src/framer.cpp
@@ -26,6 +26,7 @@
 
 #include "novatel_edie/decoders/oem/framer.hpp"
 
+#include <algorithm>
 #include <charconv>
 
 #include "novatel_edie/decoders/common/framer_registration.hpp"
@@ -52,6 +53,20 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
     // Dereferencing the pointer in the loop is expensive, so we cache the reference here
     const auto& clInternalFrameBuffer = *pclMyBuffer;
 
+    // Return unknown bytes, but never more than the caller has room for. Any others are returned by the next call.
+    auto handleUnknown = [&](uint32_t uiCount_) -> STATUS {
+        if (uiFrameBufferSize_ == 0)
+        {
+            InitAttributes();
+            ResetState();
+            return STATUS::BUFFER_FULL;
+        }
+        stMetaData_.eFormat = HEADER_FORMAT::UNKNOWN;
+        stMetaData_.uiLength = std::min(uiCount_, uiFrameBufferSize_);
+        if (!bMetadataOnly_) { HandleUnknownBytes(pucFrameBuffer_, stMetaData_.uiLength); }
+        return STATUS::UNKNOWN;
+    };
+
     // The caller may provide different metadata for each call, so resume with the format of the frame in progress
     stMetaData_.eFormat = eMyFrameState == NovAtelFrameState::WAITING_FOR_SYNC ? HEADER_FORMAT::UNKNOWN : eMyFrameFormat;
 
@@ -76,8 +91,7 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
 
             if (uiMyByteCount == 0) { return STATUS::BUFFER_EMPTY; }
 
-            if (!bMetadataOnly_) { HandleUnknownBytes(pucFrameBuffer_, uiMyByteCount); }
-            return STATUS::UNKNOWN;
+            return handleUnknown(uiMyByteCount);
         }
 
         const unsigned char ucDataByte = clInternalFrameBuffer[uiMyByteCount++];
@@ -136,18 +150,9 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
             // If we have just encountered a sync byte and have read bytes before, we need to handle them
             if (eMyFrameState != NovAtelFrameState::WAITING_FOR_SYNC && uiMyByteCount > 1)
             {
-                stMetaData_.eFormat = HEADER_FORMAT::UNKNOWN;
-                stMetaData_.uiLength = uiMyByteCount - 1;
-                if (!bMetadataOnly_) { HandleUnknownBytes(pucFrameBuffer_, uiMyByteCount - 1); }
-                return STATUS::UNKNOWN;
-            }
-            if (uiMyByteCount > uiFrameBufferSize_)
-            {
-                stMetaData_.eFormat = HEADER_FORMAT::UNKNOWN;
-                stMetaData_.uiLength = uiMyByteCount - 1;
-                if (!bMetadataOnly_) { HandleUnknownBytes(pucFrameBuffer_, uiFrameBufferSize_); }
-                return STATUS::UNKNOWN;
+                return handleUnknown(uiMyByteCount - 1);
             }
+            if (eMyFrameState == NovAtelFrameState::WAITING_FOR_SYNC && uiMyByteCount > uiFrameBufferSize_) { return handleUnknown(uiMyByteCount); }
             break;
 
         case NovAtelFrameState::WAITING_FOR_BINARY_SYNC2:
-- 
2.43.0


From 90793c6276362f4c951a4ee6fc48ce8eac152e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:55 +0000
Subject: [PATCH 08/70] fix: framers return no more unknown bytes than the
 caller has room for

---
 src/decoders/common/src/framer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/decoders/common/src/framer.cpp b/src/decoders/common/src/framer.cpp
index 66d3d06..9d2eb46 100644
--- a/src/decoders/common/src/framer.cpp
+++ b/src/decoders/common/src/framer.cpp
@@ -26,6 +26,8 @@
 
 #include "novatel_edie/decoders/common/framer.hpp"
 
+#include <algorithm>
+
 using namespace novatel::edie;
 
 [[nodiscard]] STATUS FramerBase::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, MetaDataBase& stMetaData_, bool bMetadataOnly_)
@@ -38,6 +40,8 @@ using namespace novatel::edie;
 
     // Helper to set metadata and handle unknown bytes
     auto handleUnknown = [&](uint32_t length) -> STATUS {
+        if (uiFrameBufferSize_ == 0) { return STATUS::BUFFER_FULL; }
+        length = std::min(length, uiFrameBufferSize_); // Any others are returned by the next call
         stMetaData_.eFormat = HEADER_FORMAT::UNKNOWN;
         stMetaData_.uiLength = length;
         if (!bMetadataOnly_) { HandleUnknownBytes(pucFrameBuffer_, length); }
-- 
2.43.0


From 096c799c36f13a0fefbae9cea69ba4e08427ea9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:55 +0000
Subject: [PATCH 09/70] fix: an abbreviated ASCII line is complete only once
 its line feed has arrived

---
 src/decoders/oem/src/framer_abb_ascii.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/decoders/oem/src/framer_abb_ascii.cpp b/src/decoders/oem/src/framer_abb_ascii.cpp
index 6563a8b..84f591e 100644
--- a/src/decoders/oem/src/framer_abb_ascii.cpp
+++ b/src/decoders/oem/src/framer_abb_ascii.cpp
@@ -73,6 +73,9 @@ FramerAbbAscii::FramerAbbAscii(std::shared_ptr<UCharFixedBuffer> buffer) : Frame
     const size_t headerCrlfIndex = clFrameBuffer.search_chars(crlf, 0, MAX_ASCII_MESSAGE_LENGTH);
     if (headerCrlfIndex == UCharFixedBuffer::npos) { return midLineIncomplete(); }
 
+    // The search also matches a carriage return at the end of the data, the line feed may still follow
+    if (clFrameBuffer.size() <= headerCrlfIndex + 1) { return Result{ReturnStatus::INCOMPLETE, HEADER_FORMAT::ABB_ASCII, headerCrlfIndex}; }
+
     if (IsAbbrevAsciiResponse()) { return Result{ReturnStatus::RESPONSE, HEADER_FORMAT::ABB_ASCII, headerCrlfIndex + 2}; }
 
     // If we reach this point, then the message is not a response
-- 
2.43.0


From 42bf0d068944d7c8e66b226c05c39602f31c2a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:55 +0000
Subject: [PATCH 10/70] fix: the framer manager returns no more unknown bytes
 than the caller has room for

---
 src/decoders/common/src/framer_manager.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/decoders/common/src/framer_manager.cpp b/src/decoders/common/src/framer_manager.cpp
index 8fb41bb..aa67fcf 100644
--- a/src/decoders/common/src/framer_manager.cpp
+++ b/src/decoders/common/src/framer_manager.cpp
@@ -152,6 +152,8 @@ STATUS FramerManager::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameB
         if (bestFramerIndex == registrySize)
         {
             assert(bestOffset > 0 && bestOffset <= static_cast<uint32_t>(pclMyFixedBuffer->size()));
+            if (uiFrameBufferSize_ == 0) { return STATUS::BUFFER_FULL; }
+            bestOffset = std::min(bestOffset, uiFrameBufferSize_); // Any others are returned by the next call
             HandleUnknownBytes(pucFrameBuffer_, bestOffset);
             stMyMetaData.uiLength = bestOffset;
             stMyMetaData.eFormat = HEADER_FORMAT::UNKNOWN;
-- 
2.43.0


From 415c08e6eedcfa402b8deb2af16b736deb9960ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:23 +0000
Subject: [PATCH 11/70] fix: an abbreviated ASCII body line is not a header,
 even when it arrives in pieces

---
 src/decoders/oem/src/framer_abb_ascii.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/decoders/oem/src/framer_abb_ascii.cpp b/src/decoders/oem/src/framer_abb_ascii.cpp
index 84f591e..99ce961 100644
--- a/src/decoders/oem/src/framer_abb_ascii.cpp
+++ b/src/decoders/oem/src/framer_abb_ascii.cpp
@@ -69,6 +69,12 @@ FramerAbbAscii::FramerAbbAscii(std::shared_ptr<UCharFixedBuffer> buffer) : Frame
                                                                 : Result{ReturnStatus::INCOMPLETE, HEADER_FORMAT::ABB_ASCII, clFrameBuffer.size()};
     };
 
+    // The separator may arrive after the sync byte was found
+    if (clFrameBuffer.size() > 1 && clFrameBuffer[1] == OEM4_ABBREV_ASCII_SEPARATOR)
+    {
+        return Result{ReturnStatus::INVALID, HEADER_FORMAT::UNKNOWN, OEM4_ASCII_SYNC_LENGTH};
+    }
+
     // Step 1: Parse the first line (header/response line)
     const size_t headerCrlfIndex = clFrameBuffer.search_chars(crlf, 0, MAX_ASCII_MESSAGE_LENGTH);
     if (headerCrlfIndex == UCharFixedBuffer::npos) { return midLineIncomplete(); }
-- 
2.43.0


From ff7740c5587a17c2cd162fc2952ebb6e5880c6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:42 +0000
Subject: [PATCH 12/70] fix: a decimation period of zero does not divide by
 zero

---
 src/decoders/oem/src/filter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/decoders/oem/src/filter.cpp b/src/decoders/oem/src/filter.cpp
index fecf1d6..2b3c3ff 100644
--- a/src/decoders/oem/src/filter.cpp
+++ b/src/decoders/oem/src/filter.cpp
@@ -287,7 +287,8 @@ bool Filter::FilterMessage(const MetaDataStruct& stMetaData_) const
 // -------------------------------------------------------------------------------------------------------
 bool Filter::FilterDecimation(const MetaDataStruct& stMetaData_) const
 {
-    return !bMyDecimate || bMyInvertDecimation == static_cast<bool>(static_cast<uint32_t>(stMetaData_.dMilliseconds) % uiMyDecimationPeriodMilliSec);
+    if (!bMyDecimate || uiMyDecimationPeriodMilliSec == 0) { return true; }
+    return bMyInvertDecimation == static_cast<bool>(static_cast<uint32_t>(stMetaData_.dMilliseconds) % uiMyDecimationPeriodMilliSec);
 }
 
 // -------------------------------------------------------------------------------------------------------
-- 
2.43.0


From dc75a9e4153438aa5c82fac3ec225196aa8302ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:42 +0000
Subject: [PATCH 13/70] fix: time bounds and periods in seconds are rounded,
 not truncated, to milliseconds

---
 src/decoders/oem/src/filter.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/decoders/oem/src/filter.cpp b/src/decoders/oem/src/filter.cpp
index 2b3c3ff..5fcf233 100644
--- a/src/decoders/oem/src/filter.cpp
+++ b/src/decoders/oem/src/filter.cpp
@@ -50,12 +50,16 @@ template <typename T> void Filter::Remove(std::vector<T>& vec_, const T& element
     if (it != vec_.end()) { vec_.erase(it); }
 }
 
+// -------------------------------------------------------------------------------------------------------
+// Truncation would lose a millisecond for values such as 1.001, whose product is just below the integer
+static uint32_t SecToMSec(double dSec_) { return static_cast<uint32_t>(dSec_ * 1000.0 + 0.5); }
+
 // -------------------------------------------------------------------------------------------------------
 void Filter::SetIncludeLowerTimeBound(uint32_t uiWeek_, double dSec_)
 {
     bMyFilterLowerTime = true;
     uiMyLowerWeek = uiWeek_;
-    uiMyLowerMSec = static_cast<uint32_t>(dSec_ * 1000.0);
+    uiMyLowerMSec = SecToMSec(dSec_);
     PushUnique(vMyFilterFunctions, &Filter::FilterTime);
 }
 
@@ -63,7 +67,7 @@ void Filter::SetIncludeUpperTimeBound(uint32_t uiWeek_, double dSec_)
 {
     bMyFilterUpperTime = true;
     uiMyUpperWeek = uiWeek_;
-    uiMyUpperMSec = static_cast<uint32_t>(dSec_ * 1000.0);
+    uiMyUpperMSec = SecToMSec(dSec_);
     PushUnique(vMyFilterFunctions, &Filter::FilterTime);
 }
 
@@ -88,7 +92,7 @@ void Filter::ClearTimeBounds()
 // -------------------------------------------------------------------------------------------------------
 void Filter::SetIncludeDecimation(double dPeriodSec_)
 {
-    SetIncludeDecimationMs(static_cast<uint32_t>(dPeriodSec_ * 1000.0)); // Convert provided seconds to MSec
+    SetIncludeDecimationMs(SecToMSec(dPeriodSec_)); // Convert provided seconds to MSec
 }
 
 void Filter::SetIncludeDecimationMs(uint32_t dPeriodMSec_)
-- 
2.43.0


From 5c2ffba3fa500ed2b20d3430424f2c0653e0c567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:14 +0000
Subject: [PATCH 14/70] fix: decoding a header does not leave fields of the
 previous one in a reused header structure

---
 src/decoders/oem/src/header_decoder.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/decoders/oem/src/header_decoder.cpp b/src/decoders/oem/src/header_decoder.cpp
index 55a5a2d..ddb4d2b 100644
--- a/src/decoders/oem/src/header_decoder.cpp
+++ b/src/decoders/oem/src/header_decoder.cpp
@@ -283,6 +283,9 @@ STATUS HeaderDecoder::Decode(const unsigned char* pucLogBuf_, IntermediateHeader
 
     if (pclMyMsgDb == nullptr) { return STATUS::NO_DATABASE; }
 
+    // Not every header form carries every field; those it does not carry must not keep the value of an earlier message
+    stInterHeader_ = IntermediateHeader();
+
     const auto* pcTempBuf = reinterpret_cast<const char*>(pucLogBuf_);
     auto stBinaryHeader = LoadValueFromBuffer<Oem4BinaryHeader>(pucLogBuf_);
 
-- 
2.43.0


From cba261c7dffc618928e47db891db719504e0e2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:14 +0000
Subject: [PATCH 15/70] fix: decoding a short or text header does not read a
 full binary header from the buffer

---
 src/decoders/oem/src/header_decoder.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/decoders/oem/src/header_decoder.cpp b/src/decoders/oem/src/header_decoder.cpp
index ddb4d2b..5f7af52 100644
--- a/src/decoders/oem/src/header_decoder.cpp
+++ b/src/decoders/oem/src/header_decoder.cpp
@@ -287,10 +287,9 @@ STATUS HeaderDecoder::Decode(const unsigned char* pucLogBuf_, IntermediateHeader
     stInterHeader_ = IntermediateHeader();
 
     const auto* pcTempBuf = reinterpret_cast<const char*>(pucLogBuf_);
-    auto stBinaryHeader = LoadValueFromBuffer<Oem4BinaryHeader>(pucLogBuf_);
 
     stMetaData_.eFormat = [&] {
-        switch (stBinaryHeader.ucSync1)
+        switch (pucLogBuf_[0])
         {
         case OEM4_ASCII_SYNC: return HEADER_FORMAT::ASCII;
         case OEM4_SHORT_ASCII_SYNC: return HEADER_FORMAT::SHORT_ASCII;
@@ -298,7 +297,7 @@ STATUS HeaderDecoder::Decode(const unsigned char* pucLogBuf_, IntermediateHeader
         case NMEA_SYNC: return HEADER_FORMAT::NMEA;
         case '{': return HEADER_FORMAT::JSON;
         case OEM4_BINARY_SYNC1:
-            switch (stBinaryHeader.ucSync3)
+            switch (pucLogBuf_[2])
             {
             case OEM4_BINARY_SYNC3: return HEADER_FORMAT::BINARY;
             case OEM4_SHORT_BINARY_SYNC3: return HEADER_FORMAT::SHORT_BINARY;
@@ -370,7 +369,8 @@ STATUS HeaderDecoder::Decode(const unsigned char* pucLogBuf_, IntermediateHeader
         }
         break;
 
-    case HEADER_FORMAT::BINARY:
+    case HEADER_FORMAT::BINARY: {
+        const auto stBinaryHeader = LoadValueFromBuffer<Oem4BinaryHeader>(pucLogBuf_);
         stInterHeader_.usMessageId = stBinaryHeader.usMsgNumber;
         stInterHeader_.ucMessageType = stBinaryHeader.ucMsgType;
         stInterHeader_.uiPortAddress = stBinaryHeader.ucPort;
@@ -385,7 +385,7 @@ STATUS HeaderDecoder::Decode(const unsigned char* pucLogBuf_, IntermediateHeader
         stInterHeader_.uiMessageDefinitionCrc = stBinaryHeader.usMsgDefCrc;
         pcTempBuf += sizeof(Oem4BinaryHeader);
         break;
-
+    }
     case HEADER_FORMAT::SHORT_BINARY: {
         // Reset the IntermediateHeader ucMessageType because can incorrectly set ucSiblingId and bResponse if it isn't
         stInterHeader_.ucMessageType = 0;
-- 
2.43.0


From d6a41c46750b1a56ca2bca82c237e9eb3522cc81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:14 +0000
Subject: [PATCH 16/70] fix: times read from text headers are rounded, not
 truncated, to milliseconds

---
 include/novatel_edie/decoders/oem/common.hpp | 4 ++--
 src/decoders/oem/src/header_decoder.cpp      | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/novatel_edie/decoders/oem/common.hpp b/include/novatel_edie/decoders/oem/common.hpp
index 2fe8bc8..9e054bc 100644
--- a/include/novatel_edie/decoders/oem/common.hpp
+++ b/include/novatel_edie/decoders/oem/common.hpp
@@ -208,7 +208,7 @@ struct Oem4BinaryShortHeader
         ucLength = 0; // Will be filled in following the payload encoding
         usMessageId = stInterHeader_.usMessageId;
         usWeekNo = stInterHeader_.usWeek;
-        uiWeekMSec = static_cast<uint32_t>(stInterHeader_.dMilliseconds);
+        uiWeekMSec = static_cast<uint32_t>(stInterHeader_.dMilliseconds + 0.5); // 1000.0 * text seconds may fall just below the integer
     }
 };
 
@@ -252,7 +252,7 @@ struct Oem4BinaryHeader
         ucIdleTime = stInterHeader_.ucIdleTime;
         ucTimeStatus = static_cast<uint8_t>(stInterHeader_.uiTimeStatus & 0xFF);
         usWeekNo = stInterHeader_.usWeek;
-        uiWeekMSec = static_cast<uint32_t>(stInterHeader_.dMilliseconds);
+        uiWeekMSec = static_cast<uint32_t>(stInterHeader_.dMilliseconds + 0.5); // 1000.0 * text seconds may fall just below the integer
         uiStatus = stInterHeader_.uiReceiverStatus;
         usMsgDefCrc = static_cast<uint16_t>(stInterHeader_.uiMessageDefinitionCrc & 0xFFFF);
         usReceiverSwVersion = stInterHeader_.usReceiverSwVersion;
diff --git a/src/decoders/oem/src/header_decoder.cpp b/src/decoders/oem/src/header_decoder.cpp
index 5f7af52..25b9d1d 100644
--- a/src/decoders/oem/src/header_decoder.cpp
+++ b/src/decoders/oem/src/header_decoder.cpp
@@ -420,7 +420,7 @@ STATUS HeaderDecoder::Decode(const unsigned char* pucLogBuf_, IntermediateHeader
     stMetaData_.bResponse =
         static_cast<uint32_t>(MESSAGE_TYPE_MASK::RESPONSE) == (stInterHeader_.ucMessageType & static_cast<uint32_t>(MESSAGE_TYPE_MASK::RESPONSE));
     stMetaData_.usWeek = static_cast<uint32_t>(stInterHeader_.usWeek);
-    stMetaData_.dMilliseconds = static_cast<uint32_t>(stInterHeader_.dMilliseconds);
+    stMetaData_.dMilliseconds = static_cast<uint32_t>(stInterHeader_.dMilliseconds + 0.5);
     stMetaData_.usMessageId = static_cast<uint32_t>(stInterHeader_.usMessageId);
     stMetaData_.uiMessageCrc = stInterHeader_.uiMessageDefinitionCrc;
     stMetaData_.uiHeaderLength = static_cast<uint32_t>(pcTempBuf - reinterpret_cast<const char*>(pucLogBuf_));
-- 
2.43.0


From 9eb9c4930d195d27ae0908420880ab7c8f47f7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:14 +0000
Subject: [PATCH 17/70] fix: the idle time of a JSON header is rounded as in
 the other formats and unparsable JSON is a failure

---
 src/decoders/oem/src/header_decoder.cpp | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/src/decoders/oem/src/header_decoder.cpp b/src/decoders/oem/src/header_decoder.cpp
index 25b9d1d..07f48f0 100644
--- a/src/decoders/oem/src/header_decoder.cpp
+++ b/src/decoders/oem/src/header_decoder.cpp
@@ -206,19 +206,11 @@ void HeaderDecoder::DecodeJsonHeader(std::string_view pcTempBuf_, IntermediateHe
     simdjson::dom::element doc;
     // Parse the JSON
     auto error = parser.parse(pcTempBuf_.data(), pcTempBuf_.size()).get(doc);
-    if (error)
-    {
-        std::cerr << "JSON parsing error: " << error << '\n';
-        return;
-    }
+    if (error) { throw std::runtime_error("The JSON header could not be parsed"); }
 
     // Access the "header" object
     simdjson::dom::element clJsonHeader_;
-    if (doc["header"].get(clJsonHeader_) != simdjson::SUCCESS)
-    {
-        std::cerr << "Error: JSON does not contain a 'header' object\n";
-        return;
-    }
+    if (doc["header"].get(clJsonHeader_) != simdjson::SUCCESS) { throw std::runtime_error("JSON does not contain a 'header' object"); }
 
     // Decode the fields
     int64_t messageId;
@@ -236,7 +228,7 @@ void HeaderDecoder::DecodeJsonHeader(std::string_view pcTempBuf_, IntermediateHe
     double percentIdleTime;
     if (clJsonHeader_["percent_idle_time"].get(percentIdleTime) == simdjson::SUCCESS)
     {
-        stInterHeader_.ucIdleTime = static_cast<uint8_t>(percentIdleTime * 2.0);
+        stInterHeader_.ucIdleTime = static_cast<uint8_t>(std::lround(2.0 * percentIdleTime));
     }
 
     std::string_view timeStatus;
-- 
2.43.0


From 57286dde12d815d4e021262d7c021def2a3588d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:14 +0000
Subject: [PATCH 18/70] fix: a header with a wrong second sync byte is not
 taken for a binary header

---
 src/decoders/oem/src/header_decoder.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/decoders/oem/src/header_decoder.cpp b/src/decoders/oem/src/header_decoder.cpp
index 07f48f0..e102d8c 100644
--- a/src/decoders/oem/src/header_decoder.cpp
+++ b/src/decoders/oem/src/header_decoder.cpp
@@ -289,6 +289,7 @@ STATUS HeaderDecoder::Decode(const unsigned char* pucLogBuf_, IntermediateHeader
         case NMEA_SYNC: return HEADER_FORMAT::NMEA;
         case '{': return HEADER_FORMAT::JSON;
         case OEM4_BINARY_SYNC1:
+            if (pucLogBuf_[1] != OEM4_BINARY_SYNC2) { return HEADER_FORMAT::UNKNOWN; }
             switch (pucLogBuf_[2])
             {
             case OEM4_BINARY_SYNC3: return HEADER_FORMAT::BINARY;
-- 
2.43.0


From 6f1f8751e7140e2a935978b6ca76cb15f63e95fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:09 +0000
Subject: [PATCH 19/70] fix: removing a definition neither hides another one
 with the same name nor leaves one with the same identifier

---
 src/decoders/common/src/message_database.cpp | 27 ++++++++++++++------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/decoders/common/src/message_database.cpp b/src/decoders/common/src/message_database.cpp
index d516881..ff1e93d 100644
--- a/src/decoders/common/src/message_database.cpp
+++ b/src/decoders/common/src/message_database.cpp
@@ -35,24 +35,35 @@ namespace novatel::edie {
 //-----------------------------------------------------------------------
 void MessageDatabase::RemoveMessage(const uint32_t iMsgId_)
 {
-    auto iTer = GetMessageIt(iMsgId_);
-
-    if (iTer != vMessageDefinitions.end())
+    for (auto iTer = GetMessageIt(iMsgId_); iTer != vMessageDefinitions.end(); iTer = GetMessageIt(iMsgId_))
     {
-        RemoveMessageMapping(**iTer);
+        const MessageDefinition::ConstPtr pclRemoved = *iTer;
+        RemoveMessageMapping(*pclRemoved);
         vMessageDefinitions.erase(iTer);
+
+        // Another definition may have the same name
+        for (const auto& msg : vMessageDefinitions)
+        {
+            if (msg->name == pclRemoved->name) { mMessageName[msg->name] = msg; }
+        }
     }
 }
 
 //-----------------------------------------------------------------------
 void MessageDatabase::RemoveEnumeration(std::string_view strEnumeration_)
 {
-    const auto iTer = GetEnumIt(strEnumeration_);
-
-    if (iTer != vEnumDefinitions.end())
+    const std::string strName(strEnumeration_); // The name given may belong to the definition removed
+    for (auto iTer = GetEnumIt(strName); iTer != vEnumDefinitions.end(); iTer = GetEnumIt(strName))
     {
-        RemoveEnumerationMapping(**iTer);
+        const EnumDefinition::ConstPtr pclRemoved = *iTer;
+        RemoveEnumerationMapping(*pclRemoved);
         vEnumDefinitions.erase(iTer);
+
+        // Another definition may have the same identifier
+        for (const auto& enm : vEnumDefinitions)
+        {
+            if (enm->_id == pclRemoved->_id) { mEnumId[enm->_id] = enm; }
+        }
     }
 }
 
-- 
2.43.0


From 7365170a77fd13615ba9d514dbbe0b5b27fa096d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:09 +0000
Subject: [PATCH 20/70] fix: merging a database into itself does not iterate
 the vector it changes

---
 include/novatel_edie/decoders/common/message_database.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/novatel_edie/decoders/common/message_database.hpp b/include/novatel_edie/decoders/common/message_database.hpp
index 0b78fa2..511c867 100644
--- a/include/novatel_edie/decoders/common/message_database.hpp
+++ b/include/novatel_edie/decoders/common/message_database.hpp
@@ -753,6 +753,7 @@ class MessageDatabase
     //----------------------------------------------------------------------------
     void Merge(const MessageDatabase& other_)
     {
+        if (this == &other_) { return; }
         AppendEnumerations(other_.vEnumDefinitions);
         AppendMessages(other_.vMessageDefinitions);
     }
-- 
2.43.0


From c7b5f3b2cef4b01e7d4b6cde40c24b9696548a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:09 +0000
Subject: [PATCH 21/70] fix: message names with two-digit siblings, with an
 underscore of their own, or empty are looked up correctly

---
 src/decoders/common/src/message_database.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/decoders/common/src/message_database.cpp b/src/decoders/common/src/message_database.cpp
index ff1e93d..8d92731 100644
--- a/src/decoders/common/src/message_database.cpp
+++ b/src/decoders/common/src/message_database.cpp
@@ -26,6 +26,7 @@
 
 #include "novatel_edie/decoders/common/message_database.hpp"
 
+#include <charconv>
 #include <unordered_set>
 
 #include "novatel_edie/decoders/common/common.hpp"
@@ -75,11 +76,19 @@ uint32_t MessageDatabase::MsgNameToMsgId(std::string sMsgName_) const
     uint32_t uiResponse;
 
     // Ingest the sibling information, i.e. the _1 from LOGNAMEA_1
-    if (sMsgName_.find_last_of('_') != std::string::npos && sMsgName_.find_last_of('_') == sMsgName_.size() - 2)
+    const size_t ullSeparator = sMsgName_.find_last_of('_');
+    if (ullSeparator != std::string::npos && GetMsgDef(sMsgName_) == nullptr)
     {
-        uiSiblingId = static_cast<uint32_t>(ToDigit(sMsgName_.back()));
-        sMsgName_.resize(sMsgName_.size() - 2);
+        uint32_t uiSuffix = 0;
+        const char* pcEnd = sMsgName_.data() + sMsgName_.size();
+        const auto result = std::from_chars(sMsgName_.data() + ullSeparator + 1, pcEnd, uiSuffix);
+        if (result.ec == std::errc() && result.ptr == pcEnd && uiSuffix <= static_cast<uint32_t>(MESSAGE_TYPE_MASK::MEASSRC))
+        {
+            uiSiblingId = uiSuffix;
+            sMsgName_.resize(ullSeparator);
+        }
     }
+    if (sMsgName_.empty()) { return 0; }
 
     // If this is an abbrev msg (no format information), we will be able to find the MsgDef
     MessageDefinition::ConstPtr pclMessageDef = GetMsgDef(sMsgName_);
-- 
2.43.0


From 31bac16a77639465e1a2acedfb3d4846b5d78855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:40 +0000
Subject: [PATCH 22/70] fix: aligning an element without a size does not divide
 by zero

---
 include/novatel_edie/decoders/oem/common.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/novatel_edie/decoders/oem/common.hpp b/include/novatel_edie/decoders/oem/common.hpp
index 9e054bc..4aa74de 100644
--- a/include/novatel_edie/decoders/oem/common.hpp
+++ b/include/novatel_edie/decoders/oem/common.hpp
@@ -131,6 +131,7 @@ enum class CONSTELLATION
 //-----------------------------------------------------------------------
 inline size_t OemAlignmentFunction(const size_t size, const uintptr_t start, const uintptr_t ptr)
 {
+    if (size == 0) { return 0; }
     size_t alignment = std::min(size_t{4}, size);
     size_t offset = (ptr - start) % alignment;
     return offset == 0 ? 0 : alignment - offset;
-- 
2.43.0


From bf7de8954742a8a588db7ab9d2dcbf144a51ee44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:40 +0000
Subject: [PATCH 23/70] fix: BOOL arrays take four bytes per element on the
 wire

---
 .../decoders/common/message_decoder.hpp       | 36 +++++++++++++++----
 src/decoders/common/src/message_decoder.cpp   | 16 +++++++++
 2 files changed, 45 insertions(+), 7 deletions(-)

diff --git a/include/novatel_edie/decoders/common/message_decoder.hpp b/include/novatel_edie/decoders/common/message_decoder.hpp
index c1d772d..57e670b 100644
--- a/include/novatel_edie/decoders/common/message_decoder.hpp
+++ b/include/novatel_edie/decoders/common/message_decoder.hpp
@@ -72,6 +72,9 @@ using CompositeFieldArray = std::vector<CompositeField>;
 template <typename T> class TypedBuffer
 {
   private:
+    // A BOOL takes as many bytes in a message as its data type says, not sizeof(bool)
+    static constexpr size_t stride = std::is_same_v<T, bool> ? DataTypeSize(DATA_TYPE::BOOL) : sizeof(T);
+
     const std::byte* data;
     size_t sz;
 
@@ -81,7 +84,7 @@ template <typename T> class TypedBuffer
     T operator[](size_t index) const
     {
         if (index >= sz) { throw std::runtime_error("TypedBuffer<T>::operator[](): index out of bounds"); }
-        return LoadValueFromBuffer<T>(data + (index * sizeof(T)));
+        return LoadValueFromBuffer<T>(data + (index * stride));
     }
 
     constexpr size_t size() const { return sz; }
@@ -103,7 +106,7 @@ template <typename T> class TypedBuffer
         const_iterator() : data(nullptr), index(0) {}
         const_iterator(const std::byte* data_, size_t index_) : data(data_), index(index_) {}
 
-        reference operator*() const { return LoadValueFromBuffer<T>(data + (index * sizeof(T))); }
+        reference operator*() const { return LoadValueFromBuffer<T>(data + (index * stride)); }
 
         const_iterator& operator++()
         {
@@ -421,9 +424,9 @@ template <typename T>
         if constexpr (std::is_same_v<T, bool>)
         {
 #ifndef NDEBUG
-            AssertFixedFieldType<uint8_t>(field_);
+            AssertFixedFieldType<bool>(field_);
 #endif
-            return static_cast<bool>(region_.Load<uint8_t>(baseIndex_ + field_.index + elemIndex_));
+            return static_cast<bool>(region_.Load<uint8_t>(baseIndex_ + field_.index + (elemIndex_ * field_.dataType.length)));
         }
         else
         {
@@ -1031,7 +1034,10 @@ class CompositeField
                     {
                         throw std::runtime_error("GetFieldByteSize(): scalar values are not valid var field payloads");
                     }
-                    else if constexpr (is_specialization_of_v<T, std::vector>) { return sizeof(typename T::value_type) * value.size(); }
+                    else if constexpr (is_specialization_of_v<T, std::vector>)
+                    {
+                        return (field_.dataType.name == DATA_TYPE::BOOL ? field_.dataType.length : sizeof(typename T::value_type)) * value.size();
+                    }
                     else { throw std::runtime_error("GetFieldByteSize(): unsupported var field payload type"); }
                 },
                 varFields[field_.index]);
@@ -1265,7 +1271,11 @@ class CompositeField
     {
         using StoredType = std::conditional_t<std::is_same_v<T, bool>, uint8_t, T>;
 
-        if constexpr (Fixed) { SetFieldValue<true>(fieldDef_.index + (elementIndex_ * sizeof(StoredType)), static_cast<StoredType>(value_)); }
+        if constexpr (Fixed)
+        {
+            const size_t stride = std::is_same_v<T, bool> ? fieldDef_.dataType.length : sizeof(StoredType);
+            SetFieldValue<true>(fieldDef_.index + (elementIndex_ * stride), static_cast<StoredType>(value_));
+        }
         else
         {
             if (fieldDef_.index >= varFields.size()) { throw std::runtime_error("SetArrayElement(): varFields index is out of range"); }
@@ -1314,7 +1324,19 @@ class CompositeField
             if (field_.index + size > fixedFields.size()) { throw std::runtime_error("WriteFieldToBuffer(): fixed array index out of range"); }
             return copyBytes(fixedFields.data() + field_.index, size);
         }
-        case FIELD_TYPE::VARIABLE_LENGTH_ARRAY: [[fallthrough]];
+        case FIELD_TYPE::VARIABLE_LENGTH_ARRAY:
+            if (field_.dataType.name == DATA_TYPE::BOOL)
+            {
+                // Stored as one byte per element, written as wide as the data type
+                if (field_.index >= varFields.size()) { throw std::runtime_error("WriteFieldToBuffer(): var field index out of range"); }
+                const auto& values = std::get<std::vector<uint8_t>>(varFields[field_.index]);
+                const size_t size = values.size() * field_.dataType.length;
+                if (size > capacity_ || size == 0) { return 0; }
+                std::memset(buffer_, 0, size);
+                for (size_t i = 0; i < values.size(); ++i) { buffer_[i * field_.dataType.length] = static_cast<std::byte>(values[i]); }
+                return size;
+            }
+            [[fallthrough]];
         case FIELD_TYPE::FIELD_ARRAY: [[fallthrough]];
         case FIELD_TYPE::STRING: [[fallthrough]];
         case FIELD_TYPE::RESPONSE_STR:
diff --git a/src/decoders/common/src/message_decoder.cpp b/src/decoders/common/src/message_decoder.cpp
index cdfb43b..0aaaee7 100644
--- a/src/decoders/common/src/message_decoder.cpp
+++ b/src/decoders/common/src/message_decoder.cpp
@@ -259,6 +259,22 @@ void MessageDecoderBase::DecodeBinaryField(const BaseField& pstMessageDataType_,
         using T = std::decay_t<decltype(valuePtr)>;
         // Note: T* is just used as a type tag here - SetFieldValue does not dereference the given pointer,
         // so the reinterpret_cast is ok.
+        if constexpr (std::is_same_v<T, bool>)
+        {
+            // A BOOL is wider in a message than it is in memory
+            const size_t stride = pstMessageDataType_.dataType.length;
+            if constexpr (Fixed)
+            {
+                clCompField_.SetFieldValue<true>(pstMessageDataType_.index, reinterpret_cast<const std::byte*>(*ppucLogBuf_), n * stride);
+            }
+            else
+            {
+                std::vector<uint8_t> values(n);
+                for (size_t i = 0; i < n; ++i) { values[i] = LoadValueFromBuffer<uint8_t>(*ppucLogBuf_ + (i * stride)); }
+                clCompField_.SetFieldValue<false>(pstMessageDataType_.index, std::move(values));
+            }
+            return;
+        }
         clCompField_.SetFieldValue<Fixed>(pstMessageDataType_.index, reinterpret_cast<const T*>(*ppucLogBuf_), n);
     });
     *ppucLogBuf_ += pstMessageDataType_.dataType.length * n;
-- 
2.43.0


From 229fa538fc0e17f6d8a4fcf52ee155c6b8edf371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:09 +0000
Subject: [PATCH 24/70] fix: decoding a binary body does not read past the end
 the header declares

---
 .../decoders/common/message_decoder.hpp       |  9 ++---
 src/decoders/common/src/message_decoder.cpp   | 39 ++++++++++++++-----
 2 files changed, 33 insertions(+), 15 deletions(-)

diff --git a/include/novatel_edie/decoders/common/message_decoder.hpp b/include/novatel_edie/decoders/common/message_decoder.hpp
index 57e670b..7f3d699 100644
--- a/include/novatel_edie/decoders/common/message_decoder.hpp
+++ b/include/novatel_edie/decoders/common/message_decoder.hpp
@@ -1683,8 +1683,8 @@ class MessageDecoderBase
     }
 
     // -------------------------------------------------------------------------------------------------------
-    uint32_t GetArrayLength(const unsigned char* pucTempStart, const unsigned char** ppucLogBuf_, const ArrayField& arrayDef,
-                            const CompositeField& clCompField_) const
+    std::optional<uint32_t> GetArrayLength(const unsigned char* pucTempStart, const unsigned char* pucEnd, const unsigned char** ppucLogBuf_,
+                                           const ArrayField& arrayDef, const CompositeField& clCompField_) const
     {
         if (arrayDef.arrayLengthRef.empty())
         {
@@ -1693,6 +1693,7 @@ class MessageDecoderBase
                 throw std::runtime_error("GetArrayLength: Unsupported length size; must be 1,2 or 4");
 
             *ppucLogBuf_ += fMyAlignmentFunc(lenBytes, reinterpret_cast<uintptr_t>(pucTempStart), reinterpret_cast<uintptr_t>(*ppucLogBuf_));
+            if (*ppucLogBuf_ > pucEnd || static_cast<std::size_t>(pucEnd - *ppucLogBuf_) < lenBytes) { return std::nullopt; }
 
             uint32_t uiArrayLength = 0;
             for (std::size_t i = 0; i < lenBytes; ++i) { uiArrayLength |= static_cast<uint32_t>((*ppucLogBuf_)[i]) << (8 * i); }
@@ -1704,7 +1705,7 @@ class MessageDecoderBase
         // Traverse the decoded fields to find the arrayLengthRef field by its name.
         if (auto arrLengthRefDef = clCompField_.GetFieldInfo()->GetFieldDefByName(arrayDef.arrayLengthRef))
         {
-            const auto arraySize = std::visit(
+            return std::visit(
                 [](const auto& value) -> std::optional<uint32_t> {
                     using T = std::decay_t<decltype(value)>;
                     if constexpr (std::is_integral_v<T>)
@@ -1722,8 +1723,6 @@ class MessageDecoderBase
                     return std::nullopt;
                 },
                 clCompField_.GetFieldValueVariant(*arrLengthRefDef));
-
-            if (arraySize) { return *arraySize; }
         }
 
         throw std::runtime_error("GetArrayLength(): No matching field found for arrayLengthRef");
diff --git a/src/decoders/common/src/message_decoder.cpp b/src/decoders/common/src/message_decoder.cpp
index 0aaaee7..74f1180 100644
--- a/src/decoders/common/src/message_decoder.cpp
+++ b/src/decoders/common/src/message_decoder.cpp
@@ -290,6 +290,10 @@ MessageDecoderBase::DecodeBinary(const FieldInfo& vMsgDefFields_, const unsigned
                                  const uint32_t uiMessageLength_) const
 {
     const unsigned char* pucTempStart = *ppucLogBuf_;
+    const unsigned char* pucEnd = pucTempStart + uiMessageLength_;
+    const auto bytesLeft = [&]() -> size_t { return *ppucLogBuf_ < pucEnd ? static_cast<size_t>(pucEnd - *ppucLogBuf_) : 0; };
+    const auto hasElements = [&](size_t count_, size_t size_) { return size_ == 0 || count_ <= bytesLeft() / size_; };
+    const auto hasBytes = [&](size_t size_) { return size_ <= bytesLeft(); };
 
     for (const auto& field : vMsgDefFields_.messageOrderedFields)
     {
@@ -298,8 +302,12 @@ MessageDecoderBase::DecodeBinary(const FieldInfo& vMsgDefFields_, const unsigned
 
         switch (field->type)
         {
-        case FIELD_TYPE::SIMPLE: DecodeBinaryField<true>(*field, ppucLogBuf_, clCompField_, 1); break;
+        case FIELD_TYPE::SIMPLE:
+            if (!hasBytes(field->dataType.length)) { return STATUS::MALFORMED_INPUT; }
+            DecodeBinaryField<true>(*field, ppucLogBuf_, clCompField_, 1);
+            break;
         case FIELD_TYPE::ENUM:
+            if (field->dataType.length <= sizeof(uint32_t) && !hasBytes(field->dataType.length)) { return STATUS::MALFORMED_INPUT; }
             switch (field->dataType.length)
             {
             case 1: clCompField_.SetFieldValue<true>(field->index, LoadValueFromBuffer<uint8_t>(*ppucLogBuf_)); break;
@@ -312,11 +320,12 @@ MessageDecoderBase::DecodeBinary(const FieldInfo& vMsgDefFields_, const unsigned
             *ppucLogBuf_ += field->dataType.length;
             break;
         case FIELD_TYPE::RESPONSE_ID:
+            if (!hasBytes(sizeof(int32_t))) { return STATUS::MALFORMED_INPUT; }
             clCompField_.SetFieldValue<true>(field->index, LoadValueFromBuffer<int32_t>(*ppucLogBuf_));
             *ppucLogBuf_ += sizeof(int32_t);
             break;
         case FIELD_TYPE::RESPONSE_STR: {
-            std::string_view sTemp(reinterpret_cast<const char*>(*ppucLogBuf_), uiMessageLength_ - sizeof(int32_t)); // Remove CRC
+            std::string_view sTemp(reinterpret_cast<const char*>(*ppucLogBuf_), bytesLeft()); // The rest of the body
             clCompField_.SetFieldValue<false>(field->index, std::string(sTemp));
             // Binary response string is not null terminated or 4 byte aligned
             *ppucLogBuf_ += sTemp.size();
@@ -324,17 +333,22 @@ MessageDecoderBase::DecodeBinary(const FieldInfo& vMsgDefFields_, const unsigned
         }
         case FIELD_TYPE::FIXED_LENGTH_ARRAY: {
             const uint32_t uiArraySize = dynamic_cast<const ArrayField*>(field.get())->arrayLength;
+            if (!hasElements(uiArraySize, field->dataType.length)) { return STATUS::MALFORMED_INPUT; }
             DecodeBinaryField<true>(*field, ppucLogBuf_, clCompField_, uiArraySize);
             break;
         }
         case FIELD_TYPE::VARIABLE_LENGTH_ARRAY: {
-            const uint32_t uiArraySize = GetArrayLength(pucTempStart, ppucLogBuf_, dynamic_cast<const ArrayField&>(*field), clCompField_);
-            DecodeBinaryField<false>(*field, ppucLogBuf_, clCompField_, uiArraySize);
+            const auto arraySize = GetArrayLength(pucTempStart, pucEnd, ppucLogBuf_, dynamic_cast<const ArrayField&>(*field), clCompField_);
+            if (!arraySize.has_value() || !hasElements(*arraySize, field->dataType.length)) { return STATUS::MALFORMED_INPUT; }
+            DecodeBinaryField<false>(*field, ppucLogBuf_, clCompField_, *arraySize);
             break;
         }
         case FIELD_TYPE::STRING: {
-            // This version of a string is different. It is hopefully null terminated.
-            std::string_view sTemp(reinterpret_cast<const char*>(*ppucLogBuf_));
+            // This version of a string is different. It is null terminated.
+            const auto* pcString = reinterpret_cast<const char*>(*ppucLogBuf_);
+            const auto* pcNull = static_cast<const char*>(std::memchr(pcString, '\0', bytesLeft()));
+            if (pcNull == nullptr) { return STATUS::MALFORMED_INPUT; }
+            std::string_view sTemp(pcString, static_cast<size_t>(pcNull - pcString));
             clCompField_.SetFieldValue<false>(field->index, std::string(sTemp));
             *ppucLogBuf_ += sTemp.size() + 1; // + 1 to consume the NULL at the end of the string.
             AddStringFieldPadding(pucTempStart, ppucLogBuf_);
@@ -348,11 +362,14 @@ MessageDecoderBase::DecodeBinary(const FieldInfo& vMsgDefFields_, const unsigned
                 return STATUS::MALFORMED_INPUT;
             }
             const auto* subFieldDefinitions = fieldArrayDef.get();
-            const uint32_t uiArraySize = GetArrayLength(pucTempStart, ppucLogBuf_, *subFieldDefinitions, clCompField_);
+            const auto arraySize = GetArrayLength(pucTempStart, pucEnd, ppucLogBuf_, *subFieldDefinitions, clCompField_);
+            if (!arraySize.has_value()) { return STATUS::MALFORMED_INPUT; }
+            const uint32_t uiArraySize = *arraySize;
 
             if (subFieldDefinitions->fieldInfo->varFieldCount == 0)
             {
-                const size_t totalBytes = uiArraySize * subFieldDefinitions->fieldInfo->fixedFieldBytes;
+                if (!hasElements(uiArraySize, subFieldDefinitions->fieldInfo->fixedFieldBytes)) { return STATUS::MALFORMED_INPUT; }
+                const size_t totalBytes = static_cast<size_t>(uiArraySize) * subFieldDefinitions->fieldInfo->fixedFieldBytes;
                 // Store flat FIELD_ARRAY directly as std::vector<std::byte>
                 std::vector<std::byte> flatFieldData(reinterpret_cast<const std::byte*>(*ppucLogBuf_),
                                                      reinterpret_cast<const std::byte*>(*ppucLogBuf_) + totalBytes);
@@ -361,6 +378,8 @@ MessageDecoderBase::DecodeBinary(const FieldInfo& vMsgDefFields_, const unsigned
             }
             else
             {
+                // Every record takes at least one byte
+                if (!hasBytes(uiArraySize)) { return STATUS::MALFORMED_INPUT; }
                 std::vector<CompositeField> vFieldArrayContainer(uiArraySize);
                 for (uint32_t i = 0; i < uiArraySize; ++i)
                 {
@@ -370,7 +389,7 @@ MessageDecoderBase::DecodeBinary(const FieldInfo& vMsgDefFields_, const unsigned
                         CompositeField(subFieldDefinitions->fieldInfo->fixedFieldBytes, subFieldDefinitions->fieldInfo->varFieldCount);
                     vFieldArrayContainer[i].SetFieldInfo(subFieldDefinitions->fieldInfo);
                     STATUS eStatus = DecodeBinary(*subFieldDefinitions->fieldInfo, ppucLogBuf_, vFieldArrayContainer[i],
-                                                  uiMessageLength_ - static_cast<uint32_t>(*ppucLogBuf_ - pucTempStart));
+                                                  static_cast<uint32_t>(bytesLeft()));
                     if (eStatus != STATUS::SUCCESS) { return eStatus; }
                 }
                 clCompField_.SetFieldValue(*field, std::move(vFieldArrayContainer));
@@ -968,7 +987,7 @@ MessageDecoderBase::Decode(const unsigned char* pucMessage_, CompositeField& stI
     }
     case HEADER_FORMAT::BINARY: [[fallthrough]];
     case HEADER_FORMAT::SHORT_BINARY:
-        if (msgFieldInfo.varFieldCount == 0)
+        if (msgFieldInfo.varFieldCount == 0 && stMetaData_.uiBinaryMsgLength >= msgFieldInfo.fixedFieldBytes)
         {
             // Fast path: if there are no variable-length fields, copy the entire message to the fixed region
             stInterMessage_.SetFieldValue<true>(0, reinterpret_cast<const std::byte*>(pucTempInData), msgFieldInfo.fixedFieldBytes);
-- 
2.43.0


From 49c781f24d63470694b03f236feaf46079b43fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:09 +0000
Subject: [PATCH 25/70] fix: decoding a body starts from the defaults of its
 definition

---
 .../decoders/common/message_decoder.hpp             |  1 +
 src/decoders/common/src/message_decoder.cpp         | 13 +++++--------
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/include/novatel_edie/decoders/common/message_decoder.hpp b/include/novatel_edie/decoders/common/message_decoder.hpp
index 7f3d699..bfb71ae 100644
--- a/include/novatel_edie/decoders/common/message_decoder.hpp
+++ b/include/novatel_edie/decoders/common/message_decoder.hpp
@@ -823,6 +823,7 @@ class CompositeField
                         varFields[fieldDef->index] = std::vector<ValueT>{};
                     });
                     break;
+                case FIELD_TYPE::RESPONSE_STR: [[fallthrough]];
                 case FIELD_TYPE::STRING: varFields[fieldDef->index] = std::string{}; break;
                 case FIELD_TYPE::ENUM:
                     switch (fieldDef->dataType.length)
diff --git a/src/decoders/common/src/message_decoder.cpp b/src/decoders/common/src/message_decoder.cpp
index 74f1180..4636190 100644
--- a/src/decoders/common/src/message_decoder.cpp
+++ b/src/decoders/common/src/message_decoder.cpp
@@ -385,9 +385,7 @@ MessageDecoderBase::DecodeBinary(const FieldInfo& vMsgDefFields_, const unsigned
                 {
                     *ppucLogBuf_ +=
                         fMyAlignmentFunc(fieldTypeLength, reinterpret_cast<uintptr_t>(pucTempStart), reinterpret_cast<uintptr_t>(*ppucLogBuf_));
-                    vFieldArrayContainer[i] =
-                        CompositeField(subFieldDefinitions->fieldInfo->fixedFieldBytes, subFieldDefinitions->fieldInfo->varFieldCount);
-                    vFieldArrayContainer[i].SetFieldInfo(subFieldDefinitions->fieldInfo);
+                    vFieldArrayContainer[i] = CompositeField(subFieldDefinitions->fieldInfo);
                     STATUS eStatus = DecodeBinary(*subFieldDefinitions->fieldInfo, ppucLogBuf_, vFieldArrayContainer[i],
                                                   static_cast<uint32_t>(bytesLeft()));
                     if (eStatus != STATUS::SUCCESS) { return eStatus; }
@@ -704,9 +702,7 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
 
             for (uint32_t i = 0; i < uiArraySize; ++i)
             {
-                pvFieldArrayContainer[i] =
-                    CompositeField(subFieldDefinitions->fieldInfo->fixedFieldBytes, subFieldDefinitions->fieldInfo->varFieldCount);
-                pvFieldArrayContainer[i].SetFieldInfo(subFieldDefinitions->fieldInfo);
+                pvFieldArrayContainer[i] = CompositeField(subFieldDefinitions->fieldInfo);
                 STATUS eStatus = DecodeAscii<Abbreviated>(*subFieldDefinitions->fieldInfo, ppcLogBuf_, pvFieldArrayContainer[i], pcBufEnd_);
                 if (eStatus != STATUS::SUCCESS) { return eStatus; }
             }
@@ -902,9 +898,8 @@ STATUS MessageDecoderBase::DecodeJson(const FieldInfo& vMsgDefFields_, simdjson:
 
             for (simdjson::dom::element element : array)
             {
-                vFieldArrayContainer.emplace_back(subFieldDefinitions->fieldInfo->fixedFieldBytes, subFieldDefinitions->fieldInfo->varFieldCount);
+                vFieldArrayContainer.emplace_back(subFieldDefinitions->fieldInfo);
                 auto& stSubMessageBody = vFieldArrayContainer.back();
-                stSubMessageBody.SetFieldInfo(subFieldDefinitions->fieldInfo);
 
                 // Recursively decode the subfields
                 STATUS eStatus = DecodeJson(*subFieldDefinitions->fieldInfo, element, stSubMessageBody);
@@ -967,6 +962,8 @@ MessageDecoderBase::Decode(const unsigned char* pucMessage_, CompositeField& stI
 
     stInterMessage_.resize(msgFieldInfo.fixedFieldBytes, msgFieldInfo.varFieldCount);
     stInterMessage_.SetFieldInfo(pclMsgDef, uiMessageCrc);
+    // A structure that was used before must not show its former values for fields this message does not carry
+    if (stInterMessage_.GetFieldInfo() != nullptr) { stInterMessage_ = CompositeField(stInterMessage_.GetFieldInfo()); }
 
     // Decode the detected format
     switch (stMetaData_.eFormat)
-- 
2.43.0


From d19dce8f65444b94534e6ba3e8141cee1223a151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:15 +0000
Subject: [PATCH 26/70] fix: decoding an ASCII body stops at the end of the
 text

---
 src/decoders/common/src/message_decoder.cpp | 52 ++++++++++++++-------
 src/decoders/oem/src/message_decoder.cpp    |  3 +-
 2 files changed, 38 insertions(+), 17 deletions(-)

diff --git a/src/decoders/common/src/message_decoder.cpp b/src/decoders/common/src/message_decoder.cpp
index 4636190..4f4261c 100644
--- a/src/decoders/common/src/message_decoder.cpp
+++ b/src/decoders/common/src/message_decoder.cpp
@@ -415,13 +415,14 @@ void MessageDecoderBase::DecodeAsciiField(const BaseField& field_, const char**
 
 // -------------------------------------------------------------------------------------------------------
 // Decode an ASCII array formatted with the %Z conversion string
-static STATUS DecodeZConversionStringAsciiArray(std::vector<uint8_t>& vDecodedValues_, const char** ppcLogBuf_, uint32_t uiArraySize_)
+static STATUS DecodeZConversionStringAsciiArray(std::vector<uint8_t>& vDecodedValues_, const char** ppcLogBuf_, const char* pcBufEnd_,
+                                                uint32_t uiArraySize_)
 {
     vDecodedValues_.resize(uiArraySize_);
     for (uint32_t i = 0; i < uiArraySize_; ++i)
     {
         uint32_t uiValueRead = 0;
-        if (sscanf(*ppcLogBuf_, "%02x", &uiValueRead) != 1) { return STATUS::MALFORMED_INPUT; }
+        if (pcBufEnd_ - *ppcLogBuf_ < 2 || sscanf(*ppcLogBuf_, "%02x", &uiValueRead) != 1) { return STATUS::MALFORMED_INPUT; }
         *ppcLogBuf_ += 2;
         vDecodedValues_[i] = static_cast<uint8_t>(uiValueRead);
     }
@@ -430,8 +431,9 @@ static STATUS DecodeZConversionStringAsciiArray(std::vector<uint8_t>& vDecodedVa
 }
 
 // Decode an ASCII array field that is not comma separated, e.g. a raw ASCII value or hex representation
-template <typename CharType> static STATUS DecodeNonCommaSeparatedAsciiArrayField(CharType& cValue_, const char** ppcLogBuf_)
+template <typename CharType> static STATUS DecodeNonCommaSeparatedAsciiArrayField(CharType& cValue_, const char** ppcLogBuf_, const char* pcBufEnd_)
 {
+    if (*ppcLogBuf_ >= pcBufEnd_) { return STATUS::MALFORMED_INPUT; }
     // Escaped '\' character
     if (strncmp("\\\\", *ppcLogBuf_, 2) == 0)
     {
@@ -444,7 +446,7 @@ template <typename CharType> static STATUS DecodeNonCommaSeparatedAsciiArrayFiel
     {
         *ppcLogBuf_ += 2; // Consume the '\x' that signifies hex without a char representation
         uint32_t uiValueRead = 0;
-        if (sscanf(*ppcLogBuf_, "%02x", &uiValueRead) != 1) { return STATUS::MALFORMED_INPUT; }
+        if (pcBufEnd_ - *ppcLogBuf_ < 2 || sscanf(*ppcLogBuf_, "%02x", &uiValueRead) != 1) { return STATUS::MALFORMED_INPUT; }
 
         cValue_ = static_cast<CharType>(uiValueRead);
         *ppcLogBuf_ += 2;
@@ -460,13 +462,13 @@ template <typename CharType> static STATUS DecodeNonCommaSeparatedAsciiArrayFiel
 
 // Decode an ASCII array made up of non-comma separated values, e.g. a raw ASCII values or hex representations
 template <typename CharType>
-static STATUS DecodeNonCommaSeparatedAsciiArray(CompositeField& clCompField_, const char** ppcLogBuf_, const BaseField::ConstPtr& field_,
-                                                uint32_t uiArraySize_, bool fixed_)
+static STATUS DecodeNonCommaSeparatedAsciiArray(CompositeField& clCompField_, const char** ppcLogBuf_, const char* pcBufEnd_,
+                                                const BaseField::ConstPtr& field_, uint32_t uiArraySize_, bool fixed_)
 {
     std::vector<CharType> vDecodedValues(uiArraySize_);
     for (uint32_t i = 0; i < uiArraySize_; ++i)
     {
-        STATUS eStatus = DecodeNonCommaSeparatedAsciiArrayField(vDecodedValues[i], ppcLogBuf_);
+        STATUS eStatus = DecodeNonCommaSeparatedAsciiArrayField(vDecodedValues[i], ppcLogBuf_, pcBufEnd_);
         if (eStatus != STATUS::SUCCESS) { return eStatus; }
     }
     if (fixed_) { clCompField_.SetFieldValue<true>(field_->index, std::move(vDecodedValues)); }
@@ -475,24 +477,25 @@ static STATUS DecodeNonCommaSeparatedAsciiArray(CompositeField& clCompField_, co
 }
 
 // Decode an ASCII array which is formatted like a string with opening and closing quotes, e.g. "string value"
-static STATUS DecodeStringAsciiArray(std::string& sDecodedValue_, const char** ppcLogBuf_, uint32_t uiArraySize_)
+static STATUS DecodeStringAsciiArray(std::string& sDecodedValue_, const char** ppcLogBuf_, const char* pcBufEnd_, uint32_t uiArraySize_)
 {
     sDecodedValue_.assign(uiArraySize_, '\0');
 
     // Look for opening double-quote
-    if (**ppcLogBuf_ != '\"') { return STATUS::MALFORMED_INPUT; }
+    if (*ppcLogBuf_ >= pcBufEnd_ || **ppcLogBuf_ != '\"') { return STATUS::MALFORMED_INPUT; }
     *ppcLogBuf_ += 1;
 
     for (uint32_t i = 0; i < uiArraySize_; ++i)
     {
+        if (*ppcLogBuf_ >= pcBufEnd_) { return STATUS::MALFORMED_INPUT; }
         if (**ppcLogBuf_ == '\"') { break; }
 
-        STATUS eStatus = DecodeNonCommaSeparatedAsciiArrayField(sDecodedValue_[i], ppcLogBuf_);
+        STATUS eStatus = DecodeNonCommaSeparatedAsciiArrayField(sDecodedValue_[i], ppcLogBuf_, pcBufEnd_);
         if (eStatus != STATUS::SUCCESS) { return eStatus; }
     }
 
     // Look for closing double-quote
-    if (**ppcLogBuf_ != '\"') { return STATUS::MALFORMED_INPUT; }
+    if (*ppcLogBuf_ >= pcBufEnd_ || **ppcLogBuf_ != '\"') { return STATUS::MALFORMED_INPUT; }
     *ppcLogBuf_ += 1;
 
     return STATUS::SUCCESS;
@@ -611,7 +614,10 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
                 }
 
                 *ppcLogBuf_ += tokenLength + 1;
-                tokenLength = strcspn(*ppcLogBuf_, unquotedStringDelimiters.data());
+                if constexpr (!Abbreviated)
+                {
+                    if (bEarlyEndOfMessage && uiArraySize > 0) { return STATUS::MALFORMED_INPUT; } // The elements are missing
+                }
             }
 
             STATUS eStatus = STATUS::SUCCESS;
@@ -619,7 +625,7 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
             {
                 assert(field->dataType.name == DATA_TYPE::UCHAR || field->dataType.name == DATA_TYPE::HEXBYTE);
                 std::vector<uint8_t> vDecodedValues;
-                eStatus = DecodeZConversionStringAsciiArray(vDecodedValues, ppcLogBuf_, uiArraySize);
+                eStatus = DecodeZConversionStringAsciiArray(vDecodedValues, ppcLogBuf_, pcBufEnd_, uiArraySize);
                 if (eStatus == STATUS::SUCCESS)
                 {
                     if (fixed)
@@ -633,7 +639,7 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
             else if (field->isString)
             {
                 std::string sDecodedValue;
-                eStatus = DecodeStringAsciiArray(sDecodedValue, ppcLogBuf_, uiArraySize);
+                eStatus = DecodeStringAsciiArray(sDecodedValue, ppcLogBuf_, pcBufEnd_, uiArraySize);
                 if (eStatus != STATUS::SUCCESS) { return eStatus; }
                 if (fixed) { clCompField_.SetFieldValue<true>(field->index, std::move(sDecodedValue)); }
                 else { clCompField_.SetFieldValue<false>(field->index, std::move(sDecodedValue)); }
@@ -642,8 +648,8 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
             else if (!field->isCsv)
             {
                 eStatus = field->dataType.name == DATA_TYPE::CHAR
-                              ? DecodeNonCommaSeparatedAsciiArray<int8_t>(clCompField_, ppcLogBuf_, field, uiArraySize, fixed)
-                              : DecodeNonCommaSeparatedAsciiArray<uint8_t>(clCompField_, ppcLogBuf_, field, uiArraySize, fixed);
+                              ? DecodeNonCommaSeparatedAsciiArray<int8_t>(clCompField_, ppcLogBuf_, pcBufEnd_, field, uiArraySize, fixed)
+                              : DecodeNonCommaSeparatedAsciiArray<uint8_t>(clCompField_, ppcLogBuf_, pcBufEnd_, field, uiArraySize, fixed);
                 if (eStatus != STATUS::SUCCESS) { return eStatus; }
                 *ppcLogBuf_ += 1;
             }
@@ -659,6 +665,12 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
                 }
                 for (uint32_t i = 0; i < uiArraySize; ++i)
                 {
+                    if (*ppcLogBuf_ >= pcBufEnd_) { return STATUS::MALFORMED_INPUT; }
+                    if constexpr (!Abbreviated)
+                    {
+                        // The body ended with the element before this one
+                        if (i > 0 && *(*ppcLogBuf_ - 1) == endDelim) { return STATUS::MALFORMED_INPUT; }
+                    }
                     tokenLength = strcspn(*ppcLogBuf_, unquotedStringDelimiters.data());
                     DecodeAsciiField(*field, ppcLogBuf_, tokenLength, clCompField_, i, fixed);
                     *ppcLogBuf_ += tokenLength + 1;
@@ -669,6 +681,8 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
                 SPDLOG_LOGGER_CRITICAL(pclMyLogger, "DecodeAscii()::ARRAY: Malformed Input\n");
                 return eStatus;
             }
+            // What follows the last element, rather than the first, tells whether the body ends here
+            bEarlyEndOfMessage = *(*ppcLogBuf_ - 1) == endDelim;
 
             break;
         }
@@ -702,11 +716,17 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
 
             for (uint32_t i = 0; i < uiArraySize; ++i)
             {
+                if constexpr (!Abbreviated)
+                {
+                    // The body ended with the record before this one
+                    if (*(*ppcLogBuf_ - 1) == endDelim) { return STATUS::MALFORMED_INPUT; }
+                }
                 pvFieldArrayContainer[i] = CompositeField(subFieldDefinitions->fieldInfo);
                 STATUS eStatus = DecodeAscii<Abbreviated>(*subFieldDefinitions->fieldInfo, ppcLogBuf_, pvFieldArrayContainer[i], pcBufEnd_);
                 if (eStatus != STATUS::SUCCESS) { return eStatus; }
             }
             clCompField_.SetFieldValue(*field, std::move(pvFieldArrayContainer));
+            bEarlyEndOfMessage = *(*ppcLogBuf_ - 1) == endDelim;
             break;
         }
         default:
diff --git a/src/decoders/oem/src/message_decoder.cpp b/src/decoders/oem/src/message_decoder.cpp
index 9a8f371..62a2b71 100644
--- a/src/decoders/oem/src/message_decoder.cpp
+++ b/src/decoders/oem/src/message_decoder.cpp
@@ -72,7 +72,7 @@ void MessageDecoder::InitOemFieldMaps()
     asciiFieldMap[CalculateBlockCrc32("ucb")] = [](CompositeField& clCompField_, const BaseField& pstMessageDataType_, const char** ppcToken_,
                                                    [[maybe_unused]] const size_t tokenLength_, const size_t elementIndex_, const bool fixed_,
                                                    [[maybe_unused]] MessageDatabase& pclMsgDb_) {
-        const uint32_t value = static_cast<uint32_t>(std::bitset<8>(*ppcToken_).to_ulong());
+        const uint32_t value = static_cast<uint32_t>(std::bitset<8>(std::string(*ppcToken_, tokenLength_)).to_ulong());
         if (fixed_) { clCompField_.SetArrayElement<true>(pstMessageDataType_, elementIndex_, value); }
         else { clCompField_.SetArrayElement<false>(pstMessageDataType_, elementIndex_, value); }
     };
@@ -127,6 +127,7 @@ void MessageDecoder::InitOemFieldMaps()
                                                  [[maybe_unused]] const size_t tokenLength_, const size_t elementIndex_, const bool fixed_,
                                                  [[maybe_unused]] MessageDatabase& pclMsgDb_) {
         // RXCONFIG in ASCII is always #COMMANDNAMEA
+        if (tokenLength_ < 2) { throw std::runtime_error("Failed to parse message name"); }
         MessageDefinition::ConstPtr pclMessageDef = pclMsgDb_.GetMsgDef(std::string_view(*ppcToken_ + 1, tokenLength_ - 2)); // + 1 to Skip the '#'
         const uint32_t value = pclMessageDef != nullptr ? CreateMsgId(pclMessageDef->logID, 0, 1, 0) : 0;
         if (fixed_) { clCompField_.SetArrayElement<true>(pstMessageDataType_, elementIndex_, value); }
-- 
2.43.0


From 831c083327a0a261f869610dc7f7cc2da4766e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:15 +0000
Subject: [PATCH 27/70] fix: a malformed body is reported by status, not by an
 exception

---
 .../decoders/common/message_decoder.hpp       |  4 ++++
 src/decoders/common/src/message_decoder.cpp   | 23 +++++++++++++++----
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/include/novatel_edie/decoders/common/message_decoder.hpp b/include/novatel_edie/decoders/common/message_decoder.hpp
index bfb71ae..18d0a9c 100644
--- a/include/novatel_edie/decoders/common/message_decoder.hpp
+++ b/include/novatel_edie/decoders/common/message_decoder.hpp
@@ -1594,6 +1594,9 @@ class MessageDecoderBase
                                      const char* pcBufEnd = nullptr) const;
     [[nodiscard]] STATUS DecodeJson(const FieldInfo& vMsgDefFields_, simdjson::dom::element jsonData, CompositeField& clCompField_) const;
 
+    [[nodiscard]] STATUS DecodeBody(const unsigned char* pucMessage_, const FieldInfo& vMsgDefFields_, CompositeField& clCompField_,
+                                    const MetaDataBase& stMetaData_) const;
+
     template <bool Fixed = true>
     static void DecodeBinaryField(const BaseField& pstMessageDataType_, const unsigned char** ppucLogBuf_, CompositeField& clCompField_,
                                   size_t n = 1);
@@ -1806,6 +1809,7 @@ class MessageDecoderBase
     //!   NO_DATABASE: No database was ever loaded into this component.
     //!   NO_DEFINITION: No definition for the current log was found in the
     //! provided database.
+    //!   MALFORMED_INPUT: The body does not fit its definition.
     //!   FAILURE: Failed to decode a header field.
     //!   UNSUPPORTED: Attempted to decode an unsupported format.
     //!   UNKNOWN: The header format provided is not known.
diff --git a/src/decoders/common/src/message_decoder.cpp b/src/decoders/common/src/message_decoder.cpp
index 4f4261c..ce81311 100644
--- a/src/decoders/common/src/message_decoder.cpp
+++ b/src/decoders/common/src/message_decoder.cpp
@@ -26,6 +26,7 @@
 
 #include "novatel_edie/decoders/common/message_decoder.hpp"
 
+#include <algorithm>
 #include <cassert>
 
 #include <simdjson.h>
@@ -582,7 +583,7 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
             std::string_view sResponse(*ppcLogBuf_, tokenLength);
             if (sResponse == "OK") { clCompField_.SetFieldValue<true>(field->index, static_cast<int32_t>(1)); }
             // Note: This won't match responses with format specifiers in them (%d, %s, etc.), they will be given id=0
-            else { clCompField_.SetFieldValue<true>(field->index, GetResponseId(vMyResponseDefinitions, sResponse.substr(svErrorPrefix.length()))); }
+            else { clCompField_.SetFieldValue<true>(field->index, GetResponseId(vMyResponseDefinitions, sResponse.substr(std::min(svErrorPrefix.length(), sResponse.size())))); }
             // Do not advance buffer, need to reprocess this field for the following RESPONSE_STR.
             bEarlyEndOfMessage = false;
             break;
@@ -804,7 +805,7 @@ STATUS MessageDecoderBase::DecodeJson(const FieldInfo& vMsgDefFields_, simdjson:
                 if (sResponse == "OK") { clCompField_.SetFieldValue<true>(field->index, 1); }
                 else
                 {
-                    clCompField_.SetFieldValue<true>(field->index, GetResponseId(vMyResponseDefinitions, sResponse.substr(svErrorPrefix.length())));
+                    clCompField_.SetFieldValue<true>(field->index, GetResponseId(vMyResponseDefinitions, sResponse.substr(std::min(svErrorPrefix.length(), sResponse.size()))));
                 }
             }
             break;
@@ -955,8 +956,6 @@ MessageDecoderBase::Decode(const unsigned char* pucMessage_, CompositeField& stI
     if (pucMessage_ == nullptr) { return STATUS::NULL_PROVIDED; }
     if (pclMyMsgDb == nullptr) { return STATUS::NO_DATABASE; }
 
-    const unsigned char* pucTempInData = pucMessage_;
-
     if (stMetaData_.bResponse && (stMetaData_.eFormat != HEADER_FORMAT::BINARY && stMetaData_.eFormat != HEADER_FORMAT::SHORT_BINARY &&
                                   stMetaData_.eFormat != HEADER_FORMAT::ASCII && stMetaData_.eFormat != HEADER_FORMAT::SHORT_ASCII &&
                                   stMetaData_.eFormat != HEADER_FORMAT::ABB_ASCII && stMetaData_.eFormat != HEADER_FORMAT::SHORT_ABB_ASCII))
@@ -986,6 +985,22 @@ MessageDecoderBase::Decode(const unsigned char* pucMessage_, CompositeField& stI
     if (stInterMessage_.GetFieldInfo() != nullptr) { stInterMessage_ = CompositeField(stInterMessage_.GetFieldInfo()); }
 
     // Decode the detected format
+    try
+    {
+        return DecodeBody(pucMessage_, msgFieldInfo, stInterMessage_, stMetaData_);
+    }
+    catch (const std::exception& e)
+    {
+        SPDLOG_LOGGER_ERROR(pclMyLogger, "Decode(): {}", e.what());
+        return STATUS::MALFORMED_INPUT;
+    }
+}
+
+// -------------------------------------------------------------------------------------------------------
+STATUS
+MessageDecoderBase::DecodeBody(const unsigned char* pucTempInData, const FieldInfo& msgFieldInfo, CompositeField& stInterMessage_,
+                               const MetaDataBase& stMetaData_) const
+{
     switch (stMetaData_.eFormat)
     {
     case HEADER_FORMAT::ASCII: [[fallthrough]];
-- 
2.43.0


From 679920a3fe1f28ba1f23a08065e7b67f3b407f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:59 +0000
Subject: [PATCH 28/70] fix: encoding accounts for the bytes the header and the
 body took

---
 src/decoders/oem/src/encoder.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/decoders/oem/src/encoder.cpp b/src/decoders/oem/src/encoder.cpp
index 5f50735..9f8f6a4 100644
--- a/src/decoders/oem/src/encoder.cpp
+++ b/src/decoders/oem/src/encoder.cpp
@@ -451,8 +451,9 @@ Encoder::Encode(unsigned char* const* ppucBuffer_, uint32_t uiBufferSize_, const
     }
 
     STATUS eStatus = EncodeHeader(&pucTempEncodeBuffer, uiBufferSize_, stHeader_, stMessageData_, eHeaderFormat_, eFormat_);
-    pucTempEncodeBuffer += stMessageData_.uiMessageHeaderLength;
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
+    pucTempEncodeBuffer += stMessageData_.uiMessageHeaderLength;
+    uiBufferSize_ -= stMessageData_.uiMessageHeaderLength;
 
     if (eFormat_ == ENCODE_FORMAT::JSON)
     {
@@ -463,6 +464,7 @@ Encoder::Encode(unsigned char* const* ppucBuffer_, uint32_t uiBufferSize_, const
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
 
     pucTempEncodeBuffer += stMessageData_.uiMessageBodyLength;
+    uiBufferSize_ -= stMessageData_.uiMessageBodyLength;
 
     if (eFormat_ == ENCODE_FORMAT::JSON)
     {
-- 
2.43.0


From da49291913c676ea82e489944f390ff9a70d3d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:59 +0000
Subject: [PATCH 29/70] fix: short ASCII headers of messages without a
 definition are encoded like long ones

---
 src/decoders/oem/src/encoder.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/decoders/oem/src/encoder.cpp b/src/decoders/oem/src/encoder.cpp
index 9f8f6a4..0125940 100644
--- a/src/decoders/oem/src/encoder.cpp
+++ b/src/decoders/oem/src/encoder.cpp
@@ -346,7 +346,8 @@ bool Encoder::EncodeAsciiShortHeader(const IntermediateHeader& stInterHeader_, c
 {
     if (!CopyToBuffer(ppcOutBuf_, uiBytesLeft_, OEM4_SHORT_ASCII_SYNC)) { return false; }
 
-    std::string sMsgName(pclMyMsgDb->GetMsgDef(stInterHeader_.usMessageId)->name);
+    MessageDefinition::ConstPtr pclMessageDef = pclMyMsgDb->GetMsgDef(stInterHeader_.usMessageId);
+    std::string sMsgName(pclMessageDef != nullptr ? pclMessageDef->name : GetEnumString(vMyCommandDefinitions, stInterHeader_.usMessageId));
     const uint32_t uiResponse = (stInterHeader_.ucMessageType & static_cast<uint32_t>(MESSAGE_TYPE_MASK::RESPONSE)) >> 7;
     sMsgName.push_back(uiResponse != 0U ? 'R' : 'A'); // Append 'A' for ascii, or 'R' for ascii response
     AppendSiblingId(sMsgName, stInterHeader_);
@@ -364,7 +365,8 @@ bool Encoder::EncodeAbbrevAsciiShortHeader(const IntermediateHeader& stInterHead
 {
     if (!CopyToBuffer(ppcOutBuf_, uiBytesLeft_, OEM4_ABBREV_ASCII_SYNC)) { return false; }
 
-    std::string sMsgName(pclMyMsgDb->GetMsgDef(stInterHeader_.usMessageId)->name);
+    MessageDefinition::ConstPtr pclMessageDef = pclMyMsgDb->GetMsgDef(stInterHeader_.usMessageId);
+    std::string sMsgName(pclMessageDef != nullptr ? pclMessageDef->name : GetEnumString(vMyCommandDefinitions, stInterHeader_.usMessageId));
     AppendSiblingId(sMsgName, stInterHeader_);
 
     return CopyAllToBufferSeparated(ppcOutBuf_, uiBytesLeft_, OEM4_ABBREV_ASCII_SEPARATOR,                                 //
-- 
2.43.0


From b6a0a2e7753bd5a43eeb2a37a27c3b37c11c4c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:59 +0000
Subject: [PATCH 30/70] fix: float formats wider than the power table do not
 read past it

---
 include/novatel_edie/decoders/common/encoder.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/novatel_edie/decoders/common/encoder.hpp b/include/novatel_edie/decoders/common/encoder.hpp
index 46affe8..d1e8681 100644
--- a/include/novatel_edie/decoders/common/encoder.hpp
+++ b/include/novatel_edie/decoders/common/encoder.hpp
@@ -29,6 +29,7 @@
 
 #include <array>
 #include <charconv>
+#include <cmath>
 #include <cstdarg>
 #include <functional>
 #include <optional>
@@ -94,8 +95,11 @@ template <typename T> inline std::chars_format FloatingPointFormat(const BaseFie
 
     const auto width = fd_.width.value();
     const auto absVal = std::abs(val_);
+    const bool inTable = static_cast<size_t>(width) < powLookup.size();
+    const double upper = inTable ? powLookup[width] : std::pow(10.0, width);
+    const double lower = inTable ? npowLookup[width] : std::pow(10.0, -static_cast<double>(width));
 
-    return absVal >= std::numeric_limits<T>::min() && (absVal > powLookup[width] || absVal < npowLookup[width]) ? std::chars_format::scientific
+    return absVal >= std::numeric_limits<T>::min() && (absVal > upper || absVal < lower) ? std::chars_format::scientific
                                                                                                                 : std::chars_format::fixed;
 }
 
-- 
2.43.0


From 996728504905a56c02dbb69f8fbdbfb5aa77818c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:59 +0000
Subject: [PATCH 31/70] fix: binary padding is zero and placed relative to the
 start of the body

---
 include/novatel_edie/decoders/common/encoder.hpp | 15 +++++++++------
 include/novatel_edie/decoders/oem/encoder.hpp    |  5 +++--
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/novatel_edie/decoders/common/encoder.hpp b/include/novatel_edie/decoders/common/encoder.hpp
index d1e8681..078f6af 100644
--- a/include/novatel_edie/decoders/common/encoder.hpp
+++ b/include/novatel_edie/decoders/common/encoder.hpp
@@ -320,6 +320,7 @@ template <typename Derived> class EncoderBase
     //----------------------------------------------------------------------------
     //! \brief Add padding after binary string fields to maintain alignment.
     //
+    //! \param[in] start The start of the binary body.
     //! \param[in, out] ptr_ A pointer to the encode buffer pointer to be padded
     //!     if necessary. Updated in place.
     //! \param[in, out] uiBytesLeft_ The number of bytes left in the buffer.
@@ -329,7 +330,11 @@ template <typename Derived> class EncoderBase
     //!     there was not enough space in the buffer.
     //! \see MessageDecoderBase::AddStringFieldPadding() for the corresponding decoder method.
     //----------------------------------------------------------------------------
-    virtual bool AddStringFieldPadding([[maybe_unused]] unsigned char** ptr, [[maybe_unused]] uint32_t& uiBytesLeft_) const { return true; }
+    virtual bool AddStringFieldPadding([[maybe_unused]] const unsigned char* start, [[maybe_unused]] unsigned char** ptr,
+                                       [[maybe_unused]] uint32_t& uiBytesLeft_) const
+    {
+        return true;
+    }
 
     template <bool Flatten>
     [[nodiscard]] bool EncodeBinaryBody(const CompositeField& stInterMessage_, const std::vector<BaseField::ConstPtr>& fieldDefinitions_,
@@ -338,10 +343,7 @@ template <typename Derived> class EncoderBase
         const auto alignPtr = [this](uint16_t fieldTypeLength_, const unsigned char* startBuf, unsigned char** ppucOutBuf_,
                                      uint32_t& uiBytesLeft_) -> bool {
             auto align = this->fMyAlignmentFunc(fieldTypeLength_, reinterpret_cast<uintptr_t>(startBuf), reinterpret_cast<uintptr_t>(*ppucOutBuf_));
-            if (align > uiBytesLeft_) { return false; }
-            *ppucOutBuf_ += align;
-            uiBytesLeft_ -= static_cast<uint32_t>(align);
-            return true;
+            return SetInBuffer(ppucOutBuf_, uiBytesLeft_, 0, static_cast<uint32_t>(align));
         };
 
         // Fast path: all-fixed message — single memcpy of the fixedFields blob
@@ -421,6 +423,7 @@ template <typename Derived> class EncoderBase
                         {
                             for (const auto& element : fieldVector)
                             {
+                                if (!alignPtr(fieldDefRef.dataType.length, startBuf, ppucOutBuf_, uiBytesLeft_)) { return false; }
                                 if (!EncodeBinaryBody<Flatten>(element, fieldArrayFieldDef->fieldInfo->messageOrderedFields, ppucOutBuf_,
                                                                uiBytesLeft_))
                                 {
@@ -442,7 +445,7 @@ template <typename Derived> class EncoderBase
                             if (remaining > 0 && !SetInBuffer(ppucOutBuf_, uiBytesLeft_, 0, remaining)) { return false; }
                         }
 
-                        if constexpr (std::is_same_v<ValueType, std::string>) { return AddStringFieldPadding(ppucOutBuf_, uiBytesLeft_); }
+                        if constexpr (std::is_same_v<ValueType, std::string>) { return AddStringFieldPadding(startBuf, ppucOutBuf_, uiBytesLeft_); }
                         return true;
                     },
                     stInterMessage_.GetVarFields()[fieldDefRef.index]);
diff --git a/include/novatel_edie/decoders/oem/encoder.hpp b/include/novatel_edie/decoders/oem/encoder.hpp
index 6b4d0a8..e151d99 100644
--- a/include/novatel_edie/decoders/oem/encoder.hpp
+++ b/include/novatel_edie/decoders/oem/encoder.hpp
@@ -52,6 +52,7 @@ class Encoder : public EncoderBase<Encoder>
     //! \brief Add padding after binary string fields to maintain alignment. OEM
     //!     strings maintain 4-byte alignment.
     //
+    //! \param[in] start The start of the binary body.
     //! \param[in, out] ptr_ A pointer to the encode buffer pointer to be padded
     //!     if necessary. Updated in place.
     //! \param[in, out] uiBytesLeft_ The number of bytes left in the buffer.
@@ -61,9 +62,9 @@ class Encoder : public EncoderBase<Encoder>
     //!     there was not enough space in the buffer.
     //! \see MessageDecoder::AddStringFieldPadding() for the corresponding decoder method.
     //----------------------------------------------------------------------------
-    bool AddStringFieldPadding(unsigned char** ptr, uint32_t& uiBytesLeft_) const override
+    bool AddStringFieldPadding(const unsigned char* start, unsigned char** ptr, uint32_t& uiBytesLeft_) const override
     {
-        if (!SetInBuffer(ptr, uiBytesLeft_, 0, 4 - (reinterpret_cast<uintptr_t>(*ptr) % 4))) return false;
+        if (!SetInBuffer(ptr, uiBytesLeft_, 0, 4 - static_cast<uint32_t>((*ptr - start) % 4))) return false;
         return true;
     }
 
-- 
2.43.0


From 16f54b1ea2b4b55d237ba52c59a9539c7c2d2f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:59 +0000
Subject: [PATCH 32/70] fix: text arrays of variable length are read with the
 type their elements have

---
 include/novatel_edie/decoders/common/encoder.hpp | 10 ++++++++--
 src/decoders/common/src/message_decoder.cpp      | 11 +++++++++--
 src/decoders/oem/src/encoder.cpp                 |  7 ++++++-
 3 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/include/novatel_edie/decoders/common/encoder.hpp b/include/novatel_edie/decoders/common/encoder.hpp
index 078f6af..c017a91 100644
--- a/include/novatel_edie/decoders/common/encoder.hpp
+++ b/include/novatel_edie/decoders/common/encoder.hpp
@@ -524,6 +524,12 @@ template <typename Derived> class EncoderBase
         return WriteAsciiValue<Json>(fd_, cf_, ppcOutBuf_, uiBytesLeft_, index);
     }
 
+    //! \brief Whether the element of a text array is the null that ends the text.
+    [[nodiscard]] static bool IsStringEnd(const CompositeField& cf_, const ArrayField& fd_, size_t index)
+    {
+        return fd_.dataType.name == DATA_TYPE::CHAR ? cf_.GetFieldValue<int8_t>(fd_, index) == 0 : cf_.GetFieldValue<uint8_t>(fd_, index) == 0;
+    }
+
     template <bool Abbreviated>
     [[nodiscard]] bool EncodeAsciiField(const BaseField& fieldDefRef_, const CompositeField& cf_, char** ppcOutBuf_, uint32_t& uiBytesLeft_) const
     {
@@ -560,7 +566,7 @@ template <typename Derived> class EncoderBase
             for (size_t i = 0; i < count; i++)
             {
                 if (fieldDefRef_.isString && (fieldDefRef_.dataType.name == DATA_TYPE::CHAR || fieldDefRef_.dataType.name == DATA_TYPE::UCHAR) &&
-                    cf_.GetFieldValue<uint8_t>(*arrayFieldDef, i) == 0)
+                    IsStringEnd(cf_, *arrayFieldDef, i))
                 {
                     break;
                 }
@@ -741,7 +747,7 @@ template <typename Derived> class EncoderBase
             for (size_t i = 0; i < count; i++)
             {
                 if (fieldDefRef_.isString && (fieldDefRef_.dataType.name == DATA_TYPE::CHAR || fieldDefRef_.dataType.name == DATA_TYPE::UCHAR) &&
-                    cf_.GetFieldValue<uint8_t>(*arrayFieldDef, i) == 0)
+                    IsStringEnd(cf_, *arrayFieldDef, i))
                 {
                     break;
                 }
diff --git a/src/decoders/common/src/message_decoder.cpp b/src/decoders/common/src/message_decoder.cpp
index ce81311..f82bf0e 100644
--- a/src/decoders/common/src/message_decoder.cpp
+++ b/src/decoders/common/src/message_decoder.cpp
@@ -502,6 +502,13 @@ static STATUS DecodeStringAsciiArray(std::string& sDecodedValue_, const char** p
     return STATUS::SUCCESS;
 }
 
+// Store text as a variable-length array with the element type its definition declares
+static void SetTextArray(CompositeField& clCompField_, const BaseField& field_, std::string_view svText_)
+{
+    if (field_.dataType.name == DATA_TYPE::CHAR) { clCompField_.SetFieldValue<false>(field_.index, std::vector<int8_t>(svText_.begin(), svText_.end())); }
+    else { clCompField_.SetFieldValue<false>(field_.index, std::vector<uint8_t>(svText_.begin(), svText_.end())); }
+}
+
 template <bool Abbreviated>
 STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const char** ppcLogBuf_, CompositeField& clCompField_,
                                        const char* pcBufEnd_) const
@@ -643,7 +650,7 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
                 eStatus = DecodeStringAsciiArray(sDecodedValue, ppcLogBuf_, pcBufEnd_, uiArraySize);
                 if (eStatus != STATUS::SUCCESS) { return eStatus; }
                 if (fixed) { clCompField_.SetFieldValue<true>(field->index, std::move(sDecodedValue)); }
-                else { clCompField_.SetFieldValue<false>(field->index, std::move(sDecodedValue)); }
+                else { SetTextArray(clCompField_, *field, sDecodedValue); }
                 *ppcLogBuf_ += 1;
             }
             else if (!field->isCsv)
@@ -829,7 +836,7 @@ STATUS MessageDecoderBase::DecodeJson(const FieldInfo& vMsgDefFields_, simdjson:
                         for (size_t i = 0; i < strValue.size(); ++i) { vDecodedValues[i] = static_cast<uint8_t>(strValue[i]); }
                         if (!vDecodedValues.empty()) { clCompField_.SetFieldValue<true>(field->index, vDecodedValues.data(), vDecodedValues.size()); }
                     }
-                    else { clCompField_.SetFieldValue<false>(field->index, std::string(strValue)); }
+                    else { SetTextArray(clCompField_, *field, strValue); }
                 }
             }
             else
diff --git a/src/decoders/oem/src/encoder.cpp b/src/decoders/oem/src/encoder.cpp
index 0125940..9240c6b 100644
--- a/src/decoders/oem/src/encoder.cpp
+++ b/src/decoders/oem/src/encoder.cpp
@@ -190,7 +190,12 @@ void Encoder::InitFieldMaps()
     // =========================================================
     // Json Field Mapping
     // =========================================================
-    jsonFieldMap[CalculateBlockCrc32("P")] = BasicIntMapEntry<uint8_t>();
+    jsonFieldMap[CalculateBlockCrc32("P")] = [](const BaseField& fd_, const CompositeField& cf_, char** ppcOutBuf_, uint32_t& uiBytesLeft_,
+                                                const MessageDatabase&, size_t offset) {
+        const uint8_t uiValue = fd_.dataType.name == DATA_TYPE::CHAR ? static_cast<uint8_t>(cf_.GetFieldValue<int8_t>(fd_, offset))
+                                                                     : cf_.GetFieldValue<uint8_t>(fd_, offset);
+        return WriteIntToBuffer(ppcOutBuf_, uiBytesLeft_, uiValue);
+    };
 
     jsonFieldMap[CalculateBlockCrc32("T")] = [](const BaseField& fd_, const CompositeField& cf_, char** ppcOutBuf_, uint32_t& uiBytesLeft_,
                                                 const MessageDatabase&, size_t offset) {
-- 
2.43.0


From 3a945d9fa9183662803e8592553f85a665042a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:59 +0000
Subject: [PATCH 33/70] fix: enumerators in the upper half of a narrow field
 are found by their value

---
 include/novatel_edie/decoders/common/encoder.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/novatel_edie/decoders/common/encoder.hpp b/include/novatel_edie/decoders/common/encoder.hpp
index c017a91..18f5247 100644
--- a/include/novatel_edie/decoders/common/encoder.hpp
+++ b/include/novatel_edie/decoders/common/encoder.hpp
@@ -59,6 +59,13 @@ template <typename BufferType> constexpr void AssertWritableByteBuffer()
     static_assert(is_byte_buffer_v<std::decay_t<BufferType>>, "BufferType must be char*, unsigned char*, or std::byte*.");
 }
 
+//! \brief The value of an enumerator, without extending the sign of a narrow one.
+template <typename T> constexpr uint32_t ToEnumValue(T value_)
+{
+    if constexpr (std::is_integral_v<T> && !std::is_same_v<T, bool>) { return static_cast<uint32_t>(static_cast<std::make_unsigned_t<T>>(value_)); }
+    else { return static_cast<uint32_t>(value_); }
+}
+
 template <typename T> struct FloatValue
 {
     T value;
@@ -542,7 +549,7 @@ template <typename Derived> class EncoderBase
             std::string_view enumString;
             SimpleTypeVisitor(fieldDefRef_, [&](auto&& arg) {
                 enumString =
-                    GetEnumString(enumFieldPtr->enumDef, static_cast<uint32_t>(cf_.GetFieldValue<std::decay_t<decltype(arg)>>(fieldDefRef_)));
+                    GetEnumString(enumFieldPtr->enumDef, ToEnumValue(cf_.GetFieldValue<std::decay_t<decltype(arg)>>(fieldDefRef_)));
             });
             return CopyAllToBuffer(ppcOutBuf_, uiBytesLeft_, enumString, separator);
         }
@@ -723,7 +730,7 @@ template <typename Derived> class EncoderBase
             std::string_view enumString;
             SimpleTypeVisitor(fieldDefRef_, [&](auto&& arg) {
                 enumString =
-                    GetEnumString(enumFieldPtr->enumDef, static_cast<uint32_t>(cf_.GetFieldValue<std::decay_t<decltype(arg)>>(fieldDefRef_)));
+                    GetEnumString(enumFieldPtr->enumDef, ToEnumValue(cf_.GetFieldValue<std::decay_t<decltype(arg)>>(fieldDefRef_)));
             });
             return CopyAllToBuffer(ppcOutBuf_, uiBytesLeft_, '"', enumString, "\",");
         }
-- 
2.43.0


From 38c9bc625547b3777e27a2dfe986faa90591c33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:48 +0000
Subject: [PATCH 34/70] fix: JSON text is escaped and holds no numbers JSON
 cannot express

---
 .../novatel_edie/decoders/common/encoder.hpp  | 49 +++++++++++++++++--
 src/decoders/oem/src/encoder.cpp              | 26 +++++-----
 2 files changed, 59 insertions(+), 16 deletions(-)

diff --git a/include/novatel_edie/decoders/common/encoder.hpp b/include/novatel_edie/decoders/common/encoder.hpp
index 18f5247..1bc31eb 100644
--- a/include/novatel_edie/decoders/common/encoder.hpp
+++ b/include/novatel_edie/decoders/common/encoder.hpp
@@ -282,6 +282,43 @@ template <typename BufferType, typename... Args>
     return success;
 }
 
+// -------------------------------------------------------------------------------------------------------
+//! \brief Write text as the inside of a JSON string, escaping what may not stand there as it is.
+template <typename BufferType> [[nodiscard]] bool WriteJsonTextToBuffer(BufferType* buffer_, uint32_t& uiBytesLeft_, std::string_view text_)
+{
+    for (const char c : text_)
+    {
+        if ((c == '"' || c == '\\') && !CopyToBuffer(buffer_, uiBytesLeft_, '\\')) { return false; }
+        if (static_cast<unsigned char>(c) < 0x20)
+        {
+            if (!CopyAllToBuffer(buffer_, uiBytesLeft_, "\\u", HexValue<uint16_t>{static_cast<uint16_t>(static_cast<unsigned char>(c)), 4}))
+            {
+                return false;
+            }
+        }
+        else if (!CopyToBuffer(buffer_, uiBytesLeft_, c)) { return false; }
+    }
+    return true;
+}
+
+// -------------------------------------------------------------------------------------------------------
+//! \brief Write a character as a JSON string.
+template <typename BufferType> [[nodiscard]] bool WriteJsonCharToBuffer(BufferType* buffer_, uint32_t& uiBytesLeft_, const char value_)
+{
+    return CopyToBuffer(buffer_, uiBytesLeft_, '"') && WriteJsonTextToBuffer(buffer_, uiBytesLeft_, std::string_view(&value_, 1)) &&
+           CopyToBuffer(buffer_, uiBytesLeft_, '"');
+}
+
+// -------------------------------------------------------------------------------------------------------
+//! \brief Write a floating point number to JSON, which has no notation for infinities and NaN.
+template <typename BufferType, typename T>
+[[nodiscard]] bool WriteJsonFloatToBuffer(BufferType* buffer_, uint32_t& uiBytesLeft_, const T value, std::chars_format format,
+                                          std::optional<int> precision)
+{
+    if (!std::isfinite(value)) { return CopyToBuffer(buffer_, uiBytesLeft_, "null"); }
+    return WriteFloatToBuffer(buffer_, uiBytesLeft_, value, format, precision);
+}
+
 // -------------------------------------------------------------------------------------------------------
 template <typename T>
 std::function<bool(const BaseField&, const CompositeField&, char**, uint32_t&, const MessageDatabase&, size_t)> BasicIntMapEntry()
@@ -495,11 +532,13 @@ template <typename Derived> class EncoderBase
         case DATA_TYPE::LONGLONG: return WriteIntToBuffer(ppcOutBuf_, uiBytesLeft_, cf_.GetFieldValue<int64_t>(fd_, index));
         case DATA_TYPE::FLOAT: {
             const auto v = cf_.GetFieldValue<float>(fd_, index);
-            return WriteFloatToBuffer(ppcOutBuf_, uiBytesLeft_, v, FloatingPointFormat(fd_, v), fd_.precision);
+            if constexpr (Json) { return WriteJsonFloatToBuffer(ppcOutBuf_, uiBytesLeft_, v, FloatingPointFormat(fd_, v), fd_.precision); }
+            else { return WriteFloatToBuffer(ppcOutBuf_, uiBytesLeft_, v, FloatingPointFormat(fd_, v), fd_.precision); }
         }
         case DATA_TYPE::DOUBLE: {
             const auto v = cf_.GetFieldValue<double>(fd_, index);
-            return WriteFloatToBuffer(ppcOutBuf_, uiBytesLeft_, v, FloatingPointFormat(fd_, v), fd_.precision);
+            if constexpr (Json) { return WriteJsonFloatToBuffer(ppcOutBuf_, uiBytesLeft_, v, FloatingPointFormat(fd_, v), fd_.precision); }
+            else { return WriteFloatToBuffer(ppcOutBuf_, uiBytesLeft_, v, FloatingPointFormat(fd_, v), fd_.precision); }
         }
         default:
             SPDLOG_LOGGER_CRITICAL(pclMyLogger, "WriteAsciiValue(): unknown type.");
@@ -846,7 +885,11 @@ template <typename Derived> class EncoderBase
             case FIELD_TYPE::STRING: {
                 const auto value = clCompField_.GetVarFields()[fieldDefRef.index];
                 const auto& str = std::get<std::string>(value);
-                if (!CopyAllToBuffer(ppcOutBuf_, uiBytesLeft_, '"', std::string_view(fieldDefRef.name), R"(": ")", str, "\",")) { return false; }
+                if (!CopyAllToBuffer(ppcOutBuf_, uiBytesLeft_, '"', std::string_view(fieldDefRef.name), R"(": ")") ||
+                    !WriteJsonTextToBuffer(ppcOutBuf_, uiBytesLeft_, str) || !CopyToBuffer(ppcOutBuf_, uiBytesLeft_, "\","))
+                {
+                    return false;
+                }
                 break;
             }
             case FIELD_TYPE::VARIABLE_LENGTH_ARRAY: [[fallthrough]];
diff --git a/src/decoders/oem/src/encoder.cpp b/src/decoders/oem/src/encoder.cpp
index 9240c6b..721afd4 100644
--- a/src/decoders/oem/src/encoder.cpp
+++ b/src/decoders/oem/src/encoder.cpp
@@ -199,7 +199,7 @@ void Encoder::InitFieldMaps()
 
     jsonFieldMap[CalculateBlockCrc32("T")] = [](const BaseField& fd_, const CompositeField& cf_, char** ppcOutBuf_, uint32_t& uiBytesLeft_,
                                                 const MessageDatabase&, size_t offset) {
-        return WriteFloatToBuffer(ppcOutBuf_, uiBytesLeft_, cf_.GetFieldValue<uint32_t>(fd_, offset) / 1000.0, std::chars_format::fixed, 3);
+        return WriteJsonFloatToBuffer(ppcOutBuf_, uiBytesLeft_, cf_.GetFieldValue<uint32_t>(fd_, offset) / 1000.0, std::chars_format::fixed, 3);
     };
 
     jsonFieldMap[CalculateBlockCrc32("m")] = [](const BaseField& fd_, const CompositeField& cf_, char** ppcOutBuf_, uint32_t& uiBytesLeft_,
@@ -222,29 +222,29 @@ void Encoder::InitFieldMaps()
                                                 const MessageDatabase&, size_t offset) {
         if (fd_.dataType.length == 4)
         {
-            return WriteFloatToBuffer(ppcOutBuf_, uiBytesLeft_, cf_.GetFieldValue<float>(fd_, offset), std::chars_format::fixed, fd_.precision);
+            return WriteJsonFloatToBuffer(ppcOutBuf_, uiBytesLeft_, cf_.GetFieldValue<float>(fd_, offset), std::chars_format::fixed, fd_.precision);
         }
         if (fd_.dataType.length == 8)
         {
-            return WriteFloatToBuffer(ppcOutBuf_, uiBytesLeft_, cf_.GetFieldValue<double>(fd_, offset), std::chars_format::fixed, fd_.precision);
+            return WriteJsonFloatToBuffer(ppcOutBuf_, uiBytesLeft_, cf_.GetFieldValue<double>(fd_, offset), std::chars_format::fixed, fd_.precision);
         }
         return false;
     };
 
     jsonFieldMap[CalculateBlockCrc32("lf")] = [](const BaseField& fd_, const CompositeField& cf_, char** ppcOutBuf_, uint32_t& uiBytesLeft_,
                                                  const MessageDatabase&, size_t offset) {
-        return WriteFloatToBuffer(ppcOutBuf_, uiBytesLeft_, cf_.GetFieldValue<double>(fd_, offset), std::chars_format::fixed, fd_.precision);
+        return WriteJsonFloatToBuffer(ppcOutBuf_, uiBytesLeft_, cf_.GetFieldValue<double>(fd_, offset), std::chars_format::fixed, fd_.precision);
     };
 
     jsonFieldMap[CalculateBlockCrc32("e")] = [](const BaseField& fd_, const CompositeField& cf_, char** ppcOutBuf_, uint32_t& uiBytesLeft_,
                                                 const MessageDatabase&, size_t offset) {
         if (fd_.dataType.length == 4)
         {
-            return WriteFloatToBuffer(ppcOutBuf_, uiBytesLeft_, cf_.GetFieldValue<float>(fd_, offset), std::chars_format::scientific, fd_.precision);
+            return WriteJsonFloatToBuffer(ppcOutBuf_, uiBytesLeft_, cf_.GetFieldValue<float>(fd_, offset), std::chars_format::scientific, fd_.precision);
         }
         if (fd_.dataType.length == 8)
         {
-            return WriteFloatToBuffer(ppcOutBuf_, uiBytesLeft_, cf_.GetFieldValue<double>(fd_, offset), std::chars_format::scientific, fd_.precision);
+            return WriteJsonFloatToBuffer(ppcOutBuf_, uiBytesLeft_, cf_.GetFieldValue<double>(fd_, offset), std::chars_format::scientific, fd_.precision);
         }
         return false;
     };
@@ -254,31 +254,31 @@ void Encoder::InitFieldMaps()
     jsonFieldMap[CalculateBlockCrc32("k")] = [](const BaseField& fd_, const CompositeField& cf_, char** ppcOutBuf_, uint32_t& uiBytesLeft_,
                                                 const MessageDatabase&, size_t offset) {
         const auto val = cf_.GetFieldValue<float>(fd_, offset);
-        return WriteFloatToBuffer(ppcOutBuf_, uiBytesLeft_, val, FloatingPointFormat(fd_, val), fd_.precision);
+        return WriteJsonFloatToBuffer(ppcOutBuf_, uiBytesLeft_, val, FloatingPointFormat(fd_, val), fd_.precision);
     };
 
     jsonFieldMap[CalculateBlockCrc32("lk")] = [](const BaseField& fd_, const CompositeField& cf_, char** ppcOutBuf_, uint32_t& uiBytesLeft_,
                                                  const MessageDatabase&, size_t offset) {
         const auto val = cf_.GetFieldValue<double>(fd_, offset);
-        return WriteFloatToBuffer(ppcOutBuf_, uiBytesLeft_, val, FloatingPointFormat(fd_, val), fd_.precision);
+        return WriteJsonFloatToBuffer(ppcOutBuf_, uiBytesLeft_, val, FloatingPointFormat(fd_, val), fd_.precision);
     };
 
     jsonFieldMap[CalculateBlockCrc32("s")] = [](const BaseField& fd_, const CompositeField& cf_, char** ppcOutBuf_, uint32_t& uiBytesLeft_,
                                                 const MessageDatabase&, size_t offset) {
-        return CopyToBuffer(ppcOutBuf_, uiBytesLeft_,
-                            fd_.dataType.name == DATA_TYPE::UCHAR ? static_cast<char>(cf_.GetFieldValue<uint8_t>(fd_, offset))
-                                                                  : static_cast<char>(cf_.GetFieldValue<int8_t>(fd_, offset)));
+        const char cValue = fd_.dataType.name == DATA_TYPE::UCHAR ? static_cast<char>(cf_.GetFieldValue<uint8_t>(fd_, offset))
+                                                                  : static_cast<char>(cf_.GetFieldValue<int8_t>(fd_, offset));
+        return WriteJsonTextToBuffer(ppcOutBuf_, uiBytesLeft_, std::string_view(&cValue, 1));
     };
 
     jsonFieldMap[CalculateBlockCrc32("c")] = [](const BaseField& fd_, const CompositeField& cf_, char** ppcOutBuf_, uint32_t& uiBytesLeft_,
                                                 const MessageDatabase&, size_t offset) {
         if (fd_.dataType.length == 1)
         {
-            return CopyAllToBuffer(ppcOutBuf_, uiBytesLeft_, '"', static_cast<char>(cf_.GetFieldValue<uint8_t>(fd_, offset)), '"');
+            return WriteJsonCharToBuffer(ppcOutBuf_, uiBytesLeft_, static_cast<char>(cf_.GetFieldValue<uint8_t>(fd_, offset)));
         }
         if (fd_.dataType.length == 4 && fd_.dataType.name == DATA_TYPE::ULONG)
         {
-            return CopyAllToBuffer(ppcOutBuf_, uiBytesLeft_, '"', static_cast<char>(cf_.GetFieldValue<uint32_t>(fd_, offset)), '"');
+            return WriteJsonCharToBuffer(ppcOutBuf_, uiBytesLeft_, static_cast<char>(cf_.GetFieldValue<uint32_t>(fd_, offset)));
         }
         return false;
     };
-- 
2.43.0


From 2ea8781a5ee417570e6bc87387f17d9d204f4cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:48 +0000
Subject: [PATCH 35/70] fix: JSON bodies of responses and of messages without
 fields are complete

---
 include/novatel_edie/decoders/common/encoder.hpp | 2 ++
 src/decoders/oem/src/encoder.cpp                 | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/novatel_edie/decoders/common/encoder.hpp b/include/novatel_edie/decoders/common/encoder.hpp
index 1bc31eb..486aa3c 100644
--- a/include/novatel_edie/decoders/common/encoder.hpp
+++ b/include/novatel_edie/decoders/common/encoder.hpp
@@ -895,6 +895,7 @@ template <typename Derived> class EncoderBase
             case FIELD_TYPE::VARIABLE_LENGTH_ARRAY: [[fallthrough]];
             case FIELD_TYPE::FIXED_LENGTH_ARRAY: [[fallthrough]];
             case FIELD_TYPE::ENUM: [[fallthrough]];
+            case FIELD_TYPE::RESPONSE_ID: [[fallthrough]];
             case FIELD_TYPE::SIMPLE:
                 if (!EncodeJsonField(fieldDefRef, clCompField_, ppcOutBuf_, uiBytesLeft_)) { return false; }
                 break;
@@ -902,6 +903,7 @@ template <typename Derived> class EncoderBase
             }
         }
 
+        if (fieldDefinitions_.empty()) { return CopyToBuffer(ppcOutBuf_, uiBytesLeft_, '}'); }
         *(*ppcOutBuf_ - 1) = '}';
         return true;
     }
diff --git a/src/decoders/oem/src/encoder.cpp b/src/decoders/oem/src/encoder.cpp
index 721afd4..de5d463 100644
--- a/src/decoders/oem/src/encoder.cpp
+++ b/src/decoders/oem/src/encoder.cpp
@@ -563,7 +563,7 @@ Encoder::EncodeBody(unsigned char* const* ppucBuffer_, uint32_t uiBufferSize_, c
     case ENCODE_FORMAT::ASCII: {
         auto* pcTempBuffer = reinterpret_cast<char*>(pucTempBuffer);
         if (!EncodeAsciiBody<false>(stMessage_, fieldDefinitions, &pcTempBuffer, uiBufferSize_)) { return STATUS::BUFFER_FULL; }
-        pcTempBuffer--; // Remove last delimiter ','
+        if (pcTempBuffer != reinterpret_cast<char*>(pucTempBuffer)) { pcTempBuffer--; } // Remove last delimiter ','
         const uint32_t uiCrc = CalculateBlockCrc32(stMessageData_.pucMessageHeader + 1,
                                                    reinterpret_cast<unsigned char*>(pcTempBuffer) - stMessageData_.pucMessageHeader - 1);
         if (!CopyAllToBuffer(&pcTempBuffer, uiBufferSize_, '*', HexValue<uint32_t>{uiCrc, 8}, "\r\n")) { return STATUS::BUFFER_FULL; }
-- 
2.43.0


From eeecb1b42a806838c231c3135aadf737fa95e538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:48 +0000
Subject: [PATCH 36/70] fix: a decoder checks the database it is given and
 knows its enumerations

---
 include/novatel_edie/decoders/common/message_decoder.hpp | 5 ++---
 src/decoders/common/src/message_decoder.cpp              | 2 +-
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/novatel_edie/decoders/common/message_decoder.hpp b/include/novatel_edie/decoders/common/message_decoder.hpp
index 18d0a9c..8131b26 100644
--- a/include/novatel_edie/decoders/common/message_decoder.hpp
+++ b/include/novatel_edie/decoders/common/message_decoder.hpp
@@ -1755,11 +1755,10 @@ class MessageDecoderBase
     //----------------------------------------------------------------------------
     MessageDecoderBase(std::string expectedMessageFamily_, MessageDatabase::Ptr pclMessageDb_ = nullptr,
                        std::function<size_t(const size_t, const uintptr_t, const uintptr_t)> fAlignmentFunc_ = MessageDatabase::NoAlign)
-        : sMyExpectedMessageFamily(std::move(expectedMessageFamily_)), fMyAlignmentFunc(std::move(fAlignmentFunc_)),
-          pclMyMsgDb(std::move(pclMessageDb_))
+        : sMyExpectedMessageFamily(std::move(expectedMessageFamily_)), fMyAlignmentFunc(std::move(fAlignmentFunc_))
     {
         InitFieldMaps();
-        if (pclMessageDb_ != nullptr) { LoadJsonDb(std::move(pclMessageDb_)); }
+        if (pclMessageDb_ != nullptr) { MessageDecoderBase::LoadJsonDb(std::move(pclMessageDb_)); }
     }
 
     virtual ~MessageDecoderBase() = default;
diff --git a/src/decoders/common/src/message_decoder.cpp b/src/decoders/common/src/message_decoder.cpp
index f82bf0e..10460ed 100644
--- a/src/decoders/common/src/message_decoder.cpp
+++ b/src/decoders/common/src/message_decoder.cpp
@@ -36,7 +36,7 @@ using namespace novatel::edie;
 // -------------------------------------------------------------------------------------------------------
 void MessageDecoderBase::LoadJsonDb(MessageDatabase::Ptr pclMessageDb_)
 {
-    ValidateMessageDatabaseFamily(pclMyMsgDb, sMyExpectedMessageFamily, pclMyLogger);
+    ValidateMessageDatabaseFamily(pclMessageDb_, sMyExpectedMessageFamily, pclMyLogger);
     pclMyMsgDb = std::move(pclMessageDb_);
     InitEnumDefinitions();
 }
-- 
2.43.0


From ab2d59e5bae2f3a2209a49a28e18e01cc1f937d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:36 +0000
Subject: [PATCH 37/70] fix: text arrays with separators, quotes or backslashes
 survive the text form

---
 src/decoders/common/src/message_decoder.cpp |  3 ++-
 src/decoders/oem/src/encoder.cpp            | 15 +++++++++++----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/decoders/common/src/message_decoder.cpp b/src/decoders/common/src/message_decoder.cpp
index 10460ed..2168c06 100644
--- a/src/decoders/common/src/message_decoder.cpp
+++ b/src/decoders/common/src/message_decoder.cpp
@@ -531,7 +531,8 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
         if constexpr (Abbreviated) { ConsumeAbbrevFormatting(ppcLogBuf_); }
 
         size_t tokenLength = strcspn(*ppcLogBuf_, tokenDelimiters.data());
-        if (tokenLength == 0) { return STATUS::MALFORMED_INPUT; }
+        // Arrays whose elements are not separated may begin with any character
+        if (tokenLength == 0 && !(field->type == FIELD_TYPE::FIXED_LENGTH_ARRAY && !field->isCsv)) { return STATUS::MALFORMED_INPUT; }
 
         bool bEarlyEndOfMessage = (*(*ppcLogBuf_ + tokenLength) == endDelim);
 
diff --git a/src/decoders/oem/src/encoder.cpp b/src/decoders/oem/src/encoder.cpp
index de5d463..969832c 100644
--- a/src/decoders/oem/src/encoder.cpp
+++ b/src/decoders/oem/src/encoder.cpp
@@ -98,9 +98,15 @@ void Encoder::InitFieldMaps()
 
     asciiFieldMap[CalculateBlockCrc32("s")] = [](const BaseField& fd_, const CompositeField& cf_, char** ppcOutBuf_, uint32_t& uiBytesLeft_,
                                                  const MessageDatabase&, size_t offset) {
-        return fd_.dataType.name == DATA_TYPE::UCHAR
-                   ? CopyToBuffer(ppcOutBuf_, uiBytesLeft_, static_cast<char>(cf_.GetFieldValue<uint8_t>(fd_, offset)))
-                   : CopyToBuffer(ppcOutBuf_, uiBytesLeft_, static_cast<char>(cf_.GetFieldValue<int8_t>(fd_, offset)));
+        const uint8_t uiValue = fd_.dataType.name == DATA_TYPE::UCHAR ? cf_.GetFieldValue<uint8_t>(fd_, offset)
+                                                                      : static_cast<uint8_t>(cf_.GetFieldValue<int8_t>(fd_, offset));
+        // The decoder takes these characters for an escape, the end of the text or the end of the message
+        if (uiValue == '\\') { return CopyToBuffer(ppcOutBuf_, uiBytesLeft_, "\\\\"); }
+        if (uiValue < 32 || uiValue == '"' || uiValue == '*')
+        {
+            return CopyToBuffer(ppcOutBuf_, uiBytesLeft_, "\\x") && WriteHexToBuffer(ppcOutBuf_, uiBytesLeft_, uiValue, 2);
+        }
+        return CopyToBuffer(ppcOutBuf_, uiBytesLeft_, static_cast<char>(uiValue));
     };
 
     asciiFieldMap[CalculateBlockCrc32("m")] = [](const BaseField& fd_, const CompositeField& cf_, char** ppcOutBuf_, uint32_t& uiBytesLeft_,
@@ -128,7 +134,8 @@ void Encoder::InitFieldMaps()
         const uint8_t uiValue = fd_.dataType.name == DATA_TYPE::CHAR ? static_cast<uint8_t>(cf_.GetFieldValue<int8_t>(fd_, offset))
                                                                      : cf_.GetFieldValue<uint8_t>(fd_, offset);
         if (uiValue == '\\') { return CopyToBuffer(ppcOutBuf_, uiBytesLeft_, "\\\\"); }
-        if (uiValue > 31 && uiValue < 127) { return CopyToBuffer(ppcOutBuf_, uiBytesLeft_, static_cast<char>(uiValue)); }
+        // A raw '*' would end the message
+        if (uiValue > 31 && uiValue < 127 && uiValue != '*') { return CopyToBuffer(ppcOutBuf_, uiBytesLeft_, static_cast<char>(uiValue)); }
         return CopyToBuffer(ppcOutBuf_, uiBytesLeft_, "\\x") && WriteHexToBuffer(ppcOutBuf_, uiBytesLeft_, uiValue, 2);
     };
 
-- 
2.43.0


From cbe3d0a2235c859ddb69bac7c3f8cdafdad4567f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:01 +0000
Subject: [PATCH 38/70] fix: a one byte %c field is stored in one byte

---
 src/decoders/oem/src/message_decoder.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/decoders/oem/src/message_decoder.cpp b/src/decoders/oem/src/message_decoder.cpp
index 62a2b71..160b3fb 100644
--- a/src/decoders/oem/src/message_decoder.cpp
+++ b/src/decoders/oem/src/message_decoder.cpp
@@ -62,9 +62,14 @@ void MessageDecoder::InitOemFieldMaps()
                                                  [[maybe_unused]] MessageDatabase& pclMsgDb_) {
         // TODO: check that the character is printable
         // if (!isprint(**ppcToken_)) { throw ... }
-        const auto value = static_cast<uint32_t>(static_cast<unsigned char>(**ppcToken_));
-        if (fixed_) { clCompField_.SetArrayElement<true>(pstMessageDataType_, elementIndex_, value); }
-        else { clCompField_.SetArrayElement<false>(pstMessageDataType_, elementIndex_, value); }
+        const auto store = [&](const auto value_) {
+            if (fixed_) { clCompField_.SetArrayElement<true>(pstMessageDataType_, elementIndex_, value_); }
+            else { clCompField_.SetArrayElement<false>(pstMessageDataType_, elementIndex_, value_); }
+        };
+        const auto value = static_cast<unsigned char>(**ppcToken_);
+        if (pstMessageDataType_.dataType.name == DATA_TYPE::CHAR) { store(static_cast<int8_t>(value)); }
+        else if (pstMessageDataType_.dataType.length == 1) { store(static_cast<uint8_t>(value)); }
+        else { store(static_cast<uint32_t>(value)); }
     };
     asciiFieldMap[CalculateBlockCrc32("k")] = SimpleAsciiMapEntry<float>();
     asciiFieldMap[CalculateBlockCrc32("lk")] = SimpleAsciiMapEntry<double>();
-- 
2.43.0


From 0b7f97cfd421ab19c6bb324628a20a18c6696c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:42 +0000
Subject: [PATCH 39/70] fix: an empty response text is encoded in binary

---
 include/novatel_edie/decoders/common/encoder.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/novatel_edie/decoders/common/encoder.hpp b/include/novatel_edie/decoders/common/encoder.hpp
index 486aa3c..e2059d4 100644
--- a/include/novatel_edie/decoders/common/encoder.hpp
+++ b/include/novatel_edie/decoders/common/encoder.hpp
@@ -498,7 +498,12 @@ template <typename Derived> class EncoderBase
             else
             {
                 // All other fields (SIMPLE, ENUM, RESPONSE_ID, RESPONSE_STR, FIXED_LENGTH_ARRAY): copy bytes directly
-                // Note: the following check assumes none of the aforementioned field types can be empty
+                if (fieldDefRef.type == FIELD_TYPE::RESPONSE_STR && fieldDefRef.index < stInterMessage_.GetVarFields().size())
+                {
+                    const auto* pclResponse = std::get_if<std::string>(&stInterMessage_.GetVarFields()[fieldDefRef.index]);
+                    if (pclResponse != nullptr && pclResponse->empty()) { continue; }
+                }
+                // Note: the following check assumes none of the other field types can be empty
                 if (!stInterMessage_.WriteFieldToBuffer(fieldDefRef, ppucOutBuf_, uiBytesLeft_)) { return false; }
             }
         }
-- 
2.43.0


From b6f450ff01e80ebbb0a6e2a29a4c2156d0eeaae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:21 +0000
Subject: [PATCH 40/70] fix: unsigned character %Z arrays are written in
 hexadecimal, as they are read

---
 src/decoders/oem/src/encoder.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/decoders/oem/src/encoder.cpp b/src/decoders/oem/src/encoder.cpp
index 969832c..55494ac 100644
--- a/src/decoders/oem/src/encoder.cpp
+++ b/src/decoders/oem/src/encoder.cpp
@@ -82,6 +82,7 @@ void Encoder::InitFieldMaps()
     asciiFieldMap[CalculateBlockCrc32("UB")] = BasicIntMapEntry<uint8_t>();
     asciiFieldMap[CalculateBlockCrc32("B")] = BasicIntMapEntry<int8_t>();
     asciiFieldMap[CalculateBlockCrc32("XB")] = BasicHexMapEntry<uint8_t>(2);
+    asciiFieldMap[CalculateBlockCrc32("Z")] = BasicHexMapEntry<uint8_t>(2);
 
     asciiFieldMap[CalculateBlockCrc32("x")] = [](const BaseField& fd_, const CompositeField& cf_, char** ppcOutBuf_, uint32_t& uiBytesLeft_,
                                                  const MessageDatabase&, size_t offset) {
-- 
2.43.0


From f614ef60b9d8eb65aaff50fc26bc7c8833ff2818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:35 +0000
Subject: [PATCH 41/70] fix: decoding a text body never reads past the message

The text of a message need not be followed by a null character; a body with
an unbalanced quote, or one that ends early, was read on into whatever
followed it in the buffer.
---
 .../novatel_edie/decoders/common/common.hpp   |  4 +-
 src/decoders/common/src/common.cpp            |  4 +-
 src/decoders/common/src/message_decoder.cpp   | 69 ++++++++++++-------
 3 files changed, 49 insertions(+), 28 deletions(-)

diff --git a/include/novatel_edie/decoders/common/common.hpp b/include/novatel_edie/decoders/common/common.hpp
index f461ba4..a11b418 100644
--- a/include/novatel_edie/decoders/common/common.hpp
+++ b/include/novatel_edie/decoders/common/common.hpp
@@ -404,9 +404,9 @@ int32_t GetResponseId(const novatel::edie::EnumDefinition::ConstPtr& stRespDef_,
 //
 //! \param[in] ppcMessageBuffer_ A pointer to the buffer containing the
 //! message to have abbreviated ASCII formatting stripped.
-//! Message is assumed to be null terminated.
+//! Message is assumed to be null terminated, unless its end is given.
 //-----------------------------------------------------------------------
-void ConsumeAbbrevFormatting(const char** ppcMessageBuffer_);
+void ConsumeAbbrevFormatting(const char** ppcMessageBuffer_, const char* pcBufferEnd_ = nullptr);
 
 //-----------------------------------------------------------------------
 //! \struct SatelliteId
diff --git a/src/decoders/common/src/common.cpp b/src/decoders/common/src/common.cpp
index 3956ffa..dfa9ba7 100644
--- a/src/decoders/common/src/common.cpp
+++ b/src/decoders/common/src/common.cpp
@@ -107,9 +107,9 @@ int32_t GetResponseId(const std::shared_ptr<const EnumDefinition>& stRespDef_, s
 }
 
 //-----------------------------------------------------------------------
-void ConsumeAbbrevFormatting(const char** ppcMessageBuffer_)
+void ConsumeAbbrevFormatting(const char** ppcMessageBuffer_, const char* pcBufferEnd_)
 {
-    while (true)
+    while (pcBufferEnd_ == nullptr || *ppcMessageBuffer_ < pcBufferEnd_)
     {
         switch (**ppcMessageBuffer_)
         {
diff --git a/src/decoders/common/src/message_decoder.cpp b/src/decoders/common/src/message_decoder.cpp
index 2168c06..565f1fd 100644
--- a/src/decoders/common/src/message_decoder.cpp
+++ b/src/decoders/common/src/message_decoder.cpp
@@ -415,6 +415,23 @@ void MessageDecoderBase::DecodeAsciiField(const BaseField& field_, const char**
 }
 
 // -------------------------------------------------------------------------------------------------------
+// The number of characters before either delimiter, a null character or the end of the buffer
+static size_t GetTokenLength(const char* pcToken_, const char* pcBufEnd_, const char cDelimiter_, const char cOtherDelimiter_)
+{
+    const char* pcEnd = pcToken_;
+    while (pcEnd < pcBufEnd_ && static_cast<int>(*pcEnd != cDelimiter_) & static_cast<int>(*pcEnd != cOtherDelimiter_) & static_cast<int>(*pcEnd != '\0'))
+    {
+        ++pcEnd;
+    }
+    return static_cast<size_t>(pcEnd - pcToken_);
+}
+
+// Read a byte written as two hexadecimal digits
+static bool ParseHexByte(const char* pcText_, const char* pcBufEnd_, uint32_t& uiValue_)
+{
+    return pcBufEnd_ - pcText_ >= 2 && std::from_chars(pcText_, pcText_ + 2, uiValue_, 16).ec == std::errc();
+}
+
 // Decode an ASCII array formatted with the %Z conversion string
 static STATUS DecodeZConversionStringAsciiArray(std::vector<uint8_t>& vDecodedValues_, const char** ppcLogBuf_, const char* pcBufEnd_,
                                                 uint32_t uiArraySize_)
@@ -423,7 +440,7 @@ static STATUS DecodeZConversionStringAsciiArray(std::vector<uint8_t>& vDecodedVa
     for (uint32_t i = 0; i < uiArraySize_; ++i)
     {
         uint32_t uiValueRead = 0;
-        if (pcBufEnd_ - *ppcLogBuf_ < 2 || sscanf(*ppcLogBuf_, "%02x", &uiValueRead) != 1) { return STATUS::MALFORMED_INPUT; }
+        if (!ParseHexByte(*ppcLogBuf_, pcBufEnd_, uiValueRead)) { return STATUS::MALFORMED_INPUT; }
         *ppcLogBuf_ += 2;
         vDecodedValues_[i] = static_cast<uint8_t>(uiValueRead);
     }
@@ -436,18 +453,19 @@ template <typename CharType> static STATUS DecodeNonCommaSeparatedAsciiArrayFiel
 {
     if (*ppcLogBuf_ >= pcBufEnd_) { return STATUS::MALFORMED_INPUT; }
     // Escaped '\' character
-    if (strncmp("\\\\", *ppcLogBuf_, 2) == 0)
+    const bool bEscape = pcBufEnd_ - *ppcLogBuf_ >= 2 && **ppcLogBuf_ == '\\';
+    if (bEscape && *(*ppcLogBuf_ + 1) == '\\')
     {
         *ppcLogBuf_ += 1;
         cValue_ = static_cast<CharType>(**ppcLogBuf_);
         *ppcLogBuf_ += 1; // Consume 1 char
     }
     // Non-ascii char in hex e.g. \x0C
-    else if (strncmp("\\x", *ppcLogBuf_, 2) == 0)
+    else if (bEscape && *(*ppcLogBuf_ + 1) == 'x')
     {
         *ppcLogBuf_ += 2; // Consume the '\x' that signifies hex without a char representation
         uint32_t uiValueRead = 0;
-        if (pcBufEnd_ - *ppcLogBuf_ < 2 || sscanf(*ppcLogBuf_, "%02x", &uiValueRead) != 1) { return STATUS::MALFORMED_INPUT; }
+        if (!ParseHexByte(*ppcLogBuf_, pcBufEnd_, uiValueRead)) { return STATUS::MALFORMED_INPUT; }
 
         cValue_ = static_cast<CharType>(uiValueRead);
         *ppcLogBuf_ += 2;
@@ -516,25 +534,26 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
     constexpr char fieldDelim = Abbreviated ? ' ' : ',';
     constexpr char endDelim = Abbreviated ? '\r' : '*';
 
-    // Null-terminated C-strings for strcspn
-    constexpr std::array<char, 3> tokenDelimiters = {fieldDelim, endDelim, '\0'};
-    constexpr std::array<char, 3> unquotedStringDelimiters = {fieldDelim, endDelim, '\0'};
-    constexpr std::array<char, 3> quotedStringDelimiters = {'\"', endDelim, '\0'};
-    constexpr std::array<char, 2> responseDelimiters = {endDelim, '\0'};
-
     if (pcBufEnd_ == nullptr) { pcBufEnd_ = static_cast<const char*>(std::memchr(*ppcLogBuf_, '\0', MAX_ASCII_MESSAGE_LENGTH)); }
 
+    // Whether what was read last ended the body
+    const auto bodyEnded = [&]() { return *ppcLogBuf_ <= pcBufEnd_ && *(*ppcLogBuf_ - 1) == endDelim; };
+
     for (const auto& field : vMsgDefFields_.messageOrderedFields)
     {
         if (*ppcLogBuf_ >= pcBufEnd_) { return STATUS::MALFORMED_INPUT; } // We encountered the end of the buffer unexpectedly
 
-        if constexpr (Abbreviated) { ConsumeAbbrevFormatting(ppcLogBuf_); }
+        if constexpr (Abbreviated)
+        {
+            ConsumeAbbrevFormatting(ppcLogBuf_, pcBufEnd_);
+            if (*ppcLogBuf_ >= pcBufEnd_) { return STATUS::MALFORMED_INPUT; }
+        }
 
-        size_t tokenLength = strcspn(*ppcLogBuf_, tokenDelimiters.data());
+        size_t tokenLength = GetTokenLength(*ppcLogBuf_, pcBufEnd_, fieldDelim, endDelim);
         // Arrays whose elements are not separated may begin with any character
         if (tokenLength == 0 && !(field->type == FIELD_TYPE::FIXED_LENGTH_ARRAY && !field->isCsv)) { return STATUS::MALFORMED_INPUT; }
 
-        bool bEarlyEndOfMessage = (*(*ppcLogBuf_ + tokenLength) == endDelim);
+        bool bEarlyEndOfMessage = *ppcLogBuf_ + tokenLength < pcBufEnd_ && *(*ppcLogBuf_ + tokenLength) == endDelim;
 
         switch (field->type)
         {
@@ -573,10 +592,12 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
                 break;
             case '"':
                 // If a field delimiter character is in the string, the previous tokenLength value is invalid.
-                tokenLength = strcspn(*ppcLogBuf_ + 1, quotedStringDelimiters.data()); // Look for LAST '"' character, skipping past the first.
+                tokenLength = GetTokenLength(*ppcLogBuf_ + 1, pcBufEnd_, '\"', endDelim); // Look for LAST '"' character, skipping past the first.
                 clCompField_.SetFieldValue<false>(field->index, std::string(*ppcLogBuf_ + 1, tokenLength)); // + 1 to pass opening double-quote.
                 // Skip past the first '"', string token and the remaining characters ('"' and ',').
-                *ppcLogBuf_ += tokenLength + strcspn(*ppcLogBuf_ + tokenLength + 1, unquotedStringDelimiters.data()) + 2;
+                *ppcLogBuf_ += tokenLength + GetTokenLength(*ppcLogBuf_ + tokenLength + 1, pcBufEnd_, fieldDelim, endDelim) + 2;
+                // What follows the closing quote, rather than what is within the quotes, tells whether the body ends here
+                bEarlyEndOfMessage = bodyEnded();
                 break;
             default:
                 // Unquoted string: initial tokenLength is the length of the string
@@ -587,7 +608,7 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
             break;
         case FIELD_TYPE::RESPONSE_ID: {
             // Ensure we get the whole response (skip over delimiters in responses)
-            tokenLength = strcspn(*ppcLogBuf_, responseDelimiters.data());
+            tokenLength = GetTokenLength(*ppcLogBuf_, pcBufEnd_, endDelim, endDelim);
             std::string_view sResponse(*ppcLogBuf_, tokenLength);
             if (sResponse == "OK") { clCompField_.SetFieldValue<true>(field->index, static_cast<int32_t>(1)); }
             // Note: This won't match responses with format specifiers in them (%d, %s, etc.), they will be given id=0
@@ -598,7 +619,7 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
         }
         case FIELD_TYPE::RESPONSE_STR:
             // Response strings aren't surrounded by double quotes, ensure we get the whole response (skip over certain delimiters in responses)
-            tokenLength = strcspn(*ppcLogBuf_, responseDelimiters.data());
+            tokenLength = GetTokenLength(*ppcLogBuf_, pcBufEnd_, endDelim, endDelim);
             clCompField_.SetFieldValue<false>(field->index, std::string(*ppcLogBuf_, tokenLength));
             *ppcLogBuf_ += tokenLength + 1;
             break;
@@ -609,7 +630,7 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
             if (fixed) { uiArraySize = dynamic_cast<const ArrayField*>(field.get())->arrayLength; }
             else
             {
-                auto result = std::from_chars(*ppcLogBuf_, *ppcLogBuf_ + tokenLength + 1, uiArraySize);
+                auto result = std::from_chars(*ppcLogBuf_, *ppcLogBuf_ + tokenLength, uiArraySize);
                 if (result.ec != std::errc())
                 {
                     SPDLOG_LOGGER_CRITICAL(pclMyLogger, "DecodeAscii()::VARIABLE_LENGTH_ARRAY: Array length not valid number. Malformed Input\n");
@@ -678,9 +699,9 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
                     if constexpr (!Abbreviated)
                     {
                         // The body ended with the element before this one
-                        if (i > 0 && *(*ppcLogBuf_ - 1) == endDelim) { return STATUS::MALFORMED_INPUT; }
+                        if (i > 0 && bodyEnded()) { return STATUS::MALFORMED_INPUT; }
                     }
-                    tokenLength = strcspn(*ppcLogBuf_, unquotedStringDelimiters.data());
+                    tokenLength = GetTokenLength(*ppcLogBuf_, pcBufEnd_, fieldDelim, endDelim);
                     DecodeAsciiField(*field, ppcLogBuf_, tokenLength, clCompField_, i, fixed);
                     *ppcLogBuf_ += tokenLength + 1;
                 }
@@ -691,13 +712,13 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
                 return eStatus;
             }
             // What follows the last element, rather than the first, tells whether the body ends here
-            bEarlyEndOfMessage = *(*ppcLogBuf_ - 1) == endDelim;
+            bEarlyEndOfMessage = bodyEnded();
 
             break;
         }
         case FIELD_TYPE::FIELD_ARRAY: {
             uint32_t uiArraySize;
-            auto result = std::from_chars(*ppcLogBuf_, *ppcLogBuf_ + tokenLength + 1, uiArraySize);
+            auto result = std::from_chars(*ppcLogBuf_, *ppcLogBuf_ + tokenLength, uiArraySize);
             if (result.ec != std::errc())
             {
                 SPDLOG_LOGGER_CRITICAL(pclMyLogger, "DecodeAscii()::FIELD_ARRAY: Field Array length not valid number. Malformed Input\n");
@@ -728,14 +749,14 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
                 if constexpr (!Abbreviated)
                 {
                     // The body ended with the record before this one
-                    if (*(*ppcLogBuf_ - 1) == endDelim) { return STATUS::MALFORMED_INPUT; }
+                    if (bodyEnded()) { return STATUS::MALFORMED_INPUT; }
                 }
                 pvFieldArrayContainer[i] = CompositeField(subFieldDefinitions->fieldInfo);
                 STATUS eStatus = DecodeAscii<Abbreviated>(*subFieldDefinitions->fieldInfo, ppcLogBuf_, pvFieldArrayContainer[i], pcBufEnd_);
                 if (eStatus != STATUS::SUCCESS) { return eStatus; }
             }
             clCompField_.SetFieldValue(*field, std::move(pvFieldArrayContainer));
-            bEarlyEndOfMessage = *(*ppcLogBuf_ - 1) == endDelim;
+            bEarlyEndOfMessage = bodyEnded();
             break;
         }
         default:
-- 
2.43.0


From 0b508066eb55a043d748a1cf9ba3296bb82be08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:00 +0000
Subject: [PATCH 42/70] fix: %P arrays of unsigned characters are read from
 JSON with their own type

They were stored as signed characters, and reading the field afterwards
threw.
---
 src/decoders/common/src/message_decoder.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/decoders/common/src/message_decoder.cpp b/src/decoders/common/src/message_decoder.cpp
index 565f1fd..d7e89cc 100644
--- a/src/decoders/common/src/message_decoder.cpp
+++ b/src/decoders/common/src/message_decoder.cpp
@@ -917,15 +917,15 @@ STATUS MessageDecoderBase::DecodeJson(const FieldInfo& vMsgDefFields_, simdjson:
                         }
                         else
                         {
-                            std::vector<int8_t> vDecodedValues;
-                            vDecodedValues.reserve(array.size());
+                            std::string sDecodedValue;
+                            sDecodedValue.reserve(array.size());
                             for (simdjson::dom::element it : array)
                             {
                                 int64_t value;
                                 if (it.get(value) != simdjson::SUCCESS) { return STATUS::MALFORMED_INPUT; }
-                                vDecodedValues.emplace_back(static_cast<int8_t>(value));
+                                sDecodedValue.push_back(static_cast<char>(value));
                             }
-                            clCompField_.SetFieldValue<false>(field->index, std::move(vDecodedValues));
+                            SetTextArray(clCompField_, *field, sDecodedValue);
                         }
                     }
                     else { return STATUS::MALFORMED_INPUT; }
-- 
2.43.0


From 69ca0debfafe2507b395b4bd389e962d27897fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:04 +0000
Subject: [PATCH 43/70] fix: keys of range observations do not collide for PRN
 64 or RANGECMP2 slots above 218

---
 include/novatel_edie/decoders/oem/rangecmp/common.hpp     | 4 ++--
 src/decoders/oem/src/rangecmp/channel_tracking_status.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/novatel_edie/decoders/oem/rangecmp/common.hpp b/include/novatel_edie/decoders/oem/rangecmp/common.hpp
index 03265ab..cd479f6 100644
--- a/include/novatel_edie/decoders/oem/rangecmp/common.hpp
+++ b/include/novatel_edie/decoders/oem/rangecmp/common.hpp
@@ -763,8 +763,8 @@ struct LockTimeInfo
 
 constexpr uint64_t MakeKey(SYSTEM system, uint32_t satellite, SIGNAL_TYPE signal, MEASUREMENT_SOURCE source)
 {
-    assert(static_cast<uint64_t>(system) < 16 && satellite < 64 && static_cast<uint64_t>(signal) < 16 && static_cast<uint64_t>(source) < 2);
-    return static_cast<uint64_t>(system) << 11 | satellite << 5 | static_cast<uint64_t>(signal) << 1 | static_cast<uint64_t>(source);
+    assert(static_cast<uint64_t>(system) < 16 && satellite <= SATELLITES_BITS && static_cast<uint64_t>(signal) < 16 && static_cast<uint64_t>(source) < 2);
+    return static_cast<uint64_t>(system) << 12 | satellite << 5 | static_cast<uint64_t>(signal) << 1 | static_cast<uint64_t>(source);
 }
 
 } // namespace rangecmp4
diff --git a/src/decoders/oem/src/rangecmp/channel_tracking_status.cpp b/src/decoders/oem/src/rangecmp/channel_tracking_status.cpp
index e1c3b78..193076c 100644
--- a/src/decoders/oem/src/rangecmp/channel_tracking_status.cpp
+++ b/src/decoders/oem/src/rangecmp/channel_tracking_status.cpp
@@ -32,8 +32,8 @@ using namespace novatel::edie::oem;
 //------------------------------------------------------------------------------
 uint64_t ChannelTrackingStatus::MakeKey(const uint32_t prn, const MEASUREMENT_SOURCE source) const
 {
-    assert(static_cast<uint64_t>(eSatelliteSystem) < 16 && prn < 256 && static_cast<uint64_t>(eSignalType) < 32 && static_cast<uint64_t>(source) < 2);
-    return static_cast<uint64_t>(eSatelliteSystem) << 14 | prn << 6 | static_cast<uint64_t>(eSignalType) << 1 | static_cast<uint64_t>(source);
+    assert(static_cast<uint64_t>(eSatelliteSystem) < 16 && prn < 512 && static_cast<uint64_t>(eSignalType) < 32 && static_cast<uint64_t>(source) < 2);
+    return static_cast<uint64_t>(eSatelliteSystem) << 15 | prn << 6 | static_cast<uint64_t>(eSignalType) << 1 | static_cast<uint64_t>(source);
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From cae422eb15fa2d9db70c880f061a00ad46a2a92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:04 +0000
Subject: [PATCH 44/70] fix: range decompression never reads past the message
 nor writes past its buffers

---
 .../oem/rangecmp/range_decompressor.hpp       |  4 +-
 .../oem/src/rangecmp/range_decompressor.cpp   | 66 ++++++++++++++++---
 2 files changed, 58 insertions(+), 12 deletions(-)

diff --git a/include/novatel_edie/decoders/oem/rangecmp/range_decompressor.hpp b/include/novatel_edie/decoders/oem/rangecmp/range_decompressor.hpp
index 84e2b26..0a27f99 100644
--- a/include/novatel_edie/decoders/oem/rangecmp/range_decompressor.hpp
+++ b/include/novatel_edie/decoders/oem/rangecmp/range_decompressor.hpp
@@ -104,10 +104,10 @@ class RangeDecompressor
     void RangeCmp2ToRange(const rangecmp2::RangeCmp& stRangeCmpMessage_, Range& stRangeMessage_, const MetaDataStruct& stMetaData_);
 
     //! Convert a RANGECMP4 message into RANGE message.
-    void RangeCmp4ToRange(unsigned char* pucData_, Range& stRangeMessage_, const MetaDataStruct& pstMetaData_);
+    void RangeCmp4ToRange(unsigned char* pucData_, uint32_t uiDataSize_, Range& stRangeMessage_, const MetaDataStruct& pstMetaData_);
 
     //! Convert a RANGECMP5 message into RANGE message.
-    void RangeCmp5ToRange(unsigned char* pucData_, Range& stRangeMessage_, const MetaDataStruct& pstMetaData_);
+    void RangeCmp5ToRange(unsigned char* pucData_, uint32_t uiDataSize_, Range& stRangeMessage_, const MetaDataStruct& pstMetaData_);
 
     Filter clMyRangeCmpFilter;
     HeaderDecoder clMyHeaderDecoder;
diff --git a/src/decoders/oem/src/rangecmp/range_decompressor.cpp b/src/decoders/oem/src/rangecmp/range_decompressor.cpp
index ffee0d2..5d32e00 100644
--- a/src/decoders/oem/src/rangecmp/range_decompressor.cpp
+++ b/src/decoders/oem/src/rangecmp/range_decompressor.cpp
@@ -358,6 +358,22 @@ void RangeDecompressor::PopulateNextRangeData(RangeData& stRangeData_, const ran
     stRangeData_.uiChannelTrackingStatus = stCtStatus_.GetAsWord();
 }
 
+//------------------------------------------------------------------------------
+static RangeData& NextRangeData(Range& stRangeMessage_)
+{
+    if (stRangeMessage_.uiNumberOfObservations >= RANGE_RECORD_MAX) { throw std::runtime_error("Too many observations."); }
+    return stRangeMessage_.astRangeData[stRangeMessage_.uiNumberOfObservations++];
+}
+
+//------------------------------------------------------------------------------
+// Load a message with a fixed-size representation from a body which may be shorter than that.
+template <typename T> static T LoadRangeMessage(const unsigned char* pucBody_, uint32_t uiBodyLength_)
+{
+    T stMessage;
+    memcpy(&stMessage, pucBody_, std::min<size_t>(uiBodyLength_, sizeof(T)));
+    return stMessage;
+}
+
 //------------------------------------------------------------------------------
 void RangeDecompressor::RangeCmpToRange(const rangecmp::RangeCmp& stRangeCmpMessage_, Range& stRangeMessage_)
 {
@@ -429,6 +445,11 @@ void RangeDecompressor::RangeCmp2ToRange(const rangecmp2::RangeCmp& stRangeCmpMe
     uint32_t uiRangeDataBytesDecompressed = 0;
     while (uiRangeDataBytesDecompressed < stRangeCmpMessage_.uiNumberOfRangeDataBytes)
     {
+        if (stRangeCmpMessage_.uiNumberOfRangeDataBytes - uiRangeDataBytesDecompressed < sizeof(SatelliteBlock))
+        {
+            throw std::runtime_error("Not enough bytes remaining in the buffer.");
+        }
+
         auto stSatBlock = LoadValueFromBuffer<SatelliteBlock>(&stRangeCmpMessage_.aucRangeData[uiRangeDataBytesDecompressed]);
 
         const auto eSystem = GetBitfield<SYSTEM, SAT_SATELLITE_SYSTEM_ID_MASK>(stSatBlock.ulCombinedField);
@@ -444,6 +465,11 @@ void RangeDecompressor::RangeCmp2ToRange(const rangecmp2::RangeCmp& stRangeCmpMe
         // Decompress the Signal Blocks associated with the Satellite Block
         for (uint8_t ucSignalBlockIndex = 0; ucSignalBlockIndex < ucSignalBlockCount; ucSignalBlockIndex++)
         {
+            if (stRangeCmpMessage_.uiNumberOfRangeDataBytes - uiRangeDataBytesDecompressed < sizeof(SignalBlock))
+            {
+                throw std::runtime_error("Not enough bytes remaining in the buffer.");
+            }
+
             // Decompress the signal block
             auto stSigBlock = LoadValueFromBuffer<SignalBlock>(&stRangeCmpMessage_.aucRangeData[uiRangeDataBytesDecompressed]);
 
@@ -459,7 +485,7 @@ void RangeDecompressor::RangeCmp2ToRange(const rangecmp2::RangeCmp& stRangeCmpMe
             ChannelTrackingStatus stCtStatus(stSatBlock, stSigBlock);
 
             // Construct the decompressed range data
-            RangeData& stRangeData = stRangeMessage_.astRangeData[stRangeMessage_.uiNumberOfObservations++];
+            RangeData& stRangeData = NextRangeData(stRangeMessage_);
             stRangeData.usPrn = usPrn;
             stRangeData.sGlonassFrequency = GetBitfield<int16_t, SAT_GLONASS_FREQUENCY_ID_MASK>(stSatBlock.ulCombinedField);
             stRangeData.dPsr = iPsrBase + GetBitfield<uint64_t, SIG_PSR_DIFF_MASK>(stSigBlock.ullCombinedField2) / SIG_PSR_DIFF_SCALE_FACTOR;
@@ -479,7 +505,7 @@ void RangeDecompressor::RangeCmp2ToRange(const rangecmp2::RangeCmp& stRangeCmpMe
 }
 
 //------------------------------------------------------------------------------
-void RangeDecompressor::RangeCmp4ToRange(unsigned char* pucData_, Range& stRangeMessage_, const MetaDataStruct& stMetaData_)
+void RangeDecompressor::RangeCmp4ToRange(unsigned char* pucData_, uint32_t uiDataSize_, Range& stRangeMessage_, const MetaDataStruct& stMetaData_)
 {
     using namespace rangecmp4;
 
@@ -497,6 +523,7 @@ void RangeDecompressor::RangeCmp4ToRange(unsigned char* pucData_, Range& stRange
     stRangeMessage_.uiNumberOfObservations = 0;
     uint32_t uiBitOffset = 0;
     auto uiBytesLeft = LoadValueFromBuffer<uint32_t>(pucData_);
+    if (uiBytesLeft > uiDataSize_ - sizeof(uint32_t)) { throw std::runtime_error("Range data is longer than the message."); }
     pucData_ += sizeof(uint32_t);
 
     auto systems = ExtractBitfield<uint16_t, SATELLITE_SYSTEMS_BITS>(&pucData_, uiBytesLeft, uiBitOffset);
@@ -506,6 +533,7 @@ void RangeDecompressor::RangeCmp4ToRange(unsigned char* pucData_, Range& stRange
     // can be read correctly.
     const auto skipDBlock = [&uiBytesLeft, &uiBitOffset, &pucData_](bool& primary) {
         const uint32_t uiBitsToSkip = primary ? SIG_DBLK_PRIMARY_BITS : SIG_DBLK_SECONDARY_BITS;
+        if (uiBitsToSkip > uiBytesLeft * 8 - uiBitOffset) { throw std::runtime_error("Not enough bytes remaining in the buffer."); }
         uiBytesLeft -= (uiBitsToSkip + uiBitOffset) / 8;
         pucData_ += (uiBitsToSkip + uiBitOffset) / 8;
         uiBitOffset = (uiBitsToSkip + uiBitOffset) % 8;
@@ -582,7 +610,7 @@ void RangeDecompressor::RangeCmp4ToRange(unsigned char* pucData_, Range& stRange
                             else { DecompressDifferentialBlock<true>(&pucData_, uiBytesLeft, uiBitOffset, stBlock, stRb.second, dSecondOffset); }
 
                             ChannelTrackingStatus stCtStatus(system, signal, stBlock);
-                            PopulateNextRangeData(stRangeMessage_.astRangeData[stRangeMessage_.uiNumberOfObservations++], stBlock, stMetaData_,
+                            PopulateNextRangeData(NextRangeData(stRangeMessage_), stBlock, stMetaData_,
                                                   stCtStatus, prn, stRb.first.cGlonassFrequency);
                         }
                         else
@@ -604,7 +632,7 @@ void RangeDecompressor::RangeCmp4ToRange(unsigned char* pucData_, Range& stRange
                     else { DecompressReferenceBlock<true>(&pucData_, uiBytesLeft, uiBitOffset, stBlock, primaryPseudorange, primaryDoppler); }
 
                     ChannelTrackingStatus stCtStatus(system, signal, stBlock);
-                    RangeData& stRangeData = stRangeMessage_.astRangeData[stRangeMessage_.uiNumberOfObservations++];
+                    RangeData& stRangeData = NextRangeData(stRangeMessage_);
                     PopulateNextRangeData(stRangeData, stBlock, stMetaData_, stCtStatus, prn, stMbHeader.cGlonassFrequency);
 
                     // Always store reference blocks.
@@ -655,13 +683,14 @@ void RangeDecompressor::DecompressBlock(unsigned char** ppucData_, uint32_t& uiB
 }
 
 //------------------------------------------------------------------------------
-void RangeDecompressor::RangeCmp5ToRange(unsigned char* pucData_, Range& stRangeMessage_, const MetaDataStruct& stMetaData_)
+void RangeDecompressor::RangeCmp5ToRange(unsigned char* pucData_, uint32_t uiDataSize_, Range& stRangeMessage_, const MetaDataStruct& stMetaData_)
 {
     using namespace rangecmp5;
 
     stRangeMessage_.uiNumberOfObservations = 0;
     uint32_t uiBitOffset = 0;
     auto uiBytesLeft = LoadValueFromBuffer<uint32_t>(pucData_);
+    if (uiBytesLeft > uiDataSize_ - sizeof(uint32_t)) { throw std::runtime_error("Range data is longer than the message."); }
     pucData_ += sizeof(uint32_t);
 
     auto systems = ExtractBitfield<uint16_t, SATELLITE_SYSTEMS_BITS>(&pucData_, uiBytesLeft, uiBitOffset);
@@ -722,7 +751,7 @@ void RangeDecompressor::RangeCmp5ToRange(unsigned char* pucData_, Range& stRange
                 else { DecompressBlock<true>(&pucData_, uiBytesLeft, uiBitOffset, stBlock, primaryPseudorange, primaryDoppler); }
 
                 ChannelTrackingStatus stCtStatus(system, signal, stBlock);
-                RangeData& stRangeData = stRangeMessage_.astRangeData[stRangeMessage_.uiNumberOfObservations++];
+                RangeData& stRangeData = NextRangeData(stRangeMessage_);
                 PopulateNextRangeData(stRangeData, stBlock, stMetaData_, stCtStatus, prn, stMbHeader.cGlonassFrequency);
             }
 
@@ -770,22 +799,39 @@ STATUS RangeDecompressor::Decompress(unsigned char* pucBuffer_, uint32_t uiBuffe
         pucTempMessagePointer = stMessageData.pucMessageBody;
     }
 
+    const uint32_t uiBodyLength = eFormat == HEADER_FORMAT::BINARY ? stMetaData_.uiBinaryMsgLength : stMessageData.uiMessageBodyLength;
+    const auto uiBodyOffset = static_cast<uint32_t>(pucTempMessagePointer - pucBuffer_);
+    if (uiBodyLength < sizeof(uint32_t) || uiBodyOffset > uiBufferSize_ || uiBodyLength > uiBufferSize_ - uiBodyOffset)
+    {
+        return STATUS::DECOMPRESSION_FAILURE;
+    }
+
     // Convert the RANGECMP* message to a RANGE message.
     try
     {
+        const auto uiCount = LoadValueFromBuffer<uint32_t>(pucTempMessagePointer);
+        const uint32_t uiDataLength = uiBodyLength - sizeof(uint32_t);
+
         Range stRange;
         switch (stMetaData_.usMessageId)
         {
-        case RANGECMP_MSG_ID: RangeCmpToRange(LoadValueFromBuffer<rangecmp::RangeCmp>(pucTempMessagePointer), stRange); break;
-        case RANGECMP2_MSG_ID: RangeCmp2ToRange(LoadValueFromBuffer<rangecmp2::RangeCmp>(pucTempMessagePointer), stRange, stMetaData_); break;
+        case RANGECMP_MSG_ID:
+            if (uiCount > RANGE_RECORD_MAX || uiCount * sizeof(rangecmp::RangeCmpData) > uiDataLength) { return STATUS::DECOMPRESSION_FAILURE; }
+            RangeCmpToRange(LoadRangeMessage<rangecmp::RangeCmp>(pucTempMessagePointer, uiBodyLength), stRange);
+            break;
+        case RANGECMP2_MSG_ID:
+            if (uiCount > sizeof(rangecmp2::RangeCmp::aucRangeData) || uiCount > uiDataLength) { return STATUS::DECOMPRESSION_FAILURE; }
+            RangeCmp2ToRange(LoadRangeMessage<rangecmp2::RangeCmp>(pucTempMessagePointer, uiBodyLength), stRange, stMetaData_);
+            break;
         case RANGECMP3_MSG_ID: [[fallthrough]];
-        case RANGECMP4_MSG_ID: RangeCmp4ToRange(pucTempMessagePointer, stRange, stMetaData_); break;
-        case RANGECMP5_MSG_ID: RangeCmp5ToRange(pucTempMessagePointer, stRange, stMetaData_); break;
+        case RANGECMP4_MSG_ID: RangeCmp4ToRange(pucTempMessagePointer, uiBodyLength, stRange, stMetaData_); break;
+        case RANGECMP5_MSG_ID: RangeCmp5ToRange(pucTempMessagePointer, uiBodyLength, stRange, stMetaData_); break;
         default: return STATUS::UNSUPPORTED;
         }
 
         // Set the binary message length in the metadata for decoding purposes.
         stMetaData_.uiBinaryMsgLength = sizeof(stRange.uiNumberOfObservations) + stRange.uiNumberOfObservations * sizeof(RangeData);
+        if (stMetaData_.uiBinaryMsgLength > uiBufferSize_ - uiBodyOffset) { return STATUS::BUFFER_FULL; }
         memcpy(pucTempMessagePointer, &stRange, stMetaData_.uiBinaryMsgLength);
     }
     catch (...)
-- 
2.43.0


From c5af48ab996afaad534f0a3d833d57788ee0c1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:04 +0000
Subject: [PATCH 45/70] fix: differential range blocks are only decoded against
 references received since the last whole second or reset

---
 .../decoders/oem/rangecmp/range_decompressor.hpp             | 1 +
 src/decoders/oem/src/rangecmp/range_decompressor.cpp         | 5 +++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/novatel_edie/decoders/oem/rangecmp/range_decompressor.hpp b/include/novatel_edie/decoders/oem/rangecmp/range_decompressor.hpp
index 0a27f99..b017131 100644
--- a/include/novatel_edie/decoders/oem/rangecmp/range_decompressor.hpp
+++ b/include/novatel_edie/decoders/oem/rangecmp/range_decompressor.hpp
@@ -60,6 +60,7 @@ class RangeDecompressor
     {
         for (auto& it : mMyRangeCmp2LockTimes) { it.second = {}; }
         for (auto& it : mMyRangeCmp4LockTimes) { it.second = {}; }
+        mMyReferenceBlocks.clear();
     }
 
     //! Decompresses a RANGECMP message provided in a buffer and overwrites it with the equivalent RANGE message.
diff --git a/src/decoders/oem/src/rangecmp/range_decompressor.cpp b/src/decoders/oem/src/rangecmp/range_decompressor.cpp
index 5d32e00..de5e732 100644
--- a/src/decoders/oem/src/rangecmp/range_decompressor.cpp
+++ b/src/decoders/oem/src/rangecmp/range_decompressor.cpp
@@ -514,9 +514,10 @@ void RangeDecompressor::RangeCmp4ToRange(unsigned char* pucData_, uint32_t uiDat
     // Clear any dead reference blocks on the whole second. We should be storing new ones.
     if (std::abs(dSecondOffset) < std::numeric_limits<double>::epsilon())
     {
-        for (auto& it : mMyReferenceBlocks)
+        for (auto it = mMyReferenceBlocks.begin(); it != mMyReferenceBlocks.end();)
         {
-            if (static_cast<MEASUREMENT_SOURCE>(it.first & 1) == eSource) { it.second = {}; }
+            if (static_cast<MEASUREMENT_SOURCE>(it->first & 1) == eSource) { it = mMyReferenceBlocks.erase(it); }
+            else { ++it; }
         }
     }
 
-- 
2.43.0


From 055f941ec5eee9cc51455954a0296bb8e18711ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:04 +0000
Subject: [PATCH 46/70] fix: RANGECMP4 and RANGECMP5 Doppler fields are sign
 extended at, and marked invalid by, their own width

---
 include/novatel_edie/decoders/oem/rangecmp/common.hpp | 6 +++---
 src/decoders/oem/src/rangecmp/range_decompressor.cpp  | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/novatel_edie/decoders/oem/rangecmp/common.hpp b/include/novatel_edie/decoders/oem/rangecmp/common.hpp
index cd479f6..ff19c91 100644
--- a/include/novatel_edie/decoders/oem/rangecmp/common.hpp
+++ b/include/novatel_edie/decoders/oem/rangecmp/common.hpp
@@ -284,7 +284,6 @@ constexpr uint32_t HEADER_BLOCK_SYSTEM_COUNT = 7;
 
 // Valid limits for various Reference/Differential Primary/Secondary Blocks
 constexpr int32_t SIG_RBLK_INVALID_PHR = -4194304;
-constexpr int32_t PSIG_RBLK_INVALID_DOPPLER = -33554432;
 constexpr int32_t SSIG_RBLK_INVALID_PSR = -524288;
 constexpr int32_t SIG_DBLK_INVALID_PSR = -262144;
 constexpr int32_t SIG_DBLK_INVALID_PHR = -32768;
@@ -328,6 +327,7 @@ constexpr std::array<uint32_t, 2> RBLK_PSR_BITS = {37, 20};
 constexpr uint32_t RBLK_PHR_BITS = 23;
 constexpr std::array<uint32_t, 2> RBLK_DOPPLER_BITS = {26, 14};
 constexpr std::array<uint32_t, 2> RBLK_DOPPLER_SIGNEXT_MASK = {0xFC000000, 0xFFFFC000};
+constexpr std::array<int32_t, 2> RBLK_INVALID_DOPPLER = {-33554432, -8192};
 constexpr std::array<int64_t, 2> RBLK_INVALID_PSR = {137438953471, -524288};
 
 constexpr uint32_t SIG_DBLK_PRIMARY_BITS = SIG_BLK_PARITY_FLAG_BITS + SIG_BLK_HALF_CYCLE_BITS + SIG_BLK_CNO_BITS + SIG_BLK_LOCK_TIME_BITS +
@@ -352,7 +352,6 @@ constexpr uint32_t SIGNALS_BITS = 16;
 
 // Valid limits for various Reference Primary/Secondary Blocks
 constexpr int32_t SIG_RBLK_INVALID_PHR = -4194304;
-constexpr int32_t PSIG_RBLK_INVALID_DOPPLER = -33554432;
 constexpr int32_t SSIG_RBLK_INVALID_PSR = -524288;
 
 // Bitfield sizes for the Measurement Block Header
@@ -379,7 +378,8 @@ constexpr uint32_t RBLK_PHR_SIGNEXT_MASK = 0xFF800000;
 constexpr std::array<uint32_t, 2> RBLK_PSR_BITS = {37, 20};
 constexpr uint32_t RBLK_PHR_BITS = 23;
 constexpr std::array<uint32_t, 2> RBLK_DOPPLER_BITS = {28, 16};
-constexpr std::array<uint32_t, 2> RBLK_DOPPLER_SIGNEXT_MASK = {0xFC000000, 0xFFFFC000};
+constexpr std::array<uint32_t, 2> RBLK_DOPPLER_SIGNEXT_MASK = {0xF0000000, 0xFFFF0000};
+constexpr std::array<int32_t, 2> RBLK_INVALID_DOPPLER = {-134217728, -32768};
 constexpr std::array<int64_t, 2> RBLK_INVALID_PSR = {137438953471, -524288};
 
 } // namespace rangecmp5
diff --git a/src/decoders/oem/src/rangecmp/range_decompressor.cpp b/src/decoders/oem/src/rangecmp/range_decompressor.cpp
index de5e732..4d0c170 100644
--- a/src/decoders/oem/src/rangecmp/range_decompressor.cpp
+++ b/src/decoders/oem/src/rangecmp/range_decompressor.cpp
@@ -237,7 +237,7 @@ void RangeDecompressor::DecompressReferenceBlock(unsigned char** ppucData_, uint
     stRefBlock_.dPsr = llPsr * SIG_BLK_PSR_SCALE_FACTOR + (Secondary ? primaryPsr : 0);
     stRefBlock_.bValidPhr = iPhr != SIG_RBLK_INVALID_PHR;
     stRefBlock_.dPhr = iPhr * SIG_BLK_PHR_SCALE_FACTOR + stRefBlock_.dPsr;
-    stRefBlock_.bValidDoppler = iDoppler != PSIG_RBLK_INVALID_DOPPLER;
+    stRefBlock_.bValidDoppler = iDoppler != RBLK_INVALID_DOPPLER[Secondary];
     stRefBlock_.dDoppler = iDoppler * SIG_BLK_DOPPLER_SCALE_FACTOR + (Secondary ? primaryDoppler : 0);
 }
 
@@ -679,7 +679,7 @@ void RangeDecompressor::DecompressBlock(unsigned char** ppucData_, uint32_t& uiB
     stBlock_.bValidPhr = iPhr != SIG_RBLK_INVALID_PHR;
     // TODO: documentation says secondary adds primary phr, but target data suggests this is intended behaviour?
     stBlock_.dPhr = iPhr * SIG_BLK_PHR_SCALE_FACTOR + stBlock_.dPsr;
-    stBlock_.bValidDoppler = iDopplerBitfield != PSIG_RBLK_INVALID_DOPPLER;
+    stBlock_.bValidDoppler = iDopplerBitfield != RBLK_INVALID_DOPPLER[Secondary];
     stBlock_.dDoppler = iDopplerBitfield * SIG_BLK_DOPPLER_SCALE_FACTOR + (Secondary ? primaryDoppler : 0);
 }
 
-- 
2.43.0


From b84a0401de12ff092050a93199fa6ef6e2f57665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:04 +0000
Subject: [PATCH 47/70] fix: RANGECMP2 Doppler of GPS L2P signals is scaled
 like that of other L2 signals

---
 include/novatel_edie/decoders/oem/rangecmp/common.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/novatel_edie/decoders/oem/rangecmp/common.hpp b/include/novatel_edie/decoders/oem/rangecmp/common.hpp
index ff19c91..81860f5 100644
--- a/include/novatel_edie/decoders/oem/rangecmp/common.hpp
+++ b/include/novatel_edie/decoders/oem/rangecmp/common.hpp
@@ -575,6 +575,7 @@ constexpr double SignalScaling(SYSTEM system, SIGNAL_TYPE signal)
         {
         case SIGNAL_TYPE::GPS_L1C: [[fallthrough]];
         case SIGNAL_TYPE::GPS_L1CA: return 1.0;
+        case SIGNAL_TYPE::GPS_L2P: [[fallthrough]];
         case SIGNAL_TYPE::GPS_L2Y: [[fallthrough]];
         case SIGNAL_TYPE::GPS_L2CM: return 154.0 / 120.0;
         case SIGNAL_TYPE::GPS_L5Q: return 154.0 / 115.0;
-- 
2.43.0


From 0905f0379d0d8cc1fc4d7711b728a86bc192f155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:04 +0000
Subject: [PATCH 48/70] fix: RANGECMP carrier phase of GLONASS signals uses the
 wavelength of their own channel, and no wavelength is divided by when unknown

---
 src/decoders/oem/src/rangecmp/range_decompressor.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/decoders/oem/src/rangecmp/range_decompressor.cpp b/src/decoders/oem/src/rangecmp/range_decompressor.cpp
index 4d0c170..5167cf1 100644
--- a/src/decoders/oem/src/rangecmp/range_decompressor.cpp
+++ b/src/decoders/oem/src/rangecmp/range_decompressor.cpp
@@ -413,10 +413,13 @@ void RangeDecompressor::RangeCmpToRange(const rangecmp::RangeCmp& stRangeCmpMess
         stRangeData.fCNo = GetBitfield<uint32_t, CNO_MASK>(stRangeCmpData.uiLockTimeCNoGloFreq) + CNO_SCALE_OFFSET;
         stRangeData.sGlonassFrequency = GetBitfield<int16_t, GLONASS_FREQUENCY_MASK>(stRangeCmpData.uiLockTimeCNoGloFreq);
 
-        double dWavelength = stCtStatus.GetSignalWavelength(stRangeData.sGlonassFrequency + GLONASS_FREQUENCY_NUMBER_OFFSET);
+        double dWavelength = stCtStatus.GetSignalWavelength(stRangeData.sGlonassFrequency);
         stRangeData.dAdr = stRangeCmpData.uiAdr / ADR_SCALE_FACTOR;
-        double dAdrRolls = (stRangeData.dPsr / dWavelength + stRangeData.dAdr) / MAX_VALUE;
-        stRangeData.dAdr -= MAX_VALUE * static_cast<uint64_t>(std::round(dAdrRolls));
+        if (dWavelength > 0.0)
+        {
+            double dAdrRolls = (stRangeData.dPsr / dWavelength + stRangeData.dAdr) / MAX_VALUE;
+            stRangeData.dAdr -= MAX_VALUE * static_cast<uint64_t>(std::round(dAdrRolls));
+        }
     }
 }
 
-- 
2.43.0


From 365db69b1461ffa68ffeb1228ff4aa342751ec28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:04 +0000
Subject: [PATCH 49/70] fix: extended lock times continue across the end of a
 week

---
 .../decoders/oem/rangecmp/common.hpp          |  2 ++
 .../oem/src/rangecmp/range_decompressor.cpp   | 22 ++++++++++++++++---
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/include/novatel_edie/decoders/oem/rangecmp/common.hpp b/include/novatel_edie/decoders/oem/rangecmp/common.hpp
index 81860f5..547ae51 100644
--- a/include/novatel_edie/decoders/oem/rangecmp/common.hpp
+++ b/include/novatel_edie/decoders/oem/rangecmp/common.hpp
@@ -494,6 +494,7 @@ struct SignalBlock
 struct LockTimeInfo
 {
     double dLockTimeSaturatedMilliseconds{0.0}; // The time (milliseconds from OEM header) at which the lock time became saturated.
+    uint16_t usLockTimeSaturatedWeek{0};        // The week (from OEM header) in which the lock time became saturated.
     bool bLockTimeSaturated{false};             // A flag to verify if dLockTimeSaturatedMilliseconds has been set.
 };
 
@@ -758,6 +759,7 @@ struct LockTimeInfo
 {
     double dMilliseconds{0.0};                           // The current running lock time for this observation.
     double dLastBitfieldChangeMilliseconds{0.0};         // The last time (milliseconds from OEM header) lock time was updated.
+    uint16_t usLastBitfieldChangeWeek{0};                // The week (from OEM header) in which lock time was updated.
     uint8_t ucBits{std::numeric_limits<uint8_t>::max()}; // The last recorded bit pattern.
     bool bAbsolute{false};                               // Is the lock time absolute or relative?
 };
diff --git a/src/decoders/oem/src/rangecmp/range_decompressor.cpp b/src/decoders/oem/src/rangecmp/range_decompressor.cpp
index 5167cf1..cbf732a 100644
--- a/src/decoders/oem/src/rangecmp/range_decompressor.cpp
+++ b/src/decoders/oem/src/rangecmp/range_decompressor.cpp
@@ -58,6 +58,13 @@ void RangeDecompressor::LoadJsonDb(MessageDatabase::Ptr pclJsonDb_)
     clMyEncoder.LoadJsonDb(pclJsonDb_);
 }
 
+//------------------------------------------------------------------------------
+static double MillisecondsSince(const MetaDataStruct& stMetaData_, uint16_t usWeek_, double dMilliseconds_)
+{
+    constexpr double millisecondsPerWeek = 7.0 * 24.0 * 3600.0 * SEC_TO_MILLI_SEC;
+    return (static_cast<int32_t>(stMetaData_.usWeek) - static_cast<int32_t>(usWeek_)) * millisecondsPerWeek + (stMetaData_.dMilliseconds - dMilliseconds_);
+}
+
 //------------------------------------------------------------------------------
 // The lock time can only report up to 131071ms (0x1FFFF). If this value is
 // reached, the lock time must continue to increment. Once the saturated value
@@ -81,11 +88,15 @@ double RangeDecompressor::GetRangeCmp2LockTime(const MetaDataStruct& stMetaData_
     if (uiLockTimeBits_ == SIG_LOCKTIME_MASK >> Lsb(SIG_LOCKTIME_MASK))
     {
         // If the lock time was already saturated, use the stored time to add the missing offset.
-        if (stLockTimeInfo.bLockTimeSaturated) { dLockTimeMilliseconds += stMetaData_.dMilliseconds - stLockTimeInfo.dLockTimeSaturatedMilliseconds; }
+        if (stLockTimeInfo.bLockTimeSaturated)
+        {
+            dLockTimeMilliseconds += MillisecondsSince(stMetaData_, stLockTimeInfo.usLockTimeSaturatedWeek, stLockTimeInfo.dLockTimeSaturatedMilliseconds);
+        }
         // If the lock time is not already saturated, store this information if this observation is seen again.
         else
         {
             stLockTimeInfo.dLockTimeSaturatedMilliseconds = stMetaData_.dMilliseconds;
+            stLockTimeInfo.usLockTimeSaturatedWeek = stMetaData_.usWeek;
             stLockTimeInfo.bLockTimeSaturated = true;
         }
     }
@@ -188,6 +199,7 @@ double RangeDecompressor::GetRangeCmp4LockTime(const MetaDataStruct& stMetaData_
 
         // Record the last bit change and the bitfield that was changed to.
         stLockTimeInfo.dLastBitfieldChangeMilliseconds = stMetaData_.dMilliseconds;
+        stLockTimeInfo.usLastBitfieldChangeWeek = stMetaData_.usWeek;
         stLockTimeInfo.ucBits = ucLockTimeBits_;
     }
     // If the lock time is absolute and the lock time bits have decreased, there was likely an outage.
@@ -196,6 +208,7 @@ double RangeDecompressor::GetRangeCmp4LockTime(const MetaDataStruct& stMetaData_
         // In the event of an outage of any kind, reset the lock time to relative.
         stLockTimeInfo.bAbsolute = false;
         stLockTimeInfo.dLastBitfieldChangeMilliseconds = stMetaData_.dMilliseconds;
+        stLockTimeInfo.usLastBitfieldChangeWeek = stMetaData_.usWeek;
         stLockTimeInfo.ucBits = ucLockTimeBits_;
 
         pclMyLogger->warn("Detected a lock time slip (perhaps caused by an outage) of {}ms at time {}w, {}ms.",
@@ -203,12 +216,15 @@ double RangeDecompressor::GetRangeCmp4LockTime(const MetaDataStruct& stMetaData_
     }
     // If the lock time is absolute and the bitfield hasn't changed within the expected time, reset the last change time
     else if (stLockTimeInfo.bAbsolute && ucLockTimeBits_ < 15 &&
-             stMetaData_.dMilliseconds - stLockTimeInfo.dLastBitfieldChangeMilliseconds > lockTime[ucLockTimeBits_ + 1])
+             MillisecondsSince(stMetaData_, stLockTimeInfo.usLastBitfieldChangeWeek, stLockTimeInfo.dLastBitfieldChangeMilliseconds) > lockTime[ucLockTimeBits_ + 1])
     {
         stLockTimeInfo.dLastBitfieldChangeMilliseconds = stMetaData_.dMilliseconds;
+        stLockTimeInfo.usLastBitfieldChangeWeek = stMetaData_.usWeek;
         pclMyLogger->warn("Expected a bit change much sooner at time {}w, {}ms.", stMetaData_.usWeek, stMetaData_.dMilliseconds);
     }
-    stLockTimeInfo.dMilliseconds = stMetaData_.dMilliseconds - stLockTimeInfo.dLastBitfieldChangeMilliseconds + lockTime[stLockTimeInfo.ucBits];
+    stLockTimeInfo.dMilliseconds =
+        MillisecondsSince(stMetaData_, stLockTimeInfo.usLastBitfieldChangeWeek, stLockTimeInfo.dLastBitfieldChangeMilliseconds) +
+        lockTime[stLockTimeInfo.ucBits];
     return stLockTimeInfo.dMilliseconds / SEC_TO_MILLI_SEC;
 }
 
-- 
2.43.0


From 79b53560b412b2b54e95901323f4a13989a55236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:18 +0000
Subject: [PATCH 50/70] fix: a fall of the RANGECMP4 lock time class is noticed
 after any number of rises

---
 include/novatel_edie/decoders/oem/rangecmp/common.hpp | 1 +
 src/decoders/oem/src/rangecmp/range_decompressor.cpp  | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/novatel_edie/decoders/oem/rangecmp/common.hpp b/include/novatel_edie/decoders/oem/rangecmp/common.hpp
index 547ae51..da30f37 100644
--- a/include/novatel_edie/decoders/oem/rangecmp/common.hpp
+++ b/include/novatel_edie/decoders/oem/rangecmp/common.hpp
@@ -761,6 +761,7 @@ struct LockTimeInfo
     double dLastBitfieldChangeMilliseconds{0.0};         // The last time (milliseconds from OEM header) lock time was updated.
     uint16_t usLastBitfieldChangeWeek{0};                // The week (from OEM header) in which lock time was updated.
     uint8_t ucBits{std::numeric_limits<uint8_t>::max()}; // The last recorded bit pattern.
+    uint8_t ucLastBits{std::numeric_limits<uint8_t>::max()}; // The bit pattern of the previous observation.
     bool bAbsolute{false};                               // Is the lock time absolute or relative?
 };
 
diff --git a/src/decoders/oem/src/rangecmp/range_decompressor.cpp b/src/decoders/oem/src/rangecmp/range_decompressor.cpp
index cbf732a..8245033 100644
--- a/src/decoders/oem/src/rangecmp/range_decompressor.cpp
+++ b/src/decoders/oem/src/rangecmp/range_decompressor.cpp
@@ -203,7 +203,7 @@ double RangeDecompressor::GetRangeCmp4LockTime(const MetaDataStruct& stMetaData_
         stLockTimeInfo.ucBits = ucLockTimeBits_;
     }
     // If the lock time is absolute and the lock time bits have decreased, there was likely an outage.
-    else if (ucLockTimeBits_ < stLockTimeInfo.ucBits)
+    else if (ucLockTimeBits_ < stLockTimeInfo.ucLastBits)
     {
         // In the event of an outage of any kind, reset the lock time to relative.
         stLockTimeInfo.bAbsolute = false;
@@ -222,6 +222,7 @@ double RangeDecompressor::GetRangeCmp4LockTime(const MetaDataStruct& stMetaData_
         stLockTimeInfo.usLastBitfieldChangeWeek = stMetaData_.usWeek;
         pclMyLogger->warn("Expected a bit change much sooner at time {}w, {}ms.", stMetaData_.usWeek, stMetaData_.dMilliseconds);
     }
+    stLockTimeInfo.ucLastBits = ucLockTimeBits_;
     stLockTimeInfo.dMilliseconds =
         MillisecondsSince(stMetaData_, stLockTimeInfo.usLastBitfieldChangeWeek, stLockTimeInfo.dLastBitfieldChangeMilliseconds) +
         lockTime[stLockTimeInfo.ucBits];
-- 
2.43.0


From 0ab96ad03b620c71ee7a94f78be5b660ca291d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:28 +0000
Subject: [PATCH 51/70] fix: a command longer than a message is not copied past
 the end of a buffer

---
 src/decoders/oem/src/commander.cpp | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/src/decoders/oem/src/commander.cpp b/src/decoders/oem/src/commander.cpp
index 7974972..dd3a17b 100644
--- a/src/decoders/oem/src/commander.cpp
+++ b/src/decoders/oem/src/commander.cpp
@@ -67,11 +67,6 @@ STATUS Commander::Encode(const char* pcAbbrevAsciiCommand_, const uint32_t uiAbb
     const std::string strCmdName = strAbbrevAsciiCommand.substr(0, ullPos);
     const std::string strCmdParams = strAbbrevAsciiCommand.substr(ullPos + 1);
 
-    char acCmdParams[MAX_ASCII_MESSAGE_LENGTH];
-    char* pcCmdParams = acCmdParams;
-    std::copy(strCmdParams.begin(), strCmdParams.end(), acCmdParams);
-    acCmdParams[strCmdParams.size()] = '\0';
-
     if (pclMyMsgDb == nullptr) { return STATUS::NO_DATABASE; }
 
     MessageDefinition::ConstPtr pclMessageDef = pclMyMsgDb->GetMsgDef(strCmdName);
@@ -87,7 +82,7 @@ STATUS Commander::Encode(const char* pcAbbrevAsciiCommand_, const uint32_t uiAbb
     stMetaData.usMessageId = static_cast<uint16_t>(pclMessageDef->logID);
     stMetaData.uiMessageCrc = static_cast<uint32_t>(pclMessageDef->fieldInfo.begin()->first);
 
-    STATUS eStatus = clMyMessageDecoder.Decode(reinterpret_cast<unsigned char*>(pcCmdParams), stIntermediateMessage, stMetaData);
+    STATUS eStatus = clMyMessageDecoder.Decode(reinterpret_cast<const unsigned char*>(strCmdParams.c_str()), stIntermediateMessage, stMetaData);
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
 
     // Prime the intermediate header with information we already know
@@ -124,11 +119,6 @@ STATUS Commander::Encode(const MessageDatabase& clJsonDb_, const MessageDecoder&
     const std::string strCmdName = strAbbrevAsciiCommand.substr(0, ullPos);
     const std::string strCmdParams = strAbbrevAsciiCommand.substr(ullPos + 1);
 
-    unsigned char acCmdParams[MAX_ASCII_MESSAGE_LENGTH];
-    unsigned char* pucCmdParams = acCmdParams;
-    std::copy(strCmdParams.begin(), strCmdParams.end(), acCmdParams);
-    acCmdParams[strCmdParams.size()] = '\0';
-
     MessageDefinition::ConstPtr pclMessageDef = clJsonDb_.GetMsgDef(strCmdName);
     if (!pclMessageDef) { return STATUS::NO_DEFINITION; }
 
@@ -142,7 +132,8 @@ STATUS Commander::Encode(const MessageDatabase& clJsonDb_, const MessageDecoder&
     stMetaData.usMessageId = static_cast<uint16_t>(pclMessageDef->logID);
     stMetaData.uiMessageCrc = static_cast<uint32_t>(pclMessageDef->fieldInfo.begin()->first);
 
-    const STATUS eDecoderStatus = clMessageDecoder_.Decode(pucCmdParams, stIntermediateMessage, stMetaData);
+    const STATUS eDecoderStatus =
+        clMessageDecoder_.Decode(reinterpret_cast<const unsigned char*>(strCmdParams.c_str()), stIntermediateMessage, stMetaData);
     if (eDecoderStatus != STATUS::SUCCESS) { return eDecoderStatus; }
 
     // Prime the intermediate header with information we already know
-- 
2.43.0


From 65993a219b0b353265b26255923130fe19b26cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:28 +0000
Subject: [PATCH 52/70] fix: a command without parameters does not take its
 name for a parameter

---
 src/decoders/oem/src/commander.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decoders/oem/src/commander.cpp b/src/decoders/oem/src/commander.cpp
index dd3a17b..be012bd 100644
--- a/src/decoders/oem/src/commander.cpp
+++ b/src/decoders/oem/src/commander.cpp
@@ -65,7 +65,7 @@ STATUS Commander::Encode(const char* pcAbbrevAsciiCommand_, const uint32_t uiAbb
     const auto strAbbrevAsciiCommand = std::string(pcAbbrevAsciiCommand_, uiAbbrevAsciiCommandLength_);
     const size_t ullPos = strAbbrevAsciiCommand.find_first_of(' ');
     const std::string strCmdName = strAbbrevAsciiCommand.substr(0, ullPos);
-    const std::string strCmdParams = strAbbrevAsciiCommand.substr(ullPos + 1);
+    const std::string strCmdParams = ullPos == std::string::npos ? std::string() : strAbbrevAsciiCommand.substr(ullPos + 1);
 
     if (pclMyMsgDb == nullptr) { return STATUS::NO_DATABASE; }
 
@@ -117,7 +117,7 @@ STATUS Commander::Encode(const MessageDatabase& clJsonDb_, const MessageDecoder&
     const auto strAbbrevAsciiCommand = std::string(pcAbbrevAsciiCommand_, uiAbbrevAsciiCommandLength_);
     const size_t ullPos = strAbbrevAsciiCommand.find_first_of(' ');
     const std::string strCmdName = strAbbrevAsciiCommand.substr(0, ullPos);
-    const std::string strCmdParams = strAbbrevAsciiCommand.substr(ullPos + 1);
+    const std::string strCmdParams = ullPos == std::string::npos ? std::string() : strAbbrevAsciiCommand.substr(ullPos + 1);
 
     MessageDefinition::ConstPtr pclMessageDef = clJsonDb_.GetMsgDef(strCmdName);
     if (!pclMessageDef) { return STATUS::NO_DEFINITION; }
-- 
2.43.0


From 4103b2654ddeb6724e7dabc158401d06c6040b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:28 +0000
Subject: [PATCH 53/70] fix: loading a database into a commander loads its
 decoder and encoder too

---
 src/decoders/oem/src/commander.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/decoders/oem/src/commander.cpp b/src/decoders/oem/src/commander.cpp
index be012bd..8b4aaa6 100644
--- a/src/decoders/oem/src/commander.cpp
+++ b/src/decoders/oem/src/commander.cpp
@@ -30,7 +30,7 @@ using namespace novatel::edie;
 using namespace novatel::edie::oem;
 
 // -------------------------------------------------------------------------------------------------------
-Commander::Commander(MessageDatabase::Ptr pclMessageDb_) : clMyMessageDecoder(pclMessageDb_), clMyEncoder(pclMessageDb_)
+Commander::Commander(MessageDatabase::Ptr pclMessageDb_)
 {
     pclMyLogger->debug("Commander initializing...");
     if (pclMessageDb_ != nullptr) { LoadJsonDb(pclMessageDb_); }
@@ -41,6 +41,8 @@ Commander::Commander(MessageDatabase::Ptr pclMessageDb_) : clMyMessageDecoder(pc
 void Commander::LoadJsonDb(MessageDatabase::Ptr pclMessageDb_)
 {
     pclMyMsgDb = pclMessageDb_;
+    clMyMessageDecoder.LoadJsonDb(pclMessageDb_);
+    clMyEncoder.LoadJsonDb(pclMessageDb_);
     InitEnumDefinitions();
 }
 
-- 
2.43.0


From 0920a53751c93e4e1e8ec5641e6dd59418a8546d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:28 +0000
Subject: [PATCH 54/70] fix: commands use the newest definition of their
 message

---
 src/decoders/oem/src/commander.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decoders/oem/src/commander.cpp b/src/decoders/oem/src/commander.cpp
index 8b4aaa6..94ae525 100644
--- a/src/decoders/oem/src/commander.cpp
+++ b/src/decoders/oem/src/commander.cpp
@@ -82,7 +82,7 @@ STATUS Commander::Encode(const char* pcAbbrevAsciiCommand_, const uint32_t uiAbb
     // Prime the metadata with information we already know
     stMetaData.eFormat = HEADER_FORMAT::ABB_ASCII;
     stMetaData.usMessageId = static_cast<uint16_t>(pclMessageDef->logID);
-    stMetaData.uiMessageCrc = static_cast<uint32_t>(pclMessageDef->fieldInfo.begin()->first);
+    stMetaData.uiMessageCrc = pclMessageDef->latestMessageCrc;
 
     STATUS eStatus = clMyMessageDecoder.Decode(reinterpret_cast<const unsigned char*>(strCmdParams.c_str()), stIntermediateMessage, stMetaData);
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
@@ -132,7 +132,7 @@ STATUS Commander::Encode(const MessageDatabase& clJsonDb_, const MessageDecoder&
     // Prime the metadata with information we already know
     stMetaData.eFormat = HEADER_FORMAT::ABB_ASCII;
     stMetaData.usMessageId = static_cast<uint16_t>(pclMessageDef->logID);
-    stMetaData.uiMessageCrc = static_cast<uint32_t>(pclMessageDef->fieldInfo.begin()->first);
+    stMetaData.uiMessageCrc = pclMessageDef->latestMessageCrc;
 
     const STATUS eDecoderStatus =
         clMessageDecoder_.Decode(reinterpret_cast<const unsigned char*>(strCmdParams.c_str()), stIntermediateMessage, stMetaData);
-- 
2.43.0


From 21214e93a765a0ffa09c5f5acd3eee33b1efa404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:28 +0000
Subject: [PATCH 55/70] fix: an abbreviated ASCII string may begin with a comma
 or an asterisk

---
 src/decoders/common/src/message_decoder.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/decoders/common/src/message_decoder.cpp b/src/decoders/common/src/message_decoder.cpp
index d7e89cc..b63eadf 100644
--- a/src/decoders/common/src/message_decoder.cpp
+++ b/src/decoders/common/src/message_decoder.cpp
@@ -583,7 +583,8 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
             break;
         }
         case FIELD_TYPE::STRING:
-            switch (**ppcLogBuf_)
+            // A string without quotes may begin with a comma or an asterisk where neither ends a field
+            switch (Abbreviated && **ppcLogBuf_ != '"' ? '\0' : **ppcLogBuf_)
             {
             case ',': [[fallthrough]];
             case '*':
-- 
2.43.0


From 1df821542c677123029c3052c6fdef7b5f4b37b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:27 +0000
Subject: [PATCH 56/70] fix: an RXCONFIG payload shorter than its checksums is
 malformed

---
 src/decoders/oem/src/rxconfig/rxconfig_handler.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp b/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
index 2cf6ff6..a5254fc 100644
--- a/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
+++ b/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
@@ -123,6 +123,7 @@ STATUS RxConfigHandler::Decode(const unsigned char* pucMessage_, CompositeField&
 
     const unsigned char* pucTempMessagePointer = pucMessage_;
     std::vector<uint8_t> stEmbeddedMessageData;
+    if (stRxConfigMetaData_.uiLength < stRxConfigMetaData_.uiHeaderLength) { return STATUS::MALFORMED_INPUT; }
     uint32_t uiTotalPayloadSize = stRxConfigMetaData_.uiLength - stRxConfigMetaData_.uiHeaderLength;
     stInterMessage_ = CompositeField(0, 1);
     stInterMessage_.SetFieldInfo(pclMyMsgDb != nullptr ? pclMyMsgDb->GetMsgDef(stRxConfigMetaData_.usMessageId) : nullptr,
@@ -136,7 +137,7 @@ STATUS RxConfigHandler::Decode(const unsigned char* pucMessage_, CompositeField&
     case HEADER_FORMAT::ABB_ASCII: {
         // Fix embedded header indentation
         const auto* pcTempBuffer = reinterpret_cast<const char*>(pucTempMessagePointer);
-        ConsumeAbbrevFormatting(&pcTempBuffer);
+        ConsumeAbbrevFormatting(&pcTempBuffer, pcTempBuffer + uiTotalPayloadSize);
         pucTempMessagePointer = reinterpret_cast<const unsigned char*>(pcTempBuffer);
         stEmbeddedMessageData.emplace_back(static_cast<uint8_t>(OEM4_ABBREV_ASCII_SYNC));
         uiCopyableEmbeddedMsgBytes = uiTotalPayloadSize - (pucTempMessagePointer - pucMessage_);
@@ -144,11 +145,14 @@ STATUS RxConfigHandler::Decode(const unsigned char* pucMessage_, CompositeField&
     }
     case HEADER_FORMAT::ASCII: {
         // Ignore {CRC}*{CRC}\r\n at end of buffer
-        uiCopyableEmbeddedMsgBytes = uiTotalPayloadSize - OEM4_ASCII_CRC_LENGTH - 1 - OEM4_ASCII_CRC_LENGTH - 2;
+        constexpr uint32_t uiTrailerSize = OEM4_ASCII_CRC_LENGTH + 1 + OEM4_ASCII_CRC_LENGTH + 2;
+        if (uiTotalPayloadSize < uiTrailerSize) { return STATUS::MALFORMED_INPUT; }
+        uiCopyableEmbeddedMsgBytes = uiTotalPayloadSize - uiTrailerSize;
         break;
     }
     case HEADER_FORMAT::BINARY: {
         // Ignore CRCs at end of buffer
+        if (uiTotalPayloadSize < 2 * OEM4_BINARY_CRC_LENGTH) { return STATUS::MALFORMED_INPUT; }
         uiCopyableEmbeddedMsgBytes = uiTotalPayloadSize - 2 * OEM4_BINARY_CRC_LENGTH;
         break;
     }
-- 
2.43.0


From 1bb4e6d314e69ad994fd8b54bfd3e3583b801fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:27 +0000
Subject: [PATCH 57/70] fix: the checksum of an embedded ASCII message keeps
 its leading zeros

---
 src/decoders/oem/src/rxconfig/rxconfig_handler.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp b/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
index a5254fc..a258228 100644
--- a/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
+++ b/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
@@ -175,9 +175,14 @@ STATUS RxConfigHandler::Decode(const unsigned char* pucMessage_, CompositeField&
     {
     case HEADER_FORMAT::ASCII: {
         // invert ascii crc
-        const uint32_t uiCRC = strtoul(reinterpret_cast<const char*>(pucTempMessagePointer), nullptr, 16) ^ 0xFFFFFFFF;
+        const auto* pcCrc = reinterpret_cast<const char*>(pucTempMessagePointer);
+        uint32_t uiCRC = 0;
+        const auto stResult = std::from_chars(pcCrc, pcCrc + OEM4_ASCII_CRC_LENGTH, uiCRC, 16);
+        if (stResult.ec != std::errc() || stResult.ptr != pcCrc + OEM4_ASCII_CRC_LENGTH) { return STATUS::MALFORMED_INPUT; }
         char pucCRC[OEM4_ASCII_CRC_LENGTH];
-        std::to_chars(pucCRC, pucCRC + OEM4_ASCII_CRC_LENGTH, uiCRC, 16);
+        char* pcCrcBuffer = pucCRC;
+        uint32_t uiCrcBufferSize = OEM4_ASCII_CRC_LENGTH;
+        if (!WriteHexToBuffer(&pcCrcBuffer, uiCrcBufferSize, uiCRC ^ 0xFFFFFFFF, OEM4_ASCII_CRC_LENGTH)) { return STATUS::FAILURE; }
         for (auto c : pucCRC) { stEmbeddedMessageData.emplace_back(static_cast<uint8_t>(c)); }
         stEmbeddedMessageData.emplace_back(static_cast<uint8_t>('\r'));
         stEmbeddedMessageData.emplace_back(static_cast<uint8_t>('\n'));
-- 
2.43.0


From 58fce26ba34b8a305634dacc197e0b8fd58ebce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:27 +0000
Subject: [PATCH 58/70] fix: the checksum of an embedded binary message is
 little-endian

---
 src/decoders/oem/src/rxconfig/rxconfig_handler.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp b/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
index a258228..cf7c876 100644
--- a/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
+++ b/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
@@ -190,10 +190,10 @@ STATUS RxConfigHandler::Decode(const unsigned char* pucMessage_, CompositeField&
     }
     case HEADER_FORMAT::BINARY: {
         auto uiCRC = LoadValueFromBuffer<uint32_t>(pucTempMessagePointer) ^ 0xFFFFFFFF;
-        stEmbeddedMessageData.emplace_back(static_cast<uint8_t>(uiCRC >> 24));
-        stEmbeddedMessageData.emplace_back(static_cast<uint8_t>(uiCRC >> 16));
-        stEmbeddedMessageData.emplace_back(static_cast<uint8_t>(uiCRC >> 8));
         stEmbeddedMessageData.emplace_back(static_cast<uint8_t>(uiCRC));
+        stEmbeddedMessageData.emplace_back(static_cast<uint8_t>(uiCRC >> 8));
+        stEmbeddedMessageData.emplace_back(static_cast<uint8_t>(uiCRC >> 16));
+        stEmbeddedMessageData.emplace_back(static_cast<uint8_t>(uiCRC >> 24));
         break;
     }
     default: break;
-- 
2.43.0


From f79077624749b60982a87e7b93e08d0bb6c32bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:27 +0000
Subject: [PATCH 59/70] fix: decode embedded RXCONFIG data within its bounds

---
 src/decoders/oem/src/rxconfig/rxconfig_handler.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp b/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
index cf7c876..95c70ba 100644
--- a/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
+++ b/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
@@ -427,12 +427,23 @@ STATUS RxConfigHandler::Encode(unsigned char* const* ppucBuffer_, uint32_t uiBuf
     if (stMessage_.GetFieldInfo() == nullptr) { return STATUS::MALFORMED_INPUT; }
     const auto& fieldDefinitions = stMessage_.GetFieldInfo()->messageOrderedFields;
     if (fieldDefinitions.empty()) { return STATUS::MALFORMED_INPUT; }
-    const auto fieldValue = stMessage_.GetFieldValue<std::vector<uint8_t>>(*fieldDefinitions.at(0));
+    auto fieldValue = stMessage_.GetFieldValue<std::vector<uint8_t>>(*fieldDefinitions.at(0));
+    const auto uiEmbeddedDataSize = static_cast<uint32_t>(fieldValue.size());
+    // Text must be terminated, and the header decoder may read as much as a binary header
+    fieldValue.resize(uiEmbeddedDataSize + sizeof(Oem4BinaryHeader));
     const auto* pucEmbeddedDataBuffer = reinterpret_cast<const unsigned char*>(fieldValue.data());
 
     eStatus = clMyHeaderDecoder.Decode(pucEmbeddedDataBuffer, stEmbeddedHeader, stEmbeddedMetaData_);
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
 
+    if (stEmbeddedMetaData_.uiHeaderLength > uiEmbeddedDataSize) { return STATUS::MALFORMED_INPUT; }
+    if ((stEmbeddedMetaData_.eFormat == HEADER_FORMAT::BINARY || stEmbeddedMetaData_.eFormat == HEADER_FORMAT::SHORT_BINARY) &&
+        stEmbeddedMetaData_.uiBinaryMsgLength > uiEmbeddedDataSize - stEmbeddedMetaData_.uiHeaderLength)
+    {
+        return STATUS::MALFORMED_INPUT;
+    }
+    stEmbeddedMetaData_.uiLength = uiEmbeddedDataSize;
+
     eStatus = clMyMessageDecoder.Decode(pucEmbeddedDataBuffer + stEmbeddedMetaData_.uiHeaderLength, stEmbeddedMessage, stEmbeddedMetaData_);
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
 
-- 
2.43.0


From 5ad25699eceadf0bb370ca1a3801b08b0055e97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:27 +0000
Subject: [PATCH 60/70] fix: encoding RXCONFIG stays within the size of its
 buffer

---
 src/decoders/oem/src/rxconfig/rxconfig_handler.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp b/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
index 95c70ba..ecfddc3 100644
--- a/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
+++ b/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
@@ -228,6 +228,7 @@ STATUS RxConfigHandler::EncodeJSON(unsigned char* const* ppucBuffer_, uint32_t u
     eStatus = clMyEncoder.EncodeHeader(&pucTempEncodeBuffer, uiBufferSize_, stHeader_, stMessageData_, HEADER_FORMAT::BINARY, ENCODE_FORMAT::JSON);
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
     pucTempEncodeBuffer += stMessageData_.uiMessageHeaderLength;
+    uiBufferSize_ -= stMessageData_.uiMessageHeaderLength;
 
     // -- Encode RXConfig Body --
     if (!CopyToBuffer(&pucTempEncodeBuffer, uiBufferSize_, R"(,"body": )")) { return STATUS::BUFFER_FULL; }
@@ -238,6 +239,7 @@ STATUS RxConfigHandler::EncodeJSON(unsigned char* const* ppucBuffer_, uint32_t u
                                  stEmbeddedMetaData_.eFormat, ENCODE_FORMAT::JSON);
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
     pucTempEncodeBuffer += stEmbeddedMessageData_.uiMessageLength;
+    uiBufferSize_ -= stEmbeddedMessageData_.uiMessageLength;
     stMessageData_.uiMessageBodyLength = pucTempEncodeBuffer - stMessageData_.pucMessageBody;
 
     if (!CopyToBuffer(&pucTempEncodeBuffer, uiBufferSize_, '}')) { return STATUS::BUFFER_FULL; }
@@ -263,6 +265,7 @@ STATUS RxConfigHandler::EncodeAbbrevAscii(unsigned char* const* ppucBuffer_, uin
         clMyEncoder.EncodeHeader(&pucTempEncodeBuffer, uiBufferSize_, stHeader_, stMessageData_, HEADER_FORMAT::BINARY, ENCODE_FORMAT::ABBREV_ASCII);
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
     pucTempEncodeBuffer += stMessageData_.uiMessageHeaderLength;
+    uiBufferSize_ -= stMessageData_.uiMessageHeaderLength;
 
     // -- Encode Embedded Header --
     stEmbeddedMessageData_.pucMessage = pucTempEncodeBuffer;
@@ -277,6 +280,7 @@ STATUS RxConfigHandler::EncodeAbbrevAscii(unsigned char* const* ppucBuffer_, uin
                                        ENCODE_FORMAT::ABBREV_ASCII);
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
     pucTempEncodeBuffer += stEmbeddedMessageData_.uiMessageHeaderLength;
+    uiBufferSize_ -= stEmbeddedMessageData_.uiMessageHeaderLength;
 
     // remove sync byte at start of embedded message header
     stEmbeddedMessageData_.pucMessageHeader[0] = ' ';
@@ -320,6 +324,7 @@ STATUS RxConfigHandler::EncodeAscii(unsigned char* const* ppucBuffer_, uint32_t
         clMyEncoder.EncodeHeader(&pucTempEncodeBuffer, uiBufferSize_, stHeader_, stMessageData_, stEmbeddedMetaData_.eFormat, ENCODE_FORMAT::ASCII);
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
     pucTempEncodeBuffer += stMessageData_.uiMessageHeaderLength;
+    uiBufferSize_ -= stMessageData_.uiMessageHeaderLength;
 
     // -- Encode Embedded Message --
     stMessageData_.pucMessageBody = pucTempEncodeBuffer;
@@ -327,6 +332,7 @@ STATUS RxConfigHandler::EncodeAscii(unsigned char* const* ppucBuffer_, uint32_t
                                  stEmbeddedMetaData_.eFormat, ENCODE_FORMAT::ASCII);
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
     pucTempEncodeBuffer += stEmbeddedMessageData_.uiMessageLength;
+    uiBufferSize_ -= stEmbeddedMessageData_.uiMessageLength;
 
     // -- Write CRC --
 
@@ -371,6 +377,7 @@ STATUS RxConfigHandler::EncodeBinary(unsigned char* const* ppucBuffer_, uint32_t
         clMyEncoder.EncodeHeader(&pucTempEncodeBuffer, uiBufferSize_, stHeader_, stMessageData_, stEmbeddedMetaData_.eFormat, ENCODE_FORMAT::BINARY);
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
     pucTempEncodeBuffer += stMessageData_.uiMessageHeaderLength;
+    uiBufferSize_ -= stMessageData_.uiMessageHeaderLength;
 
     // -- Encode Embedded Message --
     stMessageData_.pucMessageBody = pucTempEncodeBuffer;
@@ -378,6 +385,7 @@ STATUS RxConfigHandler::EncodeBinary(unsigned char* const* ppucBuffer_, uint32_t
                                  stEmbeddedMetaData_.eFormat, ENCODE_FORMAT::BINARY);
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
     pucTempEncodeBuffer += stEmbeddedMessageData_.uiMessageLength;
+    uiBufferSize_ -= stEmbeddedMessageData_.uiMessageLength;
 
     // -- Write CRC --
     // Backtrack over CRC
-- 
2.43.0


From 5d90b7abd985460d3bcd1d918ed4ce0863f0ba82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:43 +0000
Subject: [PATCH 61/70] fix: RXCONFIG keeps its own header form when it embeds
 a short header

---
 .../oem/src/rxconfig/rxconfig_handler.cpp       | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp b/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
index ecfddc3..8357f8f 100644
--- a/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
+++ b/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
@@ -321,7 +321,7 @@ STATUS RxConfigHandler::EncodeAscii(unsigned char* const* ppucBuffer_, uint32_t
     // Abuse the fact that header format is only used for determining whether the header is long or short
     stMessageData_.pucMessageHeader = *ppucBuffer_;
     eStatus =
-        clMyEncoder.EncodeHeader(&pucTempEncodeBuffer, uiBufferSize_, stHeader_, stMessageData_, stEmbeddedMetaData_.eFormat, ENCODE_FORMAT::ASCII);
+        clMyEncoder.EncodeHeader(&pucTempEncodeBuffer, uiBufferSize_, stHeader_, stMessageData_, HEADER_FORMAT::ASCII, ENCODE_FORMAT::ASCII);
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
     pucTempEncodeBuffer += stMessageData_.uiMessageHeaderLength;
     uiBufferSize_ -= stMessageData_.uiMessageHeaderLength;
@@ -374,7 +374,7 @@ STATUS RxConfigHandler::EncodeBinary(unsigned char* const* ppucBuffer_, uint32_t
     // -- Encode RXConfig Header --
     stMessageData_.pucMessageHeader = *ppucBuffer_;
     eStatus =
-        clMyEncoder.EncodeHeader(&pucTempEncodeBuffer, uiBufferSize_, stHeader_, stMessageData_, stEmbeddedMetaData_.eFormat, ENCODE_FORMAT::BINARY);
+        clMyEncoder.EncodeHeader(&pucTempEncodeBuffer, uiBufferSize_, stHeader_, stMessageData_, HEADER_FORMAT::BINARY, ENCODE_FORMAT::BINARY);
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
     pucTempEncodeBuffer += stMessageData_.uiMessageHeaderLength;
     uiBufferSize_ -= stMessageData_.uiMessageHeaderLength;
@@ -391,11 +391,14 @@ STATUS RxConfigHandler::EncodeBinary(unsigned char* const* ppucBuffer_, uint32_t
     // Backtrack over CRC
     pucTempEncodeBuffer -= OEM4_BINARY_CRC_LENGTH;
     uiBufferSize_ += OEM4_BINARY_CRC_LENGTH;
-    // Fill in Embedded Binary Header length
-    uint32_t uiEmbeddedBodyLength = pucTempEncodeBuffer - stEmbeddedMessageData_.pucMessageBody;
-    auto stEmbeddedHeader = LoadValueFromBuffer<Oem4BinaryHeader>(stEmbeddedMessageData_.pucMessageHeader);
-    stEmbeddedHeader.usLength = static_cast<uint16_t>(uiEmbeddedBodyLength);
-    std::memcpy(stEmbeddedMessageData_.pucMessageHeader, &stEmbeddedHeader, sizeof(Oem4BinaryHeader));
+    // Fill in Embedded Binary Header length (a short header has its length from the encoder)
+    if (!IsShortHeaderFormat(stEmbeddedMetaData_.eFormat))
+    {
+        uint32_t uiEmbeddedBodyLength = pucTempEncodeBuffer - stEmbeddedMessageData_.pucMessageBody;
+        auto stEmbeddedHeader = LoadValueFromBuffer<Oem4BinaryHeader>(stEmbeddedMessageData_.pucMessageHeader);
+        stEmbeddedHeader.usLength = static_cast<uint16_t>(uiEmbeddedBodyLength);
+        std::memcpy(stEmbeddedMessageData_.pucMessageHeader, &stEmbeddedHeader, sizeof(Oem4BinaryHeader));
+    }
 
     // Fill in Regular Binary Header length
     uint32_t uiRxLength = pucTempEncodeBuffer - stMessageData_.pucMessageBody + OEM4_BINARY_CRC_LENGTH;
-- 
2.43.0


From b06aeab372f3f1251b4d887a6ddca6eea3d89bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:38 +0000
Subject: [PATCH 62/70] fix: terminate the framed message before the parser
 decodes it

The header decoder and the JSON decoder read text up to a NUL, so a short message was decoded with the stale bytes of an earlier one behind it.
---
 include/novatel_edie/decoders/oem/parser.hpp | 2 +-
 src/decoders/oem/src/parser.cpp              | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/novatel_edie/decoders/oem/parser.hpp b/include/novatel_edie/decoders/oem/parser.hpp
index c470ea8..2c4cb34 100644
--- a/include/novatel_edie/decoders/oem/parser.hpp
+++ b/include/novatel_edie/decoders/oem/parser.hpp
@@ -68,7 +68,7 @@ class Parser
 
     std::unique_ptr<unsigned char[]> pcMyEncodeBuffer{std::make_unique<unsigned char[]>(uiParserInternalBufferSize)};
     unsigned char* pucMyEncodeBufferPointer{nullptr};
-    std::unique_ptr<unsigned char[]> pcMyFrameBuffer{std::make_unique<unsigned char[]>(uiParserInternalBufferSize)};
+    std::unique_ptr<unsigned char[]> pcMyFrameBuffer{std::make_unique<unsigned char[]>(uiParserInternalBufferSize + 1)}; //!< One more for a terminator.
     unsigned char* pucMyFrameBufferPointer{nullptr};
 
     // Configuration options
diff --git a/src/decoders/oem/src/parser.cpp b/src/decoders/oem/src/parser.cpp
index f7164de..696eb08 100644
--- a/src/decoders/oem/src/parser.cpp
+++ b/src/decoders/oem/src/parser.cpp
@@ -138,6 +138,7 @@ Parser::ReadIntermediate(MessageDataStruct& stMessageData_, IntermediateHeader&
                 continue;
             }
 
+            pucMyFrameBufferPointer[stMetaData_.uiLength] = '\0'; //!< The text decoders rely on a terminated message.
             eStatus = clMyHeaderDecoder.Decode(pucMyFrameBufferPointer, stHeader_, stMetaData_);
             if (eStatus == STATUS::SUCCESS)
             {
-- 
2.43.0


From b4c893467cd3bceffa94f993269a127a4bfcd048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:38 +0000
Subject: [PATCH 63/70] fix: report the length of the decompressed message from
 the parser

---
 src/decoders/oem/src/parser.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/decoders/oem/src/parser.cpp b/src/decoders/oem/src/parser.cpp
index 696eb08..69d1300 100644
--- a/src/decoders/oem/src/parser.cpp
+++ b/src/decoders/oem/src/parser.cpp
@@ -148,7 +148,11 @@ Parser::ReadIntermediate(MessageDataStruct& stMessageData_, IntermediateHeader&
                 if (clMyRangeCmpFilter.DoFiltering(stMetaData_) && bMyDecompressRangeCmp)
                 {
                     eStatus = clMyRangeDecompressor.Decompress(pucMyFrameBufferPointer, uiParserInternalBufferSize, stMetaData_);
-                    if (eStatus == STATUS::SUCCESS) { stHeader_.usMessageId = stMetaData_.usMessageId; }
+                    if (eStatus == STATUS::SUCCESS)
+                    {
+                        stHeader_.usMessageId = stMetaData_.usMessageId;
+                        stMessageData_.uiMessageLength = stMetaData_.uiLength;
+                    }
                     else
                     {
                         pclMyLogger->info("RangeDecompressor returned status {}", eStatus);
-- 
2.43.0


From f48219ae6ccc84b091f97f87fe516fe37d56e772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:38 +0000
Subject: [PATCH 64/70] fix: return what the last read of a stream finds

Only a decoded message was returned; unknown bytes and messages without a definition at the end of a stream were dropped.
---
 include/novatel_edie/decoders/common/file_parser.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/novatel_edie/decoders/common/file_parser.hpp b/include/novatel_edie/decoders/common/file_parser.hpp
index 5e4aaae..2c4eec0 100644
--- a/include/novatel_edie/decoders/common/file_parser.hpp
+++ b/include/novatel_edie/decoders/common/file_parser.hpp
@@ -89,7 +89,8 @@ template <typename ParserT, typename FilterT, typename MetaDataT, typename Inter
                 if constexpr (std::is_invocable_v<ParserFunc, Args..., bool>)
                 {
                     // For OEM parser, make a final attempt to decode an incomplete abbreviated ASCII message from remaining bytes
-                    return parserFunc_(std::forward<Args>(args_)..., true) == STATUS::SUCCESS ? STATUS::SUCCESS : STATUS::STREAM_EMPTY;
+                    const STATUS eFinal = parserFunc_(std::forward<Args>(args_)..., true);
+                    return eFinal == STATUS::INCOMPLETE || eFinal == STATUS::BUFFER_EMPTY ? STATUS::STREAM_EMPTY : eFinal;
                 }
                 return STATUS::STREAM_EMPTY;
             }
-- 
2.43.0


From c715d3bc1862461d257311b52c7eee2de58d85b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:38 +0000
Subject: [PATCH 65/70] fix: reading from a file parser without a stream finds
 an empty one

---
 include/novatel_edie/decoders/common/file_parser.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/novatel_edie/decoders/common/file_parser.hpp b/include/novatel_edie/decoders/common/file_parser.hpp
index 2c4eec0..86a57e9 100644
--- a/include/novatel_edie/decoders/common/file_parser.hpp
+++ b/include/novatel_edie/decoders/common/file_parser.hpp
@@ -54,6 +54,7 @@ template <typename ParserT, typename FilterT, typename MetaDataT, typename Inter
 
     [[nodiscard]] bool ReadStream()
     {
+        if (pclMyInputStream == nullptr) { return false; }
         std::array<char, MAX_ASCII_MESSAGE_LENGTH> cData{};
         pclMyInputStream->read(cData.data(), std::min(cData.size(), clMyParser.GetAvailableSpace()));
         size_t ullBytesRead = pclMyInputStream->gcount();
-- 
2.43.0


From 00b3a5cfa21385449d26dfcf292263811d4dc6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:16 +0000
Subject: [PATCH 66/70] fix: report where the header and body of an abbreviated
 response are

The pointers were left as they were, null or into an earlier message.
---
 src/decoders/oem/src/encoder.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/decoders/oem/src/encoder.cpp b/src/decoders/oem/src/encoder.cpp
index 55494ac..245a865 100644
--- a/src/decoders/oem/src/encoder.cpp
+++ b/src/decoders/oem/src/encoder.cpp
@@ -461,6 +461,8 @@ Encoder::Encode(unsigned char* const* ppucBuffer_, uint32_t uiBufferSize_, const
         stMessageData_.pucMessage = *ppucBuffer_;
         stMessageData_.uiMessageLength = pucTempEncodeBuffer - *ppucBuffer_;
         stMessageData_.uiMessageBodyLength = stMessageData_.uiMessageLength - stMessageData_.uiMessageHeaderLength;
+        stMessageData_.pucMessageHeader = stMessageData_.pucMessage;
+        stMessageData_.pucMessageBody = stMessageData_.pucMessage + stMessageData_.uiMessageHeaderLength;
 
         return STATUS::SUCCESS;
     }
-- 
2.43.0


From 6f0f494f0d03dee1adfd2f3855d65084ce0c99e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:16 +0000
Subject: [PATCH 67/70] fix: terminate the framed message before the RXCONFIG
 handler decodes it

---
 src/decoders/oem/src/rxconfig/rxconfig_handler.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp b/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
index 8357f8f..74fd30d 100644
--- a/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
+++ b/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
@@ -32,7 +32,7 @@ using namespace novatel::edie::oem;
 // -------------------------------------------------------------------------------------------------------
 RxConfigHandler::RxConfigHandler(const MessageDatabase::Ptr& pclMessageDb_)
     : clMyHeaderDecoder(pclMessageDb_), clMyMessageDecoder(pclMessageDb_), clMyEncoder(pclMessageDb_),
-      pcMyFrameBuffer(std::make_unique<unsigned char[]>(uiInternalBufferSize)),
+      pcMyFrameBuffer(std::make_unique<unsigned char[]>(uiInternalBufferSize + 1)),
       pcMyEncodeBuffer(std::make_unique<unsigned char[]>(uiInternalBufferSize))
 {
     pclMyLogger = GetBaseLoggerManager()->RegisterLogger("rxconfig_handler");
@@ -498,7 +498,8 @@ RxConfigHandler::Convert(MessageDataStruct& stRxConfigMessageData_, MetaDataStru
     if (eStatus == STATUS::BUFFER_EMPTY || eStatus == STATUS::INCOMPLETE) { return STATUS::BUFFER_EMPTY; }
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
 
-    // Decode the RXCONFIG log.
+    // Decode the RXCONFIG log. The text decoders rely on a terminated message.
+    pcMyFrameBuffer[stRxConfigMetaData_.uiLength] = '\0';
     eStatus = clMyHeaderDecoder.Decode(pcMyFrameBuffer.get(), stRxConfigHeader, stRxConfigMetaData_);
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
     pucTempMessagePointer += stRxConfigMetaData_.uiHeaderLength;
-- 
2.43.0


From be21d31c4071e1a333ffe99b8dd9c884332aafb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:41 +0000
Subject: [PATCH 68/70] fix: an abbreviated response does not keep the metadata
 of an earlier message

Its identifier and time decided whether a filter passed the response.
---
 src/decoders/oem/src/header_decoder.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/decoders/oem/src/header_decoder.cpp b/src/decoders/oem/src/header_decoder.cpp
index e102d8c..a6cf7a2 100644
--- a/src/decoders/oem/src/header_decoder.cpp
+++ b/src/decoders/oem/src/header_decoder.cpp
@@ -321,6 +321,13 @@ STATUS HeaderDecoder::Decode(const unsigned char* pucLogBuf_, IntermediateHeader
         {
             stMetaData_.bResponse = true;
             stMetaData_.messageName = "UNKNOWN";
+            stMetaData_.usMessageId = 0;
+            stMetaData_.uiMessageCrc = 0;
+            stMetaData_.usWeek = 0;
+            stMetaData_.dMilliseconds = 0.0;
+            stMetaData_.uiBinaryMsgLength = 0;
+            stMetaData_.ucSiblingId = NULL_SIBLING_ID;
+            stMetaData_.eTimeStatus = TIME_STATUS::UNKNOWN;
             stMetaData_.uiHeaderLength = static_cast<uint32_t>(pcTempBuf - reinterpret_cast<const char*>(pucLogBuf_));
             stInterHeader_.ucMessageType = static_cast<uint8_t>(MESSAGE_TYPE_MASK::RESPONSE);
 
-- 
2.43.0


From 517dbdabe773cf34f856ebd389461dac192f2c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:30 +0000
Subject: [PATCH 69/70] fix: reject numbers of a JSON database that do not fit
 their attribute

They were truncated: an enumerator of 4294967296 was loaded as 0, an array of 65537 byte elements as another size.
---
 src/decoders/common/src/json_db_reader.cpp | 25 +++++++++++++++-------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/decoders/common/src/json_db_reader.cpp b/src/decoders/common/src/json_db_reader.cpp
index 61b9bb2..2d80c3e 100644
--- a/src/decoders/common/src/json_db_reader.cpp
+++ b/src/decoders/common/src/json_db_reader.cpp
@@ -29,6 +29,7 @@
 #include <algorithm>
 #include <cassert>
 #include <future>
+#include <limits>
 #include <stdexcept>
 #include <string>
 
@@ -83,6 +84,14 @@ uint64_t AsUint(element el_)
     throw std::runtime_error("Expected an unsigned JSON integer value");
 }
 
+//! Read a JSON integer that must fit an unsigned type. Throws if it does not.
+template <typename T> T AsUintOf(element el_)
+{
+    const uint64_t u = AsUint(el_);
+    if (u > std::numeric_limits<T>::max()) { throw std::runtime_error("JSON integer value is out of range"); }
+    return static_cast<T>(u);
+}
+
 //! Read an optional string member, returning the default if the key is absent.
 std::string StringOr(element obj_, std::string_view key_, std::string_view default_)
 {
@@ -110,7 +119,7 @@ void ParseEnumerators(element j_, std::vector<EnumDataType>& vEnumerators_);
 //-----------------------------------------------------------------------
 void ParseEnumDataType(element j_, EnumDataType& f_)
 {
-    f_.value = static_cast<uint32_t>(AsUint(Member(j_, "value")));
+    f_.value = AsUintOf<uint32_t>(Member(j_, "value"));
     f_.name = AsString(Member(j_, "name"));
     f_.description = AsStringOrEmpty(Member(j_, "description"));
 }
@@ -120,7 +129,7 @@ void ParseSimpleDataType(element j_, SimpleDataType& f_)
 {
     const auto itrDataTypeMapping = DataTypeEnumLookup.find(std::string(AsStringView(Member(j_, "name"))));
     f_.name = itrDataTypeMapping != DataTypeEnumLookup.end() ? itrDataTypeMapping->second : DATA_TYPE::UNKNOWN;
-    f_.length = static_cast<uint16_t>(AsUint(Member(j_, "length")));
+    f_.length = AsUintOf<uint16_t>(Member(j_, "length"));
     f_.description = AsStringOrEmpty(Member(j_, "description"));
 }
 
@@ -159,11 +168,11 @@ void ParseArrayField(element j_, ArrayField& fd_)
 {
     ParseBaseField(j_, fd_);
 
-    fd_.arrayLength = static_cast<uint32_t>(AsUint(Member(j_, "arrayLength")));
+    fd_.arrayLength = AsUintOf<uint32_t>(Member(j_, "arrayLength"));
 
     element arrayLengthFieldSize;
     fd_.arrayLengthFieldSize =
-        j_["arrayLengthFieldSize"].get(arrayLengthFieldSize) == simdjson::SUCCESS ? static_cast<uint8_t>(AsUint(arrayLengthFieldSize)) : 4;
+        j_["arrayLengthFieldSize"].get(arrayLengthFieldSize) == simdjson::SUCCESS ? AsUintOf<uint8_t>(arrayLengthFieldSize) : 4;
 
     element arrayLengthRef;
     if (j_["arrayLengthRef"].get(arrayLengthRef) == simdjson::SUCCESS) { fd_.arrayLengthRef = AsStringOrEmpty(arrayLengthRef); }
@@ -175,11 +184,11 @@ void ParseFieldArrayField(element j_, FieldArrayField& fd_, const AlignFunction&
     ParseBaseField(j_, fd_);
 
     element arrayLength = Member(j_, "arrayLength");
-    fd_.arrayLength = arrayLength.is_null() ? 0 : static_cast<uint32_t>(AsUint(arrayLength));
+    fd_.arrayLength = arrayLength.is_null() ? 0 : AsUintOf<uint32_t>(arrayLength);
 
     element arrayLengthFieldSize;
     fd_.arrayLengthFieldSize =
-        j_["arrayLengthFieldSize"].get(arrayLengthFieldSize) == simdjson::SUCCESS ? static_cast<uint8_t>(AsUint(arrayLengthFieldSize)) : 4;
+        j_["arrayLengthFieldSize"].get(arrayLengthFieldSize) == simdjson::SUCCESS ? AsUintOf<uint8_t>(arrayLengthFieldSize) : 4;
 
     FieldInfo stFieldInfo{};
     fd_.fieldSize = fd_.arrayLength * ParseFields(Member(j_, "fields"), stFieldInfo, alignFn_);
@@ -251,7 +260,7 @@ uint32_t ParseFields(element j_, FieldInfo& vFields_, const AlignFunction& align
         {
             auto pstField = std::make_shared<ArrayField>();
             ParseArrayField(field, *pstField);
-            auto uiArrayLength = static_cast<uint32_t>(AsUint(Member(field, "arrayLength")));
+            auto uiArrayLength = AsUintOf<uint32_t>(Member(field, "arrayLength"));
             uiFieldSize += stDataType.length * uiArrayLength;
             if (sFieldType == "FIXED_LENGTH_ARRAY")
             {
@@ -304,7 +313,7 @@ std::vector<MessageDefinition::ConstPtr> ProcessMessageDefinitions(element jRoot
     {
         auto md = std::make_shared<MessageDefinition>();
         md->_id = AsString(Member(j_, "_id"));
-        md->logID = static_cast<uint32_t>(AsUint(Member(j_, "messageID"))); // this was "logID"
+        md->logID = AsUintOf<uint32_t>(Member(j_, "messageID")); // this was "logID"
         md->name = AsString(Member(j_, "name"));
         md->description = AsStringOrEmpty(Member(j_, "description"));
         md->latestMessageCrc = std::stoul(AsString(Member(j_, "latestMsgDefCrc")));
-- 
2.43.0


From a47f4d13ddd92aaecfe9d3290377c016177e4342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:30 +0000
Subject: [PATCH 70/70] fix: reject definition checksums of a JSON database
 that are no 32-bit numbers

std::stoul takes a sign and stops at the first character that is no digit, and larger values were truncated.
---
 src/decoders/common/src/json_db_reader.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/decoders/common/src/json_db_reader.cpp b/src/decoders/common/src/json_db_reader.cpp
index 2d80c3e..0fe03fe 100644
--- a/src/decoders/common/src/json_db_reader.cpp
+++ b/src/decoders/common/src/json_db_reader.cpp
@@ -28,6 +28,7 @@
 
 #include <algorithm>
 #include <cassert>
+#include <charconv>
 #include <future>
 #include <limits>
 #include <stdexcept>
@@ -92,6 +93,15 @@ template <typename T> T AsUintOf(element el_)
     return static_cast<T>(u);
 }
 
+//! Read the decimal number of a definition checksum. Throws if the text is anything else.
+uint32_t AsCrc(std::string_view text_)
+{
+    uint32_t crc = 0;
+    const auto [end, error] = std::from_chars(text_.data(), text_.data() + text_.size(), crc);
+    if (error != std::errc() || end != text_.data() + text_.size()) { throw std::runtime_error("Expected a definition checksum: " + std::string(text_)); }
+    return crc;
+}
+
 //! Read an optional string member, returning the default if the key is absent.
 std::string StringOr(element obj_, std::string_view key_, std::string_view default_)
 {
@@ -316,13 +326,13 @@ std::vector<MessageDefinition::ConstPtr> ProcessMessageDefinitions(element jRoot
         md->logID = AsUintOf<uint32_t>(Member(j_, "messageID")); // this was "logID"
         md->name = AsString(Member(j_, "name"));
         md->description = AsStringOrEmpty(Member(j_, "description"));
-        md->latestMessageCrc = std::stoul(AsString(Member(j_, "latestMsgDefCrc")));
+        md->latestMessageCrc = AsCrc(AsStringView(Member(j_, "latestMsgDefCrc")));
 
         object fields;
         if (Member(j_, "fields").get(fields) != simdjson::SUCCESS) { throw std::runtime_error("Expected 'fields' to be a JSON object"); }
         for (auto field : fields)
         {
-            uint32_t defCrc = std::stoul(std::string(field.key));
+            uint32_t defCrc = AsCrc(field.key);
             FieldInfo stFieldInfo{};
             ParseFields(field.value, stFieldInfo, alignFn_);
             md->fieldInfo[defCrc] = std::make_shared<FieldInfo>(std::move(stFieldInfo));
-- 
2.43.0

