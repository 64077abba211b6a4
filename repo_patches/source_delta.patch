From 26e2bcb051753866f71cce17249e6b2f116fb74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:51 +0000
Subject: [PATCH 01/46] fix: huffman: write the right byte when whole bytes of
 a code are left

When the bits of a code that do not fit in the current byte are a multiple of
8 (16 or 24 bits), `num_bits - num_bits % 8` shifted one byte too far and
corrupted the encoded string.
---
 bnl/http3/src/codec/qpack/huffman/encode.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bnl/http3/src/codec/qpack/huffman/encode.cpp b/bnl/http3/src/codec/qpack/huffman/encode.cpp
index 332aecb..ae4f02a 100644
--- a/bnl/http3/src/codec/qpack/huffman/encode.cpp
+++ b/bnl/http3/src/codec/qpack/huffman/encode.cpp
@@ -76,7 +76,7 @@ symbol_encode(uint8_t *dest, size_t *rem_bits, const encoding::symbol &symbol)
     }
 
     while (num_bits > 8) {
-      *dest = static_cast<uint8_t>(code >> (num_bits - (num_bits % 8)));
+      *dest = static_cast<uint8_t>(code >> ((num_bits - 1) / 8 * 8));
 
       dest++;
       num_bits -= 8;
-- 
2.43.0


From 7329b1f7cabbc1db1c26508b064c54e3a409735f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:51 +0000
Subject: [PATCH 02/46] fix: huffman: accept the empty string

A Huffman encoded string literal of length zero was rejected with
qpack_decompression_failed.
---
 bnl/http3/src/codec/qpack/huffman/decode.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bnl/http3/src/codec/qpack/huffman/decode.cpp b/bnl/http3/src/codec/qpack/huffman/decode.cpp
index b7b5d32..6b054c0 100644
--- a/bnl/http3/src/codec/qpack/huffman/decode.cpp
+++ b/bnl/http3/src/codec/qpack/huffman/decode.cpp
@@ -43,7 +43,7 @@ decoded_size(const Lookahead &encoded, size_t encoded_size) noexcept
 
   size_t decoded_size = 0;
   uint8_t state = 0;
-  bool accept = false;
+  bool accept = true; // The empty string is valid.
 
   for (size_t i = 0; i < encoded_size; i++) {
     const decoding::node &first = decoding::table[state][encoded[i] >> 4U];
-- 
2.43.0


From fe30fe7f223be752b4df8726f6d3738fc7ee0af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:51 +0000
Subject: [PATCH 03/46] fix: prefix_int: decode 64 bit values and leave
 incomplete input alone

The decoder consumed its input directly instead of via its lookahead so an
incomplete integer was partially consumed, and it shifted a 32 bit one which is
undefined for (and corrupts) integers of 2^32 and up. Integers that do not fit
in 64 bits are now rejected instead of wrapped.
---
 bnl/http3/src/codec/qpack/prefix_int/decode.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/bnl/http3/src/codec/qpack/prefix_int/decode.cpp b/bnl/http3/src/codec/qpack/prefix_int/decode.cpp
index 9fa5498..cabe554 100644
--- a/bnl/http3/src/codec/qpack/prefix_int/decode.cpp
+++ b/bnl/http3/src/codec/qpack/prefix_int/decode.cpp
@@ -26,7 +26,7 @@ decode(Sequence &encoded, uint8_t prefix) noexcept
 {
   typename Sequence::lookahead_type lookahead(encoded);
 
-  uint64_t result = BNL_TRY(uint8_decode(encoded));
+  uint64_t result = BNL_TRY(uint8_decode(lookahead));
 
   uint8_t prefix_max = static_cast<uint8_t>((1U << prefix) - 1);
   result &= prefix_max;
@@ -35,8 +35,16 @@ decode(Sequence &encoded, uint8_t prefix) noexcept
     uint64_t offset = 0;
     uint8_t byte = 0;
     do {
-      byte = BNL_TRY(uint8_decode(encoded));
-      result += (byte & 127U) * (1U << offset);
+      byte = BNL_TRY(uint8_decode(lookahead));
+
+      uint64_t bits = byte & 127U;
+      if (offset > 63 || (bits << offset) >> offset != bits ||
+          UINT64_MAX - result < bits << offset) {
+        // The integer does not fit in 64 bits.
+        return error::qpack_decompression_failed;
+      }
+
+      result += bits << offset;
       offset += 7;
     } while ((byte & 128U) == 128);
   }
-- 
2.43.0


From 0f125795205d8e802b3739a3551d03d7f283b418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:51 +0000
Subject: [PATCH 04/46] fix: qpack: do not truncate static table indices to 8
 bits

An index of 256 or more was reduced modulo 256 and decoded as the header of an
unrelated static table entry instead of being rejected.
---
 bnl/http3/src/codec/qpack/decode.cpp           | 6 ++----
 bnl/http3/src/codec/qpack/decode_generated.cpp | 4 ++--
 bnl/http3/tools/generate_qpack.py              | 4 ++--
 3 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/bnl/http3/src/codec/qpack/decode.cpp b/bnl/http3/src/codec/qpack/decode.cpp
index c01bf84..214666d 100644
--- a/bnl/http3/src/codec/qpack/decode.cpp
+++ b/bnl/http3/src/codec/qpack/decode.cpp
@@ -47,8 +47,7 @@ decoder::decode(Sequence &encoded)
         return error::qpack_decompression_failed;
       }
 
-      uint8_t index =
-        static_cast<uint8_t>(BNL_TRY(prefix_int::decode(lookahead, 6)));
+      uint64_t index = BNL_TRY(prefix_int::decode(lookahead, 6));
 
       bool found = false;
       std::tie(found, header) = table::fixed::find_header_value(index);
@@ -68,8 +67,7 @@ decoder::decode(Sequence &encoded)
         return error::qpack_decompression_failed;
       }
 
-      uint8_t index =
-        static_cast<uint8_t>(BNL_TRY(prefix_int::decode(lookahead, 4)));
+      uint64_t index = BNL_TRY(prefix_int::decode(lookahead, 4));
 
       bool found = false;
       base::string name;
diff --git a/bnl/http3/src/codec/qpack/decode_generated.cpp b/bnl/http3/src/codec/qpack/decode_generated.cpp
index 2e74ee8..1b37fee 100644
--- a/bnl/http3/src/codec/qpack/decode_generated.cpp
+++ b/bnl/http3/src/codec/qpack/decode_generated.cpp
@@ -37,7 +37,7 @@ find_type(uint8_t byte)
 }
 
 std::pair<bool, header>
-find_header_value(uint8_t index)
+find_header_value(uint64_t index)
 {
   switch (index) {
     case 15:
@@ -208,7 +208,7 @@ find_header_value(uint8_t index)
 }
 
 std::pair<bool, base::string>
-find_header_only(uint8_t index)
+find_header_only(uint64_t index)
 {
   switch (index) {
     case 0:
diff --git a/bnl/http3/tools/generate_qpack.py b/bnl/http3/tools/generate_qpack.py
index acc06d3..6f14f06 100644
--- a/bnl/http3/tools/generate_qpack.py
+++ b/bnl/http3/tools/generate_qpack.py
@@ -205,7 +205,7 @@ file.write(encode_generated)
 file.close()
 
 find_header_value_template = """\
-std::pair<bool, header> find_header_value(uint8_t index)
+std::pair<bool, header> find_header_value(uint64_t index)
 {{
   switch(index) {{
     {}
@@ -230,7 +230,7 @@ for entry in static_table:
 find_header_value = find_header_value_template.format(cases)
 
 find_header_only_template = """\
-std::pair<bool, base::string> find_header_only(uint8_t index)
+std::pair<bool, base::string> find_header_only(uint64_t index)
 {{
   switch(index) {{
     {}
-- 
2.43.0


From acfa2dbe97ab3c09506a817b9c4365c0e054a020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:20 +0000
Subject: [PATCH 05/46] fix: qpack: decode indexed fields of static table
 entries with an empty value

Indexed header fields that refer to a static table entry without a value (e.g.
:authority, date, etag) were rejected with qpack_decompression_failed while
they stand for that header with the empty value.
---
 .../src/codec/qpack/decode_generated.cpp      | 42 +++++++++++++++++++
 bnl/http3/tools/generate_qpack.py             |  6 +--
 2 files changed, 45 insertions(+), 3 deletions(-)

diff --git a/bnl/http3/src/codec/qpack/decode_generated.cpp b/bnl/http3/src/codec/qpack/decode_generated.cpp
index 1b37fee..e8af30d 100644
--- a/bnl/http3/src/codec/qpack/decode_generated.cpp
+++ b/bnl/http3/src/codec/qpack/decode_generated.cpp
@@ -40,6 +40,8 @@ std::pair<bool, header>
 find_header_value(uint64_t index)
 {
   switch (index) {
+    case 0:
+      return { true, { ":authority", "" } };
     case 15:
       return { true, { ":method", "CONNECT" } };
     case 16:
@@ -94,6 +96,8 @@ find_header_value(uint64_t index)
       return { true, { "accept", "application/dns-message" } };
     case 31:
       return { true, { "accept-encoding", "gzip, deflate, br" } };
+    case 72:
+      return { true, { "accept-language", "" } };
     case 32:
       return { true, { "accept-ranges", "bytes" } };
     case 73:
@@ -126,6 +130,8 @@ find_header_value(uint64_t index)
       return { true, { "age", "0" } };
     case 83:
       return { true, { "alt-svc", "clear" } };
+    case 84:
+      return { true, { "authorization", "" } };
     case 36:
       return { true, { "cache-control", "max-age=0" } };
     case 37:
@@ -138,6 +144,8 @@ find_header_value(uint64_t index)
       return { true, { "cache-control", "no-store" } };
     case 41:
       return { true, { "cache-control", "public, max-age=31536000" } };
+    case 3:
+      return { true, { "content-disposition", "" } };
     case 42:
       return { true, { "content-encoding", "br" } };
     case 43:
@@ -170,12 +178,42 @@ find_header_value(uint64_t index)
       return { true, { "content-type", "text/plain" } };
     case 54:
       return { true, { "content-type", "text/plain;charset=utf-8" } };
+    case 5:
+      return { true, { "cookie", "" } };
+    case 6:
+      return { true, { "date", "" } };
     case 86:
       return { true, { "early-data", "1" } };
+    case 7:
+      return { true, { "etag", "" } };
+    case 87:
+      return { true, { "expect-ct", "" } };
+    case 88:
+      return { true, { "forwarded", "" } };
+    case 8:
+      return { true, { "if-modified-since", "" } };
+    case 9:
+      return { true, { "if-none-match", "" } };
+    case 89:
+      return { true, { "if-range", "" } };
+    case 10:
+      return { true, { "last-modified", "" } };
+    case 11:
+      return { true, { "link", "" } };
+    case 12:
+      return { true, { "location", "" } };
+    case 90:
+      return { true, { "origin", "" } };
     case 91:
       return { true, { "purpose", "prefetch" } };
     case 55:
       return { true, { "range", "bytes=0-" } };
+    case 13:
+      return { true, { "referer", "" } };
+    case 92:
+      return { true, { "server", "" } };
+    case 14:
+      return { true, { "set-cookie", "" } };
     case 56:
       return { true, { "strict-transport-security", "max-age=31536000" } };
     case 57:
@@ -190,12 +228,16 @@ find_header_value(uint64_t index)
       return { true, { "timing-allow-origin", "*" } };
     case 94:
       return { true, { "upgrade-insecure-requests", "1" } };
+    case 95:
+      return { true, { "user-agent", "" } };
     case 59:
       return { true, { "vary", "accept-encoding" } };
     case 60:
       return { true, { "vary", "origin" } };
     case 61:
       return { true, { "x-content-type-options", "nosniff" } };
+    case 96:
+      return { true, { "x-forwarded-for", "" } };
     case 97:
       return { true, { "x-frame-options", "deny" } };
     case 98:
diff --git a/bnl/http3/tools/generate_qpack.py b/bnl/http3/tools/generate_qpack.py
index 6f14f06..d4b6252 100644
--- a/bnl/http3/tools/generate_qpack.py
+++ b/bnl/http3/tools/generate_qpack.py
@@ -223,9 +223,9 @@ case {0}:
 cases = ""
 
 for entry in static_table:
-    if len(entry) > 2:
-        values = str.join(" ", entry[2:])
-        cases += header_value_case_template.format(entry[0], entry[1], values)
+    # Entries without a value have an empty value.
+    values = str.join(" ", entry[2:])
+    cases += header_value_case_template.format(entry[0], entry[1], values)
 
 find_header_value = find_header_value_template.format(cases)
 
-- 
2.43.0


From 11728c12567fd71971bfa9ac0e9627d5820ac327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:21 +0000
Subject: [PATCH 06/46] fix: qpack: initialize the first byte in the buffer
 encoders

`literal::encode` and `prefix_int::encode` preserve the bits above the prefix in
the first byte. The overloads that allocate the buffer left that byte
uninitialized so its upper bits (e.g. the Huffman flag) were random.
---
 bnl/http3/src/codec/qpack/literal/encode.cpp    | 2 ++
 bnl/http3/src/codec/qpack/prefix_int/encode.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/bnl/http3/src/codec/qpack/literal/encode.cpp b/bnl/http3/src/codec/qpack/literal/encode.cpp
index e2fbc2f..dea063f 100644
--- a/bnl/http3/src/codec/qpack/literal/encode.cpp
+++ b/bnl/http3/src/codec/qpack/literal/encode.cpp
@@ -48,6 +48,8 @@ encode(base::string_view literal, uint8_t prefix)
   size_t encoded_size = literal::encoded_size(literal, prefix);
   base::buffer encoded(encoded_size);
 
+  // `encode` only sets the bits of the first byte that it uses.
+  encoded[0] = 0;
   encode(encoded.data(), literal, prefix);
 
   return encoded;
diff --git a/bnl/http3/src/codec/qpack/prefix_int/encode.cpp b/bnl/http3/src/codec/qpack/prefix_int/encode.cpp
index 25c0b68..1d46bf0 100644
--- a/bnl/http3/src/codec/qpack/prefix_int/encode.cpp
+++ b/bnl/http3/src/codec/qpack/prefix_int/encode.cpp
@@ -61,6 +61,8 @@ encode(uint64_t value, uint8_t prefix)
   size_t encoded_size = prefix_int::encoded_size(value, prefix);
   base::buffer encoded(encoded_size);
 
+  // `encode` only sets the bits of the first byte that it uses.
+  encoded[0] = 0;
   encode(encoded.data(), value, prefix);
 
   return encoded;
-- 
2.43.0


From 368107c02bfa94ef045e7abf33e11c48a628f4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:21 +0000
Subject: [PATCH 07/46] fix: frame: skip the payload of unknown frames in peek

`peek` only skipped the type of an unknown frame and went on to interpret its
length and payload as the type of the next frame.
---
 bnl/http3/src/codec/frame/decode.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/bnl/http3/src/codec/frame/decode.cpp b/bnl/http3/src/codec/frame/decode.cpp
index 7283b88..8e29a10 100644
--- a/bnl/http3/src/codec/frame/decode.cpp
+++ b/bnl/http3/src/codec/frame/decode.cpp
@@ -26,8 +26,17 @@ frame::peek(const Sequence &encoded) noexcept
       case frame::type::duplicate_push:
         return static_cast<frame::type>(type);
       default:
-        continue;
+        break;
     }
+
+    // Skip unknown frames just like `decode` does.
+    uint64_t payload_encoded_size = BNL_TRY(varint::decode(lookahead));
+
+    if (payload_encoded_size > lookahead.size()) {
+      return error::incomplete;
+    }
+
+    lookahead.consume(static_cast<size_t>(payload_encoded_size));
   }
 
   assert(false);
-- 
2.43.0


From 7774b90f83e1eee204c87eca0d3f196b021b33f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:21 +0000
Subject: [PATCH 08/46] fix: buffers: allow slicing zero bytes off empty
 buffers

`slice(0)` aborted if there was no non-empty buffer.
---
 bnl/base/src/base/buffers.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bnl/base/src/base/buffers.cpp b/bnl/base/src/base/buffers.cpp
index fc1d2f4..0105d03 100644
--- a/bnl/base/src/base/buffers.cpp
+++ b/bnl/base/src/base/buffers.cpp
@@ -59,6 +59,10 @@ buffers::slice(size_t size)
 {
   assert(size <= this->size());
 
+  if (size == 0) {
+    return buffer();
+  }
+
   auto begin = find_first_not_empty(buffers_);
   assert(begin != buffers_.end());
 
-- 
2.43.0


From bc1968fc7c163c2a950975856fc07d3478b64956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:29 +0000
Subject: [PATCH 09/46] fix: body: finish decoding an empty DATA frame without
 further data

The decoder waited for more data after the header of an empty DATA frame so a
message that ends with one was rejected as malformed.
---
 bnl/http3/src/codec/body.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bnl/http3/src/codec/body.cpp b/bnl/http3/src/codec/body.cpp
index 347b1df..ae63838 100644
--- a/bnl/http3/src/codec/body.cpp
+++ b/bnl/http3/src/codec/body.cpp
@@ -98,7 +98,8 @@ decoder::decode(Sequence &encoded)
     }
     /* FALLTHRU */
     case state::data: {
-      if (encoded.empty()) {
+      // An empty DATA frame is complete without any further data.
+      if (encoded.empty() && remaining_ != 0) {
         return error::incomplete;
       }
 
-- 
2.43.0


From d430d9d33264f471793dc9ddbbe40cd5c75dffcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:29 +0000
Subject: [PATCH 10/46] fix: request: accept the end of the stream after the
 last frame

A complete message was rejected as malformed if the end of its stream arrived
separately from its last frame or after a trailing unknown frame.
---
 bnl/http3/src/endpoint/stream/request.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/bnl/http3/src/endpoint/stream/request.cpp b/bnl/http3/src/endpoint/stream/request.cpp
index 48e1b74..c80ae62 100644
--- a/bnl/http3/src/endpoint/stream/request.cpp
+++ b/bnl/http3/src/endpoint/stream/request.cpp
@@ -305,6 +305,17 @@ receiver::process() noexcept
   };
 
   if (error == error::incomplete && fin_received_) {
+    if (state_ == state::body && !body_.in_progress()) {
+      // Skips any unknown frames, there is no known frame left to decode.
+      (void) frame::decode(buffers_);
+
+      // The end of the stream can arrive after the last frame.
+      if (buffers_.empty()) {
+        state_ = state::fin;
+        return event::payload::body{ id_, true, base::buffer() };
+      }
+    }
+
     return error::malformed_frame;
   }
 
-- 
2.43.0


From ba8220424d5deefcec855fb8f03302c72599f821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:29 +0000
Subject: [PATCH 11/46] fix: request: ignore trailing headers independently of
 fragmentation

When a trailing HEADERS frame was received, everything buffered was dropped and
the message reported as finished right away, even if the frame and the end of
the stream had not been received completely. What arrived later then failed
with an internal error (client) or finished the message again (server).
---
 .../bnl/http3/endpoint/stream/request.hpp     |  3 +-
 bnl/http3/src/endpoint/stream/request.cpp     | 28 +++++++++++++++----
 2 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/bnl/http3/include/bnl/http3/endpoint/stream/request.hpp b/bnl/http3/include/bnl/http3/endpoint/stream/request.hpp
index d0b8a32..06ef4fa 100644
--- a/bnl/http3/include/bnl/http3/endpoint/stream/request.hpp
+++ b/bnl/http3/include/bnl/http3/endpoint/stream/request.hpp
@@ -99,7 +99,7 @@ protected:
   const headers::decoder &headers() const noexcept;
 
 private:
-  enum class state : uint8_t { closed, headers, body, fin };
+  enum class state : uint8_t { closed, headers, body, trailers, fin };
 
   state state_ = state::closed;
   base::buffers buffers_;
@@ -107,6 +107,7 @@ private:
 
   headers::decoder headers_;
   body::decoder body_;
+  uint64_t trailers_remaining_ = 0;
 
   uint64_t id_;
 };
diff --git a/bnl/http3/src/endpoint/stream/request.cpp b/bnl/http3/src/endpoint/stream/request.cpp
index c80ae62..18777f5 100644
--- a/bnl/http3/src/endpoint/stream/request.cpp
+++ b/bnl/http3/src/endpoint/stream/request.cpp
@@ -300,12 +300,30 @@ receiver::process() noexcept
       return event::payload::body{ id_, fin, std::move(r).value() };
     }
 
+    case state::trailers: {
+      size_t size = buffers_.size() < trailers_remaining_
+                      ? buffers_.size()
+                      : static_cast<size_t>(trailers_remaining_);
+      buffers_.consume(size);
+      trailers_remaining_ -= size;
+
+      if (trailers_remaining_ != 0) {
+        error = error::incomplete;
+        break;
+      }
+
+      result<frame::type> r = frame::peek(buffers_);
+      error = r ? error::delegate : r.error();
+      break;
+    }
+
     case state::fin:
       return event::payload::finished{ id_ };
   };
 
   if (error == error::incomplete && fin_received_) {
-    if (state_ == state::body && !body_.in_progress()) {
+    if ((state_ == state::body && !body_.in_progress()) ||
+        (state_ == state::trailers && trailers_remaining_ == 0)) {
       // Skips any unknown frames, there is no known frame left to decode.
       (void) frame::decode(buffers_);
 
@@ -327,11 +345,11 @@ receiver::process() noexcept
         // TODO: Implement trailing HEADERS
         if (state_ == receiver::state::body) {
           BNL_LOG_W("Ignoring trailing headers");
-          buffers_.consume(buffers_.size());
-          state_ = state::fin;
-          return event::payload::body{ id_, true, base::buffer() };
+          trailers_remaining_ = frame.headers.size;
+          state_ = state::trailers;
+          return process();
         }
-        break;
+        return process(frame);
       case frame::type::data:
         return error::unexpected_frame;
       case frame::type::settings:
-- 
2.43.0


From efc30881f4bddbf3c8e8699a5979d122c764af67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:29 +0000
Subject: [PATCH 12/46] fix: control: reject an unexpected stream type instead
 of aborting

The peer could abort the process (or, with assertions disabled, have another
stream interpreted as its control stream) by sending another stream type.
---
 bnl/http3/src/endpoint/stream/control.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bnl/http3/src/endpoint/stream/control.cpp b/bnl/http3/src/endpoint/stream/control.cpp
index c204910..f010b51 100644
--- a/bnl/http3/src/endpoint/stream/control.cpp
+++ b/bnl/http3/src/endpoint/stream/control.cpp
@@ -69,8 +69,12 @@ receiver::process() noexcept
     // the control stream until we've decoded the type.
     case state::type: {
       uint64_t type = BNL_TRY(varint::decode(buffers_));
-      (void) type; // Silence GCC 9 Wunused-variable warning
-      assert(type == control::type);
+
+      if (type != control::type) {
+        BNL_LOG_E("Unexpected type ({}) of control stream", type);
+        return error::wrong_stream;
+      }
+
       state_ = state::settings;
     }
     /* FALLTHRU */
-- 
2.43.0


From 20979172b5427768ff254b664c331956789f8730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:29 +0000
Subject: [PATCH 13/46] fix: request: end the stream when fin is called after
 everything was sent

The sender never ended the stream in that case. Instead it returned an internal
error from every following send, which also blocked all streams after it.
---
 bnl/http3/src/endpoint/stream/request.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bnl/http3/src/endpoint/stream/request.cpp b/bnl/http3/src/endpoint/stream/request.cpp
index 18777f5..19173e7 100644
--- a/bnl/http3/src/endpoint/stream/request.cpp
+++ b/bnl/http3/src/endpoint/stream/request.cpp
@@ -77,6 +77,12 @@ sender::send() noexcept
     }
 
     case state::body: {
+      // The body was finished after all of it had been sent already.
+      if (body_.finished()) {
+        state_ = state::fin;
+        return quic::data{ id_, true, base::buffer() };
+      }
+
       base::buffer encoded = BNL_TRY(body_.encode());
 
       if (body_.finished()) {
-- 
2.43.0


From be5ae392749095ef971d61f9e14824d7e1326541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:29 +0000
Subject: [PATCH 14/46] fix: headers: refuse to start a message without headers

A HEADERS frame without headers is malformed. Sending one aborted in
`buffers::pop` after the frame had been encoded.
---
 bnl/http3/src/codec/headers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bnl/http3/src/codec/headers.cpp b/bnl/http3/src/codec/headers.cpp
index 4176342..cdabca4 100644
--- a/bnl/http3/src/codec/headers.cpp
+++ b/bnl/http3/src/codec/headers.cpp
@@ -20,7 +20,7 @@ encoder::add(header_view header)
 result<void>
 encoder::fin() noexcept
 {
-  if (state_ != state::idle) {
+  if (state_ != state::idle || buffers_.empty()) {
     return error::internal;
   }
 
-- 
2.43.0


From f080687e4b739775fe101931b74d504446d7a088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:29 +0000
Subject: [PATCH 15/46] fix: request: detach handles that are replaced

Assigning to a handle left its old sender pointing to it, creating a second
handle for a sender left the first one pointing to the sender and assigning to a
sender left its old handle pointing to it. Each of these pointers was used after
the object it pointed to was destroyed.
---
 bnl/http3/src/endpoint/stream/request.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/bnl/http3/src/endpoint/stream/request.cpp b/bnl/http3/src/endpoint/stream/request.cpp
index 19173e7..01d39ed 100644
--- a/bnl/http3/src/endpoint/stream/request.cpp
+++ b/bnl/http3/src/endpoint/stream/request.cpp
@@ -30,6 +30,10 @@ sender &
 sender::operator=(sender &&other) noexcept
 {
   if (&other != this) {
+    if (handle_ != nullptr) {
+      handle_->sender_ = nullptr;
+    }
+
     handle_ = other.handle_;
     state_ = other.state_;
     headers_ = std::move(other.headers_);
@@ -128,6 +132,11 @@ sender::handle::handle(sender *sender)
   : id_(sender->id_)
   , sender_(sender)
 {
+  // A sender only knows its latest handle.
+  if (sender_->handle_ != nullptr) {
+    sender_->handle_->sender_ = nullptr;
+  }
+
   sender_->handle_ = this;
 }
 
@@ -141,6 +150,10 @@ sender::handle &
 sender::handle::operator=(sender::handle &&other) noexcept
 {
   if (&other != this) {
+    if (sender_ != nullptr) {
+      sender_->handle_ = nullptr;
+    }
+
     id_ = other.id_;
     sender_ = other.sender_;
     other.id_ = UINT64_MAX;
-- 
2.43.0


From 4cb276c983fd6fd57d5c8a6f17e6e2b7d056881d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:35 +0000
Subject: [PATCH 16/46] fix: server: do not terminate when a generator outlives
 its stream

`requests_.at` threw inside the noexcept `generator::next` when the request had
been erased because its response was sent.
---
 bnl/http3/src/server/connection.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bnl/http3/src/server/connection.cpp b/bnl/http3/src/server/connection.cpp
index d25cf9d..a9a37a2 100644
--- a/bnl/http3/src/server/connection.cpp
+++ b/bnl/http3/src/server/connection.cpp
@@ -105,7 +105,12 @@ connection::process(uint64_t id)
     return event;
   }
 
-  server::stream::request::receiver &request = requests_.at(id).second;
+  auto match = requests_.find(id);
+  if (match == requests_.end()) {
+    return error::stream_closed;
+  }
+
+  server::stream::request::receiver &request = match->second.second;
 
   return request.process();
 }
-- 
2.43.0


From d53868e3f15fcdb67e5925add763e2a0ac7cef4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:35 +0000
Subject: [PATCH 17/46] fix: server: ignore unidirectional streams just like
 the client

Data on a unidirectional stream (e.g. a QPACK encoder stream) was processed as a
request.
---
 bnl/http3/src/server/connection.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/bnl/http3/src/server/connection.cpp b/bnl/http3/src/server/connection.cpp
index a9a37a2..8ad64fe 100644
--- a/bnl/http3/src/server/connection.cpp
+++ b/bnl/http3/src/server/connection.cpp
@@ -70,6 +70,11 @@ connection::recv(quic::data data)
     return control.recv(std::move(data));
   };
 
+  // TODO: Actually handle unidirectional streams.
+  if ((data.id & 0x2U) != 0) {
+    return base::success();
+  }
+
   auto match = requests_.find(data.id);
   if (match == requests_.end()) {
     server::stream::request::sender sender(data.id);
@@ -105,6 +110,11 @@ connection::process(uint64_t id)
     return event;
   }
 
+  // TODO: Actually handle unidirectional streams.
+  if ((id & 0x2U) != 0) {
+    return error::incomplete;
+  }
+
   auto match = requests_.find(id);
   if (match == requests_.end()) {
     return error::stream_closed;
-- 
2.43.0


From 127cba9834abf0684bd1c52999c821b2f0f53825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:35 +0000
Subject: [PATCH 18/46] fix: server: keep a stream until its request is
 finished as well

The server forgot a stream as soon as its response was sent. If the request had
not been received completely, the rest of it was then processed as if it were
the start of a new request.
---
 .../include/bnl/http3/endpoint/stream/request.hpp     |  2 ++
 bnl/http3/src/endpoint/stream/request.cpp             |  8 +++++++-
 bnl/http3/src/server/connection.cpp                   | 11 +++++++++--
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/bnl/http3/include/bnl/http3/endpoint/stream/request.hpp b/bnl/http3/include/bnl/http3/endpoint/stream/request.hpp
index 06ef4fa..c44a00c 100644
--- a/bnl/http3/include/bnl/http3/endpoint/stream/request.hpp
+++ b/bnl/http3/include/bnl/http3/endpoint/stream/request.hpp
@@ -85,6 +85,7 @@ public:
 
   bool closed() const noexcept;
 
+  // Whether the `finished` event has been returned from `process`.
   bool finished() const noexcept;
 
   result<void> start() noexcept;
@@ -104,6 +105,7 @@ private:
   state state_ = state::closed;
   base::buffers buffers_;
   bool fin_received_ = false;
+  bool finished_ = false;
 
   headers::decoder headers_;
   body::decoder body_;
diff --git a/bnl/http3/src/endpoint/stream/request.cpp b/bnl/http3/src/endpoint/stream/request.cpp
index 01d39ed..006eafe 100644
--- a/bnl/http3/src/endpoint/stream/request.cpp
+++ b/bnl/http3/src/endpoint/stream/request.cpp
@@ -235,7 +235,7 @@ receiver::closed() const noexcept
 bool
 receiver::finished() const noexcept
 {
-  return state_ == state::fin;
+  return finished_;
 }
 
 result<void>
@@ -337,6 +337,12 @@ receiver::process() noexcept
     }
 
     case state::fin:
+      if (finished_) {
+        return error::stream_closed;
+      }
+
+      finished_ = true;
+
       return event::payload::finished{ id_ };
   };
 
diff --git a/bnl/http3/src/server/connection.cpp b/bnl/http3/src/server/connection.cpp
index 8ad64fe..28e3c84 100644
--- a/bnl/http3/src/server/connection.cpp
+++ b/bnl/http3/src/server/connection.cpp
@@ -30,7 +30,8 @@ connection::send() noexcept
 
     result<quic::event> r = request.send();
     if (r) {
-      if (request.finished()) {
+      // The stream is closed once both directions are finished.
+      if (request.finished() && entry.second.second.finished()) {
         requests_.erase(id);
       }
 
@@ -122,7 +123,13 @@ connection::process(uint64_t id)
 
   server::stream::request::receiver &request = match->second.second;
 
-  return request.process();
+  event event = BNL_TRY(request.process());
+
+  if (event == event::type::finished && match->second.first.finished()) {
+    requests_.erase(match);
+  }
+
+  return event;
 }
 
 result<response::handle>
-- 
2.43.0


From b8e483e4c7396cb7630ce51841160b3fcf476afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:35 +0000
Subject: [PATCH 19/46] fix: client: keep a stream until its request is sent as
 well

The client forgot a stream as soon as its response was finished. The part of the
request that had not been sent yet, including the end of the stream, was lost.
---
 bnl/http3/src/client/connection.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/bnl/http3/src/client/connection.cpp b/bnl/http3/src/client/connection.cpp
index 8979b03..768c4b0 100644
--- a/bnl/http3/src/client/connection.cpp
+++ b/bnl/http3/src/client/connection.cpp
@@ -23,6 +23,7 @@ connection::send() noexcept
   }
 
   for (auto &entry : requests_) {
+    uint64_t id = entry.first;
     client::stream::request::sender &sender = entry.second.first;
 
     if (sender.finished()) {
@@ -37,6 +38,11 @@ connection::send() noexcept
         BNL_TRY(receiver.start());
       }
 
+      // The stream is closed once both directions are finished.
+      if (sender.finished() && receiver.finished()) {
+        requests_.erase(id);
+      }
+
       return r;
     }
 
@@ -126,8 +132,8 @@ connection::process(uint64_t id)
 
   event event = BNL_TRY(request.process());
 
-  if (event == event::type::finished) {
-    requests_.erase(id);
+  if (event == event::type::finished && match->second.first.finished()) {
+    requests_.erase(match);
   }
 
   return event;
-- 
2.43.0


From 0f7fb63dc1c63d894ab85424e1ec0c857640493d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:35 +0000
Subject: [PATCH 20/46] fix: frame: refuse to encode PUSH_PROMISE frames that
 are too large

The payload size wrapped around for sizes close to 2^64 and a PUSH_PROMISE frame
with a tiny size was encoded.
---
 bnl/http3/src/codec/frame/encode.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bnl/http3/src/codec/frame/encode.cpp b/bnl/http3/src/codec/frame/encode.cpp
index 3ed034c..e689fcf 100644
--- a/bnl/http3/src/codec/frame/encode.cpp
+++ b/bnl/http3/src/codec/frame/encode.cpp
@@ -53,6 +53,9 @@ payload_size(const frame &frame) noexcept
     case frame::type::push_promise: {
       uint64_t push_id = frame.push_promise.push_id;
       payload_size += BNL_TRY(varint::encoded_size(push_id));
+
+      // Avoid wrapping around when adding a size that does not fit in a varint.
+      BNL_TRY(varint::encoded_size(frame.push_promise.size));
       payload_size += frame.push_promise.size;
       break;
     }
-- 
2.43.0


From 61d098bec73004c03031f87ef330810e55daa7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:35 +0000
Subject: [PATCH 21/46] fix: qpack: refuse uppercase header names in the raw
 encoder as well

Only the overload that allocates a buffer checked for them.
---
 bnl/http3/src/codec/qpack/encode.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bnl/http3/src/codec/qpack/encode.cpp b/bnl/http3/src/codec/qpack/encode.cpp
index a3dbd33..e5582e0 100644
--- a/bnl/http3/src/codec/qpack/encode.cpp
+++ b/bnl/http3/src/codec/qpack/encode.cpp
@@ -77,6 +77,11 @@ encoder::encode(uint8_t *dest, header_view header) noexcept
 {
   assert(dest != nullptr);
 
+  if (!header_is_lowercase(header)) {
+    BNL_LOG_E("Header ({}) is not lowercase", header);
+    return error::malformed_header;
+  }
+
   uint8_t *begin = dest;
 
   if (state_ == state::prefix) {
-- 
2.43.0


From f2ed75ee159c703ea9dce2115a831050e620e5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:35 +0000
Subject: [PATCH 22/46] fix: qpack-interop-encode: encode a last header list
 without trailing line

The last header list was silently dropped if the file did not end with an empty
line.
---
 bnl/http3/app/qpack/qpack-interop-encode.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/bnl/http3/app/qpack/qpack-interop-encode.cpp b/bnl/http3/app/qpack/qpack-interop-encode.cpp
index b22c71c..e8d1a87 100644
--- a/bnl/http3/app/qpack/qpack-interop-encode.cpp
+++ b/bnl/http3/app/qpack/qpack-interop-encode.cpp
@@ -149,5 +149,14 @@ main(int argc, char *argv[])
     headers.emplace_back(std::move(header));
   }
 
+  // The last header list does not have to be followed by an empty line.
+  if (!headers.empty()) {
+    http3::result<void> r = encode(id, headers, output);
+    if (!r) {
+      BNL_LOG_E("Error encoding headers");
+      return 1;
+    }
+  }
+
   return 0;
 }
-- 
2.43.0


From ea590be0abb7a2d2f07e8dde7421c94d7ee6ad40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:20 +0000
Subject: [PATCH 23/46] fix: frame: report fields that exceed a complete frame
 as malformed

---
 bnl/http3/src/codec/frame/decode.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/bnl/http3/src/codec/frame/decode.cpp b/bnl/http3/src/codec/frame/decode.cpp
index 8e29a10..2317abb 100644
--- a/bnl/http3/src/codec/frame/decode.cpp
+++ b/bnl/http3/src/codec/frame/decode.cpp
@@ -206,8 +206,17 @@ decode_single(Lookahead &lookahead) noexcept
     }
   };
 
+  bool complete = lookahead.size() >= payload_encoded_size;
   size_t before = lookahead.consumed();
-  frame frame = BNL_TRY(payload_decode());
+  result<frame> r = payload_decode();
+
+  // The fields of a frame cannot extend past its advertised length.
+  if (!r && r.error() == error::incomplete && complete) {
+    BNL_LOG_E("Frame payload's fields exceed its advertised length");
+    return error::malformed_frame;
+  }
+
+  frame frame = BNL_TRY(std::move(r));
 
   size_t actual_encoded_size = lookahead.consumed() - before;
 
-- 
2.43.0


From 32015b543fad32f265dfcf83834f181bd4a15990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:22 +0000
Subject: [PATCH 24/46] fix: headers: report a truncated header block as
 malformed

---
 bnl/http3/src/codec/headers.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/bnl/http3/src/codec/headers.cpp b/bnl/http3/src/codec/headers.cpp
index cdabca4..ef3f136 100644
--- a/bnl/http3/src/codec/headers.cpp
+++ b/bnl/http3/src/codec/headers.cpp
@@ -103,7 +103,15 @@ decoder::decode(Sequence &encoded)
     }
     /* FALLTHRU */
     case state::qpack: {
-      header header = BNL_TRY(qpack_.decode(encoded));
+      result<header> r = qpack_.decode(encoded);
+
+      // A header block cannot be completed by data that follows its frame.
+      if (!r && r.error() == error::incomplete &&
+          encoded.size() + qpack_.count() >= headers_size_) {
+        return error::malformed_frame;
+      }
+
+      header header = BNL_TRY(std::move(r));
 
       if (qpack_.count() > headers_size_) {
         return error::malformed_frame;
-- 
2.43.0


From 018c471c2a8b2085bac9947ec0a2c1c27e924aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:43 +0000
Subject: [PATCH 25/46] fix: request: do not interpret what follows an error

---
 .../bnl/http3/endpoint/stream/request.hpp     |  4 ++++
 bnl/http3/src/endpoint/stream/request.cpp     | 21 ++++++++++++++++++-
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/bnl/http3/include/bnl/http3/endpoint/stream/request.hpp b/bnl/http3/include/bnl/http3/endpoint/stream/request.hpp
index c44a00c..e83c3da 100644
--- a/bnl/http3/include/bnl/http3/endpoint/stream/request.hpp
+++ b/bnl/http3/include/bnl/http3/endpoint/stream/request.hpp
@@ -99,6 +99,9 @@ protected:
 
   const headers::decoder &headers() const noexcept;
 
+private:
+  result<event> decode() noexcept;
+
 private:
   enum class state : uint8_t { closed, headers, body, trailers, fin };
 
@@ -106,6 +109,7 @@ private:
   base::buffers buffers_;
   bool fin_received_ = false;
   bool finished_ = false;
+  error error_ = error::no_error;
 
   headers::decoder headers_;
   body::decoder body_;
diff --git a/bnl/http3/src/endpoint/stream/request.cpp b/bnl/http3/src/endpoint/stream/request.cpp
index 006eafe..aae60ba 100644
--- a/bnl/http3/src/endpoint/stream/request.cpp
+++ b/bnl/http3/src/endpoint/stream/request.cpp
@@ -269,6 +269,25 @@ receiver::recv(quic::data data)
 
 result<event>
 receiver::process() noexcept
+{
+  // Nothing that follows an error can be interpreted.
+  if (error_ != error::no_error) {
+    return error_;
+  }
+
+  bool closed = this->closed();
+  result<event> r = decode();
+
+  if (!r && r.error() != error::incomplete &&
+      r.error() != error::not_implemented && !closed) {
+    error_ = r.error();
+  }
+
+  return r;
+}
+
+result<event>
+receiver::decode() noexcept
 {
   http3::error error;
 
@@ -372,7 +391,7 @@ receiver::process() noexcept
           BNL_LOG_W("Ignoring trailing headers");
           trailers_remaining_ = frame.headers.size;
           state_ = state::trailers;
-          return process();
+          return decode();
         }
         return process(frame);
       case frame::type::data:
-- 
2.43.0


From adcc0d8f5a803f0e78b5e90aa86b2983b0e1cd32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:46 +0000
Subject: [PATCH 26/46] fix: request: report a stream that ends inside a frame
 header as malformed

---
 bnl/http3/src/endpoint/stream/request.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/bnl/http3/src/endpoint/stream/request.cpp b/bnl/http3/src/endpoint/stream/request.cpp
index aae60ba..16625a8 100644
--- a/bnl/http3/src/endpoint/stream/request.cpp
+++ b/bnl/http3/src/endpoint/stream/request.cpp
@@ -382,7 +382,14 @@ receiver::decode() noexcept
   }
 
   if (error == error::delegate) {
-    frame frame = BNL_TRY(frame::decode(buffers_));
+    result<http3::frame> r = frame::decode(buffers_);
+
+    // The stream ended before the rest of the frame arrived.
+    if (!r && r.error() == error::incomplete && fin_received_) {
+      return error::malformed_frame;
+    }
+
+    frame frame = BNL_TRY(std::move(r));
 
     switch (frame) {
       case frame::type::headers:
-- 
2.43.0


From 7f76ff935a84202838ac2bb583edf7e2f7ef7261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:14 +0000
Subject: [PATCH 27/46] fix: control: do not interpret what follows an error

---
 .../bnl/http3/endpoint/stream/control.hpp      |  4 ++++
 bnl/http3/src/endpoint/stream/control.cpp      | 18 ++++++++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/bnl/http3/include/bnl/http3/endpoint/stream/control.hpp b/bnl/http3/include/bnl/http3/endpoint/stream/control.hpp
index e8d9b40..c89466a 100644
--- a/bnl/http3/include/bnl/http3/endpoint/stream/control.hpp
+++ b/bnl/http3/include/bnl/http3/endpoint/stream/control.hpp
@@ -51,11 +51,15 @@ public:
 protected:
   virtual result<event> process(frame frame) noexcept = 0;
 
+private:
+  result<event> decode() noexcept;
+
 private:
   enum class state : uint8_t { type, settings, active };
 
   state state_ = state::type;
   base::buffers buffers_;
+  error error_ = error::no_error;
 
   uint64_t id_;
 };
diff --git a/bnl/http3/src/endpoint/stream/control.cpp b/bnl/http3/src/endpoint/stream/control.cpp
index f010b51..32fb4ba 100644
--- a/bnl/http3/src/endpoint/stream/control.cpp
+++ b/bnl/http3/src/endpoint/stream/control.cpp
@@ -62,6 +62,24 @@ receiver::recv(quic::data data)
 
 result<event>
 receiver::process() noexcept
+{
+  // Nothing that follows an error can be interpreted.
+  if (error_ != error::no_error) {
+    return error_;
+  }
+
+  result<event> r = decode();
+
+  if (!r && r.error() != error::incomplete &&
+      r.error() != error::not_implemented) {
+    error_ = r.error();
+  }
+
+  return r;
+}
+
+result<event>
+receiver::decode() noexcept
 {
   switch (state_) {
 
-- 
2.43.0


From 0bd0d8108d47fcb9642c70210a6d5480766f0172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:36 +0000
Subject: [PATCH 28/46] fix: request: report received body data of a truncated
 DATA frame

---
 bnl/http3/src/endpoint/stream/request.cpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/bnl/http3/src/endpoint/stream/request.cpp b/bnl/http3/src/endpoint/stream/request.cpp
index 16625a8..c7bcc58 100644
--- a/bnl/http3/src/endpoint/stream/request.cpp
+++ b/bnl/http3/src/endpoint/stream/request.cpp
@@ -323,15 +323,11 @@ receiver::decode() noexcept
         break;
       }
 
-      bool fin = buffers_.empty() && fin_received_;
+      // If there is still frame data left to be received, the data that was
+      // received is reported before the stream is reported as malformed.
+      bool fin = buffers_.empty() && fin_received_ && !body_.in_progress();
 
       if (fin) {
-        // We've processed all stream data but there still frame data left to be
-        // received.
-        if (body_.in_progress()) {
-          return (error::malformed_frame);
-        }
-
         state_ = state::fin;
       }
 
-- 
2.43.0


From d09af1cf36b03bfe41e6d7282c5001188dd0aac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:11 +0000
Subject: [PATCH 29/46] fix: QPACK static table lookup compares strings, not
 only their hashes

find_index() trusted a 64-bit XXH64 match, so any header name or value with
the hash of a static table entry was encoded as that entry.
---
 .../src/codec/qpack/encode_generated.cpp      | 392 ++++++++++++++++++
 bnl/http3/tools/generate_qpack.py             |  15 +-
 2 files changed, 404 insertions(+), 3 deletions(-)

diff --git a/bnl/http3/src/codec/qpack/encode_generated.cpp b/bnl/http3/src/codec/qpack/encode_generated.cpp
index 5521d1a..59b8fe7 100644
--- a/bnl/http3/src/codec/qpack/encode_generated.cpp
+++ b/bnl/http3/src/codec/qpack/encode_generated.cpp
@@ -21,357 +21,749 @@ find_index(header_view header)
 
   switch (name_hash) {
     case 16895098521482341206U: // :authority
+      if (header.name() != ":authority") {
+        break;
+      }
       return { type::header_only, uint8_t(0) };
     case 11800921616074793521U: // :method
+      if (header.name() != ":method") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 1969084168692057419U: // CONNECT
+          if (header.value() != "CONNECT") {
+            break;
+          }
           return { type::header_value, uint8_t(15) };
         case 3416820684017772195U: // DELETE
+          if (header.value() != "DELETE") {
+            break;
+          }
           return { type::header_value, uint8_t(16) };
         case 3137017853320178759U: // GET
+          if (header.value() != "GET") {
+            break;
+          }
           return { type::header_value, uint8_t(17) };
         case 5077457392360958184U: // HEAD
+          if (header.value() != "HEAD") {
+            break;
+          }
           return { type::header_value, uint8_t(18) };
         case 13449464674369688059U: // OPTIONS
+          if (header.value() != "OPTIONS") {
+            break;
+          }
           return { type::header_value, uint8_t(19) };
         case 1393561109570896241U: // POST
+          if (header.value() != "POST") {
+            break;
+          }
           return { type::header_value, uint8_t(20) };
         case 8278045464579020327U: // PUT
+          if (header.value() != "PUT") {
+            break;
+          }
           return { type::header_value, uint8_t(21) };
       }
       return { type::header_only, uint8_t(15) };
     case 1432527143127418564U: // :path
+      if (header.name() != ":path") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 16761507700594825962U: // /
+          if (header.value() != "/") {
+            break;
+          }
           return { type::header_value, uint8_t(1) };
       }
       return { type::header_only, uint8_t(1) };
     case 16734001141632695329U: // :scheme
+      if (header.name() != ":scheme") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 13730016396111666430U: // http
+          if (header.value() != "http") {
+            break;
+          }
           return { type::header_value, uint8_t(22) };
         case 10742537861312705840U: // https
+          if (header.value() != "https") {
+            break;
+          }
           return { type::header_value, uint8_t(23) };
       }
       return { type::header_only, uint8_t(22) };
     case 11145724770861396798U: // :status
+      if (header.name() != ":status") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 2891813017576360282U: // 103
+          if (header.value() != "103") {
+            break;
+          }
           return { type::header_value, uint8_t(24) };
         case 2685111111418367100U: // 200
+          if (header.value() != "200") {
+            break;
+          }
           return { type::header_value, uint8_t(25) };
         case 2860949800888200221U: // 304
+          if (header.value() != "304") {
+            break;
+          }
           return { type::header_value, uint8_t(26) };
         case 5957985645556640011U: // 404
+          if (header.value() != "404") {
+            break;
+          }
           return { type::header_value, uint8_t(27) };
         case 12373623763172808772U: // 503
+          if (header.value() != "503") {
+            break;
+          }
           return { type::header_value, uint8_t(28) };
         case 6146904730557115430U: // 100
+          if (header.value() != "100") {
+            break;
+          }
           return { type::header_value, uint8_t(63) };
         case 11759795502426644276U: // 204
+          if (header.value() != "204") {
+            break;
+          }
           return { type::header_value, uint8_t(64) };
         case 17033585193496081404U: // 206
+          if (header.value() != "206") {
+            break;
+          }
           return { type::header_value, uint8_t(65) };
         case 1337354901647857481U: // 302
+          if (header.value() != "302") {
+            break;
+          }
           return { type::header_value, uint8_t(66) };
         case 11111781720710347155U: // 400
+          if (header.value() != "400") {
+            break;
+          }
           return { type::header_value, uint8_t(67) };
         case 14993518005534636743U: // 403
+          if (header.value() != "403") {
+            break;
+          }
           return { type::header_value, uint8_t(68) };
         case 1128097706726417269U: // 421
+          if (header.value() != "421") {
+            break;
+          }
           return { type::header_value, uint8_t(69) };
         case 17924379407345689140U: // 425
+          if (header.value() != "425") {
+            break;
+          }
           return { type::header_value, uint8_t(70) };
         case 12667669577372699657U: // 500
+          if (header.value() != "500") {
+            break;
+          }
           return { type::header_value, uint8_t(71) };
       }
       return { type::header_only, uint8_t(24) };
     case 14776963886974432617U: // accept
+      if (header.name() != "accept") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 285960807216420690U: // */*
+          if (header.value() != "*/*") {
+            break;
+          }
           return { type::header_value, uint8_t(29) };
         case 6373961066247414572U: // application/dns-message
+          if (header.value() != "application/dns-message") {
+            break;
+          }
           return { type::header_value, uint8_t(30) };
       }
       return { type::header_only, uint8_t(29) };
     case 14455144075924042224U: // accept-encoding
+      if (header.name() != "accept-encoding") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 9032900040511447184U: // gzip, deflate, br
+          if (header.value() != "gzip, deflate, br") {
+            break;
+          }
           return { type::header_value, uint8_t(31) };
       }
       return { type::header_only, uint8_t(31) };
     case 12586352021634702904U: // accept-language
+      if (header.name() != "accept-language") {
+        break;
+      }
       return { type::header_only, uint8_t(72) };
     case 14590555536192441974U: // accept-ranges
+      if (header.name() != "accept-ranges") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 3279652670845457604U: // bytes
+          if (header.value() != "bytes") {
+            break;
+          }
           return { type::header_value, uint8_t(32) };
       }
       return { type::header_only, uint8_t(32) };
     case 5881923794129529227U: // access-control-allow-credentials
+      if (header.name() != "access-control-allow-credentials") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 13702020392090633634U: // FALSE
+          if (header.value() != "FALSE") {
+            break;
+          }
           return { type::header_value, uint8_t(73) };
         case 13992295306875567947U: // TRUE
+          if (header.value() != "TRUE") {
+            break;
+          }
           return { type::header_value, uint8_t(74) };
       }
       return { type::header_only, uint8_t(73) };
     case 3800686319607884068U: // access-control-allow-headers
+      if (header.name() != "access-control-allow-headers") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 6792126209451122079U: // cache-control
+          if (header.value() != "cache-control") {
+            break;
+          }
           return { type::header_value, uint8_t(33) };
         case 3910122139284074053U: // content-type
+          if (header.value() != "content-type") {
+            break;
+          }
           return { type::header_value, uint8_t(34) };
         case 765293966243412708U: // *
+          if (header.value() != "*") {
+            break;
+          }
           return { type::header_value, uint8_t(75) };
       }
       return { type::header_only, uint8_t(33) };
     case 10756748986426057606U: // access-control-allow-methods
+      if (header.name() != "access-control-allow-methods") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 2774841317834080824U: // get
+          if (header.value() != "get") {
+            break;
+          }
           return { type::header_value, uint8_t(76) };
         case 13368036589511723433U: // get, post, options
+          if (header.value() != "get, post, options") {
+            break;
+          }
           return { type::header_value, uint8_t(77) };
         case 16398749137410613924U: // options
+          if (header.value() != "options") {
+            break;
+          }
           return { type::header_value, uint8_t(78) };
       }
       return { type::header_only, uint8_t(76) };
     case 9436417403599124064U: // access-control-allow-origin
+      if (header.name() != "access-control-allow-origin") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 765293966243412708U: // *
+          if (header.value() != "*") {
+            break;
+          }
           return { type::header_value, uint8_t(35) };
       }
       return { type::header_only, uint8_t(35) };
     case 6796384088407939286U: // access-control-expose-headers
+      if (header.name() != "access-control-expose-headers") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 17031230962583399322U: // content-length
+          if (header.value() != "content-length") {
+            break;
+          }
           return { type::header_value, uint8_t(79) };
       }
       return { type::header_only, uint8_t(79) };
     case 4242818872217734295U: // access-control-request-headers
+      if (header.name() != "access-control-request-headers") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 3910122139284074053U: // content-type
+          if (header.value() != "content-type") {
+            break;
+          }
           return { type::header_value, uint8_t(80) };
       }
       return { type::header_only, uint8_t(80) };
     case 14051338931492133901U: // access-control-request-method
+      if (header.name() != "access-control-request-method") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 2774841317834080824U: // get
+          if (header.value() != "get") {
+            break;
+          }
           return { type::header_value, uint8_t(81) };
         case 3178169103122520677U: // post
+          if (header.value() != "post") {
+            break;
+          }
           return { type::header_value, uint8_t(82) };
       }
       return { type::header_only, uint8_t(81) };
     case 5092756294692198100U: // age
+      if (header.name() != "age") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 7148434200721666028U: // 0
+          if (header.value() != "0") {
+            break;
+          }
           return { type::header_value, uint8_t(2) };
       }
       return { type::header_only, uint8_t(2) };
     case 12092656254601729054U: // alt-svc
+      if (header.name() != "alt-svc") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 9623284816163994036U: // clear
+          if (header.value() != "clear") {
+            break;
+          }
           return { type::header_value, uint8_t(83) };
       }
       return { type::header_only, uint8_t(83) };
     case 8846816503791876372U: // authorization
+      if (header.name() != "authorization") {
+        break;
+      }
       return { type::header_only, uint8_t(84) };
     case 6792126209451122079U: // cache-control
+      if (header.name() != "cache-control") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 10032073942971583664U: // max-age=0
+          if (header.value() != "max-age=0") {
+            break;
+          }
           return { type::header_value, uint8_t(36) };
         case 3044507098168884424U: // max-age=2592000
+          if (header.value() != "max-age=2592000") {
+            break;
+          }
           return { type::header_value, uint8_t(37) };
         case 441477139842840241U: // max-age=604800
+          if (header.value() != "max-age=604800") {
+            break;
+          }
           return { type::header_value, uint8_t(38) };
         case 8897988708233174624U: // no-cache
+          if (header.value() != "no-cache") {
+            break;
+          }
           return { type::header_value, uint8_t(39) };
         case 3660001317594812985U: // no-store
+          if (header.value() != "no-store") {
+            break;
+          }
           return { type::header_value, uint8_t(40) };
         case 9509473917879564042U: // public, max-age=31536000
+          if (header.value() != "public, max-age=31536000") {
+            break;
+          }
           return { type::header_value, uint8_t(41) };
       }
       return { type::header_only, uint8_t(36) };
     case 17156266451297603303U: // content-disposition
+      if (header.name() != "content-disposition") {
+        break;
+      }
       return { type::header_only, uint8_t(3) };
     case 11860813331948357247U: // content-encoding
+      if (header.name() != "content-encoding") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 12202383188974104177U: // br
+          if (header.value() != "br") {
+            break;
+          }
           return { type::header_value, uint8_t(42) };
         case 12621183860903199653U: // gzip
+          if (header.value() != "gzip") {
+            break;
+          }
           return { type::header_value, uint8_t(43) };
       }
       return { type::header_only, uint8_t(42) };
     case 17031230962583399322U: // content-length
+      if (header.name() != "content-length") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 7148434200721666028U: // 0
+          if (header.value() != "0") {
+            break;
+          }
           return { type::header_value, uint8_t(4) };
       }
       return { type::header_only, uint8_t(4) };
     case 18043880115709070015U: // content-security-policy
+      if (header.name() != "content-security-policy") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 165232284275397264U: // script-src 'none'; object-src 'none';
                                   // base-uri 'none'
+          if (header.value() !=
+              "script-src 'none'; object-src 'none'; base-uri 'none'") {
+            break;
+          }
           return { type::header_value, uint8_t(85) };
       }
       return { type::header_only, uint8_t(85) };
     case 3910122139284074053U: // content-type
+      if (header.name() != "content-type") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 6373961066247414572U: // application/dns-message
+          if (header.value() != "application/dns-message") {
+            break;
+          }
           return { type::header_value, uint8_t(44) };
         case 9423039217905102597U: // application/javascript
+          if (header.value() != "application/javascript") {
+            break;
+          }
           return { type::header_value, uint8_t(45) };
         case 116355269824119741U: // application/json
+          if (header.value() != "application/json") {
+            break;
+          }
           return { type::header_value, uint8_t(46) };
         case 15711274223642436716U: // application/x-www-form-urlencoded
+          if (header.value() != "application/x-www-form-urlencoded") {
+            break;
+          }
           return { type::header_value, uint8_t(47) };
         case 12727226202374957143U: // image/gif
+          if (header.value() != "image/gif") {
+            break;
+          }
           return { type::header_value, uint8_t(48) };
         case 12200045138720289141U: // image/jpeg
+          if (header.value() != "image/jpeg") {
+            break;
+          }
           return { type::header_value, uint8_t(49) };
         case 12092489581388341001U: // image/png
+          if (header.value() != "image/png") {
+            break;
+          }
           return { type::header_value, uint8_t(50) };
         case 6791077934204364231U: // text/css
+          if (header.value() != "text/css") {
+            break;
+          }
           return { type::header_value, uint8_t(51) };
         case 8886412932112875563U: // text/html; charset=utf-8
+          if (header.value() != "text/html; charset=utf-8") {
+            break;
+          }
           return { type::header_value, uint8_t(52) };
         case 16588200704567877914U: // text/plain
+          if (header.value() != "text/plain") {
+            break;
+          }
           return { type::header_value, uint8_t(53) };
         case 9119350762400467667U: // text/plain;charset=utf-8
+          if (header.value() != "text/plain;charset=utf-8") {
+            break;
+          }
           return { type::header_value, uint8_t(54) };
       }
       return { type::header_only, uint8_t(44) };
     case 905780767293800022U: // cookie
+      if (header.name() != "cookie") {
+        break;
+      }
       return { type::header_only, uint8_t(5) };
     case 9202271988582577219U: // date
+      if (header.name() != "date") {
+        break;
+      }
       return { type::header_only, uint8_t(6) };
     case 12326157660028381149U: // early-data
+      if (header.name() != "early-data") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 13237225503670494420U: // 1
+          if (header.value() != "1") {
+            break;
+          }
           return { type::header_value, uint8_t(86) };
       }
       return { type::header_only, uint8_t(86) };
     case 6439525432329186999U: // etag
+      if (header.name() != "etag") {
+        break;
+      }
       return { type::header_only, uint8_t(7) };
     case 9568944059520352163U: // expect-ct
+      if (header.name() != "expect-ct") {
+        break;
+      }
       return { type::header_only, uint8_t(87) };
     case 5644212460638603090U: // forwarded
+      if (header.name() != "forwarded") {
+        break;
+      }
       return { type::header_only, uint8_t(88) };
     case 12678664253902784264U: // if-modified-since
+      if (header.name() != "if-modified-since") {
+        break;
+      }
       return { type::header_only, uint8_t(8) };
     case 8836338662272140136U: // if-none-match
+      if (header.name() != "if-none-match") {
+        break;
+      }
       return { type::header_only, uint8_t(9) };
     case 10086758965902305572U: // if-range
+      if (header.name() != "if-range") {
+        break;
+      }
       return { type::header_only, uint8_t(89) };
     case 5803729767262815818U: // last-modified
+      if (header.name() != "last-modified") {
+        break;
+      }
       return { type::header_only, uint8_t(10) };
     case 17841021884467483934U: // link
+      if (header.name() != "link") {
+        break;
+      }
       return { type::header_only, uint8_t(11) };
     case 14592406158319853782U: // location
+      if (header.name() != "location") {
+        break;
+      }
       return { type::header_only, uint8_t(12) };
     case 7034821444952201446U: // origin
+      if (header.name() != "origin") {
+        break;
+      }
       return { type::header_only, uint8_t(90) };
     case 4274379369960325767U: // purpose
+      if (header.name() != "purpose") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 15048569516378897441U: // prefetch
+          if (header.value() != "prefetch") {
+            break;
+          }
           return { type::header_value, uint8_t(91) };
       }
       return { type::header_only, uint8_t(91) };
     case 12715602975004390753U: // range
+      if (header.name() != "range") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 6181996873389341388U: // bytes=0-
+          if (header.value() != "bytes=0-") {
+            break;
+          }
           return { type::header_value, uint8_t(55) };
       }
       return { type::header_only, uint8_t(55) };
     case 14154313121195327909U: // referer
+      if (header.name() != "referer") {
+        break;
+      }
       return { type::header_only, uint8_t(13) };
     case 16290507850670895904U: // server
+      if (header.name() != "server") {
+        break;
+      }
       return { type::header_only, uint8_t(92) };
     case 666465872145128107U: // set-cookie
+      if (header.name() != "set-cookie") {
+        break;
+      }
       return { type::header_only, uint8_t(14) };
     case 4179674550753269761U: // strict-transport-security
+      if (header.name() != "strict-transport-security") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 13034728143243030830U: // max-age=31536000
+          if (header.value() != "max-age=31536000") {
+            break;
+          }
           return { type::header_value, uint8_t(56) };
         case 11632417432576482556U: // max-age=31536000; includesubdomains
+          if (header.value() != "max-age=31536000; includesubdomains") {
+            break;
+          }
           return { type::header_value, uint8_t(57) };
         case 16736049223785386895U: // max-age=31536000; includesubdomains;
                                     // preload
+          if (header.value() !=
+              "max-age=31536000; includesubdomains; preload") {
+            break;
+          }
           return { type::header_value, uint8_t(58) };
       }
       return { type::header_only, uint8_t(56) };
     case 5374862646944647126U: // timing-allow-origin
+      if (header.name() != "timing-allow-origin") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 765293966243412708U: // *
+          if (header.value() != "*") {
+            break;
+          }
           return { type::header_value, uint8_t(93) };
       }
       return { type::header_only, uint8_t(93) };
     case 18069291607417813553U: // upgrade-insecure-requests
+      if (header.name() != "upgrade-insecure-requests") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 13237225503670494420U: // 1
+          if (header.value() != "1") {
+            break;
+          }
           return { type::header_value, uint8_t(94) };
       }
       return { type::header_only, uint8_t(94) };
     case 16625730634708209664U: // user-agent
+      if (header.name() != "user-agent") {
+        break;
+      }
       return { type::header_only, uint8_t(95) };
     case 8816542506507529547U: // vary
+      if (header.name() != "vary") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 14455144075924042224U: // accept-encoding
+          if (header.value() != "accept-encoding") {
+            break;
+          }
           return { type::header_value, uint8_t(59) };
         case 7034821444952201446U: // origin
+          if (header.value() != "origin") {
+            break;
+          }
           return { type::header_value, uint8_t(60) };
       }
       return { type::header_only, uint8_t(59) };
     case 6196956168349306122U: // x-content-type-options
+      if (header.name() != "x-content-type-options") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 4306527442339074562U: // nosniff
+          if (header.value() != "nosniff") {
+            break;
+          }
           return { type::header_value, uint8_t(61) };
       }
       return { type::header_only, uint8_t(61) };
     case 1042837635865018085U: // x-forwarded-for
+      if (header.name() != "x-forwarded-for") {
+        break;
+      }
       return { type::header_only, uint8_t(96) };
     case 8598773544412918900U: // x-frame-options
+      if (header.name() != "x-frame-options") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 6492545016868164575U: // deny
+          if (header.value() != "deny") {
+            break;
+          }
           return { type::header_value, uint8_t(97) };
         case 13303836962186157521U: // sameorigin
+          if (header.value() != "sameorigin") {
+            break;
+          }
           return { type::header_value, uint8_t(98) };
       }
       return { type::header_only, uint8_t(97) };
     case 15732293358711069708U: // x-xss-protection
+      if (header.name() != "x-xss-protection") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 7412498726110841680U: // 1; mode=block
+          if (header.value() != "1; mode=block") {
+            break;
+          }
           return { type::header_value, uint8_t(62) };
       }
       return { type::header_only, uint8_t(62) };
diff --git a/bnl/http3/tools/generate_qpack.py b/bnl/http3/tools/generate_qpack.py
index d4b6252..033208c 100644
--- a/bnl/http3/tools/generate_qpack.py
+++ b/bnl/http3/tools/generate_qpack.py
@@ -127,11 +127,17 @@ static std::pair<type, uint8_t> find_index(header_view header)
 
 no_values_template = """\
 case {}U: // {}
+  if (header.name() != "{}") {{
+    break;
+  }}
   return {{ type::header_only, uint8_t({}) }};\
 """
 
 values_template = """\
 case {}U: // {}
+  if (header.name() != "{}") {{
+    break;
+  }}
   value_hash = XXH64(header.value().data(), header.value().size(), 0);
   switch(value_hash) {{
     {}
@@ -141,6 +147,9 @@ case {}U: // {}
 
 value_template = """\
 case {}U: // {}
+  if (header.value() != "{}") {{
+    break;
+  }}
   return {{ type::header_value, uint8_t({}) }};\
 """
 
@@ -158,14 +167,14 @@ for header, entry in itertools.groupby(static_table, lambda x: x[1]):
 
     if len(values) == 0:
         index = entry[0][0]
-        cases += no_values_template.format(xxhash.xxh64_intdigest(header), header, index)
+        cases += no_values_template.format(xxhash.xxh64_intdigest(header), header, header, index)
     else:
         value_cases = ""
 
         for index, value in zip(indices, values):
-            value_cases += value_template.format(xxhash.xxh64_intdigest(value), value, index)
+            value_cases += value_template.format(xxhash.xxh64_intdigest(value), value, value, index)
 
-        cases += values_template.format(xxhash.xxh64_intdigest(header), header, value_cases, indices[0])
+        cases += values_template.format(xxhash.xxh64_intdigest(header), header, header, value_cases, indices[0])
 
 find_index = find_index_template.format(cases)
 
-- 
2.43.0


From 1111d611d0775b0b8392f6a9a3e3da9ce28ddff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:46 +0000
Subject: [PATCH 30/46] fix: qpack-interop: report output that cannot be
 written

The output file was only flushed by its destructor, where the error is lost:
on a full disk the tools exited with 0 and an incomplete result.
---
 bnl/http3/app/qpack/qpack-interop-decode.cpp | 9 +++++++++
 bnl/http3/app/qpack/qpack-interop-encode.cpp | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/bnl/http3/app/qpack/qpack-interop-decode.cpp b/bnl/http3/app/qpack/qpack-interop-decode.cpp
index f919f3b..5ca4405 100644
--- a/bnl/http3/app/qpack/qpack-interop-decode.cpp
+++ b/bnl/http3/app/qpack/qpack-interop-decode.cpp
@@ -130,5 +130,14 @@ main(int argc, char *argv[])
     }
   }
 
+  // The destructor of `output` ignores errors.
+
+  try {
+    output.close();
+  } catch (const std::ios_base::failure &e) {
+    BNL_LOG_E("Error writing output file: {}", e.what());
+    return 1;
+  }
+
   return 0;
 }
diff --git a/bnl/http3/app/qpack/qpack-interop-encode.cpp b/bnl/http3/app/qpack/qpack-interop-encode.cpp
index e8d1a87..1790c9f 100644
--- a/bnl/http3/app/qpack/qpack-interop-encode.cpp
+++ b/bnl/http3/app/qpack/qpack-interop-encode.cpp
@@ -158,5 +158,14 @@ main(int argc, char *argv[])
     }
   }
 
+  // The destructor of `output` ignores errors.
+
+  try {
+    output.close();
+  } catch (const std::ios_base::failure &e) {
+    BNL_LOG_E("Error writing output file: {}", e.what());
+    return 1;
+  }
+
   return 0;
 }
-- 
2.43.0


From 23d24f95aac598c420f7f99f8f12586270839c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:02 +0000
Subject: [PATCH 31/46] fix: quic: the peer's address is the remote end of the
 path

make_path gave the local address to ngtcp2 for both ends.
---
 bnl/quic/src/client/ngtcp2/connection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bnl/quic/src/client/ngtcp2/connection.cpp b/bnl/quic/src/client/ngtcp2/connection.cpp
index 8661b7b..b2c3e67 100644
--- a/bnl/quic/src/client/ngtcp2/connection.cpp
+++ b/bnl/quic/src/client/ngtcp2/connection.cpp
@@ -61,7 +61,7 @@ static ngtcp2_path_storage
 make_path(const path &path)
 {
   base::buffer_view local = path.local().address().bytes();
-  base::buffer_view peer = path.local().address().bytes();
+  base::buffer_view peer = path.peer().address().bytes();
 
   ngtcp2_path_storage storage = {};
   ngtcp2_path_storage_init(&storage,
-- 
2.43.0


From e607ddfd74a08c9c788f0d1662edfbf7d7e0cdc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:02 +0000
Subject: [PATCH 32/46] fix: quic: the ChaCha20 header protection mask is the
 key stream

The sample was encrypted instead of five zero bytes (RFC 9001, 5.4.4).
---
 bnl/quic/src/crypto/boringssl.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bnl/quic/src/crypto/boringssl.cpp b/bnl/quic/src/crypto/boringssl.cpp
index 0531ec5..37ff529 100644
--- a/bnl/quic/src/crypto/boringssl.cpp
+++ b/bnl/quic/src/crypto/boringssl.cpp
@@ -196,9 +196,12 @@ crypto::hp_mask(base::buffer_view_mut dest,
       nonce[1] = uint32_LE(sample.data() + 8);
       nonce[2] = uint32_LE(sample.data() + 12);
 
+      // The mask is the start of the key stream.
+      const uint8_t zeros[5] = {};
+
       CRYPTO_chacha_20(dest.data(),
-                       sample.data(),
-                       sample.size(),
+                       zeros,
+                       sizeof(zeros),
                        key.data(),
                        reinterpret_cast<uint8_t *>(nonce),
                        counter);
-- 
2.43.0


From 51039530b4139ce45f2d1092e8244b670e4615b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:38 +0000
Subject: [PATCH 33/46] fix: quic: stream data and its end are written exactly
 once

- The end was recognized by comparing the contents of the first and the last
  buffer, so it was sent too early when they were equal, and never when the
  last data was added (or written) before it.
- Buffers moved after their data had been given to ngtcp2, which keeps
  referring to it until it is acknowledged (small buffers store their data
  inline).
- An empty buffer in front was written again and again.
- An empty packet was returned when congestion control did not allow one, and
  a packet without a STREAM frame counted as an empty write.
---
 .../bnl/quic/client/ngtcp2/connection.hpp     |  8 ++-
 bnl/quic/include/bnl/quic/client/stream.hpp   | 16 ++++-
 bnl/quic/src/client/ngtcp2/connection.cpp     | 10 +--
 bnl/quic/src/client/stream.cpp                | 71 ++++++++++++++-----
 4 files changed, 79 insertions(+), 26 deletions(-)

diff --git a/bnl/quic/include/bnl/quic/client/ngtcp2/connection.hpp b/bnl/quic/include/bnl/quic/client/ngtcp2/connection.hpp
index b1905a4..10716f9 100644
--- a/bnl/quic/include/bnl/quic/client/ngtcp2/connection.hpp
+++ b/bnl/quic/include/bnl/quic/client/ngtcp2/connection.hpp
@@ -70,9 +70,11 @@ public:
 
   result<base::buffer> write_pkt();
 
-  result<std::pair<base::buffer, size_t>> write_stream(uint64_t id,
-                                                       base::buffer_view data,
-                                                       bool fin);
+  // Returns a packet and how much of `data` is in it, -1 if it has no STREAM
+  // frame at all.
+  result<std::pair<base::buffer, ssize_t>> write_stream(uint64_t id,
+                                                        base::buffer_view data,
+                                                        bool fin);
 
   result<void> read_pkt(base::buffer_view packet);
 
diff --git a/bnl/quic/include/bnl/quic/client/stream.hpp b/bnl/quic/include/bnl/quic/client/stream.hpp
index c5ef5e8..c9d2931 100644
--- a/bnl/quic/include/bnl/quic/client/stream.hpp
+++ b/bnl/quic/include/bnl/quic/client/stream.hpp
@@ -1,9 +1,13 @@
 #pragma once
 
-#include <bnl/base/buffers.hpp>
+#include <bnl/base/buffer.hpp>
 #include <bnl/quic/export.hpp>
 #include <bnl/quic/result.hpp>
 
+#include <cstddef>
+#include <cstdint>
+#include <deque>
+
 namespace bnl {
 namespace quic {
 namespace client {
@@ -27,9 +31,15 @@ public:
   bool opened() const noexcept;
 
 private:
-  base::buffers buffers_;
-  base::buffers keepalive_;
+  // All data that is not acknowledged. ngtcp2 refers to the data it was given
+  // until it is acknowledged so the buffers have to stay where they are.
+  std::deque<base::buffer> buffers_;
+  size_t acked_ = 0;   // Acknowledged bytes of the first buffer.
+  size_t next_ = 0;    // The buffer that is being written.
+  size_t written_ = 0; // Written bytes of that buffer.
+
   bool fin_ = false;
+  bool fin_written_ = false;
   bool opened_ = false;
 
   uint64_t id_;
diff --git a/bnl/quic/src/client/ngtcp2/connection.cpp b/bnl/quic/src/client/ngtcp2/connection.cpp
index b2c3e67..c1f49f8 100644
--- a/bnl/quic/src/client/ngtcp2/connection.cpp
+++ b/bnl/quic/src/client/ngtcp2/connection.cpp
@@ -1000,7 +1000,7 @@ connection::write_pkt()
   return base::buffer(storage.data(), static_cast<size_t>(rv));
 }
 
-result<std::pair<base::buffer, size_t>>
+result<std::pair<base::buffer, ssize_t>>
 connection::write_stream(uint64_t id, base::buffer_view data, bool fin)
 {
   std::array<uint8_t, NGTCP2_MAX_PKTLEN_IPV4> storage = {};
@@ -1028,12 +1028,14 @@ connection::write_stream(uint64_t id, base::buffer_view data, bool fin)
     THROW_NGTCP2(ngtcp2_conn_write_stream, static_cast<int>(rv));
   }
 
-  stream_data_written = stream_data_written == -1 ? 0 : stream_data_written;
+  // Congestion control does not allow a packet now.
+  if (rv == 0) {
+    return error::idle;
+  }
 
   base::buffer packet(storage.data(), static_cast<size_t>(rv));
 
-  return std::make_pair(std::move(packet),
-                        static_cast<size_t>(stream_data_written));
+  return std::make_pair(std::move(packet), stream_data_written);
 }
 
 result<void>
diff --git a/bnl/quic/src/client/stream.cpp b/bnl/quic/src/client/stream.cpp
index 81d424f..2aea137 100644
--- a/bnl/quic/src/client/stream.cpp
+++ b/bnl/quic/src/client/stream.cpp
@@ -3,6 +3,9 @@
 #include <bnl/base/log.hpp>
 #include <bnl/quic/client/ngtcp2/connection.hpp>
 
+#include <cassert>
+#include <tuple>
+
 namespace bnl {
 namespace quic {
 namespace client {
@@ -16,10 +19,7 @@ stream::stream(uint64_t id, ngtcp2::connection *ngtcp2)
 result<base::buffer>
 stream::send()
 {
-  if (buffers_.empty()) {
-    return error::idle;
-  }
-
+  // Streams are opened in ascending order, even if there is nothing to send yet.
   if (!opened()) {
     result<void> r = ngtcp2_->open(id_);
     if (!r) {
@@ -30,14 +30,26 @@ stream::send()
     opened_ = true;
   }
 
-  const base::buffer &first = buffers_.front();
-  bool fin = fin_ && (first == buffers_.back());
+  bool more = next_ < buffers_.size();
+
+  if (!more && (!fin_ || fin_written_)) {
+    return error::idle;
+  }
+
+  base::buffer_view data;
+  if (more) {
+    const base::buffer &buffer = buffers_[next_];
+    data = base::buffer_view(buffer.data() + written_,
+                             buffer.size() - written_);
+  }
+
+  bool fin = fin_ && next_ + 1 >= buffers_.size();
 
   base::buffer packet;
-  size_t stream_bytes_written = 0;
+  ssize_t stream_bytes_written = 0;
 
-  result<std::pair<base::buffer, size_t>> r =
-    ngtcp2_->write_stream(id_, first, fin);
+  result<std::pair<base::buffer, ssize_t>> r =
+    ngtcp2_->write_stream(id_, data, fin);
 
   if (!r) {
     if (r.error() == error::stream_id_blocked ||
@@ -50,8 +62,21 @@ stream::send()
 
   std::tie(packet, stream_bytes_written) = std::move(r).value();
 
-  base::buffer sent = buffers_.slice(stream_bytes_written);
-  keepalive_.push(std::move(sent));
+  // The packet has no STREAM frame.
+  if (stream_bytes_written < 0) {
+    return packet;
+  }
+
+  written_ += static_cast<size_t>(stream_bytes_written);
+
+  if (static_cast<size_t>(stream_bytes_written) == data.size()) {
+    fin_written_ = fin;
+
+    if (more) {
+      next_++;
+      written_ = 0;
+    }
+  }
 
   return packet;
 }
@@ -61,7 +86,9 @@ stream::add(base::buffer buffer)
 {
   assert(!fin_);
 
-  buffers_.push(std::move(buffer));
+  if (!buffer.empty()) {
+    buffers_.push_back(std::move(buffer));
+  }
 
   return base::success();
 }
@@ -79,16 +106,28 @@ stream::fin()
 result<void>
 stream::ack(size_t size)
 {
-  if (size > keepalive_.size()) {
+  size_t remaining = written_;
+  for (size_t i = 0; i < next_; i++) {
+    remaining += buffers_[i].size();
+  }
+  remaining -= acked_;
+
+  if (size > remaining) {
     BNL_LOG_E(
       "ngtcp2's acked stream ({}) data ({}) exceeds remaining data ({})",
       id_,
       size,
-      keepalive_.size());
+      remaining);
     return error::internal;
   }
 
-  keepalive_.consume(size);
+  acked_ += size;
+
+  while (next_ > 0 && acked_ >= buffers_.front().size()) {
+    acked_ -= buffers_.front().size();
+    buffers_.pop_front();
+    next_--;
+  }
 
   return base::success();
 }
@@ -96,7 +135,7 @@ stream::ack(size_t size)
 bool
 stream::finished() const noexcept
 {
-  return fin_ && buffers_.empty() && keepalive_.empty();
+  return fin_written_ && buffers_.empty();
 }
 
 bool
-- 
2.43.0


From 402e95b9de9f00f6d6544193806f343429deefb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:38 +0000
Subject: [PATCH 34/46] fix: quic: the acknowledgement of a stream's end is not
 an error

ngtcp2 acknowledges zero bytes then, and the stream may be gone already.
---
 bnl/quic/src/client/connection.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bnl/quic/src/client/connection.cpp b/bnl/quic/src/client/connection.cpp
index b5bae26..2b2e7c1 100644
--- a/bnl/quic/src/client/connection.cpp
+++ b/bnl/quic/src/client/connection.cpp
@@ -82,6 +82,11 @@ connection::acked_stream_data_offset(uint64_t id, size_t size)
 {
   auto match = streams_.find(id);
   if (match == streams_.end()) {
+    // The end of a stream that is finished otherwise.
+    if (size == 0) {
+      return base::success();
+    }
+
     BNL_LOG_E("ngtcp2 acked data for stream {} which does not exist", id);
     return error::internal;
   }
-- 
2.43.0


From 7ff9a3df90243eed5691db0f3209356fcfec60f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:43 +0000
Subject: [PATCH 35/46] fix: quic: text of the libraries is not a format string

The messages of ngtcp2 and BoringSSL were logged as format strings: braces in
them made fmt throw through C code.
---
 bnl/quic/src/client/handshake/boringssl.cpp | 2 +-
 bnl/quic/src/client/ngtcp2/connection.cpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bnl/quic/src/client/handshake/boringssl.cpp b/bnl/quic/src/client/handshake/boringssl.cpp
index ee7904e..9225200 100644
--- a/bnl/quic/src/client/handshake/boringssl.cpp
+++ b/bnl/quic/src/client/handshake/boringssl.cpp
@@ -336,7 +336,7 @@ handshake::impl::log_errors()
     std::array<char, 100> string = {};
     ERR_error_string_n(error, string.data(), string.size());
 
-    BNL_LOG_E(string.data());
+    BNL_LOG_E("{}", string.data());
   }
 }
 
diff --git a/bnl/quic/src/client/ngtcp2/connection.cpp b/bnl/quic/src/client/ngtcp2/connection.cpp
index c1f49f8..853ead8 100644
--- a/bnl/quic/src/client/ngtcp2/connection.cpp
+++ b/bnl/quic/src/client/ngtcp2/connection.cpp
@@ -644,7 +644,7 @@ connection::log(void *context, const char *format, ...) // NOLINT
 
   va_end(args); // NOLINT
 
-  BNL_LOG_T(formatted.data());
+  BNL_LOG_T("{}", formatted.data());
 }
 
 static ngtcp2_cid
-- 
2.43.0


From b41fb9e58a30bef7d4fd8d8821c77653bb8a1381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:43 +0000
Subject: [PATCH 36/46] fix: log: the end of a line goes where the line went

Lines on stderr ended on stdout.
---
 bnl/log/src/console.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bnl/log/src/console.cpp b/bnl/log/src/console.cpp
index b46f9f1..77c392c 100644
--- a/bnl/log/src/console.cpp
+++ b/bnl/log/src/console.cpp
@@ -63,7 +63,7 @@ console::log(base::log::level level,
   color = fmt::fg(fmt::color::white);
   fmt::vprint(output, color, format, args);
 
-  fmt::print("\n");
+  fmt::print(output, "\n");
 
   fflush(output);
 }
-- 
2.43.0


From 836950e25cd6a68c190e741059ab2c0813f93420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:28 +0000
Subject: [PATCH 37/46] fix: error codes keep errors apart

The values of local errors do not fit in an int: an incomplete read became the
error code 0, success, and idle and internal, say, could not be told apart. The
QUIC errors had the name of the HTTP/3 errors' category.
---
 bnl/base/src/base/system_error.cpp | 34 +++++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/bnl/base/src/base/system_error.cpp b/bnl/base/src/base/system_error.cpp
index 8ea89a2..a068579 100644
--- a/bnl/base/src/base/system_error.cpp
+++ b/bnl/base/src/base/system_error.cpp
@@ -2,6 +2,30 @@
 
 namespace bnl {
 
+// Errors that never leave this endpoint have values that do not fit in the
+// integer of an error code. They become negative.
+
+template<typename E>
+static int
+code_of(E error) noexcept
+{
+  auto value = static_cast<uint64_t>(error);
+  auto local = static_cast<uint64_t>(E::incomplete);
+
+  return value < local ? static_cast<int>(value)
+                       : -1 - static_cast<int>(value - local);
+}
+
+template<typename E>
+static E
+error_of(int code) noexcept
+{
+  auto local = static_cast<uint64_t>(E::incomplete);
+
+  return static_cast<E>(code >= 0 ? static_cast<uint64_t>(code)
+                                  : local + static_cast<uint64_t>(-(code + 1)));
+}
+
 namespace http3 {
 
 class error_category_impl : public std::error_category {
@@ -20,7 +44,7 @@ error_category_impl::name() const noexcept
 std::string
 error_category_impl::message(int code) const noexcept
 {
-  switch (static_cast<error>(code)) {
+  switch (error_of<error>(code)) {
     case error::no_error:
       return "no error";
     case error::internal:
@@ -68,7 +92,7 @@ error_category() noexcept
 std::error_code
 make_error_code(error error) noexcept
 {
-  return { static_cast<int>(error), error_category() };
+  return { code_of(error), error_category() };
 }
 
 }
@@ -85,13 +109,13 @@ public:
 const char *
 error_category_impl::name() const noexcept
 {
-  return "bnl-http3";
+  return "bnl-quic";
 }
 
 std::string
 error_category_impl::message(int code) const noexcept
 {
-  switch (static_cast<error>(code)) {
+  switch (error_of<error>(code)) {
     case error::no_error:
       return "no error";
     case error::internal:
@@ -135,7 +159,7 @@ error_category() noexcept
 std::error_code
 make_error_code(error error) noexcept
 {
-  return { static_cast<int>(error), error_category() };
+  return { code_of(error), error_category() };
 }
 
 }
-- 
2.43.0


From c849b87cfd4f5f5bd8b46440b5a531e477fa9c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:01 +0000
Subject: [PATCH 38/46] fix: endpoint: a timeout is an error

An error code of value 0 is no error to the event loop, which then returned
success after a timeout.
---
 bnl/http3/app/endpoint/os/result.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bnl/http3/app/endpoint/os/result.hpp b/bnl/http3/app/endpoint/os/result.hpp
index c03e5d5..8c059a3 100644
--- a/bnl/http3/app/endpoint/os/result.hpp
+++ b/bnl/http3/app/endpoint/os/result.hpp
@@ -6,7 +6,7 @@
 #include <system_error>
 
 enum class error {
-  timeout,
+  timeout = 1,
   resolve,
   invalid_argument,
   idle,
-- 
2.43.0


From 96b33e695e1eb88f8fcac1551a6b7a746677ca9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:01 +0000
Subject: [PATCH 39/46] fix: endpoint: an error ends the event loop

sd-event disables the source of a handler that fails and carries on: after an
error of the connection, of the response or of the socket the client hung, or
waited for its timeout.
---
 bnl/http3/app/endpoint/client.cpp | 29 ++++++++++++++++++++---------
 bnl/http3/app/endpoint/client.hpp |  2 ++
 2 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/bnl/http3/app/endpoint/client.cpp b/bnl/http3/app/endpoint/client.cpp
index 76706fe..66ce01c 100644
--- a/bnl/http3/app/endpoint/client.cpp
+++ b/bnl/http3/app/endpoint/client.cpp
@@ -76,11 +76,25 @@ client::client(client &&other) noexcept
 void
 client::setup()
 {
-  using namespace std::placeholders;
+  socket_watcher_.on_io(
+    [this](uint32_t events) { return exit_on_error(io(events)); });
+  retransmit_.on_expire([this](sd::event::duration usec) {
+    return exit_on_error(retransmit(usec));
+  });
+  timeout_.on_expire(
+    [this](sd::event::duration usec) { return exit_on_error(timeout(usec)); });
+}
+
+// sd-event only disables the source of a handler that fails. Without the source
+// nothing might ever end the loop so we do it ourselves instead.
+result<void>
+client::exit_on_error(const result<void> &r)
+{
+  if (r) {
+    return base::success();
+  }
 
-  socket_watcher_.on_io(std::bind(&client::io, this, _1));
-  retransmit_.on_expire(std::bind(&client::retransmit, this, _1));
-  timeout_.on_expire(std::bind(&client::timeout, this, _1));
+  return r.error() == error::finished ? sd_.exit() : sd_.exit(r.error());
 }
 
 result<http3::request::handle>
@@ -210,10 +224,7 @@ client::recv_once()
     while (http3.next()) {
       http3::event event = BNL_TRY(http3.get());
 
-      result<void> r = on_event_(std::move(event));
-      if (!r) {
-        return r.error() == error::finished ? sd_.exit() : sd_.exit(r.error());
-      }
+      BNL_TRY(on_event_(std::move(event)));
     }
   }
 
@@ -244,7 +255,7 @@ client::timeout(sd::event::duration usec)
 
   BNL_LOG_I("timeout");
 
-  return sd_.exit(error::timeout);
+  return error::timeout;
 }
 
 #pragma GCC diagnostic push
diff --git a/bnl/http3/app/endpoint/client.hpp b/bnl/http3/app/endpoint/client.hpp
index b091cae..020a1a3 100644
--- a/bnl/http3/app/endpoint/client.hpp
+++ b/bnl/http3/app/endpoint/client.hpp
@@ -40,6 +40,8 @@ private:
 
   void setup();
 
+  result<void> exit_on_error(const result<void> &r);
+
 private:
   os::socket::udp socket_;
 
-- 
2.43.0


From 7b324515d6a51f8f4bdcfca98b83fb821b54c7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:01 +0000
Subject: [PATCH 40/46] fix: endpoint: the expiry of the connection is a point
 in time

Adding the current time to it kept the retransmission timer from ever firing.
---
 bnl/http3/app/endpoint/client.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bnl/http3/app/endpoint/client.cpp b/bnl/http3/app/endpoint/client.cpp
index 66ce01c..f8265b4 100644
--- a/bnl/http3/app/endpoint/client.cpp
+++ b/bnl/http3/app/endpoint/client.cpp
@@ -139,7 +139,7 @@ client::send()
     r = send_once();
   } while (r);
 
-  retransmit_.update(sd_.now() + quic_.expiry());
+  retransmit_.update(quic_.expiry());
   timeout_.update(sd_.now() + quic_.timeout());
 
   if (r.error() == std::errc::resource_unavailable_try_again ||
-- 
2.43.0


From 07567490fb340d80beb987e2eabbd4ea2363108e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:01 +0000
Subject: [PATCH 41/46] fix: endpoint: report the pending error of the socket

The error was read (and thereby cleared) and then dropped, which left the client
with an error code of value 0.
---
 bnl/http3/app/endpoint/client.cpp        | 11 ++++-------
 bnl/http3/app/endpoint/client.hpp        |  1 -
 bnl/http3/app/endpoint/os/socket/udp.cpp |  2 +-
 3 files changed, 5 insertions(+), 9 deletions(-)

diff --git a/bnl/http3/app/endpoint/client.cpp b/bnl/http3/app/endpoint/client.cpp
index f8265b4..eded47b 100644
--- a/bnl/http3/app/endpoint/client.cpp
+++ b/bnl/http3/app/endpoint/client.cpp
@@ -108,7 +108,10 @@ result<void>
 client::io(uint32_t events)
 {
   if ((events & EPOLLERR) != 0U) {
-    return error(socket_.error());
+    std::error_code ec = socket_.error();
+    if (ec) {
+      return ec;
+    }
   }
 
   if ((events & EPOLLOUT) != 0U || (events & EPOLLHUP) != 0U) {
@@ -231,12 +234,6 @@ client::recv_once()
   return base::success();
 }
 
-result<void>
-client::error(std::error_code ec)
-{
-  return ec;
-}
-
 result<void>
 client::retransmit(sd::event::duration usec)
 {
diff --git a/bnl/http3/app/endpoint/client.hpp b/bnl/http3/app/endpoint/client.hpp
index 020a1a3..8f853cf 100644
--- a/bnl/http3/app/endpoint/client.hpp
+++ b/bnl/http3/app/endpoint/client.hpp
@@ -34,7 +34,6 @@ private:
   result<void> recv();
   result<void> recv_once();
 
-  result<void> error(std::error_code ec);
   result<void> retransmit(sd::event::duration usec);
   result<void> timeout(sd::event::duration usec);
 
diff --git a/bnl/http3/app/endpoint/os/socket/udp.cpp b/bnl/http3/app/endpoint/os/socket/udp.cpp
index 5f0e718..954b348 100644
--- a/bnl/http3/app/endpoint/os/socket/udp.cpp
+++ b/bnl/http3/app/endpoint/os/socket/udp.cpp
@@ -159,7 +159,7 @@ udp::error() const noexcept
     THROW_SYSTEM(getsockopt, errno);
   }
 
-  return {};
+  return { error, std::system_category() };
 }
 
 result<void>
-- 
2.43.0


From a7c8512abdd1686d71b5af6b0ee8cc547d1b9017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:01 +0000
Subject: [PATCH 42/46] fix: endpoint: a signal is not a success

The event loop exited with code 0 when interrupted so the client printed what it
had of a response, and reported success.
---
 bnl/http3/app/endpoint/sd/event/loop.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bnl/http3/app/endpoint/sd/event/loop.cpp b/bnl/http3/app/endpoint/sd/event/loop.cpp
index cd8414e..10c857e 100644
--- a/bnl/http3/app/endpoint/sd/event/loop.cpp
+++ b/bnl/http3/app/endpoint/sd/event/loop.cpp
@@ -96,7 +96,12 @@ loop::signal(int signal)
     THROW_SYSTEM(sigprocmask, errno);
   }
 
-  rv = sd_event_add_signal(event_.get(), nullptr, signal, nullptr, nullptr);
+  // Without a handler, sd-event exits the loop with the userdata as its code.
+  rv = sd_event_add_signal(event_.get(),
+                           nullptr,
+                           signal,
+                           nullptr,
+                           reinterpret_cast<void *>(intptr_t{ -EINTR }));
   if (rv < 0) {
     THROW_SYSTEM(sd_event_add_signal, -rv);
   }
-- 
2.43.0


From 61c7d15dfff95fffb7b4e9dd3673d145c7b56377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:01 +0000
Subject: [PATCH 43/46] fix: endpoint: a datagram that arrives while reading is
 not lost

---
 bnl/http3/app/endpoint/os/socket/udp.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/bnl/http3/app/endpoint/os/socket/udp.cpp b/bnl/http3/app/endpoint/os/socket/udp.cpp
index 954b348..5e89194 100644
--- a/bnl/http3/app/endpoint/os/socket/udp.cpp
+++ b/bnl/http3/app/endpoint/os/socket/udp.cpp
@@ -5,7 +5,6 @@
 #include <arpa/inet.h>
 #include <cassert>
 #include <sys/epoll.h>
-#include <sys/ioctl.h>
 
 static sockaddr_storage
 make_sockaddr(ip::endpoint endpoint)
@@ -196,15 +195,21 @@ udp::add(base::buffer buffer)
 result<base::buffer>
 udp::recv()
 {
-  int size = 0;
+  // With MSG_TRUNC, the size of the first datagram is returned. FIONREAD doesn't
+  // tell an empty queue from an empty datagram: a datagram that arrives between
+  // both calls would be cut to zero bytes.
+  ssize_t rv = ::recv(socket_, nullptr, 0, MSG_PEEK | MSG_TRUNC);
+  if (rv == -1) {
+    if (errno == EAGAIN) {
+      return { errno, std::system_category() };
+    }
 
-  if ((ioctl(socket_, FIONREAD, &size)) == -1) { // NOLINT
-    THROW_SYSTEM(ioctl, errno);
+    THROW_SYSTEM(read, errno);
   }
 
-  base::buffer datagram(static_cast<size_t>(size));
+  base::buffer datagram(static_cast<size_t>(rv));
 
-  ssize_t rv = ::recv(socket_, datagram.data(), datagram.size(), 0);
+  rv = ::recv(socket_, datagram.data(), datagram.size(), 0);
   if (rv == -1) {
     if (errno == EAGAIN) {
       return { errno, std::system_category() };
-- 
2.43.0


From 5cfd7287cf9b6f8bb445aae4a38a6b90ac0ff84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:02 +0000
Subject: [PATCH 44/46] fix: endpoint: a socket or event source that cannot be
 had is an error

The value of a failed result was taken without a look.
---
 bnl/http3/app/endpoint/client.cpp        | 21 +++++++++++----------
 bnl/http3/app/endpoint/os/result.hpp     | 21 +++++++++++++++++++++
 bnl/http3/app/endpoint/os/socket/udp.cpp |  2 +-
 3 files changed, 33 insertions(+), 11 deletions(-)

diff --git a/bnl/http3/app/endpoint/client.cpp b/bnl/http3/app/endpoint/client.cpp
index eded47b..4b6976c 100644
--- a/bnl/http3/app/endpoint/client.cpp
+++ b/bnl/http3/app/endpoint/client.cpp
@@ -7,6 +7,7 @@
 #include <bnl/log/console.hpp>
 
 #include <csignal>
+#include <exception>
 #include <iostream>
 #include <memory>
 
@@ -45,16 +46,16 @@ default_quic_params()
 
 client::client(const ip::host &host, ip::endpoint peer)
   : socket_(peer)
-  , socket_watcher_(sd_.io(socket_.fd()).assume_value())
-  , retransmit_(sd_.timer().assume_value())
-  , timeout_((sd_.timer().assume_value()))
+  , socket_watcher_(value_or_throw(sd_.io(socket_.fd())))
+  , retransmit_(value_or_throw(sd_.timer()))
+  , timeout_(value_or_throw(sd_.timer()))
   , quic_(host,
           quic::path(socket_.local(), socket_.peer()),
           default_quic_params(),
           sd_.clock())
 {
-  sd_.signal(SIGINT).assume_value();
-  sd_.signal(SIGTERM).assume_value();
+  value_or_throw(sd_.signal(SIGINT));
+  value_or_throw(sd_.signal(SIGTERM));
 
   setup();
 
@@ -339,11 +340,11 @@ run(int argc, char *argv[])
 int
 main(int argc, char *argv[])
 {
-  result<void> r = run(argc, argv);
-
-  if (!r) {
+  try {
+    result<void> r = run(argc, argv);
+    return r ? 0 : 1;
+  } catch (const std::exception &e) {
+    std::cerr << e.what() << std::endl;
     return 1;
   }
-
-  return 0;
 }
diff --git a/bnl/http3/app/endpoint/os/result.hpp b/bnl/http3/app/endpoint/os/result.hpp
index 8c059a3..44541cb 100644
--- a/bnl/http3/app/endpoint/os/result.hpp
+++ b/bnl/http3/app/endpoint/os/result.hpp
@@ -4,6 +4,7 @@
 #include <bnl/base/result.hpp>
 
 #include <system_error>
+#include <utility>
 
 enum class error {
   timeout = 1,
@@ -24,6 +25,26 @@ namespace std {
 template<typename T>
 using result = bnl::base::result<T, std::error_code>;
 
+// For constructors, which can't return an error.
+template<typename T>
+T
+value_or_throw(result<T> r)
+{
+  if (!r) {
+    throw std::system_error(r.error());
+  }
+
+  return std::move(r).value();
+}
+
+inline void
+value_or_throw(const result<void> &r)
+{
+  if (!r) {
+    throw std::system_error(r.error());
+  }
+}
+
 #define THROW_SYSTEM(function, errno)                                          \
   {                                                                            \
     std::error_code ec = { errno, std::system_category() };                    \
diff --git a/bnl/http3/app/endpoint/os/socket/udp.cpp b/bnl/http3/app/endpoint/os/socket/udp.cpp
index 5e89194..41193dc 100644
--- a/bnl/http3/app/endpoint/os/socket/udp.cpp
+++ b/bnl/http3/app/endpoint/os/socket/udp.cpp
@@ -108,7 +108,7 @@ namespace os {
 namespace socket {
 
 udp::udp(ip::endpoint peer)
-  : socket_(make_socket(peer).assume_value())
+  : socket_(value_or_throw(make_socket(peer)))
 {}
 
 ip::endpoint
-- 
2.43.0


From bb3d85532eda28d132cfd639104fe461bcb44497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:02 +0000
Subject: [PATCH 45/46] fix: endpoint: the port has to be a port

What is no number ended the client with an exception, and what is too large for a
port was cut down to another port.
---
 bnl/http3/app/endpoint/client.cpp | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/bnl/http3/app/endpoint/client.cpp b/bnl/http3/app/endpoint/client.cpp
index 4b6976c..31ebece 100644
--- a/bnl/http3/app/endpoint/client.cpp
+++ b/bnl/http3/app/endpoint/client.cpp
@@ -9,7 +9,9 @@
 #include <csignal>
 #include <exception>
 #include <iostream>
+#include <limits>
 #include <memory>
+#include <string>
 
 #include <sys/epoll.h>
 
@@ -259,6 +261,30 @@ client::timeout(sd::event::duration usec)
 #pragma GCC diagnostic push
 #pragma GCC diagnostic ignored "-Waddress"
 
+static result<ip::port>
+parse_port(const std::string &string)
+{
+  static constexpr unsigned long max = std::numeric_limits<uint16_t>::max();
+
+  // More than 5 digits are too many, unless they're leading zeroes.
+  size_t first = string.find_first_not_of('0');
+
+  if (first == std::string::npos || string.size() - first > 5 ||
+      string.find_first_not_of("0123456789") != std::string::npos) {
+    BNL_LOG_E("Invalid port {}", string);
+    return error::invalid_argument;
+  }
+
+  unsigned long port = std::stoul(string);
+
+  if (port > max) {
+    BNL_LOG_E("Invalid port {}", string);
+    return error::invalid_argument;
+  }
+
+  return static_cast<uint16_t>(port);
+}
+
 static result<void>
 run(int argc, char *argv[])
 {
@@ -285,7 +311,7 @@ run(int argc, char *argv[])
   }
 
   ip::address address = resolved[0];
-  ip::port port = static_cast<uint16_t>(std::stoul(argv[2]));
+  ip::port port = BNL_TRY(parse_port(argv[2]));
   ip::endpoint peer(address, port);
 
   client client(host, peer);
-- 
2.43.0


From 6ce359341ee6d577e729f8760ab4f3db91bf470e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:02 +0000
Subject: [PATCH 46/46] fix: endpoint: a response that cannot be written is no
 success

---
 bnl/http3/app/endpoint/client.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bnl/http3/app/endpoint/client.cpp b/bnl/http3/app/endpoint/client.cpp
index 31ebece..208807a 100644
--- a/bnl/http3/app/endpoint/client.cpp
+++ b/bnl/http3/app/endpoint/client.cpp
@@ -358,6 +358,10 @@ run(int argc, char *argv[])
   std::cout.write(reinterpret_cast<char *>(body.data()),
                   static_cast<std::streamsize>(body.size()));
 
+  if (!std::cout.flush()) {
+    return std::make_error_code(std::errc::io_error);
+  }
+
   return base::success();
 }
 
-- 
2.43.0

