From 883ad61e36f91c9c5a48ec18424356599f711788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:57 +0000
Subject: [PATCH 01/23] fix: hex_to_bytes checks the target size and the
 leading nibble before writing

---
 src/util/bytes.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/util/bytes.c b/src/util/bytes.c
index e21decb..43e7a85 100644
--- a/src/util/bytes.c
+++ b/src/util/bytes.c
@@ -290,20 +290,23 @@ static inline int hexchar_to_int(char c) {
 }
 
 int hex_to_bytes(const char* hexstring, int len, bytes_t buffer) {
-  size_t hex_len = len == -1 ? strlen(hexstring) : (size_t) len;
   if (!hexstring || !buffer.data) return -1;
+  size_t hex_len = len == -1 ? strlen(hexstring) : (size_t) len;
 
   // Handle odd-length hex strings by padding with leading zero
   int dst_offset = hex_len % 2;
   // Skip optional "0x" prefix
-  int src_offset = (hexstring[0] == '0' && hexstring[1] == 'x') ? 2 : 0;
-
-  // Handle leading nibble for odd-length strings
-  if (dst_offset) buffer.data[0] = hexchar_to_int(hexstring[src_offset++]);
+  size_t src_offset = (hex_len >= 2 && hexstring[0] == '0' && hexstring[1] == 'x') ? 2 : 0;
 
   // Validate buffer has enough space for the conversion
-  if ((hex_len - src_offset) % 2 || (buffer.len - dst_offset) < (hex_len - src_offset) / 2)
-    return -1;
+  if (hex_len - src_offset > (size_t) buffer.len * 2) return -1;
+
+  // Handle leading nibble for odd-length strings
+  if (dst_offset) {
+    int nibble = hexchar_to_int(hexstring[src_offset++]);
+    if (nibble == -1) return -1;
+    buffer.data[0] = (uint8_t) nibble;
+  }
 
   // Convert pairs of hex characters to bytes
   for (size_t i = src_offset; i < hex_len; i += 2) {
-- 
2.43.0


From e044cd14a15c7c73734c4ae5893e8bbe538b401c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:16 +0000
Subject: [PATCH 02/23] fix: appending to a fixed-size buffer never writes
 behind its limit

---
 src/util/bytes.c | 74 +++++++++++++++++++++---------------------------
 1 file changed, 33 insertions(+), 41 deletions(-)

diff --git a/src/util/bytes.c b/src/util/bytes.c
index 43e7a85..5dafdc1 100644
--- a/src/util/bytes.c
+++ b/src/util/bytes.c
@@ -363,65 +363,57 @@ static inline void buffer_add_chars_escaped(buffer_t* buffer, const char* data)
     }
   }
 
-  buffer_grow(buffer, buffer->data.len + len + escaped_len + 1);
-
-  // Fast path: if no escaping needed, use buffer_append
-  if (escaped_len == 0) {
-    buffer_append(buffer, bytes(str, len));
-    buffer->data.data[buffer->data.len] = 0;
-    return;
-  }
+  // fixed-size buffers don't grow, so the content is truncated (keeping space for the NULL-terminator)
+  size_t limit = buffer_grow(buffer, buffer->data.len + len + escaped_len + 1);
+  if (buffer->data.len >= limit) return;
 
   // Perform the actual escaping
   for (int i = 0; i < len; i++) {
-    uint8_t c = str[i];
+    uint8_t  c       = str[i];
+    uint8_t  esc[6]  = {'\\', 0};
+    uint32_t esc_len = 2;
 
     switch (c) {
       case '"':
-        buffer->data.data[buffer->data.len++] = '\\';
-        buffer->data.data[buffer->data.len++] = '"';
-        break;
       case '\\':
-        buffer->data.data[buffer->data.len++] = '\\';
-        buffer->data.data[buffer->data.len++] = '\\';
+        esc[1] = c;
         break;
       case '\b':
-        buffer->data.data[buffer->data.len++] = '\\';
-        buffer->data.data[buffer->data.len++] = 'b';
+        esc[1] = 'b';
         break;
       case '\f':
-        buffer->data.data[buffer->data.len++] = '\\';
-        buffer->data.data[buffer->data.len++] = 'f';
+        esc[1] = 'f';
         break;
       case '\n':
-        buffer->data.data[buffer->data.len++] = '\\';
-        buffer->data.data[buffer->data.len++] = 'n';
+        esc[1] = 'n';
         break;
       case '\r':
-        buffer->data.data[buffer->data.len++] = '\\';
-        buffer->data.data[buffer->data.len++] = 'r';
+        esc[1] = 'r';
         break;
       case '\t':
-        buffer->data.data[buffer->data.len++] = '\\';
-        buffer->data.data[buffer->data.len++] = 't';
+        esc[1] = 't';
         break;
 
       default:
         if (c < 0x20) {
           // Other control characters: escape as \uXXXX
-          buffer->data.data[buffer->data.len++] = '\\';
-          buffer->data.data[buffer->data.len++] = 'u';
-          buffer->data.data[buffer->data.len++] = '0';
-          buffer->data.data[buffer->data.len++] = '0';
-          buffer->data.data[buffer->data.len++] = hex_digits[(c >> 4) & 0x0F];
-          buffer->data.data[buffer->data.len++] = hex_digits[c & 0x0F];
+          esc[1]  = 'u';
+          esc[2]  = '0';
+          esc[3]  = '0';
+          esc[4]  = hex_digits[(c >> 4) & 0x0F];
+          esc[5]  = hex_digits[c & 0x0F];
+          esc_len = 6;
         }
         else {
           // Regular character (including UTF-8 multi-byte sequences)
-          buffer->data.data[buffer->data.len++] = c;
+          esc[0]  = c;
+          esc_len = 1;
         }
         break;
     }
+
+    if (buffer->data.len + esc_len >= limit) break;
+    buffer_append(buffer, bytes(esc, esc_len));
   }
 
   buffer->data.data[buffer->data.len] = 0;
@@ -486,7 +478,7 @@ bytes_t bytes_read(char* filename) {
 }
 
 void buffer_add_bytes(buffer_t* buf, uint32_t len, ...) {
-  buffer_grow(buf, buf->data.len + len);
+  if (buffer_grow(buf, buf->data.len + len) < buf->data.len + len) return; // fixed-size buffer without enough space
   va_list args;
   va_start(args, len);
   for (uint32_t i = 0; i < len; i++) {
@@ -497,14 +489,14 @@ void buffer_add_bytes(buffer_t* buf, uint32_t len, ...) {
 }
 
 void buffer_add_be(buffer_t* buffer, uint64_t value, uint32_t len) {
-  buffer_grow(buffer, buffer->data.len + len);
+  if (buffer_grow(buffer, buffer->data.len + len) < buffer->data.len + len) return; // fixed-size buffer without enough space
   uint32_t s = buffer->data.len;
   for (uint32_t i = 0; i < len; i++)
     buffer->data.data[s + len - i - 1] = (value >> (i << 3)) & 0xFF;
   buffer->data.len += len;
 }
 void buffer_add_le(buffer_t* buffer, uint64_t value, uint32_t len) {
-  buffer_grow(buffer, buffer->data.len + len);
+  if (buffer_grow(buffer, buffer->data.len + len) < buffer->data.len + len) return; // fixed-size buffer without enough space
   uint32_t s = buffer->data.len;
   for (uint32_t i = 0; i < len; i++)
     buffer->data.data[s + i] = (value >> (i << 3)) & 0xFF;
@@ -653,7 +645,7 @@ char* bprintf(buffer_t* buf, const char* fmt, ...) {
         case 'u': { // write bytes as hex without leading zeros
           uint32_t len = buf->data.len;
           buffer_add_hex_chars(buf, bytes_remove_leading_zeros(va_arg(args, bytes_t)));
-          if (buf->data.data[len] == '0')
+          if (buf->data.len > len && buf->data.data[len] == '0')
             buffer_splice(buf, len, 1, bytes(NULL, 0));
           break;
         }
@@ -724,12 +716,12 @@ char* bprintf(buffer_t* buf, const char* fmt, ...) {
   }
   va_end(args);
   if (last_pos != p)
-    buffer_add_chars(buf, last_pos);                            // automaticly appen NULL-Terminator
-  else if (buffer_grow(buf, buf->data.len + 1) > buf->data.len) // can we add the NULL-Terminator?
-    buf->data.data[buf->data.len] = 0;                          // then add it
-  else {                                                        // so we reached a limit without space for the NULL-Terminator
-    buf->data.len--;                                            // remove the last character
-    buf->data.data[buf->data.len] = 0;                          // then add it
+    buffer_add_chars(buf, last_pos);
+  if (buffer_grow(buf, buf->data.len + 1) > buf->data.len) // can we add the NULL-Terminator?
+    buf->data.data[buf->data.len] = 0;                     // then add it
+  else {                                                   // so we reached a limit without space for the NULL-Terminator
+    buf->data.len--;                                       // remove the last character
+    buf->data.data[buf->data.len] = 0;                     // then add it
   }
   return (char*) buf->data.data;
 }
-- 
2.43.0


From 574c62636d1fb5fe70608dc14868a7b23e6048da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:40 +0000
Subject: [PATCH 03/23] fix: json conversions stay within fixed-size buffers
 and reject hex numbers above 64 bit

---
 src/util/json.c | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/util/json.c b/src/util/json.c
index 7810e71..9417807 100644
--- a/src/util/json.c
+++ b/src/util/json.c
@@ -337,25 +337,25 @@ char* json_as_string(json_t value, buffer_t* buffer) {
   buffer_t tmp = {0};
   if (!buffer) buffer = &tmp;
   buffer->data.len = 0;
-  buffer_grow(buffer, value.len + 1);
+  size_t max_len = buffer_grow(buffer, value.len + 1) - 1; // fixed-size buffers truncate, but keep space for the NULL-terminator
   if (value.type == JSON_TYPE_STRING) {
-    buffer_append(buffer, bytes((uint8_t*) value.start + 1, value.len - 2));
+    buffer_append(buffer, bytes((uint8_t*) value.start + 1, value.len - 2 < max_len ? value.len - 2 : max_len));
     buffer->data.data[buffer->data.len] = '\0';
     buffer->data.len++;
     json_deescape_string(buffer);
   }
   else {
-    buffer_append(buffer, bytes((uint8_t*) value.start, value.len));
+    buffer_append(buffer, bytes((uint8_t*) value.start, value.len < max_len ? value.len : max_len));
     buffer->data.data[buffer->data.len] = '\0';
   }
   return (char*) buffer->data.data;
 }
 
 uint64_t json_as_uint64(json_t value) {
-  uint8_t  tmp[20] = {0};
+  uint8_t  tmp[24] = {0}; // a decimal uint64 has up to 20 digits
   buffer_t buffer  = stack_buffer(tmp);
   if (value.len > 4 && value.start && value.start[1] == '0' && value.start[2] == 'x') {
-    int len = hex_to_bytes(value.start + 1, value.len - 2, bytes(tmp, 20));
+    int len = hex_to_bytes(value.start + 1, value.len - 2, bytes(tmp, 8));
     if (len == -1) return 0;
     memmove(tmp + 8 - len, tmp, len);
     memset(tmp, 0, 8 - len);
@@ -372,16 +372,15 @@ bytes_t json_as_bytes(json_t value, buffer_t* buffer) {
   buffer_t tmp = {0};
   if (!buffer) buffer = &tmp;
   if (value.type == JSON_TYPE_NUMBER) {
+    if (buffer_grow(buffer, 8) < 8) return NULL_BYTES;
     buffer->data.len = 8;
-    buffer_grow(buffer, 8);
     uint64_to_be(buffer->data.data, json_as_uint64(value));
     return buffer->data;
   }
   if (value.type != JSON_TYPE_STRING) return NULL_BYTES;
 
-  buffer_grow(buffer, value.len / 2);
-  buffer->data.len = value.len;
-  int len          = hex_to_bytes(value.start + 1, value.len - 2, buffer->data);
+  size_t max_len = buffer_grow(buffer, value.len / 2);
+  int    len     = hex_to_bytes(value.start + 1, value.len - 2, bytes(buffer->data.data, max_len));
   if (len == -1) return NULL_BYTES;
   buffer->data.len = (uint32_t) len;
   return buffer->data;
@@ -396,9 +395,9 @@ bool json_as_null(json_t value) {
 }
 
 void buffer_add_json(buffer_t* buffer, json_t data) {
-  buffer_grow(buffer, buffer->data.len + data.len + 1);
+  size_t max_len = buffer_grow(buffer, buffer->data.len + data.len + 1);
   buffer_append(buffer, bytes((uint8_t*) data.start, data.len));
-  buffer->data.data[buffer->data.len] = 0;
+  if (buffer->data.len < max_len) buffer->data.data[buffer->data.len] = 0;
 }
 
 char* json_new_string(json_t parent) {
-- 
2.43.0


From 691eb79287c2d7df139c5cea72a0bc629ae77e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:49 +0000
Subject: [PATCH 04/23] fix: json_validate rejects unprefixed, oversized and
 non-decimal values

---
 src/util/json_validate.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/util/json_validate.c b/src/util/json_validate.c
index 68a3456..29baf14 100644
--- a/src/util/json_validate.c
+++ b/src/util/json_validate.c
@@ -155,7 +155,7 @@ static const char* check_object(json_t ob, const char* def, const char* error_pr
 
 static const char* check_hex(json_t val, int len, bool isuint, const char* error_prefix) {
   if (val.type != JSON_TYPE_STRING) ERROR("%sExpected hex string", error_prefix);
-  if (val.start[1] != '0' && val.start[2] != 'x') ERROR("%sExpected hex prefixed (0x) string", error_prefix);
+  if (val.len < 4 || val.start[1] != '0' || val.start[2] != 'x') ERROR("%sExpected hex prefixed (0x) string", error_prefix);
   int l = 0;
   for (int i = 3; i < val.len - 1; i++, l++) {
     if (!isxdigit((unsigned char)val.start[i])) ERROR("%sExpected hex string", error_prefix);
@@ -164,8 +164,8 @@ static const char* check_hex(json_t val, int len, bool isuint, const char* error
   if (len > 0 && (l % 2 || l / 2 != len)) ERROR("%sExpected hex string with fixed size (%d) but got %d bytes", error_prefix, len, l / 2);
   if (isuint && (l == 0 || (val.start[3] == '0' && l > 1)))
     ERROR("%sno leading zeros allowed for uint", error_prefix);
-  if (isuint && l / 2 > 32) ERROR("%sexpected uint with max 32 bytes length, but got %d bytes ", error_prefix, l / 2);
-  if (len < 0 && l / 2 > (-len)) ERROR("%sexpected uint with max %d bytes length, but got %d bytes ", error_prefix, -len, l / 2);
+  if (isuint && l > 64) ERROR("%sexpected uint with max 32 bytes length, but got %d bytes ", error_prefix, l / 2);
+  if (len < 0 && l > (-len) * 2) ERROR("%sexpected uint with max %d bytes length, but got %d bytes ", error_prefix, -len, l / 2);
   return NULL;
 }
 
@@ -194,7 +194,7 @@ const char* json_validate(json_t val, const char* def, const char* error_prefix)
   if (strncmp(def, "hex32", 5) == 0) return check_hex(val, -32, false, error_prefix);
   if (strncmp(def, "bytes", 5) == 0) return check_hex(val, 0, false, error_prefix);
   if (strncmp(def, "uint", 4) == 0) return val.type == JSON_TYPE_NUMBER ? NULL : strdup("Expected uint");
-  if (strncmp(def, "suint", 5) == 0) return val.type == JSON_TYPE_STRING ? NULL : strdup("Expected suint");
+  if (strncmp(def, "suint", 5) == 0) return check_suint(val, error_prefix);
   if (strncmp(def, "bool", 4) == 0) return val.type == JSON_TYPE_BOOLEAN ? NULL : strdup("Expected boolean");
   if (strncmp(def, "block", 5) == 0) return check_block(val, error_prefix);
   ERROR("%sUnknown type %s", error_prefix ? error_prefix : "", def);
-- 
2.43.0


From f4456ec30bd04e73e04c3edc63f22a92597d172a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:14 +0000
Subject: [PATCH 05/23] fix: ssz validation checks the fixed part, list limits,
 bit list delimiters and empty unions

---
 src/util/ssz.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/util/ssz.c b/src/util/ssz.c
index f47e727..4d3a726 100644
--- a/src/util/ssz.c
+++ b/src/util/ssz.c
@@ -143,12 +143,12 @@ bool ssz_is_valid(ssz_ob_t ob, bool recursive, c4_state_t* state) {
         if (ob.bytes.len < SSZ_OFFSET_SIZE) THROW_INVALID("Invalid bytelength for list");
         uint32_t first_offset = uint32_from_le(ob.bytes.data);
         // First offset must be aligned and within bounds
-        if (first_offset >= ob.bytes.len || first_offset < SSZ_OFFSET_SIZE || first_offset % SSZ_OFFSET_SIZE != 0)
+        if (first_offset > ob.bytes.len || first_offset < SSZ_OFFSET_SIZE || first_offset % SSZ_OFFSET_SIZE != 0 || first_offset / SSZ_OFFSET_SIZE > ob.def->def.vector.len)
           THROW_INVALID("Invalid first offset for list");
         uint32_t offset = first_offset;
         for (int i = SSZ_OFFSET_SIZE; i < first_offset; i += SSZ_OFFSET_SIZE) {
           uint32_t next_offset = uint32_from_le(ob.bytes.data + i);
-          if (next_offset >= ob.bytes.len || next_offset < offset) THROW_INVALID("Invalid  offset for list");
+          if (next_offset > ob.bytes.len || next_offset < offset) THROW_INVALID("Invalid  offset for list");
           if (recursive && !ssz_is_valid(ssz_ob(*ob.def->def.vector.type, bytes(ob.bytes.data + offset, next_offset - offset)), recursive, state)) return false;
           offset = next_offset;
         }
@@ -170,8 +170,8 @@ bool ssz_is_valid(ssz_ob_t ob, bool recursive, c4_state_t* state) {
       // Bit vector length must match definition exactly
       RETURN_VALID_IF(ob.bytes.len == (ob.def->def.vector.len + 7) >> 3, "Invalid length for bit vector");
     case SSZ_TYPE_BIT_LIST:
-      // Bit list length can be up to max length
-      RETURN_VALID_IF(ob.bytes.len <= (ob.def->def.vector.len + 7) >> 3, "Invalid length for bit list");
+      // Bit list length can be up to max length, and the last byte must contain the delimiter bit
+      RETURN_VALID_IF(ob.bytes.len > 0 && ob.bytes.data[ob.bytes.len - 1] && ssz_len(ob) <= ob.def->def.vector.len, "Invalid length for bit list");
     case SSZ_TYPE_UINT:
       // Uint length must match definition
       RETURN_VALID_IF(ob.bytes.len == ob.def->def.uint.len, "Invalid length for uint");
@@ -182,12 +182,15 @@ bool ssz_is_valid(ssz_ob_t ob, bool recursive, c4_state_t* state) {
         ssz_ob_t last_ob     = {0};
         uint32_t last_offset = 0;
         uint32_t pos         = 0;
+        size_t   fixed_len   = 0; // length of the fixed part, all offsets must point behind it
+        for (int i = 0; i < ob.def->def.container.len; i++) fixed_len += ssz_fixed_length(ob.def->def.container.elements + i);
+        if (fixed_len > ob.bytes.len) THROW_INVALID("Invalid length for container");
         for (int i = 0; i < ob.def->def.container.len; i++) {
           const ssz_def_t* def = ob.def->def.container.elements + i;
           if (ssz_is_dynamic(def)) {
             uint32_t offset = uint32_from_le(ob.bytes.data + pos);
             // Validate offset: must be within bounds, after fixed portion, and monotonically increasing
-            if (offset > ob.bytes.len || offset < pos + SSZ_OFFSET_SIZE || (last_offset > 0 && last_offset > offset))
+            if (offset > ob.bytes.len || offset < fixed_len || (last_offset > 0 && last_offset > offset))
               THROW_INVALID("Invalid offset for container");
             if (last_ob.def) {
               last_ob.bytes = bytes(ob.bytes.data + last_offset, offset - last_offset);
@@ -213,6 +216,7 @@ bool ssz_is_valid(ssz_ob_t ob, bool recursive, c4_state_t* state) {
     case SSZ_TYPE_UNION:
       // Union: first byte is selector, remaining bytes are the selected variant
       if (ob.bytes.len == 0 || ob.bytes.data[0] >= ob.def->def.container.len) THROW_INVALID("Invalid selector for union");
+      if (ob.def->def.container.elements[ob.bytes.data[0]].type == SSZ_TYPE_NONE && ob.bytes.len != 1) THROW_INVALID("Invalid length for union");
       if (recursive && ob.def->def.container.elements[ob.bytes.data[0]].type != SSZ_TYPE_NONE && !ssz_is_valid(ssz_ob(ob.def->def.container.elements[ob.bytes.data[0]], bytes(ob.bytes.data + 1, ob.bytes.len - 1)), recursive, state)) return false;
       return true;
     default:
@@ -247,6 +251,7 @@ uint32_t ssz_len(ssz_ob_t ob) {
     case SSZ_TYPE_BIT_VECTOR:
       return ob.bytes.len * 8;
     case SSZ_TYPE_BIT_LIST: {
+      if (ob.bytes.len == 0) return 0;
       uint8_t last_bit = ob.bytes.data[ob.bytes.len - 1];
       if (last_bit == 1) return ob.bytes.len * 8 - 8;
       for (int i = 7; i >= 0; i--) {
-- 
2.43.0


From a9922aeab51268d7c6bf08f32a2a17327afabd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:17 +0000
Subject: [PATCH 06/23] fix: ssz builder keeps uint256 within 32 bytes and
 writes booleans

---
 src/util/ssz_builder.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/util/ssz_builder.c b/src/util/ssz_builder.c
index 62bb05f..76dd356 100644
--- a/src/util/ssz_builder.c
+++ b/src/util/ssz_builder.c
@@ -156,6 +156,7 @@ void ssz_add_bytes(ssz_builder_t* buffer, const char* name, bytes_t data) {
 }
 
 void ssz_add_uint256(ssz_builder_t* buffer, bytes_t data) {
+  if (data.len > 32) data = bytes(data.data + data.len - 32, 32); // keep the lower 256 bits
   buffer_grow(&buffer->fixed, buffer->fixed.data.len + 32);
   uint8_t* ptr = buffer->fixed.data.data + buffer->fixed.data.len;
   for (int i = 0; i < data.len; i++, ptr++) {
@@ -301,6 +302,7 @@ ssz_ob_t ssz_from_json(json_t json, const ssz_def_t* def, c4_state_t* state) {
       // Boolean: convert JSON boolean to 0 or 1
       buffer_grow(&buf.fixed, 1);
       buf.fixed.data.data[0] = json_as_bool(json) ? 1 : 0;
+      buf.fixed.data.len     = 1;
       return (ssz_ob_t) {.def = def, .bytes = buf.fixed.data};
     }
     case SSZ_TYPE_NONE: {
-- 
2.43.0


From d0bb29ab3ff6edcd5740f7e08497e3f71b137b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:32 +0000
Subject: [PATCH 07/23] solver hook: keep SSZ definitions constant for the
 solver (C4_SOLVER_HOOKS)

---
 src/util/ssz.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/util/ssz.h b/src/util/ssz.h
index 77cb2fd..087a8b5 100644
--- a/src/util/ssz.h
+++ b/src/util/ssz.h
@@ -89,6 +89,9 @@ struct ssz_def {
   union {
     struct {
       uint32_t len;
+#ifdef C4_SOLVER_HOOKS
+      uint32_t pad[3]; /**< as large as the other variants, so a solver keeps initialized definitions as constants */
+#endif
     } uint; /**< basic uint definitions */
     struct ssz_container {
       const ssz_def_t* elements; /**< the elements in the container */
-- 
2.43.0


From 7a449522492d7b9734ccbbfdcb78a64bd6df456a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:33 +0000
Subject: [PATCH 08/23] fix: incomplete merkle proofs never yield a root and
 gindexes above 32 bit are combined correctly

---
 src/util/ssz_merkle.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/util/ssz_merkle.c b/src/util/ssz_merkle.c
index 070c8d2..6abed4b 100644
--- a/src/util/ssz_merkle.c
+++ b/src/util/ssz_merkle.c
@@ -609,7 +609,7 @@ bool ssz_verify_multi_merkle_proof(bytes_t proof_data, bytes_t leafes, gindex_t*
       .witnesses_len    = witnesses_gindex.data.len / sizeof(gindex_t),
   };
 
-  if (data.witnesses_len != proof_data.len / 32) {
+  if (proof_data.len % 32 != 0 || data.witnesses_len != proof_data.len / 32) {
     buffer_free(&witnesses_gindex);
     return false;
   }
@@ -626,14 +626,17 @@ bool ssz_verify_multi_merkle_proof(bytes_t proof_data, bytes_t leafes, gindex_t*
 }
 
 void ssz_verify_single_merkle_proof(bytes_t proof_data, bytes32_t leaf, gindex_t gindex, bytes32_t out) {
-  ssz_verify_multi_merkle_proof(proof_data, bytes(leaf, 32), &gindex, out);
+  if (!ssz_verify_multi_merkle_proof(proof_data, bytes(leaf, 32), &gindex, out))
+    memset(out, 0, 32); // an incomplete proof has no root, so it must never match
 }
 
 gindex_t ssz_add_gindex(gindex_t gindex1, gindex_t gindex2) {
-  uint32_t depth = log2_ceil((uint32_t) gindex2 + 1) - 1;
-  if (depth > 63) {
-    log_error("gindex depth is too large: %u", depth);
+  if (!gindex2) return 0;
+  uint32_t depth = 0; // depth of gindex2
+  while (gindex2 >> depth > 1) depth++;
+  if (depth && gindex1 >> (64 - depth)) {
+    log_error("gindex depth is too large: %d", depth);
     return 0;
   }
-  return (gindex1 << depth) | (gindex2 & ((1 << depth) - 1));
+  return (gindex1 << depth) | (gindex2 & ((((gindex_t) 1) << depth) - 1));
 }
-- 
2.43.0


From 646103bf9b970beda5b620d7a121d07e6d5c6368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:57 +0000
Subject: [PATCH 09/23] fix: block root signatures need 2/3 of the sync
 committee and a known chain

---
 src/chains/eth/verifier/beacon_header.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/chains/eth/verifier/beacon_header.c b/src/chains/eth/verifier/beacon_header.c
index b837be9..cf99906 100644
--- a/src/chains/eth/verifier/beacon_header.c
+++ b/src/chains/eth/verifier/beacon_header.c
@@ -73,7 +73,7 @@ bool eth_calculate_domain(chain_id_t chain_id, uint64_t slot, bytes32_t domain)
   // compute fork_data root hash to the seconf 32 bytes of bffer
   if (!chain) return false;
   chain->fork_version_func(chain_id, c4_chain_fork_id(chain_id, epoch_for_slot(slot - 1, chain)), buffer); // write fork_version as first 4 bytes into the buffer
-  if (!c4_chain_genesis_validators_root(chain_id, buffer + 4)) false;                                      // add the genesis_validator_root as the the other 32 bytes to the buffer.
+  if (!c4_chain_genesis_validators_root(chain_id, buffer + 4)) return false;                               // add the genesis_validator_root as the the other 32 bytes to the buffer.
 
   ssz_hash_tree_root(ssz_ob(FORK_DATA_CONTAINER, bytes(buffer, 36)), base_digest); // calculate base_digest
 
@@ -91,6 +91,14 @@ static bool calculate_signing_message(verify_ctx_t* ctx, uint64_t slot, bytes32_
   return true;
 }
 
+// at least 2/3 of the 512 validators of the sync committee must have signed
+static bool has_supermajority(bytes_t sync_committee_bits) {
+  uint32_t count = 0;
+  if (!sync_committee_bits.data || sync_committee_bits.len != 64) return false;
+  for (uint32_t i = 0; i < 512; i++) count += (sync_committee_bits.data[i >> 3] >> (i & 7)) & 1;
+  return count * 3 >= 512 * 2;
+}
+
 static c4_status_t c4_verify_headers_proof(verify_ctx_t* ctx, ssz_ob_t header, ssz_ob_t sync_committee_bits, ssz_ob_t sync_committee_signature, ssz_ob_t header_proof) {
   ssz_ob_t  headers           = ssz_get(&header_proof, "headers"); // the intermediate headers between the current block and the block with the signature
   ssz_ob_t  signed_header     = ssz_get(&header_proof, "header");  // the block matching the signature
@@ -152,6 +160,7 @@ c4_status_t c4_verify_blockroot_signature(verify_ctx_t* ctx, ssz_ob_t* header, s
   if (slot == 0) slot = ssz_get_uint64(header, "slot") + 1;
   if (slot == 0) THROW_ERROR("slot is missing in beacon header!");
   if (!spec) THROW_ERROR("unsupported chain id!");
+  if (!has_supermajority(sync_committee_bits->bytes)) THROW_ERROR("not enough sync committee participants!");
 
   uint32_t period = slot >> (spec->slots_per_epoch_bits + spec->epochs_per_period_bits);
 
@@ -159,7 +168,7 @@ c4_status_t c4_verify_blockroot_signature(verify_ctx_t* ctx, ssz_ob_t* header, s
   ssz_hash_tree_root(*header, root);
 
   // compute signing message and store it in root again
-  calculate_signing_message(ctx, slot, root, root);
+  if (!calculate_signing_message(ctx, slot, root, root)) return C4_ERROR;
 
 #ifdef BLOCK_HASH_CACHE
   valid = is_already_validated(root);
-- 
2.43.0


From 23b95180ba17ae5d63f5f768d5e194eccf994d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:34 +0000
Subject: [PATCH 10/23] fix: historic proofs are only accepted for the block
 roots in the historical summaries

---
 src/chains/eth/verifier/beacon_header.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/chains/eth/verifier/beacon_header.c b/src/chains/eth/verifier/beacon_header.c
index cf99906..cbc9b3b 100644
--- a/src/chains/eth/verifier/beacon_header.c
+++ b/src/chains/eth/verifier/beacon_header.c
@@ -122,13 +122,28 @@ static c4_status_t c4_verify_headers_proof(verify_ctx_t* ctx, ssz_ob_t header, s
   return c4_verify_blockroot_signature(ctx, &signed_header, &sync_committee_bits, &sync_committee_signature, 0, NULL);
 }
 
+// the proof must end at historical_summaries[n].block_summary_root[slot % 8192] of the signed state.
+// Any other gindex would allow values in the state, which can be chosen freely (like withdrawal credentials), to be used as block root.
+static bool is_historic_gindex(verify_ctx_t* ctx, gindex_t gindex, uint64_t block_slot, uint64_t state_slot) {
+  const chain_spec_t* chain          = c4_eth_get_chain_spec(ctx->chain_id);
+  fork_id_t           fork           = c4_chain_fork_id(ctx->chain_id, epoch_for_slot(state_slot, chain));
+  gindex_t            summaries_gidx = (fork >= C4_FORK_ELECTRA ? 64 : 32) + 27; // historical_summaries have the index 27 in the state.
+  uint64_t            summary_idx    = (gindex >> 14) & 0xffffff;                // the list of summaries is limited to 2**24
+  return gindex == (((summaries_gidx << 25 | summary_idx) << 1) << 13 | (block_slot & 0x1fff));
+}
+
 static c4_status_t c4_verify_historic_proof(verify_ctx_t* ctx, ssz_ob_t header, ssz_ob_t sync_committee_bits, ssz_ob_t sync_committee_signature, ssz_ob_t historic_proof) {
   bytes32_t block_root    = {0};
   bytes32_t state_root    = {0};
   ssz_ob_t  signed_header = ssz_get(&historic_proof, "header");
 
+  gindex_t  gindex        = ssz_get_uint64(&historic_proof, "gindex");
+
+  if (!is_historic_gindex(ctx, gindex, ssz_get_uint64(&header, "slot"), ssz_get_uint64(&signed_header, "slot")))
+    THROW_ERROR("invalid gindex for historic proof!");
+
   ssz_hash_tree_root(header, block_root);
-  ssz_verify_single_merkle_proof(ssz_get(&historic_proof, "proof").bytes, block_root, ssz_get_uint64(&historic_proof, "gindex"), state_root);
+  ssz_verify_single_merkle_proof(ssz_get(&historic_proof, "proof").bytes, block_root, gindex, state_root);
 
   if (memcmp(state_root, ssz_get(&signed_header, "stateRoot").bytes.data, 32))
     THROW_ERROR("invalid state root for historic proof!");
-- 
2.43.0


From 17b55f0588e08d77353702bf3a2edb5b8f683773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:07 +0000
Subject: [PATCH 11/23] fix: light client update streams are only read within
 their bounds

---
 src/chains/eth/prover/historic_proof.c         |  6 +++---
 src/chains/eth/verifier/sync_committee.c       |  9 +++++----
 src/chains/eth/verifier/sync_committee_state.c | 18 ++++++++++++------
 3 files changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/chains/eth/prover/historic_proof.c b/src/chains/eth/prover/historic_proof.c
index 64dfb6e..a6bd5a6 100644
--- a/src/chains/eth/prover/historic_proof.c
+++ b/src/chains/eth/prover/historic_proof.c
@@ -304,12 +304,12 @@ static c4_status_t fetch_updates_data(prover_ctx_t* ctx, syncdata_state_t* sync_
 
   bytes_t  client_updates = result.bytes;
   uint64_t length         = 0;
-  for (uint32_t pos = 0; pos + UPDATE_PREFIX_SIZE < client_updates.len; pos += length + SSZ_LENGTH_SIZE) {
-    uint32_t data_offset        = pos + SSZ_LENGTH_SIZE + SSZ_OFFSET_SIZE;
+  for (uint64_t pos = 0; pos + UPDATE_PREFIX_SIZE < client_updates.len; pos += length + SSZ_LENGTH_SIZE) {
+    uint64_t data_offset        = pos + SSZ_LENGTH_SIZE + SSZ_OFFSET_SIZE;
     uint32_t data_length_offset = SSZ_OFFSET_SIZE;
     length                      = uint64_from_le(client_updates.data + pos);
 
-    if (pos + SSZ_LENGTH_SIZE + length > client_updates.len && length > UPDATE_PREFIX_SIZE) break;
+    if (length < data_length_offset || length > client_updates.len || pos + SSZ_LENGTH_SIZE + length > client_updates.len) break;
 
     bytes_t   client_update_bytes = bytes(client_updates.data + data_offset, length - data_length_offset);
     fork_id_t fork                = c4_eth_get_fork_for_lcu(ctx->chain_id, client_update_bytes);
diff --git a/src/chains/eth/verifier/sync_committee.c b/src/chains/eth/verifier/sync_committee.c
index aae1fe0..c60a6f9 100644
--- a/src/chains/eth/verifier/sync_committee.c
+++ b/src/chains/eth/verifier/sync_committee.c
@@ -255,7 +255,7 @@ INTERNAL bool c4_update_from_sync_data(verify_ctx_t* ctx) {
 fork_id_t c4_eth_get_fork_for_lcu(chain_id_t chain_id, bytes_t data) {
   if (data.len < 4) return 0;
   uint32_t offset = uint32_from_le(data.data);
-  if (offset + 8 > data.len) return 0;
+  if ((uint64_t) offset + 8 > data.len) return 0;
   uint64_t            slot = uint64_from_le(data.data + offset);
   const chain_spec_t* spec = c4_eth_get_chain_spec(chain_id);
   return c4_chain_fork_id(chain_id, epoch_for_slot(slot, spec));
@@ -290,8 +290,8 @@ INTERNAL bool c4_process_light_client_updates(verify_ctx_t* ctx, bytes_t light_c
   bool     lighthouse = detect_update_format(light_client_updates);
   int      idx        = 0;
 
-  for (uint32_t pos = 0; pos + UPDATE_PREFIX_SIZE < light_client_updates.len; pos += length + SSZ_LENGTH_SIZE, idx++) {
-    uint32_t data_offset        = pos + SSZ_LENGTH_SIZE + SSZ_OFFSET_SIZE;
+  for (uint64_t pos = 0; pos + UPDATE_PREFIX_SIZE < light_client_updates.len; pos += length + SSZ_LENGTH_SIZE, idx++) {
+    uint64_t data_offset        = pos + SSZ_LENGTH_SIZE + SSZ_OFFSET_SIZE;
     uint32_t data_length_offset = SSZ_OFFSET_SIZE;
 
     if (lighthouse) {
@@ -313,7 +313,7 @@ INTERNAL bool c4_process_light_client_updates(verify_ctx_t* ctx, bytes_t light_c
     length = uint64_from_le(light_client_updates.data + pos);
 
     // Check for integer overflow and bounds
-    if (length > UPDATE_PREFIX_SIZE && (pos + SSZ_LENGTH_SIZE + length > light_client_updates.len || pos + SSZ_LENGTH_SIZE + length < pos)) {
+    if (length < data_length_offset || length > light_client_updates.len || data_offset + length - data_length_offset > light_client_updates.len) {
       success = false;
       c4_state_add_error(&ctx->state, "invalid length causes overflow or exceeds bounds!");
       break;
@@ -325,6 +325,7 @@ INTERNAL bool c4_process_light_client_updates(verify_ctx_t* ctx, bytes_t light_c
 
     if (!light_client_update_def) {
       success = false;
+      c4_state_add_error(&ctx->state, "unsupported fork in light client update!");
       break;
     }
 
diff --git a/src/chains/eth/verifier/sync_committee_state.c b/src/chains/eth/verifier/sync_committee_state.c
index 13261db..c74f225 100644
--- a/src/chains/eth/verifier/sync_committee_state.c
+++ b/src/chains/eth/verifier/sync_committee_state.c
@@ -638,19 +638,20 @@ static uint64_t find_last_verified_finality_checkpoint(verify_ctx_t* ctx, bytes3
     if (req->type == C4_DATA_TYPE_BEACON_API && strncmp(req->url, "eth/v1/beacon/light_client/updates", 34) == 0 && req->response.data && req->response.len > 0 && req->encoding == C4_DATA_ENCODING_SSZ) {
       bytes_t  client_updates = req->response;
       uint64_t length         = 0;
-      for (uint32_t pos = 0; pos + UPDATE_PREFIX_SIZE < client_updates.len; pos += length + SSZ_LENGTH_SIZE) {
-        uint32_t data_offset        = pos + SSZ_LENGTH_SIZE + SSZ_OFFSET_SIZE;
+      for (uint64_t pos = 0; pos + UPDATE_PREFIX_SIZE < client_updates.len; pos += length + SSZ_LENGTH_SIZE) {
+        uint64_t data_offset        = pos + SSZ_LENGTH_SIZE + SSZ_OFFSET_SIZE;
         uint32_t data_length_offset = SSZ_OFFSET_SIZE;
         length                      = uint64_from_le(client_updates.data + pos);
 
-        if (pos + SSZ_LENGTH_SIZE + length > client_updates.len && length > UPDATE_PREFIX_SIZE) break;
+        if (length < data_length_offset || length > client_updates.len || pos + SSZ_LENGTH_SIZE + length > client_updates.len) break;
 
         bytes_t          client_update_bytes = bytes(client_updates.data + data_offset, length - data_length_offset);
         fork_id_t        fork                = c4_eth_get_fork_for_lcu(ctx->chain_id, client_update_bytes);
         const ssz_def_t* client_update_def   = eth_get_light_client_update(fork);
         if (!client_update_def) break;
 
-        ssz_ob_t update    = {.bytes = client_update_bytes, .def = client_update_def};
+        ssz_ob_t update = {.bytes = client_update_bytes, .def = client_update_def};
+        if (!ssz_is_valid(update, true, NULL)) break;
         ssz_ob_t finalized = ssz_get(&update, "finalizedHeader");
         ssz_ob_t header    = ssz_get(&finalized, "beacon");
         uint64_t slot      = ssz_get_uint64(&header, "slot");
@@ -864,12 +865,17 @@ static c4_status_t c4_try_sync_from_next_period(verify_ctx_t* ctx, uint32_t peri
 
     // Navigate to the first update in the list
     uint32_t offset = uint32_from_le(light_client_update.data);
-    if (offset + UPDATE_PREFIX_SIZE > light_client_update.len)
+    if ((uint64_t) offset + UPDATE_PREFIX_SIZE > light_client_update.len)
       THROW_ERROR("Invalid offset in light client update list");
 
-    uint64_t length                    = uint64_from_le(light_client_update.data + offset);
+    uint64_t length = uint64_from_le(light_client_update.data + offset);
+    if (length < SSZ_OFFSET_SIZE || length > light_client_update.len || offset + SSZ_LENGTH_SIZE + length > light_client_update.len)
+      THROW_ERROR("Invalid length in light client update list");
+
     bytes_t  light_client_update_bytes = bytes(light_client_update.data + offset + UPDATE_PREFIX_SIZE, length - SSZ_OFFSET_SIZE);
     ssz_ob_t update_ob                 = {.bytes = light_client_update_bytes, .def = client_update_def};
+    if (!ssz_is_valid(update_ob, true, &ctx->state))
+      THROW_ERROR("Invalid SSZ structure in light client update list");
 
     // Step 4: Extract nextSyncCommittee from the update (this is period N+1's committee in period N's update)
     ssz_ob_t next_sync_committee = ssz_get(&update_ob, "nextSyncCommittee");
-- 
2.43.0


From 0e56a96f6c7a1458da6381b5b0897d446f555775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:27 +0000
Subject: [PATCH 12/23] fix: every configured witness must have signed, even
 with more than 31 witness keys

---
 src/chains/eth/verifier/sync_committee.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/chains/eth/verifier/sync_committee.c b/src/chains/eth/verifier/sync_committee.c
index c60a6f9..9edf262 100644
--- a/src/chains/eth/verifier/sync_committee.c
+++ b/src/chains/eth/verifier/sync_committee.c
@@ -150,6 +150,7 @@ static bool verify_signatures(verify_ctx_t* ctx, ssz_ob_t checkpoint_ob, ssz_ob_
   uint32_t signatures_len = ssz_len(signatures);
   if (signatures_len == 0) return ctx->witness_keys.len == 0;
   if (signatures_len > 16) RETURN_VERIFY_ERROR(ctx, "invalid number of signatures!");
+  if (ctx->witness_keys.len % 20 || ctx->witness_keys.len / 20 > signatures_len) RETURN_VERIFY_ERROR(ctx, "some witness keys are missing!");
   uint32_t witness_keys_found = 0;
   for (uint32_t i = 0; i < signatures_len; i++) {
     uint8_t   pub_keys[64] = {0};
-- 
2.43.0


From 4fa6f94c547311a0a39678e699e9279ea308cd54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:54 +0000
Subject: [PATCH 13/23] fix: stored sync committees survive crashes, duplicates
 and large limits, and keep the hash of the previous keys

---
 .../eth/verifier/sync_committee_state.c       | 86 +++++++++++--------
 1 file changed, 49 insertions(+), 37 deletions(-)

diff --git a/src/chains/eth/verifier/sync_committee_state.c b/src/chains/eth/verifier/sync_committee_state.c
index c74f225..f563273 100644
--- a/src/chains/eth/verifier/sync_committee_state.c
+++ b/src/chains/eth/verifier/sync_committee_state.c
@@ -60,7 +60,7 @@
 
 #ifdef C4_STATIC_MEMORY
 #define C4_STATIC_STATE_SIZE   1024
-#define C4_STATIC_SYNC_SIZE    49152
+#define C4_STATIC_SYNC_SIZE    (49152 + 32)
 #define C4_STATIC_KEYS_48_SIZE 512 * 48
 // Static buffers for embedded targets
 static uint8_t state_buffer[C4_STATIC_STATE_SIZE];
@@ -346,23 +346,21 @@ c4_status_t c4_handle_bootstrap(verify_ctx_t* ctx, bytes_t bootstrap_data, bytes
  * Keeps the oldest and latest periods, removes intermediate ones.
  *
  * @param state Chain state containing period information
- * @param chain_id Chain identifier
  * @param max_states Maximum number of sync states to keep
+ * @param removed Receives the removed periods (0-terminated), their keys can be deleted as soon as the state is stored
  * @return Updated number of periods after cleanup
  */
-static uint32_t cleanup_old_periods(c4_chain_state_t* state, chain_id_t chain_id, uint32_t max_states) {
-  storage_plugin_t storage_conf = {0};
-  c4_get_storage_config(&storage_conf);
+static uint32_t cleanup_old_periods(c4_chain_state_t* state, uint32_t max_states, uint32_t* removed) {
   uint32_t periods = period_count(state);
-  char     name[100];
+  if (max_states > MAX_SYNC_PERIODS) max_states = MAX_SYNC_PERIODS; // we can't track more
 
-  while (periods >= max_states) {
+  while (periods && periods >= max_states) {
     uint32_t oldest       = 0;
     uint32_t latest       = 0;
     int      oldest_index = 0;
 
     // Find the oldest and latest period
-    for (int i = 0; state->data.periods[i]; i++) {
+    for (int i = 0; i < periods; i++) {
       uint32_t p = state->data.periods[i];
       if (p > latest || latest == 0)
         latest = p;
@@ -387,12 +385,11 @@ static uint32_t cleanup_old_periods(c4_chain_state_t* state, chain_id_t chain_id
       oldest       = oldest_2nd;
     }
 
-    // Delete from storage and remove from periods array
-    sbprintf(name, "sync_%l_%d", (uint64_t) chain_id, oldest);
-    storage_conf.del(name);
+    // remove from periods array
+    *removed++ = oldest;
     if (oldest_index < periods - 1)
       memmove(state->data.periods + oldest_index, state->data.periods + oldest_index + 1, (periods - oldest_index - 1) * sizeof(uint32_t));
-    periods--;
+    state->data.periods[--periods] = 0;
   }
 
   return periods;
@@ -448,18 +445,31 @@ INTERNAL bool c4_set_sync_period(uint32_t period, bytes_t validators, chain_id_t
 
   c4_get_storage_config(&storage_conf);
 
+  // Store the sync committee data
+  if (!store_sync_period(period, validators, previous_pubkeys_hash, chain_id))
+    return false;
+
+  // Already tracked?
+  for (int i = 0; i < MAX_SYNC_PERIODS; i++) {
+    if (state.data.periods[i] == period) return true;
+  }
+
   // Cleanup old periods if storage limit reached
-  uint32_t periods = cleanup_old_periods(&state, chain_id, storage_conf.max_sync_states);
+  uint32_t removed[MAX_SYNC_PERIODS + 1] = {0};
+  uint32_t periods                       = cleanup_old_periods(&state, storage_conf.max_sync_states, removed);
 
   // Add new period to tracking
   state.data.periods[periods] = period;
 
-  // Store the sync committee data
-  if (!store_sync_period(period, validators, previous_pubkeys_hash, chain_id))
-    return false;
-
   // Update chain state
   c4_set_chain_state(chain_id, &state);
+
+  // delete the keys only after they are not referenced anymore
+  for (int i = 0; removed[i]; i++) {
+    char name[100];
+    sbprintf(name, "sync_%l_%d", (uint64_t) chain_id, removed[i]);
+    storage_conf.del(name);
+  }
   return true;
 }
 
@@ -548,13 +558,15 @@ static c4_sync_validators_t get_validators_from_cache(verify_ctx_t* ctx, uint32_
 
   if (found && storage_conf.get) storage_conf.get(name, &validators);
   log_debug("fetch from cache %s : %d bytes)", name, validators.data.len);
-  if (validators.data.len % 48 == 32)
-    memcpy(previous_root, validators.data.data + validators.data.len - 32, 32);
+  // the keys may be followed by the 32-byte hash of the previous keys
+  if (validators.data.len == 512 * 48 + 32 || validators.data.len == 512 * 96 + 32) {
+    validators.data.len -= 32;
+    memcpy(previous_root, validators.data.data + validators.data.len, 32);
+  }
 
 #ifdef BLS_DESERIALIZE
   // Check if validators need deserialization (only pubkeys, not including the 32-byte root)
-  size_t expected_serialized_size = 512 * 48 + 32;
-  if (validators.data.data && (validators.data.len == expected_serialized_size || validators.data.len == 512 * 48)) {
+  if (validators.data.data && validators.data.len == 512 * 48) {
     log_debug("deserializing validators (len=%d)", validators.data.len);
 #ifdef C4_STATIC_MEMORY
     memcpy(keys_48_buffer, validators.data.data, 512 * 48);
@@ -564,25 +576,23 @@ static c4_sync_validators_t get_validators_from_cache(verify_ctx_t* ctx, uint32_
     buffer_free(&validators);
 #endif
     validators.data = b;
-    storage_conf.set(name, b);
-    //    log_debug("storing deserialized validators: %d bytes", b.len);
-  }
-  else if (validators.data.data && validators.data.len == 512 * 48 + 32) {
-    // Old format without deserialization - just strip the root
-    validators.data.len = 512 * 48;
-    log_debug("stripping root from validators (len=%d)", validators.data.len);
-  }
-  else
-    log_debug("found validators (len=%d)", validators.data.len);
-
+#ifdef C4_STATIC_MEMORY
+    memcpy(sync_buffer + 512 * 96, previous_root, 32);
+    if (b.data) storage_conf.set(name, bytes(sync_buffer, 512 * 96 + 32));
 #else
-  // Strip the 32-byte root from validators data if present
-  if (validators.data.len >= 32) {
-    validators.data.len -= 32;
+    if (b.data) store_sync_period(period, b, previous_root, ctx->chain_id);
+#endif
   }
-  log_debug("found validators (NO DESERIALIZATION) (len=%d)", validators.data.len);
+  // anything else than 512 keys can not be used
+  if (validators.data.len != 512 * 96) validators.data.len = 0;
+#else
+  if (validators.data.len != 512 * 48) validators.data.len = 0;
 #endif
+  log_debug("found validators (len=%d)", validators.data.len);
 
+#ifndef C4_STATIC_MEMORY
+  if (validators.data.len == 0) buffer_free(&validators);
+#endif
   if (validators.data.len == 0) validators.data.data = NULL; // just to make sure we mark it as not found, even if we are using static memory
 
   c4_sync_validators_t result = {
@@ -935,7 +945,7 @@ INTERNAL const c4_status_t c4_get_validators(verify_ctx_t* ctx, uint32_t period,
       if (sync_state.highest_period) THROW_ERROR("the last sync state is higher than the required period, but we cannot sync backwards");
       TRY_ASYNC(init_sync_state(ctx));
       // Recursively call to retrieve the period after initialization
-      return c4_get_validators(ctx, period, target_state, NULL);
+      return c4_get_validators(ctx, period, target_state, pubkey_hash);
     }
 
     // Strategy 2: Edge case - we have period+1 but not period (delayed finality at boundary)
@@ -945,6 +955,8 @@ INTERNAL const c4_status_t c4_get_validators(verify_ctx_t* ctx, uint32_t period,
     // Check if edge case fallback succeeded
     if (sync_state.validators.data) {
       *target_state = sync_state;
+      if (pubkey_hash)
+        sha256(sync_state.validators, pubkey_hash);
       return C4_SUCCESS;
     }
 
-- 
2.43.0


From 33913afd2b1ca43a8970f2aebc5e620294ea9591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:17 +0000
Subject: [PATCH 14/23] fix: rlp lengths are never read or followed beyond the
 data

---
 src/chains/eth/verifier/rlp.c | 72 +++++++++++++++--------------------
 1 file changed, 30 insertions(+), 42 deletions(-)

diff --git a/src/chains/eth/verifier/rlp.c b/src/chains/eth/verifier/rlp.c
index 9eed7e6..0b245b8 100644
--- a/src/chains/eth/verifier/rlp.c
+++ b/src/chains/eth/verifier/rlp.c
@@ -23,51 +23,39 @@
 
 #include "rlp.h"
 
-static int check_range(bytes_t* target, bytes_t* src, size_t new_len, uint8_t* new_start, rlp_type_t result_type) {
-  if (!target) return RLP_OUT_OF_RANGE;
-  *target = bytes(new_start, new_len);
-  return (new_start >= src->data && (new_start + new_len) >= src->data && (new_start + new_len) <= (src->data + src->len)) ? result_type : RLP_OUT_OF_RANGE;
+// reads the header of the item at the given position, fails if the header or the payload is not completely part of the source
+static rlp_type_t read_header(bytes_t* src, size_t pos, size_t* start, size_t* len) {
+  uint8_t c    = src->data[pos];
+  uint8_t base = c < 0xc0 ? 0x80 : 0xc0;
+  size_t  n    = c < base + 56 ? 0 : c - base - 55; // number of bytes used for the length
+  if (c < 0x80) {
+    *start = pos;
+    *len   = 1;
+    return RLP_ITEM;
+  }
+  *start = pos + 1 + n;
+  *len   = n ? 0 : c - base;
+  if (n > src->len - pos - 1) return RLP_OUT_OF_RANGE;
+  for (size_t i = 0; i < n; i++) {
+    if (*len >> 24) return RLP_OUT_OF_RANGE; // does not fit in the 32 bit length of bytes_t
+    *len = (*len << 8) | src->data[pos + 1 + i];
+  }
+  if (*len > src->len - *start) return RLP_OUT_OF_RANGE;
+  return base == 0x80 ? RLP_ITEM : RLP_LIST;
 }
 
 INTERNAL rlp_type_t rlp_decode(bytes_t* src, int index, bytes_t* target) {
-  size_t pos = 0, src_idx = 0;
-  for (; src_idx < src->len; src_idx++, pos++) {
-    uint8_t c = src->data[src_idx];
-    if (c < 0x80) {
-      if ((int) pos == index)
-        return check_range(target, src, 1, src->data + src_idx, 1);
-    }
-    else if (c < 0xb8) {
-      if ((int) pos == index)
-        return check_range(target, src, c - 0x80, src->data + src_idx + 1, RLP_ITEM);
-      src_idx += c - 0x80;
-    }
-    else if (c < 0xc0) {
-      size_t len, n;
-      for (len = 0, n = 0; n < (uint8_t) (c - 0xB7); n++)
-        len |= (*(src->data + src_idx + 1 + n)) << (8 * ((c - 0xb7) - n - 1));
-      if ((int) pos == index) return check_range(target, src, len, src->data + src_idx + c - 0xb7 + 1, RLP_ITEM);
-      src_idx += len + c - 0xb7;
-    }
-    else if (c < 0xf8) {
-      size_t len = c - 0xc0;
-      if ((int) pos == index)
-        return check_range(target, src, len, src->data + src_idx + 1, RLP_LIST);
-      src_idx += len;
-    }
-    else {
-      size_t len = 0;
-      for (size_t i = 0; i < (uint8_t) (c - 0xF7); i++)
-        len |= (*(src->data + src_idx + 1 + i)) << (8 * ((c - 0xf7) - i - 1));
-      if ((int) pos == index)
-        return check_range(target, src, len, src->data + src_idx + c - 0xf7 + 1, RLP_LIST);
-      src_idx += len + c - 0xf7;
+  size_t count = 0, start = 0, len = 0;
+  for (size_t pos = 0; pos < src->len; pos = start + len, count++) {
+    rlp_type_t type = read_header(src, pos, &start, &len);
+    if (type == RLP_OUT_OF_RANGE) return RLP_OUT_OF_RANGE;
+    if (index >= 0 && count == (size_t) index) {
+      if (!target) return RLP_OUT_OF_RANGE;
+      *target = bytes(src->data + start, len);
+      return type;
     }
   }
-
-  if (index < 0) return src_idx == src->len ? (rlp_type_t) pos : RLP_OUT_OF_RANGE;
-
-  return (src_idx > src->len) ? RLP_OUT_OF_RANGE : RLP_NOT_FOUND;
+  return index < 0 ? (rlp_type_t) count : RLP_NOT_FOUND;
 }
 
 static void encode_length(buffer_t* buf, uint32_t len, uint8_t offset) {
@@ -120,7 +108,7 @@ INTERNAL void rlp_add_uint64(buffer_t* buf, uint64_t value) {
 }
 
 INTERNAL void rlp_to_list(buffer_t* buf) {
-  uint8_t  tmp[4] = {0};
+  uint8_t  tmp[5] = {0}; // prefix and up to 4 bytes for the length
   buffer_t tbuf   = stack_buffer(tmp);
   encode_length(&tbuf, buf->data.len, 0xc0);
   buffer_splice(buf, 0, 0, tbuf.data);
@@ -128,7 +116,7 @@ INTERNAL void rlp_to_list(buffer_t* buf) {
 
 INTERNAL uint64_t rlp_get_uint64(bytes_t data, int index) {
   uint64_t value = 0;
-  rlp_decode(&data, index, &data);
+  if (rlp_decode(&data, index, &data) != RLP_ITEM) return 0;
   if (data.len > 8 || !data.len) return 0;
   for (int i = 0; i < data.len; i++)
     value |= ((uint64_t) data.data[i]) << ((data.len - i - 1) << 3);
-- 
2.43.0


From a0f47bbb251fd1478dadd1642acfa2f227c95a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:06 +0000
Subject: [PATCH 15/23] fix: patricia proofs which end early, carry short
 hashes or misplaced embedded nodes are rejected

---
 src/chains/eth/verifier/patricia.c | 80 +++++++++++++-----------------
 1 file changed, 35 insertions(+), 45 deletions(-)

diff --git a/src/chains/eth/verifier/patricia.c b/src/chains/eth/verifier/patricia.c
index 5f6cdf5..ebc9c71 100644
--- a/src/chains/eth/verifier/patricia.c
+++ b/src/chains/eth/verifier/patricia.c
@@ -61,13 +61,13 @@ static uint8_t* patricia_to_nibbles(bytes_t p, bool prefix) {
   return nibbles;
 }
 
-static int handle_node(bytes_t* raw, uint8_t** k, int last_node, bytes_t* last_val, uint8_t* next_hash, size_t* depth) {
-  bytes_t val;
-  bytes_t node;
+// handles a node given as the payload of the rlp list
+// result: 0 = invalid, 1 = continue with the node of the next hash, 2 = the path does not exist, 3 = found
+static int handle_node(bytes_t node, uint8_t** k, int last_node, bytes_t* last_val, uint8_t* next_hash, size_t* depth) {
+  bytes_t val = NULL_BYTES;
 
   if (MAX_DEPTH < (++(*depth))) return 0;
 
-  rlp_decode(raw, 0, &node);
   switch ((int) rlp_decode(&node, -1, NULL)) {
 
     case NODE_BRANCH:
@@ -77,21 +77,22 @@ static int handle_node(bytes_t* raw, uint8_t** k, int last_node, bytes_t* last_v
         return node.len == 0 ? 2 : 3;
       }
 
-      if (rlp_decode(&node, **k, &val) == RLP_LIST) { // found embedded node in branch
-        rlp_decode(&node, (**k) - 1, &node);
-        *k += 1;
-        node = bytes(node.data + node.len, val.data + val.len - node.data); // decode the embedded node
-        return handle_node(&node, k, **k == 0xFF || *(*k + 1) == 0xFF, last_val, next_hash, depth);
+      switch (rlp_decode(&node, **k, &val)) {
+        case RLP_LIST: // found embedded node in branch
+          *k += 1;
+          return handle_node(val, k, last_node, last_val, next_hash, depth);
+        case RLP_ITEM:
+          if (val.len == 0) return last_node ? 2 : 0; // we got a NULL, which means value does not exists
+          if (val.len != 32) return 0;
+          memcpy(next_hash, val.data, 32); // the hash of the next node
+          *k += 1;
+          return 1;
+        default:
+          return 0;
       }
-      else if (val.len != 32) // we got a NULL, which means value does not exists
-        return 2;
-      else
-        memcpy(next_hash, val.data, 32); // the hash of the next node
-      *k += 1;
-      return 1;
 
     case NODE_LEAF:
-      if (rlp_decode(&node, 0, &val) != RLP_ITEM)
+      if (rlp_decode(&node, 0, &val) != RLP_ITEM || val.len == 0 || *val.data >> 6)
         return 0;
       else {
         uint8_t* pn      = patricia_to_nibbles(val, 1);
@@ -103,41 +104,24 @@ static int handle_node(bytes_t* raw, uint8_t** k, int last_node, bytes_t* last_v
         if (match < np_len) return last_node ? 2 : 0;
 
         *k += np_len;
-        if (rlp_decode(&node, 1, &val) == RLP_LIST) { // embedded
-          rlp_decode(&node, 0, &node);
-          node.data += node.len;
-          node.len = val.data + val.len - node.data;
-
-          return handle_node(&node, k, k && *k && *(k + 1) == NULL, last_val, next_hash, depth);
-        }
-        else if (**k == 0xFF) { // we reached the end of the path
-          if (is_leaf) {
-            *last_val = val;
-            return last_node ? 3 : 0;
-          }
-          else if (last_node)
-            return 0; // this is an extension node, but the path is not complete
-
-          // follow the extension, which should lead to branch with the value.
-          *last_val = val;
-          memcpy(next_hash, val.data, (val.len >= 32) ? 32 : val.len);
-          return 1;
-
-          //          if (!last_node || (expected_val == NULL && is_leaf)) return 0;
-        }
-        else if (is_leaf)           // we found a leaf matching the path, but the patch is not complete yet.
-          return last_node ? 2 : 0; // it is either a proof, that the account does not exist or an error.
-        else {                      // it is an extension and we follow the extension to the branch.
+        rlp_type_t type = rlp_decode(&node, 1, &val);
+        if (is_leaf) {
+          if (type != RLP_ITEM || !last_node) return 0;
+          if (**k != 0xFF) return 2; // we found a leaf matching the path, but the path is not complete yet, so it is a proof, that the value does not exist.
           *last_val = val;
-          memcpy(next_hash, val.data, (val.len >= 32) ? 32 : val.len);
-          return 1;
+          return 3;
         }
+
+        // it is an extension and we follow it to the branch.
+        if (type == RLP_LIST) return handle_node(val, k, last_node, last_val, next_hash, depth); // embedded
+        if (type != RLP_ITEM || val.len != 32) return 0;
+        memcpy(next_hash, val.data, 32);
+        return 1;
       }
 
     default:
       return 0;
   }
-  return 1;
 }
 
 INTERNAL patricia_result_t patricia_verify(bytes32_t root, bytes_t path, ssz_ob_t proof, bytes_t* expected) {
@@ -161,9 +145,15 @@ INTERNAL patricia_result_t patricia_verify(bytes32_t root, bytes_t path, ssz_ob_
       result = 0;
       break;
     }
-    if (1 != (result = handle_node(&witness.bytes, &key, i + 1 == proof_len, &last_value, expected_hash, &depth))) break;
+    bytes_t node = NULL_BYTES;
+    if (rlp_decode(&witness.bytes, 0, &node) != RLP_LIST) {
+      result = 0;
+      break;
+    }
+    if (1 != (result = handle_node(node, &key, i + 1 == proof_len, &last_value, expected_hash, &depth))) break;
   }
 
+  if (result == 1) result = 0; // the proof ends before the path was resolved
   if (result && expected)
     *expected = result == 2 ? NULL_BYTES : last_value;
 
-- 
2.43.0


From 808043cfbaafaae87226f7e5ca066bd616ea6481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:09 +0000
Subject: [PATCH 16/23] fix: a proof is only accepted for the method it was
 made for and failures are never reported as success

---
 src/chains/eth/verifier/eth_verify.c | 44 +++++++++++++++++++++++++++-
 src/verifier/verify.c                |  7 +++--
 2 files changed, 48 insertions(+), 3 deletions(-)

diff --git a/src/chains/eth/verifier/eth_verify.c b/src/chains/eth/verifier/eth_verify.c
index f99770e..9cb3f63 100644
--- a/src/chains/eth/verifier/eth_verify.c
+++ b/src/chains/eth/verifier/eth_verify.c
@@ -110,8 +110,50 @@ const ssz_def_t* c4_eth_get_request_type(chain_type_t chain_type) {
   return chain_type == C4_CHAIN_TYPE_ETHEREUM ? eth_ssz_verification_type(ETH_SSZ_VERIFY_REQUEST) : NULL;
 }
 
+// the type of proof each method needs and the data, which may be part of the request.
+static const struct {
+  const char*    method;
+  eth_ssz_type_t proof;
+  eth_ssz_type_t data;     // type of the data, if included
+  bool           no_data;  // true if the data may be missing, because they are created by the verifier
+} method_proofs[] = {
+    {"eth_call", ETH_SSZ_VERIFY_CALL_PROOF, ETH_SSZ_DATA_BYTES, true},
+    {"colibri_simulateTransaction", ETH_SSZ_VERIFY_CALL_PROOF, ETH_SSZ_DATA_SIMULATION, true},
+    {"eth_getProof", ETH_SSZ_VERIFY_ACCOUNT_PROOF, ETH_SSZ_DATA_NONE, true},
+    {"eth_getBalance", ETH_SSZ_VERIFY_ACCOUNT_PROOF, ETH_SSZ_DATA_NONE, true},
+    {"eth_getTransactionCount", ETH_SSZ_VERIFY_ACCOUNT_PROOF, ETH_SSZ_DATA_NONE, true},
+    {"eth_getStorageAt", ETH_SSZ_VERIFY_ACCOUNT_PROOF, ETH_SSZ_DATA_NONE, true},
+    {"eth_getCode", ETH_SSZ_VERIFY_ACCOUNT_PROOF, ETH_SSZ_DATA_BYTES, false},
+    {"eth_getBlockByHash", ETH_SSZ_VERIFY_BLOCK_PROOF, ETH_SSZ_DATA_NONE, true},
+    {"eth_getBlockByNumber", ETH_SSZ_VERIFY_BLOCK_PROOF, ETH_SSZ_DATA_NONE, true},
+    {"eth_blockNumber", ETH_SSZ_VERIFY_BLOCK_NUMBER_PROOF, ETH_SSZ_DATA_NONE, true},
+    {"eth_getLogs", ETH_SSZ_VERIFY_LOGS_PROOF, ETH_SSZ_DATA_LOGS, false},
+    {"eth_verifyLogs", ETH_SSZ_VERIFY_LOGS_PROOF, ETH_SSZ_DATA_NONE, true},
+    {"eth_getTransactionReceipt", ETH_SSZ_VERIFY_RECEIPT_PROOF, ETH_SSZ_DATA_RECEIPT, false},
+    {"eth_getTransactionByHash", ETH_SSZ_VERIFY_TRANSACTION_PROOF, ETH_SSZ_DATA_NONE, true},
+    {"eth_getTransactionByBlockHashAndIndex", ETH_SSZ_VERIFY_TRANSACTION_PROOF, ETH_SSZ_DATA_NONE, true},
+    {"eth_getTransactionByBlockNumberAndIndex", ETH_SSZ_VERIFY_TRANSACTION_PROOF, ETH_SSZ_DATA_NONE, true},
+};
+
+// a proof only proves the result of the method it was made for.
+static bool proof_matches_method(verify_ctx_t* ctx) {
+  for (int i = 0; i < sizeof(method_proofs) / sizeof(method_proofs[0]); i++) {
+    if (strcmp(ctx->method, method_proofs[i].method)) continue;
+    if (ctx->proof.def != eth_ssz_verification_type(method_proofs[i].proof)) return false;
+    return ctx->data.def && (ctx->data.def->type == SSZ_TYPE_NONE
+                                 ? method_proofs[i].no_data
+                                 : ctx->data.def == eth_ssz_verification_type(method_proofs[i].data));
+  }
+  return false;
+}
+
 bool c4_eth_verify(verify_ctx_t* ctx) {
   if (c4_chain_type(ctx->chain_id) != C4_CHAIN_TYPE_ETHEREUM || c4_eth_get_chain_spec(ctx->chain_id) == NULL) return false;
+  if (ctx->method && ctx->proof.def->type != SSZ_TYPE_NONE && !proof_matches_method(ctx)) {
+    c4_state_add_error(&ctx->state, "the proof or its data does not match the requested method");
+    ctx->success = false;
+    return true;
+  }
   if (!c4_update_from_sync_data(ctx)) return true;
 
 #ifdef ETH_TX
@@ -151,7 +193,7 @@ bool c4_eth_verify(verify_ctx_t* ctx) {
   else
 #endif
 #ifdef ETH_UTIL
-      if (c4_eth_get_method_type(ctx->chain_id, ctx->method) == METHOD_LOCAL)
+      if (ctx->method && c4_eth_get_method_type(ctx->chain_id, ctx->method) == METHOD_LOCAL)
     verify_eth_local(ctx);
   else
 #endif
diff --git a/src/verifier/verify.c b/src/verifier/verify.c
index 9e864e1..c9801c9 100644
--- a/src/verifier/verify.c
+++ b/src/verifier/verify.c
@@ -43,9 +43,9 @@ c4_status_t c4_verify_init(verify_ctx_t* ctx, bytes_t request_bytes, char* metho
   chain_type_t chain_type = c4_chain_type(chain_id);
   // Input validation
   if (!ctx) return C4_ERROR;
+  memset(ctx, 0, sizeof(verify_ctx_t));
   if (!method) THROW_ERROR("method cannot be NULL");
 
-  memset(ctx, 0, sizeof(verify_ctx_t));
   if (request_bytes.len == 0) {
     method_type_t method_type = c4_get_method_type(chain_id, method);
     if (method_type == METHOD_UNDEFINED)
@@ -88,7 +88,10 @@ c4_status_t c4_verify(verify_ctx_t* ctx) {
   if (!handle_verification(ctx))
     ctx->state.error = bprintf(NULL, "verification for proof of chain %l is not supported", ctx->chain_id);
 
-  return (ctx->state.error ? C4_ERROR : (c4_state_get_pending_request(&ctx->state) ? C4_PENDING : C4_SUCCESS));
+  if (ctx->state.error) return C4_ERROR;
+  if (c4_state_get_pending_request(&ctx->state)) return C4_PENDING;
+  if (!ctx->success) return c4_state_add_error(&ctx->state, "verification failed");
+  return C4_SUCCESS;
 }
 
 chain_type_t c4_get_chain_type_from_req(bytes_t request_bytes) {
-- 
2.43.0


From 1da08a7b6654f94b8e349a822bcd252e45e826c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:09 +0000
Subject: [PATCH 17/23] fix: account and storage values are those proven for
 the requested address, keys and block

---
 src/chains/eth/verifier/eth_account.c         | 108 +++++++++++-------
 .../eth/verifier/verify_account_proof.c       |   5 +-
 2 files changed, 67 insertions(+), 46 deletions(-)

diff --git a/src/chains/eth/verifier/eth_account.c b/src/chains/eth/verifier/eth_account.c
index f0ae0a9..826ef48 100644
--- a/src/chains/eth/verifier/eth_account.c
+++ b/src/chains/eth/verifier/eth_account.c
@@ -55,10 +55,10 @@ static bool is_equal(ssz_ob_t expect, bytes_t* list, int index) {
   return value.len == exp.len && memcmp(exp.data, value.data, exp.len) == 0;
 }
 
-static bool verify_storage(verify_ctx_t* ctx, ssz_ob_t storage_proofs, bytes32_t storage_hash, bytes_t values) {
-  if (values.data) memset(values.data, 0, 32);
-  int len = ssz_len(storage_proofs);
-  if (len != 0 && memcmp(storage_hash, EMPTY_ROOT_HASH, 32) == 0) RETURN_VERIFY_ERROR(ctx, "invalid storage proof because an empty storage hash can not have values!");
+static bool verify_storage(verify_ctx_t* ctx, ssz_ob_t storage_proofs, bytes32_t storage_hash, bool exists, bytes_t values) {
+  if (values.data) memset(values.data, 0, values.len);
+  bool empty = !exists || memcmp(storage_hash, EMPTY_ROOT_HASH, 32) == 0;
+  int  len   = ssz_len(storage_proofs);
   for (int i = 0; i < len; i++) {
     bytes32_t path    = {0};
     bytes32_t root    = {0};
@@ -66,10 +66,17 @@ static bool verify_storage(verify_ctx_t* ctx, ssz_ob_t storage_proofs, bytes32_t
     ssz_ob_t  proof   = ssz_get(&storage, "proof");
     ssz_ob_t  key     = ssz_get(&storage, "key");
     bytes_t   leaf    = {0};
+    if (empty) { // without storage there are no nodes to prove and all values are zero
+      if (ssz_len(proof)) RETURN_VERIFY_ERROR(ctx, "invalid storage proof because an empty storage hash can not have values!");
+      continue;
+    }
     keccak(key.bytes, path);
-    if (patricia_verify(root, bytes(path, 32), proof, &leaf) == PATRICIA_INVALID) RETURN_VERIFY_ERROR(ctx, "invalid storage proof!");
+    patricia_result_t result = patricia_verify(root, bytes(path, 32), proof, &leaf);
+    if (result == PATRICIA_INVALID) RETURN_VERIFY_ERROR(ctx, "invalid storage proof!");
     if (memcmp(root, storage_hash, 32) != 0) RETURN_VERIFY_ERROR(ctx, "invalid storage root!");
-    if (values.data && values.len >= (i + 1) * 32 && rlp_decode(&leaf, 0, &leaf) == RLP_ITEM)
+    if (result == PATRICIA_NOT_EXISTING) continue;
+    if (rlp_decode(&leaf, 0, &leaf) != RLP_ITEM || leaf.len > 32) RETURN_VERIFY_ERROR(ctx, "invalid storage value!");
+    if (values.data && values.len >= (i + 1) * 32)
       memcpy(values.data + (i + 1) * 32 - leaf.len, leaf.data, leaf.len);
   }
 
@@ -117,30 +124,22 @@ INTERNAL bool eth_verify_account_proof_exec(verify_ctx_t* ctx, ssz_ob_t* proof,
     }
   }
 
-  if (!verify_storage(ctx, ssz_get(proof, "storageProof"), storage_hash, field == ETH_ACCOUNT_STORAGE_HASH ? values : NULL_BYTES)) RETURN_VERIFY_ERROR(ctx, "invalid storage proof!");
+  if (!verify_storage(ctx, ssz_get(proof, "storageProof"), storage_hash, result == PATRICIA_FOUND, field == ETH_ACCOUNT_STORAGE_HASH ? values : NULL_BYTES)) RETURN_VERIFY_ERROR(ctx, "invalid storage proof!");
 
   return true;
 }
 
-static bytes_t get_last_value(ssz_ob_t proof) {
-  bytes_t last_value = ssz_at(proof, ssz_len(proof) - 1).bytes;
-  if (!last_value.data) return NULL_BYTES;
-  if (rlp_decode(&last_value, 0, &last_value) != RLP_LIST) return NULL_BYTES;
-  switch ((int) rlp_decode(&last_value, -1, &last_value)) {
-    case 2: // must be a leaf (otherwise the verification would have failed)
-      if (rlp_decode(&last_value, 1, &last_value) != RLP_ITEM) return NULL_BYTES;
-      break;
-    case 17: // branch noch with the value
-      if (rlp_decode(&last_value, 16, &last_value) != RLP_ITEM) return NULL_BYTES;
-      break;
-    default:
-      return NULL_BYTES;
-  }
-  return last_value;
+// the value the proof holds for the given key (address or storage key) or NULL_BYTES, if it does not exist.
+static bytes_t get_proven_value(ssz_ob_t proof, ssz_ob_t key) {
+  bytes32_t path  = {0};
+  bytes32_t root  = {0};
+  bytes_t   value = NULL_BYTES;
+  keccak(key.bytes, path);
+  return patricia_verify(root, bytes(path, 32), proof, &value) == PATRICIA_FOUND ? value : NULL_BYTES;
 }
 
 bool eth_get_storage_value(ssz_ob_t storage, bytes32_t value) {
-  bytes_t last_value = get_last_value(ssz_get(&storage, "proof"));
+  bytes_t last_value = get_proven_value(ssz_get(&storage, "proof"), ssz_get(&storage, "key"));
   if (!last_value.data) return false;
   if (rlp_decode(&last_value, 0, &last_value) != RLP_ITEM) return false;
   if (last_value.len > 32) return false;
@@ -149,7 +148,7 @@ bool eth_get_storage_value(ssz_ob_t storage, bytes32_t value) {
 }
 
 void eth_get_account_value(ssz_ob_t account, eth_account_field_t field, bytes32_t value) {
-  bytes_t last_value = get_last_value(ssz_get(&account, "accountProof"));
+  bytes_t last_value = get_proven_value(ssz_get(&account, "accountProof"), ssz_get(&account, "address"));
   if (!last_value.data) return;
   if (rlp_decode(&last_value, 0, &last_value) != RLP_LIST) return;
   if (rlp_decode(&last_value, field - 1, &last_value) != RLP_ITEM) return;
@@ -190,8 +189,9 @@ INTERNAL c4_status_t eth_get_call_codes(verify_ctx_t* ctx, call_code_t** call_co
       ac->code = code.bytes;
       ac->free = false;
 
-      // store in cache
-      cache.set((char*) buf.data.data, ac->code);
+      // store in cache, but only if it is the code with this hash (a mismatch is reported when verifying the accounts)
+      keccak(ac->code, hash);
+      if (memcmp(hash, ac->hash, 32) == 0) cache.set((char*) buf.data.data, ac->code);
     }
     else {
       buffer_reset(&buf);
@@ -270,22 +270,29 @@ gindex_t eth_get_gindex_for_block(fork_id_t fork, json_t block) {
   return block.len == 68 ? GINDEX_BLOCHASH : GINDEX_BLOCKUMBER;
 }
 
+// the block of the request, which is the last argument, unless it is a call, where it may be followed by state overrides.
+static json_t get_block_arg(verify_ctx_t* ctx) {
+  size_t len = json_len(ctx->args);
+  if (len > 1 && ctx->method && (strcmp(ctx->method, "eth_call") == 0 || strcmp(ctx->method, "colibri_simulateTransaction") == 0)) return json_at(ctx->args, 1);
+  return len ? json_at(ctx->args, len - 1) : (json_t) {0};
+}
+
 bool eth_verify_state_proof(verify_ctx_t* ctx, ssz_ob_t state_proof, bytes32_t state_root) {
   bytes32_t body_root          = {0};
-  json_t    block_number       = json_len(ctx->args) ? json_at(ctx->args, json_len(ctx->args) - 1) : (json_t) {0};
+  json_t    block_number       = get_block_arg(ctx);
   ssz_ob_t  state_merkle_proof = ssz_get(&state_proof, "proof");
   ssz_ob_t  header             = ssz_get(&state_proof, "header");
   ssz_ob_t  block              = ssz_get(&state_proof, "block");
   gindex_t  gindex[2]          = {STATE_ROOT_GINDEX, block.bytes.len == 8 ? GINDEX_BLOCKUMBER : GINDEX_BLOCHASH};
   uint8_t   leafes[64]         = {0};
   memcpy(leafes, state_root, 32);
-  memcpy(leafes + 32, block.bytes.data, block.bytes.len);
-  ssz_verify_multi_merkle_proof(state_merkle_proof.bytes, bytes(leafes, block.def->type == SSZ_TYPE_NONE ? 32 : 64), gindex, body_root);
+  if (block.def->type != SSZ_TYPE_NONE) memcpy(leafes + 32, block.bytes.data, block.bytes.len);
+  if (!ssz_verify_multi_merkle_proof(state_merkle_proof.bytes, bytes(leafes, block.def->type == SSZ_TYPE_NONE ? 32 : 64), gindex, body_root)) RETURN_VERIFY_ERROR(ctx, "invalid state proof, missing nodes!");
   if (block_number.type == JSON_TYPE_STRING && strncmp(block_number.start, "\"0x", 3) == 0) {
     if (block_number.len == 68) {
       if (block.bytes.len != 32) RETURN_VERIFY_ERROR(ctx, "did not expect blockhhash as blocknumber");
       hex_to_bytes(block_number.start + 3, 64, bytes(leafes, 32));
-      if (memcmp(leafes, block.bytes.data, 32) == 0) RETURN_VERIFY_ERROR(ctx, "wrong blockhash");
+      if (memcmp(leafes, block.bytes.data, 32) != 0) RETURN_VERIFY_ERROR(ctx, "wrong blockhash");
     }
     else {
       if (block.bytes.len != 8) RETURN_VERIFY_ERROR(ctx, "did not expect blockhhash as blocknumber");
@@ -309,19 +316,31 @@ eth_account_field_t eth_account_get_field(verify_ctx_t* ctx) {
   return ETH_ACCOUNT_NONE;
 }
 
-static bytes_t get_leaf(ssz_ob_t proof) {
-  bytes_t node = ssz_at(proof, ssz_len(proof) - 1).bytes;
-  if (rlp_decode(&node, 0, &node) != RLP_LIST) return NULL_BYTES;
-  int len = rlp_decode(&node, -1, NULL);
-
-  if (len == 17)
-    rlp_decode(&node, 16, &node);
-  else if (len == 2)
-    rlp_decode(&node, 1, &node);
-  else
-    return NULL_BYTES;
+// checks that the storage proof proves exactly the requested key.
+static bool is_storage_key(ssz_ob_t storage_proof, uint32_t index, json_t key) {
+  bytes32_t tmp       = {0};
+  bytes32_t expected  = {0};
+  buffer_t  buf       = stack_buffer(tmp);
+  bytes_t   req_key   = json_as_bytes(key, &buf);
+  ssz_ob_t  storage   = ssz_at(storage_proof, index);
+  bytes_t   proof_key = ssz_get(&storage, "key").bytes;
+  if (key.type != JSON_TYPE_STRING || key.len > 68 || !req_key.data || req_key.len > 32 || proof_key.len != 32) return false;
+  memcpy(expected + 32 - req_key.len, req_key.data, req_key.len);
+  return memcmp(expected, proof_key.data, 32) == 0;
+}
 
-  return node;
+static bool verify_storage_keys(verify_ctx_t* ctx, eth_account_field_t field) {
+  ssz_ob_t storage_proof = ssz_get(&ctx->proof, "storageProof");
+  json_t   keys          = json_at(ctx->args, 1);
+  uint32_t len           = ssz_len(storage_proof);
+  if (field == ETH_ACCOUNT_STORAGE_HASH && (len != 1 || !is_storage_key(storage_proof, 0, keys))) RETURN_VERIFY_ERROR(ctx, "proof does not match the storage key in request");
+  if (field == ETH_ACCOUNT_PROOF) {
+    if (json_len(keys) != len) RETURN_VERIFY_ERROR(ctx, "proof does not match the storage keys in request");
+    for (uint32_t i = 0; i < len; i++) {
+      if (!is_storage_key(storage_proof, i, json_at(keys, i))) RETURN_VERIFY_ERROR(ctx, "proof does not match the storage keys in request");
+    }
+  }
+  return true;
 }
 
 bool eth_account_verify_data(verify_ctx_t* ctx, address_t verified_address, eth_account_field_t field, bytes_t values) {
@@ -329,7 +348,8 @@ bool eth_account_verify_data(verify_ctx_t* ctx, address_t verified_address, eth_
   bytes32_t expected_value = {0};
   buffer_t  address_buf    = stack_buffer(expected_value);
   bytes_t   req_address    = json_as_bytes(json_at(ctx->args, 0), &address_buf);
-  if (req_address.data && (req_address.len != 20 || memcmp(req_address.data, verified_address, 20) != 0)) RETURN_VERIFY_ERROR(ctx, "proof does not match the address in request");
+  if (!req_address.data || req_address.len != 20 || memcmp(req_address.data, verified_address, 20) != 0) RETURN_VERIFY_ERROR(ctx, "proof does not match the address in request");
+  if (!verify_storage_keys(ctx, field)) return false;
   if (!data.def) RETURN_VERIFY_ERROR(ctx, "invalid data!");
   if (data.def->type == SSZ_TYPE_NONE) {
     switch (field) {
@@ -351,7 +371,7 @@ bool eth_account_verify_data(verify_ctx_t* ctx, address_t verified_address, eth_
       case ETH_ACCOUNT_PROOF: {
         ssz_builder_t builder       = ssz_builder_for_type(ETH_SSZ_DATA_PROOF);
         ssz_ob_t      storage_proof = ssz_get(&ctx->proof, "storageProof");
-        bytes_t       account       = get_leaf(ssz_get(&ctx->proof, "accountProof"));
+        bytes_t       account       = get_proven_value(ssz_get(&ctx->proof, "accountProof"), ssz_get(&ctx->proof, "address"));
         bytes_t       value         = {0};
         if (account.data && rlp_decode(&account, 0, &account) == RLP_LIST && rlp_decode(&account, -1, NULL) == 4) {
           ssz_builder_t storage_list_builder = ssz_builder_for_def(ssz_get_def(builder.def, "storageProof"));
diff --git a/src/chains/eth/verifier/verify_account_proof.c b/src/chains/eth/verifier/verify_account_proof.c
index 33cc9c4..470cd5c 100644
--- a/src/chains/eth/verifier/verify_account_proof.c
+++ b/src/chains/eth/verifier/verify_account_proof.c
@@ -51,10 +51,11 @@ bool verify_account_proof(verify_ctx_t* ctx) {
   eth_account_field_t field            = eth_account_get_field(ctx);
   bytes32_t           value            = {0};
   uint32_t            storage_keys_len = ssz_len(ssz_get(&ctx->proof, "storageProof"));
+  // values always has space for at least one value, since the field of the account is stored there too.
 #ifdef _MSC_VER
-  bytes_t values = field == ETH_ACCOUNT_PROOF ? bytes(_alloca(32 * storage_keys_len), 32 * storage_keys_len) : bytes(value, 32);
+  bytes_t values = field == ETH_ACCOUNT_PROOF ? bytes(_alloca(32 * storage_keys_len + 32), 32 * storage_keys_len) : bytes(value, 32);
 #else
-  bytes_t values = field == ETH_ACCOUNT_PROOF ? bytes(alloca(32 * storage_keys_len), 32 * storage_keys_len) : bytes(value, 32);
+  bytes_t values = field == ETH_ACCOUNT_PROOF ? bytes(alloca(32 * storage_keys_len + 32), 32 * storage_keys_len) : bytes(value, 32);
 #endif
 
   if (!eth_verify_account_proof_exec(ctx, &ctx->proof, state_root, field == ETH_ACCOUNT_PROOF ? ETH_ACCOUNT_STORAGE_HASH : field, values)) RETURN_VERIFY_ERROR(ctx, "invalid account proof!");
-- 
2.43.0


From c44e9d0c83ecde759829412fb86dbb4a6238db76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:56 +0000
Subject: [PATCH 18/23] fix: eth_getProof of a missing account reports the
 requested storage keys

---
 src/chains/eth/verifier/eth_account.c | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/chains/eth/verifier/eth_account.c b/src/chains/eth/verifier/eth_account.c
index 826ef48..9cf8529 100644
--- a/src/chains/eth/verifier/eth_account.c
+++ b/src/chains/eth/verifier/eth_account.c
@@ -373,16 +373,16 @@ bool eth_account_verify_data(verify_ctx_t* ctx, address_t verified_address, eth_
         ssz_ob_t      storage_proof = ssz_get(&ctx->proof, "storageProof");
         bytes_t       account       = get_proven_value(ssz_get(&ctx->proof, "accountProof"), ssz_get(&ctx->proof, "address"));
         bytes_t       value         = {0};
+        ssz_builder_t storage_list_builder = ssz_builder_for_def(ssz_get_def(builder.def, "storageProof"));
+        for (int i = 0; i < values.len / 32; i++) {
+          ssz_builder_t storage_builder = ssz_builder_for_def(storage_list_builder.def->def.vector.type);
+          ssz_ob_t      storage         = ssz_at(storage_proof, i);
+          ssz_add_bytes(&storage_builder, "key", ssz_get(&storage, "key").bytes);
+          ssz_add_bytes(&storage_builder, "value", bytes(values.data + i * 32, 32));
+          ssz_add_bytes(&storage_builder, "proof", ssz_get(&storage, "proof").bytes);
+          ssz_add_dynamic_list_builders(&storage_list_builder, values.len / 32, storage_builder);
+        }
         if (account.data && rlp_decode(&account, 0, &account) == RLP_LIST && rlp_decode(&account, -1, NULL) == 4) {
-          ssz_builder_t storage_list_builder = ssz_builder_for_def(ssz_get_def(builder.def, "storageProof"));
-          for (int i = 0; i < values.len / 32; i++) {
-            ssz_builder_t storage_builder = ssz_builder_for_def(storage_list_builder.def->def.vector.type);
-            ssz_ob_t      storage         = ssz_at(storage_proof, i);
-            ssz_add_bytes(&storage_builder, "key", ssz_get(&storage, "key").bytes);
-            ssz_add_bytes(&storage_builder, "value", bytes(values.data + i * 32, 32));
-            ssz_add_bytes(&storage_builder, "proof", ssz_get(&storage, "proof").bytes);
-            ssz_add_dynamic_list_builders(&storage_list_builder, values.len / 32, storage_builder);
-          }
           rlp_decode(&account, 1, &value);
           ssz_add_uint256(&builder, value); // balance
           rlp_decode(&account, 3, &value);
@@ -392,7 +392,6 @@ bool eth_account_verify_data(verify_ctx_t* ctx, address_t verified_address, eth_
           rlp_decode(&account, 2, &value);
           ssz_add_bytes(&builder, "storageHash", value);
           ssz_add_bytes(&builder, "accountProof", ssz_get(&ctx->proof, "accountProof").bytes);
-          ssz_add_builders(&builder, "storageProof", storage_list_builder);
         }
         else {
           ssz_add_bytes(&builder, "balance", bytes(0, 32));
@@ -400,8 +399,8 @@ bool eth_account_verify_data(verify_ctx_t* ctx, address_t verified_address, eth_
           ssz_add_bytes(&builder, "nonce", bytes(0, 32));
           ssz_add_bytes(&builder, "storageHash", bytes(EMPTY_ROOT_HASH, 32));
           ssz_add_bytes(&builder, "accountProof", ssz_get(&ctx->proof, "accountProof").bytes);
-          ssz_add_bytes(&builder, "storageProof", NULL_BYTES);
         }
+        ssz_add_builders(&builder, "storageProof", storage_list_builder);
 
         ctx->data = ssz_builder_to_bytes(&builder);
         break;
-- 
2.43.0


From 6ae0419602e83b6e28d54938c910284b0ad4c687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:29 +0000
Subject: [PATCH 19/23] fix: transaction proofs need an index inside of the
 transactions and well-formed signature fields; legacy v and mint are read
 completely

---
 src/chains/eth/verifier/eth_tx.c          | 27 +++++++++--------------
 src/chains/eth/verifier/eth_tx.h          |  1 +
 src/chains/eth/verifier/verify_tx_proof.c |  2 ++
 3 files changed, 13 insertions(+), 17 deletions(-)

diff --git a/src/chains/eth/verifier/eth_tx.c b/src/chains/eth/verifier/eth_tx.c
index 715b823..91a50bf 100644
--- a/src/chains/eth/verifier/eth_tx.c
+++ b/src/chains/eth/verifier/eth_tx.c
@@ -185,8 +185,8 @@ static bool get_and_remove_tx_type(verify_ctx_t* ctx, bytes_t* raw_tx, tx_type_t
 INTERNAL bool c4_tx_create_from_address(verify_ctx_t* ctx, bytes_t raw_tx, uint8_t* address) {
   buffer_t  buf      = {0};
   bytes32_t raw_hash = {0};
-  bytes_t   last_item;
-  tx_type_t type = 0;
+  bytes_t   last_item = NULL_BYTES;
+  tx_type_t type      = 0;
   if (!get_and_remove_tx_type(ctx, &raw_tx, &type)) RETURN_VERIFY_ERROR(ctx, "invalid tx data, missing type!");
   if (rlp_decode(&raw_tx, 0, &raw_tx) != RLP_LIST) RETURN_VERIFY_ERROR(ctx, "invalid tx data!");
   const rlp_type_defs_t* defs_ptr = get_tx_type_defs(type);
@@ -198,7 +198,7 @@ INTERNAL bool c4_tx_create_from_address(verify_ctx_t* ctx, bytes_t raw_tx, uint8
     memcpy(address, from.data, 20);
     return true;
   }
-  rlp_decode(&raw_tx, defs.len - 4, &last_item);
+  if ((int) rlp_decode(&raw_tx, -1, NULL) != (int) defs.len || rlp_decode(&raw_tx, defs.len - 4, &last_item) < RLP_ITEM) RETURN_VERIFY_ERROR(ctx, "invalid tx data, wrong number of fields!");
   buffer_append(&buf, bytes(raw_tx.data, last_item.data + last_item.len - raw_tx.data));
   uint64_t v = 0;
   if (type == TX_TYPE_LEGACY) {
@@ -225,9 +225,9 @@ INTERNAL bool c4_tx_create_from_address(verify_ctx_t* ctx, bytes_t raw_tx, uint8
 
   uint8_t sig[65]    = {0};
   uint8_t pubkey[64] = {0};
-  rlp_decode(&raw_tx, defs.len - 2, &last_item);
+  if (rlp_decode(&raw_tx, defs.len - 2, &last_item) != RLP_ITEM || last_item.len > 32) RETURN_VERIFY_ERROR(ctx, "invalid tx data, invalid signature!");
   memcpy(sig + 32 - last_item.len, last_item.data, last_item.len);
-  rlp_decode(&raw_tx, defs.len - 1, &last_item);
+  if (rlp_decode(&raw_tx, defs.len - 1, &last_item) != RLP_ITEM || last_item.len > 32) RETURN_VERIFY_ERROR(ctx, "invalid tx data, invalid signature!");
   memcpy(sig + 64 - last_item.len, last_item.data, last_item.len);
   sig[64] = (uint8_t) (v > 28 ? (v % 2 ? 27 : 28) : v);
 
@@ -727,10 +727,10 @@ INTERNAL bool c4_write_tx_data_from_raw(verify_ctx_t* ctx, ssz_builder_t* buffer
 
   // Calculate v_for_ssz, chain_id (legacy overwrite), and gas_price
   if (type == TX_TYPE_LEGACY) {
-    uint8_t rlp_v_val = rlp_v_field.len ? rlp_v_field.data[0] : 0;
-    tx_sig_y_parity   = (rlp_v_val - 1) % 2;
-    chain_id          = rlp_v_val < 28 ? 1 : (rlp_v_val - 35 - tx_sig_y_parity) / 2;
-    v_for_ssz         = rlp_v_val;
+    uint64_t rlp_v_val = bytes_as_be(rlp_v_field);
+    tx_sig_y_parity    = (uint8_t) ((rlp_v_val + 1) % 2);
+    chain_id           = (uint32_t) (rlp_v_val <= 28 ? 1 : (rlp_v_val - 35 - tx_sig_y_parity) / 2);
+    v_for_ssz          = (uint8_t) rlp_v_val;
   }
   else if (type != TX_TYPE_DEPOSITED)
     v_for_ssz = tx_sig_y_parity;
@@ -814,14 +814,7 @@ INTERNAL bool c4_write_tx_data_from_raw(verify_ctx_t* ctx, ssz_builder_t* buffer
     ssz_add_bytes(buffer, "sourceHash", get_rlp_field(ctx, rlp_list_payload, defs_ptr, "sourceHash", RLP_ITEM));
 
     // Convert mint from RLP (big-endian) to SSZ (little-endian) bytes
-    bytes_t mint_rlp = get_rlp_field(ctx, rlp_list_payload, defs_ptr, "mint", RLP_ITEM);
-    // Only use as many bytes as needed, convert big-endian to little-endian
-    uint8_t mint_le[32] = {0}; // Max 32 bytes for uint256
-    int     actual_len  = mint_rlp.len > 32 ? 32 : mint_rlp.len;
-    for (int i = 0; i < actual_len; i++) {
-      mint_le[i] = mint_rlp.data[mint_rlp.len - 1 - i];
-    }
-    ssz_add_bytes(buffer, "mint", bytes(mint_le, actual_len ? actual_len : 1));
+    ssz_add_uint256(buffer, get_rlp_field(ctx, rlp_list_payload, defs_ptr, "mint", RLP_ITEM));
     ssz_add_bytes(buffer, "isSystemTx", bytes(&system_tx_true, 1));
 
     // Add depositReceiptVersion (always 1 for current Optimism version)
diff --git a/src/chains/eth/verifier/eth_tx.h b/src/chains/eth/verifier/eth_tx.h
index dcd63cd..db65225 100644
--- a/src/chains/eth/verifier/eth_tx.h
+++ b/src/chains/eth/verifier/eth_tx.h
@@ -34,6 +34,7 @@ extern "C" {
 #define GINDEX_BLOCKUMBER   806
 #define GINDEX_BLOCHASH     812
 #define GINDEX_TXINDEX_G    1704984576L // gindex of the first tx
+#define MAX_TXS_PER_PAYLOAD 1048576     // limit of the transactions-list, bigger indexes would point outside of it
 
 /*
    SSZ_BYTES32("blockHash"),                                                  // the blockHash of the execution block containing the transaction
diff --git a/src/chains/eth/verifier/verify_tx_proof.c b/src/chains/eth/verifier/verify_tx_proof.c
index 9213e95..0366bf6 100644
--- a/src/chains/eth/verifier/verify_tx_proof.c
+++ b/src/chains/eth/verifier/verify_tx_proof.c
@@ -48,6 +48,8 @@ static bool verify_merkle_proof(verify_ctx_t* ctx, ssz_ob_t proof, bytes_t block
   bytes32_t root_hash   = {0};                                                                                     // calculated body root hash
   gindex_t  gindexes[]  = {GINDEX_BLOCKUMBER, GINDEX_BLOCHASH, GINDEX_BASEFEEPERGAS, GINDEX_TXINDEX_G + tx_index}; // calculate the gindexes for the proof
 
+  if (tx_index >= MAX_TXS_PER_PAYLOAD) RETURN_VERIFY_ERROR(ctx, "invalid transaction index!");
+
   // copy leaf data
   memcpy(leafes, block_number.data, block_number.len);
   memcpy(leafes + 32, block_hash.data, block_hash.len);
-- 
2.43.0


From ec8e944c7eb8f36ce1eb1df14451dedb02989d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:29 +0000
Subject: [PATCH 20/23] fix: receipts are checked for their type and the
 transaction of their logs

---
 src/chains/eth/verifier/eth_tx.c               | 4 +++-
 src/chains/eth/verifier/verify_receipt_proof.c | 3 +++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/chains/eth/verifier/eth_tx.c b/src/chains/eth/verifier/eth_tx.c
index 91a50bf..8ae9b27 100644
--- a/src/chains/eth/verifier/eth_tx.c
+++ b/src/chains/eth/verifier/eth_tx.c
@@ -301,7 +301,7 @@ INTERNAL bool c4_tx_verify_receipt_data(verify_ctx_t* ctx, ssz_ob_t receipt_data
   // from
   if (!c4_tx_create_from_address(ctx, tx_raw, tmp) || memcmp(tmp, ssz_get(&receipt_data, "from").bytes.data, 20)) RETURN_VERIFY_ERROR(ctx, "invalid tx data, wrong from address!");
   // type
-  if (!get_and_remove_tx_type(ctx, &tx_raw, &type) && type != (uint8_t) ssz_get_uint32(&receipt_data, "type")) RETURN_VERIFY_ERROR(ctx, "invalid tx data, invalid type!");
+  if (!get_and_remove_tx_type(ctx, &tx_raw, &type) || type != (uint8_t) ssz_get_uint32(&receipt_data, "type")) RETURN_VERIFY_ERROR(ctx, "invalid tx data, invalid type!");
   // to
   int to_idx = type == TX_TYPE_DEPOSITED ? 2 : (type == TX_TYPE_EIP4844 ? 5 : min32(5, 3 + type));
   if (rlp_decode(&tx_raw, 0, &tx_raw) != RLP_LIST || rlp_decode(&tx_raw, to_idx, &val) != RLP_ITEM || !bytes_eq(val, ssz_get(&receipt_data, "to").bytes)) RETURN_VERIFY_ERROR(ctx, "invalid to address!");
@@ -336,6 +336,8 @@ INTERNAL bool c4_tx_verify_receipt_data(verify_ctx_t* ctx, ssz_ob_t receipt_data
     if (rlp_decode(&log_rlp, 2, &val) != RLP_ITEM || !bytes_eq(val, ssz_get(&log, "data").bytes)) RETURN_VERIFY_ERROR(ctx, "invalid receipt data!");
     if (block_number != ssz_get_uint64(&log, "blockNumber")) RETURN_VERIFY_ERROR(ctx, "invalid block number!");
     if (!bytes_eq(ssz_get(&log, "blockHash").bytes, bytes(block_hash, 32))) RETURN_VERIFY_ERROR(ctx, "invalid block hash!");
+    if (tx_index != ssz_get_uint32(&log, "transactionIndex")) RETURN_VERIFY_ERROR(ctx, "invalid transaction index!");
+    if (!bytes_eq(bytes(tx_hash, 32), ssz_get(&log, "transactionHash").bytes)) RETURN_VERIFY_ERROR(ctx, "invalid transaction hash!");
 
     log = ssz_get(&log, "topics");
     if (rlp_decode(&log_rlp, 1, &log_rlp) != RLP_LIST) RETURN_VERIFY_ERROR(ctx, "invalid topics!");
diff --git a/src/chains/eth/verifier/verify_receipt_proof.c b/src/chains/eth/verifier/verify_receipt_proof.c
index c8e0c65..db694d9 100644
--- a/src/chains/eth/verifier/verify_receipt_proof.c
+++ b/src/chains/eth/verifier/verify_receipt_proof.c
@@ -43,6 +43,8 @@ static bool verify_merkle_proof(verify_ctx_t* ctx, ssz_ob_t proof, bytes_t block
   bytes32_t root_hash      = {0};                                                                                    // calculated body root hash
   gindex_t  gindexes[]     = {GINDEX_BLOCKUMBER, GINDEX_BLOCHASH, GINDEX_RECEIPT_ROOT, GINDEX_TXINDEX_G + tx_index}; // calculate the gindexes for the proof
 
+  if (tx_index >= MAX_TXS_PER_PAYLOAD) RETURN_VERIFY_ERROR(ctx, "invalid transaction index!");
+
   // copy leaf data
   memcpy(leafes, block_number.data, block_number.len);
   memcpy(leafes + 32, block_hash.data, block_hash.len);
@@ -66,6 +68,7 @@ bool verify_receipt_proof(verify_ctx_t* ctx) {
   bytes32_t receipt_root  = {0};
   bytes_t   raw_receipt   = {0};
 
+  if (ctx->data.def != eth_ssz_verification_type(ETH_SSZ_DATA_RECEIPT)) RETURN_VERIFY_ERROR(ctx, "missing receipt data!");
   if (!c4_tx_verify_tx_hash(ctx, raw_tx.bytes)) RETURN_VERIFY_ERROR(ctx, "invalid tx hash!");
   if (!c4_tx_verify_receipt_proof(ctx, receipt_proof, tx_index, receipt_root, &raw_receipt)) RETURN_VERIFY_ERROR(ctx, "invalid receipt proof!");
   if (!c4_tx_verify_receipt_data(ctx, ctx->data, block_hash.bytes.data, ssz_uint64(block_number), tx_index, raw_tx.bytes, raw_receipt)) RETURN_VERIFY_ERROR(ctx, "invalid tx data!");
-- 
2.43.0


From 2c617315c7392c5773daa9a8217cabf3b53bc711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:29 +0000
Subject: [PATCH 21/23] fix: logs must match the requested filter and be proven
 inside of the transactions

---
 src/chains/eth/verifier/eth_tx.c            |  7 +--
 src/chains/eth/verifier/verify_logs_proof.c | 69 ++++++++++++++++++---
 2 files changed, 65 insertions(+), 11 deletions(-)

diff --git a/src/chains/eth/verifier/eth_tx.c b/src/chains/eth/verifier/eth_tx.c
index 8ae9b27..b99d66c 100644
--- a/src/chains/eth/verifier/eth_tx.c
+++ b/src/chains/eth/verifier/eth_tx.c
@@ -282,12 +282,11 @@ INTERNAL bool c4_tx_verify_log_data(verify_ctx_t* ctx, ssz_ob_t log, bytes32_t b
   if (tx_index != ssz_get_uint32(&log, "transactionIndex")) RETURN_VERIFY_ERROR(ctx, "invalid transaction index!");
   if (!get_and_remove_tx_type(ctx, &receipt_raw, &type)) RETURN_VERIFY_ERROR(ctx, "invalid tx data, invalid type!");
   if (rlp_decode(&receipt_raw, 0, &receipt_raw) != RLP_LIST || rlp_decode(&receipt_raw, 3, &logs) != RLP_LIST) RETURN_VERIFY_ERROR(ctx, "invalid to data!");
-  uint32_t logs_len = rlp_decode(&logs, -1, &logs);
+  int logs_len = rlp_decode(&logs, -1, &logs);
 
-  for (uint32_t i = 0; i < logs_len; i++) {
+  for (int i = 0; i < logs_len; i++) {
     bytes_t log_rlp = {0};
-    rlp_decode(&logs, i, &log_rlp);
-    if (matches(log, log_rlp)) return true;
+    if (rlp_decode(&logs, i, &log_rlp) == RLP_LIST && matches(log, log_rlp)) return true;
   }
   RETURN_VERIFY_ERROR(ctx, "missing the log within the tx");
 }
diff --git a/src/chains/eth/verifier/verify_logs_proof.c b/src/chains/eth/verifier/verify_logs_proof.c
index 0cb6731..f50e16b 100644
--- a/src/chains/eth/verifier/verify_logs_proof.c
+++ b/src/chains/eth/verifier/verify_logs_proof.c
@@ -60,9 +60,15 @@ static bool verify_merkle_proof(verify_ctx_t* ctx, ssz_ob_t block, bytes32_t rec
   gindexes[2] = GINDEX_RECEIPT_ROOT;
 
   for (int i = 0; i < tx_count; i++) {
-    ssz_ob_t tx = ssz_at(txs, i);
+    ssz_ob_t tx       = ssz_at(txs, i);
+    uint32_t tx_index = ssz_get_uint32(&tx, "transactionIndex");
+    if (tx_index >= MAX_TXS_PER_PAYLOAD) {
+      safe_free(leafes);
+      safe_free(gindexes);
+      RETURN_VERIFY_ERROR(ctx, "invalid transaction index!");
+    }
     ssz_hash_tree_root(ssz_get(&tx, "transaction"), leafes + 96 + 32 * i);
-    gindexes[3 + i] = GINDEX_TXINDEX_G + ssz_get_uint64(&tx, "transactionIndex");
+    gindexes[3 + i] = GINDEX_TXINDEX_G + tx_index;
   }
 
   bool merkle_proof_match = ssz_verify_multi_merkle_proof(proof.bytes, bytes(leafes, (3 + tx_count) * 32), gindexes, root_hash);
@@ -83,11 +89,6 @@ static bool verify_tx(verify_ctx_t* ctx, ssz_ob_t block, ssz_ob_t tx, bytes32_t
   bytes_t   block_hash   = ssz_get(&block, "blockHash").bytes;
   ssz_ob_t  block_number = ssz_get(&block, "blockNumber");
 
-  if (ctx->data.def->type == SSZ_TYPE_NONE && ctx->method && strcmp(ctx->method, "eth_verifyLogs") == 0) {
-    ctx->data = ssz_from_json(ctx->args, eth_ssz_verification_type(ETH_SSZ_DATA_LOGS), &ctx->state);
-    ctx->flags |= VERIFY_FLAG_FREE_DATA;
-  }
-
   // verify receipt proof
   if (!c4_tx_verify_receipt_proof(ctx, ssz_get(&tx, "proof"), ssz_uint32(tidx), root_hash, &raw_receipt)) RETURN_VERIFY_ERROR(ctx, "invalid receipt proof!");
   if (bytes_all_zero(bytes(receipt_root, 32)))
@@ -135,7 +136,60 @@ static bool has_proof(verify_ctx_t* ctx, bytes_t block_number, bytes_t tx_index,
   return false;
 }
 
+// a missing value matches everything, an array matches, if it is empty or one of its values does
+static bool matches_filter_value(json_t filter, bytes_t value) {
+  bytes32_t tmp = {0};
+  buffer_t  buf = stack_buffer(tmp);
+  int       len = 0;
+  switch (filter.type) {
+    case JSON_TYPE_NOT_FOUND:
+    case JSON_TYPE_NULL: return true;
+    case JSON_TYPE_STRING: return bytes_eq(json_as_bytes(filter, &buf), value);
+    case JSON_TYPE_ARRAY:
+      json_for_each_value(filter, val) {
+        if ((val.type == JSON_TYPE_STRING || val.type == JSON_TYPE_NULL) && matches_filter_value(val, value)) return true;
+        len++;
+      }
+      return len == 0;
+    default: return false;
+  }
+}
+
+static bool is_block_number(json_t val) {
+  return val.type == JSON_TYPE_STRING && val.len > 3 && val.start[1] == '0' && val.start[2] == 'x';
+}
+
+// checks that the log is one the request asks for (blocktags are not checked)
+static bool matches_filter(json_t filter, ssz_ob_t log) {
+  uint64_t block_number = ssz_get_uint64(&log, "blockNumber");
+  json_t   from_block   = json_get(filter, "fromBlock");
+  json_t   to_block     = json_get(filter, "toBlock");
+  json_t   topics       = json_get(filter, "topics");
+  ssz_ob_t log_topics   = ssz_get(&log, "topics");
+  uint32_t topic_len    = ssz_len(log_topics);
+  uint32_t idx          = 0;
+
+  if (is_block_number(from_block) && block_number < json_as_uint64(from_block)) return false;
+  if (is_block_number(to_block) && block_number > json_as_uint64(to_block)) return false;
+  if (!matches_filter_value(json_get(filter, "blockHash"), ssz_get(&log, "blockHash").bytes)) return false;
+  if (!matches_filter_value(json_get(filter, "address"), ssz_get(&log, "address").bytes)) return false;
+  if (topics.type == JSON_TYPE_ARRAY) {
+    json_for_each_value(topics, topic) {
+      if (!matches_filter_value(topic, idx < topic_len ? ssz_at(log_topics, idx).bytes : NULL_BYTES)) return false;
+      idx++;
+    }
+  }
+  return true;
+}
+
 bool verify_logs_proof(verify_ctx_t* ctx) {
+  // the logs to verify are given by the caller
+  if (ctx->data.def->type == SSZ_TYPE_NONE && ctx->method && strcmp(ctx->method, "eth_verifyLogs") == 0) {
+    ctx->data = ssz_from_json(ctx->args, eth_ssz_verification_type(ETH_SSZ_DATA_LOGS), &ctx->state);
+    ctx->flags |= VERIFY_FLAG_FREE_DATA;
+    if (ctx->state.error) return false;
+  }
+  if (ctx->data.def != eth_ssz_verification_type(ETH_SSZ_DATA_LOGS)) RETURN_VERIFY_ERROR(ctx, "missing logs!");
 
   uint32_t log_count   = ssz_len(ctx->data);
   uint32_t block_count = ssz_len(ctx->proof);
@@ -148,6 +202,7 @@ bool verify_logs_proof(verify_ctx_t* ctx) {
   // make sure we have a proof for each log
   for (int i = 0; i < log_count; i++) {
     ssz_ob_t log = ssz_at(ctx->data, i);
+    if (ctx->method && strcmp(ctx->method, "eth_getLogs") == 0 && !matches_filter(json_at(ctx->args, 0), log)) RETURN_VERIFY_ERROR(ctx, "the log does not match the filter!");
     if (!has_proof(ctx, ssz_get(&log, "blockNumber").bytes, ssz_get(&log, "transactionIndex").bytes, block_count)) RETURN_VERIFY_ERROR(ctx, "missing log proof!");
   }
 
-- 
2.43.0


From 6f12f4d9d96ac4ef2a991b2f6c2182c7d7ab03e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:29 +0000
Subject: [PATCH 22/23] fix: blocks are always created from the proven payload;
 a missing node of a block number proof is an error

---
 src/chains/eth/verifier/verify_block.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/chains/eth/verifier/verify_block.c b/src/chains/eth/verifier/verify_block.c
index cd0404a..8a4c8a3 100644
--- a/src/chains/eth/verifier/verify_block.c
+++ b/src/chains/eth/verifier/verify_block.c
@@ -84,8 +84,6 @@ static ssz_builder_t create_txs_builder(verify_ctx_t* ctx, const ssz_def_t* tx_u
 }
 
 void eth_set_block_data(verify_ctx_t* ctx, uint32_t mask, ssz_ob_t block, bytes32_t parent_root, bytes32_t withdrawel_root, bool include_txs) {
-  if (ctx->data.def && ctx->data.def->type == SSZ_TYPE_CONTAINER) return;
-
   bytes32_t     tx_root = {0};
   ssz_builder_t data    = ssz_builder_for_type(ETH_SSZ_DATA_BLOCK);
   ssz_add_uint32(&data, mask);
@@ -119,7 +117,7 @@ void eth_set_block_data(verify_ctx_t* ctx, uint32_t mask, ssz_ob_t block, bytes3
 }
 
 static bool matches_blocknumber(verify_ctx_t* ctx, ssz_ob_t block, json_t req_block) {
-  if (req_block.type != JSON_TYPE_STRING || req_block.len < 6) RETURN_VERIFY_ERROR(ctx, "invalid blocknumber");
+  if (req_block.type != JSON_TYPE_STRING || req_block.len < 5) RETURN_VERIFY_ERROR(ctx, "invalid blocknumber");
   if (req_block.start[1] != '0' || req_block.start[2] != 'x') return true;
   if (req_block.len == 68) { // hash
     bytes32_t hash = {0};
@@ -175,7 +173,7 @@ bool verify_block_number_proof(verify_ctx_t* ctx) {
   ssz_ob_t  header       = ssz_get(&ctx->proof, "header");
 
   // calculate the tree root of the execution payload
-  if (!verify_block_number_merkle_proof(ctx, proof.bytes, body_root, block_number.bytes, timestamp.bytes)) return false;
+  if (!verify_block_number_merkle_proof(ctx, proof.bytes, body_root, block_number.bytes, timestamp.bytes)) RETURN_VERIFY_ERROR(ctx, "invalid block number proof, missing nodes!");
   if (memcmp(body_root, ssz_get(&header, "bodyRoot").bytes.data, 32) != 0) RETURN_VERIFY_ERROR(ctx, "invalid body root!");
   if (c4_verify_header(ctx, header, ctx->proof) != C4_SUCCESS) return false;
 
-- 
2.43.0


From 5d5892ed6bd6268990c519390190416eb872dfae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:29 +0000
Subject: [PATCH 23/23] fix: the error of an undecodable transaction is added
 to the state

---
 src/chains/eth/verifier/verify_local.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chains/eth/verifier/verify_local.c b/src/chains/eth/verifier/verify_local.c
index 18c8f6e..d34d974 100644
--- a/src/chains/eth/verifier/verify_local.c
+++ b/src/chains/eth/verifier/verify_local.c
@@ -118,7 +118,7 @@ static ssz_ob_t colibri_decodeTransaction(verify_ctx_t* ctx) {
   if (!success) {
     buffer_free(&tx_data.dynamic);
     buffer_free(&tx_data.fixed);
-    if (ctx->state.error == NULL) c4_state_add_error(ctx, "invalid tx data!");
+    if (ctx->state.error == NULL) c4_state_add_error(&ctx->state, "invalid tx data!");
     return (ssz_ob_t) {0};
   }
   return ssz_builder_to_bytes(&tx_data);
-- 
2.43.0

