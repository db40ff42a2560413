/* byte buffers: fixed-size buffers are never exceeded, growable ones keep every byte */
#include "bytes.h"
#include "json.h"
#include "vf.h"
#ifndef CAP
#define CAP 5
#endif
#ifndef SRC
#define SRC 6
#endif
static uint8_t* area;
static uint8_t  old[CAP];
/* fixed buffer whose storage ends with the allocation; one guard byte in front */
static buffer_t fixed(uint32_t* cap, uint32_t* len) {
  *cap = CAP;
  *len = nd_range(0, CAP);
  assume(*len <= *cap);
  area       = nd_block(CAP + 1);
  uint8_t* p = area + CAP + 1 - *cap;
  area[CAP - *cap] = 0x5A; /* guard */
  for (uint32_t i = 0; i < CAP; i++) old[i] = i < *len ? p[i] : 0;
  return (buffer_t) {.data = bytes(p, *len), .allocated = -((int32_t) *cap)};
}
static void check_fixed(buffer_t* b, uint8_t* p, uint32_t cap, uint32_t len) {
  vf_assert(b->data.data == p && b->allocated == -((int32_t) cap), "a fixed buffer keeps its storage");
  vf_assert(b->data.len <= cap, "a fixed buffer is never longer than its limit");
  vf_assert(area[CAP - cap] == 0x5A, "nothing written before a fixed buffer");
  for (uint32_t i = 0; i < CAP; i++)
    if (i < len && i < b->data.len) vf_assert(p[i] == old[i], "existing content is kept");
}
void h_fixed_append(void) {
  uint32_t cap, len;
  buffer_t b = fixed(&cap, &len);
  uint8_t* p = b.data.data;
  uint32_t n = nd_range(0, SRC);
  uint8_t* s = nd_block(SRC) + SRC - n;
  bool     z = nd_bool();
  uint32_t r = buffer_append(&b, bytes(z ? NULL : s, n));
  uint32_t e = n < cap - len ? n : cap - len;
  check_fixed(&b, p, cap, len);
  vf_assert(r == e && b.data.len == len + e, "append adds what fits");
  for (uint32_t i = 0; i < SRC; i++)
    if (i < e) vf_assert(p[len + i] == (z ? 0 : s[i]), "append copies the data");
  if (e < n) REACH("truncated");
}
void h_fixed_add_chars(void) {
  uint32_t cap, len;
  buffer_t b = fixed(&cap, &len);
  uint8_t* p = b.data.data;
  uint32_t n = nd_range(0, SRC);
  uint8_t* s = nd_block(SRC + 1) + SRC - n;
  for (uint32_t i = 0; i < SRC; i++) if (i < n) assume(s[i] != 0);
  s[n] = 0;
  buffer_add_chars(&b, (char*) s);
  check_fixed(&b, p, cap, len);
  if (len < cap) {
    uint32_t e = n < cap - len - 1 ? n : cap - len - 1;
    vf_assert(b.data.len == len + e && p[b.data.len] == 0, "a string is truncated and stays terminated");
    for (uint32_t i = 0; i < SRC; i++)
      if (i < e) vf_assert(p[len + i] == s[i], "the string is copied");
    if (e == n && n == 4) REACH("complete");
  }
}
void h_fixed_numbers(void) {
  uint32_t cap, len;
  buffer_t b = fixed(&cap, &len);
  uint8_t* p = b.data.data;
  uint64_t v = nd_u64();
  uint32_t n = nd_range(0, 8);
  uint8_t  k = nd_range(0, 2);
  if (k == 0) buffer_add_be(&b, v, n);
  else if (k == 1) buffer_add_le(&b, v, n);
  else { buffer_add_bytes(&b, 2, (int) (v & 0xff), (int) ((v >> 8) & 0xff)); n = 2; }
  check_fixed(&b, p, cap, len);
  if (n <= cap - len) {
    vf_assert(b.data.len == len + n, "a number is appended with the requested width");
    for (uint32_t i = 0; i < 8; i++)
      if (i < n) {
        uint8_t e = k == 0 ? (uint8_t) (v >> (8 * (n - 1 - i))) : (uint8_t) (v >> (8 * i));
        vf_assert(p[len + i] == e, "a number is appended in the requested byte order");
      }
    if (n == 4) REACH("four bytes");
  }
  else
    vf_assert(b.data.len == len, "a number that does not fit is not appended");
}
void h_fixed_splice(void) {
  uint32_t cap, len;
  buffer_t b   = fixed(&cap, &len);
  uint8_t* p   = b.data.data;
  uint32_t off = nd_range(0, CAP), del = nd_range(0, CAP), n = nd_range(0, SRC);
  assume(off <= len && del <= len - off);
  uint8_t* s = nd_block(SRC) + SRC - n;
  buffer_splice(&b, off, del, bytes(s, n));
  vf_assert(b.data.data == p && b.data.len <= cap && area[CAP - cap] == 0x5A, "splice stays within a fixed buffer");
  uint32_t nl = len - del + n;
  if (nl <= cap) {
    vf_assert(b.data.len == nl, "splice yields the right length");
    for (uint32_t i = 0; i < CAP; i++)
      if (i < nl) {
        uint8_t e = i < off ? old[i] : i < off + n ? s[i - off] : old[i - n + del];
        vf_assert(p[i] == e, "splice replaces exactly the range");
      }
    if (n > del && off + del < len) REACH("moved");
  }
}
/* growable buffer: two appends of arbitrary size */
void h_grow_append(void) {
  buffer_t b = {0};
  b.allocated = nd_range(0, 3);
  uint32_t n1 = nd_range(0, 3), n2 = nd_range(0, 4);
  uint8_t *s1 = nd_block(3), *s2 = nd_block(4);
  vf_assert(buffer_append(&b, bytes(s1, n1)) == n1, "a growable buffer takes all data");
  vf_assert(buffer_append(&b, bytes(s2, n2)) == n2, "a growable buffer takes all data");
  vf_assert(b.data.len == n1 + n2, "length of a growable buffer");
  vf_assert(b.data.data == NULL || (b.allocated >= (int32_t) b.data.len), "capacity covers the content");
  for (uint32_t i = 0; i < 7; i++)
    if (i < n1 + n2) vf_assert(b.data.data[i] == (i < n1 ? s1[i] : s2[i - n1]), "growing keeps every byte");
  if (n1 == 3 && n2 == 4) REACH("grown");
}
/* integer codecs are exact inverses */
void h_codecs(void) {
  uint8_t* p = nd_block(8);
  uint64_t v = nd_u64();
  uint64_to_be(p, v);
  vf_assert(uint64_from_be(p) == v && bytes_as_be(bytes(p, 8)) == v && p[0] == (uint8_t) (v >> 56) && p[7] == (uint8_t) v, "big endian 64 bit");
  uint64_to_le(p, v);
  vf_assert(uint64_from_le(p) == v && bytes_as_le(bytes(p, 8)) == v && p[7] == (uint8_t) (v >> 56) && p[0] == (uint8_t) v, "little endian 64 bit");
  vf_assert(uint32_from_le(p) == (uint32_t) v && uint16_from_le(p) == (uint16_t) v, "little endian 32/16 bit");
  uint32_to_le(p + 4, (uint32_t) v);
  vf_assert(uint32_from_le(p + 4) == (uint32_t) v, "little endian 32 bit round trip");
  uint32_t n = nd_range(0, 7);
  nd_fill(p, 8);
  uint64_t be = 0, le = 0;
  for (uint32_t i = 0; i < 8; i++)
    if (i < n) { be = be << 8 | p[i]; le |= (uint64_t) p[i] << (8 * i); }
  vf_assert(bytes_as_be(bytes(p, n)) == be && bytes_as_le(bytes(p, n)) == le, "integers of fewer than 8 bytes");
  bytes_t z = bytes_remove_leading_zeros(bytes(p, n));
  uint64_t zb = 0;
  for (uint32_t i = 0; i < 8; i++)
    if (i < z.len) zb = zb << 8 | z.data[i];
  vf_assert(zb == be && (z.len <= 1 || z.data[0] != 0) && z.data + z.len == p + n, "leading zeros removed, value kept");
  bool allz = true;
  for (uint32_t i = 0; i < 8; i++) if (i < n && p[i]) allz = false;
  vf_assert(bytes_all_zero(bytes(p, n)) == allz, "all-zero test");
  REACH("end");
}
void h_bytes_eq(void) {
  uint32_t n = nd_range(0, 5), m = nd_range(0, 5);
  uint8_t *a = nd_block(5), *b = nd_block(5);
  bool     e = n == m;
  for (uint32_t i = 0; i < 5; i++)
    if (i < n && i < m && a[i] != b[i]) e = false;
  vf_assert(bytes_eq(bytes(a + 5 - n, n), bytes(b, m)) == false || n == m, "different length is never equal");
  vf_assert(bytes_eq(bytes(a, n), bytes(b, m)) == e, "equality compares every byte");
  if (e && n == 5) REACH("equal");
}
/* formatted output into a fixed buffer: stays inside, is always terminated */
void h_fixed_format(void) {
  uint32_t cap, len;
  buffer_t b = fixed(&cap, &len);
  uint8_t* p = b.data.data;
  uint32_t n = nd_range(0, 3);
  uint8_t* s = nd_block(4) + 3 - n;
  for (uint32_t i = 0; i < 3; i++) if (i < n) assume(s[i] != 0);
  s[n]       = 0;
  uint8_t  k = FMT;
  uint64_t v = nd_u64();
  assume(v < 100000);
  json_t j = {.type = JSON_TYPE_STRING, .start = (char*) s, .len = n};
  if (k == 0) bprintf(&b, "a%sb", (char*) s);
  else if (k == 1) bprintf(&b, "%S", (char*) s);
  else if (k == 2) bprintf(&b, "%x", bytes(s, n));
  else if (k == 3) bprintf(&b, "%u", bytes(s, n));
  else if (k == 4) bprintf(&b, "%lx,", v);
  else if (k == 5) bprintf(&b, "%d", (uint32_t) v);
  else if (k == 6) bprintf(&b, "%J]", j);
  else bprintf(&b, "%r%c", bytes(s, n), 'x');
  vf_assert(b.data.data == p && b.data.len < cap && p[b.data.len] == 0, "formatted output is terminated within the limit");
  vf_assert(area[CAP - cap] == 0x5A, "formatted output does not write before the buffer");
  for (uint32_t i = 0; i < CAP; i++)
    if (i < len && i < b.data.len) vf_assert(p[i] == old[i], "formatted output keeps the content");
  if (b.data.len > len) REACH("written");
}
