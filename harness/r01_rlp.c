/* RLP: decoding arbitrary bytes, encoding and reading back */
#include "rlp.h"
#include "vf.h"
#ifndef LEN
#define LEN 6
#endif
#ifndef IDX
#define IDX 0
#endif
/* reference: position of the item, or failure */
static int ref_header(const uint8_t* d, uint32_t n, uint32_t pos, uint32_t* start, uint32_t* len) {
  uint8_t c = d[pos];
  if (c < 0x80) { *start = pos; *len = 1; return RLP_ITEM; }
  int      list = c >= 0xc0;
  uint32_t s    = list ? c - 0xc0 : c - 0x80;
  uint64_t l    = s;
  *start        = pos + 1;
  if (s > 55) {
    uint32_t k = s - 55;
    if (k > n - pos - 1) return RLP_OUT_OF_RANGE;
    l = 0;
    for (uint32_t i = 0; i < 8; i++)
      if (i < k) l = (l << 8) | d[pos + 1 + i];
    *start = pos + 1 + k;
  }
  if (l > n - *start) return RLP_OUT_OF_RANGE;
  *len = (uint32_t) l;
  return list ? RLP_LIST : RLP_ITEM;
}
void h_decode(void) {
  uint8_t* d = (uint8_t*) malloc(LEN ? LEN : 1);
  for (int i = 0; i < LEN; i++) d[i] = nd_u8();
#ifdef PREFIX
  d[0] = PREFIX;
#endif
  int      exp = RLP_NOT_FOUND, cnt = 0;
  uint32_t pos = 0, s = 0, l = 0, es = 0, el = 0;
  bool     broken = false, found = false;
  for (int k = 0; k <= LEN; k++) {
    if (found || broken || pos >= LEN) continue;
    int t = ref_header(d, LEN, pos, &s, &l);
    if (t == RLP_OUT_OF_RANGE) { broken = true; continue; }
    if (cnt == IDX) { found = true; exp = t; es = s; el = l; continue; }
    pos = s + l;
    cnt++;
  }
  if (broken) exp = RLP_OUT_OF_RANGE;
  else if (IDX < 0) exp = cnt;
  bytes_t src = bytes(d, LEN), out = NULL_BYTES;
  int     r   = (int) rlp_decode(&src, IDX, IDX < 0 ? NULL : &out);
  vf_assert(r == exp, "kind of the item, or number of items");
  if (found) {
    REACH("found");
    vf_assert(out.data == d + es && out.len == el, "payload of the item");
    for (uint32_t i = 0; i < LEN; i++)
      if (i < out.len) vf_assert(out.data[i] == d[es + i], "readable");
  }
  else {
    REACH("not found");
  }
}
void h_uint(void) {
  uint8_t* d = (uint8_t*) malloc(LEN);
  for (int i = 0; i < LEN; i++) d[i] = nd_u8();
  uint32_t s = 0, l = 0;
  uint64_t v = 0;
  int      t = ref_header(d, LEN, 0, &s, &l);
  if (t == RLP_ITEM && l <= 8)
    for (uint32_t i = 0; i < 8; i++)
      if (i < l) v = (v << 8) | d[s + i];
  vf_assert(rlp_get_uint64(bytes(d, LEN), 0) == v, "big endian value");
  vf_assert(rlp_get_uint64(bytes(d, LEN), LEN) == 0, "a missing item has no value");
  REACH("done");
}
#ifdef ENC
/* the payload of large items is only looked at where it starts and ends */
#ifdef BIG
static bytes_t pay;
static bool    spliced;
uint32_t buffer_append(buffer_t* b, bytes_t d) {
  vf_assert(d.len == N && !pay.data, "the payload is added once");
  pay = d;
  return b->data.len;
}
static uint8_t head[8];
static uint32_t head_len;
void buffer_splice(buffer_t* b, size_t off, uint32_t len, bytes_t d) {
  vf_assert(off == 0 && len == 0 && d.len <= 8, "in front");
  for (uint32_t i = 0; i < d.len; i++) head[i] = d.data[i];
  head_len = d.len;
  pay      = b->data;
}
#endif
static uint32_t ref_prefix(uint32_t n, uint8_t base, uint8_t* o) {
  if (n < 56) { o[0] = (uint8_t) (base + n); return 1; }
  uint32_t k = n < 0x100 ? 1 : n < 0x10000 ? 2 : n < 0x1000000 ? 3 : 4;
  o[0] = (uint8_t) (base + 55 + k);
  for (uint32_t i = 0; i < k; i++) o[1 + i] = (uint8_t) (n >> (8 * (k - 1 - i)));
  return 1 + k;
}
void h_encode(void) {
  uint8_t  o[8];
#ifdef BIG
  uint8_t* d = (uint8_t*) malloc(8);
  d[0]       = nd_u8();
#else
  uint8_t* d = (uint8_t*) malloc(N ? N : 1);
  for (uint32_t i = 0; i < N; i++) d[i] = (i < 3 || i + 2 > N) ? nd_u8() : 7;
#endif
  bool     single = N == 1 && KIND == 0 && d[0] < 0x80;
  uint32_t p      = single ? 0 : ref_prefix(N, KIND == 0 ? 0x80 : 0xc0, o);
#if N == 1
  uint8_t  mem[6] = {0};
  buffer_t b      = {.data = {.data = mem, .len = 0}, .allocated = -6};
#else
  buffer_t b      = {0};
#endif
#ifdef BIG
  if (KIND == 2) b.data = bytes(d, N);
#else
  if (KIND == 2) buffer_append(&b, bytes(d, N));
#endif
  if (KIND == 0) rlp_add_item(&b, bytes(d, N));
  if (KIND == 1) rlp_add_list(&b, bytes(d, N));
  if (KIND == 2) rlp_to_list(&b);
#ifdef BIG
  if (KIND != 2) {
    vf_assert(b.data.len <= 8, "prefix");
    head_len = b.data.len;
    for (uint32_t i = 0; i < head_len; i++) head[i] = b.data.data[i];
  }
  vf_assert(head_len == p && pay.data == d && pay.len == N, "prefix and payload");
  for (uint32_t i = 0; i < p; i++) vf_assert(head[i] == o[i], "prefix");
#else
  vf_assert(b.data.len == p + N, "prefix and payload");
  if (b.data.len != p + N) return;
  for (uint32_t i = 0; i < p; i++) vf_assert(b.data.data[i] == o[i], "prefix");
  for (uint32_t i = 0; i < N; i++) vf_assert(b.data.data[p + i] == d[i], "payload");
  bytes_t x = NULL_BYTES;
  int     t = (int) rlp_decode(&b.data, 0, &x);
  vf_assert(t == (KIND == 0 ? RLP_ITEM : RLP_LIST) && x.data == b.data.data + p && x.len == N, "reads back");
  vf_assert((int) rlp_decode(&b.data, -1, NULL) == 1, "one item");
#endif
  REACH("done");
}
#ifndef BIG
void h_encode_uint(void) {
  uint64_t v = nd_u64();
  buffer_t b = {0};
  uint8_t  z[4] = {0xc7, 0, 0, 0};
  buffer_append(&b, bytes(z, 1));
  rlp_add_uint64(&b, v);
  uint32_t k = 0;
  for (int i = 0; i < 8; i++)
    if (v >> (8 * i)) k = i + 1;
  uint8_t* d = b.data.data + 1;
  if (v && v < 0x80) vf_assert(b.data.len == 2 && d[0] == v, "small numbers are their own encoding");
  else {
    vf_assert(b.data.len == 2 + k && d[0] == 0x80 + k, "no leading zeros");
    for (uint32_t i = 0; i < 8; i++)
      if (i < k) vf_assert(d[1 + i] == (uint8_t) (v >> (8 * (k - 1 - i))), "big endian");
  }
  vf_assert(rlp_get_uint64(bytes(d, b.data.len - 1), 0) == v, "reads back");
  REACH("done");
}
#endif
#endif
