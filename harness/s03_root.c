/* ssz_hash_tree_root computes the SSZ merkleization (sha256 is an uninterpreted function) */
#include "crypto.h"
#include "ssz.h"
#include "vf.h"
#include "vf_quiet.h"
#ifndef DEF
#define DEF 0
#endif
#ifndef LEN
#define LEN 0
#endif
static const ssz_def_t d_u2     = SSZ_UINT("u", 2);
static const ssz_def_t d_u8     = SSZ_UINT("u", 8);
static const ssz_def_t d_u256   = SSZ_UINT("u", 32);
static const ssz_def_t d_bool   = SSZ_BOOLEAN("b");
static const ssz_def_t d_b32    = SSZ_BYTES32("b32");
static const ssz_def_t d_b48    = SSZ_BYTE_VECTOR("b48", 48);
static const ssz_def_t d_vecb   = SSZ_VECTOR("vb", d_b32, 3);
static const ssz_def_t d_vec48  = SSZ_VECTOR("v48", d_b48, 2);
static const ssz_def_t d_vecu   = SSZ_VECTOR("vu", d_u8, 5);
static const ssz_def_t d_bytes  = SSZ_BYTES("by", 100);
static const ssz_def_t d_bytesL = SSZ_BYTES("by", 1 << 12);
static const ssz_def_t d_listu  = SSZ_LIST("lu", d_u8, 9);
static const ssz_def_t d_listb  = SSZ_LIST("lb", d_b32, 5);
static const ssz_def_t d_bits   = SSZ_BIT_VECTOR("bv", 264);
static const ssz_def_t d_bitl   = SSZ_BIT_LIST("bl", 520);
static const ssz_def_t C3[]     = {SSZ_UINT("a", 8), SSZ_BYTES32("b"), SSZ_BOOLEAN("c")};
static const ssz_def_t d_c3     = SSZ_CONTAINER("c3", C3);
static const ssz_def_t C5[]     = {SSZ_UINT("a", 8), SSZ_BYTES("b", 40), SSZ_CONTAINER("c", C3), SSZ_ADDRESS("d"), SSZ_LIST("e", d_b32, 3)};
static const ssz_def_t d_c5     = SSZ_CONTAINER("c5", C5);
static const ssz_def_t d_listc  = SSZ_LIST("lc", d_c3, 3);
static const ssz_def_t d_listby = SSZ_LIST("lby", d_bytes, 4);

#define MAXC 8
typedef uint8_t chunk[32];
static void     H(const uint8_t* l, const uint8_t* r, uint8_t* out) {
  chunk a, b;
  memcpy(a, l, 32);
  memcpy(b, r, 32);
  sha256_merkle(bytes(a, 32), bytes(b, 32), out);
}
/* root of cnt chunks padded with zero chunks to a tree of the given depth */
static void merkleize(chunk* c, int cnt, int depth, uint8_t* out) {
  chunk level[MAXC], zero;
  memset(zero, 0, 32);
  int n = cnt;
  for (int i = 0; i < cnt; i++) memcpy(level[i], c[i], 32);
  for (int d = 0; d < depth; d++) {
    for (int i = 0; i < n; i += 2) {
      if (i + 1 < n) H(level[i], level[i + 1], level[i / 2]);
      else H(level[i], zero, level[i / 2]);
    }
    n = (n + 1) / 2;
    H(zero, zero, zero);
  }
  if (cnt) memcpy(out, level[0], 32);
  else memcpy(out, zero, 32);
}
static int pack(chunk* c, const uint8_t* p, uint32_t n) {
  for (int i = 0; i < MAXC; i++) memset(c[i], 0, 32);
  for (uint32_t i = 0; i < n; i++) c[i / 32][i % 32] = p[i];
  return (n + 31) / 32;
}
static void mixin(uint8_t* root, uint64_t len) {
  chunk l;
  memset(l, 0, 32);
  for (int i = 0; i < 8; i++) l[i] = (uint8_t) (len >> (8 * i));
  H(root, l, root);
}
static void root_packed(const uint8_t* p, uint32_t n, int depth, uint8_t* out) {
  chunk c[MAXC];
  int   k = pack(c, p, n);
  merkleize(c, k, depth, out);
}
static void root_c3(const uint8_t* p, uint8_t* out) {
  chunk c[MAXC];
  pack(c, p, 0);
  memcpy(c[0], p, 8);
  memcpy(c[1], p + 8, 32);
  c[2][0] = p[40];
  merkleize(c, 3, 2, out);
}
static uint32_t le4(const uint8_t* p) { return p[0] | ((uint32_t) p[1] << 8) | ((uint32_t) p[2] << 16) | ((uint32_t) p[3] << 24); }
static void     put4(uint8_t* p, uint32_t v) { p[0] = v; p[1] = v >> 8; p[2] = v >> 16; p[3] = v >> 24; }

void h_root(void) {
  chunk    out, e;
  chunk    c[MAXC];
  uint8_t* p = nd_block(LEN);
  uint32_t n = LEN;
  memset(e, 0, 32);
#if DEF == 0
  ssz_ob_t o = {.def = &d_u8, .bytes = bytes(p, n)};
  root_packed(p, n, 0, e);
#elif DEF == 1
  ssz_ob_t o = {.def = &d_u256, .bytes = bytes(p, n)};
  root_packed(p, n, 0, e);
#elif DEF == 2
  p[0] &= 1;
  ssz_ob_t o = {.def = &d_bool, .bytes = bytes(p, n)};
  e[0]       = p[0];
#elif DEF == 3
  ssz_ob_t o = {.def = &d_b48, .bytes = bytes(p, n)};
  root_packed(p, n, 1, e);
#elif DEF == 4
  ssz_ob_t o = {.def = &d_vecb, .bytes = bytes(p, n)};
  root_packed(p, n, 2, e);
#elif DEF == 5
  ssz_ob_t o = {.def = &d_vec48, .bytes = bytes(p, n)};
  root_packed(p, 48, 1, c[0]);
  root_packed(p + 48, 48, 1, c[1]);
  merkleize(c, 2, 1, e);
#elif DEF == 6
  ssz_ob_t o = {.def = &d_vecu, .bytes = bytes(p, n)};
  root_packed(p, n, 1, e);
#elif DEF == 7
  ssz_ob_t o = {.def = &d_bytes, .bytes = bytes(p, n)};
  root_packed(p, n, 2, e);
  mixin(e, n);
#elif DEF == 8
  ssz_ob_t o = {.def = &d_bytesL, .bytes = bytes(p, n)};
  root_packed(p, n, 7, e);
  mixin(e, n);
#elif DEF == 9
  ssz_ob_t o = {.def = &d_listu, .bytes = bytes(p, n)};
  root_packed(p, n, 2, e);
  mixin(e, n / 8);
#elif DEF == 10
  ssz_ob_t o = {.def = &d_listb, .bytes = bytes(p, n)};
  root_packed(p, n, 3, e);
  mixin(e, n / 32);
#elif DEF == 11
  ssz_ob_t o = {.def = &d_bits, .bytes = bytes(p, n)};
  root_packed(p, n, 1, e);
#elif DEF == 12 /* bit list, delimiter at bit TOP of the last byte */
  p[n - 1] = (0x55 & ((1 << TOP) - 1)) | (1 << TOP);
  ssz_ob_t o = {.def = &d_bitl, .bytes = bytes(p, n)};
  uint8_t  q[LEN];
  for (uint32_t i = 0; i < n; i++) q[i] = p[i];
  q[n - 1] &= (1 << TOP) - 1;
  root_packed(q, TOP ? n : n - 1, 2, e);
  mixin(e, (n - 1) * 8 + TOP);
#elif DEF == 13
  p[40] &= 1;
  ssz_ob_t o = {.def = &d_c3, .bytes = bytes(p, n)};
  root_c3(p, e);
#elif DEF == 14 /* LEN = 8+4+41+20+4 + BL + 32*EL */
  put4(p + 8, 77);
  put4(p + 73, 77 + BL);
  ssz_ob_t o = {.def = &d_c5, .bytes = bytes(p, n)};
  for (int i = 0; i < MAXC; i++) memset(c[i], 0, 32);
  memcpy(c[0], p, 8);
  root_packed(p + 77, BL, 1, c[1]);
  mixin(c[1], BL);
  root_c3(p + 12, c[2]);
  memcpy(c[3], p + 53, 20);
  root_packed(p + 77 + BL, n - 77 - BL, 2, c[4]);
  mixin(c[4], (n - 77 - BL) / 32);
  merkleize(c, 5, 3, e);
#elif DEF == 15
  ssz_ob_t o = {.def = &d_listc, .bytes = bytes(p, n)};
  for (int i = 0; i < LEN / 41; i++) root_c3(p + 41 * i, c[i]);
  merkleize(c, n / 41, 2, e);
  mixin(e, n / 41);
#elif DEF == 16 /* two byte lists of BL and LEN-8-BL bytes */
  put4(p, 8);
  put4(p + 4, 8 + BL);
  ssz_ob_t o = {.def = &d_listby, .bytes = bytes(p, n)};
  root_packed(p + 8, BL, 2, c[0]);
  mixin(c[0], BL);
  root_packed(p + 8 + BL, n - 8 - BL, 2, c[1]);
  mixin(c[1], n - 8 - BL);
  merkleize(c, 2, 2, e);
  mixin(e, 2);
#endif
  ssz_hash_tree_root(o, out);
  bool same = true;
  for (int i = 0; i < 32; i++) same &= out[i] == e[i];
  vf_assert(same, "hash tree root");
#ifdef SECOND
  /* a second object afterwards: cached zero subtrees do not disturb it */
  ssz_ob_t o2 = {.def = &d_bytesL, .bytes = bytes(p, LEN > 40 ? 40 : LEN)};
  root_packed(p, LEN > 40 ? 40 : LEN, 7, e);
  mixin(e, LEN > 40 ? 40 : LEN);
  ssz_hash_tree_root(o2, out);
  for (int i = 0; i < 32; i++) same &= out[i] == e[i];
  vf_assert(same, "hash tree root of a second object");
#endif
  REACH("root");
}
