/* Model of the hash primitives of src/util/crypto.c (sha256, sha256_merkle, keccak).
 * sha256/keccak are uninterpreted functions of (length, content); collision resistance is added by
 * uninterpreted inverses, so equal outputs imply equal inputs (per function).
 * Inputs longer than VF_HASH_MAX bytes are outside the bound (obligation "BOUND hash input"). */
#include "bytes.h"
#include "vf.h"
#ifndef VF_HASH_MAX
#define VF_HASH_MAX 64
#endif
#ifdef VF_REPLAY
static void out32(uint8_t* out) {
  for (int i = 0; i < 4; i++) {
    uint64_t v = nd_u64();
    memcpy(out + 8 * i, &v, 8);
  }
}
void sha256(bytes_t data, uint8_t* out) { out32(out); }
void keccak(bytes_t data, uint8_t* out) { out32(out); }
void sha256_merkle(bytes_t data1, bytes_t data2, uint8_t* out) { out32(out); }
#else
typedef unsigned __CPROVER_bitvector[256] u256;
typedef unsigned __CPROVER_bitvector[8 * VF_HASH_MAX] ubig;
u256 __CPROVER_uninterpreted_node(u256, u256);
u256 __CPROVER_uninterpreted_node_l(u256);
u256 __CPROVER_uninterpreted_node_r(u256);
u256 __CPROVER_uninterpreted_sha(uint32_t, ubig);
ubig __CPROVER_uninterpreted_sha_inv(u256);
uint32_t __CPROVER_uninterpreted_sha_inv_len(u256);
u256 __CPROVER_uninterpreted_kec(uint32_t, ubig);
ubig __CPROVER_uninterpreted_kec_inv(u256);
uint32_t __CPROVER_uninterpreted_kec_inv_len(u256);

#ifdef VF_HASH64
/* results carry 64 arbitrary bits (the rest is zero): enough to tell different trees apart, much cheaper */
uint64_t __CPROVER_uninterpreted_node64(u256, u256);
#endif
static void rec(u256 r, uint8_t* out) {
  union { u256 v; uint8_t b[32]; uint64_t q[4]; } u;
  u.v = r;
  for (int i = 0; i < 4; i++) {
    uint64_t v = u.q[i];
    vf_rec_u64 = v;
  }
  for (int i = 0; i < 32; i++) out[i] = u.b[i];
}
static void node(const uint8_t* l, const uint8_t* r, uint8_t* out) {
  union { u256 v; uint8_t b[32]; } a, b;
  for (int i = 0; i < 32; i++) { a.b[i] = l[i]; b.b[i] = r[i]; }
#ifdef VF_HASH64
  u256 h = __CPROVER_uninterpreted_node64(a.v, b.v);
#else
  u256 h = __CPROVER_uninterpreted_node(a.v, b.v);
#endif
#ifndef VF_HASH_NO_INJ
  __CPROVER_assume(__CPROVER_uninterpreted_node_l(h) == a.v && __CPROVER_uninterpreted_node_r(h) == b.v);
#endif
  rec(h, out);
}
static ubig load(bytes_t data) {
  union { ubig v; uint8_t b[VF_HASH_MAX]; } a;
  __CPROVER_assert(data.len <= VF_HASH_MAX, "BOUND hash input");
  __CPROVER_assume(data.len <= VF_HASH_MAX);
  for (uint32_t i = 0; i < VF_HASH_MAX; i++) {
    if (i < data.len) a.b[i] = data.data[i];
    else a.b[i] = 0;
  }
  return a.v;
}
void sha256_merkle(bytes_t data1, bytes_t data2, uint8_t* out) {
  __CPROVER_assert(data1.len == 32 && data2.len == 32, "BOUND merkle node input");
  node(data1.data, data2.data, out);
}
void sha256(bytes_t data, uint8_t* out) {
  if (data.len == 64) { node(data.data, data.data + 32, out); return; }
  ubig a = load(data);
  u256 h = __CPROVER_uninterpreted_sha(data.len, a);
#ifndef VF_HASH_NO_INJ
  __CPROVER_assume(__CPROVER_uninterpreted_sha_inv_len(h) == data.len && __CPROVER_uninterpreted_sha_inv(h) == a);
#endif
  rec(h, out);
}
void keccak(bytes_t data, uint8_t* out) {
  ubig a = load(data);
  u256 h = __CPROVER_uninterpreted_kec(data.len, a);
#ifndef VF_HASH_NO_INJ
  __CPROVER_assume(__CPROVER_uninterpreted_kec_inv_len(h) == data.len && __CPROVER_uninterpreted_kec_inv(h) == a);
#endif
  rec(h, out);
}
#endif
