/* merkle proofs: what verifies is what is in the tree, what is created verifies, gindex arithmetic */
#include "crypto.h"
#include "ssz.h"
#include "vf.h"
#include "vf_quiet.h"
typedef uint8_t chunk[32];
#ifndef NG
#define NG 1
#define GS {2}
#endif
#ifndef NW
#define NW 1
#endif
#ifndef EXTRA
#define EXTRA 0
#endif
#define DEPTH 3
static chunk T[16]; /* T[1] root, T[8..15] leaves */
static void  H(const uint8_t* l, const uint8_t* r, uint8_t* out) {
  chunk a, b;
  memcpy(a, l, 32);
  memcpy(b, r, 32);
  sha256_merkle(bytes(a, 32), bytes(b, 32), out);
}
/* a chunk with 64 arbitrary bits (as the hash results) */
static void nd_chunk(uint8_t* c) {
  memset(c, 0, 32);
  nd_fill(c, 8);
}
static void tree(void) {
  for (int i = 8; i < 16; i++) nd_chunk(T[i]);
  for (int i = 7; i >= 1; i--) H(T[2 * i], T[2 * i + 1], T[i]);
}
static bool eq(const uint8_t* a, const uint8_t* b) {
  bool r = true;
  for (int i = 0; i < 32; i++) r &= a[i] == b[i];
  return r;
}
static void root_of(gindex_t g, const uint8_t* leaf, const chunk* w, uint8_t* out) {
  memcpy(out, leaf, 32);
  for (int i = 0; g > 1; g >>= 1, i++) {
    if (g & 1) H(w[i], out, out);
    else H(out, w[i], out);
  }
}
/* soundness: root matches => every leaf is the node at its position (collision free hash) */
void h_sound(void) {
  static const gindex_t gs[] = GS;
  gindex_t              g[NG];
  uint8_t*              l = (uint8_t*) malloc(32 * NG);
  uint8_t*              w = (uint8_t*) malloc(32 * NW + EXTRA + 1);
  chunk                 out;
  for (int i = 0; i < NG; i++) g[i] = gs[i];
  tree();
  for (int i = 0; i < NG; i++) nd_chunk(l + 32 * i);
  for (int i = 0; i < NW; i++) nd_chunk(w + 32 * i);
  nd_fill(w + 32 * NW, EXTRA);
  memset(out, 0, 32);
  bool ok = ssz_verify_multi_merkle_proof(bytes(w, 32 * NW + EXTRA), bytes(l, 32 * NG), g, out);
#ifdef WRONG
  vf_assert(!ok, "a proof with missing or additional nodes is rejected");
  REACH("rejected");
#else
  vf_assert(ok, "a complete proof is evaluated");
  if (eq(out, T[1])) {
    for (int i = 0; i < NG; i++) vf_assert(eq(l + 32 * i, T[gs[i]]), "a verified leaf is the node at its position");
    REACH("verified");
  }
  else
    REACH("mismatch");
#endif
}
/* single proofs: the computed root, never a match for an incomplete proof */
void h_single(void) {
  static const gindex_t gs[] = GS;
  gindex_t              g    = gs[0];
  chunk                 leaf, out, e, w[NW + 1];
  nd_chunk(leaf);
  for (int i = 0; i < NW; i++) nd_chunk(w[i]);
  nd_chunk(out);
  memcpy(e, out, 32);
  ssz_verify_single_merkle_proof(bytes((uint8_t*) w, 32 * NW + EXTRA), leaf, g, out);
#ifdef WRONG
  chunk zero;
  memset(zero, 0, 32);
  vf_assert(eq(out, zero), "an incomplete proof has no root");
#else
  root_of(g, leaf, w, e);
  vf_assert(eq(out, e), "root along the branch");
#endif
  REACH("single");
}
/* created proofs verify */
static const ssz_def_t d_u8    = SSZ_UINT("u", 8);
static const ssz_def_t I2[]    = {SSZ_UINT("x", 8), SSZ_UINT("y", 8)};
static const ssz_def_t d_i2    = SSZ_CONTAINER("i", I2);
static const ssz_def_t C5[]    = {SSZ_UINT("a", 8), SSZ_LIST("b", d_i2, 2), SSZ_CONTAINER("c", I2), SSZ_UINT("d", 8), SSZ_UINT("e", 8)};
static const ssz_def_t d_c5    = SSZ_CONTAINER("c5", C5);
static void            put4(uint8_t* p, uint32_t v) { p[0] = v; p[1] = v >> 8; p[2] = v >> 16; p[3] = v >> 24; }
static void            le8(const uint8_t* p, uint8_t* c) { memset(c, 0, 32); memcpy(c, p, 8); }
/* content of the node at a position of C5 with two list elements */
static void node_at(const uint8_t* p, gindex_t g, uint8_t* out) {
  switch (g) {
    case 8: le8(p, out); return;
    case 10 * 2: le8(p + 12, out); return;
    case 10 * 2 + 1: le8(p + 20, out); return;
    case 11: le8(p + 28, out); return;
    case 12: le8(p + 36, out); return;
    case 19: memset(out, 0, 32); out[0] = 2; return;
    case 9 * 4 * 2: le8(p + 44, out); return;
    case 9 * 4 * 2 + 1: le8(p + 52, out); return;
    case (9 * 4 + 1) * 2: le8(p + 60, out); return;
    case (9 * 4 + 1) * 2 + 1: le8(p + 68, out); return;
  }
  vf_assert(0, "harness: unknown position");
}
void h_create(void) {
  static const gindex_t gs[] = GS;
  gindex_t              g[NG];
  uint8_t*              p = nd_block(76);
  chunk                 root, root2, out;
  uint8_t*              l = (uint8_t*) malloc(32 * NG);
  put4(p + 8, 44);
  ssz_ob_t o = {.def = &d_c5, .bytes = bytes(p, 76)};
  for (int i = 0; i < NG; i++) {
    g[i] = gs[i];
    node_at(p, g[i], l + 32 * i);
  }
  memset(root, 0, 32);
  ssz_hash_tree_root(o, root);
  bytes_t proof = ssz_create_multi_proof_for_gindexes(o, root2, g, NG);
  vf_assert(eq(root, root2), "creating a proof yields the root");
  bool ok = ssz_verify_multi_merkle_proof(proof, bytes(l, 32 * NG), g, out);
  vf_assert(ok && eq(out, root), "a created proof verifies against the root");
  REACH("created");
}
void h_gindex(void) {
  gindex_t a = nd_u64(), b = nd_u64();
  uint32_t da = 0, db = 0;
  assume(a >= 1 && b >= 1);
  for (int i = 1; i < 64; i++) {
    if (a >> i) da = i;
    if (b >> i) db = i;
  }
  gindex_t r = ssz_add_gindex(a, b);
  if (da + db < 64) {
    vf_assert(r >> db == a && (db == 0 || (r ^ b) << (64 - db) == 0), "path of the second index below the first one");
    REACH("combined");
  }
  else
    vf_assert(r == 0, "no index for a tree deeper than 63 levels");
}
void h_gindex_def(void) {
  vf_assert(ssz_gindex(&d_c5, 1, "a") == 8 && ssz_gindex(&d_c5, 1, "e") == 12 && ssz_gindex(&d_c5, 2, "c", "y") == 21, "container fields");
  vf_assert(ssz_gindex(&d_c5, 3, "b", 1, "x") == (9 * 4 + 1) * 2, "list elements");
  vf_assert(ssz_gindex(&d_c5, 1, "z") == 0 && ssz_gindex(&d_c5, 2, "a", "b") == 0, "no index for an unknown field");
  REACH("def");
}
