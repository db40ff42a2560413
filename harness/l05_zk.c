/* zk sync data: a committee is taken over only with a valid proof for exactly these inputs and the signatures of all witnesses */
#include "beacon_types.h"
#include "crypto.h"
#include "eth_verify.h"
#include "ssz.h"
#include "sync_committee.h"
#include "zk_verifier.h"
#include "vf.h"
#include "vf_err.h"
#ifndef CHN
#define CHN C4_CHAIN_MAINNET
#endif
#ifndef NH
#define NH 0 /* headers between the attested and the signed one */
#endif
#ifndef NSIG
#define NSIG 1
#endif
#ifndef NW
#define NW 1
#endif
#ifndef CK
#define CK 2 /* kind of the checkpoint proof, 2: chain of headers */
#endif
#ifndef WEXTRA
#define WEXTRA 0
#endif
typedef uint8_t chunk[32];
static const ssz_def_t D_ANY[]  = {SSZ_BYTES32("x")};
static const ssz_def_t D_P      = SSZ_BYTE_VECTOR("proof", 260);
static const ssz_def_t D_HEAD   = SSZ_CONTAINER("header", BEACON_BLOCK_HEADER);
static const ssz_def_t D_PK     = SSZ_VECTOR("pubkeys", ssz_bls_pubky, 512);
static const ssz_def_t D_SIGN   = SSZ_LIST("signatures", ssz_secp256k1_signature, 16);
static const ssz_def_t D_PH_[]  = {SSZ_UINT64("slot"), SSZ_UINT64("proposerIndex"), SSZ_BYTES32("stateRoot"), SSZ_BYTES32("bodyRoot")};
static const ssz_def_t D_PH     = SSZ_CONTAINER("", D_PH_);
static const ssz_def_t D_HEADS  = SSZ_LIST("headers", D_PH, 256);
static const ssz_def_t D_CK[]   = {SSZ_CONTAINER("signature_proof", D_ANY), SSZ_CONTAINER("historic_proof", D_ANY), SSZ_CONTAINER("header_proof", D_ANY)};
static const ssz_def_t D_SYNC   = SSZ_CONTAINER("ZKSyncData", D_ANY);
static const ssz_def_t D_U64    = SSZ_UINT64("slot");
#define OB(d, p, l) ((ssz_ob_t) {.def = (d), .bytes = bytes((p), (l))})
static uint8_t  S[8], VK[32], PR[8], HEAD[112], SIGNED[112], HS[NH * 80 + 1], KEYS[8], SIGS[NSIG * 65 + 1], WIT[NW * 20 + WEXTRA + 1], CKB[4];
static chunk    r_keys, dom;
static bool     zk_ok, dom_ok, set_res, zk_done, stored, rec_ok[NSIG + 1];
static uint8_t  signer[NSIG + 1][2];
static uint64_t slot;
static int      ch, st_status;
static uint32_t st_period;
static const struct { uint64_t id; int spe, epp; } REF[] = {
    {CHAIN_ID(C4_CHAIN_TYPE_ETHEREUM, 1), 5, 8}, {CHAIN_ID(C4_CHAIN_TYPE_ETHEREUM, 11155111), 5, 8}, {CHAIN_ID(C4_CHAIN_TYPE_ETHEREUM, 100), 4, 9}, {CHAIN_ID(C4_CHAIN_TYPE_ETHEREUM, 10200), 4, 9}};
static bool eq(const uint8_t* a, const uint8_t* b) {
  bool r = true;
  for (int i = 0; i < 32; i++) r &= a[i] == b[i];
  return r;
}
static bool is(const char* a, const char* b) {
  int i = 0;
  for (; a[i] && a[i] == b[i]; i++);
  return a[i] == b[i];
}
static void put(uint8_t* o, const uint8_t* c) {
  for (int i = 0; i < 32; i++) o[i] = c[i];
}
/* field access is S01's */
ssz_ob_t ssz_get(ssz_ob_t* ob, const char* n) {
  if (ob->def == &D_SYNC) {
    if (is(n, "vk_hash")) return OB(D_ANY, VK, 32);
    if (is(n, "proof")) return OB(&D_P, PR, 260);
    if (is(n, "header")) return OB(&D_HEAD, HEAD, 112);
    if (is(n, "pubkeys")) return OB(&D_PK, KEYS, 512 * 48);
    if (is(n, "checkpoint")) return OB(D_CK + CK, CKB, 4);
    if (is(n, "signatures")) return OB(&D_SIGN, SIGS, NSIG * 65);
  }
  else if (ob->def == D_CK + 2) {
    if (is(n, "header")) return OB(&D_HEAD, SIGNED, 112);
    if (is(n, "headers")) return OB(&D_HEADS, HS, NH * 80);
  }
  else if (ob->bytes.len == 112) {
    uint8_t* d = ob->bytes.data;
    if (is(n, "slot")) return OB(&D_U64, d, 8);
    if (is(n, "proposerIndex")) return OB(&D_U64, d + 8, 8);
    if (is(n, "parentRoot")) return OB(D_ANY, d + 16, 32);
    if (is(n, "stateRoot")) return OB(D_ANY, d + 48, 32);
    if (is(n, "bodyRoot")) return OB(D_ANY, d + 80, 32);
  }
  return (ssz_ob_t) {0};
}
/* the root of a header is an injective function of the part of its content that varies here */
static void root(const uint8_t* h, uint8_t* out) {
  chunk c;
  c[0] = h[0] ^ 1; c[1] = h[8]; c[2] = h[48]; c[3] = h[80];
  for (int i = 0; i < 28; i++) c[4 + i] = h[16 + i];
  put(out, c);
}
void ssz_hash_tree_root(ssz_ob_t ob, uint8_t* out) {
  if (ob.bytes.data == KEYS && ob.bytes.len == 512 * 48 && ob.def == &D_PK) { put(out, r_keys); return; }
  vf_assert(ob.bytes.len == 112, "roots of headers and keys only");
  root(ob.bytes.data, out);
}
bool eth_calculate_domain(chain_id_t c, uint64_t s, bytes32_t d) {
  if (c == CHN && s == slot) { put(d, dom); return dom_ok; }
  d[0] = nd_u8();
  return nd_bool();
}
#ifndef GROTH
bool c4_verify_zk_proof(bytes_t proof, bytes_t in, const uint8_t* ph) {
  bool    exact = proof.data == PR && proof.len == 260 && in.len == 136 && ph == VK;
  chunk   r;
  uint64_t p = (slot >> (REF[ch].spe + REF[ch].epp)) + 1;
  root(HEAD, r);
  if (exact) {
    exact = eq(in.data, c4_eth_get_chain_spec(CHN)->zk_sync_keys_root) && eq(in.data + 32, r_keys) && eq(in.data + 72, r) && eq(in.data + 104, dom);
    for (int i = 0; i < 8; i++) exact &= in.data[64 + i] == (uint8_t) (p >> (8 * i));
  }
  vf_assert(exact, "the proof is checked for the trusted root, the new keys, their period, the header and the domain");
  zk_done = true;
  return zk_ok;
}
#endif
static const char PRE[] = "\x19" "Ethereum Signed Message:\n32";
static chunk cp_root;
void keccak(bytes_t d, uint8_t* out) {
  chunk r;
  for (int i = 0; i < 32; i++) r[i] = 0;
  if (d.len == 64) { r[12] = d.data[0]; r[31] = d.data[1]; }
  else {
    bool ok = d.len == 60;
    for (int i = 0; i < 28 && ok; i++) ok = d.data[i] == (uint8_t) PRE[i];
    vf_assert(ok, "signed message");
    for (int i = 0; i < 32; i++) r[i] = d.data[28 + i] ^ 0x5a;
  }
  put(out, r);
}
bool secp256k1_recover(const bytes32_t digest, bytes_t sig, uint8_t* pub) {
  bool exact = sig.len == 65;
  int  k     = -1;
  for (int i = 0; i < NSIG; i++)
    if (sig.data == SIGS + 65 * i) k = i;
  for (int i = 0; i < 32; i++) exact &= digest[i] == (cp_root[i] ^ 0x5a);
  if (!exact || k < 0) {
    pub[0] = nd_u8(); pub[1] = nd_u8();
    return nd_bool();
  }
  pub[0] = signer[k][0]; pub[1] = signer[k][1];
  return rec_ok[k];
}
static bool expect; /* everything except storing */
bool c4_set_sync_period(uint32_t p, bytes_t v, chain_id_t c, bytes32_t ph) {
  bool z = true;
  for (int i = 0; i < 32; i++) z &= ph[i] == 0;
  vf_assert(v.data == KEYS && v.len == 512 * 48 && c == CHN && p == (uint32_t) ((slot >> (REF[ch].spe + REF[ch].epp)) + 1) && z && !stored, "exactly the proven keys are stored for the period after the header's");
  vf_assert(zk_done && expect, "keys are stored only after the proof, the header chain and the witness signatures are verified");
  stored = true;
  return set_res;
}
c4_chain_state_t c4_get_chain_state(chain_id_t c) {
  c4_chain_state_t s; /* no initialiser: cbmc 6.11 loses later writes to a union it has seen as a constant */
  s.status = (c4_state_sync_type_t) (c == CHN ? st_status : 0);
  for (int i = 0; i < 8; i++) s.data.periods[i] = i == 1 ? st_period : 0;
  s.data.periods[0] = 77;
  return s;
}
void h_zk(void) {
  while (REF[ch].id != CHN) ch++;
  slot = nd_u64();
  assume((slot >> (REF[ch].spe + REF[ch].epp)) < 0xfffffffe);
  for (int i = 0; i < 112; i++) HEAD[i] = i == 16 || i == 48 || i == 80 ? nd_u8() : 0;
  for (int i = 0; i < 8; i++) HEAD[i] = (uint8_t) (slot >> (8 * i));
  for (int i = 0; i < 112; i++) SIGNED[i] = i == 0 || i == 8 || i == 48 || i == 80 || (i >= 16 && i < 16 + 4 * (NH + 2)) ? nd_u8() : 0;
  if (nd_bool()) for (int i = 0; i < 112; i++) SIGNED[i] = HEAD[i];
  for (int i = 0; i < NH * 80; i++) HS[i] = i % 80 == 0 || i % 80 == 8 || i % 80 == 16 || i % 80 == 48 ? nd_u8() : 0;
  for (int i = 0; i < 32; i++) { r_keys[i] = i < 4 ? nd_u8() : 0; dom[i] = i < 4 ? nd_u8() : 0; VK[i] = nd_u8(); }
  for (int i = 0; i < NSIG; i++) { rec_ok[i] = nd_bool(); signer[i][0] = nd_u8(); signer[i][1] = nd_u8(); }
  for (int i = 0; i < NW * 20; i++) WIT[i] = i % 20 == 0 || i % 20 == 19 ? nd_u8() : 0;
  zk_ok = nd_bool(); dom_ok = nd_bool(); set_res = nd_bool();
  st_status = nd_u8() % 3;
  st_period = nd_u32();
  root(SIGNED, cp_root);
  bool same = true, link = true;
  for (int i = 0; i < 112; i++) same &= HEAD[i] == SIGNED[i];
  chunk last;
  root(HEAD, last);
  for (int k = 0; k < NH; k++) {
    uint8_t h[112];
    for (int i = 0; i < 112; i++) h[i] = i < 16 ? HS[80 * k + i] : (i < 48 ? last[i - 16] : HS[80 * k + i - 32]);
    root(h, last);
  }
  link = same || eq(last, SIGNED + 16);
  bool sigs = NSIG <= 16, wit = (WEXTRA == 0);
  for (int i = 0; i < NSIG; i++) sigs &= rec_ok[i] && (signer[i][0] || signer[i][1]);
  for (int k = 0; k < NW; k++) {
    bool f = false;
    for (int i = 0; i < NSIG; i++) f |= signer[i][0] == WIT[20 * k] && signer[i][1] == WIT[20 * k + 19];
    wit &= f;
    for (int j = 0; j < k; j++) assume(WIT[20 * k] != WIT[20 * j] || WIT[20 * k + 19] != WIT[20 * j + 19]);
  }
  expect       = zk_ok && dom_ok && CK == 2 && link && sigs && wit;
  uint32_t per = (uint32_t) ((slot >> (REF[ch].spe + REF[ch].epp)) + 1);
  bool     had = st_status == C4_STATE_SYNC_PERIODS && (st_period == per || per == 77);
  verify_ctx_t ctx = {0};
  ctx.chain_id     = CHN;
  ctx.sync_data    = OB(&D_SYNC, S, 8);
  if (NW || WEXTRA) ctx.witness_keys = bytes(WIT, NW * 20 + WEXTRA);
  bool ok = c4_update_from_sync_data(&ctx);
  vf_assert(ok == (had || (expect && set_res)), "the sync data is accepted exactly if everything is proven, or already known");
  vf_assert(stored == (!had && expect), "stored exactly if proven and not known yet");
  if (ok) {
    if (!had) REACH("accepted");
    vf_assert(ctx.sync_data.def->type == SSZ_TYPE_NONE, "the sync data is applied once");
  }
  else {
    REACH("rejected");
  }
}
#ifdef GROTH
#include "zk_verifier_constants.h"
/* the Groth16 equation: formal sums instead of curve points */
#ifndef PLEN
#define PLEN 260
#endif
static uint8_t* proof;
static bool     pa, pb, pc;
static chunk    hsh;
static const uint8_t *in_data;
static bool     pair_res, pair_done;
#define T(p) ((p)->x.bytes)
enum { BAD = 100, ALPHA = 1, IC0 = 2, IC1 = 3, IC2 = 4, A_ = 5, B_ = 6, C_ = 7, BETA = 8, GAMMA = 9, DELTA = 10, SUM = 16, M1 = 32, M2 = 64 };
static bool cmp(const uint8_t* d, const uint8_t* a, const uint8_t* b) { return eq(d, a) && eq(d + 32, b); }
bool bn254_g1_from_bytes_be(bn254_g1_t* p, const uint8_t* d) {
  for (int i = 0; i < 32; i++) p->x.bytes[i] = p->y.bytes[i] = p->z.bytes[i] = 0;
  if (d == proof + 4) { T(p)[0] = A_; return pa; }
  if (d == proof + 4 + 192) { T(p)[0] = C_; return pc; }
  T(p)[0] = cmp(d, VK_ALPHA_X, VK_ALPHA_Y) ? ALPHA : cmp(d, VK_IC0_X, VK_IC0_Y) ? IC0 : cmp(d, VK_IC1_X, VK_IC1_Y) ? IC1 : cmp(d, VK_IC2_X, VK_IC2_Y) ? IC2 : BAD;
  return T(p)[0] != BAD;
}
bool bn254_g1_from_bytes(bn254_g1_t* p, const uint8_t* d) { return bn254_g1_from_bytes_be(p, d); }
bool bn254_g2_from_bytes_eth(bn254_g2_t* p, const uint8_t* d) {
  p->x.c0.bytes[0] = d == proof + 68 ? B_ : BAD;
  return pb && d == proof + 68;
}
bool bn254_g2_from_bytes_raw(bn254_g2_t* p, const uint8_t* d) {
  p->x.c0.bytes[0] = cmp(d, VK_BETA_NEG_X0, VK_BETA_NEG_X1) && cmp(d + 64, VK_BETA_NEG_Y0, VK_BETA_NEG_Y1) ? BETA : cmp(d, VK_GAMMA_NEG_X0, VK_GAMMA_NEG_X1) && cmp(d + 64, VK_GAMMA_NEG_Y0, VK_GAMMA_NEG_Y1) ? GAMMA : cmp(d, VK_DELTA_NEG_X0, VK_DELTA_NEG_X1) && cmp(d + 64, VK_DELTA_NEG_Y0, VK_DELTA_NEG_Y1) ? DELTA : BAD;
  return true;
}
void sha256(bytes_t d, uint8_t* out) {
  if (d.data == in_data && d.len == 136) put(out, hsh);
  else out[0] = nd_u8();
}
void bn254_g1_mul(bn254_g1_t* r, const bn254_g1_t* p, const uint256_t* s) {
  chunk m;
  put(m, hsh);
  m[0] &= 0x1f;
  uint8_t t = T(p)[0];
  T(r)[0] = t == IC1 && eq(s->bytes, VK_PROGRAM_HASH) ? M1 : t == IC2 && eq(s->bytes, m) ? M2 : BAD;
}
void bn254_g1_add(bn254_g1_t* r, const bn254_g1_t* a, const bn254_g1_t* b) {
  uint8_t x = T(a)[0] == IC0 ? SUM : T(a)[0], y = T(b)[0] == IC0 ? SUM : T(b)[0];
  T(r)[0] = x >= SUM && y >= SUM && x != BAD && y != BAD && (x & y) == 0 ? (x | y) : BAD;
}
bool bn254_pairing_batch_check(const bn254_g1_t* P, const bn254_g2_t* Q, size_t n) {
  bool a = false, b = false, c = false, d = false;
  vf_assert(n == 4, "four pairings");
  for (int i = 0; i < 4; i++) {
    uint8_t p = T(P + i)[0], q = Q[i].x.c0.bytes[0];
    a |= p == A_ && q == B_;
    b |= p == C_ && q == DELTA;
    c |= p == ALPHA && q == BETA;
    d |= p == (SUM | M1 | M2) && q == GAMMA;
  }
  vf_assert(a && b && c && d, "e(A,B) e(C,-delta) e(alpha,-beta) e(L,-gamma) with L for the program and exactly these public inputs");
  pair_done = true;
  return pair_res;
}
void h_groth(void) {
  uint8_t in[136], prg[32];
  for (int i = 0; i < 32; i++) { hsh[i] = nd_u8(); prg[i] = nd_u8(); }
  in[0] = nd_u8();
  in_data = in;
  proof   = (uint8_t*) malloc(PLEN ? PLEN : 1);
  pa = nd_bool(); pb = nd_bool(); pc = nd_bool(); pair_res = nd_bool();
  bool ok   = c4_verify_zk_proof(bytes(proof, PLEN), bytes(in, 136), prg);
  bool same = eq(prg, VK_PROGRAM_HASH);
  vf_assert(ok == (PLEN == 260 && same && pa && pb && pc && pair_res), "a proof counts exactly if it has 260 bytes, is for the known program, its points are on the curve and the equation holds");
  vf_assert(!ok || pair_done, "the equation is always checked");
  if (ok) { REACH("valid"); }
  else { REACH("invalid"); }
}
#endif
