/* beacon headers are accepted only if signed by 2/3 of the sync committee of their period (directly, by a chain of parents, or by the history in a signed state) */
#include "beacon_types.h"
#include "crypto.h"
#include "eth_verify.h"
#include "ssz.h"
#include "sync_committee.h"
#include "vf.h"
#include "vf_quiet.h"
#ifndef CHN
#define CHN C4_CHAIN_MAINNET
#endif
#ifndef SB1
#define SB1 20 /* the two bytes of the participation bits that are arbitrary */
#define SB2 41
#endif
#ifndef FULL
#define FULL 42 /* number of bytes with all participants */
#endif
typedef uint8_t chunk[32];
static void     H(const uint8_t* l, const uint8_t* r, uint8_t* out) {
  chunk a, b;
  memcpy(a, l, 32);
  memcpy(b, r, 32);
  sha256_merkle(bytes(a, 32), bytes(b, 32), out);
}
static bool eq(const uint8_t* a, const uint8_t* b) {
  bool r = true;
  for (int i = 0; i < 32; i++) r &= a[i] == b[i];
  return r;
}
static void nd_chunk(uint8_t* c) {
  memset(c, 0, 32);
  nd_fill(c, 8);
}
/* ---- models of the committee store and of the BLS verification ---- */
static chunk    exp_msg;             /* what has to be signed, by whom, with which bits and signature */
static uint32_t exp_period;
static uint8_t *exp_bits, *exp_sig;
static bool     good, first_ok;      /* accepted by the BLS check with exactly that; result of the first check */
static int      n_bls, n_get, first_get;
static bool     second;
const c4_status_t c4_get_validators(verify_ctx_t* ctx, uint32_t period, c4_sync_validators_t* state, bytes32_t pubkey_hash) {
#ifdef TWICE
  int st = second ? (int) (nd_u8() % 3) : 0;
#else
  int st = (int) (nd_u8() % 3);
#endif
  if (n_get == 0) first_get = st;
  n_get++;
  if (st == 0) {
    uint8_t* k = (uint8_t*) malloc(4);
    for (int i = 0; i < 4; i++) k[i] = (uint8_t) (period >> (8 * i));
    state->validators   = bytes(k, 512 * 48);
    state->deserialized = false;
    return C4_SUCCESS;
  }
  if (st == 1) return C4_PENDING;
  ctx->state.error = (char*) malloc(1);
  return C4_ERROR;
}
bool blst_verify(bytes32_t message, bls_signature_t signature, uint8_t* k, int num, bytes_t mask, bool deserialized) {
#ifdef TWICE
  bool     ok = second ? nd_bool() : TWICE;
#else
  bool     ok = nd_bool();
#endif
  uint32_t p  = (uint32_t) k[0] | (uint32_t) k[1] << 8 | (uint32_t) k[2] << 16 | (uint32_t) k[3] << 24;
  if (n_bls == 0) first_ok = ok;
  n_bls++;
  good |= ok && eq(message, exp_msg) && mask.data == exp_bits && mask.len == 64 && signature == exp_sig && num == 512 && !deserialized && (p == exp_period || p == exp_period - 1);
  return ok;
}
#ifdef TWICE
/* the roots are not the subject here: a cheap collision free stand-in on the headers used */
static void fake_root(const uint8_t* p, uint32_t len, uint8_t* out) {
  chunk r;
  memset(r, 0, 32);
  for (int i = 0; i < 8; i++) r[i] = len == 112 ? p[16 + i] : (len == 64 ? p[i] : 0);
  r[8]  = len == 112 ? p[0] : (len == 64 ? p[8] : 0);
  r[31] = 1;
  memcpy(out, r, 32);
}
void ssz_hash_tree_root(ssz_ob_t ob, uint8_t* out) { fake_root(ob.bytes.data, ob.bytes.len, out); }
#endif
/* ---- reference ---- */
static void ref_header_root(const uint8_t* h, uint8_t* out) {
#ifdef TWICE
  fake_root(h, 112, out);
  return;
#endif
  chunk l[8];
  memset(l, 0, sizeof(l));
  memcpy(l[0], h, 8);
  memcpy(l[1], h + 8, 8);
  memcpy(l[2], h + 16, 32);
  memcpy(l[3], h + 48, 32);
  memcpy(l[4], h + 80, 32);
  for (int n = 8; n > 1; n /= 2)
    for (int i = 0; i < n; i += 2) H(l[i], l[i + 1], l[i / 2]);
  memcpy(out, l[0], 32);
}
static const chain_spec_t* spec(void) { return c4_eth_get_chain_spec(CHN); }
/* fork activation epochs and versions of the supported chains (consensus configuration) */
static const struct { uint64_t id; int spe, epp; uint64_t f[6]; int nf; } REF[] = {
    {CHAIN_ID(C4_CHAIN_TYPE_ETHEREUM, 1), 5, 8, {74240, 144896, 194048, 269568, 364032, 411392}, 6},
    {CHAIN_ID(C4_CHAIN_TYPE_ETHEREUM, 11155111), 5, 8, {50, 100, 56832, 132608, 222464, 272640}, 6},
    {CHAIN_ID(C4_CHAIN_TYPE_ETHEREUM, 100), 4, 9, {512, 385536, 648704, 889856, 1337856}, 5},
    {CHAIN_ID(C4_CHAIN_TYPE_ETHEREUM, 10200), 4, 9, {90, 180, 244224, 516608, 948224}, 5}};
static void ref_message(const uint8_t* root, uint64_t slot, uint8_t* out) {
#ifdef TWICE
  fake_root(root, 64, out);
  return;
#endif
  chunk v, g, d, dom;
  int   k = 0, fork = 0;
  while (REF[k].id != CHN) k++;
  uint64_t epoch = (slot - 1) >> REF[k].spe;
  for (int i = 0; i < REF[k].nf; i++) fork += epoch >= REF[k].f[i];
  memset(v, 0, 32);
  v[0] = (uint8_t) fork;
  if (CHN == C4_CHAIN_SEPOLIA) { v[0] = 0x90; v[3] = (uint8_t) (0x6f + fork); }
  if (CHN == C4_CHAIN_GNOSIS) v[3] = 0x64;
  if (CHN == C4_CHAIN_GNOSIS_CHIADO) v[3] = 0x6f;
  memcpy(g, spec()->genesis_validators_root, 32);
  H(v, g, d);
  memset(dom, 0, 32);
  dom[0] = 7;
  memcpy(dom + 4, d, 28);
  H(root, dom, out);
}
static uint32_t ref_period(uint64_t slot) { return (uint32_t) (slot >> 13); }
static uint64_t rd64(const uint8_t* p) {
  uint64_t v = 0;
  for (int i = 7; i >= 0; i--) v = v << 8 | p[i];
  return v;
}
static uint8_t*  bits_;
static uint32_t  bits_count;
static uint8_t*  mk_bits(void) {
  uint8_t* b = (uint8_t*) malloc(64);
  uint32_t c = 0;
  int      f = 0;
  for (int i = 0; i < 64; i++) {
    if (FULL < 64 && (i == SB1 || i == SB2)) b[i] = nd_u8();
    else if (f < FULL) { b[i] = 0xff; f++; }
    else b[i] = 0;
  }
  for (int i = 0; i < 8; i++) c += ((b[SB1] >> i) & 1) + ((b[SB2] >> i) & 1);
  bits_count = FULL < 64 ? c + 8 * FULL : 512;
  bits_      = b;
  return b;
}
static uint8_t* mk_header(uint8_t* h) {
  nd_fill(h, 8);
  h[6] = h[7] = 0; /* slots below 2^44 */
  h[5] &= 15;
  memset(h + 8, 0, 104);
#ifdef TWICE
  memset(h, 0, 8);
  h[3] = 1;
  nd_fill(h, 1);
  nd_chunk(h + 16);
  return h;
#endif
  nd_fill(h + 8, 8);
  nd_chunk(h + 16);
  nd_chunk(h + 48);
  nd_chunk(h + 80);
  return h;
}
static verify_ctx_t ctx_;
static bool nz(const uint8_t* m) { chunk z; memset(z, 0, 32); return !eq(m, z); }
static void expect(const uint8_t* msg, uint64_t slot, uint8_t* bits, uint8_t* sig) {
  memcpy(exp_msg, msg, 32);
  assume(nz(msg));
  exp_period = ref_period(slot);
  exp_bits   = bits;
  exp_sig    = sig;
  good       = false;
  n_bls = n_get = 0;
  first_get = 2;
  first_ok  = false;
}
/* ---- the signature check itself, with its cache: two headers one after the other ---- */
void h_signature(void) {
  uint8_t  h1[112], h2[112];
  uint8_t* sig = (uint8_t*) malloc(96);
  chunk    m1, m2, r;
  uint64_t s1, s2;
  ctx_.chain_id   = CHN;
  mk_header(h1);
  ssz_ob_t sb = {.def = NULL, .bytes = bytes(mk_bits(), 64)}, ss = {.def = NULL, .bytes = bytes(sig, 96)};
  ssz_ob_t ho = {.def = eth_ssz_type_for_denep(ETH_SSZ_BEACON_BLOCK_HEADER, C4_CHAIN_MAINNET), .bytes = bytes(h1, 112)};
#ifdef GIVEN_SLOT
  s1 = nd_u64();
  assume(s1 > 0 && s1 < 1ULL << 44);
  uint64_t a1 = s1;
#else
  s1          = rd64(h1) + 1;
  uint64_t a1 = 0;
#endif
  ref_header_root(h1, r);
  ref_message(r, s1, m1);
  expect(m1, s1, bits_, sig);
  c4_status_t st = c4_verify_blockroot_signature(&ctx_, &ho, &sb, &ss, a1, NULL);
  if (st == C4_SUCCESS) {
    vf_assert(bits_count >= 342, "at least 2/3 of the committee signed");
    vf_assert(good, "signature of the header's signing root by the committee of its period");
    REACH("accepted");
    if (n_bls == 2) REACH("accepted with the previous committee");
  }
  else
    REACH("rejected");
  if (bits_count >= 342 && n_get >= 1 && first_get == 0 && n_bls >= 1 && first_ok) vf_assert(st == C4_SUCCESS, "a good signature is accepted");
  if (n_get >= 1 && first_get == 1) vf_assert(st == C4_PENDING, "missing keys are requested");
#ifdef TWICE
  bool     ok1 = st == C4_SUCCESS;
  second       = true;
  uint8_t* b1  = bits_;
  mk_header(h2);
  uint8_t* sig2 = (uint8_t*) malloc(96);
  ssz_ob_t sb2 = {.def = NULL, .bytes = bytes(mk_bits(), 64)}, ss2 = {.def = NULL, .bytes = bytes(sig2, 96)};
  ssz_ob_t ho2 = {.def = ho.def, .bytes = bytes(h2, 112)};
  s2           = rd64(h2) + 1;
  ref_header_root(h2, r);
  ref_message(r, s2, m2);
  expect(m2, s2, bits_, sig2);
  st = c4_verify_blockroot_signature(&ctx_, &ho2, &sb2, &ss2, 0, NULL);
  if (st == C4_SUCCESS) {
    bool again = ok1 && eq(m1, m2);
    vf_assert(again || good, "a cached header is one that was verified before");
    if (again) REACH("cached");
    else REACH("verified");
  }
#endif
}
/* ---- header proofs ---- */
static void put4(uint8_t* p, uint32_t v) { p[0] = v; p[1] = v >> 8; p[2] = v >> 16; p[3] = v >> 24; }
static const ssz_def_t* block_number_proof(void) { return eth_ssz_verification_type(ETH_SSZ_VERIFY_BLOCK_NUMBER_PROOF); }
#ifdef MERKLE_MODEL
static struct { chunk leaf, out; gindex_t g; uint8_t* proof; uint32_t len; } mp;
static int n_mp;
void ssz_verify_single_merkle_proof(bytes_t proof_data, bytes32_t leaf, gindex_t gindex, bytes32_t out) {
  n_mp++;
  memcpy(mp.leaf, leaf, 32);
  mp.g     = gindex;
  mp.proof = proof_data.data;
  mp.len   = proof_data.len;
  nd_chunk(mp.out);
  memcpy(out, mp.out, 32);
}
#endif
/* NH: number of intermediate headers; HK: 0 signature, 1 historic, 2 headers */
#ifndef NH
#define NH 0
#endif
#ifndef HK
#define HK 0
#endif
void h_header(void) {
  /* only the field header_proof of the block proof is used: container with the union as the only dynamic field */
  static const ssz_def_t one[1];
  const ssz_def_t*       d = block_number_proof();
  uint8_t                h[112];
  uint32_t               fixed = 0, un = 0;
  int                    k     = -1;
  for (uint32_t i = 0; i < d->def.container.len; i++) {
    if (strcmp(d->def.container.elements[i].name, "header_proof") == 0) k = (int) i;
    fixed += (uint32_t) ssz_fixed_length(&d->def.container.elements[i]);
  }
  vf_assert(k >= 0, "harness: header_proof");
  /* union payload */
  uint32_t plen = HK == 0 ? 64 + 96 : (HK == 1 ? 4 + 112 + 8 + 64 + 96 + 32 : 4 + 112 + 64 + 96 + 80 * NH);
  uint8_t* blk  = (uint8_t*) malloc(fixed + 1 + plen);
  memset(blk, 0, fixed + 1 + plen);
  uint32_t o = 0;
  for (uint32_t i = 0; i < d->def.container.len; i++) {
    if (ssz_is_dynamic(&d->def.container.elements[i])) put4(blk + o, (int) i <= k && (int) i < k ? fixed : ((int) i == k ? fixed : fixed + 1 + plen));
    o += (uint32_t) ssz_fixed_length(&d->def.container.elements[i]);
  }
  uint8_t* u = blk + fixed;
  u[0]       = HK;
  u++;
  uint8_t *sh = NULL, *bits, *sig, *hs = NULL;
  uint8_t* tmpbits = mk_bits();
  if (HK == 0) bits = u;
  else if (HK == 2) {
    put4(u, 4 + 112 + 64 + 96);
    sh   = u + 4;
    bits = u + 116;
    hs   = u + 4 + 112 + 64 + 96;
  }
  else {
    put4(u, 4 + 112 + 8 + 64 + 96);
    sh = u + 4;
    nd_fill(u + 116, 8);
    bits = u + 124;
    hs   = u + 4 + 112 + 8 + 64 + 96;
    nd_chunk(hs);
  }
  memcpy(bits, tmpbits, 64);
  bits_ = bits;
  sig   = bits + 64;
  if (sh) mk_header(sh);
  if (HK == 2)
    for (int i = 0; i < NH; i++) {
      nd_fill(hs + 80 * i, 16);
      nd_chunk(hs + 80 * i + 16);
      nd_chunk(hs + 80 * i + 48);
    }
  ctx_.chain_id = CHN;
  mk_header(h);
  ssz_ob_t ho = {.def = eth_ssz_type_for_denep(ETH_SSZ_BEACON_BLOCK_HEADER, C4_CHAIN_MAINNET), .bytes = bytes(h, 112)};
  ssz_ob_t bp = {.def = d, .bytes = bytes(blk, fixed + 1 + plen)};
  chunk    root, m;
  uint64_t slot = rd64(sh ? sh : h) + 1;
  bool     linked = true;
  ref_header_root(h, root);
  if (HK == 2) {
    for (int i = 0; i < NH; i++) {
      uint8_t t[112];
      memcpy(t, hs + 80 * i, 16);
      memcpy(t + 16, root, 32);
      memcpy(t + 48, hs + 80 * i + 16, 64);
      ref_header_root(t, root);
    }
    linked = eq(root, sh + 16);
    ref_header_root(sh, root);
  }
#ifdef MERKLE_MODEL
  chunk hr;
  memcpy(hr, root, 32);
  ref_header_root(sh, root);
#endif
  ref_message(root, slot, m);
  expect(m, slot, bits, sig);
  c4_status_t st = c4_verify_header(&ctx_, ho, bp);
#ifdef MERKLE_MODEL
  int      rk = 0;
  while (REF[rk].id != CHN) rk++;
  uint64_t f  = rd64(sh) >> REF[rk].spe >= REF[rk].f[4] ? 64 + 27 : 32 + 27; /* electra states have up to 64 fields */
  uint64_t g  = rd64(u + 116);
  linked      = n_mp == 1 && eq(mp.leaf, hr) && mp.g == g && mp.proof == hs && mp.len == 32 && eq(mp.out, sh + 48);
  if (st == C4_SUCCESS) vf_assert(g >> 39 == f && !((g >> 38) & 1) && !((g >> 13) & 1) && (g & 8191) == (rd64(h) & 8191), "the proven value is a block root of the history in the state");
#endif
  if (st == C4_SUCCESS) {
    vf_assert(linked, "the signed header is linked to the header");
    vf_assert(bits_count >= 342 && good, "signed by 2/3 of the committee of the period");
    REACH("accepted");
  }
  else {
    REACH("rejected");
    if (!linked) REACH("not linked");
  }
#ifndef MERKLE_MODEL
  if (linked && bits_count >= 342 && n_get >= 1 && first_get == 0 && n_bls >= 1 && first_ok) vf_assert(st == C4_SUCCESS, "a good proof is accepted");
  if (linked && bits_count >= 342 && n_get == 0) vf_assert(0, "the keys of the committee are asked for");
#endif
}
