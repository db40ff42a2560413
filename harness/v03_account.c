/* account proofs: the result is the value proven for the requested address, key and block */
#include "beacon_types.h"
#include "chains.h"
#include "crypto.h"
#include "eth_account.h"
#include "eth_verify.h"
#include "json.h"
#include "patricia.h"
#include "ssz.h"
#include "sync_committee.h"
#include "verify.h"
#include "vf.h"
#include "vf_err.h"
/* METHOD, ARGS: the request, RA: result of the account proof, NS: storage proofs, RS: their results, BLK: 0 none, 8 number, 32 hash,
   NONCE, BAL: lengths in the account, SV: length of the storage value, EMPTY: account without storage, WANT_BLK, WANT: block of the request */
#ifndef NS
#define NS 0
#endif
#ifndef RS
#define RS {1, 1}
#endif
#ifndef BLK
#define BLK 0
#endif
#ifndef SV
#define SV 2
#endif
#ifndef SHAPE
#define SHAPE 0
#endif
#ifndef CLEN
#define CLEN 3
#endif
#define NONCE 2
#define BAL 3
#define ACC (2 + 1 + NONCE + 1 + BAL + 33 + 33)
typedef uint8_t chunk[32];
static const int rs[] = RS;
static uint8_t   A[ACC];                    /* the account as in the trie */
static uint8_t*  SVAL[2];                   /* the values as in the storage trie */
static uint8_t*  NODE;                      /* a node of a proof, never to be interpreted */
static uint8_t   P_ACC[8], P_S0[8], P_S1[8]; /* the proofs, known by their place */
static uint8_t* const P_STO[2] = {P_S0, P_S1};
static uint8_t*  KEY[2];
static uint8_t * ADDR, *HEAD, *MP, *BL, *CODE;
static uint8_t   PROOF[8], STATE[8], STORAGES[8], ST0[8], ST1[8];
static uint8_t* const STORAGE[2] = {ST0, ST1};
static chunk     h_addr, h_key[2], h_code, r_acc, r_sto[2], r_body;
static bool      merkle_ok, hdr_ok, merkle_done, hdr_done, acc_done, sto_done[2];
static verify_ctx_t ctx;
static const ssz_def_t D_B32 = SSZ_BYTES32("x");
static const ssz_def_t D_ADR = SSZ_ADDRESS("a");
static const ssz_def_t D_U64 = SSZ_UINT64("n");
static const ssz_def_t D_NON = SSZ_NONE;
static const ssz_def_t D_EL[] = {SSZ_BYTES32("x")};
static const ssz_def_t D_C    = SSZ_CONTAINER("c", D_EL);
static const ssz_def_t D_BY   = SSZ_BYTES("b", 1024);
static const ssz_def_t D_L    = SSZ_LIST("l", D_BY, 256);
static const ssz_def_t D_CODE = SSZ_BYTES("bytes", 1073741824);
#define OB(d, p, l) ((ssz_ob_t) {.def = (d), .bytes = bytes((p), (l))})
static bool is(const char* a, const char* b) {
  int i = 0;
  for (; a[i] && a[i] == b[i]; i++);
  return a[i] == b[i];
}
static bool eq(const uint8_t* a, const uint8_t* b, int n) {
  bool r = true;
  for (int i = 0; i < n; i++) r &= a[i] == b[i];
  return r;
}
static void put(uint8_t* o, const uint8_t* c) {
  for (int i = 0; i < 32; i++) o[i] = c[i];
}
static void nd_chunk(uint8_t* c) {
  for (int i = 0; i < 32; i++) c[i] = i < 3 || i > 30 ? nd_u8() : 0x5a;
}
ssz_ob_t ssz_get(ssz_ob_t* ob, const char* n) {
  if (ob->bytes.data == PROOF) {
    if (is(n, "accountProof")) return OB(&D_L, P_ACC, 8);
    if (is(n, "address")) return OB(&D_ADR, ADDR, 20);
    if (is(n, "storageProof")) return OB(&D_L, STORAGES, 8);
    if (is(n, "state_proof")) return OB(&D_C, STATE, 8);
  }
  else if (ob->bytes.data == STATE) {
    if (is(n, "block")) return BLK == 0 ? OB(&D_NON, BL, 0) : OB(BLK == 8 ? &D_U64 : &D_B32, BL, BLK);
    if (is(n, "proof")) return OB(&D_L, MP, 8);
    if (is(n, "header")) return OB(&D_C, HEAD, 112);
  }
  else if (ob->bytes.data == HEAD) {
    if (is(n, "bodyRoot")) return OB(&D_B32, HEAD + 80, 32);
    if (is(n, "stateRoot")) return OB(&D_B32, HEAD + 48, 32);
    if (is(n, "parentRoot")) return OB(&D_B32, HEAD + 16, 32);
  }
  else
    for (int i = 0; i < NS; i++)
      if (ob->bytes.data == STORAGE[i]) {
        if (is(n, "key")) return OB(&D_B32, KEY[i], 32);
        if (is(n, "proof")) return OB(&D_L, P_STO[i], 8);
      }
  return (ssz_ob_t) {0};
}
#ifndef PLENS
#define PLENS {2, 2}
#endif
static const int plens[] = PLENS;
uint32_t ssz_len(ssz_ob_t ob) {
  if (ob.bytes.data == STORAGES) return NS;
  if (ob.bytes.data == P_ACC) return 2;
  for (int i = 0; i < NS; i++)
    if (ob.bytes.data == P_STO[i]) return plens[i];
  return 0;
}
ssz_ob_t ssz_at(ssz_ob_t ob, uint32_t i) {
  if (ob.bytes.data == STORAGES && i < NS) return OB(&D_C, STORAGE[i], 8);
  return OB(&D_BY, NODE, 6);
}
void keccak(bytes_t d, uint8_t* out) {
  if (d.data == ADDR && d.len == 20) { put(out, h_addr); return; }
  if (d.data == CODE && d.len == CLEN) { put(out, h_code); return; }
  for (int i = 0; i < NS; i++)
    if (d.data == KEY[i] && d.len == 32) { put(out, h_key[i]); return; }
  chunk c;
  nd_chunk(c);
  put(out, c);
}
patricia_result_t patricia_verify(bytes32_t root, bytes_t path, ssz_ob_t proof, bytes_t* last) {
  if (proof.bytes.data == P_ACC) {
    vf_assert(path.len == 32 && eq(path.data, h_addr, 32), "the account proof is checked for the hash of the address");
    acc_done = true;
    put(root, r_acc);
    if (last) *last = RA == PATRICIA_FOUND ? bytes(A, SHAPE == 2 ? ACC - 1 : ACC) : NULL_BYTES;
    return RA;
  }
  for (int i = 0; i < NS; i++)
    if (proof.bytes.data == P_STO[i]) {
      vf_assert(path.len == 32 && eq(path.data, h_key[i], 32), "a storage proof is checked for the hash of its key");
      sto_done[i] = true;
      put(root, r_sto[i]);
      if (last) *last = rs[i] == PATRICIA_FOUND ? bytes(SVAL[i], SV + 1) : NULL_BYTES;
      return rs[i];
    }
  vf_assert(false, "only proofs of the request are checked");
  return PATRICIA_INVALID;
}
bool ssz_verify_multi_merkle_proof(bytes_t proof, bytes_t leafes, gindex_t* g, bytes32_t out) {
  bool exact = proof.data == MP && proof.len == 8 && leafes.len == (BLK ? 64 : 32) && eq(leafes.data, r_acc, 32) && g[0] == 802;
  if (exact && BLK) {
    exact = g[1] == (BLK == 8 ? 806 : 812) && eq(leafes.data + 32, BL, BLK);
    for (int i = BLK; i < 32; i++) exact &= leafes.data[32 + i] == 0;
  }
  chunk c;
  nd_chunk(c);
  put(out, exact ? r_body : c);
  merkle_done |= exact;
  return exact ? merkle_ok : nd_bool();
}
c4_status_t c4_verify_header(verify_ctx_t* c, ssz_ob_t header, ssz_ob_t bp) {
  bool exact = c == &ctx && header.bytes.data == HEAD && header.bytes.len == 112 && bp.bytes.data == STATE;
  hdr_done |= exact;
  vf_assert(exact, "the header of the proof is verified");
  if (!hdr_ok) c4_state_add_error(&c->state, "header");
  return hdr_ok ? C4_SUCCESS : C4_ERROR;
}
static bool zero(const uint8_t* a, int n) {
  bool r = true;
  for (int i = 0; i < n; i++) r &= a[i] == 0;
  return r;
}
static uint32_t le(const uint8_t* p) { return (uint32_t) p[0] | p[1] << 8 | p[2] << 16 | (uint32_t) p[3] << 24; }
/* little endian number n bytes of big endian field */
static bool is_num(const uint8_t* le32, const uint8_t* be, int n) {
  bool r = true;
  for (int i = 0; i < n; i++) r &= le32[i] == be[n - 1 - i];
  return r && zero(le32 + n, 32 - n);
}
static const uint8_t E_CODE[] = {0xc5, 0xd2, 0x46, 0x01, 0x86, 0xf7, 0x23, 0x3c, 0x92, 0x7e, 0x7d, 0xb2, 0xdc, 0xc7, 0x03, 0xc0, 0xe5, 0x00, 0xb6, 0x53, 0xca, 0x82, 0x27, 0x3b, 0x7b, 0xfa, 0xd8, 0x04, 0x5d, 0x85, 0xa4, 0x70};
static const uint8_t E_ROOT[] = {0x56, 0xe8, 0x1f, 0x17, 0x1b, 0xcc, 0x55, 0xa6, 0xff, 0x83, 0x45, 0xe6, 0x92, 0xc0, 0xf8, 0x6e, 0x5b, 0x48, 0xe0, 0x1b, 0x99, 0x6c, 0xad, 0xc0, 0x01, 0x62, 0x2f, 0xb5, 0xe3, 0x63, 0xb4, 0x21};
static const uint8_t WANT_ADDR[20] = {0x11, 0x22, 0x33, 0x44, 0x55, 0x66, 0x77, 0x88, 0x99, 0xaa, 0xbb, 0xcc, 0xdd, 0xee, 0xff, 1, 2, 3, 4, 5};
#ifndef NK
#define NK 0
#endif
#ifndef WKEYS
#define WKEYS {{0}}
#endif
static const uint8_t WANT_KEY[][2] = WKEYS; /* last two bytes of the requested keys */
static char          method[]      = METHOD;
static char          args[]        = ARGS;

void h_account(void) {
  int o_nonce = 3, o_bal = o_nonce + NONCE + 1, o_sto = o_bal + BAL + 1, o_code = o_sto + 33;
  nd_fill(A, ACC);
  A[0] = 0xf8; A[1] = ACC - 2; A[2] = 0x80 + NONCE; A[o_bal - 1] = 0x80 + BAL; A[o_sto - 1] = 0xa0; A[o_code - 1] = 0xa0;
  assume(A[o_nonce] && A[o_bal]);
  nd_chunk(A + o_sto); nd_chunk(A + o_code);
#ifdef EMPTY
  put(A + o_sto, E_ROOT);
#endif
  NODE = nd_block(6);
  ADDR = nd_block(20); HEAD = nd_block(112); MP = nd_block(8); BL = nd_block(BLK ? BLK : 1); CODE = nd_block(CLEN);
  nd_chunk(HEAD + 80);
  for (int i = 0; i < NS; i++) {
    KEY[i]  = nd_block(32);
    SVAL[i] = nd_block(SV + 1);
#if SHAPE != 3
    SVAL[i][0] = SV > 55 ? 0xb8 : 0x80 + SV;
#endif
    nd_chunk(h_key[i]); nd_chunk(r_sto[i]);
  }
  nd_chunk(h_addr); nd_chunk(h_code);
  if (RA == PATRICIA_NOT_EXISTING && nd_bool()) put(h_code, E_CODE);
  nd_chunk(r_acc); nd_chunk(r_body);
  merkle_ok = nd_bool(); hdr_ok = nd_bool();
  ctx.chain_id = C4_CHAIN_MAINNET;
  ctx.method   = method;
  ctx.args     = json_parse(args);
  ctx.proof    = OB(&D_C, PROOF, 8);
  bool code    = is(method, "eth_getCode");
  ctx.data     = code ? OB(&D_CODE, CODE, CLEN) : OB(&D_NON, NULL, 0);
  bool r       = verify_account_proof(&ctx);

  bool is_storage = is(method, "eth_getStorageAt"), is_proof = is(method, "eth_getProof");
  #ifdef NOADDR
  bool addr_ok = false;
#else
  bool addr_ok = eq(ADDR, WANT_ADDR, 20);
#endif
  bool keys_ok = true, sto_ok = true;
  if (is_storage || is_proof) {
    keys_ok = NS == NK;
    for (int i = 0; keys_ok && i < NK; i++) keys_ok &= zero(KEY[i], 30) && eq(KEY[i] + 30, WANT_KEY[i], 2);
  }
#ifdef EMPTY
  bool has_storage = false;
#else
  bool has_storage = RA == PATRICIA_FOUND;
#endif
  bool empty_root = eq(A + o_sto, E_ROOT, 32);
  for (int i = 0; i < NS; i++)
    sto_ok &= has_storage && !empty_root ? rs[i] != PATRICIA_INVALID && eq(r_sto[i], A + o_sto, 32) && (rs[i] == PATRICIA_NOT_EXISTING || (SVAL[i][0] == 0x80 + SV && SV <= 32)) : plens[i] == 0;
  bool blk_ok = WANT_BLK == BLK;
#if BLK
  if (blk_ok) {
    static const uint8_t want[32] = WANT;
    blk_ok = eq(BL, want, BLK);
  }
#endif
  bool code_ok = !code || (RA == PATRICIA_FOUND ? eq(h_code, A + o_code, 32) : eq(h_code, E_CODE, 32));
  bool ok      = RA != PATRICIA_INVALID && merkle_ok && eq(r_body, HEAD + 80, 32) && hdr_ok && addr_ok && keys_ok && sto_ok && blk_ok && code_ok && !(SHAPE && SHAPE != 3 && RA == PATRICIA_FOUND);
  if (r) {
    vf_assert(ctx.success && !ctx.state.error, "success is reported consistently");
    vf_assert(RA != PATRICIA_INVALID && acc_done, "the account proof is valid");
    vf_assert(merkle_done && merkle_ok && eq(r_body, HEAD + 80, 32), "the state root and block belong to the body of the header");
    vf_assert(hdr_done && hdr_ok, "the header is verified");
    vf_assert(addr_ok, "the proof is for the requested address");
    vf_assert(keys_ok, "the proof is for the requested storage keys");
    vf_assert(sto_ok, "the storage proofs are valid for the storage of the account");
    vf_assert(blk_ok, "the proof is for the requested block");
    vf_assert(code_ok, "the code has the proven hash");
    const uint8_t* d = ctx.data.bytes.data;
    if (is(method, "eth_getBalance") || is(method, "eth_getTransactionCount")) {
      vf_assert(ctx.data.bytes.len == 32 && ctx.data.def == eth_ssz_verification_type(ETH_SSZ_DATA_UINT256), "a number is returned");
      if (RA == PATRICIA_FOUND)
        vf_assert(is(method, "eth_getBalance") ? is_num(d, A + o_bal, BAL) : is_num(d, A + o_nonce, NONCE), "the number is the one of the account");
      else
        vf_assert(zero(d, 32), "a missing account has no balance and nonce");
    }
    if (is_storage) {
      vf_assert(ctx.data.bytes.len == 32 && ctx.data.def == eth_ssz_verification_type(ETH_SSZ_DATA_HASH32), "a word is returned");
      if (has_storage && !empty_root && rs[0] == PATRICIA_FOUND)
        vf_assert(zero(d, 32 - SV) && eq(d + 32 - SV, SVAL[0] + 1, SV), "the word is the one of the storage");
      else
        vf_assert(zero(d, 32), "missing values are zero");
    }
    if (code) vf_assert(d == CODE && ctx.data.bytes.len == CLEN, "the code is returned");
    if (is_proof) {
      vf_assert(ctx.data.def == eth_ssz_verification_type(ETH_SSZ_DATA_PROOF) && ctx.data.bytes.len == 136 + 8 + NS * (4 + 32 + 32 + 4 + 8), "an account is returned");
      if (RA == PATRICIA_FOUND) vf_assert(is_num(d, A + o_bal, BAL) && eq(d + 32, A + o_code, 32) && is_num(d + 64, A + o_nonce, NONCE) && eq(d + 96, A + o_sto, 32), "the fields are those of the account");
      else vf_assert(zero(d, 32) && eq(d + 32, E_CODE, 32) && zero(d + 64, 32) && eq(d + 96, E_ROOT, 32), "the fields are those of a missing account");
      vf_assert(le(d + 128) == 136 && le(d + 132) == 144, "the lists are placed");
      vf_assert(eq(d + 136, P_ACC, 8), "the account proof is returned");
      const uint8_t* s = d + 144;
      for (int i = 0; i < NS; i++) {
        vf_assert(le(s + 4 * i) == 4 * NS + 76 * i, "the storage proofs are placed");
        const uint8_t* e = s + 4 * NS + 76 * i;
        vf_assert(eq(e, KEY[i], 32), "the key is returned");
        if (has_storage && !empty_root && rs[i] == PATRICIA_FOUND) vf_assert(zero(e + 32, 32 - SV) && eq(e + 64 - SV, SVAL[i] + 1, SV), "the value is the one of the storage");
        else vf_assert(zero(e + 32, 32), "missing values are zero");
        vf_assert(le(e + 64) == 68 && eq(e + 68, P_STO[i], 8), "the storage proof is returned");
      }
    }
    REACH("proven");
  }
  else {
    vf_assert(!ok, "a valid proof is accepted");
    vf_assert(!ctx.success && ctx.state.error, "an error is reported");
    REACH("rejected");
  }
}
