/* transaction proofs: the transaction is part of the verified block, it is the requested one and its fields are decoded as signed */
#include "vf_tx.h"
static verify_ctx_t ctx;

#ifdef PROOFS
/* METHOD, ARGS: the request; BY: 0 hash, 1 block hash and index, 2 block number and index, 3 malformed; WIDX, WNUM: the wanted index and number */
#define RAWLEN 40
static uint8_t *RAW, *MP, *IDX, *HEAD, *BH, *BN, *BF;
static uint8_t  PROOF[8];
static chunk    h_raw, r_raw, r_body;
static bool     merkle_ok, hdr_ok, wr_ok, merkle_done, hdr_done, written;
static char     method[] = METHOD;
static char     args[]   = ARGS;
static const uint8_t WHASH[32] = {1, 8, 15, 22, 29, 36, 43, 50, 57, 64, 71, 78, 85, 92, 99, 106, 113, 120, 127, 134, 141, 148, 155, 162, 169, 176, 183, 190, 197, 204, 211, 218};
ssz_ob_t ssz_get(ssz_ob_t* ob, const char* n) {
  if (ob->bytes.data == PROOF) {
    if (is(n, "transaction")) return OB(&D_TX, RAW, RAWLEN);
    if (is(n, "proof")) return OB(&D_L, MP, 8);
    if (is(n, "transactionIndex")) return OB(&D_U32, IDX, 4);
    if (is(n, "header")) return OB(&D_C, HEAD, 112);
    if (is(n, "blockHash")) return OB(&D_B32, BH, 32);
    if (is(n, "blockNumber")) return OB(&D_U64, BN, 8);
    if (is(n, "baseFeePerGas")) return OB(&D_U64, BF, 8);
  }
  else if (ob->bytes.data == HEAD && is(n, "bodyRoot")) return OB(&D_B32, HEAD + 80, 32);
  return (ssz_ob_t) {0};
}
void keccak(bytes_t d, uint8_t* out) {
  vf_assert(d.data == RAW && d.len == RAWLEN, "the hash of the transaction is used");
  put(out, h_raw);
}
void ssz_hash_tree_root(ssz_ob_t ob, uint8_t* out) {
  vf_assert(ob.bytes.data == RAW && ob.bytes.len == RAWLEN && ob.def->type == SSZ_TYPE_LIST && ob.def->def.vector.len == 1073741824, "the root of the transaction is used");
  put(out, r_raw);
}
bool ssz_verify_multi_merkle_proof(bytes_t proof, bytes_t l, gindex_t* g, bytes32_t out) {
  uint32_t idx = (uint32_t) lev(IDX, 4);
  bool     ok  = proof.data == MP && proof.len == 8 && l.len == 128 && leaf(l, g, 4, 806, BN, 8) && leaf(l, g, 4, 812, BH, 32) && leaf(l, g, 4, 811, BF, 8) && leaf(l, g, 4, FIRST_TX + idx, r_raw, 32) && idx < TX_LIMIT;
  vf_assert(ok, "the proof is checked for the leafs of the block");
  put(out, r_body);
  merkle_done = true;
  return merkle_ok;
}
c4_status_t c4_verify_header(verify_ctx_t* c, ssz_ob_t header, ssz_ob_t bp) {
  vf_assert(c == &ctx && header.bytes.data == HEAD && header.bytes.len == 112 && bp.bytes.data == PROOF, "the header of the proof is verified");
  hdr_done = true;
  if (!hdr_ok) c4_state_add_error(&c->state, "header");
  return hdr_ok ? C4_SUCCESS : C4_ERROR;
}
bool c4_write_tx_data_from_raw(verify_ctx_t* c, ssz_builder_t* b, bytes_t raw, bytes32_t tx_hash, bytes32_t block_hash, uint64_t nr, uint32_t idx, uint64_t fee) {
  vf_assert(c == &ctx && b->def == eth_ssz_verification_type(ETH_SSZ_DATA_TX) && raw.data == RAW && raw.len == RAWLEN, "the result is made of the transaction");
  vf_assert(eq(tx_hash, h_raw, 32) && eq(block_hash, BH, 32) && nr == lev(BN, 8) && idx == (uint32_t) lev(IDX, 4) && fee == lev(BF, 8), "the result is made of the values of the block");
  uint8_t m = 0xab;
  buffer_append(&b->fixed, bytes(&m, 1));
  written = true;
  return wr_ok;
}
void h_txproof(void) {
  RAW = nd_block(RAWLEN); MP = nd_block(8); IDX = nd_block(4); HEAD = nd_block(112); BH = nd_block(32); BN = nd_block(8); BF = nd_block(8);
  nd_chunk(HEAD + 80);
  for (int i = 0; i < 32; i++) h_raw[i] = nd_u8();
  nd_chunk(r_raw); nd_chunk(r_body);
  merkle_ok = nd_bool(); hdr_ok = nd_bool(); wr_ok = nd_bool();
  ctx.chain_id = C4_CHAIN_MAINNET;
  ctx.method   = method;
  ctx.args     = json_parse(args);
  ctx.proof    = OB(&D_C, PROOF, 8);
  ctx.data     = OB(&D_NON, NULL, 0);
  bool r       = verify_tx_proof(&ctx);
  bool args_ok = BY == 0 ? eq(h_raw, WHASH, 32) : BY == 1 ? eq(BH, WHASH, 32) && lev(IDX, 4) == WIDX
                                              : BY == 2   ? lev(BN, 8) == WNUM && lev(IDX, 4) == WIDX
                                                          : false;
  bool ok      = args_ok && merkle_ok && eq(r_body, HEAD + 80, 32) && hdr_ok && wr_ok && lev(IDX, 4) < TX_LIMIT;
  if (r) {
    vf_assert(ctx.success && !ctx.state.error, "success is reported consistently");
    vf_assert(args_ok, "the transaction is the requested one");
    vf_assert(merkle_done && merkle_ok && eq(r_body, HEAD + 80, 32), "the transaction belongs to the body of the header");
    vf_assert(hdr_done && hdr_ok, "the header is verified");
    vf_assert(written && wr_ok && ctx.data.def == eth_ssz_verification_type(ETH_SSZ_DATA_TX) && ctx.data.bytes.len == 1 && ctx.data.bytes.data[0] == 0xab, "the decoded transaction is the result");
    REACH("proven");
  }
  else {
    vf_assert(!ok, "a valid proof is accepted");
    vf_assert(!ctx.success && ctx.state.error, "an error is reported");
    REACH("rejected");
  }
}
#else
/* RAW, SIG, RS: templates of the transaction, its signed part and the signature, EXP: the expected result (see checks.py) */
static const uint16_t T_RAW[] = RAW_T, T_SIG[] = SIG_T, T_RS[] = RS_T;
#define N_RAW (sizeof(T_RAW) / 2)
#define N_SIG (sizeof(T_SIG) / 2)
static uint8_t  raw[N_RAW], PK[64], BH[32], h_raw[32], want_gp[8];
static chunk    h_sig, h_pk;
static bool     rec_ok, recovered;
static uint64_t BN, FEE;
static uint32_t IDX;
static uint8_t code(uint16_t c) {
  if (c < 256) return (uint8_t) c;
  if (c >= 7000) return want_gp[c - 7000];
  if (c >= 6000) return (uint8_t) (IDX >> 8 * (c - 6000));
  if (c >= 5000) return (uint8_t) (BN >> 8 * (c - 5000));
  if (c >= 4000) return BH[c - 4000];
  if (c >= 3000) return h_raw[c - 3000];
  if (c >= 2000) return h_pk[c - 2000 + 12];
  return raw[c - 1000];
}
static bool same(const uint8_t* d, const uint16_t* t, uint32_t n) {
  bool r = true;
  for (uint32_t i = 0; i < n; i++) r &= d[i] == code(t[i]);
  return r;
}
void keccak(bytes_t d, uint8_t* out) {
  if (d.len == 64) {
    vf_assert(recovered && eq(d.data, PK, 64), "the sender is the hash of the recovered key");
    put(out, h_pk);
    return;
  }
#ifdef BROKEN
  nd_chunk(out);
#else
  vf_assert(d.len == N_SIG && same(d.data, T_SIG, N_SIG), "the signed part of the transaction is hashed");
  put(out, h_sig);
#endif
}
bool secp256k1_recover(const bytes32_t digest, bytes_t sig, uint8_t* pubkey) {
#ifndef BROKEN
  vf_assert(eq(digest, h_sig, 32) && sig.len == 65 && same(sig.data, T_RS, 64) && (sig.data[64] == T_RS[64] || sig.data[64] == T_RS[64] + 27), "the signature of the transaction is used");
#endif
  for (int i = 0; i < 64; i++) pubkey[i] = PK[i];
  recovered = true;
  return rec_ok;
}
static void setup(void) {
  for (uint32_t i = 0; i < N_RAW; i++) raw[i] = T_RAW[i] == 256 ? nd_u8() : (uint8_t) T_RAW[i];
  nd_fill(PK, 64); nd_fill(BH, 32); nd_fill(h_raw, 32);
  nd_chunk(h_sig); nd_chunk(h_pk); nd_fill(h_pk + 12, 20);
#ifdef REC
  rec_ok = REC; /* a decided outcome keeps the error state decided */
#else
  rec_ok = nd_bool();
#endif
  BN = nd_u64(); FEE = nd_u64(); IDX = nd_u32();
}
void h_sender(void) {
  setup();
  uint8_t addr[20] = {0};
  uint8_t* copy = (uint8_t*) malloc(N_RAW);
  for (uint32_t i = 0; i < N_RAW; i++) copy[i] = raw[i];
  if (c4_tx_create_from_address(&ctx, bytes(copy, N_RAW), addr)) {
#ifndef BROKEN
    vf_assert(N_SIG == 1 ? same(addr, T_RS, 20) : rec_ok && eq(addr, h_pk + 12, 20), "the sender signed the transaction");
#endif
    REACH("sender");
  }
  else {
#ifndef BROKEN
    vf_assert(!rec_ok && N_SIG > 1, "a signed transaction has a sender");
#endif
    vf_assert(ctx.state.error, "an error is reported");
    REACH("no sender");
  }
}
#ifdef EXP_T
static const uint16_t T_EXP[] = EXP_T;
#define N_EXP (sizeof(T_EXP) / 2)
void h_txdata(void) {
  setup();
#ifdef PRIO
  uint64_t prio = 0, max = 0;
  for (int i = 0; i < PRIOLEN; i++) prio = prio << 8 | raw[PRIO + i];
  for (int i = 0; i < MAXLEN; i++) max = max << 8 | raw[MAXFEE + i];
  assume(max >= FEE);
  uint64_t gp = prio < max - FEE ? FEE + prio : max;
  for (int i = 0; i < 8; i++) want_gp[i] = (uint8_t) (gp >> 8 * i);
#endif
  ssz_builder_t b = {.def = eth_ssz_verification_type(ETH_SSZ_DATA_TX)};
  uint8_t* copy = (uint8_t*) malloc(N_RAW);
  for (uint32_t i = 0; i < N_RAW; i++) copy[i] = raw[i];
  if (c4_write_tx_data_from_raw(&ctx, &b, bytes(copy, N_RAW), h_raw, BH, BN, IDX, FEE)) {
    vf_assert(!ctx.state.error && (rec_ok || N_SIG == 1), "the transaction is well signed");
    ssz_ob_t r = ssz_builder_to_bytes(&b);
    vf_assert(r.bytes.len == N_EXP, "the result has all fields");
    for (uint32_t i = 0; i < N_EXP; i++)
      vf_assert(r.bytes.data[i] == code(T_EXP[i]), "the fields are those of the transaction");
    REACH("decoded");
  }
  else {
    vf_assert(!rec_ok && N_SIG > 1, "a well signed transaction is decoded");
    REACH("not decoded");
  }
}
#endif
#endif
