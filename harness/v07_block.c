/* block proofs: the block is the payload of the verified header, it is the requested one and its fields are those of the payload */
#include "vf_tx.h"
static verify_ctx_t ctx;
static uint8_t      PROOF[8], PL[8], TXS[8], *MP, *HEAD;
static chunk        r_body;
static bool         hdr_ok, hdr_done, merkle_ok = true, merkle_done;
static uint8_t *    BN, *TS;
c4_status_t c4_verify_header(verify_ctx_t* c, ssz_ob_t header, ssz_ob_t bp) {
  vf_assert(c == &ctx && header.bytes.data == HEAD && header.bytes.len == 112 && bp.bytes.data == PROOF, "the header of the proof is verified");
  hdr_done = true;
  if (!hdr_ok) c4_state_add_error(&c->state, "header");
  return hdr_ok ? C4_SUCCESS : C4_ERROR;
}
#ifdef NUMBER
ssz_ob_t ssz_get(ssz_ob_t* ob, const char* n) {
  if (ob->bytes.data == PROOF) {
    if (is(n, "blockNumber")) return OB(&D_U64, BN, 8);
    if (is(n, "timestamp")) return OB(&D_U64, TS, 8);
    if (is(n, "proof")) return OB(&D_L, MP, 8);
    if (is(n, "header")) return OB(&D_C, HEAD, 112);
  }
  else if (ob->bytes.data == HEAD && is(n, "bodyRoot")) return OB(&D_B32, HEAD + 80, 32);
  return (ssz_ob_t) {0};
}
bool ssz_verify_multi_merkle_proof(bytes_t proof, bytes_t l, gindex_t* g, bytes32_t out) {
  vf_assert(proof.data == MP && proof.len == 8 && l.len == 64 && leaf(l, g, 2, 806, BN, 8) && leaf(l, g, 2, 809, TS, 8), "the proof is checked for number and timestamp");
  put(out, r_body);
  merkle_done = true;
  return merkle_ok;
}
void h_number(void) {
  MP = nd_block(8); HEAD = nd_block(112); BN = nd_block(8); TS = nd_block(8);
  nd_chunk(HEAD + 80); nd_chunk(r_body);
  hdr_ok = nd_bool(); merkle_ok = nd_bool();
  ctx.chain_id = C4_CHAIN_MAINNET;
  ctx.method   = "eth_blockNumber";
  ctx.proof    = OB(&D_C, PROOF, 8);
  ctx.data     = OB(&D_NON, NULL, 0);
  if (verify_block_number_proof(&ctx)) {
    vf_assert(ctx.success && !ctx.state.error, "success is reported consistently");
    vf_assert(hdr_done && hdr_ok, "the header is verified");
    vf_assert(merkle_done && merkle_ok && eq(r_body, HEAD + 80, 32), "the number belongs to the body of the header");
    vf_assert(ctx.data.bytes.len == 8 && eq(ctx.data.bytes.data, BN, 8) && ctx.data.def->type == SSZ_TYPE_UINT, "the number is the result");
    REACH("proven");
  }
  else {
    vf_assert(!(hdr_ok && merkle_ok && eq(r_body, HEAD + 80, 32)), "a valid proof is accepted");
    vf_assert(!ctx.success && ctx.state.error, "an error is reported");
    REACH("rejected");
  }
}
#else
/* ARGS: the request, BY: 0 tag, 1 number WNUM, 2 hash, 3 malformed; NTX: transactions, FULL: with their data, FAIL: the first which can not be decoded, XD: extra data, NW: withdrawals */
#define TXL 3                                                  /* raw length */
static uint8_t *f_ph, *f_fr, *f_sr, *f_rr, *f_lb, *f_pr, *f_gl, *f_gu, *f_xd, *f_bf, *f_bh, *f_wd, *f_bg, *f_eb;
static uint8_t *TX[3];
static chunk    r_pl, r_wd, r_trie, h_tx[3];
static int      in_trie, freed, written;
static char     method[] = METHOD;
static char     args[]   = ARGS;
static uint8_t  TRIE[64];
#define WDL (44 * NW)
static const uint8_t WHASH[32] = {1, 8, 15, 22, 29, 36, 43, 50, 57, 64, 71, 78, 85, 92, 99, 106, 113, 120, 127, 134, 141, 148, 155, 162, 169, 176, 183, 190, 197, 204, 211, 218};
ssz_ob_t ssz_get(ssz_ob_t* ob, const char* n) {
  if (ob->bytes.data == PROOF) {
    if (is(n, "executionPayload")) return OB(&D_C, PL, 8);
    if (is(n, "proof")) return OB(&D_L, MP, 8);
    if (is(n, "header")) return OB(&D_C, HEAD, 112);
  }
  else if (ob->bytes.data == HEAD) {
    if (is(n, "bodyRoot")) return OB(&D_B32, HEAD + 80, 32);
    if (is(n, "parentRoot")) return OB(&D_B32, HEAD + 16, 32);
  }
  else if (ob->bytes.data == PL) {
    if (is(n, "parentHash")) return OB(&D_B32, f_ph, 32);
    if (is(n, "feeRecipient")) return OB(&D_ADR, f_fr, 20);
    if (is(n, "stateRoot")) return OB(&D_B32, f_sr, 32);
    if (is(n, "receiptsRoot")) return OB(&D_B32, f_rr, 32);
    if (is(n, "logsBloom")) return OB(&D_TX, f_lb, 256);
    if (is(n, "prevRandao")) return OB(&D_B32, f_pr, 32);
    if (is(n, "blockNumber")) return OB(&D_U64, BN, 8);
    if (is(n, "gasLimit")) return OB(&D_U64, f_gl, 8);
    if (is(n, "gasUsed")) return OB(&D_U64, f_gu, 8);
    if (is(n, "timestamp")) return OB(&D_U64, TS, 8);
    if (is(n, "extraData")) return OB(&D_TX, f_xd, XD);
    if (is(n, "baseFeePerGas")) return OB(&D_B32, f_bf, 32);
    if (is(n, "blockHash")) return OB(&D_B32, f_bh, 32);
    if (is(n, "transactions")) return OB(&D_L, TXS, 8);
    if (is(n, "withdrawals")) return OB(&D_L, f_wd, WDL);
    if (is(n, "blobGasUsed")) return OB(&D_U64, f_bg, 8);
    if (is(n, "excessBlobGas")) return OB(&D_U64, f_eb, 8);
  }
  return (ssz_ob_t) {0};
}
uint32_t ssz_len(ssz_ob_t ob) { return ob.bytes.data == TXS ? NTX : 0; }
ssz_ob_t ssz_at(ssz_ob_t ob, uint32_t k) { return ob.bytes.data == TXS && k < NTX ? OB(&D_TX, TX[k], TXL) : (ssz_ob_t) {0}; }
void ssz_hash_tree_root(ssz_ob_t ob, uint8_t* out) {
  vf_assert(ob.bytes.data == PL || ob.bytes.data == f_wd, "payload and withdrawals are hashed");
  put(out, ob.bytes.data == PL ? r_pl : r_wd);
}
void ssz_verify_single_merkle_proof(bytes_t proof, bytes32_t l, gindex_t g, bytes32_t out) {
  vf_assert(proof.data == MP && proof.len == 8 && (uint64_t) g == 25 && eq(l, r_pl, 32), "the proof is checked for the payload");
  put(out, r_body);
  merkle_done = true;
}
void keccak(bytes_t d, uint8_t* out) {
  for (int i = 0; i < NTX; i++)
    if (d.data == TX[i] && d.len == TXL) {
      put(out, h_tx[i]);
      return;
    }
  vf_assert(false, "the transactions are hashed");
}
void patricia_set_value(node_t** root, bytes_t path, bytes_t value) {
  vf_assert(in_trie < NTX && value.data == TX[in_trie] && value.len == TXL && path.len == 1 && path.data[0] == (in_trie ? in_trie : 0x80), "the trie has the transactions");
  *root = (node_t*) TRIE;
  in_trie++;
}
bytes_t patricia_get_root(node_t* n) {
  vf_assert((uint8_t*) n == TRIE, "the root of the trie is used");
  return bytes(r_trie, 32);
}
void patricia_node_free(node_t* n) { freed++; }
bool c4_write_tx_data_from_raw(verify_ctx_t* c, ssz_builder_t* b, bytes_t raw, bytes32_t tx_hash, bytes32_t block_hash, uint64_t nr, uint32_t idx, uint64_t fee) {
  vf_assert(idx < NTX && raw.data == TX[idx] && raw.len == TXL && eq(tx_hash, h_tx[idx], 32) && eq(block_hash, f_bh, 32) && nr == lev(BN, 8) && fee == lev(f_bf, 8), "the transactions are decoded with the values of the block");
  if (idx == FAIL) {
    c4_state_add_error(&c->state, "e");
    return false;
  }
  uint8_t m[2] = {0xa0 + (uint8_t) idx, 0xb0 + (uint8_t) idx};
  buffer_append(&b->fixed, bytes(m, 1));
  if (idx) buffer_append(&b->dynamic, bytes(m + 1, 1));
  written++;
  return true;
}
static uint32_t le4(const uint8_t* p) { return (uint32_t) lev(p, 4); }
static const uint8_t E_ROOT[] = {0x56, 0xe8, 0x1f, 0x17, 0x1b, 0xcc, 0x55, 0xa6, 0xff, 0x83, 0x45, 0xe6, 0x92, 0xc0, 0xf8, 0x6e, 0x5b, 0x48, 0xe0, 0x1b, 0x99, 0x6c, 0xad, 0xc0, 0x01, 0x62, 0x2f, 0xb5, 0xe3, 0x63, 0xb4, 0x21};
static const uint8_t E_UNCLES[] = {0x1d, 0xcc, 0x4d, 0xe8, 0xde, 0xc7, 0x5d, 0x7a, 0xab, 0x85, 0xb5, 0x67, 0xb6, 0xcc, 0xd4, 0x1a, 0xd3, 0x12, 0x45, 0x1b, 0x94, 0x8a, 0x74, 0x13, 0xf0, 0xa1, 0x42, 0xfd, 0x40, 0xd4, 0x93, 0x47};
void h_block(void) {
  MP = nd_block(8); HEAD = nd_block(112); BN = nd_block(8); TS = nd_block(8);
  f_ph = nd_block(32); f_fr = nd_block(20); f_sr = nd_block(32); f_rr = nd_block(32); f_lb = nd_block(256); f_pr = nd_block(32); f_gl = nd_block(8); f_gu = nd_block(8); f_xd = nd_block(XD); f_bf = nd_block(32); f_bh = nd_block(32); f_wd = nd_block(WDL); f_bg = nd_block(8); f_eb = nd_block(8);
  for (int i = 0; i < NTX; i++) {
    TX[i] = nd_block(TXL);
    nd_chunk(h_tx[i]);
  }
  nd_chunk(HEAD + 80); nd_chunk(r_body); nd_chunk(r_pl); nd_chunk(r_wd); nd_chunk(r_trie);
  hdr_ok       = nd_bool();
  ctx.chain_id = C4_CHAIN_MAINNET;
  ctx.method   = method;
  ctx.args     = json_parse(args);
  ctx.proof    = OB(&D_C, PROOF, 8);
  ctx.data     = OB(&D_NON, NULL, 0);
  bool r       = verify_block_proof(&ctx);
  bool args_ok = BY == 0 ? true : BY == 1 ? lev(BN, 8) == WNUM
                              : BY == 2   ? eq(f_bh, WHASH, 32)
                                          : false;
  bool ok      = args_ok && hdr_ok && eq(r_body, HEAD + 80, 32) && FAIL >= NTX;
  if (r) {
    vf_assert(ctx.success && !ctx.state.error, "success is reported consistently");
    vf_assert(merkle_done && eq(r_body, HEAD + 80, 32), "the payload belongs to the body of the header");
    vf_assert(hdr_done && hdr_ok, "the header is verified");
    vf_assert(args_ok, "the block is the requested one");
    vf_assert(in_trie == NTX && (!FULL || written == NTX), "all transactions are decoded");
    const uint8_t* d = ctx.data.bytes.data;
    int txl = 1;
    for (int i = 0; i < NTX; i++) txl += FULL ? (i ? 6 : 5) : 32;
    vf_assert(ctx.data.def == eth_ssz_verification_type(ETH_SSZ_DATA_BLOCK) && ctx.data.bytes.len == 712 + txl + XD + WDL, "a block is returned");
    vf_assert((le4(d) & 0x3fffffe) == 0x1fffffe, "the proven fields are shown");
    vf_assert(eq(d + 4, BN, 8) && eq(d + 12, f_bh, 32) && eq(d + 48, f_lb, 256) && eq(d + 304, f_rr, 32), "number, hash, bloom and receipts are those of the payload");
    vf_assert(le4(d + 44) == 712 && le4(d + 336) == 712 + txl && le4(d + 432) == 712 + txl + XD && le4(d + 540) == 712 + txl + XD + WDL, "the lists are placed");
    vf_assert(eq(d + 340, r_wd, 32), "the withdrawals root is the one of the withdrawals");
    vf_assert(eq(d + 372, f_bf, 32) && zero(d + 404, 8) && eq(d + 412, f_fr, 20) && eq(d + 436, f_eb, 8) && zero(d + 444, 8) && eq(d + 452, f_gl, 8) && eq(d + 460, f_gu, 8) && eq(d + 468, TS, 8), "fees, miner, gas and time are those of the payload");
    vf_assert(eq(d + 476, f_pr, 32) && eq(d + 508, f_ph, 32) && eq(d + 544, HEAD + 16, 32) && eq(d + 576, E_UNCLES, 32), "randao, parent, beacon root and uncles are those of the payload and header");
    vf_assert(eq(d + 608, NTX ? r_trie : E_ROOT, 32) && eq(d + 640, f_sr, 32) && eq(d + 672, f_bg, 8), "transactions root, state root and blob gas are those of the payload");
    vf_assert(eq(d + 712 + txl, f_xd, XD) && eq(d + 712 + txl + XD, f_wd, WDL), "extra data and withdrawals are those of the payload");
    const uint8_t* t = d + 712;
    vf_assert(t[0] == FULL, "the transactions are shown as requested");
    for (int i = 0; i < NTX; i++) {
#if FULL
      uint32_t o = 4 * NTX + (i ? 1 + 2 * (i - 1) : 0);
      vf_assert(le4(t + 1 + 4 * i) == o && t[1 + o] == 0xa0 + i && (!i || t[2 + o] == 0xb0 + i), "the transactions are those of the payload");
#else
      vf_assert(eq(t + 1 + 32 * i, h_tx[i], 32), "the hashes are those of the transactions");
#endif
    }
    REACH("proven");
  }
  else {
    vf_assert(!ok, "a valid proof is accepted");
    vf_assert(!ctx.success && ctx.state.error, "an error is reported");
    REACH("rejected");
  }
}
#endif
