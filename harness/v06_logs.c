/* log proofs: every log is part of a proven receipt of a transaction in a verified block and is asked for by the filter */
#include "vf_tx.h"
/* METHOD, ARGS: the request, NB: blocks, NT: transactions per block, NLOG: logs, TOP: topics per log,
   filter: F_ADDR 0 any, 1 W0, 2 W0 or W1, F_FROM/F_TO: block numbers, F_HASH: wanted block hash, F_T0/F_T1: wanted topics (0: any, 1: W0, 2: W0 or W1) */
#ifndef TOP
#define TOP 0
#endif
#ifndef F_ADDR
#define F_ADDR 0
#endif
#ifndef F_HASH
#define F_HASH 0
#endif
#ifndef F_T0
#define F_T0 0
#endif
#ifndef F_T1
#define F_T1 0
#endif
static verify_ctx_t ctx;
static uint8_t PROOF[8], DATA[8], B0[8], B1[8], TXS0[8], TXS1[8], T00[8], T01[8], T10[8], T11[8], P00[8], P01[8], P10[8], P11[8], L0[8], L1[8], TP0[8], TP1[8];
static uint8_t* const B[2]   = {B0, B1};
static uint8_t* const TXS[2] = {TXS0, TXS1};
static uint8_t* const TX[4]  = {T00, T01, T10, T11};
static uint8_t* const TPR[4] = {P00, P01, P10, P11};
static uint8_t* const L[2]   = {L0, L1};
static uint8_t* const TP[2]  = {TP0, TP1};
static uint8_t * BN[2], *BH[2], *MP[2], *HEAD[2];       /* blocks */
static uint8_t * IDX[4], *RAW[4], *RC[4];               /* transactions, i * 2 + j */
static uint8_t * l_bn[2], *l_bh[2], *l_ix[2], *l_ad[2], *l_to[2];
static chunk     r_rcpt[4], r_raw[4], r_body[2];
static bool      rc_ok[4], merkle_ok[2], hdr_ok[2], log_ok[8];
static bool      rc_done[4], merkle_done[2], hdr_done[2], log_done[8];
static char      method[] = METHOD;
static char      args[]   = ARGS;
static const uint8_t W0[32] = {1, 8, 15, 22, 29, 36, 43, 50, 57, 64, 71, 78, 85, 92, 99, 106, 113, 120, 127, 134, 141, 148, 155, 162, 169, 176, 183, 190, 197, 204, 211, 218};
static const uint8_t W1[32] = {2, 9, 15, 22, 29, 36, 43, 50, 57, 64, 71, 78, 85, 92, 99, 106, 113, 120, 127, 134, 141, 148, 155, 162, 169, 176, 183, 190, 197, 204, 211, 219};
ssz_ob_t ssz_get(ssz_ob_t* ob, const char* n) {
  for (int i = 0; i < NB; i++) {
    if (ob->bytes.data == B[i]) {
      if (is(n, "blockNumber")) return OB(&D_U64, BN[i], 8);
      if (is(n, "blockHash")) return OB(&D_B32, BH[i], 32);
      if (is(n, "proof")) return OB(&D_L, MP[i], 8);
      if (is(n, "header")) return OB(&D_C, HEAD[i], 112);
      if (is(n, "txs")) return OB(&D_L, TXS[i], 8);
    }
    if (ob->bytes.data == HEAD[i] && is(n, "bodyRoot")) return OB(&D_B32, HEAD[i] + 80, 32);
    for (int j = 0; j < NT; j++)
      if (ob->bytes.data == TX[i * 2 + j]) {
        if (is(n, "transaction")) return OB(&D_TX, RAW[i * 2 + j], 4);
        if (is(n, "transactionIndex")) return OB(&D_U32, IDX[i * 2 + j], 4);
        if (is(n, "proof")) return OB(&D_L, TPR[i * 2 + j], 8);
      }
  }
  for (int i = 0; i < NLOG; i++)
    if (ob->bytes.data == L[i]) {
      if (is(n, "blockNumber")) return OB(&D_U64, l_bn[i], 8);
      if (is(n, "blockHash")) return OB(&D_B32, l_bh[i], 32);
      if (is(n, "transactionIndex")) return OB(&D_U32, l_ix[i], 4);
      if (is(n, "address")) return OB(&D_ADR, l_ad[i], 20);
      if (is(n, "topics")) return OB(&D_L, TP[i], 8);
    }
  return (ssz_ob_t) {0};
}
uint32_t ssz_len(ssz_ob_t ob) {
  if (ob.bytes.data == PROOF) return NB;
  if (ob.bytes.data == DATA) return NLOG;
  for (int i = 0; i < NB; i++)
    if (ob.bytes.data == TXS[i]) return NT;
  for (int i = 0; i < NLOG; i++)
    if (ob.bytes.data == TP[i]) return TOP;
  return 0;
}
ssz_ob_t ssz_at(ssz_ob_t ob, uint32_t k) {
  if (ob.bytes.data == PROOF && k < NB) return OB(&D_C, B[k], 8);
  if (ob.bytes.data == DATA && k < NLOG) return OB(&D_C, L[k], 8);
  for (int i = 0; i < NB; i++)
    if (ob.bytes.data == TXS[i] && k < NT) return OB(&D_C, TX[i * 2 + k], 8);
  for (int i = 0; i < NLOG; i++)
    if (ob.bytes.data == TP[i] && k < TOP) return OB(&D_B32, l_to[i] + 32 * k, 32);
  return (ssz_ob_t) {0};
}
ssz_ob_t ssz_from_json(json_t json, const ssz_def_t* def, c4_state_t* state) {
  vf_assert(json.start == args && def == eth_ssz_verification_type(ETH_SSZ_DATA_LOGS), "the logs of the request are verified");
  return OB(def, DATA, 8);
}
bool c4_tx_verify_receipt_proof(verify_ctx_t* c, ssz_ob_t proof, uint32_t idx, bytes32_t root, bytes_t* rc) {
  for (int t = 0; t < 4; t++)
    if (proof.bytes.data == TPR[t]) {
      vf_assert(idx == (uint32_t) lev(IDX[t], 4), "the receipt is the one of the transaction");
      put(root, r_rcpt[t]);
      *rc        = bytes(RC[t], 4);
      rc_done[t] = true;
      if (!rc_ok[t]) c4_state_add_error(&c->state, "e");
      return rc_ok[t];
    }
  vf_assert(false, "the receipt proofs are checked");
  return false;
}
void ssz_hash_tree_root(ssz_ob_t ob, uint8_t* out) {
  for (int t = 0; t < 4; t++)
    if (ob.bytes.data == RAW[t] && ob.def->type == SSZ_TYPE_LIST && ob.def->def.vector.len == 1073741824) {
      put(out, r_raw[t]);
      return;
    }
  vf_assert(false, "the root of the transaction is used");
}
bool ssz_verify_multi_merkle_proof(bytes_t proof, bytes_t l, gindex_t* g, bytes32_t out) {
  for (int i = 0; i < NB; i++)
    if (proof.data == MP[i]) {
      bool ok = l.len == (3 + NT) * 32 && leaf(l, g, 3 + NT, 806, BN[i], 8) && leaf(l, g, 3 + NT, 812, BH[i], 32);
      for (int j = 0; j < NT; j++) {
        uint32_t idx = (uint32_t) lev(IDX[i * 2 + j], 4);
        ok           = ok && leaf(l, g, 3 + NT, 803, r_rcpt[i * 2 + j], 32) && leaf(l, g, 3 + NT, FIRST_TX + idx, r_raw[i * 2 + j], 32) && idx < TX_LIMIT;
      }
      vf_assert(ok, "the proof is checked for the leafs of the block");
      put(out, r_body[i]);
      merkle_done[i] = true;
      return merkle_ok[i];
    }
  vf_assert(false, "the proofs of the blocks are checked");
  return false;
}
c4_status_t c4_verify_header(verify_ctx_t* c, ssz_ob_t header, ssz_ob_t bp) {
  for (int i = 0; i < NB; i++)
    if (header.bytes.data == HEAD[i]) {
      vf_assert(header.bytes.len == 112 && bp.bytes.data == B[i], "the header of the block is verified");
      hdr_done[i] = true;
      if (!hdr_ok[i]) c4_state_add_error(&c->state, "header");
      return hdr_ok[i] ? C4_SUCCESS : C4_ERROR;
    }
  vf_assert(false, "the headers of the blocks are verified");
  return C4_ERROR;
}
bool c4_tx_verify_log_data(verify_ctx_t* c, ssz_ob_t log, bytes32_t block_hash, uint64_t nr, uint32_t idx, bytes_t tx, bytes_t rc) {
  for (int k = 0; k < NLOG; k++)
    for (int t = 0; t < 4; t++)
      if (log.bytes.data == L[k] && tx.data == RAW[t]) {
        vf_assert(eq(block_hash, BH[t / 2], 32) && nr == lev(BN[t / 2], 8) && idx == (uint32_t) lev(IDX[t], 4) && rc.data == RC[t], "the log is compared with the receipt of the transaction");
        log_done[k * 4 + t] = true;
        if (!log_ok[k * 4 + t]) c4_state_add_error(&c->state, "e");
        return log_ok[k * 4 + t];
      }
  vf_assert(false, "the logs are compared with the receipts");
  return false;
}
static bool wanted_topic(int f, const uint8_t* t) { return f == 0 || eq(t, W0, 32) || (f == 2 && eq(t, W1, 32)); }
static bool asked(int k) {
  bool r = !F_ADDR || eq(l_ad[k], W0, 20) || (F_ADDR == 2 && eq(l_ad[k], W1, 20));
#ifdef F_FROM
  r = r && lev(l_bn[k], 8) >= F_FROM;
#endif
#ifdef F_TO
  r = r && lev(l_bn[k], 8) <= F_TO;
#endif
  r = r && (!F_HASH || eq(l_bh[k], W0, 32));
  r = r && (F_T0 == 0 || (TOP > 0 && wanted_topic(F_T0, l_to[k]))) && (F_T1 == 0 || (TOP > 1 && wanted_topic(F_T1, l_to[k] + 32)));
  return r;
}
void h_logs(void) {
  for (int i = 0; i < NB; i++) {
    BN[i] = nd_block(8); BH[i] = nd_block(32); MP[i] = nd_block(8); HEAD[i] = nd_block(112);
    nd_chunk(HEAD[i] + 80); nd_chunk(r_body[i]);
    merkle_ok[i] = nd_bool(); hdr_ok[i] = nd_bool();
    for (int j = 0; j < NT; j++) {
      int t  = i * 2 + j;
      IDX[t] = nd_block(4); RAW[t] = nd_block(4); RC[t] = nd_block(4);
      nd_chunk(r_rcpt[t]); nd_chunk(r_raw[t]);
      rc_ok[t] = nd_bool();
    }
  }
  for (int k = 0; k < NLOG; k++) {
    l_bn[k] = nd_block(8); l_bh[k] = nd_block(32); l_ix[k] = nd_block(4); l_ad[k] = nd_block(20); l_to[k] = nd_block(32 * TOP);
    for (int t = 0; t < 4; t++) log_ok[k * 4 + t] = nd_bool();
  }
  ctx.chain_id = C4_CHAIN_MAINNET;
  ctx.method   = method;
  ctx.args     = json_parse(args);
  ctx.proof    = OB(&D_L, PROOF, 8);
#ifdef NODATA
  ctx.data = OB(&D_NON, NULL, 0);
#else
  ctx.data = OB(eth_ssz_verification_type(ETH_SSZ_DATA_LOGS), DATA, 8);
#endif
  bool r  = verify_logs_proof(&ctx);
  bool ok = true;
  for (int i = 0; i < NB; i++) {
    ok = ok && merkle_ok[i] && hdr_ok[i] && eq(r_body[i], HEAD[i] + 80, 32);
    for (int j = 0; j < NT; j++) ok = ok && rc_ok[i * 2 + j] && eq(r_rcpt[i * 2], r_rcpt[i * 2 + j], 32) && lev(IDX[i * 2 + j], 4) < TX_LIMIT;
  }
  /* every log of a proven transaction has to be part of it, every log needs a transaction */
  for (int k = 0; k < NLOG; k++) {
    bool found = false;
    for (int i = 0; i < NB; i++)
      for (int j = 0; j < NT; j++)
        if (eq(l_bn[k], BN[i], 8) && eq(l_ix[k], IDX[i * 2 + j], 4)) {
          found = true;
          ok    = ok && log_ok[k * 4 + i * 2 + j];
        }
    ok = ok && found && asked(k);
  }
#ifdef NODATA
  ok = ok && !is(method, "eth_getLogs");
#endif
#ifdef DUP
  ok = ok && !eq(BN[0], BN[1], 8);
#endif
  if (r) {
    vf_assert(ctx.success && !ctx.state.error, "success is reported consistently");
    vf_assert(ctx.data.bytes.data == DATA && ctx.data.def == eth_ssz_verification_type(ETH_SSZ_DATA_LOGS), "the logs are the result");
    for (int k = 0; k < NLOG; k++) {
      bool proven = false;
      for (int i = 0; i < NB; i++)
        for (int j = 0; j < NT; j++) {
          int t  = i * 2 + j;
          proven = proven || (log_done[k * 4 + t] && log_ok[k * 4 + t] && rc_done[t] && rc_ok[t] && merkle_done[i] && merkle_ok[i] && eq(r_body[i], HEAD[i] + 80, 32) && hdr_done[i] && hdr_ok[i]);
        }
      vf_assert(proven, "every log is proven by a receipt of a verified block");
      vf_assert(asked(k), "every log is asked for");
    }
    REACH("proven");
  }
  else {
    vf_assert(!ok, "a valid proof is accepted");
    vf_assert(!ctx.success && ctx.state.error, "an error is reported");
    REACH("rejected");
  }
}
