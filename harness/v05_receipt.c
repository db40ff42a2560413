/* receipt proofs: the receipt is the proven one of the requested transaction in the verified block */
#include "vf_tx.h"
static verify_ctx_t ctx;
static chunk        h_raw, r_raw, r_body, r_rcpt;
static uint8_t *    RAW, *MP, *IDX, *HEAD, *BH, *BN;
static uint8_t      PROOF[8], P_RCPT[8], DATA[8];

#ifdef PROOFS
/* ARGS: the request, WANTED: it has a hash, RP: result of the receipt proof */
#define RAWLEN 40
#define RCLEN 30
static uint8_t* RC;
static bool     merkle_ok, hdr_ok, data_ok, merkle_done, hdr_done, data_done, rcpt_done;
static char     method[] = METHOD;
static char     args[]   = ARGS;
static const uint8_t WHASH[32] = {1, 8, 15, 22, 29, 36, 43, 50, 57, 64, 71, 78, 85, 92, 99, 106, 113, 120, 127, 134, 141, 148, 155, 162, 169, 176, 183, 190, 197, 204, 211, 218};
ssz_ob_t ssz_get(ssz_ob_t* ob, const char* n) {
  if (ob->bytes.data == PROOF) {
    if (is(n, "transaction")) return OB(&D_TX, RAW, RAWLEN);
    if (is(n, "receipt_proof")) return OB(&D_L, P_RCPT, 8);
    if (is(n, "block_proof")) return OB(&D_L, MP, 8);
    if (is(n, "transactionIndex")) return OB(&D_U32, IDX, 4);
    if (is(n, "header")) return OB(&D_C, HEAD, 112);
    if (is(n, "blockHash")) return OB(&D_B32, BH, 32);
    if (is(n, "blockNumber")) return OB(&D_U64, BN, 8);
  }
  else if (ob->bytes.data == HEAD && is(n, "bodyRoot")) return OB(&D_B32, HEAD + 80, 32);
  return (ssz_ob_t) {0};
}
void keccak(bytes_t d, uint8_t* out) {
  vf_assert(d.data == RAW && d.len == RAWLEN, "the hash of the transaction is used");
  put(out, h_raw);
}
void ssz_hash_tree_root(ssz_ob_t ob, uint8_t* out) {
  vf_assert(ob.bytes.data == RAW && ob.bytes.len == RAWLEN && ob.def->type == SSZ_TYPE_LIST && ob.def->def.vector.len == 1073741824, "the root of the transaction is used");
  put(out, r_raw);
}
patricia_result_t patricia_verify(bytes32_t root, bytes_t path, ssz_ob_t proof, bytes_t* last) {
  uint32_t i = (uint32_t) lev(IDX, 4);
  vf_assert(proof.bytes.data == P_RCPT, "the receipt proof is checked");
  int n = i >> 24 ? 4 : i >> 16 ? 3 : i >> 8 ? 2 : 1;
  if (i < 128) vf_assert(path.len == 1 && path.data[0] == (i ? i : 0x80), "the receipt is the one of the transaction");
  else {
    vf_assert(path.len == 1 + n && path.data[0] == 0x80 + n, "the receipt is the one of the transaction");
    for (int k = 0; k < 4; k++)
      if (k < n) vf_assert(path.data[1 + k] == (uint8_t) (i >> 8 * (n - 1 - k)), "the receipt is the one of the transaction");
  }
  put(root, r_rcpt);
  if (last) *last = RP == PATRICIA_FOUND ? bytes(RC, RCLEN) : NULL_BYTES;
  rcpt_done = true;
  return RP;
}
bool ssz_verify_multi_merkle_proof(bytes_t proof, bytes_t l, gindex_t* g, bytes32_t out) {
  uint32_t idx = (uint32_t) lev(IDX, 4);
  bool     ok  = proof.data == MP && proof.len == 8 && l.len == 128 && leaf(l, g, 4, 806, BN, 8) && leaf(l, g, 4, 812, BH, 32) && leaf(l, g, 4, 803, r_rcpt, 32) && leaf(l, g, 4, FIRST_TX + idx, r_raw, 32) && idx < TX_LIMIT;
  vf_assert(ok && rcpt_done, "the proof is checked for the leafs of the block");
  put(out, r_body);
  merkle_done = true;
  return merkle_ok;
}
c4_status_t c4_verify_header(verify_ctx_t* c, ssz_ob_t header, ssz_ob_t bp) {
  vf_assert(c == &ctx && header.bytes.data == HEAD && header.bytes.len == 112 && bp.bytes.data == PROOF, "the header of the proof is verified");
  hdr_done = true;
  if (!hdr_ok) c4_state_add_error(&c->state, "header");
  return hdr_ok ? C4_SUCCESS : C4_ERROR;
}
bool c4_tx_verify_receipt_data(verify_ctx_t* c, ssz_ob_t d, bytes32_t block_hash, uint64_t nr, uint32_t idx, bytes_t tx, bytes_t rc) {
  vf_assert(d.bytes.data == DATA && tx.data == RAW && tx.len == RAWLEN && rc.data == RC && rc.len == RCLEN, "the result is compared with the proven receipt");
  vf_assert(eq(block_hash, BH, 32) && nr == lev(BN, 8) && idx == (uint32_t) lev(IDX, 4), "the result is compared with the values of the block");
  data_done = true;
  return data_ok;
}
void h_rcptproof(void) {
  RAW = nd_block(RAWLEN); MP = nd_block(8); IDX = nd_block(4); HEAD = nd_block(112); BH = nd_block(32); BN = nd_block(8); RC = nd_block(RCLEN);
#ifdef WIDX
  for (int i = 0; i < 4; i++) IDX[i] = (uint8_t) ((WIDX) >> 8 * i);
#endif
  nd_chunk(HEAD + 80);
  for (int i = 0; i < 32; i++) h_raw[i] = nd_u8();
  nd_chunk(r_raw); nd_chunk(r_body); nd_chunk(r_rcpt);
  merkle_ok = nd_bool(); hdr_ok = nd_bool(); data_ok = nd_bool();
  ctx.chain_id = C4_CHAIN_MAINNET;
  ctx.method   = method;
  ctx.args     = json_parse(args);
  ctx.proof    = OB(&D_C, PROOF, 8);
#ifdef NODATA
  ctx.data = OB(&D_NON, NULL, 0);
#else
  ctx.data = OB(eth_ssz_verification_type(ETH_SSZ_DATA_RECEIPT), DATA, 8);
#endif
  bool r       = verify_receipt_proof(&ctx);
  bool args_ok = WANTED && eq(h_raw, WHASH, 32);
  bool ok      = args_ok && merkle_ok && eq(r_body, HEAD + 80, 32) && hdr_ok && data_ok && lev(IDX, 4) < TX_LIMIT && RP == PATRICIA_FOUND;
#ifdef NODATA
  ok = false;
#endif
  if (r) {
    vf_assert(ctx.success && !ctx.state.error, "success is reported consistently");
    vf_assert(args_ok, "the receipt is the requested one");
    vf_assert(merkle_done && merkle_ok && eq(r_body, HEAD + 80, 32), "the receipt and transaction belong to the body of the header");
    vf_assert(hdr_done && hdr_ok, "the header is verified");
    vf_assert(rcpt_done && RP == PATRICIA_FOUND, "the receipt is proven");
    vf_assert(data_done && data_ok && ctx.data.bytes.data == DATA, "the result is the proven receipt");
    REACH("proven");
  }
  else {
    vf_assert(!ok, "a valid proof is accepted");
    vf_assert(!ctx.success && ctx.state.error, "an error is reported");
    REACH("rejected");
  }
}
#else
/* T: type, TOLEN/DTO: lengths of to in transaction and data, RCPT: template of the receipt, GAS, STATUS, BLOOM: places in it,
   NL: logs in the receipt, DL: logs in the data, per log: topics TN / DTN, data length LN / DLN, places LADR LTOP LDAT in the receipt */
static const uint16_t T_RC[] = RCPT_T, T_RAW[] = RAW_T;
#define RAWLEN (sizeof(T_RAW) / 2)
#define N_RC (sizeof(T_RC) / 2)
#define ML 3
#define MT 4
static const int TN[] = TN_T, DTN[] = DTN_T, LN[] = LN_T, DLN[] = DLN_T, LADR[] = LADR_T, LTOP[] = LTOP_T, LDAT[] = LDAT_T;
static uint8_t*  rc;
static uint8_t * d_bh, *d_bn, *d_th, *d_ix, *d_ty, *d_fr, *d_to, *d_cu, *d_bl, *d_st, *d_dn, *d_dv, *from;
static uint8_t   LOGS[8], L0[8], L1[8], L2[8], P0[8], P1[8], P2[8];
static uint8_t* const L[ML]  = {L0, L1, L2};
static uint8_t* const PT[ML] = {P0, P1, P2};
static uint8_t * l_bh[ML], *l_bn[ML], *l_th[ML], *l_ix[ML], *l_ad[ML], *l_da[ML], *l_to[ML];
static bool      sender_ok;
ssz_ob_t ssz_get(ssz_ob_t* ob, const char* n) {
  if (ob->bytes.data == DATA) {
    if (is(n, "blockHash")) return OB(&D_B32, d_bh, 32);
    if (is(n, "blockNumber")) return OB(&D_U64, d_bn, 8);
    if (is(n, "transactionHash")) return OB(&D_B32, d_th, 32);
    if (is(n, "transactionIndex")) return OB(&D_U32, d_ix, 4);
    if (is(n, "type")) return OB(&D_U8, d_ty, 1);
    if (is(n, "from")) return OB(&D_ADR, d_fr, 20);
    if (is(n, "to")) return OB(&D_TX, d_to, DTO);
    if (is(n, "cumulativeGasUsed")) return OB(&D_U64, d_cu, 8);
    if (is(n, "logs")) return OB(&D_L, LOGS, 8);
    if (is(n, "logsBloom")) return OB(&D_TX, d_bl, 256);
    if (is(n, "status")) return OB(&D_U8, d_st, 1);
    if (is(n, "depositNonce")) return OB(&D_U64, d_dn, 8);
    if (is(n, "depositReceiptVersion")) return OB(&D_U32, d_dv, 4);
  }
  for (int i = 0; i < DL; i++)
    if (ob->bytes.data == L[i]) {
      if (is(n, "blockHash")) return OB(&D_B32, l_bh[i], 32);
      if (is(n, "blockNumber")) return OB(&D_U64, l_bn[i], 8);
      if (is(n, "transactionHash")) return OB(&D_B32, l_th[i], 32);
      if (is(n, "transactionIndex")) return OB(&D_U32, l_ix[i], 4);
      if (is(n, "address")) return OB(&D_ADR, l_ad[i], 20);
      if (is(n, "topics")) return OB(&D_L, PT[i], 8);
      if (is(n, "data")) return OB(&D_TX, l_da[i], DLN[i]);
    }
  return (ssz_ob_t) {0};
}
uint32_t ssz_len(ssz_ob_t ob) {
  if (ob.bytes.data == LOGS) return DL;
  for (int i = 0; i < DL; i++)
    if (ob.bytes.data == PT[i]) return DTN[i];
  return 0;
}
ssz_ob_t ssz_at(ssz_ob_t ob, uint32_t k) {
  if (ob.bytes.data == LOGS && k < DL) return OB(&D_C, L[k], 8);
  for (int i = 0; i < DL; i++)
    if (ob.bytes.data == PT[i] && k < (uint32_t) DTN[i]) return OB(&D_B32, l_to[i] + 32 * k, 32);
  return (ssz_ob_t) {0};
}
void keccak(bytes_t d, uint8_t* out) {
  vf_assert(d.data == RAW && d.len == RAWLEN, "the hash of the transaction is used");
  put(out, h_raw);
}
bool c4_tx_create_from_address(verify_ctx_t* c, bytes_t tx, uint8_t* address) {
  vf_assert(tx.data == RAW && tx.len == RAWLEN, "the sender of the transaction is used");
  for (int i = 0; i < 20; i++) address[i] = from[i];
  return sender_ok;
}
static uint64_t be(const uint8_t* p, int n) {
  uint64_t r = 0;
  for (int i = 0; i < n; i++) r = r << 8 | p[i];
  return r;
}
static void setup(void) {
  RAW = (uint8_t*) malloc(RAWLEN);
  for (uint32_t i = 0; i < RAWLEN; i++) RAW[i] = T_RAW[i] == 256 ? nd_u8() : (uint8_t) T_RAW[i];
  rc = (uint8_t*) malloc(N_RC);
  for (uint32_t i = 0; i < N_RC; i++) rc[i] = T_RC[i] == 256 ? nd_u8() : (uint8_t) T_RC[i];
  BH = nd_block(32); BN = nd_block(8); IDX = nd_block(4); from = nd_block(20);
  for (int i = 0; i < 32; i++) h_raw[i] = nd_u8();
  for (int i = 0; i < DL; i++) {
    l_bh[i] = nd_block(32); l_bn[i] = nd_block(8); l_th[i] = nd_block(32); l_ix[i] = nd_block(4); l_ad[i] = nd_block(20); l_da[i] = nd_block(DLN[i]); l_to[i] = nd_block(32 * DTN[i]);
  }
  sender_ok = nd_bool();
}
/* log d of the data is log r of the receipt */
static bool same_log(int d, int r) {
  return DTN[d] == TN[r] && DLN[d] == LN[r] && eq(l_ad[d], rc + LADR[r], 20) && eq(l_da[d], rc + LDAT[r], DLN[d]) && (TN[r] < 1 || eq(l_to[d], rc + LTOP[r] + 1, 32)) && (TN[r] < 2 || eq(l_to[d] + 32, rc + LTOP[r] + 34, 32)) && (TN[r] < 3 || eq(l_to[d] + 64, rc + LTOP[r] + 67, 32)) && (TN[r] < 4 || eq(l_to[d] + 96, rc + LTOP[r] + 100, 32));
}
static bool same_block(int d) {
  return eq(l_bh[d], BH, 32) && eq(l_bn[d], BN, 8) && eq(l_th[d], h_raw, 32) && eq(l_ix[d], IDX, 4);
}
void h_rcptdata(void) {
  setup();
  d_bh = nd_block(32); d_bn = nd_block(8); d_th = nd_block(32); d_ix = nd_block(4); d_ty = nd_block(1); d_fr = nd_block(20); d_to = nd_block(DTO); d_cu = nd_block(8); d_bl = nd_block(256); d_st = nd_block(1); d_dn = nd_block(8); d_dv = nd_block(4);
  bool r = c4_tx_verify_receipt_data(&ctx, OB(&D_C, DATA, 8), BH, lev(BN, 8), (uint32_t) lev(IDX, 4), bytes(RAW, RAWLEN), bytes(rc, N_RC));
  bool blk = eq(d_bh, BH, 32) && eq(d_bn, BN, 8) && eq(d_ix, IDX, 4) && eq(d_th, h_raw, 32);
  bool tx  = sender_ok && eq(d_fr, from, 20) && d_ty[0] == T && DTO == TOLEN && eq(d_to, RAW + TO, DTO);
  bool rcp = lev(d_st, 1) == be(rc + STATUS, STATUSLEN) && lev(d_cu, 8) == be(rc + GAS, GASLEN) && eq(d_bl, rc + BLOOM, 256);
#ifdef DEP
  rcp = rcp && lev(d_dn, 8) == be(rc + DEP, 2) && lev(d_dv, 4) == be(rc + DEP + 3, 1);
#endif
#ifdef WRONGTYPE
  bool logs = false;
#else
  bool logs = NL == DL;
#endif
  for (int i = 0; logs && i < DL; i++) logs = same_log(i, i) && same_block(i);
  if (r) {
    vf_assert(blk, "the block is the proven one");
    vf_assert(tx, "sender, target and type are those of the transaction");
    vf_assert(rcp, "status, gas and bloom are those of the receipt");
    vf_assert(logs, "the logs are those of the receipt");
    vf_assert(!ctx.state.error, "success is reported consistently");
    REACH("same");
  }
  else {
    vf_assert(!(blk && tx && rcp && logs), "the proven receipt is accepted");
    vf_assert(ctx.state.error, "an error is reported");
    REACH("different");
  }
}
void h_log(void) {
  setup();
  bool r = c4_tx_verify_log_data(&ctx, OB(&D_C, L0, 8), BH, lev(BN, 8), (uint32_t) lev(IDX, 4), bytes(RAW, RAWLEN), bytes(rc, N_RC));
  bool in = false;
  for (int i = 0; i < NL; i++) in = in || same_log(0, i);
  if (r) {
    vf_assert(in, "the log is one of the receipt");
    vf_assert(same_block(0), "the log is of the proven block and transaction");
    vf_assert(!ctx.state.error, "success is reported consistently");
    REACH("same");
  }
  else {
    vf_assert(!(in && same_block(0)), "a log of the receipt is accepted");
    vf_assert(ctx.state.error, "an error is reported");
    REACH("different");
  }
}
#endif
