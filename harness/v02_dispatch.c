/* a request is only reported as verified if the verifier of its method accepted a proof of the right type */
#include "beacon_types.h"
#include "chains.h"
#include "eth_verify.h"
#include "ssz.h"
#include "sync_committee.h"
#include "verify.h"
#include "vf.h"
#include "vf_err.h"
/* METHOD, PIDX: selector of its proof, DMASK: selectors of the data it may carry, VER: its verifier, LOCAL */
#ifndef LEN
#define LEN 8
#endif
enum { V_NONE, V_TX, V_RECEIPT, V_LOGS, V_ACCOUNT, V_CALL, V_SIM, V_BLOCK, V_NUMBER, V_LOCAL };
#define NPROOF 10
#define NDATA 10
#define NSYNC 3
static uint8_t*         req;
static const ssz_def_t *D_REQ, *D_DATA, *D_PROOF, *D_SYNC;
static int              pi, di, si;
static bool             valid, sync_ok, sync_pending, v_ok, v_err, v_pending, valid_called, sync_called;
static int              v_called, v_count;
static json_t           args;
static verify_ctx_t     ctx;
static uint64_t         chain;
static char             text[] = "[]";
static char             method[] = METHOD;
static bool is(const char* a, const char* b) {
  int i = 0;
  for (; a[i] && a[i] == b[i]; i++);
  return a[i] == b[i];
}
/* the fields of the request, chosen by their selectors (reading them is S01's) */
ssz_ob_t ssz_get(ssz_ob_t* ob, const char* n) {
  vf_assert(valid_called && valid, "only a well-formed request is read");
  if (ob->def == D_REQ && ob->bytes.data == req && ob->bytes.len == LEN) {
    if (is(n, "data")) return (ssz_ob_t) {.def = D_DATA + di, .bytes = bytes(req + 4, 1)};
    if (is(n, "proof")) return (ssz_ob_t) {.def = D_PROOF + pi, .bytes = bytes(req + 5, 1)};
    if (is(n, "sync_data")) return (ssz_ob_t) {.def = D_SYNC + si, .bytes = bytes(req + 6, 1)};
  }
  return (ssz_ob_t) {0};
}
bool ssz_is_valid(ssz_ob_t ob, bool recursive, c4_state_t* state) {
  if (ob.bytes.data == req && ob.bytes.len == LEN && ob.def == D_REQ && recursive && state == &ctx.state) {
    valid_called = true;
    if (!valid) c4_state_add_error(state, "invalid");
    return valid;
  }
  return nd_bool();
}
static data_request_t pending;
static void add_pending(void) {
  pending.next       = ctx.state.requests;
  ctx.state.requests = &pending;
}
bool c4_update_from_sync_data(verify_ctx_t* c) {
  vf_assert(c == &ctx && (LEN == 0 || c->sync_data.def == D_SYNC + si), "the sync data of the request are used");
  sync_called = true;
  if (sync_pending) add_pending();
  else if (!sync_ok) c4_state_add_error(&c->state, "sync");
  return sync_ok && !sync_pending;
}
static bool called(verify_ctx_t* c, int v) {
  vf_assert(c == &ctx && c->chain_id == chain && c->args.start == args.start && c->method == method, "the verifier sees the request of the caller");
  vf_assert(sync_called, "the sync data are handled first");
  v_called = v;
  v_count++;
  if (v_ok) { c->success = true; return true; }
  if (v_pending) add_pending();
  else if (v_err) c4_state_add_error(&c->state, "no");
  return false;
}
bool verify_tx_proof(verify_ctx_t* c) { return called(c, V_TX); }
bool verify_receipt_proof(verify_ctx_t* c) { return called(c, V_RECEIPT); }
bool verify_logs_proof(verify_ctx_t* c) { return called(c, V_LOGS); }
bool verify_account_proof(verify_ctx_t* c) { return called(c, V_ACCOUNT); }
bool verify_call_proof(verify_ctx_t* c) { return called(c, V_CALL); }
bool verify_simulate_proof(verify_ctx_t* c) { return called(c, V_SIM); }
bool verify_block_proof(verify_ctx_t* c) { return called(c, V_BLOCK); }
bool verify_block_number_proof(verify_ctx_t* c) { return called(c, V_NUMBER); }
bool verify_eth_local(verify_ctx_t* c) { return called(c, V_LOCAL); }

#ifdef INVALID
bool c4_eth_verify(verify_ctx_t* c) {
  vf_assert(false, "a malformed request or one for another chain type is not verified");
  return false;
}
#endif
static void one(void);
void h_verify(void) {
  static const uint64_t CH[] = {1, 11155111, 100, 10200, 2, 10, CHAIN_ID(C4_CHAIN_TYPE_SOLANA, 1), CHAIN_ID(C4_CHAIN_TYPE_BITCOIN, 1)};
  chain   = CH[CIDX];
  D_REQ   = eth_ssz_verification_type(ETH_SSZ_VERIFY_REQUEST);
  D_DATA  = D_REQ->def.container.elements[1].def.container.elements;
  D_PROOF = D_REQ->def.container.elements[2].def.container.elements;
  D_SYNC  = D_REQ->def.container.elements[3].def.container.elements;
  vf_assert(is(D_REQ->def.container.elements[1].name, "data") && is(D_REQ->def.container.elements[2].name, "proof") && is(D_REQ->def.container.elements[3].name, "sync_data"), "layout of the request");
  req = nd_block(LEN);
  #ifdef INVALID
  valid = nd_bool();
  assume(LEN && !(valid && req[0] == C4_CHAIN_TYPE_ETHEREUM));
#else
  valid = true;
  if (LEN) req[0] = C4_CHAIN_TYPE_ETHEREUM;
#endif
  sync_ok = nd_bool(); sync_pending = nd_bool(); v_ok = nd_bool(); v_err = nd_bool(); v_pending = nd_bool();
  args = (json_t) {.type = JSON_TYPE_ARRAY, .start = text, .len = 2};
  for (pi = 0; pi < (LEN ? NPROOF : 1); pi++)
    for (di = 0; di < (LEN ? NDATA : 1); di++) {
      si = (pi + di) % NSYNC;
      one();
    }
}
static void one(void) {
  valid_called = sync_called = false;
  v_called = v_count = 0;
  pending  = (data_request_t) {0};
#ifdef SECOND
  ctx.success = true; /* a context which was used before */
#endif
  c4_status_t r = c4_verify_from_bytes(&ctx, bytes(req, LEN), method, args, chain);
  bool type_ok  = LEN == 0 ? LOCAL : (req[0] == C4_CHAIN_TYPE_ETHEREUM && valid);
  bool known    = CIDX < 4;
  bool fits     = LEN == 0 ? LOCAL : (pi == 0 ? LOCAL : (pi == PIDX && (DMASK >> di & 1)));
  bool ok       = known && type_ok && fits && sync_ok && !sync_pending && v_ok;
  if (r == C4_SUCCESS) {
    vf_assert(known, "only requests of supported chains are verified");
    vf_assert(type_ok, "only a well-formed request for the chain type is verified");
    vf_assert(fits, "the proof and its data are those of the requested method");
    vf_assert(sync_ok && !sync_pending, "nothing is verified without a valid sync state");
    vf_assert(v_count == 1 && v_called == VER && v_ok, "the verifier of the method accepted");
    vf_assert(ctx.success && !ctx.state.error, "success is reported consistently");
    REACH("verified");
  }
  else {
    vf_assert(!ok, "a request which was verified is reported as success");
    vf_assert(r == C4_ERROR ? ctx.state.error != NULL : (r == C4_PENDING && ctx.state.requests == &pending && !ctx.state.error), "otherwise an error or pending requests are reported");
    if (known && type_ok && fits && sync_pending) vf_assert(r == C4_PENDING, "pending sync data is reported");
    if (known && type_ok && fits && sync_ok && !sync_pending && !v_ok && v_pending) vf_assert(r == C4_PENDING, "pending requests are reported");
    REACH("not verified");
  }
}
