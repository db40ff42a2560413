/* light client sync data: a committee is stored only after every check of the update it comes from */
#include "beacon_types.h"
#include "eth_verify.h"
#include "ssz.h"
#include "sync_committee.h"
#include "vf.h"
#include "vf_err.h"
#ifndef CHN
#define CHN C4_CHAIN_MAINNET
#endif
#ifndef NU
#define NU 1
#endif
#ifndef BOOT
#define BOOT 0
#endif
typedef uint8_t chunk[32];
/* the field names and the order of a LightClientUpdate, with smaller committees and branches */
static const ssz_def_t D_LCH[]  = {SSZ_CONTAINER("beacon", BEACON_BLOCK_HEADER)};
static const ssz_def_t D_SC[]   = {SSZ_BYTE_VECTOR("pubkeys", 16), SSZ_BYTE_VECTOR("aggregatePubkey", 4)};
static const ssz_def_t D_SA[]   = {SSZ_BYTE_VECTOR("syncCommitteeBits", 8), SSZ_BYTE_VECTOR("syncCommitteeSignature", 8)};
static const ssz_def_t D_U[]    = {SSZ_CONTAINER("attestedHeader", D_LCH), SSZ_CONTAINER("nextSyncCommittee", D_SC), SSZ_BYTE_VECTOR("nextSyncCommitteeBranch", 8),
                                   SSZ_CONTAINER("finalizedHeader", D_LCH), SSZ_BYTE_VECTOR("finalityBranch", 8), SSZ_CONTAINER("syncAggregate", D_SA), SSZ_UINT64("signatureSlot")};
#define U_LEN 284
#define O_ATT 0
#define O_COM 112
#define O_CBR 132
#define O_FIN 140
#define O_FBR 252
#define O_BIT 260
#define O_SIG 268
static const ssz_def_t D_UU[]   = {SSZ_CONTAINER("DenepUpdate", D_U), SSZ_CONTAINER("ElectraUpdate", D_U)};
static const ssz_def_t D_UPD    = SSZ_UNION("updates", D_UU);
static const ssz_def_t D_BS[]   = {SSZ_BYTE_VECTOR("x", 4)};
static const ssz_def_t D_BU[]   = {SSZ_NONE, SSZ_CONTAINER("DenepBootstrap", D_BS)};
static const ssz_def_t D_LC[]   = {SSZ_UNION("bootstrap", D_BU), SSZ_LIST("update", D_UPD, 1024)};
static const ssz_def_t D_SYNC   = SSZ_CONTAINER("LCSyncData", D_LC);
static uint8_t*        U[2];       /* the updates */
static chunk           r_com[2], r_fin[2], m_com[2], m_fin[2], prev[2];
static uint64_t        slot[2], g_com[2], g_fin[2];
static uint32_t        period[2];
static bool            sig_ok[2], com_ok[2], fin_ok[2], set_res[2], m_com_ok[2], m_fin_ok[2];
static bool            sig_called[2], stored[2];
static int             n_other, st_status, boot_res, n_boot;
static bool            boot_ok = true;
static chunk           checkpoint;
static uint8_t*        boot_data;
static bool            eq(const uint8_t* a, const uint8_t* b) {
  bool r = true;
  for (int i = 0; i < 32; i++) r &= a[i] == b[i];
  return r;
}
static void nd_chunk(uint8_t* c) {
  for (int i = 0; i < 32; i++) c[i] = i < 4 ? nd_u8() : 0;
}
c4_status_t c4_verify_blockroot_signature(verify_ctx_t* ctx, ssz_ob_t* header, ssz_ob_t* bits, ssz_ob_t* sig, uint64_t s, bytes32_t pubkey_hash) {
  int i = NU > 1 && header->bytes.data == U[1] + O_ATT;
  bool exact = header->bytes.data == U[i] + O_ATT && header->bytes.len == 112 && bits->bytes.data == U[i] + O_BIT && sig->bytes.data == U[i] + O_SIG &&
               (s == slot[i] || s == 0) && ctx->chain_id == CHN;
  bool r = exact ? sig_ok[i] : nd_bool();
  if (exact) {
    sig_called[i] = true;
    if (pubkey_hash) memcpy(pubkey_hash, prev[i], 32);
  }
  if (r) return C4_SUCCESS;
  ctx->state.error = "x";
  return C4_ERROR;
}
void ssz_hash_tree_root(ssz_ob_t ob, uint8_t* out) {
  for (int i = 0; i < NU; i++) {
    if (ob.bytes.data == U[i] + O_COM && ob.bytes.len == 20) { memcpy(out, r_com[i], 32); return; }
    if (ob.bytes.data == U[i] + O_FIN && ob.bytes.len == 112) { memcpy(out, r_fin[i], 32); return; }
  }
  chunk c;
  nd_chunk(c);
  memcpy(out, c, 32);
}
void ssz_verify_single_merkle_proof(bytes_t proof, bytes32_t leaf, gindex_t g, bytes32_t out) {
  for (int i = 0; i < NU; i++) {
    if (proof.data == U[i] + O_CBR && proof.len == 8 && g == g_com[i] && eq(leaf, r_com[i])) { memcpy(out, m_com[i], 32); com_ok[i] = true; return; }
    if (proof.data == U[i] + O_FBR && proof.len == 8 && g == g_fin[i] && eq(leaf, r_fin[i])) { memcpy(out, m_fin[i], 32); fin_ok[i] = true; return; }
  }
  chunk c;
  nd_chunk(c);
  memcpy(out, c, 32);
}
bool c4_set_sync_period(uint32_t p, bytes_t v, chain_id_t c, bytes32_t ph) {
  int  i     = NU > 1 && v.data == U[1] + O_COM;
  bool exact = v.data == U[i] + O_COM && v.len == 16 && p == period[i] && c == CHN && eq(ph, prev[i]) && !stored[i];
  vf_assert(exact, "the stored keys, their period and the hash of the previous keys are those of the update");
  vf_assert(sig_called[i] && sig_ok[i], "a committee is stored only if the committee before signed the header it comes from");
  vf_assert(com_ok[i] && m_com_ok[i], "a committee is stored only if it is the next committee in the signed state");
  vf_assert(fin_ok[i] && m_fin_ok[i], "a committee is stored only if the finalized header is part of the signed state");
  vf_assert(i == 0 || stored[0], "updates are applied in order");
  vf_assert(boot_ok, "nothing is stored after refused bootstrap data");
  stored[i] = true;
  return set_res[i];
}
c4_chain_state_t c4_get_chain_state(chain_id_t c) {
  c4_chain_state_t s; /* no initialiser: cbmc 6.11 loses later writes to a union it has seen as a constant */
  s.status = (c4_state_sync_type_t) st_status;
  memcpy(s.data.checkpoint, checkpoint, 32);
  return s;
}
c4_status_t c4_handle_bootstrap(verify_ctx_t* ctx, bytes_t data, bytes32_t cp) {
  vf_assert(st_status == C4_STATE_SYNC_CHECKPOINT, "bootstrap data is used only for a checkpoint");
  vf_assert(BOOT && data.data == boot_data && data.len == 4 && eq(cp, checkpoint), "bootstrap data is checked against the trusted checkpoint");
  n_boot++;
  if (boot_res) boot_ok = false;
  if (boot_res == 1) ctx->state.error = "x";
  return boot_res == 0 ? C4_SUCCESS : (boot_res == 1 ? C4_ERROR : C4_PENDING);
}
static const struct { uint64_t id; int spe, epp; uint64_t electra; } REF[] = {
    {CHAIN_ID(C4_CHAIN_TYPE_ETHEREUM, 1), 5, 8, 364032}, {CHAIN_ID(C4_CHAIN_TYPE_ETHEREUM, 11155111), 5, 8, 222464},
    {CHAIN_ID(C4_CHAIN_TYPE_ETHEREUM, 100), 4, 9, 1337856}, {CHAIN_ID(C4_CHAIN_TYPE_ETHEREUM, 10200), 4, 9, 948224}};
static const uint64_t DENEB[] = {269568, 132608, 889856, 516608};
void h_update(void) {
  int ch = 0;
  while (REF[ch].id != CHN) ch++;
  uint32_t bl  = BOOT ? 5 : 1;
  uint32_t len = 8 + bl + NU * 4 + NU * (U_LEN + 1);
  uint8_t* d   = (uint8_t*) malloc(len);
  for (uint32_t i = 0; i < len; i++) d[i] = 0;
  d[0]      = 8;
  d[4]      = (uint8_t) (8 + bl);
  d[8]      = BOOT;
  boot_data = d + 9;
  uint8_t* l = d + 8 + bl;
  for (int i = 0; i < NU; i++) {
    uint32_t o   = NU * 4 + i * (U_LEN + 1);
    l[4 * i]     = (uint8_t) o;
    l[4 * i + 1] = (uint8_t) (o >> 8);
    l[o]         = i & 1;
    U[i]         = l + o + 1;
    slot[i]      = nd_u64();
    assume((slot[i] >> (REF[ch].spe + REF[ch].epp)) < 0xfffffffe); /* periods have 32 bits */
    assume((slot[i] >> REF[ch].spe) >= DENEB[ch]);
    for (int k = 0; k < 8; k++) U[i][k] = (uint8_t) (slot[i] >> (8 * k));
    nd_fill(U[i] + O_ATT + 48, 4); /* state root */
    nd_fill(U[i] + O_COM, 4);
    nd_fill(U[i] + O_FIN, 2);
    nd_chunk(r_com[i]); nd_chunk(r_fin[i]); nd_chunk(m_com[i]); nd_chunk(m_fin[i]); nd_chunk(prev[i]);
    sig_ok[i] = nd_bool(); set_res[i] = nd_bool();
    bool el     = (slot[i] >> REF[ch].spe) >= REF[ch].electra;
    g_com[i]    = el ? 87 : 55;
    g_fin[i]    = el ? 169 : 105;
    period[i]   = (uint32_t) (slot[i] >> (REF[ch].spe + REF[ch].epp)) + 1;
    m_com_ok[i] = eq(m_com[i], U[i] + O_ATT + 48);
    m_fin_ok[i] = eq(m_fin[i], U[i] + O_ATT + 48);
  }
  nd_chunk(checkpoint);
  st_status = nd_u8() % 3;
  boot_res  = nd_u8() % 3;
  verify_ctx_t ctx = {0};
  ctx.chain_id  = CHN;
  ctx.sync_data = (ssz_ob_t) {.def = &D_SYNC, .bytes = bytes(d, len)};
  bool ok = c4_update_from_sync_data(&ctx);
  bool all = !BOOT || st_status == C4_STATE_SYNC_PERIODS || (st_status == C4_STATE_SYNC_CHECKPOINT && boot_res == 0);
  for (int i = 0; i < NU; i++) all = all && sig_ok[i] && m_com_ok[i] && m_fin_ok[i] && set_res[i];
  vf_assert(ok == all, "the sync data is accepted exactly if every step is valid");
  if (ok) {
    REACH("accepted");
    for (int i = 0; i < NU; i++) vf_assert(stored[i], "every update is stored");
    vf_assert(n_boot == (BOOT && st_status == C4_STATE_SYNC_CHECKPOINT), "bootstrap data is applied");
    vf_assert(ctx.sync_data.def->type == SSZ_TYPE_NONE, "the sync data is applied once");
  }
  else {
    REACH("rejected");
  }
}
