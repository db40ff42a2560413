/* bootstrap: the first committee is taken only from the trusted checkpoint's state */
#include "beacon_types.h"
#include "eth_verify.h"
#include "ssz.h"
#include "sync_committee.h"
#include "vf.h"
#include "vf_err.h"
#ifndef CHN
#define CHN C4_CHAIN_MAINNET
#endif
#ifndef EL
#define EL 1
#endif
#define BR (EL ? 192 : 160)
#define SCLEN (513 * 48)
/* the sizes are the real ones, the committee and the branch themselves are never looked at here and share a few bytes */
#define O_H 24
#define O_COM 4
#define O_BR 12
#define LEN (O_H + 112 + 8)
extern const ssz_def_t DENEP_LIGHT_CLIENT_BOOTSTRAP[3];
extern const ssz_def_t ELECTRA_LIGHT_CLIENT_BOOTSTRAP[3];
typedef uint8_t chunk[32];
static uint8_t* D;
static chunk    r_head, r_com, m_com, cp;
static bool     valid, fork_el, set_res, head_done, com_done, br_done, stored;
static uint64_t slot;
static int      ch;
static const struct { uint64_t id; int spe, epp; uint64_t deneb, electra; } REF[] = {
    {CHAIN_ID(C4_CHAIN_TYPE_ETHEREUM, 1), 5, 8, 269568, 364032}, {CHAIN_ID(C4_CHAIN_TYPE_ETHEREUM, 11155111), 5, 8, 132608, 222464},
    {CHAIN_ID(C4_CHAIN_TYPE_ETHEREUM, 100), 4, 9, 889856, 1337856}, {CHAIN_ID(C4_CHAIN_TYPE_ETHEREUM, 10200), 4, 9, 516608, 948224}};
static bool eq(const uint8_t* a, const uint8_t* b) {
  bool r = true;
  for (int i = 0; i < 32; i++) r &= a[i] == b[i];
  return r;
}
static void nd_chunk(uint8_t* c) {
  for (int i = 0; i < 32; i++) c[i] = i < 4 ? nd_u8() : 0;
}
static void put(uint8_t* o, const uint8_t* c) {
  for (int i = 0; i < 32; i++) o[i] = c[i];
}
/* field access is S01's */
static bool is(const char* a, const char* b) {
  int i = 0;
  for (; a[i] && a[i] == b[i]; i++);
  return a[i] == b[i];
}
static const ssz_def_t D_BEACON = SSZ_CONTAINER("beacon", BEACON_BLOCK_HEADER);
static const ssz_def_t D_PK     = SSZ_BYTE_VECTOR("pubkeys", 512 * 48);
static const ssz_def_t D_ANY[]  = {SSZ_BYTES32("x")};
static const ssz_def_t D_H      = SSZ_CONTAINER("header", D_ANY);
static const ssz_def_t D_C      = SSZ_CONTAINER("committee", D_ANY);
static const ssz_def_t D_B      = SSZ_BYTE_VECTOR("branch", 192);
static const ssz_def_t D_U64    = SSZ_UINT64("slot");
#define OB(d, p, l) ((ssz_ob_t) {.def = (d), .bytes = bytes((p), (l))})
ssz_ob_t ssz_get(ssz_ob_t* ob, const char* n) {
  if (ob->bytes.data == D && ob->bytes.len == LEN) {
    if (is(n, "header")) return OB(&D_H, D + O_H, 112 + 8);
    if (is(n, "currentSyncCommittee")) return OB(&D_C, D + O_COM, SCLEN);
    if (is(n, "currentSyncCommitteeBranch")) return OB(&D_B, D + O_BR, BR);
  }
  else if (ob->def == &D_H) {
    if (is(n, "beacon")) return OB(&D_BEACON, D + O_H, 112);
  }
  else if (ob->def == &D_BEACON) {
    if (is(n, "slot")) return OB(&D_U64, D + O_H, 8);
    if (is(n, "proposerIndex")) return OB(&D_U64, D + O_H + 8, 8);
    if (is(n, "parentRoot")) return OB(D_ANY, D + O_H + 16, 32);
    if (is(n, "stateRoot")) return OB(D_ANY, D + O_H + 48, 32);
    if (is(n, "bodyRoot")) return OB(D_ANY, D + O_H + 80, 32);
  }
  else if (ob->def == &D_C) {
    if (is(n, "pubkeys")) return OB(&D_PK, D + O_COM, 512 * 48);
  }
  return (ssz_ob_t) {0};
}
static bool val_called;
bool ssz_is_valid(ssz_ob_t ob, bool recursive, c4_state_t* state) {
  bool exact = ob.bytes.data == D && ob.bytes.len == LEN && recursive && ob.def->type == SSZ_TYPE_CONTAINER && ob.def->def.container.len == 3 &&
               ob.def->def.container.elements == (EL ? ELECTRA_LIGHT_CLIENT_BOOTSTRAP : DENEP_LIGHT_CLIENT_BOOTSTRAP);
  val_called |= exact;
  return exact ? valid : false; /* data of this layout is never valid for the other fork */
}
void ssz_hash_tree_root(ssz_ob_t ob, uint8_t* out) {
  if (ob.bytes.data == D + O_H && ob.bytes.len == 112) { head_done = true; put(out, r_head); return; }
  if (ob.bytes.data == D + O_COM && ob.bytes.len == SCLEN) { com_done = true; put(out, r_com); return; }
  chunk c;
  nd_chunk(c);
  put(out, c);
}
void ssz_verify_single_merkle_proof(bytes_t proof, bytes32_t leaf, gindex_t g, bytes32_t out) {
  if (proof.data == D + O_BR && proof.len == BR && g == (EL ? 86 : 54) && eq(leaf, r_com)) { br_done = true; put(out, m_com); return; }
  chunk c;
  nd_chunk(c);
  put(out, c);
}
bool c4_set_sync_period(uint32_t p, bytes_t v, chain_id_t c, bytes32_t ph) {
  bool z = true;
  for (int i = 0; i < 32; i++) z &= ph[i] == 0;
  vf_assert(v.data == D + O_COM && v.len == 512 * 48 && c == CHN && p == (uint32_t) (slot >> (REF[ch].spe + REF[ch].epp)) && z, "exactly the current committee of the checkpoint is stored, for the period of its slot");
  vf_assert(val_called && valid, "only well-formed bootstrap data of the fork is used");
  vf_assert(head_done && eq(r_head, cp), "the header is the trusted checkpoint");
  vf_assert(br_done && eq(m_com, D + O_H + 48), "the committee is the current committee of the checkpoint's state");
  vf_assert(!stored, "stored once");
  stored = true;
  return set_res;
}
void h_boot(void) {
  while (REF[ch].id != CHN) ch++;
  D = (uint8_t*) malloc(LEN);
  for (int i = 0; i < LEN; i++) D[i] = 0;
  D[0] = O_H & 255; D[1] = O_H >> 8; D[2] = 0; D[3] = 0;
  slot = nd_u64();
  assume((slot >> (REF[ch].spe + REF[ch].epp)) < 0xfffffffe);
  assume((slot >> REF[ch].spe) >= REF[ch].deneb);
  fork_el = (slot >> REF[ch].spe) >= REF[ch].electra;
  for (int k = 0; k < 8; k++) D[O_H + k] = (uint8_t) (slot >> (8 * k));
  chunk sr;
  nd_chunk(sr);
  put(D + O_H + 48, sr);
  nd_chunk(r_head); nd_chunk(r_com); nd_chunk(m_com); nd_chunk(cp);
  valid = nd_bool(); set_res = nd_bool();
  verify_ctx_t ctx = {0};
  ctx.chain_id     = CHN;
  c4_status_t r    = c4_handle_bootstrap(&ctx, bytes(D, LEN), cp);
  bool ok = fork_el == EL && valid && eq(r_head, cp) && eq(m_com, sr);
  vf_assert(stored == ok, "the committee is stored exactly if it is proven by the checkpoint");
  vf_assert((r == C4_SUCCESS) == (ok && set_res), "success exactly if the committee was proven and stored");
  if (r == C4_SUCCESS) { REACH("accepted"); }
  else {
    REACH("rejected");
    vf_assert(r == C4_ERROR, "never pending");
  }
}
