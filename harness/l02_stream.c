/* a stream of light client updates is split into exactly the updates it contains, never reading outside of it */
#include "beacon_types.h"
#include "eth_verify.h"
#include "ssz.h"
#include "sync_committee.h"
#include "vf.h"
#include "vf_err.h"
#ifndef LEN
#define LEN 40
#endif
#define MAXU 5
static uint8_t* D;
static uint32_t exp_start[MAXU + 1], exp_len[MAXU + 1]; /* updates of the stream according to its format */
static int      n_exp;
static bool     exp_ok;                                  /* the stream itself is well formed */
static int      n_fork, n_valid, n_proc;
static bool     all_good = true, refused;
static uint8_t  fork_of[MAXU + 1];
static bool     good(bytes_t b, int i) {
  /* the slice has to be inside of the stream: probe first and last byte */
  if (b.len) {
    vf_assert(b.data >= D && b.data + b.len <= D + LEN, "an update is a part of the stream");
  }
  bool ok = i < n_exp;
  for (int k = 0; k < MAXU; k++)
    if (k == i) ok = ok && b.data == D + exp_start[k] && b.len == exp_len[k];
  return ok;
}
#ifndef FORK
fork_id_t c4_eth_get_fork_for_lcu(chain_id_t c, bytes_t data) {
  all_good &= !refused && good(data, n_fork);
  uint8_t f = nd_u8() % 7;
  if (f < C4_FORK_DENEB) refused = true;
  if (n_fork < MAXU) fork_of[n_fork] = f;
  n_fork++;
  return (fork_id_t) f;
}
bool ssz_is_valid(ssz_ob_t ob, bool recursive, c4_state_t* state) {
  all_good &= !refused && recursive && good(ob.bytes, n_valid) && n_valid == n_fork - 1;
  n_valid++;
  bool ok = nd_bool();
  if (!ok) refused = true;
  return ok;
}
static bool process(verify_ctx_t* ctx, ssz_ob_t* u) {
  all_good &= !refused && good(u->bytes, n_proc) && n_proc == n_valid - 1;
  for (int k = 0; k < MAXU; k++)
    if (k == n_proc) all_good &= u->def == eth_get_light_client_update((fork_id_t) fork_of[k]);
  n_proc++;
  bool ok = nd_bool();
  if (!ok) refused = true;
  return ok;
}
#endif
static uint32_t le32(const uint8_t* p) { return (uint32_t) p[0] | (uint32_t) p[1] << 8 | (uint32_t) p[2] << 16 | (uint32_t) p[3] << 24; }
static uint64_t at64(uint32_t pos) {
  uint64_t r = 0;
  for (uint32_t i = 0; i + 8 <= LEN; i++)
    if (i == pos) r = (uint64_t) le32(D + i) | (uint64_t) le32(D + i + 4) << 32;
  return r;
}
#ifndef FORK
void h_stream(void) {
  D = nd_block(LEN);
#if LEN > 12
  bool lh = (D[4] | D[5] | D[6] | D[7]) && le32(D) < 1000;
#ifdef LIGHTHOUSE
  assume(lh);
#else
  assume(!lh);
#endif
#else
  bool lh = false;
#endif
  /* reference: split by the format */
  uint64_t pos = 0;
  exp_ok       = true;
  for (int i = 0; i < MAXU; i++) {
    if (!exp_ok || pos + 12 >= LEN) break;
    uint64_t p = pos, start = pos + 12;
    if (lh) {
      if (4 * i + 4 > LEN) { exp_ok = false; break; }
      p     = le32(D + 4 * i);
      start = p + 20;
      if (p + 12 > LEN) { exp_ok = false; break; }
    }
    uint64_t l = at64((uint32_t) p);
    if (l < 4 || l > LEN || start + l - 4 > LEN) { exp_ok = false; break; }
    exp_start[i] = (uint32_t) start;
    exp_len[i]   = (uint32_t) (l - 4);
    n_exp        = i + 1;
    pos          = p + l + 8;
  }
  assume(!exp_ok || pos + 12 >= LEN); /* at most MAXU updates */
  verify_ctx_t ctx = {0};
  ctx.chain_id = C4_CHAIN_MAINNET;
  bool ok      = c4_process_light_client_updates(&ctx, bytes(D, LEN), process);
  vf_assert(all_good, "only the updates in the stream are processed, in order, each validated with the type of its fork");
  if (ok) {
    REACH("accepted");
    vf_assert(!ctx.state.error && exp_ok && n_proc == n_exp && !refused, "success means that every update of a well formed stream was processed");
  }
  else {
    REACH("rejected");
    vf_assert(!exp_ok || refused, "a well formed stream with acceptable updates is accepted");
  }
}
#else
/* the fork of an update is decided by the slot of its attested header */
void h_fork(void) {
  uint8_t* p   = nd_block(LEN);
  D            = p;
  fork_id_t f  = c4_eth_get_fork_for_lcu(C4_CHAIN_MAINNET, bytes(p, LEN));
  uint64_t  of = LEN >= 4 ? le32(p) : 0;
  if (LEN >= 8 && of + 8 <= LEN) {
    static const uint64_t E[6] = {74240, 144896, 194048, 269568, 364032, 411392};
    uint64_t              e    = at64((uint32_t) of) >> 5;
    int                   k    = 0;
    for (int i = 0; i < 6; i++) k += e >= E[i];
    REACH("slot");
    vf_assert((int) f == k, "fork of the slot");
  }
  else {
    REACH("no slot");
    vf_assert((int) f < C4_FORK_DENEB, "no fork without a slot");
  }
}
#endif
