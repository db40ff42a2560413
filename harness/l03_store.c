/* storage of sync committees: what is listed is stored, limits and the oldest/latest rule hold at every crash point, and reading returns what was stored */
#include "beacon_types.h"
#include "crypto.h"
#include "eth_verify.h"
#include "plugin.h"
#include "ssz.h"
#include "sync_committee.h"
#include "vf.h"
#include "vf_fmt.h"
#include "state.h"
c4_status_t c4_state_add_error(c4_state_t* state, const char* error) {
  state->error = "e";
  return C4_ERROR;
}
#define CHN C4_CHAIN_MAINNET
#define NP 12 /* periods 1..12 */
#ifndef NS
#define NS 2
#endif
#ifndef MAXS
#define MAXS 3
#endif
#ifndef CP
#define CP 0
#endif
#ifndef KLEN
#define KLEN 8
#endif
/* ---- storage ---- */
static bool     present[NP + 1];
static uint32_t tag[NP + 1], klen[NP + 1];
static uint8_t  hash0[NP + 1];
static uint8_t  st[64];
static uint32_t st_len;
static bool     st_present;
static uint32_t ops, crash_at;
static bool     alive(void) { return ops++ < crash_at; }
static int      key(char* n) { /* 0: state, otherwise the period */
  uint64_t chain = 0, p = 0;
  if (n[1] == 't') {
    vf_assert(n[0] == 's' && n[2] == 'a' && n[3] == 't' && n[4] == 'e' && n[5] == 's' && n[6] == '_', "name of the state");
    for (int i = 0; i < 16; i++) chain = chain << 4 | (uint64_t) (n[7 + i] - 'a');
    vf_assert(chain == (uint64_t) CHN && n[23] == 0, "the state is kept per chain");
    return 0;
  }
  vf_assert(n[0] == 's' && n[1] == 'y' && n[2] == 'n' && n[3] == 'c' && n[4] == '_', "name of the keys");
  for (int i = 0; i < 16; i++) chain = chain << 4 | (uint64_t) (n[5 + i] - 'a');
  for (int i = 0; i < 16; i++) p = p << 4 | (uint64_t) (n[22 + i] - 'a');
  vf_assert(chain == (uint64_t) CHN && n[38] == 0 && p >= 1 && p <= NP, "keys are stored per chain and period");
  return (int) p;
}
static bool s_get(char* name, buffer_t* b) {
  int k = key(name);
  if (k == 0) {
    if (!st_present) return false;
    uint8_t* d = (uint8_t*) malloc(64);
    for (int i = 0; i < 64; i++) d[i] = st[i];
    b->data      = bytes(d, st_len);
    b->allocated = 64;
    return true;
  }
  bool     pr = false;
  uint32_t t = 0, l = 0;
  uint8_t  h = 0;
  for (int i = 1; i <= NP; i++)
    if (i == k) pr = present[i], t = tag[i], l = klen[i], h = hash0[i];
  if (!pr) return false;
#ifdef KEYSIZE
  l = KEYSIZE;
#endif
  uint8_t* d = (uint8_t*) malloc(KLEN);
  for (int i = 0; i < 4; i++) d[i] = (uint8_t) (t >> (8 * i));
#if KLEN >= 64
  if (l == 512 * 48 + 32 || l == 512 * 96 + 32) {
    for (uint32_t i = 0; i < 32; i++) d[(l == 512 * 48 + 32 ? 512 * 48 : 512 * 96) + i] = i ? 0 : h;
  }
#endif
  b->data      = bytes(d, l);
  b->allocated = KLEN;
  return true;
}
static void s_set(char* name, bytes_t v) {
  int k = key(name);
  if (!alive()) return;
  if (k == 0) {
    vf_assert(v.len <= 33, "size of the state");
    st_present = true;
    st_len     = v.len;
    for (uint32_t i = 0; i < 33; i++)
      if (i < v.len) st[i] = v.data[i];
    return;
  }
  uint32_t t = (uint32_t) v.data[0] | (uint32_t) v.data[1] << 8 | (uint32_t) v.data[2] << 16 | (uint32_t) v.data[3] << 24;
  for (int i = 1; i <= NP; i++)
    if (i == k) present[i] = true, tag[i] = t, klen[i] = v.len, hash0[i] = v.data[v.len - 32];
}
static void s_del(char* name) {
  int k = key(name);
  if (!alive()) return;
  if (k == 0) { st_present = false; return; }
  for (int i = 1; i <= NP; i++)
    if (i == k) present[i] = false;
}
/* ---- models ---- */
#ifdef STATE_MODEL /* h_state decides the real ones */
c4_chain_state_t c4_get_chain_state(chain_id_t chain_id) {
  c4_chain_state_t s; /* no initialiser: cbmc 6.11 loses later writes to a union it has seen as a constant */
  vf_assert(chain_id == CHN, "state of this chain");
  s.status = st_present ? (c4_state_sync_type_t) st[0] : C4_STATE_SYNC_EMPTY;
  for (int i = 0; i < 8; i++) s.data.periods[i] = st_present && st_len >= 5 + 4 * (uint32_t) i ? ((uint32_t) st[1 + 4 * i] | (uint32_t) st[2 + 4 * i] << 8 | (uint32_t) st[3 + 4 * i] << 16 | (uint32_t) st[4 + 4 * i] << 24) : 0;
  return s;
}
void c4_set_chain_state(chain_id_t chain_id, c4_chain_state_t* s) {
  vf_assert(chain_id == CHN && s->status == C4_STATE_SYNC_PERIODS, "state of this chain");
  if (!alive()) return;
  st_present = true;
  st[0]      = C4_STATE_SYNC_PERIODS;
  st_len     = 1;
  bool end = false;
  for (int i = 0; i < 8; i++) {
    if (s->data.periods[i] == 0) end = true;
    if (end) continue;
    st_len += 4;
    for (int k = 0; k < 4; k++) st[1 + 4 * i + k] = (uint8_t) (s->data.periods[i] >> (8 * k));
  }
}
#endif
void c4_get_storage_config(storage_plugin_t* p) {
  p->get = s_get;
  p->set = s_set;
  p->del = s_del;
  p->max_sync_states = MAXS;
}
/* appends, content of large pieces only at their ends (U02 decides the real one) */
uint32_t buffer_append(buffer_t* b, bytes_t d) {
  uint32_t o = b->data.len, n = o + d.len;
  uint8_t* q = (uint8_t*) malloc(n ? n : 1);
  for (uint32_t i = 0; i < 4 && i < o; i++) q[i] = b->data.data[i];
  if (d.len <= 32)
    for (uint32_t i = 0; i < 32 && i < d.len; i++) q[o + i] = d.data[i];
  else
    for (uint32_t i = 0; i < 4; i++) q[o + i] = d.data[i];
  b->data      = bytes(q, n);
  b->allocated = (int32_t) n;
  return n;
}
static uint32_t n_deser;
bytes_t blst_deserialize_p1_affine(uint8_t* c, int n, uint8_t* out) {
  vf_assert(n == 512, "512 keys");
  n_deser++;
  if (nd_bool()) return NULL_BYTES;
  uint8_t* q = (uint8_t*) malloc(512 * 96);
  for (int i = 0; i < 4; i++) q[i] = c[i];
  return bytes(q, 512 * 96);
}
static uint8_t sha_in[4];
void sha256(bytes_t d, uint8_t* out) {
  for (int i = 0; i < 32; i++) out[i] = i < 4 ? d.data[i] : (uint8_t) (i == 4 ? d.len >> 8 : 7);
}
static bool listed(uint32_t p, int* cnt) {
  int c = 0;
  for (int i = 0; i < 8; i++)
    if (st_present && st[0] == C4_STATE_SYNC_PERIODS && st_len >= 5 + 4 * (uint32_t) i &&
        ((uint32_t) st[1 + 4 * i] | (uint32_t) st[2 + 4 * i] << 8 | (uint32_t) st[3 + 4 * i] << 16 | (uint32_t) st[4 + 4 * i] << 24) == p) c++;
  *cnt = c;
  return c > 0;
}
#ifndef LIST
#define LIST {0}
#endif
static const uint32_t stored[9] = LIST;
static void start(void) {
  bool     used[NP + 1] = {0};
  st_present            = NS > 0;
  st[0]                 = C4_STATE_SYNC_PERIODS;
  st_len                = 1 + 4 * NS;
  for (int i = 0; i < NS; i++) {
#ifdef KEYSIZE
    uint32_t p = 3 + 2 * i;
#else
    uint32_t p = stored[i];
#endif
    for (uint32_t k = 1; k <= NP; k++)
      if (k == p) {
        assume(!used[k]);
        used[k] = present[k] = true;
        tag[k]  = 100 + k;
        klen[k] = 49184;
      }
    st[1 + 4 * i] = (uint8_t) p;
  }
}
void h_store(void) {
  start();
#if NS == 0
  if (CP) { /* only a checkpoint so far */
    st_present = true;
    st[0]      = C4_STATE_SYNC_CHECKPOINT;
    st_len     = 33;
    for (int i = 1; i < 33; i++) st[i] = nd_u8();
  }
#endif
  bool     was[NP + 1] = {0};
  uint32_t lo = 0, hi = 0;
  int      c, n_was = 0;
  for (uint32_t k = 1; k <= NP; k++)
    if (present[k]) {
      was[k] = true;
      n_was++;
      if (!lo) lo = k;
      hi = k;
    }
  uint32_t p  = nd_range(1, NP);
#ifdef PERIOD
  assume(p == PERIOD);
  p = PERIOD;
#endif
  uint8_t* ky = (uint8_t*) malloc(512 * 48);
  ky[0] = 77; ky[1] = 1; ky[2] = 0; ky[3] = 0;
  uint8_t h[32] = {0};
  h[0]          = nd_u8();
  crash_at      = nd_range(0, 12);
  bool ok = c4_set_sync_period(p, bytes(ky, 512 * 48), CHN, h);
  bool crashed = ops > crash_at;
  int  total = 0;
  for (uint32_t k = 1; k <= NP; k++) {
    bool l = listed(k, &c);
    total += c;
    vf_assert(c <= 1, "a period is listed once");
    vf_assert(!l || present[k], "every listed period has its keys, wherever a crash happens");
    vf_assert(!l || k != p || tag[k] == 100 + k || tag[k] == 0x14d, "keys of the period");
    vf_assert(!l || k == p || (was[k] && tag[k] == 100 + k), "other periods keep their keys");
    if (!crashed) {
      vf_assert(l == present[k], "keys that are not listed any more are deleted");
      vf_assert(k != p || (l && tag[k] == 0x14d && klen[k] == 512 * 48 + 32 && hash0[k] == h[0]), "the new period is stored with its keys and the hash of the previous keys");
      if (MAXS >= 3 && was[k] && (k == lo || k == hi)) vf_assert(l, "the oldest and the latest known period are kept");
      if (was[k] && n_was < MAXS && n_was < 8) vf_assert(l, "nothing is dropped below the limit");
      if (MAXS == 2 && was[k] && k == hi) vf_assert(l, "the latest known period is kept");
    }
  }
  if (!crashed) {
    REACH("stored");
    bool was_p = false;
    for (uint32_t k = 1; k <= NP; k++) if (k == p) was_p = was[k];
    vf_assert(ok, "stored");
    vf_assert(was_p || total <= (MAXS < 8 ? MAXS : 8), "the limit of stored periods holds");
    vf_assert(!was_p || total == NS, "storing a known period again drops nothing");
  }
  else {
    REACH("crashed");
  }
}
#ifdef KEYSIZE
/* keys of exactly the requested period, with the hash of the previous keys, as often as they are read */
void h_read(void) {
  start();
  crash_at      = 1000;
  uint32_t p    = PERIOD;
  bool     have = false;
  uint8_t  h0   = nd_u8();
  uint32_t size = KEYSIZE;
  for (uint32_t k = 1; k <= NP; k++)
    if (k == p) have = present[k], hash0[k] = h0, klen[k] = KEYSIZE;
  assume(have);
  verify_ctx_t         ctx = {0};
  c4_sync_validators_t out = {0};
  uint8_t              ph[32] = {0};
  ctx.chain_id    = CHN;
  c4_status_t r   = c4_get_validators(&ctx, p, &out, ph);
  if (r == C4_SUCCESS) {
    REACH("read");
    vf_assert(KEYSIZE == 512 * 48 || KEYSIZE == 512 * 48 + 32 || KEYSIZE == 512 * 96 || KEYSIZE == 512 * 96 + 32, "only complete committees are used");
    vf_assert(out.validators.len == 512 * 96 && out.deserialized, "512 keys");
    vf_assert(out.validators.data[0] == 100 + p && out.validators.data[1] == 0, "keys of the requested period");
    vf_assert(out.previous_pubkeys_hash[0] == (KEYSIZE % 48 == 32 ? h0 : 0), "hash of the previous keys");
    vf_assert(out.current_period == p, "period");
    vf_assert(ph[0] == 100 + p && ph[4] == 512 * 96 / 256, "hash of the keys");
    uint32_t t = 0, l = 0;
    uint8_t  h = 0;
    bool     pr = false;
    for (uint32_t k = 1; k <= NP; k++)
      if (k == p) pr = present[k], t = tag[k], l = klen[k], h = hash0[k];
    vf_assert(pr && t == 100 + p, "reading keeps the keys");
    vf_assert((l == KEYSIZE && n_deser == 0) || (l == 512 * 96 + 32 && h == (KEYSIZE % 48 == 32 ? h0 : 0)), "reading keeps the hash of the previous keys");
  }
  else {
    REACH("refused");
  }
}
#endif
/* the state survives a round trip */
void h_state(void) {
  c4_chain_state_t a = {0};
  crash_at           = 1000;
#if NS == 9
  a.status = C4_STATE_SYNC_CHECKPOINT;
  nd_fill(a.data.checkpoint, 32);
#else
  a.status = NS ? C4_STATE_SYNC_PERIODS : C4_STATE_SYNC_EMPTY;
  for (int i = 0; i < NS; i++) {
    a.data.periods[i] = nd_u32();
    assume(a.data.periods[i] != 0);
  }
#endif
  c4_set_chain_state(CHN, &a);
  c4_chain_state_t b = c4_get_chain_state(CHN);
  vf_assert(b.status == a.status, "status");
  for (int i = 0; i < 32; i++) vf_assert(b.data.checkpoint[i] == a.data.checkpoint[i], "content of the state");
  bytes32_t cp;
  nd_fill(cp, 32);
  c4_eth_set_trusted_checkpoint(CHN, cp);
  c4_chain_state_t c = c4_get_chain_state(CHN);
  for (int i = 0; i < 32; i++) vf_assert(c.data.checkpoint[i] == (NS ? a.data.checkpoint[i] : cp[i]), "a checkpoint never replaces what is already trusted");
  vf_assert(c.status == (NS ? a.status : C4_STATE_SYNC_CHECKPOINT), "a checkpoint is set if there is nothing yet");
  REACH("done");
}
