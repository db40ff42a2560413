/* Patricia proofs: the verdict and the value against a reference verifier.
 * NODES: the witnesses, byte by byte, 256 = arbitrary byte.  keccak: arbitrary value per witness. */
#include "patricia.h"
#include "rlp.h"
#include "ssz.h"
#include "vf.h"
static const uint16_t NODE[NN ? NN : 1][MAXN] = NODES;
static const uint16_t NLEN[NN ? NN : 1]       = LENS;
static const uint16_t KEY[KLEN]               = KEYS;
static uint8_t*       blk[NN + 1];
static uint8_t        H[NN + 1][32];
void keccak(bytes_t d, uint8_t* out) {
  int f = -1;
  for (int i = 0; i < NN; i++)
    if (d.data == blk[i] && d.len == NLEN[i]) f = i;
  vf_assert(f >= 0, "a witness is hashed as a whole");
  for (int i = 0; i < NN; i++)
    if (f == i)
      for (int j = 0; j < 32; j++) out[j] = H[i][j];
}
uint32_t ssz_len(ssz_ob_t ob) { return NN; }
ssz_ob_t ssz_at(ssz_ob_t ob, uint32_t index) {
  vf_assert(index < NN, "witness exists");
  ssz_ob_t r = {0};
  for (uint32_t i = 0; i < NN; i++)
    if (i == index) r.bytes = bytes(blk[i], NLEN[i]);
  return r;
}

static int ref_header(const uint8_t* d, uint32_t end, uint32_t pos, uint32_t* start, uint32_t* len) {
  uint8_t c = d[pos];
  if (c < 0x80) { *start = pos; *len = 1; return RLP_ITEM; }
  int      list = c >= 0xc0;
  uint32_t s    = list ? c - 0xc0 : c - 0x80;
  uint64_t l    = s;
  *start        = pos + 1;
  if (s > 55) {
    uint32_t k = s - 55;
    if (k > end - pos - 1) return RLP_OUT_OF_RANGE;
    l = 0;
    for (uint32_t i = 0; i < 8; i++)
      if (i < k) l = (l << 8) | d[pos + 1 + i];
    *start = pos + 1 + k;
  }
  if (l > end - *start) return RLP_OUT_OF_RANGE;
  *len = (uint32_t) l;
  return list ? RLP_LIST : RLP_ITEM;
}
typedef struct { int t; uint32_t s, l; } item_t;
#define NIB (2 * KLEN)
static uint8_t knib[NIB];
static int     kpos;
static uint8_t want[32];
static int     val_node;
static item_t  val;
/* one node given by its payload; 0 invalid, 1 next, 2 absent, 3 found; 4: go on with an embedded node in *it */
static int ref_node(int n, uint32_t from, uint32_t end, bool last, item_t* emb) {
  const uint8_t* d = blk[n];
  item_t         it[18];
  int            cnt = 0;
  uint32_t       pos = from;
  for (int i = 0; i < 18; i++) it[i].t = 0;
  for (int i = 0; i < 18 && pos < end; i++) {
    it[i].t = ref_header(d, end, pos, &it[i].s, &it[i].l);
    if (it[i].t == RLP_OUT_OF_RANGE) return 0;
    pos = it[i].s + it[i].l;
    cnt = i + 1;
  }
  if (pos < end) return 0;
  if (cnt == 17) {
    if (kpos == NIB) {
      if (!last || it[16].t != RLP_ITEM) return 0;
      val_node = n; val = it[16];
      return it[16].l ? 3 : 2;
    }
    item_t c = it[0];
    for (int i = 1; i < 16; i++)
      if (knib[kpos] == i) c = it[i];
    if (c.t == RLP_LIST) { kpos++; *emb = c; return 4; }
    if (c.l == 0) return last ? 2 : 0;
    if (c.l != 32) return 0;
    kpos++;
    for (int j = 0; j < 32; j++) want[j] = d[c.s + j];
    return 1;
  }
  if (cnt != 2 || it[0].t != RLP_ITEM || it[0].l == 0 || d[it[0].s] > 0x3f) return 0;
  int  odd = (d[it[0].s] >> 4) & 1, leaf = (d[it[0].s] >> 5) & 1;
  int  pn = 2 * ((int) it[0].l - 1) + odd;
  bool same = pn <= NIB - kpos;
  for (int i = 0; i < NIB && same; i++) {
    if (i >= pn) break;
    int     j = odd ? i + 1 : i + 2;
    uint8_t b = d[it[0].s + j / 2];
    uint8_t x = j & 1 ? b & 15 : b >> 4;
    if (x != knib[kpos + i]) same = false;
  }
  if (!same) return last ? 2 : 0;
  kpos += pn;
  if (leaf) {
    if (it[1].t != RLP_ITEM || !last) return 0;
    if (kpos != NIB) return 2;
    val_node = n; val = it[1];
    return 3;
  }
  if (it[1].t == RLP_LIST) { *emb = it[1]; return 4; }
  if (it[1].l != 32) return 0;
  for (int j = 0; j < 32; j++) want[j] = d[it[1].s + j];
  return 1;
}
static int ref(void) {
  int r = 1;
  for (int i = 0; i < NN; i++) {
    bool same = true;
    for (int j = 0; j < 32; j++)
      if (i && want[j] != H[i][j]) same = false;
    if (!same) return 0;
    item_t top;
    if (!NLEN[i] || ref_header(blk[i], NLEN[i], 0, &top.s, &top.l) != RLP_LIST) return 0;
    r = 4;
    for (int e = 0; e < EMB && r == 4; e++) r = ref_node(i, top.s, top.s + top.l, i == NN - 1, &top);
    assume(r != 4);
    if (r != 1) return r;
  }
  return 0;
}
void h_verify(void) {
  for (int i = 0; i < NN; i++) {
    blk[i] = (uint8_t*) malloc(NLEN[i] ? NLEN[i] : 1);
    for (int j = 0; j < NLEN[i]; j++) blk[i][j] = NODE[i][j] < 256 ? (uint8_t) NODE[i][j] : nd_u8();
    nd_fill(H[i], 32);
  }
  uint8_t* key = (uint8_t*) malloc(KLEN);
  for (int j = 0; j < KLEN; j++) {
    key[j]          = KEY[j] < 256 ? (uint8_t) KEY[j] : nd_u8();
    knib[2 * j]     = key[j] >> 4;
    knib[2 * j + 1] = key[j] & 15;
  }
  int       exp = ref();
  bytes32_t root;
  for (int j = 0; j < 32; j++) root[j] = 0xee;
  bytes_t           v  = bytes(key, 1);
  ssz_ob_t          pr = {0};
  patricia_result_t r  = patricia_verify(root, bytes(key, KLEN), pr, &v);
  vf_assert(r == (exp == 3 ? PATRICIA_FOUND : exp == 2 ? PATRICIA_NOT_EXISTING : PATRICIA_INVALID), "verdict");
  if (r != PATRICIA_INVALID)
    for (int j = 0; j < 32; j++) vf_assert(root[j] == H[0][j], "root");
  if (exp == 3) {
    REACH("found");
    vf_assert(v.data == blk[val_node] + val.s && v.len == val.l, "value");
  }
  else if (exp == 2) {
    REACH("absent");
    vf_assert(v.len == 0, "no value");
  }
  else REACH("invalid");
}
