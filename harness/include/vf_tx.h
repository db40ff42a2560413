/* objects of a proof of a transaction in a block, known by their place */
#include "beacon_types.h"
#include "chains.h"
#include "crypto.h"
#include "eth_tx.h"
#include "eth_verify.h"
#include "json.h"
#include "patricia.h"
#include "ssz.h"
#include "sync_committee.h"
#include "verify.h"
#include "vf.h"
#include "vf_err.h"
typedef uint8_t chunk[32];
#define OB(d, p, l) ((ssz_ob_t) {.def = (d), .bytes = bytes((p), (l))})
static const ssz_def_t D_B32  = SSZ_BYTES32("x");
static const ssz_def_t D_ADR  = SSZ_ADDRESS("a");
static const ssz_def_t D_U8   = SSZ_UINT8("n");
static const ssz_def_t D_U32  = SSZ_UINT32("n");
static const ssz_def_t D_U64  = SSZ_UINT64("n");
static const ssz_def_t D_NON  = SSZ_NONE;
static const ssz_def_t D_EL[] = {SSZ_BYTES32("x")};
static const ssz_def_t D_C    = SSZ_CONTAINER("c", D_EL);
static const ssz_def_t D_TX   = SSZ_BYTES("transaction", 1073741824);
static const ssz_def_t D_L    = SSZ_LIST("l", D_TX, 256);
static bool is(const char* a, const char* b) {
  int i = 0;
  for (; a[i] && a[i] == b[i]; i++);
  return a[i] == b[i];
}
static bool eq(const uint8_t* a, const uint8_t* b, int n) {
  bool r = true;
  for (int i = 0; i < n; i++) r &= a[i] == b[i];
  return r;
}
static bool zero(const uint8_t* a, int n) {
  bool r = true;
  for (int i = 0; i < n; i++) r &= a[i] == 0;
  return r;
}
static void put(uint8_t* o, const uint8_t* c) {
  for (int i = 0; i < 32; i++) o[i] = c[i];
}
static void nd_chunk(uint8_t* c) {
  for (int i = 0; i < 32; i++) c[i] = i < 3 || i > 30 ? nd_u8() : 0x5a;
}
static uint64_t lev(const uint8_t* p, int n) {
  uint64_t r = 0;
  for (int i = n - 1; i >= 0; i--) r = r << 8 | p[i];
  return r;
}
#define FIRST_TX 1704984576ull /* transactions (813) of the execution payload (25) of a body: (813 * 2) << 20 */
#define TX_LIMIT 1048576
/* the leaf of gindex g is v (n bytes, then zeros) */
static bool leaf(bytes_t leafes, gindex_t* gs, uint32_t count, uint64_t g, const uint8_t* v, int n) {
  bool r = false;
  for (uint32_t i = 0; i < count; i++)
    r |= (uint64_t) gs[i] == g && eq(leafes.data + 32 * i, v, n) && zero(leafes.data + 32 * i + n, 32 - n);
  return r;
}
