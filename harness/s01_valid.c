/* SSZ validation accepts exactly the well-formed encodings, and reading an accepted object stays inside of it */
#include "ssz.h"
#include "vf.h"
#ifndef MAXB
#define MAXB 12
#endif
#ifndef SEL
#define SEL 0
#endif
#ifndef O1
#define O1 9
#define O2 10
#endif
#ifndef DEF
#define DEF 0
#endif
#include "vf_quiet.h"

static const ssz_def_t d_u2      = SSZ_UINT("u", 2);
static const ssz_def_t d_bool    = SSZ_BOOLEAN("b");
static const ssz_def_t d_vec     = SSZ_VECTOR("v", d_bool, 3);
static const ssz_def_t d_bits    = SSZ_BIT_VECTOR("bv", 12);
static const ssz_def_t d_bitl    = SSZ_BIT_LIST("bl", 12);
static const ssz_def_t d_list    = SSZ_LIST("l", d_u2, 3);
static const ssz_def_t d_listb   = SSZ_LIST("l", d_bool, 4);
static const ssz_def_t d_bytes   = SSZ_BYTES("by", 3);
static const ssz_def_t d_list2   = SSZ_LIST("ll", d_bytes, 2);
static const ssz_def_t F_ELS[]   = {SSZ_UINT("a", 2), SSZ_BOOLEAN("b")};
static const ssz_def_t d_fixc    = SSZ_CONTAINER("fc", F_ELS);
static const ssz_def_t d_listfc  = SSZ_LIST("lfc", d_fixc, 2);
static const ssz_def_t C_ELS[]   = {SSZ_UINT("a", 1), SSZ_BYTES("b", 3), SSZ_BOOLEAN("c"), SSZ_LIST("d", d_u2, 2)};
static const ssz_def_t d_cont    = SSZ_CONTAINER("c", C_ELS);
static const ssz_def_t U_ELS[]   = {SSZ_NONE, SSZ_UINT("u", 2), SSZ_BYTES("by", 2)};
static const ssz_def_t d_union   = SSZ_UNION("un", U_ELS);
static const ssz_def_t UC_ELS[]  = {SSZ_UINT("a", 1), SSZ_UNION("un", U_ELS), SSZ_BYTES("z", 2)};
static const ssz_def_t d_ucont   = SSZ_CONTAINER("uc", UC_ELS);
static const ssz_def_t d_listc   = SSZ_LIST("lc", d_cont, 2);
static const ssz_def_t* DEFS[]   = {&d_u2, &d_bool, &d_vec, &d_bits, &d_bitl, &d_list, &d_listb, &d_bytes, &d_list2, &d_fixc, &d_listfc, &d_cont, &d_union, &d_ucont};

/* ---- the encoding rules, written down per shape ---- */
static uint32_t le4(const uint8_t* p) { return p[0] | ((uint32_t) p[1] << 8) | ((uint32_t) p[2] << 16) | ((uint32_t) p[3] << 24); }
static bool     ok_union(const uint8_t* p, uint32_t n) {
  if (n < 1) return false;
  if (p[0] == 0) return n == 1;
  if (p[0] == 1) return n == 3;
  if (p[0] == 2) return n <= 3;
  return false;
}
static bool ok_cont(const uint8_t* p, uint32_t n) {
  if (n < 10) return false;
  uint32_t o1 = le4(p + 1), o2 = le4(p + 6);
  if (p[5] > 1 || o1 < 10 || o1 > n || o2 < o1 || o2 > n) return false;
  return o2 - o1 <= 3 && (n - o2) % 2 == 0 && n - o2 <= 4;
}
static bool spec(int def, const uint8_t* p, uint32_t n) {
  switch (def) {
    case 0: return n == 2;
    case 1: return n == 1 && p[0] <= 1;
    case 2: return n == 3 && p[0] <= 1 && p[1] <= 1 && p[2] <= 1;
    case 3: return n == 2;
    case 4: {
      if (n == 0 || p[n - 1] == 0) return false;
      uint32_t bits = (n - 1) * 8;
      for (uint32_t k = 1; k < 8; k++)
        if (p[n - 1] >> k) bits = (n - 1) * 8 + k;
      return bits <= 12;
    }
    case 5: return n % 2 == 0 && n <= 6;
    case 6: {
      for (uint32_t i = 0; i < MAXB; i++) if (i < n && p[i] > 1) return false;
      return n <= 4;
    }
    case 7: return n <= 3;
    case 8: {
      if (n == 0) return true;
      if (n < 4) return false;
      uint32_t f = le4(p);
      if (f == 4) return n - 4 <= 3;
      if (f != 8 || n < 8) return false;
      uint32_t s = le4(p + 4);
      return s >= 8 && s <= n && s - 8 <= 3 && n - s <= 3;
    }
    case 9: return n == 3 && p[2] <= 1;
    case 10: return (n == 0 || n == 3 || n == 6) && (n < 3 || p[2] <= 1) && (n < 6 || p[5] <= 1);
    case 11: return ok_cont(p, n);
    case 12: return ok_union(p, n);
    default: {
      if (n < 9) return false;
      uint32_t o1 = le4(p + 1), o2 = le4(p + 5);
      if (o1 < 9 || o1 > n || o2 < o1 || o2 > n) return false;
      return ok_union(p + o1, o2 - o1) && n - o2 <= 2;
    }
  }
}
static void check(uint8_t* p, uint32_t n) {
  c4_state_t state = {0};
  ssz_ob_t   ob    = {.def = DEFS[DEF], .bytes = bytes(p, n)};
  bool       e     = spec(DEF, p, n);
  bool       r     = ssz_is_valid(ob, true, &state);
  vf_assert(r == e, "accepts exactly the well-formed encodings");
  vf_assert(r || state.error, "a rejected object leaves an error");
  if (r) REACH("accepted");
  else REACH("rejected");
}
void h_valid(void) {
  uint8_t* base = nd_block(MAXB);
  uint32_t n    = nd_range(0, MAXB);
  check(base + MAXB - n, n);
}
/* exact lengths, one after the other */
void h_valid_exact(void) {
  for (uint32_t n = 0; n <= MAXB; n++) {
    uint8_t* p = nd_block(n);
#if DEF == 12
    if (n) p[0] = SEL;
#elif DEF == 13
    if (n >= 9) {
      p[1] = O1; p[2] = p[3] = p[4] = 0;
      p[5] = O2; p[6] = p[7] = p[8] = 0;
      if (O1 < n) p[O1] = SEL;
    }
#endif
    check(p, n);
  }
}
static void slice(ssz_ob_t o, const ssz_def_t* def, const uint8_t* p, uint32_t n) {
  vf_assert(o.def == def, "type of the element");
  vf_assert(o.bytes.len == n && (n == 0 || o.bytes.data == p), "content of the element");
}
/* reading an accepted object */
void h_read(void) {
  uint8_t* base = nd_block(MAXB);
  uint32_t n    = nd_range(0, MAXB);
  uint8_t* p    = base + MAXB - n;
  ssz_ob_t ob   = {.def = DEFS[DEF], .bytes = bytes(p, n)};
  assume(spec(DEF, p, n));
  uint32_t i = nd_range(0, 5);
#if DEF == 2
  vf_assert(ssz_len(ob) == 3, "length");
  if (i < 3) slice(ssz_at(ob, i), &d_bool, p + i, 1);
  else vf_assert(!ssz_at(ob, i).def, "no element behind the end");
#elif DEF == 4
  uint32_t bits = ssz_len(ob);
  vf_assert(bits / 8 + 1 == n && (p[n - 1] >> (bits % 8)) == 1, "bit length");
#elif DEF == 5
  vf_assert(ssz_len(ob) == n / 2, "length");
  if (i < n / 2) slice(ssz_at(ob, i), &d_u2, p + 2 * i, 2);
  else vf_assert(!ssz_at(ob, i).def, "no element behind the end");
  if (i < n / 2) vf_assert(ssz_uint64(ssz_at(ob, i)) == (uint64_t) (p[2 * i] | p[2 * i + 1] << 8), "little endian value");
#elif DEF == 8
  uint32_t cnt = n == 0 ? 0 : le4(p) / 4;
  vf_assert(ssz_len(ob) == cnt, "length");
  if (i < cnt) {
    uint32_t s = le4(p + 4 * i), e = i + 1 < cnt ? le4(p + 4 * i + 4) : n;
    slice(ssz_at(ob, i), &d_bytes, p + s, e - s);
  }
  else vf_assert(!ssz_at(ob, i).def, "no element behind the end");
#elif DEF == 11
  uint32_t o1 = le4(p + 1), o2 = le4(p + 6);
  slice(ssz_get(&ob, "a"), C_ELS, p, 1);
  slice(ssz_get(&ob, "b"), C_ELS + 1, p + o1, o2 - o1);
  slice(ssz_get(&ob, "c"), C_ELS + 2, p + 5, 1);
  slice(ssz_get(&ob, "d"), C_ELS + 3, p + o2, n - o2);
#elif DEF == 12
  ssz_ob_t u = ssz_union(ob);
  vf_assert(u.def == U_ELS + p[0], "selected variant");
  if (p[0]) slice(u, U_ELS + p[0], p + 1, n - 1);
#elif DEF == 13
  uint32_t o1 = le4(p + 1), o2 = le4(p + 5);
  ssz_ob_t u  = ssz_get(&ob, "un");
  slice(ssz_get(&ob, "a"), UC_ELS, p, 1);
  slice(u, U_ELS + p[o1], p + o1 + 1, o2 - o1 - 1);
  slice(ssz_get(&ob, "z"), UC_ELS + 2, p + o2, n - o2);
#endif
  REACH("read");
}
