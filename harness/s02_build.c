/* what the SSZ builder writes is a valid encoding from which exactly the same values are read */
#include "ssz.h"
#include "vf.h"
#include "vf_quiet.h"
static const ssz_def_t d_u2     = SSZ_UINT("u", 2);
static const ssz_def_t d_bytes  = SSZ_BYTES("by", 4);
static const ssz_def_t d_list2  = SSZ_LIST("ll", d_bytes, 4);
static const ssz_def_t d_list   = SSZ_LIST("l", d_u2, 4);
static const ssz_def_t N_ELS[]  = {SSZ_UINT("x", 1), SSZ_BYTES("y", 4)};
static const ssz_def_t C_ELS[]  = {SSZ_UINT("a", 8), SSZ_BYTES("b", 4), SSZ_BYTE_VECTOR("c", 3), SSZ_BYTES("d", 4), SSZ_UINT("e", 32), SSZ_CONTAINER("f", N_ELS)};
static const ssz_def_t d_cont   = SSZ_CONTAINER("c", C_ELS);
static const ssz_def_t d_nest   = SSZ_CONTAINER("n", N_ELS);
static const ssz_def_t U_ELS[]  = {SSZ_NONE, SSZ_CONTAINER("w", N_ELS), SSZ_UINT("u", 2), SSZ_BYTES("v", 4)};
static const ssz_def_t UC_ELS[] = {SSZ_UINT("a", 1), SSZ_UNION("un", U_ELS), SSZ_BYTES("z", 4)};
static const ssz_def_t d_ucont  = SSZ_CONTAINER("uc", UC_ELS);
#ifndef NB
#define NB 3
#endif
static bool same(bytes_t a, const uint8_t* p, uint32_t n) {
  if (a.len != n) return false;
  for (uint32_t i = 0; i < NB; i++) if (i < n && a.data[i] != p[i]) return false;
  return true;
}
void h_container(void) {
  uint64_t a = nd_u64();
  uint8_t *b = nd_block(NB), *c = nd_block(3), *d = nd_block(NB), *e = nd_block(2), *y = nd_block(NB);
  uint32_t bl = LB, dl = LD, el = LE;
  uint8_t  x = nd_u8();
  ssz_builder_t n = ssz_builder_for_def(&d_nest);
  ssz_add_uint8(&n, x);
  ssz_add_bytes(&n, "y", bytes(y, LD));
  ssz_builder_t t = ssz_builder_for_def(&d_cont);
  ssz_add_uint64(&t, a);
  ssz_add_bytes(&t, "b", bytes(b, bl));
  ssz_add_bytes(&t, "c", bytes(c, 3));
  ssz_add_bytes(&t, "d", bytes(d, dl));
  ssz_add_uint256(&t, bytes(e, el));
  ssz_add_builders(&t, "f", n);
  ssz_ob_t o = ssz_builder_to_bytes(&t);
  vf_assert(o.def == &d_cont, "type");
  vf_assert(ssz_is_valid(o, true, NULL), "a built object is valid");
  vf_assert(ssz_get_uint64(&o, "a") == a, "uint64 field");
  vf_assert(same(ssz_get(&o, "b").bytes, b, bl), "first dynamic field");
  vf_assert(same(ssz_get(&o, "c").bytes, c, 3), "fixed field");
  vf_assert(same(ssz_get(&o, "d").bytes, d, dl), "second dynamic field");
  bytes_t u = ssz_get(&o, "e").bytes;
  vf_assert(u.len == 32, "uint256 length");
  for (uint32_t i = 0; i < 32; i++) vf_assert(u.data[i] == (i < el ? e[el - 1 - i] : 0), "uint256 is little endian");
  ssz_ob_t f = ssz_get(&o, "f");
  vf_assert(ssz_get_uint64(&f, "x") == x && same(ssz_get(&f, "y").bytes, y, LD), "nested container");
  REACH("container");
}
void h_lists(void) {
  uint8_t *a = nd_block(NB), *b = nd_block(NB), *c = nd_block(NB);
  ssz_builder_t t = ssz_builder_for_def(&d_list2);
  ssz_add_dynamic_list_bytes(&t, 3, bytes(a, LB));
  ssz_add_dynamic_list_bytes(&t, 3, bytes(b, LD));
  ssz_add_dynamic_list_bytes(&t, 3, bytes(c, LE));
  ssz_ob_t o = ssz_builder_to_bytes(&t);
  vf_assert(ssz_is_valid(o, true, NULL) && ssz_len(o) == 3, "a built list is valid");
  vf_assert(same(ssz_at(o, 0).bytes, a, LB) && same(ssz_at(o, 1).bytes, b, LD) && same(ssz_at(o, 2).bytes, c, LE), "elements in order");
  uint16_t      v1 = nd_u16(), v2 = nd_u16();
  uint32_t      v3 = nd_u32();
  ssz_builder_t s  = ssz_builder_for_def(&d_list);
  ssz_add_uint16(&s, v1);
  ssz_add_uint16(&s, v2);
  ssz_add_uint32(&s, v3);
  o = ssz_builder_to_bytes(&s);
  vf_assert(ssz_is_valid(o, true, NULL) && ssz_len(o) == 4, "a built list is valid");
  vf_assert(ssz_uint64(ssz_at(o, 0)) == v1 && ssz_uint64(ssz_at(o, 1)) == v2 && ssz_uint64(ssz_at(o, 2)) == (v3 & 0xffff) && ssz_uint64(ssz_at(o, 3)) == v3 >> 16, "elements in order");
  REACH("lists");
}
void h_union(void) {
  uint8_t *v = nd_block(NB), *z = nd_block(NB);
  uint8_t  a = nd_u8();
  ssz_builder_t t = ssz_builder_for_def(&d_ucont);
  ssz_add_uint8(&t, a);
#if UV == 0
  ssz_add_ob(&t, "un", (ssz_ob_t) {.def = U_ELS, .bytes = {0}});
#elif UV == 2
  ssz_add_ob(&t, "un", (ssz_ob_t) {.def = U_ELS + 2, .bytes = bytes(v, 2)});
#elif UV == 3
  ssz_add_ob(&t, "un", (ssz_ob_t) {.def = U_ELS + 3, .bytes = bytes(v, LB)});
#else
  ssz_builder_t n = ssz_builder_for_def(U_ELS + 1);
  ssz_add_uint8(&n, v[0]);
  ssz_add_bytes(&n, "y", bytes(v, LB));
  ssz_add_builders(&t, "un", n);
#endif
  ssz_add_bytes(&t, "z", bytes(z, LD));
  ssz_ob_t o = ssz_builder_to_bytes(&t);
  vf_assert(ssz_is_valid(o, true, NULL), "a built object is valid");
  vf_assert(ssz_get_uint64(&o, "a") == a && same(ssz_get(&o, "z").bytes, z, LD), "fields around the union");
  ssz_ob_t u = ssz_get(&o, "un");
  vf_assert(u.def == U_ELS + UV, "variant");
#if UV == 2
  vf_assert(same(u.bytes, v, 2), "value");
#elif UV == 3
  vf_assert(same(u.bytes, v, LB), "value");
#elif UV == 1
  vf_assert(ssz_get_uint64(&u, "x") == v[0] && same(ssz_get(&u, "y").bytes, v, LB), "value");
#endif
  REACH("union");
}
