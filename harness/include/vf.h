/* Shared vocabulary of all harnesses.
 *
 * The same harness source is used twice:
 *   - by CBMC (goto-cc): nd_*() are symbolic, vf_assert() is a proof obligation;
 *   - by gcc with -DVF_REPLAY: nd_*() read the values of a solver counterexample and
 *     vf_assert() is an ordinary run-time check against the natively compiled real code.
 */
#ifndef VF_H
#define VF_H
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

#ifdef VF_REPLAY
uint64_t vf_next(void);
void     vf_fail(const char* msg, const char* file, int line);
void     vf_reached(const char* label);
void     vf_assume_failed(void);
static inline uint8_t  nd_u8(void) { return (uint8_t) vf_next(); }
static inline uint16_t nd_u16(void) { return (uint16_t) vf_next(); }
static inline uint32_t nd_u32(void) { return (uint32_t) vf_next(); }
static inline uint64_t nd_u64(void) { return vf_next(); }
static inline bool     nd_bool(void) { return vf_next() & 1; }
#define assume(c) do { if (!(c)) vf_assume_failed(); } while (0)
#define vf_assert(c, msg) do { if (!(c)) vf_fail(msg, __FILE__, __LINE__); } while (0)
#define REACH(label) vf_reached(label)
#else
uint64_t nondet_vf_u64(void);
uint32_t nondet_vf_u32(void);
uint16_t nondet_vf_u16(void);
uint8_t  nondet_vf_u8(void);
extern uint64_t vf_rec_u64;
extern uint32_t vf_rec_u32;
extern uint16_t vf_rec_u16;
extern uint8_t  vf_rec_u8;
static inline uint8_t  nd_u8(void) { vf_rec_u8 = nondet_vf_u8(); return vf_rec_u8; }
static inline uint16_t nd_u16(void) { vf_rec_u16 = nondet_vf_u16(); return vf_rec_u16; }
static inline uint32_t nd_u32(void) { vf_rec_u32 = nondet_vf_u32(); return vf_rec_u32; }
static inline uint64_t nd_u64(void) { vf_rec_u64 = nondet_vf_u64(); return vf_rec_u64; }
static inline bool     nd_bool(void) { vf_rec_u8 = nondet_vf_u8(); return vf_rec_u8 & 1; }
#define assume(c) __CPROVER_assume(c)
#define vf_assert(c, msg) __CPROVER_assert((c), "VF " msg)
#define REACH(label) __CPROVER_assert(0, "REACH " label)
#endif

/* n symbolic bytes (n concrete) */
static inline void nd_fill(uint8_t* p, size_t n) {
  for (size_t i = 0; i < n; i++) p[i] = nd_u8();
}
/* a heap block of exactly n bytes, so that every access outside of it is detected */
static inline uint8_t* nd_block(size_t n) {
  uint8_t* p = (uint8_t*) malloc(n ? n : 1);
  nd_fill(p, n);
  return p;
}
static inline uint32_t nd_range(uint32_t lo, uint32_t hi) {
  uint32_t v = nd_u32();
  assume(v >= lo && v <= hi);
  return v;
}
#endif
