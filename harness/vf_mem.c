/* memcpy/memmove/memset as byte loops (bounded by the harness' unwinding; every access is checked) */
#ifndef VF_REPLAY
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
void* memcpy(void* d, const void* s, size_t n) {
  for (size_t i = 0; i < n; i++) ((uint8_t*) d)[i] = ((const uint8_t*) s)[i];
  return d;
}
void* memset(void* d, int c, size_t n) {
  for (size_t i = 0; i < n; i++) ((uint8_t*) d)[i] = (uint8_t) c;
  return d;
}
void* memmove(void* d, const void* s, size_t n) {
#ifdef VF_WORD_MEMMOVE /* moves of 32 bit words towards the start stay word accesses */
  if (n % 4 == 0 && __CPROVER_POINTER_OFFSET(d) < __CPROVER_POINTER_OFFSET(s)) {
    for (size_t i = 0; i < n / 4; i++) ((uint32_t*) d)[i] = ((const uint32_t*) s)[i];
    return d;
  }
#endif
  if (__CPROVER_POINTER_OFFSET(d) < __CPROVER_POINTER_OFFSET(s))
    for (size_t i = 0; i < n; i++) ((uint8_t*) d)[i] = ((const uint8_t*) s)[i];
  else
    for (size_t i = n; i > 0; i--) ((uint8_t*) d)[i - 1] = ((const uint8_t*) s)[i - 1];
  return d;
}
void* realloc(void* p, size_t n) {
  uint8_t* q = (uint8_t*) malloc(n);
  if (p) {
    size_t o = __CPROVER_OBJECT_SIZE(p);
    for (size_t i = 0; i < o && i < n; i++) q[i] = ((uint8_t*) p)[i];
    free(p);
  }
  return q;
}
#endif
