/* hex_to_bytes against a reference written from its documentation */
#include "bytes.h"
#include "vf.h"
#ifndef HEXMAX
#define HEXMAX 8
#endif
#ifndef OUTMAX
#define OUTMAX 5
#endif
static int nib(uint8_t c) {
  if (c >= '0' && c <= '9') return c - '0';
  if (c >= 'a' && c <= 'f') return c - 'a' + 10;
  if (c >= 'A' && c <= 'F') return c - 'A' + 10;
  return -1;
}
/* the hex string occupies exactly n bytes (no terminator): nothing outside may be read or written */
void h_hex_decode(void) {
  uint32_t n   = nd_range(0, HEXMAX);
  uint32_t cap = nd_range(0, OUTMAX);
  uint8_t* s   = nd_block(HEXMAX) + HEXMAX - n; /* ends with the allocation */
  uint8_t* ob  = malloc(OUTMAX + 1);
  uint8_t* out = ob + OUTMAX - cap; /* one spare byte keeps a zero-sized target inside the block */
  for (uint32_t i = 0; i <= OUTMAX; i++) ob[i] = 0xAA;
  uint8_t in[HEXMAX];
  for (uint32_t i = 0; i < HEXMAX; i++) in[i] = i < n ? s[i] : 0;
  int r = hex_to_bytes((char*) s, (int) n, bytes(out, cap));

  vf_assert(ob[OUTMAX] == 0xAA, "nothing written behind the target");
  for (uint32_t i = 0; i < OUTMAX; i++)
    if (i < OUTMAX - cap) vf_assert(ob[i] == 0xAA, "nothing written before the target");

  uint32_t off = (n >= 2 && in[0] == '0' && in[1] == 'x') ? 2 : 0;
  bool     ok  = true;
  uint8_t  exp[HEXMAX];
  uint32_t digits = n - off, m = (digits + 1) / 2;
  for (uint32_t i = 0; i < HEXMAX; i++) exp[i] = 0;
  for (uint32_t i = 0; i < HEXMAX; i++)
    if (i >= off && i < n) {
      int v = nib(in[i]);
      if (v < 0) ok = false;
      uint32_t pos = (i - off) + (digits & 1); /* nibble position when padded to even length */
      exp[pos / 2] |= (pos & 1) ? v : v << 4;
    }
  if (!ok || m > cap)
    vf_assert(r == -1, "invalid or oversized hex is rejected");
  else {
    vf_assert(r == (int) m, "valid hex decodes to the exact number of bytes");
    for (uint32_t i = 0; i < OUTMAX; i++)
      if (i < m) vf_assert(out[i] == exp[i], "valid hex decodes to the right bytes");
    if (m == 3 && (digits & 1)) REACH("odd");
    if (m == 3 && off) REACH("prefixed");
  }
}
