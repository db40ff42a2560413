/* JSON conversions */
#include "json.h"
#include "vf.h"
#ifndef N
#define N 6
#endif
/* the C library's conversion is trusted: what matters is the text it is given */
static const char* dec_seen;
static char        dec_text[32];
static int         dec_calls;
static uint64_t    dec_result;
unsigned long long strtoull(const char* s, char** e, int base) {
  dec_calls++;
  vf_assert(base == 10, "decimal conversion");
  for (int i = 0; i < 32; i++) {
    dec_text[i] = s[i];
    if (!s[i]) break;
  }
  dec_result = nd_u64();
  return dec_result;
}
static int nib(uint8_t c) {
  if (c >= '0' && c <= '9') return c - '0';
  if (c >= 'a' && c <= 'f') return c - 'a' + 10;
  if (c >= 'A' && c <= 'F') return c - 'A' + 10;
  return -1;
}
/* "0x..." with D characters after the prefix (a separate query per D) */
#ifndef D
#define D 16
#endif
void h_uint_hex(void) {
  char* t = (char*) nd_block(D + 5);
  t[0] = '"'; t[1] = '0'; t[2] = 'x'; t[D + 3] = '"'; t[D + 4] = 0;
  json_t   v   = {.type = JSON_TYPE_STRING, .start = t, .len = D + 4};
  uint64_t e   = 0;
  bool     ok  = true;
  for (int i = 0; i < D; i++) {
    int x = nib((uint8_t) t[3 + i]);
    if (x < 0) ok = false;
    e = e << 4 | (uint64_t) (x & 15);
  }
  uint64_t r = json_as_uint64(v);
  if (!ok || D > 16) vf_assert(r == 0, "malformed or oversized hex numbers yield 0");
  else vf_assert(r == e, "hex numbers convert exactly");
  if (D > 16 || (ok && e > 1)) REACH("value");
}
#ifndef Q
#define Q 0
#endif
/* D digits, plain (Q=0) or in quotes (Q=1): exactly these digits are converted */
void h_uint_dec(void) {
  char* t = (char*) malloc(D + 3);
  if (Q) { t[0] = '"'; t[D + 1] = '"'; t[D + 2] = 0; }
  else { t[D] = ','; t[D + 1] = '1'; t[D + 2] = 0; }
  for (int i = 0; i < D; i++) {
    char c = nd_u8();
    assume(c >= '0' && c <= '9');
    t[i + Q] = c;
  }
  json_t   v = {.type = Q ? JSON_TYPE_STRING : JSON_TYPE_NUMBER, .start = t, .len = Q ? D + 2 : D};
  uint64_t r = json_as_uint64(v);
  vf_assert(dec_calls == 1 && r == dec_result, "the converted number is returned");
  for (int i = 0; i < D; i++) vf_assert(dec_text[i] == t[i + Q], "all digits are converted");
  vf_assert(dec_text[D] == 0, "nothing but the digits is converted");
  REACH("value");
}
/* hex string into a target of CAPN bytes */
#ifndef CAPN
#define CAPN 3
#endif
void h_to_bytes(void) {
  uint32_t n = nd_range(0, N);
  char*    b = (char*) nd_block(N + 3) + N - n; /* "<n chars>"\0 */
  b[0] = '"'; b[n + 1] = '"'; b[n + 2] = 0;
  uint8_t* tb = malloc(CAPN + 1);
  for (int i = 0; i <= CAPN; i++) tb[i] = 0xAA;
  uint8_t* t  = tb + 1;
  json_t   v  = {.type = JSON_TYPE_STRING, .start = b, .len = n + 2};
  uint32_t r  = json_to_bytes(v, bytes(t, CAPN));
  vf_assert(tb[0] == 0xAA, "nothing written before the target");
  uint32_t off = n >= 2 && b[1] == '0' && b[2] == 'x' ? 2 : 0, m = (n - off + 1) / 2;
  bool     ok  = m <= CAPN;
  for (uint32_t i = 0; i < N; i++) if (i >= off && i < n && nib((uint8_t) b[1 + i]) < 0) ok = false;
  vf_assert(r == (ok ? m : 0), "the number of bytes is exact, malformed or oversized input yields none");
  if (ok)
    for (uint32_t i = 0; i < CAPN; i++)
      if (i < m) {
        uint32_t last = n - 2 * (m - 1 - i); /* index of low nibble (1-based in b) */
        int      hi   = last >= 2 + off ? nib((uint8_t) b[last - 1]) : 0;
        vf_assert(t[i] == (uint8_t) (hi << 4 | nib((uint8_t) b[last])), "the bytes are exact");
      }
  if (ok && m == 3) REACH("three bytes");
}
/* unescaping */
void h_string(void) {
  char*  b = (char*) nd_block(N + 3);
  b[0] = '"'; b[N + 1] = '"'; b[N + 2] = 0;
  bool     esc = false, bad = false;
  uint8_t  exp[N + 1];
  uint32_t m = 0;
  for (int i = 1; i <= N; i++) {
    uint8_t c = (uint8_t) b[i];
    assume(c != 0);
    if (esc) {
      esc = false;
      switch (c) {
        case '"': case '\\': case '/': exp[m++] = c; break;
        case 'b': exp[m++] = '\b'; break;
        case 'f': exp[m++] = '\f'; break;
        case 'n': exp[m++] = '\n'; break;
        case 'r': exp[m++] = '\r'; break;
        case 't': exp[m++] = '\t'; break;
        default: bad = true;
      }
    }
    else if (c == '\\') esc = true;
    else {
      assume(c != '"');
      exp[m++] = c;
    }
  }
  assume(!esc && !bad);
  uint8_t  tmp[N + 4];
  buffer_t buf = stack_buffer(tmp);
  char*    r   = json_as_string((json_t) {.type = JSON_TYPE_STRING, .start = b, .len = N + 2}, &buf);
  for (uint32_t i = 0; i < N; i++)
    if (i < m) vf_assert((uint8_t) r[i] == exp[i], "escape sequences are decoded");
  vf_assert(r[m] == 0, "the decoded string is terminated");
  if (m == N - 2) REACH("two escapes");
}
void h_string_unicode(void) {
  char* b = (char*) nd_block(10);
  b[0] = '"'; b[1] = '\\'; b[2] = 'u'; b[8] = '"'; b[9] = 0;
  uint32_t cp = 0;
  for (int i = 0; i < 4; i++) { int x = nib((uint8_t) b[3 + i]); assume(x >= 0); cp = cp << 4 | x; }
  assume(b[7] != '"' && b[7] != '\\' && b[7]);
  assume(cp != 0);
  uint8_t  tmp[12];
  buffer_t buf = stack_buffer(tmp);
  uint8_t* r   = (uint8_t*) json_as_string((json_t) {.type = JSON_TYPE_STRING, .start = b, .len = 9}, &buf);
  uint32_t m;
  if (cp < 0x80) { m = 1; vf_assert(r[0] == cp, "1 byte UTF-8"); }
  else if (cp < 0x800) { m = 2; vf_assert(r[0] == (0xC0 | cp >> 6) && r[1] == (0x80 | (cp & 63)), "2 byte UTF-8"); }
  else { m = 3; vf_assert(r[0] == (0xE0 | cp >> 12) && r[1] == (0x80 | (cp >> 6 & 63)) && r[2] == (0x80 | (cp & 63)), "3 byte UTF-8"); }
  vf_assert(r[m] == (uint8_t) b[7] && r[m + 1] == 0, "the rest of the string follows");
  if (m == 3) REACH("three");
}
/* a fixed target that is too small: truncated, terminated, nothing written outside */
void h_string_fixed(void) {
  char* b = (char*) nd_block(N + 3);
  b[0] = '"'; b[N + 1] = '"'; b[N + 2] = 0;
  for (int i = 1; i <= N; i++) assume(b[i] && b[i] != '"' && b[i] != '\\');
  bool     str = nd_bool();
  uint8_t* t   = malloc(4);
  buffer_t buf = {.data = bytes(t, 0), .allocated = -4};
  json_as_string((json_t) {.type = str ? JSON_TYPE_STRING : JSON_TYPE_NUMBER, .start = b, .len = N + 2}, &buf);
  vf_assert(t[3] == 0 && t[0] == (uint8_t) (str ? b[1] : b[0]), "truncated conversion is terminated");
  REACH("end");
}
