/* bprintf as an injective formatter: numbers become 16 letters a..p (most significant first).  use with stubs=FMT */
#include "bytes.h"
#include "json.h"
#include <stdarg.h>
#include <stdio.h>
#ifndef VF_FMT_MAX
#define VF_FMT_MAX 128
#endif
static void vf_put(char* o, uint32_t* n, uint32_t max, char c) {
  if (*n + 1 < max) o[(*n)++] = c;
}
static void vf_num(char* o, uint32_t* n, uint32_t max, uint64_t v, int digits) {
  for (int i = digits - 1; i >= 0; i--) vf_put(o, n, max, (char) ('a' + ((v >> (4 * i)) & 15)));
}
char* bprintf(buffer_t* buf, const char* f, ...) {
  char     tmp[VF_FMT_MAX];
  uint32_t n = 0;
  va_list  a;
  va_start(a, f);
  for (; *f; f++) {
    if (*f != '%') { vf_put(tmp, &n, VF_FMT_MAX, *f); continue; }
    f++;
    if (*f == 'l' || *f == 'd') {
      uint64_t v = *f == 'l' ? va_arg(a, uint64_t) : va_arg(a, uint32_t);
      if (f[1] == 'x') { f++; vf_put(tmp, &n, VF_FMT_MAX, 'x'); }
      vf_num(tmp, &n, VF_FMT_MAX, v, 16);
    }
    else if (*f == 's') {
      const char* s = va_arg(a, const char*);
      for (; s && *s; s++) vf_put(tmp, &n, VF_FMT_MAX, *s);
    }
    else if (*f == 'x') {
      bytes_t b = va_arg(a, bytes_t);
      for (uint32_t i = 0; i < b.len; i++) vf_num(tmp, &n, VF_FMT_MAX, b.data[i], 2);
    }
    else if (*f == 'j' || *f == 'J') {
      json_t j = va_arg(a, json_t);
      vf_put(tmp, &n, VF_FMT_MAX, '?');
    }
  }
  va_end(a);
  if (buf && buf->allocated < 0) {
    uint32_t lim = (uint32_t) -buf->allocated;
    uint32_t k   = buf->data.len;
    for (uint32_t i = 0; i < n; i++)
      if (k + 1 < lim) buf->data.data[k++] = (uint8_t) tmp[i];
    if (k < lim) buf->data.data[k] = 0;
    buf->data.len = k;
    return (char*) buf->data.data;
  }
  uint32_t o = buf ? buf->data.len : 0;
  char*    r = (char*) malloc(VF_FMT_MAX + o + 1);
  for (uint32_t i = 0; i < o; i++) r[i] = (char) buf->data.data[i];
  for (uint32_t i = 0; i < n; i++) r[o + i] = tmp[i];
  r[o + n] = 0;
  if (buf) {
    buf->data.data = (uint8_t*) r;
    buf->data.len  = o + n;
    buf->allocated = VF_FMT_MAX + o + 1;
  }
  return r;
}
void bytes_write(bytes_t data, FILE* f, bool close) {}
