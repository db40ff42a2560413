/* texts are irrelevant for the property: bprintf yields an arbitrary non-null text, nothing is logged.
 * (a buffer argument is left as it is)  use with stubs=QUIET */
#include "bytes.h"
#include <stdio.h>
char* bprintf(buffer_t* b, const char* f, ...) {
  char* p = (char*) malloc(2);
  p[0]    = 'e';
  p[1]    = 0;
  return p;
}
void bytes_write(bytes_t data, FILE* f, bool close) {}
