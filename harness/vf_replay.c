/* run-time half of vf.h: feeds the values of a counterexample to a natively compiled harness */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static uint64_t* vals;
static size_t    nvals, pos;
static const char* want;
static void      load(void) {
  const char* f = getenv("VF_VALUES");
  want          = getenv("VF_REACH");
  vals          = malloc(8 * 4000000);
  if (!f) return;
  FILE* fp = fopen(f, "r");
  if (!fp) { fprintf(stderr, "no values file\n"); exit(3); }
  unsigned long long v;
  while (nvals < 4000000 && fscanf(fp, "%llu", &v) == 1) vals[nvals++] = v;
  fclose(fp);
}
uint64_t vf_next(void) {
  if (!vals) load();
  return pos < nvals ? vals[pos++] : 0;
}
void vf_fail(const char* msg, const char* file, int line) {
  fprintf(stderr, "VF_ASSERTION_FAILED: %s (%s:%d)\n", msg, file, line);
  fflush(stderr);
  _Exit(99);
}
void vf_reached(const char* label) {
  if (!vals) load();
  if (want && strcmp(want, label) == 0) { fprintf(stderr, "VF_REACHED %s\n", label); _Exit(98); }
}
void vf_assume_failed(void) {
  fprintf(stderr, "VF_ASSUMPTION_NOT_MET\n");
  _Exit(77);
}
void VF_ENTRY(void);
int  main(void) {
  load();
  VF_ENTRY();
  fprintf(stderr, "VF_DONE\n");
  _Exit(0);
}
