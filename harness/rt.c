// Native implementations of the symbolic intrinsics: used when a solver model is replayed
// against the compiled code. The symbolic engine never looks at these bodies.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <time.h>
static unsigned char *in; static size_t n_in, pos; static uint64_t par;
void rt_set(const unsigned char *p, size_t n, uint64_t param) { in = (unsigned char *)p; n_in = n; pos = 0; par = param; }
void sym_bytes(unsigned char *p, size_t n) {
  for (size_t i = 0; i < n; i++) p[i] = pos < n_in ? in[pos] : 0, pos++;
}
void sym_assume(_Bool b) { if (!b) { printf("ASSUME\n"); fflush(stdout); _Exit(77); } }
void sym_assert(_Bool b, uint64_t code) { if (!b) { printf("ASSERT %llu\n", (unsigned long long)code); fflush(stdout); _Exit(99); } }
void sym_emit(uint64_t v) { printf("E %llx\n", (unsigned long long)v); }
void sym_cover(uint64_t v) { (void)v; }
uint64_t sym_concretize(uint64_t v) { return v; }
/* Instructions executed and bytes allocated so far: known to the engine only. For the confirmation of what it
   reports, larger inputs are run and the processor time takes their place. */
static int costs(void) {
  static int c = -1;
  if (c < 0) c = getenv("VERIF_COST") != NULL;
  return c;
}
uint64_t sym_cost(void) {
  struct timespec t;
  if (!costs()) return 0;
  clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t);
  return (uint64_t)t.tv_sec * 1000000000 + (uint64_t)t.tv_nsec;
}
uint64_t sym_scale(void) { return costs() ? 32 : 1; }
uint64_t sym_mem(void) { return 0; }
uint64_t sym_param(void) { return par; }
void rt_done(void) { printf("OK\n"); fflush(stdout); }
