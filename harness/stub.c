// Native side of the symbolic-input API: replays one recorded input vector.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
static uint64_t *vals; static size_t n, pos; static int loaded;
static void load(void) {
  loaded = 1;
  const char *p = getenv("VREPLAY");
  FILE *f = p ? fopen(p, "r") : 0;
  size_t cap = 0; unsigned long long x;
  if (!f) return;
  while (fscanf(f, "%llu", &x) == 1) {
    if (n == cap) { cap = cap ? cap * 2 : 64; vals = realloc(vals, cap * 8); }
    vals[n++] = x;
  }
  fclose(f);
}
uint64_t vsym_val(uint32_t bits) {
  if (!loaded) load();
  uint64_t v = pos < n ? vals[pos] : 0;
  pos++;
  return bits >= 64 ? v : v & ((1ull << bits) - 1);
}
uint64_t vsym_choice(uint64_t m) {
  uint64_t v = vsym_val(64);
  if (v >= m) { printf("ASSUME\n"); fflush(stdout); exit(4); }
  return v;
}
uint64_t vsym_concretize(uint64_t v) { return v; }
void vsym_assume(uint32_t c) { if (!c) { printf("ASSUME\n"); fflush(stdout); exit(4); } }
void vsym_check(uint32_t c, const char *m, size_t len) {
  if (!c) { printf("CHECK %.*s\n", (int)len, m); fflush(stdout); exit(3); }
}
void vsym_reach(uint32_t id) { printf("R%u\n", id); }
void vsym_observe(uint64_t v) { printf("O%llu\n", (unsigned long long)v); }
void vsym_done(void) { printf("DONE\n"); fflush(stdout); }
void vsym_stub(uint32_t id, uint32_t on) { (void)id; (void)on; }
