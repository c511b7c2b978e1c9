/* Replay runtime: reads the solver's assignment (file named by KSE_REPLAY) and runs the harness on the real libc. */
#include "kse.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
static FILE *f; static int tier; static int nchecks;
static uint64_t next(char kind, const char *name) {
	char k, n[256]; unsigned long long v;
	if (!f || fscanf(f, " %c %255s %llu", &k, n, &v) != 3) { fprintf(stderr, "REPLAY: input exhausted at %s\n", name); fflush(stderr); _exit(78); }
	if (k != kind || strcmp(n, name)) { fprintf(stderr, "REPLAY: input mismatch: file %c %s, program %c %s\n", k, n, kind, name); _exit(79); }
	if (getenv("KSE_TRACE")) fprintf(stderr, "input %s = %llu\n", name, v);
	return v;
}
uint64_t kse_sym(int bits, const char *name) { uint64_t v = next('S', name); return bits >= 64 ? v : v & ((1ull << bits) - 1); }
uint32_t kse_choose(uint32_t n, const char *name) { uint32_t v = next('C', name); if (v >= n) { fprintf(stderr, "REPLAY: choice out of range\n"); _exit(79); } return v; }
void kse_assume(int c) { if (!c) { fprintf(stderr, "REPLAY: assumption does not hold\n"); _exit(77); } }
void kse_check(int c, const char *msg) { nchecks++; if (!c) { fprintf(stderr, "REPLAY: CHECK FAILED: %s\n", msg); fflush(stderr); _exit(42); } }
void kse_cover(const char *tag) { if (getenv("KSE_TRACE")) fprintf(stderr, "cover %s\n", tag); }
void kse_note(const char *tag) {}
void kse_obs(uint64_t v) { fprintf(stderr, "OBS %llu\n", (unsigned long long)v); }
uint64_t kse_concretize(uint64_t v) { return v; }
void kse_end(void) { fprintf(stderr, "REPLAY: completed, %d checks held\n", nchecks); fflush(stderr); _exit(0); }
int kse_same(const void *a, const void *b, size_t n) { return !memcmp(a, b, n); }
void kse_dump(const char *n, uint64_t v) { fprintf(stderr, "DUMP %s: %lld\n", n, (long long)v); }
int kse_tier(void) { return tier; }
int main(int argc, char **argv) {
	if (argc > 1) f = fopen(argv[1], "r");
	if (getenv("KSE_TIER")) tier = atoi(getenv("KSE_TIER"));
	if (f) { char line[4096]; long pos; while ((pos = ftell(f)), fgets(line, sizeof line, f)) if (line[0] != '#') { fseek(f, pos, SEEK_SET); break; } }
	harness_main();
	kse_end();
	return 0;
}
