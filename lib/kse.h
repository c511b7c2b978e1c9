/* Harness interface, implemented by the symbolic executor (kse/) and by native.c for replay. */
#ifndef KSE_H
#define KSE_H
#include <stdint.h>
#include <stddef.h>
uint64_t kse_sym(int bits, const char *name);      /* arbitrary value of `bits` bits */
uint32_t kse_choose(uint32_t n, const char *name); /* arbitrary value < n; one path per value */
void kse_assume(int c);
void kse_check(int c, const char *msg);            /* must hold for every input reaching it */
void kse_cover(const char *tag);                   /* reachability witness */
uint64_t kse_concretize(uint64_t v);               /* one path per feasible value */
void kse_end(void);                                /* end this path (successfully) */
void kse_note(const char *tag);                     /* tags later violations on this path (known findings); 0 clears */
void kse_obs(uint64_t v);                           /* observable: sampled paths must show the same values natively */
int kse_same(const void *a, const void *b, size_t n);   /* equal bytes */
void kse_dump(const char *n, uint64_t v);
int kse_tier(void);                                /* 0 quick, 1 thorough */
void harness_main(void);
#endif
