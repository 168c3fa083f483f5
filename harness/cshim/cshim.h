/* Stand-ins of the memory and FIPS interfaces of the crypto libraries the
 * Jitter RNG can be built against. Everything handed out is kept in a ledger
 * (h_backend.c); an arena can be absent, exhausted or silently bypassed. */
#ifndef CSHIM_H
#define CSHIM_H
#include <stddef.h>
#include <string.h>
void *be_secure(size_t n, int zero, int fatal);
void *be_plain(size_t n, int zero, int fatal);
/* kind: 0 either kind, 1 ordinary memory only */
void be_free(void *p, size_t clear, int kind);
int be_is_secure(const void *p);
int be_arena(void);
int be_fips(void);
static inline void be_cleanse(void *p, size_t n) { memset(p, 0, n); __asm__ __volatile__("" : : "r"(p) : "memory"); }
#endif
