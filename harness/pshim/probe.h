/* stand-ins of the interfaces the cache discovery asks on other platforms */
#ifndef PROBE_H
#define PROBE_H
#include <stddef.h>
#include <stdint.h>
int pr_cpuid(unsigned leaf, unsigned sub, unsigned *a, unsigned *b, unsigned *c, unsigned *d);
int pr_sysctl(const char *n, void *o, size_t *len, void *p, size_t l);
int pr_glpi(int rel, void *buf, unsigned *len);
unsigned pr_lasterr(void);
extern struct pr_aix { int dcache_size, L2_cache_size, icache_size, dcache_asc; } pr_aix;
#endif
