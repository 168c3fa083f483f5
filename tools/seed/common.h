#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <errno.h>
#include <unistd.h>
#include <sys/mman.h>
#include "jitterentropy.h"
#include "jitterentropy-internal.h"
#include "jitterentropy-health.h"
#include "jitterentropy-sha3.h"
#include "jitterentropy-noise.h"
/* a good timer that can be disturbed; every reading moves it */
static uint64_t tm_now = 1000, tm_seed = 88172645463325252ULL, tm_reads, tm_scale = 1;
static uint64_t tm_rnd(void) { tm_seed ^= tm_seed << 13; tm_seed ^= tm_seed >> 7; tm_seed ^= tm_seed << 17; return tm_seed; }
static int tm_const;	/* >0: that many readings advance by a constant */
static void tm(void *a, uint64_t *o)
{
	(void)a;
	tm_reads++;
	if (tm_const > 0) { tm_const--; tm_now += 50; } else tm_now += 20 + tm_rnd() % 5000;
	*o = tm_now * tm_scale;
}
#define CHECK(c, ...) do { if (!(c)) { printf("FAIL: " __VA_ARGS__); printf("\n"); exit(1); } } while (0)
