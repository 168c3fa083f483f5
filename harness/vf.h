/* Common driver of the runtime-monitoring harnesses: every case runs in a
 * forked child (the library keeps process-wide state), reports through shared
 * memory, and is reproducible from (profile, seed, index). */
#ifndef VF_H
#define VF_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <stdint.h>
#include <stddef.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

struct vf_rng { uint64_t s[2]; };
void vf_rng_seed(struct vf_rng *r, uint64_t a, uint64_t b);
uint64_t vf_rng_next(struct vf_rng *r);
/* per-case generator */
extern struct vf_rng vf_r;
static inline uint64_t vf_rnd(void) { return vf_rng_next(&vf_r); }
static inline uint64_t vf_below(uint64_t n) { return n ? vf_rnd() % n : 0; }
static inline uint64_t vf_range(uint64_t a, uint64_t b) { return a + vf_below(b - a + 1); }
static inline int vf_chance(unsigned num, unsigned den) { return vf_below(den) < num; }

extern const char *vf_profile;
extern unsigned long vf_idx;
extern uint64_t vf_seed;
extern int vf_verbose;
extern int vf_thorough;

/* a violation: recorded with a stable key, ends the case */
void vf_fail(const char *key, const char *fmt, ...) __attribute__((format(printf, 2, 3), noreturn));
/* harness cannot judge this case (not a verdict on the library) */
void vf_inconclusive(const char *fmt, ...) __attribute__((format(printf, 1, 2), noreturn));
void vf_count(const char *name, uint64_t n);
void vf_state(uint64_t h);
void vf_sample(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
/* description of the running case, included in a violation record */
void vf_describe(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
static inline uint64_t vf_mix(uint64_t h, uint64_t v)
{
	h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
	h *= 0xff51afd7ed558ccdULL;
	return h ^ (h >> 33);
}
int vf_main(int argc, char **argv, void (*fn)(void));
#endif
