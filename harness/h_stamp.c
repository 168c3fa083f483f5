/* The time source: whatever the platform's counter shows while a time stamp is
 * taken is what the library gets, whole, and nothing else. The x86 counter is
 * made to trap and answered from the case; the clocks and counters of other
 * platforms are stand-ins. */
#include "vf.h"
#include <time.h>
#include <errno.h>
#include <unistd.h>
#include "tsc.h"
#include "tshim/stamp.h"
void jent_get_nstime(uint64_t *out);
typedef void (*mock_cb)(void *, uint64_t *);
extern int jent_set_mock_timer(mock_cb, void *) __attribute__((weak));
extern int jent_mock_timer_active(void) __attribute__((weak));

static uint64_t seen[64]; static unsigned nseen;	/* readings of the platform's counter during the call */
static unsigned wrong; static const char *wrongname;	/* readings of anything else */
static int inlib, failing; static uint64_t cur;
static unsigned long calls;
static uint64_t counter(void)
{
	/* a counter of any width; consecutive readings differ, in either half */
	switch (vf_below(8)) {
	case 0: cur = vf_rnd(); break;
	case 1: cur = vf_rnd() >> vf_below(64); break;
	case 2: cur = 0xffffffffu - vf_below(3); break;
	case 3: cur = ((uint64_t)1 << vf_below(64)) + vf_below(3) - 1; break;
	case 4: cur = 0; break;
	default: cur += vf_range(1, 1u << vf_range(1, 31)); break;
	}
	return cur;
}
static uint64_t take(uint64_t v) { if (nseen < 64) seen[nseen++] = v; calls++; return v; }
static uint64_t other(const char *n) { wrong++; wrongname = n; return vf_rnd(); }
static void trap(void *a, uint64_t *o) { (void)a; *o = take(counter()); }
/* clocks */
int __wrap_clock_gettime(clockid_t id, struct timespec *t)
{
	if (!inlib) return clock_gettime(id, t);
	if (id != CLOCK_MONOTONIC && id != CLOCK_MONOTONIC_RAW) { t->tv_sec = (time_t)vf_below(1u << 31); t->tv_nsec = (long)vf_below(1000000000); other("a clock that can be set"); return 0; }
	if (failing) { t->tv_sec = (time_t)vf_below(1u << 31); t->tv_nsec = (long)vf_below(1000000000); errno = EINVAL; take(0); return -1; }
	switch (vf_below(4)) {
	case 0: t->tv_sec = (time_t)vf_below(1ULL << 32); break;
	case 1: t->tv_sec = (time_t)vf_below(5); break;
	case 2: t->tv_sec = (time_t)((1ULL << vf_below(32)) - 1); break;
	default: t->tv_sec = (time_t)vf_range(1, 1u << 28); break;
	}
	t->tv_nsec = vf_chance(1, 4) ? (vf_chance(1, 2) ? 0 : 999999999) : (long)vf_below(1000000000);
	take((uint64_t)t->tv_sec * 1000000000u + (uint64_t)t->tv_nsec);
	return 0;
}
int __wrap_gettimeofday(struct timeval *t, void *z) { (void)z; if (t) { t->tv_sec = (time_t)vf_below(1u << 31); t->tv_usec = (long)vf_below(1000000); } other("gettimeofday"); return 0; }
time_t __wrap_time(time_t *t) { time_t v = (time_t)vf_below(1u << 31); if (t) *t = v; other("time"); return v; }
clock_t __wrap_clock(void) { return (clock_t)other("clock"); }
int __wrap_timespec_get(struct timespec *t, int b) { t->tv_sec = 7; t->tv_nsec = 7; other("timespec_get"); return b; }
/* PowerPC */
uint64_t st_timebase(void) { return take(counter()); }
/* macOS on a processor without a counter instruction */
uint64_t mach_absolute_time(void) { return take(counter()); }
uint64_t mach_continuous_time(void) { return other("mach_continuous_time"); }
uint64_t mach_approximate_time(void) { return other("mach_approximate_time"); }
/* Windows on ARM */
int QueryPerformanceCounter(LARGE_INTEGER *t) { t->QuadPart = (int64_t)take(counter()); return 1; }
int QueryPerformanceFrequency(LARGE_INTEGER *t) { t->QuadPart = 10000000; return 1; }
uint32_t GetTickCount(void) { return (uint32_t)other("GetTickCount"); }
uint64_t GetTickCount64(void) { return other("GetTickCount64"); }
/* AIX: converted to seconds and nanoseconds by the second call */
static int converted;
int read_real_time(timebasestruct_t *t, size_t n) { (void)n; t->flag = RTC_POWER + 1; t->tb_high = (unsigned)vf_rnd(); t->tb_low = (unsigned)vf_rnd(); converted = 0; return t->flag; }
int time_base_to_time(timebasestruct_t *t, size_t n)
{
	(void)n;
	t->tb_high = vf_chance(1, 3) ? (unsigned)vf_rnd() : (unsigned)vf_below(1u << 20); t->tb_low = (unsigned)vf_below(1000000000);
	t->flag = RTC_POWER; converted = 1;
	take((uint64_t)t->tb_high * 1000000000u + t->tb_low);
	return 0;
}
/* kernel */
static uint64_t ent; static int ent_asked;
unsigned long random_get_entropy(void) { ent = failing || vf_chance(1, 6) ? 0 : counter(); ent_asked++; if (ent) take(ent); return (unsigned long)ent; }
uint64_t ktime_get_ns(void) { uint64_t v = counter(); if (ent_asked && !ent) take(v); else other("the clock although the counter answered"); return v; }
uint64_t ktime_get_raw_ns(void) { return ktime_get_ns(); }
uint64_t ktime_get_mono_fast_ns(void) { return ktime_get_ns(); }
uint64_t ktime_get_real_ns(void) { return other("ktime_get_real_ns"); }
uint64_t ktime_get_boottime_ns(void) { return other("ktime_get_boottime_ns"); }
uint64_t ktime_get_coarse_ns(void) { return other("ktime_get_coarse_ns"); }

struct src { int live; uint64_t v; unsigned n; };
static struct src S[3];
static void mock(void *a, uint64_t *o) { struct src *s = a; s->v = counter(); s->n++; *o = s->v; }
static void mock2(void *a, uint64_t *o) { struct src *s = a; s->v = ~counter(); s->n++; *o = s->v; }

static void run(void)
{
	unsigned i, k, n = 4000; int reg = -1;
	uint64_t h = 0;
	struct { uint64_t lo, v, hi; } g;
#ifdef S_TSC
	tsc_script(trap, NULL);
#endif
#ifndef S_MOCK
	if (jent_set_mock_timer || jent_mock_timer_active) vf_fail("replaceable", "a build without the option offers a replaceable time source");
#endif
	for (i = 0; i < n; i++) {
#ifdef S_MOCK
		if (vf_chance(1, 12)) {
			reg = vf_chance(1, 3) ? -1 : (int)vf_below(3);
			if (jent_set_mock_timer(reg < 0 ? NULL : reg & 1 ? mock2 : mock, reg < 0 ? NULL : &S[reg])) vf_fail("mock-refused", "registering a time source was refused");
			vf_count("registrations", 1);
		}
		if (!!jent_mock_timer_active() != (reg >= 0)) vf_fail("mock-active", "the registered time source is reported as %sactive", reg >= 0 ? "in" : "");
#endif
		failing = vf_chance(1, 8);
		nseen = wrong = 0; ent_asked = 0; converted = 0;
		for (k = 0; k < 3; k++) S[k].n = 0;
		g.lo = g.hi = 0x5a5a5a5a5a5a5a5aULL; g.v = vf_rnd();
		vf_describe("call %u, %s", i, reg >= 0 ? "replaced source" : "platform source");
		inlib = 1;
		jent_get_nstime(&g.v);
		inlib = 0;
		if (g.lo != 0x5a5a5a5a5a5a5a5aULL || g.hi != g.lo) vf_fail("overrun", "the time stamp was written beyond its place");
		if (reg >= 0) {
			for (k = 0; k < 3; k++) if ((int)k != reg && S[k].n) vf_fail("mock-wrong", "a time source that is no longer registered was asked");
			if (S[reg].n != 1) vf_fail("mock-count", "the registered time source was asked %u times for one time stamp", S[reg].n);
			if (g.v != S[reg].v) vf_fail("mock-value", "time stamp %#llx, the registered source said %#llx", (unsigned long long)g.v, (unsigned long long)S[reg].v);
			vf_count("replaced_stamps", 1);
			h = vf_mix(h, 0x100u + (unsigned)reg);
			continue;
		}
		for (k = 0; k < 3; k++) if (S[k].n) vf_fail("mock-wrong", "a deregistered time source was asked");
		if (wrong) vf_fail("other-source", "the time stamp involves %s", wrongname);
		if (!nseen) vf_fail("no-reading", "a time stamp %#llx was made without reading the platform's counter", (unsigned long long)g.v);
		for (k = 0; k < nseen && seen[k] != g.v; k++);
		if (k == nseen) vf_fail("value", "time stamp %#llx, the platform's counter showed %#llx", (unsigned long long)g.v, (unsigned long long)seen[nseen - 1]);
		vf_count("platform_stamps", 1);
		if (g.v >> 32) vf_count("wide_stamps", 1);
		if (!g.v) vf_count("zero_stamps", 1);
		h = vf_mix(h, (g.v ? 64 - (unsigned)__builtin_clzll(g.v) : 0) + (failing ? 0x200u : 0));
	}
	vf_state(h);
}
int main(int argc, char **argv) { return vf_main(argc, argv, run); }
