/* Arbitrary calls of the public interface with corner-value arguments and
 * arbitrary time stamps, for the sanitizers. Allocations of the library are
 * bounded to the byte for the address sanitizer, caller buffers end at an
 * inaccessible page and are preceded by canaries, mappings and threads are
 * accounted for. */
#include "vf.h"
#include "jitterentropy.h"
#include "arch/jitterentropy-arch-timer.h"
#include "json.h"
#include <errno.h>
#include <limits.h>
#include <pthread.h>
#include <unistd.h>
#include <sys/mman.h>

void __asan_poison_memory_region(void const volatile *, size_t) __attribute__((weak));
void __asan_unpoison_memory_region(void const volatile *, size_t) __attribute__((weak));
void __msan_allocated_memory(const volatile void *, size_t) __attribute__((weak));
void __msan_check_mem_is_initialized(const volatile void *, size_t) __attribute__((weak));
int __msan_unused;
/* ---- time ---- */
static uint64_t now; static int kind; static unsigned long callreads, rescue_at; static uint64_t step; static int phase;
static unsigned long mocked, internal_stamps;
static uint64_t good(void) { now += 20 + vf_rnd() % 6000; return now; }
static void mock(void *a, uint64_t *o)
{
	(void)a;
	mocked++;
	callreads++;
	if (callreads > 60000000UL) vf_fail("no-end", "a call does not end");
	if (callreads > rescue_at) { *o = good(); return; }
	switch (kind) {
	case 0: *o = good(); return;
	case 1: *o = now; return;
	case 2: *o = 0; return;
	case 3: now += step; *o = now; return;
	case 4: now -= step; *o = now; return;
	case 5: *o = vf_rnd(); return;
	case 6: phase ^= 1; *o = phase ? 0 : UINT64_MAX; return;
	case 7: now += vf_rnd() % 3; *o = now; return;
	case 8: now += (vf_rnd() % 50) * 100; *o = now; return;
	case 9: *o = vf_rnd() & 1 ? (uint64_t)1 << vf_below(64) : good(); return;
	case 10: phase = (phase + 1) % 7; now += 100 + (uint64_t)phase * 3; *o = now; return;
	case 11: now = (now & 0xffffffffu) + 1000 + vf_rnd() % 5000; *o = now; return;	/* 32 bit counter wrapping */
	default: *o = vf_chance(1, 40) ? vf_rnd() : good(); return;
	}
}
static void timekind(void)
{
	static const uint64_t steps[] = { 0, 1, 2, 100, 512, 0x7fffffff, 0x80000000u, 0xffffffffu, 0x100000000ULL, 0x7fffffffffffffffULL, 0x8000000000000000ULL, UINT64_MAX };
	callreads = 0; rescue_at = vf_range(1, 30000);
	kind = vf_chance(3, 5) ? 0 : (int)vf_below(13);
	step = steps[vf_below(sizeof(steps) / sizeof(steps[0]))];
	if (vf_chance(1, 4)) now = vf_chance(1, 2) ? UINT64_MAX - vf_below(100000) : vf_rnd();
}
/* A stamp of the internal timer costs a scheduling period when all processors are busy, so a case takes
 * its first thousand from the timer thread and the others from the script every other stamp comes from. */
void __real_jent_get_nstime_internal(struct rand_data *ec, uint64_t *out) __attribute__((weak));
void __wrap_jent_get_nstime_internal(struct rand_data *ec, uint64_t *out);
void __wrap_jent_get_nstime_internal(struct rand_data *ec, uint64_t *out)
{
	unsigned long m = mocked;
	if (internal_stamps >= 1000) { mock(NULL, out); return; }
	__real_jent_get_nstime_internal(ec, out);
	if (mocked == m) { internal_stamps++; vf_count("internal_stamps", 1); }
}
/* ---- library memory, to the byte ---- */
static unsigned long zallocs;
void *__real_jent_zalloc(size_t n, unsigned f);
void *__wrap_jent_zalloc(size_t n, unsigned f)
{
	unsigned char *p = __real_jent_zalloc(n, f); size_t i, t = (n + 4095) & ~(size_t)4095;
	if (!p) return p;
	zallocs++;
	for (i = 0; i < n; i += i < 256 ? 1 : 997) if (p[i]) vf_fail("not-zeroed", "fresh memory not zero");
	if (__asan_poison_memory_region && ((uintptr_t)p & 4095) == 0 && t > n) __asan_poison_memory_region(p + n, t - n);
	return p;
}
void __real_jent_zfree(void *p, size_t n);
void __wrap_jent_zfree(void *p, size_t n)
{
	size_t t = (n + 4095) & ~(size_t)4095;
	if (p && __asan_unpoison_memory_region && ((uintptr_t)p & 4095) == 0 && t > n) __asan_unpoison_memory_region((unsigned char *)p + n, t - n);
	__real_jent_zfree(p, n);
}
static struct { void *p; size_t n; } M[256]; static int nM; static unsigned long maps;
void *__real_mmap(void *, size_t, int, int, int, off_t);
void *__wrap_mmap(void *a, size_t n, int pr, int fl, int fd, off_t o)
{
	void *r = __real_mmap(a, n, pr, fl, fd, o);
	if (r != MAP_FAILED) { if (nM == 256) vf_fail("leak", "256 mappings live"); M[nM].p = r; M[nM++].n = n; maps++; }
	return r;
}
int __real_munmap(void *, size_t);
int __wrap_munmap(void *a, size_t n)
{
	int i;
	for (i = 0; i < nM; i++) if (M[i].p == a) break;
	if (i == nM || M[i].n != n) vf_fail("unmap-unknown", "munmap(%p,%zu) does not match a mapping", a, n);
	M[i] = M[--nM];
	if (__asan_unpoison_memory_region) __asan_unpoison_memory_region(a, n);
	return __real_munmap(a, n);
}
static int mlock_fail;
int __real_mlock(const void *, size_t);
int __wrap_mlock(const void *a, size_t n) { (void)a; (void)n; if (mlock_fail) { errno = EPERM; return -1; } return 0; }
static int threads;
int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *at, void *(*fn)(void *), void *a) { int r = __real_pthread_create(t, at, fn, a); if (!r) threads++; return r; }
int __real_pthread_join(pthread_t, void **);
int __wrap_pthread_join(pthread_t t, void **rv) { int r = __real_pthread_join(t, rv); if (!r) threads--; return r; }
static int fips;
int __real_jent_fips_enabled(void);
int __wrap_jent_fips_enabled(void) { return fips ? 1 : 0; }
/* ---- caller buffers ---- */
#define AREA (1u << 20)
static int cbdepth;
static unsigned char *areas[2];
#define area areas[cbdepth]
static unsigned char *bufptrs[2]; static size_t buflens[2];
#define bufptr bufptrs[cbdepth]
#define buflen_ buflens[cbdepth]
static char *getbuf(size_t n)
{
	/* ends exactly at the inaccessible page */
	size_t i, pre = (size_t)(AREA - n) < 256 ? AREA - n : 256;
	bufptr = area + AREA - n; buflen_ = n;
	for (i = 0; i < pre; i++) bufptr[-(long)i - 1] = (unsigned char)(0x5c ^ i);
	memset(bufptr, 0x77, n);
	if (__msan_allocated_memory) __msan_allocated_memory(bufptr, n);
	return (char *)bufptr;
}
static void chkbuf(const char *op)
{
	size_t i, pre = (size_t)(AREA - buflen_) < 256 ? AREA - buflen_ : 256;
	for (i = 0; i < pre; i++) if (bufptr[-(long)i - 1] != (unsigned char)(0x5c ^ i)) vf_fail("write-outside", "%s wrote %zu bytes before the buffer of %zu", op, i + 1, buflen_);
}
/* ---- operations ---- */
#define NE 4
static struct rand_data *E[NE];
static void nop_js(void *a, const char *p, char t, const char *v) { (void)a; (void)p; (void)t; (void)v; }
static void op_status(struct rand_data *ec)
{
	size_t n = vf_chance(1, 4) ? vf_below(8) : vf_chance(1, 2) ? vf_below(3000) : 8192; char *b; int r;
	if (vf_chance(1, 20)) { if (!jent_status(ec, NULL, vf_chance(1, 2) ? 0 : 4096)) vf_fail("status", "status into no buffer succeeded"); return; }
	b = getbuf(n);
	r = jent_status(ec, b, n);
	chkbuf("status");
	if (r != 0 && r != -1) vf_fail("code", "status returned %d", r);
	if (n && !memchr(b, 0, n)) vf_fail("status-unterminated", "status of %zu bytes not terminated", n);
	if (!r) { if (js_parse(b, nop_js, NULL)) vf_fail("status", "status is not well-formed"); if (__msan_check_mem_is_initialized) __msan_check_mem_is_initialized(b, strlen(b)); }
}
static void op_uuid(struct rand_data *ec)
{
	size_t n = vf_chance(1, 2) ? vf_range(30, 45) : vf_below(100); char *b; int r;
	if (vf_chance(1, 10)) { if (!jent_uuid(ec, NULL, 37)) vf_fail("uuid", "identifier into no buffer succeeded"); return; }
	b = getbuf(n); r = jent_uuid(ec, b, n); chkbuf("uuid");
	if (r != 0 && r != -1) vf_fail("code", "uuid returned %d", r);
	if (!r && (!ec || (!cbdepth && (n < 37 || strlen(b) != 36)))) vf_fail("uuid", "identifier of %zu bytes in a buffer of %zu", strlen(b), n);
}
static unsigned rflags(void)
{
	unsigned f = (unsigned)vf_rnd() & 0x7f;	/* all mode bits */
	if (vf_chance(2, 3)) f = 0;
	if (vf_chance(1, 3)) f |= JENT_FORCE_FIPS;
	if (vf_chance(1, 8)) f |= JENT_NTG1;
	if (vf_chance(1, 10)) f |= JENT_DISABLE_MEMORY_ACCESS;
	if (vf_chance(1, 8)) f |= JENT_FORCE_INTERNAL_TIMER;
	if (vf_chance(1, 8)) f |= JENT_DISABLE_INTERNAL_TIMER;
	if (vf_chance(1, 8)) f |= JENT_FORCE_SECURE_MEM;
	if (vf_chance(1, 12)) f |= JENT_CACHE_ALL;
	if (vf_chance(1, 12)) f |= JENT_DISABLE_STIR | JENT_DISABLE_UNBIAS;
	f &= 0x0000ffffu;
	f |= vf_chance(1, 40) ? (unsigned)vf_rnd() & 0x00ff0000u : 0;
	if (vf_chance(1, 40)) f |= (unsigned)vf_rnd() & 0xf8000000u;
	else {
		f &= ~(unsigned)JENT_CACHE_ALL | (vf_chance(1, 10) ? JENT_CACHE_ALL : 0);
		f |= JENT_MAX_MEMSIZE_TO_FLAGS((unsigned)vf_range(1, vf_chance(1, 8) ? 12 : 6));
	}
	if (vf_chance(1, 4)) f |= JENT_HASHLOOP_TO_FLAGS((unsigned)vf_below(vf_chance(1, 5) ? 8 : 3));
	if (vf_chance(1, 200)) f = (unsigned)vf_rnd();
	return f;
}
static unsigned rosr(void)
{
	static const unsigned c[] = { 0, 1, 2, 3, 4, 19, 20, 21, 22, 255, 256, 0x7fffffff, 0x80000000u, UINT_MAX };
	return vf_chance(3, 4) ? (unsigned)vf_below(7) : c[vf_below(sizeof(c) / sizeof(c[0]))];
}
static void op_init(void)
{
	int r;
	timekind();
	r = vf_chance(1, 3) ? jent_entropy_init() : jent_entropy_init_ex(rosr(), rflags());
	if (r < 0 || r > 13) vf_fail("code", "initialisation returned %d", r);
	vf_state(vf_mix(1, (uint64_t)r * 16 + (uint64_t)kind));
	vf_count(r ? "init_refused" : "init_passed", 1);
}
static void op_alloc(int k)
{
	unsigned f = rflags(), o = rosr();
	timekind();
	if (E[k]) { jent_entropy_collector_free(E[k]); E[k] = NULL; }
	E[k] = jent_entropy_collector_alloc(o, f);
	vf_describe("alloc%d o=%u f=%x t%d=%d; ", k, o, f, kind, E[k] != NULL);
	vf_state(vf_mix(vf_mix(2, f), (uint64_t)(E[k] != NULL) * 64 + o));
	vf_count(E[k] ? "instances" : "alloc_refused", 1);
}
static void op_read(int k)
{
	static const size_t ls[] = { 0, 1, 2, 7, 8, 9, 31, 32, 33, 63, 64, 65, 96, 100, 1000 };
	size_t n = vf_chance(1, 80) ? vf_range(500, 3000) : ls[vf_below(vf_chance(1, 20) ? 15 : 14)]; char *b; ssize_t r; int safe = vf_chance(1, 2); struct rand_data *nul = NULL;
	timekind();
	if (vf_chance(1, 15)) {	/* misuse */
		size_t big = vf_chance(1, 2) ? SIZE_MAX - vf_below(100) : (size_t)SSIZE_MAX + vf_below(3) - 1;
		switch (vf_below(4)) {
		case 0: r = safe ? jent_read_entropy_safe(&nul, (char *)area, 32) : jent_read_entropy(NULL, (char *)area, 32); break;
		case 1: r = jent_read_entropy_safe(NULL, (char *)area, 32); break;
		case 2: r = safe ? (E[k] ? jent_read_entropy_safe(&E[k], NULL, big) : -1) : jent_read_entropy(E[k], NULL, big); break;
		default: r = jent_read_entropy(E[k], NULL, vf_range(1, 64)); break;
		}
		if (r != JENT_ERR_EINVAL) vf_fail("misuse", "misused read returned %zd", r);
		vf_count("misuses", 1);
		return;
	}
	if (!E[k]) return;
	if (!n && vf_chance(1, 2)) { r = safe ? jent_read_entropy_safe(&E[k], NULL, 0) : jent_read_entropy(E[k], NULL, 0); b = NULL; }
	else { b = getbuf(n); r = safe ? jent_read_entropy_safe(&E[k], b, n) : jent_read_entropy(E[k], b, n); chkbuf("read"); }
	if (r > 0 && (size_t)r != n) vf_fail("code", "read of %zu returned %zd", n, r);
	if (r == 0 && n) vf_fail("code", "read of %zu returned 0", n);
	if (r < -11) vf_fail("code", "read returned %zd", r);
	if (r < 0 && r != JENT_ERR_NOTIME && !safe && vf_chance(1, 3)) {	/* a failed instance refuses, however much is asked for */
		size_t big = vf_chance(1, 2) ? SIZE_MAX - vf_below(100) : (size_t)SSIZE_MAX + vf_below(3) - 1; ssize_t r2;
		b = getbuf(0); r2 = jent_read_entropy(E[k], b, big); chkbuf("read");
		if (r2 >= 0) vf_fail("code", "read of %zu on an instance that had just failed with %zd returned %zd", big, r, r2);
		vf_count("maximal_reads", 1);
	}
	if (!E[k]) vf_fail("handle", "handle gone after a read");
	if (r > 0 && __msan_check_mem_is_initialized) __msan_check_mem_is_initialized(b, n);
	vf_describe("%s%d %zu t%d=%zd; ", safe ? "safe" : "read", k, n, kind, r);
	vf_state(vf_mix(3 + (uint64_t)safe, (uint64_t)(r + 20) * 64 + (uint64_t)kind));
	vf_count(r < 0 ? "reads_failed" : "reads", 1);
}
static void cb(struct rand_data *ec, unsigned m)
{
	int k;
	if (cbdepth || !m) return;
	cbdepth++;
	switch (vf_below(5)) {
	case 0: op_status(ec); break;
	case 1: (void)jent_selftest(NULL); break;
	case 2: op_uuid(ec); break;
	case 3: for (k = 0; k < NE; k++) if (E[k] && E[k] != ec) break;
		(void)jent_version(); break;
	default: break;
	}
	cbdepth--;
	vf_count("callbacks", 1);
}
static void run(void)
{
	int i, k, n = (int)vf_range(6, 22);
	for (i = 0; i < 2; i++) {
		areas[i] = mmap(NULL, AREA + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		if (areas[i] == MAP_FAILED || mprotect(areas[i] + AREA, 4096, PROT_NONE)) vf_inconclusive("no buffer");
	}
	now = 1u << 30;
	fips = vf_chance(1, 10);
	mlock_fail = vf_chance(1, 8);
	jent_set_mock_timer(mock, NULL);
	if (vf_chance(3, 4)) jent_set_fips_failure_callback(cb);
	if (vf_chance(1, 10)) jent_entropy_set_notime_cpu(vf_chance(1, 2) ? ULONG_MAX : vf_below(2000));
	if (vf_chance(1, 10)) { void *c = NULL; if (!jent_notime_init(&c)) jent_notime_fini(c); jent_notime_fini(NULL); }
	for (i = 0; i < n; i++) {
		k = (int)vf_below(NE);
		if (!E[k]) k = (int)vf_below(NE);
		if (!E[k] && vf_chance(1, 2)) { op_alloc(k); continue; }
		switch (vf_below(14)) {
		case 0: op_init(); break;
		case 1: op_alloc(k); break;
		case 2: case 3: case 4: case 5: case 6: case 7: case 8: op_read(k); break;
		case 9: op_status(vf_chance(1, 10) ? NULL : E[k]); break;
		case 10: op_uuid(vf_chance(1, 10) ? NULL : E[k]); break;
		case 11: { int r = jent_selftest(vf_chance(1, 2) ? NULL : E[k]); if (r) vf_fail("code", "self test returned %d", r); break; }
		case 12: if (vf_chance(1, 2)) { jent_entropy_collector_free(E[k]); E[k] = NULL; } else jent_entropy_collector_free(NULL); break;
		default: (void)jent_version(); (void)jent_secure_memory_supported(); (void)jent_set_fips_failure_callback(cb);
			(void)jent_entropy_switch_notime_impl(NULL); (void)jent_entropy_set_notime_cpu(vf_rnd()); break;
		}
		if (threads) vf_fail("thread-left", "%d timer threads alive between calls", threads);
	}
	for (k = 0; k < NE; k++) { jent_entropy_collector_free(E[k]); E[k] = NULL; }
	if (nM) vf_fail("leak", "%d mappings of the library left after everything was released (first %zu bytes)", nM, M[0].n);
	vf_count("mappings", maps); vf_count("bounded_allocations", zallocs);
	vf_sample("%d calls, %lu mappings, %lu byte-exact allocations, all returned", n, maps, zallocs);
}
int main(int argc, char **argv) { return vf_main(argc, argv, run); }
