import sys; sys.path.insert(0,'/tmp/seed')
from mk import seed
B='src/jitterentropy-base.c'; T='src/jitterentropy-timer.c'; S='src/jitterentropy-status.c'
DRV=r'''
#include <pthread.h>
static int starts, stops, inits, finis; static volatile int stall; static pthread_t th;
static void *drv(void *a) { struct rand_data *ec = a; while (!ec->notime_interrupt) if (ec->notime_timer == ec->notime_prev_timer) ec->notime_timer += stall ? 64 : 20 + tm_rnd() % 5000; return NULL; }
static int h_init(void **c) { inits++; *c = &th; return 0; }
static void h_fini(void *c) { if (c) finis++; }
static int h_start(void *c, void *(*r)(void *), void *a) { (void)r; starts++; return pthread_create(&th, NULL, drv, a); }
static void h_stop(void *c) { if (c && starts > stops) { stops++; pthread_join(th, NULL); } }
static struct jent_notime_thread hd = { h_init, h_fini, h_start, h_stop };
'''
seed('timer-left-running-on-failure','C15',[(B,'''		p += tocopy;
	}

	/*
	 * Enhanced backtracking''','''		p += tocopy;
	}

	jent_notime_unsettick(ec);

	/*
	 * Enhanced backtracking'''),(B,'''err:
	jent_notime_unsettick(ec);

	/* Count only''','''err:
	/* Count only''')],'#include "common.h"'+DRV+r'''
int main(void)
{
	char b[64]; struct rand_data *ec; ssize_t r; int i;
	jent_entropy_switch_notime_impl(&hd);
	CHECK(!jent_entropy_init_ex(3, JENT_FORCE_FIPS | JENT_FORCE_INTERNAL_TIMER), "init");
	ec = jent_entropy_collector_alloc(3, JENT_FORCE_FIPS | JENT_FORCE_INTERNAL_TIMER | JENT_MAX_MEMSIZE_32kB);
	CHECK(ec, "alloc");
	CHECK(jent_read_entropy(ec, b, 40) == 40, "read");
	CHECK(starts == stops, "timer running after a read");
	stall = 1;
	r = jent_read_entropy(ec, b, 40);
	CHECK(r < 0, "dead counter not noticed %ld", (long)r);
	CHECK(starts == stops, "timer thread left running by a failed read (%d started, %d stopped)", starts, stops);
	return 0;
}
''','a health failure during a read of an instance with the internal timer','the timer thread is left running after a read that fails')
seed('one-cpu-affinity-ignored','C15',[('arch/jitterentropy-arch-ncpu.c','if (!jent_affinity_mask(&count, &highest) && count > 0)','if (!jent_affinity_mask(&count, &highest) && count > 1)')],r'''#include "common.h"
#include <sched.h>
int main(void)
{
	cpu_set_t s; int i; struct rand_data *ec;
	CPU_ZERO(&s); sched_getaffinity(0, sizeof(s), &s);
	for (i = 0; !CPU_ISSET(i, &s); i++);
	CPU_ZERO(&s); CPU_SET(i, &s); CHECK(!sched_setaffinity(0, sizeof(s), &s), "affinity");
	jent_set_mock_timer(tm, NULL);
	if (sysconf(_SC_NPROCESSORS_ONLN) < 2) return 0;
	CHECK(jent_entropy_init_ex(3, JENT_FORCE_INTERNAL_TIMER | JENT_MAX_MEMSIZE_32kB), "internal timer accepted with a single permitted processor");
	ec = jent_entropy_collector_alloc(3, JENT_FORCE_INTERNAL_TIMER | JENT_MAX_MEMSIZE_32kB);
	CHECK(!ec, "instance with the internal timer on a single processor");
	return 0;
}
''','a process restricted to one processor on a machine with several','the internal timer is used with a single permitted processor')
seed('thread-started-before-create','C11',[('arch/jitterentropy-arch-thread.c','''	if (ret)
		return ret;
	ret = -pthread_create(''','''	if (ret)
		return ret;
	ctx->notime_thread_started = 1;
	ret = -pthread_create('''),('arch/jitterentropy-arch-thread.c','''		pthread_attr_destroy(&ctx->notime_pthread_attr);
		return ret;
	}
	ctx->notime_thread_started = 1;
	return 0;
#else''','''		pthread_attr_destroy(&ctx->notime_pthread_attr);
		return ret;
	}
	return 0;
#else''')],r'''#include "common.h"
#include <pthread.h>
static int fail;
int __real_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *p);
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *p) { return fail ? EAGAIN : __real_pthread_create(t, a, f, p); }
static int joins_failed;
static int created, joined;
int __real_pthread_join(pthread_t t, void **r);
int __wrap_pthread_join(pthread_t t, void **r) { if (fail) { printf("FAIL: join of a thread that was never created\n"); exit(1); } return __real_pthread_join(t, r); }
int main(void)
{
	char b[32]; struct rand_data *ec = NULL; int i;
	unsigned fl = JENT_FORCE_INTERNAL_TIMER | JENT_MAX_MEMSIZE_32kB;
	for (i = 0; i < 5 && !ec; i++) { jent_entropy_init_ex(3, fl); ec = jent_entropy_collector_alloc(3, fl); }
	CHECK(ec, "alloc");
	fail = 1;
	CHECK(jent_read_entropy(ec, b, 32) < 0, "read without a timer");
	jent_entropy_collector_free(ec);
	return 0;
}
''','thread creation failing (resource limit) during a later read, then release','a failed thread start leaves a stale thread id that is joined on release (undefined, crash or hang)', extra={'cflags':'-Wl,--wrap=pthread_create,--wrap=pthread_join'})
seed('init-leak-on-thread-failure','C11',[(B,'''	if (jent_notime_settick(ec)) {
		ret = EMEM;
		goto out;
	}

	/* To initialize''','''	if (jent_notime_settick(ec)) {
		jent_gcd_fini(delta_history, JENT_POWERUP_TESTLOOPCOUNT);
		jent_notime_disable(ec);
		return EMEM;
	}

	/* To initialize''')],r'''#include "common.h"
#include <pthread.h>
static long maps; 
void *__real_mmap(void *a, size_t n, int p, int f, int d, off_t o); int __real_munmap(void *a, size_t n);
void *__wrap_mmap(void *a, size_t n, int p, int f, int d, off_t o) { void *r = __real_mmap(a, n, p, f, d, o); if (r != MAP_FAILED) maps++; return r; }
int __wrap_munmap(void *a, size_t n) { maps--; return __real_munmap(a, n); }
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *p) { return EAGAIN; }
int main(void)
{
	long m = maps;
	CHECK(jent_entropy_init_ex(3, JENT_FORCE_INTERNAL_TIMER | JENT_MAX_MEMSIZE_32kB), "init without a timer thread");
	CHECK(maps == m, "%ld mappings leaked by a failed initialisation", maps - m);
	return 0;
}
''','thread creation failing while the start-up test of the internal timer begins','the test instance of a failed initialisation is leaked', extra={'cflags':'-Wl,--wrap=pthread_create,--wrap=mmap,--wrap=munmap'})
seed('status-timer-from-flags','C17',[(S,'ec->enable_notime ? "true" : "false"','!!(ec->flags & JENT_FORCE_INTERNAL_TIMER) ? "true" : "false"')],'#include "common.h"'+DRV+r'''
int main(void)
{
	static char b[8192]; struct rand_data *ec;
	jent_entropy_switch_notime_impl(&hd);
	CHECK(!jent_entropy_init_ex(3, JENT_FORCE_INTERNAL_TIMER), "init");
	ec = jent_entropy_collector_alloc(3, JENT_MAX_MEMSIZE_32kB);
	CHECK(ec && ec->enable_notime, "alloc");
	CHECK(!jent_status(ec, b, sizeof(b)), "status");
	CHECK(strstr(b, "\"internalTimer\": true"), "status denies the internal timer in use");
	return 0;
}
''','an instance using the internal timer because an earlier initialisation in the process forced it','the status claims the internal timer is not used although it is')
seed('uuid-partial-random','C17',[('arch/jitterentropy-arch-random.c','''	if (i == len)
		return 0;
	return jent_random_dev_urandom(buf, len);
#elif''','''	if (i)
		return 0;
	return jent_random_dev_urandom(buf, len);
#elif''')],r'''#include "common.h"
static int call;
ssize_t __wrap_getrandom(void *b, size_t n, unsigned f)
{
	if (call++ % 2) { errno = ENOSYS; return -1; }
	memset(b, 0x5a, 2); return 2;
}
int main(void)
{
	struct rand_data *a, *b; char x[64], y[64];
	jent_set_mock_timer(tm, NULL);
	CHECK(!jent_entropy_init_ex(3, JENT_MAX_MEMSIZE_32kB | JENT_DISABLE_INTERNAL_TIMER), "init");
	a = jent_entropy_collector_alloc(3, JENT_MAX_MEMSIZE_32kB | JENT_DISABLE_INTERNAL_TIMER);
	b = jent_entropy_collector_alloc(3, JENT_MAX_MEMSIZE_32kB | JENT_DISABLE_INTERNAL_TIMER);
	CHECK(a && b, "alloc");
	jent_uuid(a, x, sizeof(x)); jent_uuid(b, y, sizeof(y));
	CHECK(strncmp(x, "5a5a", 4) || strncmp(y, "5a5a", 4), "identifiers made of two random bytes and stale memory: %s %s", x, y);
	CHECK(strcmp(x, y), "identifiers not unique: %s", x);
	return 0;
}
''','getrandom() returning a part and then failing','the identifier is made of a few random bytes and stack residue, and is not unique', extra={'cflags':'-Wl,--wrap=getrandom'})
seed('hooks-open-during-startup','C16',[(B,'''	jent_notime_block_switch();
	jent_health_cb_block_switch();

	ret = jent_selftest(NULL);''','''	ret = jent_selftest(NULL);'''),(B,'''	/* Unmark the execution of the self tests if they failed. */
	if (ret)''','''	/* The configuration is fixed from here on */
	jent_notime_block_switch();
	jent_health_cb_block_switch();

	/* Unmark the execution of the self tests if they failed. */
	if (ret)''')],r'''#include "common.h"
static int res = 1;
static void t2(void *a, uint64_t *o) { if (tm_reads == 700) res = jent_entropy_set_notime_cpu(0); tm(a, o); }
int main(void)
{
	jent_set_mock_timer(t2, NULL);
	CHECK(!jent_entropy_init_ex(3, JENT_MAX_MEMSIZE_32kB | JENT_DISABLE_INTERNAL_TIMER), "init");
	CHECK(res != 1, "not reached");
	CHECK(res == -EAGAIN, "the timer-thread processor could be changed while the initialisation was running (%d)", res);
	return 0;
}
''','a configuration call made while the first initialisation is still running','the hooks can be exchanged in the middle of the first initialisation')
seed('callback-same-mask-once','C16',[('src/jitterentropy-health.c','''	if (cb && ec->health_failure) {
		cb(ec, ec->health_failure);
	}''','''	if (cb && ec->health_failure) {
		static unsigned int reported;

		/* Do not flood the application with a condition it knows */
		if (reported != ec->health_failure) {
			reported = ec->health_failure;
			cb(ec, ec->health_failure);
		}
	}''')],r'''#include "common.h"
static struct rand_data *last; static int n;
static void cb(struct rand_data *e, unsigned int f) { last = e; n++; }
int main(void)
{
	struct rand_data *a, *b; char x[64]; unsigned fl = JENT_FORCE_FIPS | JENT_MAX_MEMSIZE_32kB | JENT_DISABLE_INTERNAL_TIMER;
	jent_set_mock_timer(tm, NULL);
	jent_set_fips_failure_callback(cb);
	CHECK(!jent_entropy_init_ex(3, fl), "init");
	a = jent_entropy_collector_alloc(3, fl); b = jent_entropy_collector_alloc(3, fl);
	CHECK(a && b && !n, "alloc");
	tm_const = 100000; CHECK(jent_read_entropy(a, x, 32) < 0, "read"); CHECK(n >= 1 && last == a, "first failure not told");
	tm_const = 100000; CHECK(jent_read_entropy(b, x, 32) < 0, "read"); CHECK(n >= 2 && last == b, "failure of the second instance not told");
	return 0;
}
''','two instances failing with the same mask one after the other','the second failure with the same mask is never told to the callback')
seed('cache-scan-online-count','C18',[('arch/jitterentropy-arch-cache.c','''#ifdef _SC_NPROCESSORS_CONF
	conf = sysconf(_SC_NPROCESSORS_CONF);''','''#ifdef _SC_NPROCESSORS_ONLN
	conf = sysconf(_SC_NPROCESSORS_ONLN);''')],r'''#include "common.h"
#include <fcntl.h>
#include <stdarg.h>
static char dir[] = "/tmp/jdemoXXXXXX"; 
long __real_sysconf(int n);
long __wrap_sysconf(int n) { if (n == _SC_NPROCESSORS_CONF) return 6; if (n == _SC_NPROCESSORS_ONLN) return 3; return __real_sysconf(n); }
static int mem(const char *s) { int fd = memfd_create("x", 0); write(fd, s, strlen(s)); lseek(fd, 0, SEEK_SET); return fd; }
int __real_open(const char *p, int fl, ...);
int __wrap_open(const char *p, int fl, ...)
{
	long cpu; unsigned idx; char leaf[32];
	if (sscanf(p, "/sys/devices/system/cpu/cpu%ld/cache/index%u/%31s", &cpu, &idx, leaf) != 3) return __real_open(p, fl, 0);
	/* processors 0, 1 and 5 are online, 5 is a performance core */
	if ((cpu != 0 && cpu != 1 && cpu != 5) || idx) { errno = ENOENT; return -1; }
	if (leaf[0] == 't') return mem("Data\n");
	if (leaf[0] == 'l') return mem("1\n");
	return mem(cpu == 5 ? "128K\n" : "32K\n");
}
uint32_t jent_cache_size_roundup(int);
int main(void)
{
	uint32_t r = jent_cache_size_roundup(0);
	CHECK(r == 262144, "largest L1 data cache 128K not found, got %u", r);
	return 0;
}
''','offline processors numbered below an online one that has the largest cache','the cache of online processors with a number above the online count is not seen', extra={'cflags':'-Wl,--wrap=open,--wrap=sysconf'})
seed('fips-indicator-interrupted','C18',[('arch/jitterentropy-arch-fips.c','''		do {
			rlen = read(fd, buf, sizeof(buf));
		} while (rlen < 0 && errno == EINTR);
		close(fd);
		if (rlen <= 0)
			return 0;''','''		rlen = read(fd, buf, sizeof(buf));
		close(fd);
		if (rlen < 1)
			return 0;''')],r'''#include "common.h"
#include <fcntl.h>
static int fip = -1, n;
int __real_open(const char *p, int fl, ...);
int __wrap_open(const char *p, int fl, ...)
{
	if (strcmp(p, "/proc/sys/crypto/fips_enabled")) return __real_open(p, fl, 0);
	fip = memfd_create("x", 0); write(fip, "1\n", 2); lseek(fip, 0, SEEK_SET); return fip;
}
ssize_t __real_read(int fd, void *b, size_t l);
ssize_t __wrap_read(int fd, void *b, size_t l) { if (fd == fip && n++ == 0) { errno = EINTR; return -1; } return __real_read(fd, b, l); }
int jent_fips_enabled(void);
int main(void) { CHECK(jent_fips_enabled() == 1, "FIPS mode missed when the read was interrupted"); return 0; }
''','a signal interrupting the read of the FIPS indicator','the library runs outside FIPS mode on a system in FIPS mode', extra={'cflags':'-Wl,--wrap=open,--wrap=read'})
seed('sysfs-descriptor-leak','C18',[('arch/jitterentropy-arch-cache.c','''	close(fd);
	if (rlen <= 0)
		return -1;
	buf[buflen - 1] = '\\0';''','''	if (rlen <= 0)
		return -1;
	close(fd);
	buf[buflen - 1] = '\\0';''')],r'''#include "common.h"
#include <fcntl.h>
static int live, ours[4096];
int __real_open(const char *p, int fl, ...);
int __wrap_open(const char *p, int fl, ...)
{
	int fd; if (strncmp(p, "/sys/devices/system/cpu/", 24)) return __real_open(p, fl, 0);
	fd = memfd_create("x", 0); if (strstr(p, "/type")) { write(fd, "Data\n", 5); lseek(fd, 0, SEEK_SET); }	/* level and size are empty */
	if (fd >= 0 && fd < 4096) { ours[fd] = 1; live++; }
	return fd;
}
int __real_close(int fd);
int __wrap_close(int fd) { if (fd >= 0 && fd < 4096 && ours[fd]) { ours[fd] = 0; live--; } return __real_close(fd); }
uint32_t jent_cache_size_roundup(int);
int main(void) { jent_cache_size_roundup(1); CHECK(live == 0, "%d descriptors left open", live); return 0; }
''','cache attributes that exist and read as empty or fail to read','every unreadable cache attribute leaks a descriptor', extra={'cflags':'-Wl,--wrap=open,--wrap=close'})
seed('cache-memo-claimed-early','C14',[('arch/jitterentropy-arch-cache.c','''	if (!jent_atomic_load_int(&cached_valid)) {
		long''','''	if (!jent_atomic_exchange_int(&cached_valid, 1)) {
		long'''),('arch/jitterentropy-arch-cache.c','''								    1));
		jent_atomic_store_int(&cached_valid, 1);
''','''								    1));
''')],r'''#include "common.h"
#include <fcntl.h>
#include <pthread.h>
static pthread_t first; static volatile int in, go; static uint32_t other;
uint32_t jent_cache_size_roundup(int);
static void *sec(void *a) { while (!in); other = jent_cache_size_roundup(0); go = 1; return NULL; }
static int mem(const char *s) { int fd = memfd_create("x", 0); write(fd, s, strlen(s)); lseek(fd, 0, SEEK_SET); return fd; }
int __real_open(const char *p, int fl, ...);
int __wrap_open(const char *p, int fl, ...)
{
	if (strncmp(p, "/sys/devices/system/cpu/", 24)) return __real_open(p, fl, 0);
	if (pthread_equal(pthread_self(), first)) { int i; in = 1; for (i = 0; i < 2000 && !go; i++) usleep(1000); }
	if (strstr(p, "/type")) return mem("Data\n");
	if (strstr(p, "/level")) return mem("1\n");
	return mem("32K\n");
}
int main(void)
{
	pthread_t t; uint32_t mine;
	first = pthread_self(); pthread_create(&t, NULL, sec, NULL);
	mine = jent_cache_size_roundup(0);
	pthread_join(t, NULL);
	CHECK(mine == 65536, "own %u", mine);
	CHECK(other == mine, "a thread asking during the first discovery was told %u instead of %u", other, mine);
	return 0;
}
''','a second thread creating its instance while the first discovery of the caches is running','the second thread sees the unfilled result and uses a different memory size', extra={'cflags':'-Wl,--wrap=open'})
seed('selftest-static-state','C14',[('src/jitterentropy-sha3.c','''static int jent_xdrbg256_tester(void)
{
	HASH_CTX_ON_STACK(ctx);
''','''static int jent_xdrbg256_tester(void)
{
	/* keep the rather large state off the stack */
	static struct jent_sha_ctx ctx;
''')],r'''#include "common.h"
#include <pthread.h>
static int bad;
static void *w(void *a) { int i; for (i = 0; i < 60000 && !bad; i++) if (jent_selftest(NULL)) bad = 1; return NULL; }
int main(void)
{
	pthread_t t[4]; int i;
	for (i = 0; i < 4; i++) pthread_create(&t[i], NULL, w, NULL);
	for (i = 0; i < 4; i++) pthread_join(t[i], NULL);
	CHECK(!bad, "self test failed only because another thread ran one");
	return 0;
}
''','self tests running in two threads at the same time','concurrent self tests disturb each other and report a failure that is none')
seed('contradiction-forces-timer','C08',[(B,'''	if (ret && !(flags & (JENT_DISABLE_INTERNAL_TIMER | JENT_NTG1)))
		ret = jent_time_entropy_init(osr,''','''	if (ret && !(flags & JENT_NTG1) &&
	    (!(flags & JENT_DISABLE_INTERNAL_TIMER) ||
	     (flags & JENT_FORCE_INTERNAL_TIMER)))
		ret = jent_time_entropy_init(osr,''')],r'''#include "common.h"
int main(void)
{
	struct rand_data *ec;
	jent_set_mock_timer(tm, NULL);
	CHECK(jent_entropy_init_ex(3, JENT_FORCE_INTERNAL_TIMER | JENT_DISABLE_INTERNAL_TIMER), "contradiction accepted");
	CHECK(!jent_entropy_init_ex(3, JENT_DISABLE_INTERNAL_TIMER | JENT_MAX_MEMSIZE_32kB), "a valid initialisation fails after a refused contradictory one");
	ec = jent_entropy_collector_alloc(3, JENT_DISABLE_INTERNAL_TIMER | JENT_MAX_MEMSIZE_32kB);
	CHECK(ec, "a valid request fails after a refused contradictory one");
	return 0;
}
''','a contradictory initialisation request followed by valid ones','a refused contradictory request switches the process to the internal timer for good')
seed('hash-state-lock-best-effort','C08',[('src/jitterentropy-sha3.c','FILL','FILL')],None,'','') if 0 else None
seed('memsize-field-unbounded','C13',[(B,'''	if (memsize > max_field)
		memsize = max_field;

	if (memsize == 0) {''','''	(void)max_field;

	if (memsize == 0) {''')],r'''#include "common.h"
int main(void)
{
	static char b[8192]; struct rand_data *ec; unsigned fl = (31u << 27) | JENT_DISABLE_MEMORY_ACCESS | JENT_DISABLE_INTERNAL_TIMER;
	jent_set_mock_timer(tm, NULL);
	CHECK(!jent_entropy_init_ex(3, fl), "init");
	ec = jent_entropy_collector_alloc(3, fl); CHECK(ec, "alloc");
	CHECK(!jent_status(ec, b, sizeof(b)), "status");
	return 0;
}
''','a memory-size field above the largest size together with disabled memory access, then a status query','a shift beyond the width of the type','''#!/bin/bash
# builds the library from the current tree with its mock timer and runs demo.c
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
gcc -O0 -g -w -fsanitize=shift -fno-sanitize-recover=all -fwrapv -pthread -D_GNU_SOURCE -DJENT_CONF_ENABLE_INTERNAL_TIMER -DJENT_CONF_ENABLE_MOCK_TIMER \\
    -I"$PWD" -I"$PWD/src" -I"$PWD/arch" -I"$d" "$d/demo.c" src/*.c arch/*.c -o "$t/demo" || exit 3
cd "$t" && timeout 120 ./demo
''')
seed('uuid-copy-fixed-size','C13',[(S,'''	if (buflen < len)
		return -1;

	memcpy(buf, ec->uuid, len);''','''	if (buflen < len)
		return -1;

	/* clear the remainder of the identifier field as well */
	memcpy(buf, ec->uuid, sizeof(ec->uuid));''')],None,'','') if 0 else None
