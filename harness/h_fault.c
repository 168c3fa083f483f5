/* Enumerates failures of the operating system interface over scenarios of the
 * public interface. Case index -> (scenario, kind of call, k-th call, single
 * or lasting, error). The scenario is first run undisturbed in a forked child
 * to count the calls, so that k covers each of them. Monitors: documented
 * results only, full service after success, ledgers of mappings, descriptors
 * and threads, and normal service once the environment has recovered. */
#include "vf.h"
#include "jitterentropy.h"
#include "arch/jitterentropy-arch-timer.h"
#include "json.h"
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <sched.h>
#include <unistd.h>
#include <dirent.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/random.h>
#include <sys/wait.h>


enum kind { K_MMAP, K_MPROTECT, K_MADVISE, K_MLOCK, K_ATTR, K_CREATE, K_GETAFF, K_SETAFF, K_RANDOM, K_OPEN, K_READ, K_SYSCONF, K_CPUALLOC, K_N };
static const char *kname[] = { "mmap", "mprotect", "madvise", "mlock", "pthread_attr_init", "pthread_create", "sched_getaffinity",
	"sched_setaffinity", "getrandom", "open", "read", "sysconf", "cpu_alloc" };
struct shared { unsigned long n[K_N]; int started; };
static struct shared *SH;
static int win, counting;
static int f_kind = -1, f_kind2 = -1, f_err; static unsigned long f_at, f_at2, f_len;
static unsigned long fired; static unsigned long cnt[K_N];
static int fired_op;	/* in the running operation */
static unsigned fired_kinds;
static int want(enum kind k)
{
	unsigned long c;
	if (!__atomic_load_n(&win, __ATOMIC_RELAXED)) return 0;
	c = __atomic_add_fetch(&cnt[k], 1, __ATOMIC_RELAXED);
	if (counting) { SH->n[k] = c; return 0; }
	if ((f_kind == (int)k && c >= f_at && c < f_at + f_len) || (f_kind2 == (int)k && c == f_at2)) {
		__atomic_add_fetch(&fired, 1, __ATOMIC_RELAXED);
		__atomic_add_fetch(&fired_op, 1, __ATOMIC_RELAXED);
		__atomic_or_fetch(&fired_kinds, 1u << k, __ATOMIC_RELAXED);
		return 1;
	}
	return 0;
}
/* ---------- ledgers ---------- */
static struct { unsigned char *p; size_t n; } M[512]; static int nM; static unsigned long total_maps;
static pthread_mutex_t mx = PTHREAD_MUTEX_INITIALIZER;
static int active;	/* library calls under way: mappings belong to the library */
void *__real_mmap(void *, size_t, int, int, int, off_t);
void *__wrap_mmap(void *a, size_t n, int pr, int fl, int fd, off_t o)
{
	void *r;
	if (!active) return __real_mmap(a, n, pr, fl, fd, o);
	if (want(K_MMAP)) { errno = f_err; return MAP_FAILED; }
	r = __real_mmap(a, n, pr, fl, fd, o);
	if (r != MAP_FAILED) {
		pthread_mutex_lock(&mx);
		if (nM < 512) { M[nM].p = r; M[nM].n = n; nM++; total_maps++; }
		pthread_mutex_unlock(&mx);
	}
	return r;
}
static int wipe_check;
int __real_munmap(void *, size_t);
static int prot_at(unsigned char *a)
{
	FILE *f = fopen("/proc/self/maps", "r"); char l[512]; int pr = -1;
	if (!f) return -1;
	while (fgets(l, sizeof(l), f)) {
		unsigned long s, e; char p[8];
		if (sscanf(l, "%lx-%lx %7s", &s, &e, p) == 3 && (unsigned long)a >= s && (unsigned long)a < e) { pr = p[0] == 'r'; break; }
	}
	fclose(f);
	return pr;
}
int __wrap_munmap(void *a, size_t n)
{
	int i;
	size_t j;
	if (!active) return __real_munmap(a, n);
	pthread_mutex_lock(&mx);
	for (i = 0; i < nM; i++) if (M[i].p == a) break;
	if (i == nM) { pthread_mutex_unlock(&mx); vf_fail("unmap-unknown", "munmap(%p,%zu) of memory that is not mapped", a, n); }
	if (M[i].n != n) { pthread_mutex_unlock(&mx); vf_fail("unmap-size", "munmap of %zu bytes, mapped %zu", n, M[i].n); }
	M[i] = M[--nM];
	pthread_mutex_unlock(&mx);
	if (wipe_check) {
		for (j = 0; j < n; j += 4096)
			if (prot_at((unsigned char *)a + j) == 1) {
				size_t k;
				for (k = j; k < j + 4096 && k < n; k++)
					if (((unsigned char *)a)[k]) vf_fail("released-not-wiped", "byte %zu of a %zu byte region is 0x%02x when it is returned to the system", k, n, ((unsigned char *)a)[k]);
				vf_count("released_pages_checked", 1);
			}
	}
	return __real_munmap(a, n);
}
int __real_mprotect(void *, size_t, int);
int __wrap_mprotect(void *a, size_t n, int p) { if (active && want(K_MPROTECT)) { errno = f_err; return -1; } return __real_mprotect(a, n, p); }
int __real_madvise(void *, size_t, int);
int __wrap_madvise(void *a, size_t n, int p) { if (active && want(K_MADVISE)) { errno = f_err; return -1; } return __real_madvise(a, n, p); }
int __real_mlock(const void *, size_t);
int __wrap_mlock(const void *a, size_t n) { if (active && want(K_MLOCK)) { errno = f_err; return -1; } return __real_mlock(a, n); }
int __real_pthread_attr_init(pthread_attr_t *);
static int nattrs;
int __wrap_pthread_attr_init(pthread_attr_t *a) { int r; if (active && want(K_ATTR)) return f_err; r = __real_pthread_attr_init(a); nattrs += !r; return r; }
int __real_pthread_attr_destroy(pthread_attr_t *);
int __wrap_pthread_attr_destroy(pthread_attr_t *a) { nattrs--; return __real_pthread_attr_destroy(a); }
static int nthreads; static unsigned long total_threads;
int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *at, void *(*fn)(void *), void *a)
{
	int r;
	if (active && want(K_CREATE)) { *t = (pthread_t)0x5a5a5a5a5a5aUL; return f_err; }
	r = __real_pthread_create(t, at, fn, a);
	if (!r) { nthreads++; total_threads++; }
	return r;
}
int __real_pthread_join(pthread_t, void **);
int __wrap_pthread_join(pthread_t t, void **rv)
{
	int r;
	if (t == (pthread_t)0x5a5a5a5a5a5aUL) vf_fail("join-unstarted", "a thread that could not be created is joined");
	r = __real_pthread_join(t, rv);
	if (!r) nthreads--;
	return r;
}
int __real_sched_getaffinity(pid_t, size_t, cpu_set_t *);
int __wrap_sched_getaffinity(pid_t p, size_t n, cpu_set_t *s) { if (active && want(K_GETAFF)) { errno = f_err; return -1; } return __real_sched_getaffinity(p, n, s); }
int __real_sched_setaffinity(pid_t, size_t, const cpu_set_t *);
int __wrap_sched_setaffinity(pid_t p, size_t n, const cpu_set_t *s) { if (active && want(K_SETAFF)) { errno = f_err; return -1; } return __real_sched_setaffinity(p, n, s); }
static int random_failed, urandom_failed;
ssize_t __real_getrandom(void *, size_t, unsigned);
ssize_t __wrap_getrandom(void *b, size_t n, unsigned f)
{
	if (active && want(K_RANDOM)) {
		if (f_err == EAGAIN && n > 3) { memset(b, 0x11, 3); return 3; }	/* short */
		random_failed = 1; errno = f_err; return -1;
	}
	return __real_getrandom(b, n, f);
}
static int rnd_fd = -1;
int __real_open(const char *, int, ...);
int __wrap_open(const char *p, int fl, ...)
{
	va_list ap; int m;
	va_start(ap, fl); m = va_arg(ap, int); va_end(ap);
	if (active && want(K_OPEN)) { if (strstr(p, "random")) urandom_failed = 1; errno = f_err; return -1; }
	/* not every kernel has the indicator: one that says no */
	if (active && strstr(p, "fips_enabled")) { int fd = memfd_create("fips", 0); if (fd >= 0 && (write(fd, "0\n", 2) != 2 || lseek(fd, 0, SEEK_SET))) abort(); return fd; }
	m = __real_open(p, fl, m);
	if (strstr(p, "random")) rnd_fd = m; else if (m == rnd_fd) rnd_fd = -1;
	return m;
}
ssize_t __real_read(int, void *, size_t);
ssize_t __wrap_read(int fd, void *b, size_t n)
{
	if (active && want(K_READ)) {
		int rnd = fd == rnd_fd;
		if (f_err == EAGAIN) { urandom_failed |= rnd; return 0; }
		if (f_err == EPERM && n > 1) { return __real_read(fd, b, 1); }
		if (f_err == EINTR && f_len > 50) { urandom_failed |= rnd; errno = EIO; return -1; }
		urandom_failed |= rnd; errno = f_err; return -1;
	}
	return __real_read(fd, b, n);
}
long __real_sysconf(int);
long __wrap_sysconf(int n)
{
	if (active && n != _SC_PAGESIZE && want(K_SYSCONF)) { if (f_err == EAGAIN) return 0; errno = f_err; return -1; }
	return __real_sysconf(n);
}
cpu_set_t *__real___sched_cpualloc(size_t);
cpu_set_t *__wrap___sched_cpualloc(size_t n) { if (active && want(K_CPUALLOC)) { errno = ENOMEM; return NULL; } return __real___sched_cpualloc(n); }

/* ---------- time ---------- */
static struct vf_rng tr; static uint64_t now; static int disturb, dist_left, bad_platform; static unsigned long long readings;
static void mock(void *a, uint64_t *out)
{
	(void)a;
	readings++;
	if (readings > 40000000) vf_fail("no-progress", "40 million time readings without an end");
	if (bad_platform) now += 1000;
	else if (disturb) now += 512;
	else now += 20 + vf_rng_next(&tr) % 6000;
	*out = now;
}
static void failcb(struct rand_data *ec, unsigned mask)
{
	(void)ec; (void)mask;
	disturb = 0;
	if (dist_left > 0) dist_left--;
}

/* ---------- operations ---------- */
static int nfds(void)
{
	DIR *d = opendir("/proc/self/fd"); int n = 0; struct dirent *e;
	while ((e = readdir(d))) n += e->d_name[0] != '.';
	closedir(d);
	return n - 1;
}
#define LIB(x) do { active = 1; fired_op = 0; fired_kinds = 0; x; active = 0; } while (0)
static int recov_possible;
static void judge_instance(struct rand_data *ec, const char *where)
{
	/* the instance must give full service; the window is closed */
	char st[8192]; unsigned char b[72]; ssize_t r; int w = win; int i, nz = 0; struct jdoc *j = NULL;
	(void)j;
	win = 0; disturb = 0;
	LIB(i = jent_status(ec, st, sizeof(st)));
	if (i || st[0] != '{' || !strchr(st, '}')) vf_fail("half-instance", "status of the instance after %s fails", where);
	memset(b, 0, sizeof(b));
	LIB(r = jent_read_entropy(ec, (char *)b, 64));
	if (r != 64) vf_fail("half-instance", "instance obtained from %s does not serve: %zd", where, r);
	for (i = 0; i < 64; i++) nz += b[i] != 0;
	if (nz < 32 || b[64] || b[71]) vf_fail("half-instance", "instance obtained from %s delivers no data (%d)", where, nz);
	win = w;
	vf_count("instances_judged", 1);
}
static void check_uuid(struct rand_data *ec, const char *where)
{
	char u[64]; int w = win, r, nil;
	win = 0;
	LIB(r = jent_uuid(ec, u, sizeof(u)));
	win = w;
	if (r) vf_fail("uuid", "identifier of the instance from %s not available: %d", where, r);
	nil = !strcmp(u, "00000000-0000-0000-0000-000000000000");
	if (strlen(u) != 36) vf_fail("uuid", "identifier '%s' malformed", u);
	if (nil && !(random_failed && urandom_failed)) vf_fail("uuid-nil", "nil identifier although a source of randomness was available");
	if (!nil && (u[14] != '4' || !strchr("89ab", u[19]))) vf_fail("uuid", "identifier '%s' malformed", u);
	if (!nil && random_failed && urandom_failed && f_kind2 < 0 && f_len > 50 && f_kind != K_RANDOM) vf_fail("uuid-made-up", "identifier %s without any randomness", u);
	vf_count(nil ? "uuid_nil" : "uuid_ok", 1);
}
static int documented_init(int r) { return r >= 0 && r <= 13; }
static struct rand_data *A(unsigned osr, unsigned f, int must_ok, int must_fail)
{
	struct rand_data *ec;
	LIB(ec = jent_entropy_collector_alloc(osr, f));
	if (must_ok && !ec) vf_fail("alloc-refused", "allocation with flags 0x%x refused in an environment that permits it (fault %s #%lu err %d fired %d)", f, f_kind >= 0 ? kname[f_kind] : "none", f_at, f_err, fired_op);
	if (must_fail && fired_op && ec) vf_fail("alloc-despite-fault", "allocation with flags 0x%x succeeded although %s failed (%d)", f, kname[f_kind], f_err);
	if (ec) { judge_instance(ec, "allocation"); check_uuid(ec, "allocation"); }
	vf_state(vf_mix(vf_mix((uint64_t)(f_kind + 1) * 64 + f_at, f), (uint64_t)((ec != NULL) * 2 + (fired_op != 0))));
	return ec;
}
static void F(struct rand_data *ec) { int w = win; win = 0; LIB(jent_entropy_collector_free(ec)); win = w; }
/* effect of the planned fault on an allocation with these flags */
static int fatal(unsigned flags)
{
	if (f_kind2 >= 0) return 0;
	if (f_kind == K_MMAP) return 1;
	if (f_kind == K_MPROTECT) return f_len > 50;
	if (f_kind == K_MLOCK) return f_len > 50 && ((flags & (JENT_FORCE_SECURE_MEM | JENT_NTG1 | JENT_FORCE_FIPS)) || (f_err != EPERM && f_err != ENOMEM && f_err != EAGAIN));
	if (f_kind == K_CREATE || f_kind == K_ATTR) return f_len > 50 || 1;
	return 0;
}
static int harmless(unsigned flags)
{
	if (f_kind2 >= 0) return 0;
	switch (f_kind) {
	case K_MADVISE: case K_SETAFF: case K_RANDOM: case K_OPEN: case K_READ: return 1;
	case K_SYSCONF: case K_GETAFF: case K_CPUALLOC: return !(flags & JENT_FORCE_INTERNAL_TIMER);
	case K_MLOCK: return !(flags & (JENT_FORCE_SECURE_MEM | JENT_NTG1 | JENT_FORCE_FIPS)) && (f_err == EPERM || f_err == ENOMEM || f_err == EAGAIN);
	case -1: return 1;
	}
	return 0;
}
#define SMALL (JENT_MAX_MEMSIZE_32kB | JENT_HASHLOOP_1)
static const struct { const char *n; unsigned flags; int what; } SC[] = {
	{ "init", 0, 0 }, { "init_ex plain", 0, 1 }, { "init_ex fips", JENT_FORCE_FIPS, 1 }, { "init_ex ntg1", JENT_NTG1, 1 },
	{ "alloc plain", SMALL | JENT_DISABLE_INTERNAL_TIMER, 2 }, { "alloc fips", SMALL | JENT_FORCE_FIPS | JENT_DISABLE_INTERNAL_TIMER, 2 }, { "alloc ntg1", SMALL | JENT_NTG1, 2 },
	{ "alloc secure", SMALL | JENT_FORCE_SECURE_MEM | JENT_DISABLE_INTERNAL_TIMER, 2 },
	{ "alloc auto memory", JENT_HASHLOOP_1 | JENT_DISABLE_INTERNAL_TIMER, 2 }, { "alloc all caches", JENT_CACHE_ALL | JENT_HASHLOOP_1 | JENT_DISABLE_INTERNAL_TIMER, 2 },
	{ "alloc after init", SMALL | JENT_DISABLE_INTERNAL_TIMER, 3 }, { "alloc fips after init", SMALL | JENT_FORCE_FIPS | JENT_DISABLE_INTERNAL_TIMER, 3 },
	{ "no memory access", JENT_DISABLE_MEMORY_ACCESS | JENT_DISABLE_INTERNAL_TIMER, 3 },
	{ "recovery", SMALL | JENT_FORCE_FIPS | JENT_DISABLE_INTERNAL_TIMER, 4 }, { "recovery ntg1", JENT_NTG1 | JENT_HASHLOOP_1, 4 },
	{ "startup recovery", SMALL | JENT_FORCE_FIPS | JENT_DISABLE_INTERNAL_TIMER, 5 },
	{ "internal timer", SMALL | JENT_FORCE_INTERNAL_TIMER, 6 }, { "internal timer secure", SMALL | JENT_FORCE_INTERNAL_TIMER | JENT_FORCE_SECURE_MEM, 6 },
	{ "fallback to internal timer", SMALL, 7 }, { "reads", SMALL | JENT_DISABLE_INTERNAL_TIMER, 8 },
	{ "status and uuid", SMALL | JENT_DISABLE_INTERNAL_TIMER, 9 }, { "second instance", SMALL | JENT_FORCE_FIPS | JENT_DISABLE_INTERNAL_TIMER, 10 },
	{ "internal timer reads", SMALL | JENT_FORCE_INTERNAL_TIMER, 11 },
};
#define NSC (sizeof(SC) / sizeof(SC[0]))
static int codes_ok(ssize_t r, size_t len) { return r == (ssize_t)len || (r <= -1 && r >= -11); }
static void scenario(int s)
{
	unsigned f = SC[s].flags; struct rand_data *ec = NULL, *e2; int r, m0, fd0, t0, isint = 0, i;
	unsigned char b[80]; ssize_t n; char st[4096];
	vf_rng_seed(&tr, vf_seed, vf_idx + 7); now = 1u << 30;
	jent_set_mock_timer(mock, NULL);
	if (jent_set_fips_failure_callback(failcb)) vf_fail("cb", "callback refused");
	fd0 = nfds(); t0 = nthreads; m0 = nM;
	switch (SC[s].what) {
	case 0: case 1:
		win = 1;
		if (SC[s].what == 0) LIB(r = jent_entropy_init()); else LIB(r = jent_entropy_init_ex(0, f));
		win = 0;
		if (!documented_init(r)) vf_fail("init-code", "initialisation returned undocumented %d", r);
		if (fatal(f) && fired_op && !r && f_len > 50) vf_fail("init-despite-fault", "initialisation succeeded although %s kept failing", kname[f_kind]);
		if (harmless(f) && r) vf_fail("init-refused", "initialisation returned %d although %s (err %d) is no obstacle", r, f_kind >= 0 ? kname[f_kind] : "nothing", f_err);
		vf_state(vf_mix((uint64_t)(f_kind + 1) * 64 + f_at, (uint64_t)(s * 64 + r)));
		break;
	case 3:
		LIB(r = jent_entropy_init_ex(0, f)); if (r) vf_fail("init", "%d", r);	/* fall through */
	case 2:
		win = 1; ec = A(0, f, harmless(f), fatal(f)); win = 0;
		break;
	case 4:
		ec = A(0, f, 1, 0);
		disturb = 1; dist_left = 1;
		memset(b, 0, sizeof(b));
		win = 1; LIB(n = jent_read_entropy_safe(&ec, (char *)b, 40)); win = 0;
		disturb = 0;
		if (!ec) vf_fail("handle-lost", "self-recovering read lost the instance");
		if (!codes_ok(n, 40)) vf_fail("read-code", "self-recovering read returned %zd", n);
		if (harmless(f) && n != 40) vf_fail("recovery-refused", "recovery failed (%zd) although %s is no obstacle", n, f_kind >= 0 ? kname[f_kind] : "nothing");
		if (n < 0) {
			ssize_t n2;
			/* the old instance: still there, still failed */
			LIB(r = jent_status(ec, st, sizeof(st)));
			if (r) vf_fail("half-instance", "status after a failed recovery fails");
			LIB(n2 = jent_read_entropy(ec, (char *)b, 40));
			if (n2 >= 0) vf_fail("failed-serves", "instance delivers after its recovery failed");
			if (n2 != n) vf_fail("read-code", "failed instance returned %zd then %zd", n, n2);
			/* and can recover now */
			LIB(n2 = jent_read_entropy_safe(&ec, (char *)b, 40));
			if (n2 != 40) vf_fail("no-later-recovery", "recovery in a healthy environment returned %zd", n2);
		}
		judge_instance(ec, "recovery");
		vf_state(vf_mix((uint64_t)(f_kind + 1) * 64 + f_at, (uint64_t)(s * 64 + (n < 0 ? -n : 20))));
		break;
	case 5:
		LIB(r = jent_entropy_init_ex(0, f)); if (r) vf_fail("init", "%d", r);
		disturb = 1; dist_left = 1;
		win = 1; ec = A(0, f, harmless(f), 0); win = 0; disturb = 0;
		break;
	case 6:
		win = 1; ec = A(0, f, 0, fatal(f)); win = 0; isint = 1;
		break;
	case 7:
		bad_platform = 1;
		win = 1; LIB(r = jent_entropy_init()); win = 0;
		if (!documented_init(r)) vf_fail("init-code", "initialisation returned undocumented %d", r);
		win = 1; ec = A(0, f, 0, 0); win = 0; isint = 1;
		bad_platform = 0;
		break;
	case 8:
		ec = A(0, f, 1, 0);
		win = 1;
		for (i = 0; i < 3; i++) {
			LIB(n = i & 1 ? jent_read_entropy_safe(&ec, (char *)b, 33) : jent_read_entropy(ec, (char *)b, 33));
			if (n != 33) vf_fail("read-refused", "read returned %zd", n);
		}
		win = 0;
		break;
	case 9:
		ec = A(0, f, 1, 0);
		win = 1;
		LIB(r = jent_status(ec, st, sizeof(st)));
		if (r) vf_fail("status-refused", "status failed");
		LIB(r = jent_status(NULL, st, sizeof(st)));
		if (r) vf_fail("status-refused", "status of the library failed");
		LIB(r = jent_uuid(ec, st, sizeof(st)));
		if (r) vf_fail("uuid-refused", "uuid failed");
		win = 0;
		break;
	case 10:
		ec = A(0, f, 1, 0);
		win = 1; e2 = A(0, f, harmless(f), fatal(f)); win = 0;
		judge_instance(ec, "a neighbour's failed allocation");
		if (e2) F(e2);
		break;
	case 11:
		ec = A(0, f, 0, 0); isint = 1;
		if (!ec) vf_inconclusive("no internal timer here");
		win = 1;
		for (i = 0; i < 3; i++) {
			memset(b, 0xa5, sizeof(b));
			LIB(n = i & 1 ? jent_read_entropy_safe(&ec, (char *)b, 33) : jent_read_entropy(ec, (char *)b, 33));
			if (fired_kinds & (1u << K_CREATE | 1u << K_ATTR)) {
				if (n != JENT_ERR_NOTIME) vf_fail("read-despite-fault", "read returned %zd although the timer thread cannot be started", n);
				for (r = 0; r < 33; r++) if (b[r] != 0xa5) vf_fail("read-despite-fault", "data written by a refused read");
			} else if (n != 33) vf_fail("read-refused", "read returned %zd", n);
		}
		win = 0;
		break;
	}
	win = 0; disturb = 0; bad_platform = 0;
	if (ec) F(ec);
	if (nM != m0) vf_fail("mapping-leak", "%d mappings of the library left after everything was released", nM - m0);
	if (nthreads != t0) vf_fail("thread-leak", "%d threads left", nthreads - t0);
	if (nattrs) vf_fail("attribute-leak", "%d thread attribute objects left", nattrs);
	if (nfds() != fd0) vf_fail("descriptor-leak", "%d descriptors left", nfds() - fd0);
	if (counting) return;
	/* the environment has recovered: normal service */
	f_kind = f_kind2 = -1;
	random_failed = urandom_failed = 0;
	if (!isint && vf_chance(1, 2)) { LIB(r = jent_entropy_init_ex(0, SC[s].flags & ~(unsigned)JENT_FORCE_INTERNAL_TIMER)); if (r) vf_fail("no-service-later", "initialisation returned %d after the environment recovered", r); }
	LIB(ec = jent_entropy_collector_alloc(0, f));
	/* a real thread ticks there: its start-up test may fail on a loaded machine */
	for (i = 0; i < 20 && !ec && isint; i++) { usleep(20000); LIB(ec = jent_entropy_collector_alloc(0, f)); }
	if (!ec) vf_fail("no-service-later", "allocation refused after the environment recovered");
	judge_instance(ec, "the recovered environment");
	check_uuid(ec, "the recovered environment");
	F(ec);
	if (nM != m0) vf_fail("mapping-leak", "%d mappings of the library left after everything was released", nM - m0);
	if (nfds() != fd0) vf_fail("descriptor-leak", "%d descriptors left", nfds() - fd0);
}
static const int errs[] = { ENOMEM, EPERM, EAGAIN, EINVAL, EIO, ENOSYS, EINTR, EMFILE };
static void run(void)
{
	unsigned long i = vf_idx, k, c; int s, kind, mode; pid_t p; int st;
	wipe_check = !strcmp(vf_profile, "wipe");
	SH = __real_mmap(NULL, sizeof(*SH), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	s = (int)(i % NSC); i /= NSC;
	if (s == 9 && i % 8) { s = (int)vf_below(NSC); if (s == 9) s = 13; i = vf_below(2000); }	/* that one is slow */
	else if (s == 9) i /= 8;
	fflush(NULL);
	p = fork();
	if (!p) { counting = 1; scenario(s); SH->started = 1; _exit(0); }
	if (waitpid(p, &st, 0) != p || !WIFEXITED(st)) vf_fail("crash-undisturbed", "scenario %s ended by signal %d", SC[s].n, WTERMSIG(st));
	if (WEXITSTATUS(st)) _exit(WEXITSTATUS(st));
	/* spread the remaining index over all (kind, k, mode) of this scenario */
	for (c = 0, kind = 0; kind < K_N; kind++) c += SH->n[kind];
	if (!c) { vf_count("scenario_without_calls", 1); scenario(s); return; }
	mode = (int)(i / c) % 3; k = i % c;
	for (kind = 0; kind < K_N; kind++) { if (k < SH->n[kind]) break; k -= SH->n[kind]; }
	f_kind = kind; f_at = k + 1; f_len = mode == 0 ? 1 : mode == 1 ? 1000000 : (unsigned long)vf_range(2, 4);
	f_err = errs[vf_below(8)];
	if (kind == K_MMAP && vf_chance(3, 4)) f_err = ENOMEM;
	if (kind == K_MLOCK) f_err = errs[vf_below(4)];
	if (kind == K_ATTR || kind == K_CREATE) f_err = vf_chance(1, 2) ? EAGAIN : ENOMEM;
	if (kind == K_RANDOM) f_err = vf_chance(1, 2) ? ENOSYS : vf_chance(1, 2) ? EINTR : EAGAIN;
	if (kind == K_RANDOM && f_err == EINTR) f_len = (unsigned long)vf_range(1, 5);
	if (kind == K_READ && f_err == EINTR && f_len > 50) f_err = EIO;
	/* randomness is asked for in two ways: take both away at times */
	if (kind == K_RANDOM && vf_chance(1, 2)) { f_kind2 = vf_chance(1, 2) ? K_OPEN : K_READ; f_at2 = vf_range(1, SH->n[f_kind2] + 2); }
	else if (i / c >= 3 && vf_chance(2, 3)) { f_kind2 = (int)vf_below(K_N); f_at2 = vf_range(1, SH->n[f_kind2] + 1); }
	vf_describe("scenario '%s': %s #%lu..+%lu fails with %d; also %s #%lu", SC[s].n, kname[kind], f_at, f_len, f_err, f_kind2 >= 0 ? kname[f_kind2] : "none", f_at2);
	vf_state(vf_mix((uint64_t)s * 64 + (uint64_t)kind, f_at * 8 + (uint64_t)mode));
	win = 0; memset(cnt, 0, sizeof(cnt));
	scenario(s);
	vf_count(fired ? "faults_fired_cases" : "not_fired_cases", 1);
	if (fired) vf_count(kname[kind], 1);
	vf_count("mappings", total_maps);
}
int main(int argc, char **argv) { return vf_main(argc, argv, run); }
