/* Synthetic operating-system environment: cache descriptions, processor
 * counts and masks, FIPS indicator, sources of randomness - well-formed,
 * missing, malformed, extreme, interrupted. What the library derives from it
 * is read back through the public interface and compared with a reference
 * derivation; descriptors are kept in a ledger.
 *   profile probe:  derivation and tolerance (cache, processors, FIPS)
 *   profile status: status document, buffer sizes and identifiers */
#include "vf.h"
#include "jitterentropy.h"
#include "arch/jitterentropy-arch-timer.h"
#include "json.h"
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <sched.h>
#include <unistd.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/random.h>

/* ---------- synthetic files ---------- */
enum fault { F_NONE, F_MISSING, F_EIO, F_EINTR, F_EMPTY };
struct file { char data[400]; int len; enum fault flt; };
struct idx { struct file type, level, size; int rtype, rlevel; /* rtype: 0 stop, 1 skip, 2 data; rlevel 0 unusable */ long rsize; /* 0 unusable */ int odd; };
#define MAXCPU 12
static struct idx C[MAXCPU][20]; static int ncpu_tree, nidx[MAXCPU];
static long stride = 1;	/* only every so manieth processor is plugged in */
static long sc_conf, sc_onln, sc_l[3]; static int onln_err;
static struct file fips;
/* the list of online processors, asked for without glibc only */
static struct file online; static long onl_count;
static int active;
/* descriptors handed out */
#define FD0 5000
#define NFD 4096
static struct { int used, kind; struct file *f; int eintr, pos; } D[NFD];
static int nopen; static unsigned long opens, reads, eintrs;
/* randomness */
static int gr_mode, ur_mode; /* getrandom: 0 ok 1 short pieces 2 interrupted 3 unavailable 4 part then unavailable; urandom: 0 ok 1 short 2 EINTR 3 missing 4 error 5 early end */
static uint8_t gr_log[64], ur_log[64]; static int gr_n, ur_n, gr_fail, ur_fail, gr_int, ur_cnt;
static struct vf_rng rr;

static int newfd(int kind, struct file *f)
{
	int i;
	for (i = 0; i < NFD; i++) if (!D[i].used) { D[i].used = 1; D[i].kind = kind; D[i].f = f; D[i].pos = 0;
		D[i].eintr = f && f->flt == F_EINTR ? (int)vf_rng_next(&rr) % 4 + 1 : 0; if (D[i].eintr < 0) D[i].eintr = 1; nopen++; return FD0 + i; }
	vf_fail("descriptor-leak", "%d descriptors open at the same time", NFD);
}
int __real_open(const char *, int, ...);
int __wrap_open(const char *p, int fl, ...)
{
	long cpu; unsigned ix; char what[32]; va_list ap; int m;
	va_start(ap, fl); m = va_arg(ap, int); va_end(ap);
	if (!active) return __real_open(p, fl, m);
	opens++;
	if (opens > 20000000UL) vf_fail("no-end", "20 million files opened");
	if ((fl & O_ACCMODE) != O_RDONLY) vf_fail("open-for-writing", "%s opened for writing", p);
	if (sscanf(p, "/sys/devices/system/cpu/cpu%ld/cache/index%u/%31s", &cpu, &ix, what) == 3) {
		struct file *f;
		if (cpu < 0 || cpu % stride) { errno = ENOENT; return -1; }
		cpu /= stride;
		if (cpu >= ncpu_tree || ix >= (unsigned)nidx[cpu]) { errno = ENOENT; return -1; }
		f = !strcmp(what, "type") ? &C[cpu][ix].type : !strcmp(what, "level") ? &C[cpu][ix].level : !strcmp(what, "size") ? &C[cpu][ix].size : NULL;
		if (!f || f->flt == F_MISSING) { errno = f && (vf_rng_next(&rr) & 1) ? EACCES : ENOENT; return -1; }
		return newfd(1, f);
	}
	if (!strcmp(p, "/proc/sys/crypto/fips_enabled")) {
		if (fips.flt == F_MISSING) { errno = vf_rng_next(&rr) & 1 ? EMFILE : ENOENT; return -1; }
		return newfd(1, &fips);
	}
#ifdef NOGLIBC
	if (!strcmp(p, "/sys/devices/system/cpu/online")) {
		if (online.flt == F_MISSING) { errno = vf_rng_next(&rr) & 1 ? EACCES : ENOENT; return -1; }
		vf_count("online_lists", 1);
		return newfd(1, &online);
	}
#endif
	if (!strcmp(p, "/dev/urandom")) {
		if (ur_mode == 3) { ur_fail = 1; errno = ENOENT; return -1; }
		ur_cnt = 0; ur_n = 0;
		return newfd(2, NULL);
	}
	errno = ENOENT;
	return -1;
}
ssize_t __real_read(int, void *, size_t);
ssize_t __wrap_read(int fd, void *b, size_t n)
{
	int i = fd - FD0, k; ssize_t l;
	if (!active) return __real_read(fd, b, n);
	reads++;
	if (i < 0 || i >= NFD || !D[i].used) vf_fail("read-closed", "read from descriptor %d, which is not open", fd);
	if (D[i].kind == 2) {
		if (ur_mode == 2 && ur_cnt++ % 3 != 2) { eintrs++; errno = EINTR; return -1; }
		if (ur_mode == 4 && ur_n >= 5) { ur_fail = 1; errno = EIO; return -1; }
		if (ur_mode == 5 && ur_n >= 9) { ur_fail = 1; return 0; }
		l = (ssize_t)n;
		if ((ur_mode == 1 || ur_mode == 4 || ur_mode == 5) && l > 4) l = 4;
		for (k = 0; k < l; k++) { uint8_t v = (uint8_t)vf_rng_next(&rr); ((uint8_t *)b)[k] = v; if (ur_n < 64) ur_log[ur_n++] = v; }
		return l;
	}
	if (D[i].eintr > 0) { D[i].eintr--; eintrs++; errno = EINTR; return -1; }
	if (D[i].f->flt == F_EIO) { memset(b, '1', n); errno = EIO; return -1; }
	if (D[i].f->flt == F_EMPTY) return 0;
	l = D[i].f->len - D[i].pos;
	if (l > (ssize_t)n) l = (ssize_t)n;
	memcpy(b, D[i].f->data + D[i].pos, (size_t)l);
	D[i].pos += (int)l;
	return l;
}
int __real_close(int);
int __wrap_close(int fd)
{
	int i = fd - FD0;
	if (!active) return __real_close(fd);
	if (i < 0 || i >= NFD || !D[i].used) vf_fail("close-unknown", "close of descriptor %d, which is not open", fd);
	D[i].used = 0; nopen--;
	return 0;
}
long __real_sysconf(int);
long __wrap_sysconf(int n)
{
	if (!active) return __real_sysconf(n);
	switch (n) {
	case _SC_NPROCESSORS_CONF: if (sc_conf < 0) errno = EINVAL; return sc_conf;
	case _SC_NPROCESSORS_ONLN: if (sc_onln < 0) errno = onln_err; return sc_onln;
	case _SC_LEVEL1_DCACHE_SIZE: return sc_l[0];
	case _SC_LEVEL2_CACHE_SIZE: return sc_l[1];
	case _SC_LEVEL3_CACHE_SIZE: return sc_l[2];
	}
	return __real_sysconf(n);
}
static int aff_err; static unsigned aff_size; static long aff_count; static unsigned aff_bit0; static unsigned long affs;
int __real_sched_getaffinity(pid_t, size_t, cpu_set_t *);
int __wrap_sched_getaffinity(pid_t p, size_t n, cpu_set_t *s)
{
	long i;
	if (!active) return __real_sched_getaffinity(p, n, s);
	affs++;
	if (aff_err) { errno = aff_err; return -1; }
	if (n * 8 < aff_size) { errno = EINVAL; return -1; }
	memset(s, 0, n);
	for (i = 0; i < aff_count; i++) { unsigned b = (aff_bit0 + (unsigned)i * 3) % aff_size; ((unsigned long *)s)[b / 64] |= 1UL << (b % 64); }
	return 0;
}
ssize_t __real_getrandom(void *, size_t, unsigned);
ssize_t __wrap_getrandom(void *b, size_t n, unsigned f)
{
	size_t l = n, k;
	if (!active) return __real_getrandom(b, n, f);
	switch (gr_mode) {
	case 1: l = n > 3 ? 3 : n; break;
	case 2: if (gr_int++ % 3 != 2) { eintrs++; errno = EINTR; return -1; } l = n > 7 ? 7 : n; break;
	case 3: gr_fail = 1; errno = ENOSYS; return -1;
	case 4: if (gr_n >= 6) { gr_fail = 1; errno = EPERM; return -1; } l = n > 6 ? 6 : n; break;
	}
	for (k = 0; k < l; k++) { uint8_t v = (uint8_t)vf_rng_next(&rr); ((uint8_t *)b)[k] = v; if (gr_n < 64) gr_log[gr_n++] = v; }
	return (ssize_t)l;
}
int __real_mlock(const void *, size_t);
int __wrap_mlock(const void *a, size_t n) { (void)a; (void)n; return 0; }
static size_t biggest;
void *__real_mmap(void *, size_t, int, int, int, off_t);
void *__wrap_mmap(void *a, size_t n, int pr, int fl, int fd, off_t o) { if (active && n > biggest) biggest = n; return __real_mmap(a, n, pr, fl, fd, o); }

static uint64_t now; static struct vf_rng tr;
static void mock(void *a, uint64_t *out) { (void)a; now += 20 + vf_rng_next(&tr) % 6000; *out = now; }
#define LIB(x) do { active = 1; x; active = 0; if (nopen) vf_fail("descriptor-leak", "%d descriptors left open by the call", nopen); } while (0)

/* ---------- generation ---------- */
static void put(struct file *f, const char *fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	f->len = vsnprintf(f->data, sizeof(f->data), fmt, ap);
	va_end(ap);
	if (f->len > (int)sizeof(f->data) - 1) f->len = (int)sizeof(f->data) - 1;
}
static int plague;	/* per cent of attributes that are not well-formed */
static int bad(void) { return (int)vf_below(100) < plague; }
/* 1 readable */
static int faulty(struct file *f)
{
	f->flt = F_NONE;
	if (vf_chance(1, 12)) f->flt = F_EINTR;
	if (!bad()) return 1;
	switch (vf_below(3)) {
	case 0: f->flt = F_MISSING; break;
	case 1: f->flt = F_EIO; break;
	case 2: f->flt = F_EMPTY; break;
	}
	return 0;
}
static void gen_idx(struct idx *x, int ix, int huge)
{
	static const char *junk[] = { "garbage\n", "Instruction\n", "\n", "data\n", "unified\n", "Dat", "12", "Trace\n" };
	memset(x, 0, sizeof(*x));
	if (!faulty(&x->type)) { put(&x->type, "Data\n"); x->rtype = 0; }
	else if (bad()) { put(&x->type, "%s", junk[vf_below(8)]); x->rtype = 1; }
	else {
		switch (ix % 4) {
		case 0: put(&x->type, "Data\n"); x->rtype = 2; break;
		case 1: put(&x->type, "Instruction\n"); x->rtype = 1; break;
		default: put(&x->type, vf_chance(1, 4) ? "Data\n" : "Unified\n"); x->rtype = 2;
		}
		if (vf_chance(1, 6)) { put(&x->type, "Unified\n"); x->rtype = 2; }
	}
	x->rlevel = ix % 4 == 0 ? 1 : ix % 4 == 1 ? 1 : ix % 4 == 2 ? 2 : 3;
	if (vf_chance(1, 8)) x->rlevel = (int)vf_range(1, 5);
	put(&x->level, vf_chance(1, 5) ? "%d" : "%d\n", x->rlevel);
	if (!faulty(&x->level)) x->rlevel = 0;
	else if (bad()) { static const char *j[] = { "0\n", "-1\n", "x\n", "\n", "99999999999999999999999\n", "-99999999999999999999\n" }; put(&x->level, "%s", j[vf_below(6)]); x->rlevel = 0; }
	{
		unsigned long v; int sh, suf = (int)vf_below(8);
		if (suf < 5) { sh = 10; v = x->rlevel == 1 ? (unsigned long[]){ 16, 32, 48, 64, 128, 1, 3, 33 }[vf_below(8)] : vf_range(64, 40000); }
		else if (suf < 7) { sh = 20; v = vf_range(1, x->rlevel == 1 ? 2 : huge ? 1500 : 48); }
		else { sh = 0; v = vf_chance(1, 3) ? vf_range(1, 300) : vf_range(512, 3000000); }
		if (x->rlevel == 1 && !huge && (v << sh) > (3u << 20)) v = 32;
		if (vf_chance(1, 6)) v = 1UL << vf_below(sh == 20 ? 5 : 12);	/* exact powers */
		put(&x->size, sh == 10 ? "%luK%s" : sh == 20 ? "%luM%s" : "%lu%s", v, vf_chance(1, 5) ? "" : "\n");
		x->rsize = (long)(v << sh);
	}
	if (!faulty(&x->size)) x->rsize = 0;
	else if (bad()) {
		static const char *j[] = { "0K\n", "-32K\n", "K\n", "M\n", "\n", "big\n", "9223372036854775807\n", "9223372036854775808K\n", "9999999999999M\n",
			"9007199254740992K\n", "0000000000000000000000000000032K\n", "000000000000000000000000000000032K\n", "32                             K\n" };
		put(&x->size, "%s", j[vf_below(13)]); x->rsize = 0;
		/* products that come out small again in 64 bits */
		if (vf_chance(1, 4)) { int m = vf_chance(1, 2); put(&x->size, "%llu%c\n", (unsigned long long)(vf_range(1, 7) << (m ? 44 : 54)) + vf_range(1, 4000), m ? 'M' : 'K'); }
	}
}
static int too_big;	/* beyond what the documented type can express: only bounds are judged */
static void reference(long *L)
{
	int c, i; long conf = sc_conf <= 0 ? 1 : sc_conf > 65536 ? 65536 : sc_conf;
	L[0] = L[1] = L[2] = 0;
	for (c = 0; c < ncpu_tree && c * stride < conf; c++)
		for (i = 0; i < nidx[c] && i < 16; i++) {
			struct idx *x = &C[c][i]; int s;
			if (x->rtype == 0) break;
			if (x->rtype != 2 || x->rlevel < 1 || x->rsize <= 0) continue;
			s = x->rlevel > 3 ? 2 : x->rlevel - 1;
			if (x->rsize > L[s]) L[s] = x->rsize;
		}
	if (L[0] <= 0)
		for (i = 0; i < 3; i++) if (sc_l[i] > L[i]) L[i] = sc_l[i];
}
static uint32_t roundup(long s)
{
	uint64_t p = 1;
	if (s <= 0) return 0;
	while (p <= (uint64_t)s) p <<= 1;	/* smallest power of two strictly greater */
	if (p > 0xffffffffULL) { too_big = 1; return 0; }
	return (uint32_t)p;
}
static unsigned ilog2(uint32_t v) { unsigned r = 0; while (v >>= 1) r++; return r; }
static uint32_t ref_memsize(uint32_t ru, int all)
{
	unsigned m = ru ? ilog2(ru) + (all ? 0 : 2) : 18;
	if (m <= 9) return 1u << 18;
	if (m > 29) m = 29;
	return 1u << m;
}
#ifdef NOGLIBC
static void gen_online(void)
{
	char b[400]; int n = 0, k, runs = vf_chance(1, 5) ? (int)vf_range(8, 60) : (int)vf_range(1, 5), ok; long c = (long)vf_below(3), e;
	memset(&online, 0, sizeof(online));
	ok = faulty(&online);
	onl_count = 0; b[0] = 0;
	for (k = 0; k < runs && n < 340; k++) {
		e = vf_chance(1, 3) ? c : c + (long)vf_below(vf_chance(1, 6) ? 900 : 16);
		n += e == c && vf_chance(4, 5) ? snprintf(b + n, sizeof(b) - (size_t)n, "%s%ld", k ? "," : "", c) : snprintf(b + n, sizeof(b) - (size_t)n, "%s%ld-%ld", k ? "," : "", c, e);
		onl_count += e - c + 1; c = e + 2 + (long)vf_below(40);
	}
	if (c >= 65000) ok = 0, strcpy(b, "65536"), n = 5;
	if (vf_chance(1, 6)) {
		static const char *bad[] = { "x", "-1", "3-1", "0-99999999999", "0-70000", "65536", "1-", "0,3-2", "2-x", ",", "0,,1", "99999999999999999999", "0-9223372036854775807" };
		n = snprintf(b, sizeof(b), "%s", bad[vf_below(13)]); ok = 0;
	}
	if (vf_chance(9, 10)) { b[n++] = '\n'; b[n] = 0; }
	/* what does not fit into the reader's buffer is no list */
	memcpy(online.data, b, (size_t)n); online.len = n;
	if (n > 255) ok = 0;
	if (n == 255 && b[254] != '\n') ok = 0;
	if (!ok) onl_count = 0;
}
#endif
static void gen_env(int huge)
{
	int c, i;
	static const int pl[] = { 0, 0, 0, 3, 15, 40, 90 };
	plague = pl[vf_below(7)];
	memset(C, 0, sizeof(C));
	ncpu_tree = vf_chance(1, 10) ? 0 : (int)vf_range(1, MAXCPU);
	for (c = 0; c < ncpu_tree; c++) {
		nidx[c] = vf_chance(1, 8) ? (int)vf_below(20) : 4;
		for (i = 0; i < nidx[c]; i++) {
			/* homogeneous groups as real machines have, with exceptions */
			if (c && i < nidx[c - 1] && vf_chance(1, 2)) C[c][i] = C[c - 1][i];
			else gen_idx(&C[c][i], i, huge);
		}
	}
	stride = vf_chance(3, 4) ? 1 : (long[]){ 2, 7, 33, 200, 5000 }[vf_below(5)];
	sc_conf = vf_chance(1, 2) ? (ncpu_tree ? ncpu_tree * stride : 1) : vf_chance(1, 2) ? (long)vf_range(1, 64) : (long[]){ -1, 0, 1, 2, 65536, 70000, LONG_MAX, LONG_MIN }[vf_below(8)];
	for (i = 0; i < 3; i++) sc_l[i] = vf_chance(1, 2) ? 0 : vf_chance(1, 4) ? -1 : (long)vf_range(1, i ? 30000000 : 200000);
	aff_err = vf_chance(1, 6) ? (int[]){ EPERM, EFAULT, ENOSYS, ESRCH }[vf_below(4)] : 0;
	aff_size = (unsigned[]){ 64, 1024, 1024, 1025, 4096, 65536, 65537, 200000 }[vf_below(8)];
	aff_count = vf_chance(1, 10) ? 0 : (long)vf_range(1, aff_size < 300 ? aff_size : 300);
	aff_bit0 = (unsigned)vf_below(aff_size);
	sc_onln = vf_chance(1, 5) ? (long[]){ -1, 0 }[vf_below(2)] : (long)vf_range(1, 5000);
	onln_err = vf_chance(1, 2) ? EINVAL : EPERM;
#ifdef NOGLIBC
	gen_online();
	if (!aff_err && vf_chance(1, 2)) aff_err = ENOSYS;
#endif
}
static int gen_fips(void)
{
	int ok;
	memset(&fips, 0, sizeof(fips));
	ok = faulty(&fips);
	switch (vf_below(6)) {
	case 0: case 1: put(&fips, "1\n"); return ok;
	case 2: put(&fips, "1"); return ok;
	case 3: put(&fips, "2\n"); return 0;
	case 4: put(&fips, "0"); return 0;
	}
	put(&fips, "0\n");
	return 0;
}
/* ---------- status ---------- */
struct st { int n; long cores; unsigned long l1, all, mem; int fips, ntg1, have; char uuid[64]; char version[32]; int intt; };
static void stcb(void *a, const char *path, char t, const char *v)
{
	struct st *s = a;
	s->n++;
	if (strstr(path, "cpuCores")) { s->cores = strtol(v, 0, 10); s->have |= 1; if (t != 'n') vf_fail("status-type", "cpuCores is not a number"); }
	else if (strstr(path, "l1Bytes")) { s->l1 = strtoul(v, 0, 10); s->have |= 2; }
	else if (strstr(path, "allBytes")) { s->all = strtoul(v, 0, 10); s->have |= 4; }
	else if (strstr(path, "memoryBlockSizeBytes")) { s->mem = strtoul(v, 0, 10); s->have |= 8; }
	else if (strstr(path, "fipsMode")) { s->fips = !strcmp(v, "true"); s->have |= 16; }
	else if (strstr(path, "ntg1Mode")) { s->ntg1 = !strcmp(v, "true"); s->have |= 32; }
	else if (strstr(path, "uuid")) { snprintf(s->uuid, sizeof(s->uuid), "%s", v); s->have |= 64; }
	else if (strstr(path, "version")) { snprintf(s->version, sizeof(s->version), "%s", v); s->have |= 128; }
}
static void get_status(struct rand_data *ec, struct st *s, char *doc, size_t n)
{
	int r;
	memset(s, 0, sizeof(*s));
	memset(doc, 'Z', n);
	LIB(r = jent_status(ec, doc, n));
	if (r) vf_fail("status-refused", "status into %zu bytes failed", n);
	if (!memchr(doc, 0, n)) vf_fail("status-unterminated", "status not terminated");
	if (js_parse(doc, stcb, s)) vf_fail("status-not-json", "status is not a JSON document: %.300s", doc);
	if (ec && s->have != 255) vf_fail("status-incomplete", "status lacks fields (0x%x): %.300s", s->have, doc);
}
static void check_env(struct rand_data *ec, unsigned flags, const long *L, int fp, int first)
{
	static char doc[16384]; struct st s; uint32_t l1, all, mem; long cores;
	get_status(ec, &s, doc, sizeof(doc));
	too_big = 0;
	l1 = roundup(L[0]);
	all = roundup(L[0] + L[1] + L[2]);
	if (!too_big) {
		if (s.l1 != l1 || s.all != all) vf_fail("cache-size", "caches %ld/%ld/%ld give %lu and %lu instead of %u and %u", L[0], L[1], L[2], s.l1, s.all, l1, all);
		mem = ref_memsize(flags & JENT_CACHE_ALL ? all : l1, !!(flags & JENT_CACHE_ALL));
		if (!(flags & JENT_MAX_MEMSIZE_MASK) && !(flags & JENT_DISABLE_MEMORY_ACCESS) && s.mem != mem)
			vf_fail("memory-size", "caches %ld/%ld/%ld and flags 0x%x give noise memory %lu instead of %u", L[0], L[1], L[2], flags, s.mem, mem);
		vf_count("cache_derivations", 1);
		vf_state(vf_mix(l1, vf_mix(all, mem)));
	} else vf_count("cache_beyond_range", 1);
	if (s.mem & (s.mem - 1) || s.mem < 1024 || s.mem > (512u << 20)) vf_fail("memory-range", "noise memory of %lu bytes", s.mem);
	if (first && !(flags & JENT_DISABLE_MEMORY_ACCESS) && (biggest < s.mem || biggest > s.mem + (1u << 20))) vf_fail("memory-actual", "noise memory reported as %lu, largest mapping %zu", s.mem, biggest);
	cores = !aff_err && aff_size <= 65536 && aff_count > 0 ? aff_count : onl_count > 0 ? onl_count : sc_onln;
	if (cores > 0 ? s.cores != cores : s.cores > 0) vf_fail("processors", "%ld processors reported instead of %ld (mask of %u bits with %ld, error %d, online %ld)", s.cores, cores, aff_size, aff_count, aff_err, sc_onln);
	if (s.fips != (fp || (flags & (JENT_FORCE_FIPS | JENT_NTG1)))) vf_fail("fips-mode", "FIPS mode %d with indicator '%.*s' (fault %d), flags 0x%x", s.fips, fips.len, fips.data, fips.flt, flags);
	vf_count(fp ? "fips_indicated" : "fips_not_indicated", 1);
	vf_state(vf_mix((uint64_t)s.cores, vf_mix((uint64_t)s.fips, flags)));
}
static unsigned pick_flags(void)
{
	unsigned f = JENT_DISABLE_INTERNAL_TIMER | JENT_HASHLOOP_1;
	if (vf_chance(1, 4)) f |= JENT_CACHE_ALL;
	if (vf_chance(1, 5)) f |= JENT_FORCE_FIPS;
	if (vf_chance(1, 8)) f |= JENT_NTG1;
	return f;
}
static void probe(void)
{
	long L[3]; int fp, k, r, n; unsigned flags; struct rand_data *ec; uint32_t a;
	int huge = vf_chance(1, 40);
	do {
		gen_env(huge); reference(L); too_big = 0; a = roundup(L[0] + L[1] + L[2]);
	} while (!huge && (a > (32u << 20) || roundup(L[0]) > (4u << 20)));
	vf_describe("conf %ld online %ld sysconf %ld/%ld/%ld tree %d cpus reference %ld/%ld/%ld plague %d; ", sc_conf, sc_onln, sc_l[0], sc_l[1], sc_l[2], ncpu_tree, L[0], L[1], L[2], plague);
	fp = gen_fips();
	if (vf_chance(1, 2)) { LIB(r = jent_entropy_init_ex(0, JENT_DISABLE_INTERNAL_TIMER)); if (r) vf_fail("init-refused", "initialisation failed with %d in an odd but harmless environment", r); }
	n = (int)vf_range(1, 3);
	for (k = 0; k < n; k++) {
		flags = pick_flags();
		if (huge && k) break;
		if (k) { fp = gen_fips(); if (vf_chance(1, 2)) { aff_err = 0; aff_size = 64; aff_count = (long)vf_range(1, 60); } }
		biggest = 0;
		vf_describe("flags 0x%x fips '%.*s'/%d; ", flags, fips.len, fips.data, fips.flt);
		LIB(ec = jent_entropy_collector_alloc(0, flags));
		if (!ec) vf_fail("alloc-refused", "allocation refused in an odd but harmless environment, flags 0x%x", flags);
		check_env(ec, flags, L, fp, 1);
		if (vf_chance(1, 3)) {
			char b[40]; ssize_t g;
			LIB(g = jent_read_entropy_safe(&ec, b, sizeof(b)));
			if (g != (ssize_t)sizeof(b)) vf_fail("read", "read returned %zd", g);
		}
		LIB(jent_entropy_collector_free(ec));
		vf_count("instances", 1);
	}
	/* without memory access */
	if (!huge && vf_chance(1, 4)) {
		fp = gen_fips();
		flags = JENT_DISABLE_INTERNAL_TIMER | JENT_HASHLOOP_1 | JENT_DISABLE_MEMORY_ACCESS;
		LIB(ec = jent_entropy_collector_alloc(0, flags));
		if (fp && ec) vf_fail("fips-no-memory", "instance without memory access although the system is in FIPS mode");
		if (!fp && !ec) vf_fail("alloc-refused", "allocation without memory access refused");
		if (ec) { check_env(ec, flags, L, fp, 0); LIB(jent_entropy_collector_free(ec)); }
	}
	vf_count("files_opened", opens); vf_count("reads", reads); vf_count("interrupted_calls", eintrs); vf_count("mask_queries", affs);
	vf_sample("conf %ld tree %d cpus, caches %ld/%ld/%ld, %lu files opened", sc_conf, ncpu_tree, L[0], L[1], L[2], opens);
}
static void uuid_of(const uint8_t *b, char *o)
{
	uint8_t c[16]; int i, j = 0;
	memcpy(c, b, 16);
	c[6] = (uint8_t)((c[6] & 15) | 0x40); c[8] = (uint8_t)((c[8] & 0x3f) | 0x80);
	for (i = 0; i < 16; i++) { if (i == 4 || i == 6 || i == 8 || i == 10) o[j++] = '-'; j += sprintf(o + j, "%02x", c[i]); }
}
static void check_uuid(struct rand_data *ec, char *u)
{
	char e[64], e2[64]; size_t n; int r, k; char box[128]; static const char nil[] = "00000000-0000-0000-0000-000000000000";
	LIB(r = jent_uuid(ec, u, 64));
	if (r) vf_fail("uuid-refused", "identifier not available: %d", r);
	if (strlen(u) != 36) vf_fail("uuid-form", "identifier '%s'", u);
	if (gr_fail && ur_fail) {
		if (strcmp(u, nil)) vf_fail("uuid-made-up", "identifier %s although no randomness was available", u);
		vf_count("uuid_nil", 1);
	} else {
		if (!gr_fail) { uuid_of(gr_log, e); if (gr_n < 16) vf_fail("uuid-random", "only %d random bytes asked for", gr_n); strcpy(e2, e); }
		else { uint8_t m[64]; uuid_of(ur_log, e); k = gr_n > 16 ? 16 : gr_n; memcpy(m, gr_log, (size_t)k); memcpy(m + k, ur_log, (size_t)(64 - k)); uuid_of(m, e2); }
		if (strcmp(u, e) && strcmp(u, e2)) vf_fail("uuid-random", "identifier %s is not made of the random bytes obtained (%s)", u, e);
		vf_count("uuid_random", 1);
	}
	for (k = 0; k < 6; k++) {
		n = k < 3 ? (size_t)vf_range(34, 39) : vf_below(64);
		memset(box, 0x5c, sizeof(box));
		LIB(r = jent_uuid(ec, box + 16, n));
		if (n < 37 ? r != -1 : r != 0) vf_fail("uuid-size", "identifier into %zu bytes returns %d", n, r);
		if (!r && strcmp(box + 16, u)) vf_fail("uuid-size", "identifier differs: %s", box + 16);
		for (r = 0; r < 128; r++)
			if (box[r] != 0x5c && (n < 37 || r < 16 || r >= 16 + 37)) vf_fail("uuid-write", "byte %d written for a buffer of %zu", r - 16, n);
		vf_count("uuid_sizes", 1);
	}
	LIB(r = jent_uuid(NULL, box, sizeof(box))); if (r != -1) vf_fail("uuid-null", "null instance gives %d", r);
	LIB(r = jent_uuid(ec, NULL, 64)); if (r != -1) vf_fail("uuid-null", "null buffer gives %d", r);
}
static void sizes(struct rand_data *ec, unsigned count)
{
	static char doc[16384]; struct st s; size_t L, n, i; unsigned k; int r; char *b;
	get_status(ec, &s, doc, sizeof(doc));
	if (!ec && s.n != 1) vf_fail("status-null", "status of the library alone has %d fields: %s", s.n, doc);
	if (!ec && !(s.have & 128)) vf_fail("status-null", "no version: %s", doc);
	if (s.version[0]) { unsigned v = jent_version(), x = 0, y = 0, z = 0; sscanf(s.version, "%u.%u.%u", &x, &y, &z); if (x * 1000000 + y * 10000 + z * 100 != v) vf_fail("status-version", "version %s for %u", s.version, v); }
	L = strlen(doc);
	for (k = 0; k < count; k++) {
		n = k < 6 ? L - 2 + k : k < 10 ? k - 6 : vf_chance(1, 3) ? L + vf_below(200) : vf_below(L + 2);
		b = malloc(n + 64);
		memset(b, 0x6b, n + 64);
		LIB(r = jent_status(ec, b + 32, n));
		for (i = 0; i < 32; i++) if (b[i] != 0x6b || b[n + 32 + i] != 0x6b) vf_fail("status-overrun", "status wrote outside its buffer of %zu bytes", n);
		if (n == 0) { if (r != -1) vf_fail("status-size", "status into no buffer returns %d", r); }
		else {
			if (!memchr(b + 32, 0, n)) vf_fail("status-unterminated", "status into %zu bytes is not terminated", n);
			if (r != 0 && r != -1) vf_fail("status-size", "status returned %d", r);
			if (r == 0 && strcmp(b + 32, doc)) vf_fail("status-truncated", "status into %zu bytes reports success with an incomplete document (%zu of %zu)", n, strlen(b + 32), L);
			if (r && n > L + 1) vf_fail("status-size", "status into %zu bytes fails for a document of %zu", n, L);
		}
		free(b);
		/* exactly sized, for the address sanitizer */
		b = malloc(n ? n : 1);
		LIB(r = jent_status(ec, b, n));
		free(b);
		vf_count("status_sizes", 1);
	}
	LIB(r = jent_status(ec, NULL, 100)); if (r != -1) vf_fail("status-null", "null buffer gives %d", r);
	vf_state(vf_mix(L, count));
}
static void status(void)
{
	int k, n, i, r; unsigned flags; struct rand_data *ec[6]; char u[6][64], b[100]; char v[64]; ssize_t g;
	static const unsigned mem[] = { JENT_MAX_MEMSIZE_1kB, JENT_MAX_MEMSIZE_32kB, JENT_MAX_MEMSIZE_1MB };
	plague = 0; memset(&fips, 0, sizeof(fips)); fips.flt = F_MISSING;
	gen_env(0); sc_conf = 4;
	n = (int)vf_range(1, 5);
	sizes(NULL, 14);
	for (k = 0; k < n; k++) {
		flags = pick_flags() & ~(unsigned)JENT_CACHE_ALL;
		flags |= mem[vf_below(3)];
		if (vf_chance(1, 6) && !(flags & (JENT_FORCE_FIPS | JENT_NTG1))) flags |= JENT_DISABLE_MEMORY_ACCESS;
		if (vf_chance(1, 5)) flags |= JENT_FORCE_SECURE_MEM;
		gr_mode = (int)vf_below(5); ur_mode = (int)vf_below(6);
		gr_n = ur_n = gr_fail = ur_fail = gr_int = ur_cnt = 0;
		vf_describe("flags 0x%x getrandom %d urandom %d; ", flags, gr_mode, ur_mode);
		LIB(ec[k] = jent_entropy_collector_alloc((unsigned)vf_below(21), flags));
		if (!ec[k]) vf_fail("alloc-refused", "allocation refused, flags 0x%x randomness %d/%d", flags, gr_mode, ur_mode);
		check_uuid(ec[k], u[k]);
		for (i = 0; i < k; i++) if (!strcmp(u[i], u[k]) && u[k][14] == '4') vf_fail("uuid-twice", "two instances are both %s", u[k]);
		vf_state(vf_mix(flags, (uint64_t)(gr_mode * 8 + ur_mode)));
		gr_mode = 0; ur_mode = 0;
		for (i = (int)vf_below(3); i > 0; i--) {
			size_t l = vf_below(100);
			LIB(g = vf_chance(1, 2) ? jent_read_entropy_safe(&ec[k], b, l) : jent_read_entropy(ec[k], b, l));
			if (g != (ssize_t)l) vf_fail("read", "read of %zu returned %zd", l, g);
		}
		sizes(ec[k], vf_thorough ? 300 : 24);
		{ static char doc[16384]; struct st s; get_status(ec[k], &s, doc, sizeof(doc));
		  if (strcmp(s.uuid, u[k])) vf_fail("uuid-status", "status says %s, identifier is %s", s.uuid, u[k]); }
	}
	for (k = 0; k < n; k++) {
		LIB(r = jent_uuid(ec[k], v, sizeof(v)));
		if (r || strcmp(v, u[k])) vf_fail("uuid-changed", "identifier %s became %s", u[k], v);
		LIB(jent_entropy_collector_free(ec[k]));
	}
	vf_count("instances", (uint64_t)n);
	vf_sample("%d instances, last flags 0x%x identifier %s", n, flags, u[n - 1]);
}
static void run(void)
{
	vf_rng_seed(&tr, vf_seed, vf_idx + 3); vf_rng_seed(&rr, vf_seed, vf_idx + 9);
	now = 1u << 30;
	jent_set_mock_timer(mock, NULL);
	if (!strcmp(vf_profile, "status")) status(); else probe();
}
int main(int argc, char **argv) { return vf_main(argc, argv, run); }
