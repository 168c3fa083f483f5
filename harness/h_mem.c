/* Memory monitors: every library call runs on a stack of its own; the
 * conditioning calls are recorded raw into a vault (mappings the monitors own,
 * not searched); between calls the generator states and blocks are recomputed
 * there and the complete writable memory of the process is searched for them.
 * Mappings are followed from mmap to munmap: all zero when returned, guarded,
 * excluded from dumps, locked when demanded.
 * profiles: wipe (C09), backtrack (C10), guard (C12) */
#include "vf.h"
#include "ref.h"
#include "json.h"
#include "jitterentropy.h"
#include "jitterentropy-internal.h"
#include "jitterentropy-sha3.h"
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/prctl.h>
#include <linux/capability.h>
#include <ucontext.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>

void *__real_mmap(void *, size_t, int, int, int, off_t);
int __real_munmap(void *, size_t);
int __real_madvise(void *, size_t, int);
static int prof_wipe, prof_back, prof_guard;

/* ---------- vault ---------- */
#define NSEC 4096
struct sec { uint8_t b[256]; unsigned n; int kind; };	/* kind 0: forbidden everywhere, 1: only in library mappings */
#define HBITS 16
struct hent { uint64_t w; uint16_t sec, off; int32_t next; };
struct xpool { void *ctx; struct ref_xdrbg x; int ngen; };
struct vault {
	uint8_t buf[1 << 20];		/* caller buffers */
	uint8_t log[48u << 20]; size_t nlog; int overflow;
	struct sec sec[NSEC]; int nsec;
	struct hent ent[1 << 18]; int nent; int32_t head[1 << HBITS];
	struct xpool pool[32]; int npool;
	uint8_t scan[1 << 16];
	char maps[1 << 17];
	uint8_t last[8][64]; int nlast;
	uint8_t sigma[32]; int havesig; uint8_t blocks[40][32]; int nblk;
} *V;
static uint8_t *L; static size_t Lsz = 256 * 1024;
static const char *secname[NSEC];

/* ---------- mapping ledger ---------- */
struct track { uint8_t *p; size_t n; int live, demand; };
static struct track trk[256]; static int ntrk;
static int in_lib, demand_now;
static uint64_t nmaps, nunmaps, bytes_checked;

static void vaddr_prot(uint8_t *a, int *r);
void *__wrap_mmap(void *a, size_t n, int pr, int fl, int fd, off_t o);
void *__wrap_mmap(void *a, size_t n, int pr, int fl, int fd, off_t o)
{
	void *p = __real_mmap(a, n, pr, fl, fd, o);
	if (in_lib && p != MAP_FAILED) {
		int i;
		for (i = 0; i < ntrk; i++) if (!trk[i].live) break;
		if (i == 256) vf_inconclusive("too many mappings");
		if (i == ntrk) ntrk++;
		trk[i].p = p; trk[i].n = n; trk[i].live = 1; trk[i].demand = demand_now;
		nmaps++;
	}
	return p;
}
static int page_readable(uint8_t *a)
{
	int fd[2]; ssize_t r; static int pfd[2] = { -1, -1 };
	char c;
	if (pfd[0] < 0) { if (pipe(fd)) vf_inconclusive("pipe"); pfd[0] = fd[0]; pfd[1] = fd[1]; }
	r = write(pfd[1], a, 1);
	if (r == 1) { if (read(pfd[0], &c, 1) != 1) vf_inconclusive("pipe"); return 1; }
	return 0;
}
static void check_zero(uint8_t *p, size_t n, const char *how)
{
	size_t o, i;
	for (o = 0; o < n; o += 4096) {
		if (!page_readable(p + o)) continue;
		for (i = 0; i < 4096 && o + i < n; i++)
			if (p[o + i]) vf_fail("released-nonzero", "%s of %zu bytes: byte %zu still holds %#x", how, n, o + i, p[o + i]);
		bytes_checked += 4096;
	}
}
int __wrap_munmap(void *a, size_t n);
int __wrap_munmap(void *a, size_t n)
{
	int i;
	if (in_lib) {
		if (prof_wipe) check_zero(a, n, "munmap");
		for (i = 0; i < ntrk; i++)
			if (trk[i].live && trk[i].p == (uint8_t *)a && trk[i].n == n) { trk[i].live = 0; break; }
		if (i == ntrk) vf_fail("unmap-unknown", "munmap of a range that is not one mapping of the library (%zu bytes)", n);
		nunmaps++;
	}
	return __real_munmap(a, n);
}
int __wrap_madvise(void *a, size_t n, int adv);
int __wrap_madvise(void *a, size_t n, int adv)
{
	if (in_lib && prof_wipe && (adv == MADV_DONTNEED || adv == MADV_FREE)) check_zero(a, n & ~4095ul, "discarding");
	return __real_madvise(a, n, adv);
}
/* lock failures of every kind the system call documents, without a limit being involved */
static int mlock_err, mlock_at = -1, mlock_once;	/* every call, or only the one of that index */
int __real_mlock(const void *, size_t);
int __wrap_mlock(const void *a, size_t n);
int __wrap_mlock(const void *a, size_t n)
{
	if (in_lib && mlock_err && (mlock_at < 0 || mlock_at-- == 0)) { errno = mlock_err; if (mlock_at == -1 && mlock_once) mlock_err = 0; return -1; }
	return __real_mlock(a, n);
}
static struct track *tracked(const void *p)
{
	int i;
	for (i = 0; i < ntrk; i++)
		if (trk[i].live && (uint8_t *)p >= trk[i].p && (uint8_t *)p < trk[i].p + trk[i].n) return &trk[i];
	return NULL;
}

/* ---------- raw recording, runs on the library's stack ---------- */
enum { EV_INIT = 1, EV_UPD, EV_GEN, EV_FREE };
struct ev { uint32_t t; uint32_t n; void *ctx; };
static void rec(uint32_t t, void *ctx, const void *d, size_t n)
{
	struct ev e;
	if (!in_lib) return;
	if (V->nlog + sizeof(e) + n + 16 > sizeof(V->log)) { V->overflow = 1; return; }
	e.t = t; e.n = (uint32_t)n; e.ctx = ctx;
	memcpy(V->log + V->nlog, &e, sizeof(e)); V->nlog += sizeof(e);
	if (n) memcpy(V->log + V->nlog, d, n);
	V->nlog += (n + 7) & ~7ul;
}
static void *live_ctx[32]; static int nlive;
static int is_pool(void *c) { int i; for (i = 0; i < nlive; i++) if (live_ctx[i] == c) return 1; return 0; }
void __real_jent_shake256_init(struct jent_sha_ctx *c); void __wrap_jent_shake256_init(struct jent_sha_ctx *c);
void __wrap_jent_shake256_init(struct jent_sha_ctx *c)
{
	if (tracked(c) && !is_pool(c)) { if (nlive == 32) vf_inconclusive("too many pools"); live_ctx[nlive++] = c; }
	if (is_pool(c)) rec(EV_INIT, c, NULL, 0);
	__real_jent_shake256_init(c);
}
void __real_jent_sha3_update(struct jent_sha_ctx *c, const uint8_t *p, size_t n); void __wrap_jent_sha3_update(struct jent_sha_ctx *c, const uint8_t *p, size_t n);
void __wrap_jent_sha3_update(struct jent_sha_ctx *c, const uint8_t *p, size_t n)
{
	if (is_pool(c)) rec(EV_UPD, c, p, n);
	__real_jent_sha3_update(c, p, n);
}
void __real_jent_drbg_generate_block(struct jent_sha_ctx *c, uint8_t *d, size_t n); void __wrap_jent_drbg_generate_block(struct jent_sha_ctx *c, uint8_t *d, size_t n);
void __wrap_jent_drbg_generate_block(struct jent_sha_ctx *c, uint8_t *d, size_t n)
{
	if (is_pool(c)) rec(EV_GEN, c, &n, 8);
	__real_jent_drbg_generate_block(c, d, n);
}
void __real_jent_sha3_dealloc(void *h); void __wrap_jent_sha3_dealloc(void *h);
void __wrap_jent_sha3_dealloc(void *h)
{
	int i;
	if (h && is_pool(h)) {
		rec(EV_FREE, h, h, sizeof(struct jent_sha_ctx));
		for (i = 0; i < nlive; i++) if (live_ctx[i] == h) { live_ctx[i] = live_ctx[--nlive]; break; }
	}
	__real_jent_sha3_dealloc(h);
}
int __wrap_jent_fips_enabled(void); int __wrap_jent_fips_enabled(void) { return 0; }

/* ---------- timer ---------- */
static uint64_t t_now = 1000, t_n, t_bad_from = -1ull, t_bad_len; static int t_hugeok;
static struct vf_rng trng;
static void guard_all(const char *when);
static uint64_t t_guard_at;
static void tcb(void *arg, uint64_t *o)
{
	(void)arg;
	if (++t_n > 40000000) vf_inconclusive("no progress");
	if (t_n >= t_bad_from && t_n < t_bad_from + t_bad_len) t_now += 977;
	else t_now += 20 + vf_rng_next(&trng) % 2000;
	if (prof_guard && in_lib && t_n == t_guard_at) { in_lib = 0; guard_all("during collection"); in_lib = 1; }
	*o = t_now;
}

/* ---------- calls on the library stack ---------- */
static struct { int op; unsigned osr, flags; struct rand_data *ec; uint8_t *p; size_t n; ssize_t r; } *C;
static ucontext_t uc_main, uc_lib;
static void tramp(void)
{
	switch (C->op) {
	case 0: C->r = jent_entropy_init_ex(C->osr, C->flags); break;
	case 1: C->r = jent_entropy_init(); break;
	case 2: C->ec = jent_entropy_collector_alloc(C->osr, C->flags); break;
	case 3: C->r = jent_read_entropy(C->ec, (char *)C->p, C->n); break;
	case 4: C->r = jent_read_entropy_safe(&C->ec, (char *)C->p, C->n); break;
	case 5: jent_entropy_collector_free(C->ec); C->ec = NULL; break;
	case 6: C->r = jent_status(C->ec, (char *)C->p, C->n); break;
	case 7: C->r = jent_selftest(C->ec); break;
	case 8: C->r = jent_uuid(C->ec, (char *)C->p, C->n); break;
	}
}
static void add_secret(const void *p, unsigned n, int kind, const char *name)
{
	struct sec *s;
	unsigned i;
	if (V->nsec >= NSEC) return;
	s = &V->sec[V->nsec];
	memcpy(s->b, p, n); s->n = n; s->kind = kind;
	secname[V->nsec] = name;
	for (i = 0; i + 8 <= n; i++) {
		struct hent *e;
		uint64_t w; unsigned h;
		memcpy(&w, p + i, 8);
		if (!w || V->nent >= (1 << 18)) continue;
		h = (unsigned)((w * 0x9e3779b97f4a7c15ull) >> (64 - HBITS));
		e = &V->ent[V->nent];
		e->w = w; e->sec = (uint16_t)V->nsec; e->off = (uint16_t)i; e->next = V->head[h];
		V->head[h] = V->nent++;
	}
	V->nsec++;
}
static void clear_secrets(void) { V->nsec = V->nent = 0; memset(V->head, 0xff, sizeof(V->head)); }
/* compilers spill single words of a Keccak state in passing; gcc never leaves
 * more than one word of a secret in sequence, clang up to two */
#ifdef __clang__
# define MINMATCH 32
#else
# define MINMATCH 24
#endif
static unsigned longest; static uint64_t scanned;
static void scan_region(uint8_t *a, uint8_t *b, const char *name)
{
	uint8_t *p;
	struct track *t = tracked(a);
	for (p = a; p + 8 <= b; p += 8) {
		uint64_t w; int32_t k;
		memcpy(&w, p, 8);
		if (!w) continue;
		for (k = V->head[(w * 0x9e3779b97f4a7c15ull) >> (64 - HBITS)]; k >= 0; k = V->ent[k].next) {
			struct hent *e = &V->ent[k];
			struct sec *s = &V->sec[e->sec];
			unsigned lo = e->off, hi = e->off + 8; uint8_t *q = p, *r = p + 8;
			if (e->w != w || (s->kind && t)) continue;
			while (lo && q > a && q[-1] == s->b[lo - 1]) { lo--; q--; }
			while (hi < s->n && r < b && *r == s->b[hi]) { hi++; r++; }
			if (hi - lo > longest) longest = hi - lo;
			if (hi - lo >= MINMATCH)
				vf_fail("secret-left-behind", "%u of the %u bytes of %s found after %s in %s at offset %#lx", hi - lo, s->n, secname[e->sec], C->op == 5 ? "free" : C->op >= 3 ? "a read" : "initialisation", name, (unsigned long)(q - a));
		}
	}
	scanned += (uint64_t)(b - a);
}
static void scan_all(void)
{
	int fd = open("/proc/self/maps", O_RDONLY);
	size_t n = 0; ssize_t r; char *p;
	volatile char here;
	while ((r = read(fd, V->maps + n, sizeof(V->maps) - 1 - n)) > 0) n += (size_t)r;
	close(fd);
	V->maps[n] = 0;
	for (p = V->maps; p && *p; p = strchr(p, '\n') ? strchr(p, '\n') + 1 : NULL) {
		unsigned long a, b; char pr[8], *nm; char name[64] = "anonymous memory";
		if (sscanf(p, "%lx-%lx %7s", &a, &b, pr) != 3) continue;
		if (pr[0] != 'r' || pr[1] != 'w') continue;
		if ((uint8_t *)V >= (uint8_t *)a && (uint8_t *)V < (uint8_t *)b) continue;
		if ((char *)&here >= (char *)a && (char *)&here < (char *)b) continue;	/* the monitor's stack */
		if (pr[3] == 's') continue;
		nm = strchr(p, '\n');
		if ((uint8_t *)a <= L && L < (uint8_t *)b) {
			scan_region(L, L + Lsz, "the dead stack");
			if ((uint8_t *)a < L) scan_region((uint8_t *)a, L, name);
			if ((uint8_t *)b > L + Lsz) scan_region(L + Lsz, (uint8_t *)b, name);
			continue;
		}
		if (nm) { char *s = nm; while (s > p && s[-1] != ' ') s--; if (nm - s > 1 && nm - s < 60) { memcpy(name, s, (size_t)(nm - s)); name[nm - s] = 0; } }
		if (tracked((void *)a)) strcpy(name, "library memory");
		scan_region((uint8_t *)a, (uint8_t *)b, name);
	}
}
static struct xpool *xpool(void *ctx) { int i; for (i = 0; i < V->npool; i++) if (V->pool[i].ctx == ctx) return &V->pool[i]; return NULL; }
static void process_log(void)
{
	size_t o = 0; int i;
	clear_secrets();
	V->nlast = 0; V->nblk = 0; V->havesig = 0;
	while (o < V->nlog) {
		struct ev e; uint8_t *d; struct xpool *x;
		memcpy(&e, V->log + o, sizeof(e)); o += sizeof(e); d = V->log + o; o += (e.n + 7) & ~7ul;
		x = xpool(e.ctx);
		if (e.t == EV_INIT) {
			if (!x) { if (V->npool == 32) vf_inconclusive("pools"); x = &V->pool[V->npool++]; }
			x->ctx = e.ctx; ref_xd_init(&x->x); x->ngen = 0;
			continue;
		}
		if (!x) continue;
		if (e.t == EV_UPD) {
			ref_xd_input(&x->x, d, e.n);
			if (e.n >= 41) { memcpy(V->last[V->nlast % 8], d, 41); V->nlast++; }
		} else if (e.t == EV_GEN) {
			struct ref_sponge s = x->x.seed; uint8_t v1[64], out[32], oldV[64]; size_t want;
			memcpy(&want, d, 8);
			memcpy(oldV, x->x.V, 64);
			if (x->x.seeded) add_secret(oldV, 64, 0, "the state preceding a delivered block");
			if (s.pos) { struct ref_sponge z = s; add_secret(z.A, 200, 0, "the pool a block came from"); }
			ref_sp_byte(&s, x->x.seeded ? 85 : 0);
			ref_sp_finish(&s, 0x1f, v1, 64);
			add_secret(v1, 64, 0, "the state a block was generated from");
			add_secret((uint8_t *)s.A + 64, 136, 0, "the sponge state a block came from");
			ref_xd_generate(&x->x, out);
			add_secret(out, 32, 0, "a delivered block");
			x->ngen++;
			if (V->nblk < 40) memcpy(V->blocks[V->nblk++], out, 32);
		} else if (e.t == EV_FREE) {
			struct jent_sha_ctx *c = (struct jent_sha_ctx *)d;
			add_secret(c->state, 200, 0, "the pool of a released instance");
			if (x->x.seeded) add_secret(x->x.V, 64, 0, "the generator state of a released instance");
			x->ctx = NULL;
			*x = V->pool[--V->npool];
		}
	}
	V->nlog = 0;
	for (i = 0; i < V->nlast && i < 8; i++) add_secret(V->last[i] + 9, 32, 1, "pool input");
	for (i = 0; i < V->npool; i++) {
		struct jent_sha_ctx *c = V->pool[i].ctx;
		add_secret(c->state, 200, 1, "the current pool");
		if (V->pool[i].x.seeded) add_secret(V->pool[i].x.V, 64, 1, "the current generator state");
	}
}
/* ---------- protection ---------- */
struct vma { unsigned long a, b; char pr[5]; int dd, lo; };
static struct vma vm[512]; static int nvm;
static void read_smaps(void)
{
	int fd = open("/proc/self/smaps", O_RDONLY);
	size_t n = 0; ssize_t r; char *p;
	if (fd < 0) vf_inconclusive("no smaps");
	while ((r = read(fd, V->maps + n, sizeof(V->maps) - 1 - n)) > 0) n += (size_t)r;
	close(fd);
	V->maps[n] = 0; nvm = 0;
	for (p = V->maps; p && *p; p = strchr(p, '\n') ? strchr(p, '\n') + 1 : NULL) {
		unsigned long a, b; char pr[8];
		if (sscanf(p, "%lx-%lx %4s ", &a, &b, pr) == 3 && strchr("r-", pr[0])) {
			if (nvm < 512) { vm[nvm].a = a; vm[nvm].b = b; memcpy(vm[nvm].pr, pr, 5); vm[nvm].dd = vm[nvm].lo = 0; nvm++; }
		} else if (!strncmp(p, "VmFlags:", 8) && nvm) {
			char *e = strchr(p, '\n'); char *q;
			for (q = p + 8; q + 2 <= e; q++) {
				if (q[-1] == ' ' && q[0] == 'd' && q[1] == 'd') vm[nvm - 1].dd = 1;
				if (q[-1] == ' ' && q[0] == 'l' && q[1] == 'o') vm[nvm - 1].lo = 1;
			}
		}
	}
}
static void guard_ptr(const void *ptr, size_t n, int demand, const char *what, const char *when)
{
	int i;
	unsigned long p = (unsigned long)ptr;
	for (i = 0; i < nvm; i++) if (p >= vm[i].a && p < vm[i].b) break;
	if (i == nvm) vf_fail("not-mapped", "%s is not mapped (%s)", what, when);
	if (p + n > vm[i].b) vf_fail("protection-split", "%s of %zu bytes is not covered by one uniformly protected region (%s)", what, n, when);
	if (!i || vm[i - 1].b != vm[i].a || vm[i - 1].pr[0] != '-' || vm[i - 1].pr[1] != '-') vf_fail("no-guard", "no inaccessible page before %s (%s)", what, when);
	if (i + 1 >= nvm || vm[i + 1].a != vm[i].b || vm[i + 1].pr[0] != '-' || vm[i + 1].pr[1] != '-') vf_fail("no-guard", "no inaccessible page after %s (%s)", what, when);
	if (!vm[i].dd) vf_fail("dumpable", "%s is included in core dumps (%s)", what, when);
	if (demand && !vm[i].lo) vf_fail("not-locked", "%s is not locked although demanded (%s)", what, when);
	vf_count(demand ? "regions_seen_guarded_locked" : "regions_seen_guarded", 1);
}
struct mi { struct rand_data *ec; unsigned flags; int demand, alive; };
static struct mi inst[4];
static void guard_all(const char *when)
{
	int i;
	read_smaps();
	for (i = 0; i < ntrk; i++) if (trk[i].live) {
		/* regions under construction are judged once they are in use */
		guard_ptr(trk[i].p + 4096, trk[i].n - 8192, trk[i].demand, "a library region", when);
	}
	if (in_lib) return;
}
static void guard_inst(struct mi *m)
{
	struct rand_data *ec = m->ec;
	guard_ptr(ec, sizeof(*ec), m->demand, "the instance", "between calls");
	guard_ptr(ec->hash_state, sizeof(struct jent_sha_ctx), m->demand, "the entropy pool", "between calls");
	if (ec->mem) guard_ptr(ec->mem, (size_t)ec->memmask + 1, m->demand, "the noise memory", "between calls");
}
static void secst(void *arg, const char *path, char type, const char *val)
{
	(void)type;
	if (!strcmp(path, "configuration.secureMemory")) *(int *)arg = !strcmp(val, "true");
}
static void call(int op)
{
	C->op = op;
	getcontext(&uc_lib);
	uc_lib.uc_stack.ss_sp = L; uc_lib.uc_stack.ss_size = Lsz; uc_lib.uc_link = &uc_main;
	makecontext(&uc_lib, tramp, 0);
	in_lib = 1;
	swapcontext(&uc_main, &uc_lib);
	in_lib = 0;
	if (prof_wipe || prof_back) {
		if (V->overflow) vf_inconclusive("log overflow");
		process_log();
		scan_all();
		vf_count("scans", 1);
		vf_count("secrets_searched", (uint64_t)V->nsec);
	} else V->nlog = 0;
	if (prof_guard) {
		int i;
		guard_all("between calls");
		for (i = 0; i < 4; i++) if (inst[i].alive && inst[i].ec) guard_inst(&inst[i]);
		vf_count("protection_checks", 1);
	}
}
static void set_limit(rlim_t lim)
{
	struct __user_cap_header_struct h = { _LINUX_CAPABILITY_VERSION_3, 0 };
	struct __user_cap_data_struct d[2];
	struct rlimit rl = { lim, lim };
	if (syscall(SYS_capget, &h, d)) vf_inconclusive("capget");
	d[0].effective &= ~(1u << CAP_IPC_LOCK); d[0].permitted &= ~(1u << CAP_IPC_LOCK); d[0].inheritable = 0;
	if (syscall(SYS_capset, &h, d)) vf_inconclusive("capset");
	if (setrlimit(RLIMIT_MEMLOCK, &rl)) vf_inconclusive("setrlimit");
}
static void one(void)
{
	unsigned fix_msz = 0; int internal = 0, nops, k, i, limited = 0; rlim_t lim = RLIM_INFINITY;
	struct rlimit cur;
	prof_wipe = !strcmp(vf_profile, "wipe"); prof_back = !strcmp(vf_profile, "backtrack"); prof_guard = !strcmp(vf_profile, "guard");
	V = __real_mmap(NULL, sizeof(*V), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	L = __real_mmap(NULL, Lsz + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	if ((void *)V == MAP_FAILED || (void *)L == MAP_FAILED) vf_inconclusive("mmap");
	mprotect(L, 4096, PROT_NONE); mprotect(L + 4096 + Lsz, 4096, PROT_NONE); L += 4096;
	memset(L, 0xcd, Lsz);
	/* keep the vault apart from any neighbour the kernel might merge */
	{ static char cbuf[sizeof(*C) + 64]; C = (void *)cbuf; }
	clear_secrets();
	vf_rng_seed(&trng, vf_rnd(), 9);
	jent_set_mock_timer(tcb, NULL);
	getrlimit(RLIMIT_MEMLOCK, &cur);
	if (prof_guard && vf_chance(1, 3)) {
		static const unsigned kb[] = { 0, 4, 8, 16, 40, 64, 256, 1024 };
		lim = kb[vf_below(8)] * 1024ul;
		/* or one that runs out at each of the regions an initialisation and an instance consist of */
		if (vf_chance(2, 3)) {
			size_t rg;
			fix_msz = (unsigned)vf_range(1, 8);
			rg = 1ul << (fix_msz + 9); if (rg < 4096) rg = 4096;
			lim = rg * vf_range(1, 3) + 4096ul * vf_range(0, 12);
		}
		if (lim < cur.rlim_max) { set_limit(lim); limited = 1; } else lim = RLIM_INFINITY;
	}
	else if (prof_guard && vf_chance(1, 6)) {
		static const int er[] = { EPERM, ENOMEM, EAGAIN };
		if (vf_chance(1, 2)) { mlock_err = er[vf_below(3)]; lim = 0; } else { mlock_once = er[vf_below(3)]; lim = 1u << 30; }
		limited = 1;
		vf_count("lock_failures_injected_cases", 1);
	}
	if (prof_guard && vf_chance(1, 10)) { internal = 1; vf_count("internal_timer_cases", 1); }
	nops = (int)vf_range(6, internal ? 7 : vf_thorough ? 60 : 24);
	for (k = 0; k < nops; k++) {
		struct mi *m = &inst[vf_below(4)];
		unsigned dice = (unsigned)vf_below(100);
		if (mlock_once) { mlock_err = vf_chance(2, 3) ? mlock_once : 0; mlock_at = (int)vf_below(9); }
		if (vf_chance(1, 4)) { t_bad_from = t_n + vf_below(vf_chance(1, 2) ? 60000 : 4000); t_bad_len = vf_range(200, 9000); }
		else t_bad_from = -1ull;
		t_guard_at = t_n + vf_range(1, vf_chance(1, 2) ? 17000 : 30000);
		if (!m->alive) {
			static const unsigned modes[] = { 0, 0, JENT_FORCE_FIPS, JENT_NTG1, JENT_FORCE_SECURE_MEM, JENT_FORCE_FIPS, JENT_DISABLE_MEMORY_ACCESS, JENT_FORCE_SECURE_MEM | JENT_DISABLE_MEMORY_ACCESS };
			unsigned msz = (unsigned)vf_range(1, prof_guard ? 8 : 6), hl = (unsigned)vf_below(2);
			if (prof_guard && vf_chance(1, 12)) msz = (unsigned)vf_range(9, 16);
			if (fix_msz && vf_chance(4, 5)) msz = fix_msz;
			unsigned osr = (unsigned)vf_range(3, vf_chance(1, 5) ? 19 : 4);
			m->flags = modes[vf_below(8)] | JENT_DISABLE_INTERNAL_TIMER | (msz << 27) | (hl << 24);
			if (internal) { m->flags &= ~(unsigned)(JENT_NTG1 | JENT_DISABLE_INTERNAL_TIMER); m->flags |= JENT_FORCE_INTERNAL_TIMER; if (osr > 5) osr = 5; }
			m->demand = !!(m->flags & (JENT_FORCE_SECURE_MEM | JENT_FORCE_FIPS | JENT_NTG1));
			demand_now = m->demand;
			C->osr = osr; C->flags = m->flags;
			if (dice < (limited ? 30u : 15u)) { t_bad_from = dice < 5 ? t_n + 500 : t_bad_from; call(0); vf_state(vf_mix(1, (uint64_t)C->r)); continue; }
			/* with a failing timer this falls back to the internal one for good */
			if (dice < 35 && dice >= 30) { demand_now = 0; t_bad_from = -1ull; call(1); continue; }
			C->ec = NULL;
			call(2);
			m->ec = C->ec; m->alive = !!C->ec;
			if (prof_guard && internal) {
				/* a real counter: whether it passes its tests is not the harness's to say */
				if (m->alive && m->demand && limited && lim < 4096 * 2) vf_fail("unlocked-instance", "instance granted with locked memory demanded and a lock limit of %lu bytes", (unsigned long)lim);
			} else if (prof_guard && t_bad_from == -1ull) {
				/* five locked regions at most: instance, memory, pool, history, plus startup instance */
				size_t need = (1ul << (msz + 9)) * 2 + 64 * 1024;
				if (m->alive && m->demand && limited && lim < 4096 * 2) vf_fail("unlocked-instance", "instance granted with locked memory demanded and a lock limit of %lu bytes", (unsigned long)lim);
				if (!m->alive && (!m->demand || (!limited && cur.rlim_cur >= need * 4 + (4u << 20)))) vf_fail("instance-refused", "no instance from flags %#x although the timer is good (lock limit %ld)", m->flags, limited ? (long)lim : -1);
			}
			if (m->alive && prof_guard) {
				int sec = -1; static char sbuf[8192];
				guard_inst(m);
				jent_status(m->ec, sbuf, sizeof(sbuf)); js_parse(sbuf, secst, &sec);
				if (sec != m->demand) vf_fail("status-secure", "status says secureMemory=%d, demanded %d", sec, m->demand);
			}
			vf_count(m->alive ? "instances" : "refusals", 1);
			vf_state(vf_mix(vf_mix(2, m->flags), (uint64_t)m->alive));
		} else {
			size_t n = vf_chance(1, 50) ? vf_range(200, 2500) : vf_chance(1, 6) ? vf_below(200) : vf_chance(1, 2) ? vf_below(33) : vf_below(100); int b;
			C->ec = m->ec; C->p = V->buf + vf_below(64); C->n = n;
			demand_now = m->demand;
			memset(V->buf, 0, 4096);
			if (dice < 15) { m->alive = 0; call(5); m->ec = NULL; vf_count("frees", 1); continue; }
			if (dice < 20) { C->n = 8192; call(6); continue; }
			if (dice < 24) { call(7); continue; }
			if (dice < 27) { C->n = 64; call(8); continue; }
			m->alive = 0; call(dice < 65 ? 3 : 4); m->alive = 1;
			if (m->ec != C->ec) vf_count("recoveries", 1);
			m->ec = C->ec;
			if (!m->ec) vf_fail("instance-lost", "self-recovering read lost the instance");
			if (prof_guard) guard_inst(m);
			/* the recomputed blocks are the ones delivered: otherwise the search looked for the wrong bytes */
			if (!prof_guard && C->r > 0) {
				size_t o = 0; int first = 0;
				b = V->nblk;
				first = b - (int)((C->r + 31) / 32);
				if (b < 40) {
					if (first < 0) vf_inconclusive("blocks not observed");
					for (; o < (size_t)C->r; o += 32, first++) {
						size_t l = (size_t)C->r - o < 32 ? (size_t)C->r - o : 32;
						if (memcmp(V->blocks[first], C->p + o, l)) vf_inconclusive("delivered block differs from the recomputed one");
					}
				}
			}
			vf_count(C->r >= 0 ? "reads" : "failed_reads", 1);
			vf_state(vf_mix(vf_mix(3, (uint64_t)C->r), m->flags));
		}
	}
	for (i = 0; i < 4; i++) if (inst[i].alive) { inst[i].alive = 0; C->ec = inst[i].ec; call(5); }
	for (i = 0; i < ntrk; i++) if (trk[i].live) vf_fail("mapping-leak", "a mapping of %zu bytes outlives all instances", trk[i].n);
	vf_count("mappings", nmaps); vf_count("released_bytes_checked", bytes_checked); vf_count("bytes_searched", scanned);
	if (longest >= 16) vf_count("longest_partial_match_16plus", 1);
	if (longest >= 8) vf_count("partial_match_8plus", 1);
	vf_sample("%d operations, %llu mappings, longest partial match %u bytes, lock limit %ld", nops, (unsigned long long)nmaps, longest, limited ? (long)lim : -1L);
}
int main(int argc, char **argv) { return vf_main(argc, argv, one); }
