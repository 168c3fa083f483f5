/* Kernel module monitor. The sources of linux_kernel/ run against kshim: tasks
 * under a seeded scheduler with a switch possible at every kernel call, a
 * virtual clock, injected faults, signals and registration failures. The
 * library below them is scripted (profile-independent fake, KERN_REAL: the real
 * one over a scripted counter). Every call is judged from the record of what
 * the library delivered to it and which faults it met. */
#include "vf.h"
#include "kshim/kshim.h"
#include "jitterentropy.h"
#include "jitterentropy-internal.h"
#include "jitterentropy-noise.h"
#include "jitterentropy_uapi.h"
#include "json.h"
#include <pthread.h>
#include <semaphore.h>
#include <stdlib.h>
#include <unistd.h>
#if defined(__has_feature)
# if __has_feature(address_sanitizer)
#  define HAVE_ASAN 1
# endif
# if __has_feature(memory_sanitizer)
#  include <sanitizer/msan_interface.h>
#  define HAVE_MSAN 1
# endif
#endif

/* ================= tasks ================= */
enum { E_READ = 1, E_OUT, E_IN, E_STATUS, E_SELF, E_MEAS, E_NOMEM, E_INTR, E_TRY, E_SIG, E_BLOCK, E_UNLOCK, E_NOCOLL, E_UUID, E_PROCFAIL };
struct ident; struct kfile;
struct ev { int k; struct ident *id; long a, b; uint64_t v; uint8_t *data; };
struct ubuf { uint8_t *p; size_t len, fault; };
struct task {
	struct task_struct ts; pthread_t th; sem_t sem; int state; void *wait; int sig, cap, held, dead;
	void (*fn)(struct task *, void *); void *arg; const char *op;
	struct ev *ev; size_t nev, cev;
	struct ubuf ub[4]; int nub;
	int interruptible, nonblock; struct kfile *kf; unsigned long holdbytes;
	size_t sigreads, room;
};
enum { RUN, WAIT, DONE };
#define MAXT 256
static struct task *tasks[MAXT]; static int ntasks;
static struct task *cur;
static sem_t main_sem; static int live_tasks, panicked;
static unsigned switch_den = 4, sig_den, nomem_den; static uint64_t sched_hash; static unsigned long nswitch, npoints;
static __thread struct task *self_t;
static struct task boot_task = { .ts = { -2 }, .op = "start" };
#define ME (self_t ? self_t : &boot_task)

static struct ev *ev_add(int k, struct ident *id, long a, long b)
{
	struct task *t = ME;
	if (t->nev == t->cev) { t->cev = t->cev ? t->cev * 2 : 32; t->ev = realloc(t->ev, t->cev * sizeof(*t->ev)); }
	struct ev *e = &t->ev[t->nev++];
	memset(e, 0, sizeof(*e)); e->k = k; e->id = id; e->a = a; e->b = b;
	return e;
}
static struct task *pick(void)
{
	struct task *c[MAXT]; int n = 0, i;
	for (i = 0; i < ntasks; i++) if (tasks[i]->state == RUN) c[n++] = tasks[i];
	if (!n) {
		char who[400] = ""; size_t o = 0;
		for (i = 0; i < ntasks; i++) if (tasks[i]->state == WAIT) o += (size_t)snprintf(who + o, sizeof(who) - o, "%s ", tasks[i]->op), o = o < 380 ? o : 380;
		vf_fail("deadlock", "no task can continue; waiting: %s", who);
	}
	return c[vf_below((uint64_t)n)];
}
static void hand(struct task *n)
{
	struct task *me = self_t;
	if (n == me) return;
	nswitch++; sched_hash = vf_mix(sched_hash, (uint64_t)n->ts.id * 131 + npoints);
	cur = n; sem_post(&n->sem);
	if (me) { while (sem_wait(&me->sem)) ; }
}
/* a kernel call: another task may run here */
/* A parameter may be written from another CPU between any two instructions: after some kernel call, single-step and write it there. */
#if defined(__x86_64__) && defined(__linux__) && !defined(KERN_REAL) && defined(__GNUC__) && !defined(__clang__) && !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__)
#include <signal.h>
#include <ucontext.h>
#define STEPPED 1
static volatile int step_left, step_done; static volatile unsigned step_val; static unsigned *volatile step_at; static struct task *step_task; static int step_call;
static void step_trap(int sig, siginfo_t *si, void *uc)
{
	(void)sig; (void)si;
	if (--step_left > 0) return;
	if (step_at) { *(volatile unsigned *)step_at = step_val; step_done++; step_at = NULL; }
	((ucontext_t *)uc)->uc_mcontext.gregs[REG_EFL] &= ~0x100LL;
}
static void step_arm(struct task *t, void *at, unsigned v, int call, int after)
{
	struct sigaction sa;
	memset(&sa, 0, sizeof(sa)); sa.sa_sigaction = step_trap; sa.sa_flags = SA_SIGINFO | SA_NODEFER; sigaction(SIGTRAP, &sa, NULL);
	step_done = 0; step_val = v; step_at = at; step_left = after; step_call = call; step_task = t;
}
static void step_go(void) { __asm__ volatile("leaq -128(%%rsp),%%rsp; pushfq; orq $0x100,(%%rsp); popfq; leaq 128(%%rsp),%%rsp" ::: "memory", "cc"); }
static void step_off(void) { step_at = NULL; step_task = NULL; step_left = 0; __asm__ volatile("leaq -128(%%rsp),%%rsp; pushfq; andq $~0x100,(%%rsp); popfq; leaq 128(%%rsp),%%rsp" ::: "memory", "cc"); }
#endif
static void kp(void)
{
	struct task *t = self_t;
	npoints++;
	if (!t) return;
	if (t->dead) for (;;) pause();
	if (npoints > 4000000UL) vf_fail("no-end", "%s does not end", t->op);
	if (sig_den && vf_chance(1, sig_den)) { struct task *v = tasks[vf_below((uint64_t)ntasks)]; if (v->state != DONE && v->interruptible) { v->sig = 1; if (v->state == WAIT) v->state = RUN; } }
	if (vf_chance(1, switch_den)) hand(pick());
#ifdef STEPPED
	if (step_task == t && step_call && !--step_call) step_go();
#endif
}
void ks_point(void) { kp(); }
static void block(void *on) { struct task *t = self_t; t->state = WAIT; t->wait = on; hand(pick()); t->wait = NULL; }
static void wake(void *on) { int i; for (i = 0; i < ntasks; i++) if (tasks[i]->state == WAIT && tasks[i]->wait == on) tasks[i]->state = RUN; }
static void *task_main(void *a)
{
	struct task *t = a;
	while (sem_wait(&t->sem)) ;
	self_t = t;
	t->fn(t, t->arg);
	t->state = DONE; live_tasks--;
	if (t->held) vf_fail("lock-leaked", "task ends holding %d locks", t->held);
	if (!live_tasks) { cur = NULL; sem_post(&main_sem); } else { struct task *n = pick(); cur = n; sem_post(&n->sem); }
	return NULL;
}
static struct task *spawn(void (*fn)(struct task *, void *), void *arg)
{
	pthread_attr_t at;
	struct task *t;
	int i;
	for (i = 0; i < ntasks; i++) if (tasks[i]->state == DONE && tasks[i] != self_t) { pthread_join(tasks[i]->th, NULL); free(tasks[i]->ev); sem_destroy(&tasks[i]->sem); free(tasks[i]); tasks[i] = NULL; break; }
	if (i == ntasks) { if (ntasks == MAXT) vf_inconclusive("too many tasks"); ntasks++; }
	t = tasks[i] = calloc(1, sizeof(*t));
	t->ts.id = i; t->state = RUN; t->fn = fn; t->arg = arg; t->op = "idle"; sem_init(&t->sem, 0, 0); live_tasks++;
	pthread_attr_init(&at); pthread_attr_setstacksize(&at, 1 << 20);
	if (pthread_create(&t->th, &at, task_main, t)) vf_inconclusive("pthread_create");
	return t;
}
static void run_all(void)
{
	struct task *n;
	if (!live_tasks) return;
	n = pick(); cur = n; sem_post(&n->sem);
	while (sem_wait(&main_sem)) ;
}
struct task_struct *ks_current(void) { return &ME->ts; }
int ks_signal_pending(void) { kp(); if (ME->sig) { ev_add(E_SIG, NULL, 0, 0); return 1; } return 0; }
int ks_need_resched(void) { return vf_chance(1, 4); }
void ks_yield(void) { kp(); if (self_t) hand(pick()); }
int ks_ratelimit(void) { return vf_chance(3, 4); }
void get_random_bytes(void *p, size_t n) { uint8_t *b = p; while (n--) *b++ = (uint8_t)vf_rnd(); }

/* ================= ledger of memory ================= */
struct blk { uint8_t *p; size_t n; int live, core; const char *op; struct blk *next; };
static struct blk *blks; static unsigned long nblk_live, nallocs;
static __thread int in_core;
/* words of generated output: must not stay in freed memory */
#define SECN (1u << 15)
static uint64_t secret[SECN]; static unsigned nsecret;
static void secret_add(const uint8_t *d, size_t n)
{
	size_t i;
	for (i = 0; i + 8 <= n && nsecret < SECN / 2; i += 8) {
		uint64_t w; unsigned h; memcpy(&w, d + i, 8); if (!w) continue;
		for (h = (unsigned)(w * 0x9e3779b97f4a7c15ULL >> 49) % SECN; secret[h]; h = (h + 1) % SECN) ;
		secret[h] = w; nsecret++;
	}
}
static int secret_in(const uint8_t *d, size_t n)
{
	size_t i;
	for (i = 0; i + 8 <= n; i++) {
		uint64_t w; unsigned h; memcpy(&w, d + i, 8); if (!w) continue;
		for (h = (unsigned)(w * 0x9e3779b97f4a7c15ULL >> 49) % SECN; secret[h]; h = (h + 1) % SECN) if (secret[h] == w) return 1;
	}
	return 0;
}
static struct blk *blk_of(const void *p) { struct blk *b; for (b = blks; b; b = b->next) if (b->live && (const uint8_t *)p >= b->p && (const uint8_t *)p < b->p + (b->n ? b->n : 1)) return b; return NULL; }
static int fail_alloc_at = -1, alloc_safe;
void *ks_alloc(size_t n, int zero)
{
	struct blk *b;
	kp();
	if ((nomem_den && !alloc_safe && vf_chance(1, nomem_den)) || (long)nallocs == fail_alloc_at) { nallocs++; ev_add(E_NOMEM, NULL, (long)n, 0); vf_count("allocations_refused", 1); return NULL; }
	nallocs++;
	b = calloc(1, sizeof(*b)); b->p = zero ? calloc(1, n ? n : 1) : malloc(n ? n : 1); b->n = n; b->live = 1; b->core = in_core; b->op = ME->op; b->next = blks; blks = b; nblk_live++;
#ifndef HAVE_MSAN
	if (!zero) memset(b->p, 0xA5, n);
#endif
	return b->p;
}
#define MAXW 512
static struct delayed_work *works[MAXW]; static int nworks, wi_;
#define FOR_WORKS(w) for (wi_ = 0; wi_ < nworks && ((w) = works[wi_], 1); wi_++)
static void work_drop(int i) { works[i] = works[--nworks]; }
void ks_free(const void *p, size_t wipe, int sensitive)
{
	struct blk *b; struct delayed_work *w;
	kp();
	if (!p) return;
	b = blk_of(p);
	if (!b || b->p != p) vf_fail("bad-free", "%s frees %p, which is no live allocation", ME->op, p);
	FOR_WORKS(w)
		if ((uint8_t *)w >= b->p && (uint8_t *)w < b->p + b->n && (w->pending || w->running))
			vf_fail("work-outlives", "%s frees the memory of a self test that is still %s", ME->op, w->running ? "running" : "queued");
	if (sensitive) {
		if (wipe != (size_t)-1 && wipe > b->n) vf_fail("bad-free", "%s wipes %zu bytes of a block of %zu", ME->op, wipe, b->n);
		memset(b->p, 0, wipe == (size_t)-1 ? b->n : wipe);
	}
#ifdef HAVE_MSAN
	__msan_unpoison(b->p, b->n);
#endif
	if (secret_in(b->p, b->n)) vf_fail("output-left", "%s frees %zu bytes still holding generated output", ME->op, b->n);
	if (b->core) { size_t i; for (i = 0; i < b->n; i++) if (b->p[i]) vf_fail("state-left", "%zu bytes of collector state freed without being wiped (byte %zu)", b->n, i); vf_count("core_blocks_wiped", 1); }
	{ int q; for (q = 0; q < nworks; ) if ((uint8_t *)works[q] >= b->p && (uint8_t *)works[q] < b->p + b->n) work_drop(q); else q++; }
	b->live = 0; nblk_live--;
#ifdef HAVE_ASAN
	free(b->p);
#else
	memset(b->p, 0x6b, b->n);
#endif
}

/* ================= locks ================= */
static struct task *session;	/* who records raw noise */
void ks_mutex_init(struct mutex *m) { m->magic = KS_MUTEX_MAGIC; m->owner = -1; m->waiters = 0; kp(); }
static void mchk(struct mutex *m, const char *w) { if (m->magic != KS_MUTEX_MAGIC) vf_fail("lock-gone", "%s: %s on a lock that does not exist", ME->op, w); }
void mutex_destroy(struct mutex *m) { kp(); mchk(m, "destroy"); if (m->owner >= 0 || m->waiters) vf_fail("lock-in-use", "%s destroys a lock that is in use", ME->op); m->magic = 0; }
static void took(struct mutex *m) { m->owner = ME->ts.id; ME->held++; ME->holdbytes = 0; }
static int lock_(struct mutex *m, int intr)
{
	kp(); mchk(m, "lock");
	if (m->owner == ME->ts.id) vf_fail("deadlock", "%s takes a lock it already holds", ME->op);
	while (m->owner >= 0) {
		if (ME->nonblock) vf_fail("nonblock-sleeps", "%s sleeps on a lock although the caller must not wait", ME->op);
		if (intr && ME->sig) { ev_add(E_INTR, NULL, 0, 0); return -EINTR; }
		ev_add(E_BLOCK, NULL, 0, 0);
		m->waiters++; block(m); m->waiters--;
		mchk(m, "lock");
	}
	took(m);
	return 0;
}
void mutex_lock(struct mutex *m) { int s = ME->sig; ME->interruptible--; lock_(m, 0); ME->interruptible++; (void)s; }
int mutex_lock_interruptible(struct mutex *m) { return lock_(m, 1); }
int mutex_trylock(struct mutex *m) { kp(); mchk(m, "trylock"); if (m->owner >= 0) { ev_add(E_TRY, NULL, 0, 0); return 0; } took(m); return 1; }
void mutex_unlock(struct mutex *m)
{
	mchk(m, "unlock");
	if (m->owner != ME->ts.id) vf_fail("lock-misuse", "%s unlocks a lock it does not hold", ME->op);
	m->owner = -1; ME->held--; if (session == ME) session = NULL; ev_add(E_UNLOCK, NULL, 0, 0); wake(m); kp();
}

/* ================= work ================= */
unsigned long ks_jiffies = 100000; struct workqueue_struct ks_wq; struct module ks_module;
void ks_dwork_init(struct delayed_work *d, void (*f)(struct work_struct *))
{
	int i;
	for (i = 0; i < nworks; i++) if (works[i] == d) break;
	if (i == nworks) { if (nworks == MAXW) vf_inconclusive("too many works"); works[nworks++] = d; }
	memset(d, 0, sizeof(*d)); d->work.func = f; d->magic = KS_MUTEX_MAGIC; 
}
static void wchk(struct delayed_work *d, const char *w) { if (d->magic != KS_MUTEX_MAGIC) vf_fail("work-gone", "%s: %s on a work item that was not set up", ME->op, w); }
bool queue_delayed_work(struct workqueue_struct *q, struct delayed_work *d, unsigned long delay)
{
	(void)q; kp(); wchk(d, "queue");
	if (d->pending || d->canceling) return false;
	d->pending = 1; d->delay = delay; d->due = ks_jiffies + delay;
	return true;
}
bool mod_delayed_work(struct workqueue_struct *q, struct delayed_work *d, unsigned long delay)
{
	bool r = d->pending;
	(void)q; kp(); wchk(d, "queue");
	if (d->canceling) return false;
	d->pending = 1; d->delay = delay; d->due = ks_jiffies + delay;
	return r;
}
bool cancel_delayed_work(struct delayed_work *d) { bool r; kp(); wchk(d, "cancel"); r = d->pending; d->pending = 0; return r; }
bool cancel_delayed_work_sync(struct delayed_work *d)
{
	bool r;
	kp(); wchk(d, "cancel");
	r = d->pending; d->canceling++; d->pending = 0;
	while (d->running) block(d);
	d->canceling--;
	return r;
}
bool flush_delayed_work(struct delayed_work *d) { kp(); while (d->running) block(d); return true; }
bool delayed_work_pending(struct delayed_work *d) { return d->pending; }

/* ================= printing, panic ================= */
static unsigned long nprints[8]; static char lastlog[8192];
int fips_enabled;
void ks_printk(int lvl, const char *fmt, ...)
{
	va_list a; char b[6000];
	kp();
	va_start(a, fmt); vsnprintf(b, sizeof(b), fmt, a); va_end(a);
	nprints[lvl & 7]++;
	if (secret_in((uint8_t *)b, strlen(b))) vf_fail("output-logged", "%s writes generated output to the log", ME->op);
	snprintf(lastlog, sizeof(lastlog), "%s", b);
}
static int perm(long rc) { return rc == JENT_ERR_RCT_PERMANENT || rc == JENT_ERR_APT_PERMANENT || rc == JENT_ERR_LAG_PERMANENT || rc == JENT_ERR_RCT_MEM_PERMANENT || rc == JENT_ERR_SELFTEST; }
static int init_failed;
static int panic_due(struct task *t)
{
	size_t i;
	for (i = 0; i < t->nev; i++) if ((t->ev[i].k == E_READ && perm(t->ev[i].a)) || (t->ev[i].k == E_SELF && t->ev[i].a)) return 1;
	return 0;
}
void ks_panic(const char *fmt, ...)
{
	(void)fmt;
	if (!fips_enabled) vf_fail("panic", "%s panics outside FIPS mode", ME->op);
	if (!panic_due(ME) && !init_failed) vf_fail("panic", "%s panics without a permanent failure", ME->op);
	vf_count("panics", 1);
	panicked = 1; sem_post(&main_sem);
	for (;;) pause();
}

/* ================= user memory ================= */
static uint8_t *ub_new(struct task *t, size_t n, int fault)
{
	struct ubuf *u = &t->ub[t->nub++];
	u->p = malloc(n + 16); memset(u->p, 0xC3, n + 16); u->len = n; u->fault = fault ? vf_below(n + 1) : n;
	return u->p;
}
static void ub_reset(struct task *t)
{
	int i;
	for (i = 0; i < t->nub; i++) { size_t k; for (k = 0; k < 16; k++) if (t->ub[i].p[t->ub[i].len + k] != 0xC3) vf_fail("user-overrun", "%s writes beyond the caller's buffer", t->op); free(t->ub[i].p); }
	t->nub = 0;
}
static struct ubuf *ub_find(const void *p) { struct task *t = ME; int i; for (i = 0; i < t->nub; i++) if ((uint8_t *)p >= t->ub[i].p && (uint8_t *)p <= t->ub[i].p + t->ub[i].len) return &t->ub[i]; return NULL; }
#define BADPTR ((void *)16)
static int session_gap(void);
unsigned long copy_to_user(void *to, const void *from, unsigned long n)
{
	struct ubuf *u; size_t off, ok;
	struct ev *e;
	kp(); session_gap();
#ifdef HAVE_MSAN
	__msan_check_mem_is_initialized(from, n);
#endif
	if (to == BADPTR) { ev_add(E_OUT, NULL, (long)n, (long)n); return n; }
	u = ub_find(to);
	if (!u) vf_fail("user-stray", "%s writes %lu bytes to user memory it was not given", ME->op, n);
	off = (size_t)((uint8_t *)to - u->p);
	if (off + n > u->len) vf_fail("user-overrun", "%s writes %lu bytes at offset %zu of a user buffer of %zu", ME->op, n, off, u->len);
	ok = off >= u->fault ? 0 : u->fault - off; if (ok > n) ok = n;
	memcpy(to, from, ok);
	e = ev_add(E_OUT, NULL, (long)n, (long)(n - ok)); e->data = to;
	if (n - ok) vf_count("user_faults", 1);
	kp();
	return n - ok;
}
unsigned long copy_from_user(void *to, const void *from, unsigned long n)
{
	struct ubuf *u; size_t off;
	kp();
	if (from == BADPTR) { memset(to, 0, n); ev_add(E_IN, NULL, (long)n, (long)n); return n; }
	u = ub_find(from);
	if (!u) vf_fail("user-stray", "%s reads %lu bytes of user memory it was not given", ME->op, n);
	off = (size_t)((const uint8_t *)from - u->p);
	if (off + n > u->len) vf_fail("user-overrun", "%s reads beyond the caller's buffer", ME->op);
	if (off + n > u->fault) { memset(to, 0, n); ev_add(E_IN, NULL, (long)n, (long)n); return n; }
	memcpy(to, from, n); ev_add(E_IN, NULL, (long)n, 0);
	return 0;
}

/* ================= parameters ================= */
static struct par { const char *name, *type; void *p; int perm; } pars[32]; static int npars;
void ks_param(const char *name, const char *type, void *p, int perm) { pars[npars].name = name; pars[npars].type = type; pars[npars].p = p; pars[npars++].perm = perm; }
static struct par *par(const char *n) { int i; for (i = 0; i < npars; i++) if (!strcmp(pars[i].name, n)) return &pars[i]; return NULL; }
static void par_set(const char *n, unsigned v) { struct par *p = par(n); if (!p) return; if (!strcmp(p->type, "bool")) *(bool *)p->p = v; else *(unsigned *)p->p = v; }
static unsigned par_get(const char *n) { struct par *p = par(n); if (!p) return 0; return !strcmp(p->type, "bool") ? *(bool *)p->p : *(unsigned *)p->p; }
bool capable(int c) { return c == CAP_SYS_ADMIN && ME->cap; }
static int lockdown;
int security_locked_down(enum lockdown_reason r) { kp(); return lockdown && r == LOCKDOWN_DEBUGFS ? -EPERM : 0; }

/* ================= instances behind the interfaces ================= */
struct snap { unsigned osr, flags, health, reinit; uint64_t inv, bytes; };
struct ident {
	const char *by; int n, raw, live, st_failed, uuid_err; long permrc; char uuid[40];
	struct snap now; struct snap *hist; size_t nh, ch;
	unsigned long born, last_run; unsigned long measured; struct ident *next;
};
struct coll { struct rand_data *ec; struct ident *id; int live; struct task *busy; const char *what; struct coll *next; };
static struct ident *idents; static struct coll *colls; static int nident; static unsigned long ncoll_live;
static unsigned p_readerr, p_selffail, p_statusfail, p_collfail, p_uuiderr, p_realloc; /* in 1/1000 */
static unsigned exp_osr, exp_flags; static int exp_valid;
static uint64_t st_runs, st_fails, st_started, st_ended, st_fails_ended;
static void hist_push(struct ident *id)
{
	struct snap *l = id->nh ? &id->hist[id->nh - 1] : NULL;
	if (l && l->osr == id->now.osr && l->flags == id->now.flags && l->health == id->now.health && l->reinit == id->now.reinit && l->inv == id->now.inv && l->bytes == id->now.bytes) return;
	if (id->nh == id->ch) { id->ch = id->ch ? id->ch * 2 : 16; id->hist = realloc(id->hist, id->ch * sizeof(*id->hist)); }
	id->hist[id->nh++] = id->now;
}
static void fields_out(struct coll *c) { struct rand_data *e = c->ec; struct snap *s = &c->id->now; e->osr = s->osr; e->flags = s->flags; e->health_failure = s->health; e->reinit_count = s->reinit; e->read_invocations = s->inv; e->bytes_output = s->bytes; }
static void fields_in(struct coll *c) { struct rand_data *e = c->ec; struct snap *s = &c->id->now; s->osr = e->osr; s->flags = e->flags; s->health = e->health_failure; s->reinit = e->reinit_count; s->inv = e->read_invocations; s->bytes = e->bytes_output; }
static struct coll *coll_get(const struct rand_data *ec, const char *what)
{
	struct coll *c;
	for (c = colls; c; c = c->next) if (c->ec == ec && c->live) return c;
	for (c = colls; c; c = c->next) if (c->ec == ec) vf_fail("freed-instance", "%s: %s on an instance that has been freed", ME->op, what);
	vf_fail("unknown-instance", "%s: %s on %p, which is no instance", ME->op, what, (const void *)ec);
}
static void enter(struct coll *c, const char *what)
{
	if (c->busy) vf_fail("shared-instance", "%s: %s on an instance while %s uses it", ME->op, what, c->busy == ME ? "the same call" : c->busy->op);
	c->busy = ME; c->what = what;
#ifndef KERN_REAL
	{ struct rand_data *e = c->ec; e->osr = 0xdead0001; e->flags = 0xdead0002; e->health_failure = 0xdead0003; e->reinit_count = 0xdead0004; e->read_invocations = 0xdead0005; e->bytes_output = 0xdead0006; }
#endif
}
static void leave(struct coll *c)
{
	c->busy = NULL;
#ifdef KERN_REAL
	fields_in(c);
#else
	fields_out(c);
#endif
	hist_push(c->id);
}
static struct coll *coll_new(struct ident *id, struct rand_data *ec)
{
	struct coll *c = calloc(1, sizeof(*c));
	c->ec = ec; c->id = id; c->live = 1; c->next = colls; colls = c; ncoll_live++;
	return c;
}
static struct ident *ident_new(int raw)
{
	struct ident *id = calloc(1, sizeof(*id)); int i;
	id->by = ME->op; id->n = nident++; id->raw = raw; id->live = 1; id->born = id->last_run = ks_jiffies; id->next = idents; idents = id;
	if (!raw) { uint64_t a = vf_rnd(), b = vf_rnd(); snprintf(id->uuid, sizeof(id->uuid), "%08x-%04x-4%03x-8%03x-%012llx", (unsigned)a, (unsigned)(a >> 32) & 0xffff, (unsigned)(a >> 48) & 0xfff, (unsigned)b & 0xfff, (unsigned long long)(b >> 16)); }
	(void)i;
	id->uuid_err = vf_below(1000) < p_uuiderr;
	return id;
}
#define REAL(f) __real_##f
#define DECL(r, f, ...) r __real_##f(__VA_ARGS__); r __wrap_##f(__VA_ARGS__)
DECL(struct rand_data *, jent_entropy_collector_alloc, unsigned, unsigned);
DECL(struct rand_data *, jent_entropy_collector_alloc_raw, unsigned, unsigned);
DECL(void, jent_entropy_collector_free, struct rand_data *);
DECL(ssize_t, jent_read_entropy_safe, struct rand_data **, char *, size_t);
DECL(ssize_t, jent_read_entropy, struct rand_data *, char *, size_t);
DECL(int, jent_status, const struct rand_data *, char *, size_t);
DECL(int, jent_uuid, const struct rand_data *, char *, size_t);
DECL(int, jent_selftest, struct rand_data *);
DECL(int, jent_entropy_init_ex, unsigned, unsigned);
DECL(unsigned, jent_measure_jitter, struct rand_data *, uint64_t, uint64_t *);
DECL(unsigned, jent_measure_jitter_ntg1_memaccess, struct rand_data *, uint64_t, uint64_t *);
DECL(unsigned, jent_measure_jitter_ntg1_sha3, struct rand_data *, uint64_t, uint64_t *);
static __thread struct ident *made;	/* the instance this task's call created */
static __thread unsigned got_osr, got_flags;

static struct rand_data *coll_alloc(unsigned o, unsigned f, int raw)
{
	struct rand_data *ec = NULL; struct ident *id; struct coll *c;
	kp();
	got_osr = o; got_flags = f;
	if (!raw && exp_valid && (o != exp_osr || f != exp_flags)) vf_fail("parameters", "%s asks for an instance with osr %u flags %#x, configured are %u and %#x", ME->op, o, f, exp_osr, exp_flags);
	if (vf_below(1000) < p_collfail) { ev_add(E_NOCOLL, NULL, 0, 0); return NULL; }
#ifdef KERN_REAL
	in_core++; ec = raw ? REAL(jent_entropy_collector_alloc_raw)(o, f) : REAL(jent_entropy_collector_alloc)(o, f); in_core--;
	if (!ec) { ev_add(E_NOCOLL, NULL, 0, 0); return NULL; }
#else
	ec = calloc(1, sizeof(*ec));
#endif
	id = ident_new(raw); c = coll_new(id, ec);
#ifdef KERN_REAL
	REAL(jent_uuid)(ec, id->uuid, sizeof(id->uuid)); id->uuid_err = 0;
	fields_in(c);
#else
	id->now.osr = o < JENT_MIN_OSR ? JENT_MIN_OSR : o; id->now.flags = f | (raw ? 0 : (unsigned)vf_below(2) << 25);
	if (vf_chance(1, 5)) { id->now.inv = vf_rnd(); id->now.bytes = vf_rnd(); id->now.reinit = (unsigned)vf_rnd(); id->now.health = (unsigned)vf_rnd(); }
	fields_out(c);
#endif
	hist_push(id); made = id;
	kp();
	return ec;
}
struct rand_data *__wrap_jent_entropy_collector_alloc(unsigned o, unsigned f) { if (in_core) return REAL(jent_entropy_collector_alloc)(o, f); return coll_alloc(o, f, 0); }
struct rand_data *__wrap_jent_entropy_collector_alloc_raw(unsigned o, unsigned f) { return coll_alloc(o, f, 1); }
static void coll_drop(struct coll *c)
{
	c->live = 0; ncoll_live--;
#ifndef KERN_REAL
	memset(c->ec, 0x6b, sizeof(*c->ec));
#endif
}
void __wrap_jent_entropy_collector_free(struct rand_data *ec)
{
	struct coll *c;
	if (in_core) { REAL(jent_entropy_collector_free)(ec); return; }
	kp();
	if (!ec) return;
	c = coll_get(ec, "free"); enter(c, "free");
	kp();
	c->busy = NULL; c->id->live = 0; coll_drop(c);
#ifdef KERN_REAL
	in_core++; REAL(jent_entropy_collector_free)(ec); in_core--;
#endif
	kp();
}
static int readable[] = { JENT_ERR_EINVAL, JENT_ERR_NOTIME, JENT_ERR_RCT, JENT_ERR_APT, JENT_ERR_LAG, JENT_ERR_RCT_MEM, JENT_ERR_RCT_PERMANENT, JENT_ERR_APT_PERMANENT, JENT_ERR_LAG_PERMANENT, JENT_ERR_RCT_MEM_PERMANENT, JENT_ERR_SELFTEST };
static ssize_t do_read(struct rand_data **ecp, char *data, size_t len)
{
	struct coll *c; struct ident *id; ssize_t rc; struct ev *e; struct task *t = ME;
	size_t i;
	kp();
	if (!*ecp) { ev_add(E_READ, NULL, JENT_ERR_EINVAL, (long)len); return JENT_ERR_EINVAL; }
	if (!data && len) vf_fail("null-buffer", "%s reads into no buffer", t->op);
	c = coll_get(*ecp, "read"); id = c->id; enter(c, "read");
	if (t->sigreads && ++t->sigreads > 10) vf_fail("signal-ignored", "%s goes on generating while a signal has been pending for %zu blocks", t->op, t->sigreads - 1);
#ifdef KERN_REAL
	{
		struct rand_data *o = *ecp;
		in_core++; rc = REAL(jent_read_entropy_safe)(ecp, data, len); in_core--;
		if (*ecp != o) { c->busy = NULL; c->live = 0; ncoll_live--; c = coll_new(id, *ecp); vf_count("reallocations", 1); }
		if (rc < 0 && perm(rc)) id->permrc = rc;
	}
#else
	(void)i;
	if (id->st_failed) rc = JENT_ERR_SELFTEST;
	else if (id->permrc) rc = id->permrc;
	else if (!len) rc = 0;
	else if (vf_below(1000) < p_readerr) { rc = readable[vf_below(sizeof(readable) / sizeof(int))]; if (vf_chance(1, 20)) rc = -2000; }
	else rc = (ssize_t)len;
	if (perm(rc) && !id->st_failed) id->permrc = rc;
	for (i = 0; i < len; i++) { data[i] = (char)vf_rnd(); if (i == len / 2) kp(); }
	if (rc >= 0) { id->now.inv++; id->now.bytes += (uint64_t)rc; }
	else id->now.health |= 1u << vf_below(8);
	if (vf_below(1000) < p_realloc) {
		struct rand_data *n = calloc(1, sizeof(*n));
		c->busy = NULL; coll_drop(c);
		kp();
		id->now.osr++; id->now.reinit++; c = coll_new(id, n); c->busy = t; *ecp = n; vf_count("reallocations", 1);
	}
#endif
	secret_add((uint8_t *)data, len);
	e = ev_add(E_READ, id, rc, (long)len); e->data = malloc(len + 1); memcpy(e->data, data, len);
	t->holdbytes += len;
	if (t->interruptible && t->sig && !t->sigreads) t->sigreads = 1;
	leave(c);
	vf_count("core_reads", 1);
	kp();
	return rc;
}
ssize_t __wrap_jent_read_entropy_safe(struct rand_data **ecp, char *data, size_t len) { if (in_core) return REAL(jent_read_entropy_safe)(ecp, data, len); return do_read(ecp, data, len); }
ssize_t __wrap_jent_read_entropy(struct rand_data *ec, char *data, size_t len) { if (in_core) return REAL(jent_read_entropy)(ec, data, len); return do_read(&ec, data, len); }
int __wrap_jent_status(const struct rand_data *ec, char *buf, size_t n)
{
	struct coll *c; struct ev *e; int rc = 0; size_t want, o, i;
	if (in_core) return REAL(jent_status)(ec, buf, n);
	kp();
	if (!ec) {
		/* the library describes itself then */
		rc = snprintf(buf, n, "{\"version\": \"x\"}") >= (int)n;
		e = ev_add(E_STATUS, NULL, rc, 0); e->data = (uint8_t *)strdup(rc ? "" : buf);
		return rc;
	}
	c = coll_get(ec, "status"); enter(c, "status");
	if (n < JENT_STATUS_MAX_LEN) vf_fail("status-room", "%s gives the status document only %zu bytes", ME->op, n);
#ifdef KERN_REAL
	(void)want; (void)o; (void)i;
	c->busy = NULL; in_core++; rc = REAL(jent_status)(ec, buf, n); in_core--; c->busy = ME; kp();
#else
	if (vf_below(1000) < p_statusfail) rc = vf_chance(1, 2) ? 1 : -1;
	want = vf_chance(1, 6) ? n - 1 : 60 + vf_below(2000);
	if (ME->room >= 64 && ME->room + 8 < n && vf_chance(2, 5)) want = ME->room + vf_below(7) - 4;	/* about what the caller has room for */
	o = (size_t)snprintf(buf, n, "{\n\"uuid\": \"%s\",\n\"stamp\": %lu,\n", c->id->uuid, npoints);
	kp();
	for (i = o; i < want; i++) buf[i] = i % 61 == 60 ? '\n' : (char)('a' + vf_below(26));
	buf[want] = 0;
	if (rc && vf_chance(1, 2)) buf[0] = 0;
#endif
	e = ev_add(E_STATUS, c->id, rc, 0); e->data = (uint8_t *)strdup(buf);
	leave(c);
	kp();
	return rc;
}
int __wrap_jent_uuid(const struct rand_data *ec, char *buf, size_t n)
{
	struct coll *c;
	if (in_core) return REAL(jent_uuid)(ec, buf, n);
	kp();
	if (!ec || !buf || n < 37) return -1;
	c = coll_get(ec, "uuid");
	/* the identifier is fixed; only what may release the instance must not run meanwhile */
	if (c->busy && c->busy != ME && (!strcmp(c->what, "read") || !strcmp(c->what, "free"))) vf_fail("shared-instance", "%s asks for the identifier of an instance while %s uses it", ME->op, c->busy->op);
	ev_add(E_UUID, c->id, c->id->uuid_err, 0);
	if (c->id->uuid_err) { memset(buf, 'z', 36); buf[36] = 0; return -1; }
	memcpy(buf, c->id->uuid, 37); if (!c->id->uuid[0]) buf[0] = 0;
	return 0;
}
int __wrap_jent_selftest(struct rand_data *ec)
{
	struct coll *c = NULL; int rc;
	if (in_core) return REAL(jent_selftest)(ec);
	kp();
	st_started++;
	if (ec) { c = coll_get(ec, "self test"); enter(c, "self test"); }
	kp();
	rc = vf_below(1000) < p_selffail ? (int)vf_range(1, 40) : 0;
	if (rc && vf_chance(1, 2)) rc = -rc;
#ifdef KERN_REAL
	if (c) { c->busy = NULL; }
	in_core++; rc = REAL(jent_selftest)(ec); in_core--;
	if (c) c->busy = ME;
#endif
	if (c) { if (rc) c->id->st_failed = 1; c->id->last_run = ks_jiffies; }
	ev_add(E_SELF, c ? c->id : NULL, rc, 0);
	st_runs++; if (rc) st_fails++;
	if (c) leave(c);
	vf_count("self_tests", 1); if (rc) vf_count("self_test_failures", 1);
	kp();
	return rc;
}
static int p_initfail; static int init_called;
int __wrap_jent_entropy_init_ex(unsigned o, unsigned f)
{
	int rc = 0;
	if (in_core) return REAL(jent_entropy_init_ex)(o, f);
	kp();
	init_called++;
	if (o != exp_osr || f != exp_flags) vf_fail("parameters", "initialisation with osr %u flags %#x, parameters ask for %u and %#x", o, f, exp_osr, exp_flags);
#ifdef KERN_REAL
	in_core++; rc = REAL(jent_entropy_init_ex)(o, f); in_core--;
#endif
	if (!rc && p_initfail) rc = 9;
	if (rc) init_failed = 1;
	return rc;
}
/* raw measurements: one session at a time, a delta taken right after a gap is marked */
static unsigned long meas_serial;
static struct ident *prev_meas[1]; static int gap = 1; static struct task *gap_task;
static int session_gap(void) { if (session == ME) gap = 1; return 0; }
static unsigned measure(struct rand_data *ec, uint64_t lc, uint64_t *out, int kind)
{
	struct coll *c; struct ev *e; uint64_t v; unsigned r = 0; int stale;
	kp();
	c = coll_get(ec, "measurement"); enter(c, "measurement");
	if (session && session != ME) vf_fail("session-overlap", "%s measures while the session of another reader is in progress", ME->op);
	session = ME;
	if (!ec->is_fips_enabled) vf_fail("raw-health", "%s records with the health tests off", ME->op);
	stale = kind == 0 && (gap || prev_meas[0] != c->id);
	gap = 0; prev_meas[0] = c->id;
#ifdef KERN_REAL
	c->busy = NULL; in_core++;
	r = kind == 0 ? REAL(jent_measure_jitter)(ec, lc, &v) : kind == 1 ? REAL(jent_measure_jitter_ntg1_memaccess)(ec, lc, &v) : REAL(jent_measure_jitter_ntg1_sha3)(ec, lc, &v);
	in_core--; c->busy = ME;
#else
	v = (++meas_serial << 16) | vf_below(65536); r = (unsigned)vf_below(2);
#endif
	if (out) *out = v;
	e = ev_add(E_MEAS, c->id, kind | (stale ? 16 : 0) | (out ? 32 : 0), (long)lc); e->v = v;
	c->id->measured++;
	leave(c);
	return r;
}
unsigned __wrap_jent_measure_jitter(struct rand_data *ec, uint64_t lc, uint64_t *o) { if (in_core) return REAL(jent_measure_jitter)(ec, lc, o); return measure(ec, lc, o, 0); }
unsigned __wrap_jent_measure_jitter_ntg1_memaccess(struct rand_data *ec, uint64_t lc, uint64_t *o) { if (in_core) return REAL(jent_measure_jitter_ntg1_memaccess)(ec, lc, o); return measure(ec, lc, o, 1); }
unsigned __wrap_jent_measure_jitter_ntg1_sha3(struct rand_data *ec, uint64_t lc, uint64_t *o) { if (in_core) return REAL(jent_measure_jitter_ntg1_sha3)(ec, lc, o); return measure(ec, lc, o, 2); }
#ifdef KERN_REAL
static uint64_t rnow = 1000000; static struct vf_rng rr; static unsigned rdisturb;
void __wrap_jent_get_nstime(uint64_t *out) { if (rdisturb) { rdisturb--; rnow += 512; } else rnow += 20 + vf_rng_next(&rr) % 6000; *out = rnow; }
#endif

/* ================= registrations ================= */
static int reg_fail_at = -1, reg_n; static int reg_err;
static int core_proc_fail, reg_failed; static char failed_what[64];
static int reg_point(const char *what) { kp(); if (reg_n++ == reg_fail_at) { reg_failed = 1; snprintf(failed_what, sizeof(failed_what), "%s", what); return 1; } return 0; }
static struct miscdevice *misc; static struct hwrng *hw; static int hw_inflight; static struct rng_alg *alg;
static int in_init, in_exit; static void udev(struct task *, void *);
static int spawn_udev;
int misc_register(struct miscdevice *m)
{
	if (reg_point("misc")) return reg_err;
	if (misc) vf_fail("registered-twice", "character device registered twice");
	misc = m; vf_count("registrations", 1);
	if (spawn_udev) spawn(udev, NULL);
	kp(); ks_yield();
	return 0;
}
void misc_deregister(struct miscdevice *m) { kp(); if (misc != m) vf_fail("unregistered", "character device removed although it is not registered"); misc = NULL; kp(); }
int hwrng_register(struct hwrng *r)
{
	if (reg_point("hwrng")) return reg_err;
	if (hw) vf_fail("registered-twice", "hwrng registered twice");
	if (!r->read || !r->name) vf_fail("hwrng-ops", "hwrng registered without a read operation");
	if (r->quality > 1024) vf_fail("hwrng-quality", "hwrng registered with quality %u", r->quality);
	{ unsigned q = par_get("hwrng_quality"); if (r->quality != (q > 1024 ? 1024 : q)) vf_fail("hwrng-quality", "hwrng registered with quality %u, parameter %u", r->quality, q); }
	if (!r->quality) r->quality = 1024;
	hw = r; vf_count("registrations", 1); kp();
	return 0;
}
void hwrng_unregister(struct hwrng *r) { kp(); if (hw != r) vf_fail("unregistered", "hwrng removed although it is not registered"); hw = NULL; while (hw_inflight) block(&hw_inflight); kp(); }
int crypto_register_rng(struct rng_alg *a)
{
	if (reg_point("crypto")) return reg_err;
	if (alg) vf_fail("registered-twice", "algorithm registered twice");
	alg = a; vf_count("registrations", 1); kp();
	return 0;
}
void crypto_unregister_rng(struct rng_alg *a) { kp(); if (alg != a) vf_fail("unregistered", "algorithm removed although it is not registered"); alg = NULL; }
/* procfs */
struct proc_dir_entry { char name[64]; struct proc_dir_entry *parent, *next; int (*show)(struct seq_file *, void *); void *data; int dir, live, going, inflight; umode_t mode; };
static struct proc_dir_entry *procs; static int nproc_live; static unsigned proc_fail_den;
static struct proc_dir_entry *proc_new(const char *n, struct proc_dir_entry *par_)
{
	struct proc_dir_entry *p, *q; int opt;
	if (par_ && !par_->live) vf_fail("proc-gone", "%s creates %s below a directory that has been removed", ME->op, n);
	opt = !in_init || !strcmp(n, "hwrng_status") || !strcmp(n, "instances");
	if (in_init ? reg_point(n) : (kp(), proc_fail_den && vf_chance(1, proc_fail_den))) { if (in_init && !opt) core_proc_fail = 1; ev_add(E_PROCFAIL, NULL, opt, 0); return NULL; }
	for (q = procs; q; q = q->next) if (q->live && q->parent == par_ && !strcmp(q->name, n)) { ev_add(E_PROCFAIL, NULL, 2, 0); return NULL; }
	p = calloc(1, sizeof(*p)); snprintf(p->name, sizeof(p->name), "%s", n); p->parent = par_; p->live = 1; p->next = procs; procs = p; nproc_live++;
	return p;
}
struct proc_dir_entry *proc_mkdir(const char *n, struct proc_dir_entry *pa) { struct proc_dir_entry *p = proc_new(n, pa); if (p) p->dir = 1; kp(); return p; }
struct proc_dir_entry *proc_create_single_data(const char *n, umode_t mode, struct proc_dir_entry *pa, int (*show)(struct seq_file *, void *), void *data)
{
	struct proc_dir_entry *p = proc_new(n, pa);
	if (p) { p->show = show; p->data = data; p->mode = mode; }
	if (mode & 0222) vf_fail("proc-writable", "%s created writable", n);
	kp();
	return p;
}
static int below(struct proc_dir_entry *p, struct proc_dir_entry *top) { for (; p; p = p->parent) if (p == top) return 1; return 0; }
void proc_remove(struct proc_dir_entry *e)
{
	struct proc_dir_entry *p;
	kp();
	if (!e) return;
	for (p = procs; p && p != e; p = p->next) ;
	if (!p) vf_fail("proc-gone", "%s removes a proc entry that never existed", ME->op);
	if (!e->live) vf_fail("proc-gone", "%s removes the proc entry %s a second time", ME->op, e->name);
	for (p = procs; p; p = p->next) if (p->live && below(p, e)) { p->live = 0; nproc_live--; p->going = 1; }
	for (p = procs; p; p = p->next) if (p->going && below(p, e)) { while (p->inflight) block(&p->inflight); p->going = 0; }
	kp();
}
void remove_proc_entry(const char *n, struct proc_dir_entry *pa) { struct proc_dir_entry *p; for (p = procs; p; p = p->next) if (p->live && p->parent == pa && !strcmp(p->name, n)) { proc_remove(p); return; } }
int remove_proc_subtree(const char *n, struct proc_dir_entry *pa) { remove_proc_entry(n, pa); return 0; }
static void sq_add(struct seq_file *m, const char *s, size_t n) { if (m->len + n + 1 > m->cap) { m->cap = (m->len + n + 1) * 2; m->buf = realloc(m->buf, m->cap); } memcpy(m->buf + m->len, s, n); m->len += n; m->buf[m->len] = 0; }
void seq_printf(struct seq_file *m, const char *fmt, ...) { char b[8192]; va_list a; int n; va_start(a, fmt); n = vsnprintf(b, sizeof(b), fmt, a); va_end(a); if (n > 0) sq_add(m, b, (size_t)n < sizeof(b) ? (size_t)n : sizeof(b) - 1); kp(); }
void seq_puts(struct seq_file *m, const char *s) { sq_add(m, s, strlen(s)); kp(); }
void seq_putc(struct seq_file *m, char c) { sq_add(m, &c, 1); }
int seq_write(struct seq_file *m, const void *d, size_t n) { sq_add(m, d, n); return 0; }
/* debugfs */
struct dentry { char name[64]; struct dentry *parent, *next; const struct file_operations *fops; int live, dir, inflight, going; umode_t mode; };
static struct dentry *dents; static int ndent_live;
static struct dentry *dent_new(const char *n, struct dentry *pa, int dir)
{
	struct dentry *d;
	if (lockdown) vf_fail("lockdown", "%s created on a locked-down kernel", n);
	if (IS_ERR(pa)) return ERR_PTR(-ENOENT);
	if (reg_point(dir ? "debugfs dir" : "debugfs file")) return ERR_PTR(reg_err);
	d = calloc(1, sizeof(*d)); snprintf(d->name, sizeof(d->name), "%s", n); d->parent = pa; d->dir = dir; d->live = 1; d->next = dents; dents = d; ndent_live++;
	return d;
}
struct dentry *debugfs_create_dir(const char *n, struct dentry *pa) { return dent_new(n, pa, 1); }
struct dentry *debugfs_create_file(const char *n, umode_t mode, struct dentry *pa, void *data, const struct file_operations *f)
{
	struct dentry *d = dent_new(n, pa, 0);
	(void)data;
	if (!IS_ERR(d)) { d->fops = f; d->mode = mode; if (mode & 077) vf_fail("raw-mode", "raw noise readable by everyone (mode %o)", mode); }
	kp();
	return d;
}
struct dentry *debugfs_create_file_unsafe(const char *n, umode_t mode, struct dentry *pa, void *data, const struct file_operations *f)
{
	(void)n; (void)mode; (void)pa; (void)data; (void)f;
	vf_fail("raw-unsafe", "the raw noise file is created without protection against removal");
}
static int dbelow(struct dentry *p, struct dentry *top) { for (; p; p = p->parent) if (p == top) return 1; return 0; }
void debugfs_remove_recursive(struct dentry *e)
{
	struct dentry *p;
	kp();
	if (IS_ERR_OR_NULL(e)) return;
	if (!e->live) vf_fail("debugfs-gone", "debugfs entry removed twice");
	for (p = dents; p; p = p->next) if (p->live && dbelow(p, e)) { p->live = 0; p->going = 1; ndent_live--; }
	for (p = dents; p; p = p->next) if (p->going && dbelow(p, e)) { while (p->inflight) block(&p->inflight); p->going = 0; }
	kp();
}
long compat_ptr_ioctl(struct file *f, unsigned int cmd, unsigned long arg) { return f->f_op->unlocked_ioctl ? f->f_op->unlocked_ioctl(f, cmd, arg) : -ENOTTY; }
loff_t noop_llseek(struct file *f, loff_t o, int w) { (void)f; (void)o; (void)w; return 0; }
loff_t no_llseek(struct file *f, loff_t o, int w) { (void)f; (void)o; (void)w; return -ESPIPE; }
int nonseekable_open(struct inode *i, struct file *f) { (void)i; (void)f; return 0; }
int stream_open(struct inode *i, struct file *f) { (void)i; (void)f; return 0; }

/* ================= calls and their oracles ================= */
static uint64_t shape;
static void op_begin(struct task *t, const char *name, int interruptible)
{
	size_t i;
	for (i = 0; i < t->nev; i++) free(t->ev[i].data && (t->ev[i].k == E_READ || t->ev[i].k == E_STATUS) ? t->ev[i].data : NULL);
	t->nev = 0; t->op = name; t->sig = 0; t->interruptible = interruptible; t->nonblock = 0; t->sigreads = 0; made = NULL; t->cap = vf_chance(2, 3);
	kp();
}
static void op_end(struct task *t, long ret)
{
	if (t->held) vf_fail("lock-leaked", "%s returns %ld holding a lock", t->op, ret);
	if (fips_enabled && panic_due(t)) vf_fail("no-panic", "%s returns %ld although a permanent failure occurred in FIPS mode", t->op, ret);
	t->interruptible = 0; t->sig = 0; t->nonblock = 0;
	{ size_t i; for (i = 0; i < t->nev; i++) if (t->ev[i].k == E_SELF) { st_ended++; if (t->ev[i].a) st_fails_ended++; } }
	if (session == t) session = NULL;
	shape = vf_mix(shape, (uint64_t)ret * 31 + (uint64_t)(uintptr_t)t->op % 9973);
	vf_count("calls_judged", 1);
	if (ret < 0) vf_count("calls_failed", 1);
	ub_reset(t); t->op = "idle";
}
static int map(long rc)
{
	if (perm(rc)) return -EFAULT;
	if (rc == JENT_ERR_RCT || rc == JENT_ERR_APT || rc == JENT_ERR_LAG || rc == JENT_ERR_RCT_MEM) return -EAGAIN;
	if (rc == JENT_ERR_EINVAL || rc == JENT_ERR_NOTIME) return -EINVAL;
	return -EFAULT;
}
/* errno a recorded cause stands for, 0 if none */
static int cause(const struct ev *e)
{
	switch (e->k) {
	case E_NOMEM: case E_NOCOLL: return -ENOMEM;
	case E_INTR: case E_SIG: return -ERESTARTSYS;
	case E_TRY: return -EAGAIN;
	case E_READ: return e->a < 0 ? map(e->a) : 0;
	case E_OUT: case E_IN: return e->b ? -EFAULT : 0;
	case E_STATUS: return e->a || !e->id ? -EIO : 0;
	case E_UUID: return e->a ? -EIO : 0;
	case E_SELF: return e->a ? -EFAULT : 0;
	default: return 0;
	}
}
static int has_cause(struct task *t, long ret) { size_t i; for (i = 0; i < t->nev; i++) if (cause(&t->ev[i]) == ret) return 1; return 0; }
static int any_cause(struct task *t) { size_t i; for (i = 0; i < t->nev; i++) if (cause(&t->ev[i])) return cause(&t->ev[i]); return 0; }
static int nev_of(struct task *t, int k) { size_t i; int n = 0; for (i = 0; i < t->nev; i++) n += t->ev[i].k == k; return n; }
static void need_cause(struct task *t, long ret) { if (!has_cause(t, ret)) vf_fail("errno", "%s fails with %ld, which nothing that happened accounts for (first cause %d)", t->op, ret, any_cause(t)); }

struct kfile { struct file f; struct ident *id; int users, closing, dbg; uint64_t loop[64]; int nloop, lbase, lbusy, lover; unsigned rflags; struct dentry *d; loff_t pos; };
#define NF 24
static struct kfile *files[NF];
static long opens_started, opens_done, closes_started, closes_done;
static struct inode ino;
static int works_in(const void *p, size_t n) { struct delayed_work *w; int k = 0; FOR_WORKS(w) if ((uint8_t *)w >= (uint8_t *)p && (uint8_t *)w < (uint8_t *)p + n && (w->pending || w->running)) k++; return k; }
static struct kfile *file_slot(int *slot) { int i; for (i = 0; i < NF; i++) if (!files[i]) { *slot = i; return calloc(1, sizeof(struct kfile)); } return NULL; }
static struct kfile *file_pick(int dbg) { struct kfile *c[NF]; int n = 0, i; for (i = 0; i < NF; i++) if (files[i] && !files[i]->closing && files[i]->id && files[i]->dbg == dbg) c[n++] = files[i]; if (!n) return NULL; i = (int)vf_below((uint64_t)n); c[i]->users++; return c[i]; } /* caller holds a reference */

static int setting_up;
static void do_open(struct task *t)
{
	int slot; struct kfile *k = file_slot(&slot); long r; struct miscdevice *m = misc;
	if (!k || !m) { free(k); return; }
	files[slot] = k;
	op_begin(t, "open", 1);
	opens_started++; setting_up++;
	k->f.f_flags = vf_chance(1, 3) ? O_NONBLOCK : 0;
	r = m->fops->open(&ino, &k->f); setting_up--;
	if (r) {
		opens_started--;
		if (r > 0) vf_fail("errno", "open returns %ld", r);
		need_cause(t, r);
		if (made && made->live) vf_fail("leak", "a failed open leaves an instance behind");
		op_end(t, r); files[slot] = NULL; free(k); return;
	}
	opens_done++;
	if (!made) vf_fail("no-instance", "open succeeds without an instance of its own");
	k->id = made;
	vf_count("opens", 1);
	op_end(t, 0);
}
static void do_close(struct task *t, struct kfile *k)
{
	int i; struct ident *id = k->id;
	if (k->users > 1) { k->users--; return; }
	k->closing = 1;
	for (i = 0; i < NF; i++) if (files[i] == k) break;
	op_begin(t, "close", 0);
	closes_started++;
	misc->fops->release(&ino, &k->f);
	closes_done++;
	if (id->live) vf_fail("leak", "close leaves the instance behind");
	op_end(t, 0);
	files[i] = NULL; free(k);
}
static size_t some_len(void)
{
	static const size_t e[] = { 0, 1, 7, 31, 32, 33, 64, 65, 96, 255, 256, 257, 511 };
#ifndef KERN_REAL
	if (vf_chance(1, 60)) return vf_chance(1, 3) ? ((size_t)1 << vf_range(12, 16)) + vf_below(3) - 1 : vf_range(3000, 70000);
#endif
	return vf_chance(1, 2) ? e[vf_below(sizeof(e) / sizeof(e[0]))] : vf_below(vf_chance(1, 5) ? 3000 : 200);
}
static void do_fread(struct task *t, struct kfile *k)
{
	size_t n = some_len(), i, gen = 0, full = 0, partial = 0; int bad = vf_chance(1, 12), fault = vf_chance(1, 6), flip = 0; long r; uint8_t *u, *all;
	unsigned fl, rf0; loff_t pos = (loff_t)vf_below(1000), p0 = pos; long genhold = 0;
	op_begin(t, "read", 1);
	u = ub_new(t, n, fault);
	fl = k->f.f_flags; rf0 = k->rflags; t->kf = k; t->nonblock = (fl & O_NONBLOCK) != 0;
	r = misc->fops->read(&k->f, bad && n ? BADPTR : (char *)u, n, &pos);
	flip = k->rflags != rf0; t->kf = NULL;
	(void)p0;
	all = malloc(n + 65536);
	for (i = 0; i < t->nev; i++) {
		struct ev *e = &t->ev[i];
		if (e->k == E_READ) {
			if (e->id && e->id != k->id) vf_fail("wrong-instance", "a read is served by the instance of another open file");
			genhold += e->b;
			if (genhold > 1024) vf_fail("lock-hog", "a read of %zu bytes generates %ld bytes without giving other users of the instance a turn", n, genhold);
			if (e->a > 0) { if (gen + (size_t)e->a > n + 4096) vf_fail("overproduction", "a read of %zu bytes generates more than that", n); memcpy(all + gen, e->data, (size_t)e->a); gen += (size_t)e->a; }
		}
		if (e->k == E_UNLOCK) genhold = 0;
		if (e->k == E_OUT) { if (!e->b) full += (size_t)e->a; else partial += (size_t)(e->a - e->b); }
	}
	if (r > (long)n) vf_fail("read-count", "a read of %zu bytes returns %ld", n, r);
	if (r >= 0) {
		if ((size_t)r < full || (size_t)r > full + partial) vf_fail("read-count", "read returns %ld although %zu bytes were delivered", r, full);
		if ((size_t)r > gen) vf_fail("read-data", "read returns %ld bytes, generated were %zu", r, gen);
		if (r && memcmp(u, all, (size_t)r)) vf_fail("read-data", "the %ld bytes returned are not what the instance generated", r);
		for (i = (size_t)r + partial; i < n; i++) if (u[i] != 0xC3) vf_fail("read-data", "byte %zu of the buffer written beyond the %ld bytes returned", i, r);
		if (!r && n) vf_fail("read-eof", "a read of %zu bytes returns end of file", n);
		if ((size_t)r < n && !any_cause(t) && !(fl & O_NONBLOCK) && !flip) vf_fail("read-short", "a blocking read of %zu bytes returns %ld without a reason", n, r);
		if ((size_t)r < n && !any_cause(t) && (fl & O_NONBLOCK) && !flip && r < 32) vf_fail("read-short", "a non-blocking read of %zu bytes returns %ld without a reason", n, r);
		if ((fl & O_NONBLOCK) && !flip && r > 256) vf_fail("nonblock-long", "a non-blocking read delivers %ld bytes at once", r);
		vf_count("bytes_delivered", (uint64_t)r);
		if (any_cause(t) && r) vf_count("partial_reads", 1);
	} else {
		if (full) vf_fail("read-count", "read fails with %ld although %zu bytes were delivered", r, full);
		if (!n) vf_fail("errno", "an empty read fails with %ld", r);
		need_cause(t, r);
	}
	free(all);
	op_end(t, r);
}
static int snap_match(struct ident *id, size_t h0, int what, const void *v)
{
	size_t h;
	for (h = h0; h < id->nh; h++) {
		struct snap *s = &id->hist[h]; uint32_t u = 0;
		if (what == 5) { struct jent_output_ioctl o; memcpy(&o, v, sizeof(o)); if (o.invocations == s->inv && o.bytes == s->bytes) return 1; continue; }
		switch (what) { case 1: u = s->osr; break; case 2: u = s->flags; break; case 3: u = s->health; break; case 4: u = s->reinit; break; }
		if (!memcmp(&u, v, 4)) return 1;
	}
	return 0;
}
/* a request as a native or as a 32-bit program makes it */
static long ioc(const struct file_operations *fo, struct kfile *k, unsigned cmd, unsigned long arg)
{
	k->f.f_op = fo;
	if (vf_chance(3, 4)) return fo->unlocked_ioctl(&k->f, cmd, arg);
	if (!fo->compat_ioctl) vf_fail(k->dbg ? "raw-status" : "compat", "requests of 32-bit programs are not answered");
	vf_count("compat_requests", 1);
	return fo->compat_ioctl(&k->f, cmd, arg);
}
#define SK(key) (k->dbg ? "raw-status" : (key))
static void do_status(struct task *t, struct kfile *k, const struct file_operations *fo)
{
	struct jent_status_ioctl *a; uint8_t *u; size_t L, sl = 0, i; long r; const char *doc = NULL; int arg_bad = vf_chance(1, 15), buf_bad = vf_chance(1, 15); uint32_t len0;
	L = vf_chance(1, 4) ? JENT_STATUS_MAX_LEN : vf_chance(1, 3) ? vf_below(8) : vf_below(4200);
	op_begin(t, k->dbg ? "raw status" : "status", 1);
	a = (void *)ub_new(t, sizeof(*a), vf_chance(1, 15)); u = ub_new(t, L, vf_chance(1, 10));
	memset(a, 0, sizeof(*a));
	a->buf = (uintptr_t)(buf_bad ? BADPTR : u); a->length = len0 = (uint32_t)L;
	t->room = L;
	r = ioc(fo, k, JENT_IOCSTATUS, (unsigned long)(arg_bad ? BADPTR : (void *)a));
	t->room = 0;
	for (i = 0; i < t->nev; i++) if (t->ev[i].k == E_STATUS) { if (t->ev[i].id != k->id && t->ev[i].id) vf_fail("wrong-instance", "status of another instance"); if (!t->ev[i].a) doc = (char *)t->ev[i].data; }
	if (doc) sl = strlen(doc) + 1;
	if (!r) {
		if (!doc) vf_fail(SK("status-data"), "status succeeds without a document");
		if (len0 < sl) vf_fail(SK("status-room"), "a document of %zu bytes given to a buffer of %u", sl, len0);
		if (memcmp(u, doc, sl)) vf_fail(SK("status-data"), "the document returned is not the status of the instance");
		if (a->length != sl) vf_fail(SK("status-length"), "status reports %u bytes, the document has %zu", a->length, sl);
		for (i = sl; i < L; i++) if (u[i] != 0xC3) vf_fail(SK("status-data"), "bytes written beyond the document");
	} else if (r == -EOVERFLOW) {
		if (!doc || len0 >= sl) vf_fail(SK("status-overflow"), "status claims a buffer of %u is too small for %zu", len0, sl);
		if (a->length != sl) vf_fail(SK("status-length"), "status reports %u bytes as needed, the document has %zu", a->length, sl);
		for (i = 0; i < L; i++) if (u[i] != 0xC3) vf_fail(SK("status-data"), "a buffer found too small is written");
		vf_count("status_overflows", 1);
	} else { if (r > 0) vf_fail("errno", "status returns %ld", r); need_cause(t, r); }
	if (a->buf != (uintptr_t)(buf_bad ? BADPTR : u)) vf_fail(SK("status-arg"), "the caller's buffer pointer was changed");
	op_end(t, r);
}
static void do_field(struct task *t, struct kfile *k, const struct file_operations *fo)
{
	static const unsigned cmds[] = { JENT_IOCVERSION, JENT_IOCOSR, JENT_IOCFLAGS, JENT_IOCHEALTH, JENT_IOCREINIT, JENT_IOCOUTPUT, JENT_IOCUUID };
	int w = (int)vf_below(7), what = w == 0 ? 0 : w; size_t sz = w == 6 ? sizeof(struct jent_uuid_ioctl) : w == 5 ? sizeof(struct jent_output_ioctl) : 4; size_t h0 = k->id->nh - 1;
	uint8_t *u; long r; int bad = vf_chance(1, 12);
	op_begin(t, k->dbg ? "raw field" : "field", 1);
	u = ub_new(t, sz, vf_chance(1, 12));
	r = ioc(fo, k, cmds[w], (unsigned long)(bad ? BADPTR : u));
	if (!r) {
		if (w == 0) { uint32_t v; memcpy(&v, u, 4); if (v != JENT_MAJVERSION * 1000000u + JENT_MINVERSION * 10000u + JENT_PATCHLEVEL * 100u) vf_fail("field-value", "version %u", v); }
		else if (w == 6) { if (k->id->raw) vf_fail("field-value", "a raw instance has an identifier"); if (k->id->uuid_err || memcmp(u, k->id->uuid, 37)) vf_fail("field-value", "identifier of another instance"); }
		else {
			int m = w == 1 ? 1 : w == 2 ? 2 : w == 3 ? 3 : w == 4 ? 4 : 5;
			if (!snap_match(k->id, h0, m, u)) { uint64_t v = 0; memcpy(&v, u, sz > 8 ? 8 : sz); vf_fail("field-value", "field %#x answers %#llx, a value the instance did not have during the call", cmds[w], (unsigned long long)v); }
		}
		vf_count("fields_read", 1);
	} else {
		if (r > 0) vf_fail("errno", "field query returns %ld", r);
		if (r == -ENODATA) { if (!(w == 6 && k->id->raw)) vf_fail("errno", "field query finds no data"); }
		else need_cause(t, r);
	}
	(void)what;
	op_end(t, r);
}
static void do_selftest(struct task *t, struct kfile *k, const struct file_operations *fo)
{
	long r; int was = k->id->st_failed, n; size_t i; uint64_t before = st_started;
	op_begin(t, k->dbg ? "raw self test" : "self test", 1);
	if (t->cap == 0) before = st_started;
	r = ioc(fo, k, JENT_IOCSELFTEST, 0);
	n = nev_of(t, E_SELF);
	(void)before;
	if (!t->cap) { if (r != -EPERM || n) vf_fail("privilege", "self test by an unprivileged caller returns %ld after %d runs", r, n); }
	else {
		if (n > 1) vf_fail("self-test-runs", "one self test call makes %d runs", n);
		for (i = 0; i < t->nev; i++) if (t->ev[i].k == E_SELF) {
			if (t->ev[i].id != (k->dbg ? NULL : k->id)) vf_fail("wrong-instance", "the self test runs on %s", t->ev[i].id ? "another instance" : "no instance");
			if (r != (t->ev[i].a ? -EFAULT : 0)) vf_fail("self-test-verdict", "the self test returned %ld, the call returns %ld", t->ev[i].a, r);
		}
		if (!n) {
			if (r == -ERESTARTSYS) need_cause(t, r);
			else if (r != -EFAULT || !k->id->st_failed || k->dbg) vf_fail("self-test-verdict", "no run was made and the call returns %ld", r);
			else vf_count("sticky_verdicts", 1);
		} else if (was && !k->dbg) vf_fail("self-test-again", "a failed instance is tested again");
	}
	op_end(t, r);
}
static void do_badioctl(struct task *t, struct kfile *k, const struct file_operations *fo)
{
	unsigned cmd = vf_chance(1, 2) && !k->dbg ? (unsigned)JENT_IOCLOOPCNT : (unsigned)vf_rnd(); long r; uint8_t *u;
	unsigned nr = cmd & 0xff;
	if (((cmd >> 8) & 0xff) == 'J' && nr >= 1 && nr <= 10 && cmd != JENT_IOCLOOPCNT) return;
	op_begin(t, "unknown ioctl", 1);
	u = ub_new(t, 64, 0);
	r = fo->unlocked_ioctl(&k->f, cmd, (unsigned long)u);
	if (r != -ENOTTY) vf_fail("ioctl-unknown", "ioctl %#x is answered with %ld", cmd, r);
	op_end(t, r);
}
static void do_flip(struct kfile *k) { int i; k->f.f_flags ^= O_NONBLOCK; k->rflags++; for (i = 0; i < ntasks; i++) if (tasks[i]->kf == k) tasks[i]->nonblock = 0; }

/* raw noise file */
static void do_topen(struct task *t)
{
	int slot; struct kfile *k; long r; struct dentry *d; unsigned fl0, os0;
	for (d = dents; d && !(d->live && d->fops); d = d->next) ;
	if (!d) return;
	k = file_slot(&slot); if (!k) return;
	files[slot] = k; k->dbg = 1; k->d = d;
	op_begin(t, "raw open", 1);
	d->inflight++;
	{ int ld = lockdown;
	fl0 = par_get("testing_flags"); os0 = par_get("testing_osr");
#ifdef STEPPED
	{ struct par *tp = par("testing_flags"); int st = tp && !step_task && vf_chance(1, 3);
	if (st) step_arm(t, tp->p, fl0 ^ (vf_chance(1, 2) ? 1u << 15 : 1u << 16), 1 + (int)vf_below(8), 2 + (int)vf_below(300));
	r = d->fops->open(&ino, &k->f);
	if (st) { int w = step_done; step_off(); if (w) vf_count("parameter_writes_mid_call", 1); } }
#else
	r = d->fops->open(&ino, &k->f);
#endif
	d->inflight--; wake(&d->inflight);
	if (!r && ld) vf_fail("lockdown", "raw noise opened on a locked-down kernel"); 
	if (r == -EPERM && !lockdown) vf_fail("errno", "raw open refused without lockdown"); }
	if (r) {
		if (r != -EPERM) need_cause(t, r);
		if (made && made->live) vf_fail("leak", "a failed raw open leaves an instance behind");
		op_end(t, r); files[slot] = NULL; free(k); return;
	}
	(void)fl0; (void)os0;
	if (!made || !made->raw) vf_fail("raw-instance", "raw open uses an instance with the start-up procedure");
	k->id = made; k->loop[0] = 0; k->nloop = 1;
	vf_count("raw_opens", 1);
	op_end(t, 0);
}
static void do_tclose(struct task *t, struct kfile *k)
{
	int i;
	if (k->users > 1) { k->users--; return; }
	k->closing = 1;
	for (i = 0; i < NF; i++) if (files[i] == k) break;
	op_begin(t, "raw close", 0);
	k->d->fops->release(&ino, &k->f);
	if (k->id->live) vf_fail("leak", "raw close leaves the instance behind");
	op_end(t, 0);
	files[i] = NULL; free(k);
}
static int dbg_enter(struct kfile *k) { if (!k->d->live) return 0; k->d->inflight++; return 1; }
static void dbg_leave(struct kfile *k) { k->d->inflight--; wake(&k->d->inflight); }
static void do_tread(struct task *t, struct kfile *k)
{
	size_t n = 8 * (vf_chance(1, 8) ? 900 + vf_below(1300) : vf_below(40)), i, ns = 0, out = 0; long r; uint8_t *u; loff_t pos, p0; int bad, l0 = k->lbase, kind; uint64_t lc = 0; uint64_t *vals;
	if (vf_chance(1, 8)) n += 1 + vf_below(7);
	bad = vf_chance(1, 12);
	op_begin(t, "raw read", 1); l0 = k->lbase;
	if (!dbg_enter(k)) { op_end(t, 0); return; }
	u = ub_new(t, n, vf_chance(1, 6)); pos = p0 = (loff_t)vf_below(100000);
	r = k->d->fops->read(&k->f, bad && n ? BADPTR : (char *)u, n, &pos);
	l0 = l0 < 0 ? 0 : l0; kind = k->id->hist[0].flags & (1u << 15) ? 2 : k->id->hist[0].flags & (1u << 16) ? 1 : 0;
	vals = malloc((n / 8 + 4096) * 8);
	for (i = 0; i < t->nev; i++) {
		struct ev *e = &t->ev[i];
		if (e->k == E_OUT) out += (size_t)(e->a - e->b);
		if (e->k != E_MEAS) continue;
		if (e->id != k->id) vf_fail("wrong-instance", "raw noise of another instance");
		if ((e->a & 15) != kind) vf_fail("raw-routine", "flags %#x recorded with measurement routine %ld", k->id->hist[0].flags, e->a & 15);
		if (!(e->a & 32)) { continue; }
		if (ns >= n / 8 + 4000) vf_fail("raw-count", "more samples taken than asked for");
		if (e->a & 16) vf_fail("raw-stale", "sample %zu of a raw read spans the gap before the measurement", ns);
		if (!ns) { int q, ok = 0; lc = (uint64_t)e->b; for (q = l0; q < k->nloop; q++) if (k->loop[q] == lc) ok = 1; if (!ok) vf_fail("raw-loop", "samples taken with loop count %llu, set is %llu", (unsigned long long)lc, (unsigned long long)k->loop[k->nloop - 1]); }
		else if ((uint64_t)e->b != lc) vf_fail("raw-loop", "the loop count changes in the middle of a session");
		vals[ns++] = e->v;
	}
	if (r > (long)n) vf_fail("raw-count", "a raw read of %zu bytes returns %ld", n, r);
	if (r >= 0) {
		if (n % 8) vf_fail("raw-size", "a raw read of %zu bytes is answered", n);
		if ((size_t)r != out) vf_fail("raw-count", "raw read returns %ld, delivered were %zu bytes", r, out);
		if ((size_t)r > ns * 8 || memcmp(u, vals, (size_t)r)) vf_fail("raw-data", "the samples returned are not those measured");
		if ((size_t)r < n && !any_cause(t)) vf_fail("raw-short", "a raw read of %zu bytes returns %ld without a reason", n, r);
		if (!r && n) vf_fail("raw-eof", "a raw read returns end of file");
		if (pos != p0 + r) vf_fail("raw-pos", "file position moved by %lld for %ld bytes", (long long)(pos - p0), r);
		vf_count("samples_delivered", (uint64_t)r / 8);
	} else {
		if (out) vf_fail("raw-count", "raw read fails with %ld although %zu bytes were delivered", r, out);
		if (r == -EINVAL) { if (!(n % 8)) vf_fail("errno", "raw read of %zu bytes is refused", n); if (ns) vf_fail("raw-size", "refused after measuring"); }
		else need_cause(t, r);
		if (pos != p0) vf_fail("raw-pos", "file position moved by a failed read");
	}
	free(vals);
	dbg_leave(k); op_end(t, r);
}
static void do_tloop(struct task *t, struct kfile *k)
{
	uint64_t v = vf_chance(1, 3) ? vf_below(100) : vf_chance(1, 2) ? 0xffffffffULL + vf_below(3) : vf_rnd(); long r; uint8_t *u; int bad = vf_chance(1, 10), mine;
#ifdef KERN_REAL
	if (v > 100 && v <= 0xffffffffULL) v &= 63;
#endif
	if (k->nloop >= 50) return;
	op_begin(t, "raw loop count", 1);
	if (!dbg_enter(k)) { op_end(t, 0); return; }
	u = ub_new(t, 8, vf_chance(1, 10)); memcpy(u, &v, 8);
	mine = v <= 0xffffffffULL;
	if (k->lbusy++) k->lover = 1;
	if (mine) k->loop[k->nloop++] = v;	/* may take effect at any point of the call */
	r = k->d->fops->unlocked_ioctl(&k->f, JENT_IOCLOOPCNT, (unsigned long)(bad ? BADPTR : u));
	if (!r && !mine) vf_fail("raw-loop", "loop count %llu accepted", (unsigned long long)v);
	if (r == -EINVAL) { if (mine) vf_fail("errno", "loop count %llu refused", (unsigned long long)v); }
	else if (r) need_cause(t, r);
	if (!r && !k->lover) k->lbase = k->nloop - 1;	/* from now on this value only */
	if (r && mine && !k->lover) k->nloop--;
	if (!--k->lbusy) k->lover = 0;
	dbg_leave(k); op_end(t, r);
}
static void do_tparam(void)
{
	par_set("testing_flags",
#ifdef KERN_REAL
		3u << 27 | 1u << 24 |
#endif
		(unsigned)(vf_chance(1, 3) ? 1u << 15 : vf_chance(1, 2) ? 1u << 16 : 0) | (vf_chance(1, 3) ? JENT_NTG1 : 0));
	par_set("testing_osr", (unsigned)vf_below(6));
}

/* hwrng */
static struct ident *hw_id;
static void do_hw(struct task *t)
{
	struct hwrng *h = hw; size_t n, i, ok = 0; bool wait = vf_chance(1, 2); uint8_t *b; long r; struct ev *re = NULL; int nr = 0;
	if (!h) return;
	n = some_len();
	hw_inflight++;
	op_begin(t, wait ? "hwrng read (wait)" : "hwrng read (no wait)", 1);
	t->nonblock = !wait;
	b = malloc(n + 16); memset(b, 0xC3, n + 16);
	r = h->read(h, b, n, wait);
	for (i = 0; i < t->nev; i++) if (t->ev[i].k == E_READ) { re = &t->ev[i]; nr++; if (re->id && re->id != hw_id) vf_fail("wrong-instance", "hwrng served by another instance"); if (re->a > 0) { if (ok + (size_t)re->a <= n && memcmp(b + ok, re->data, (size_t)re->a)) vf_fail("hwrng-data", "hwrng delivers bytes the instance did not generate"); ok += (size_t)re->a; } }
	if (r > (long)n) vf_fail("hwrng-count", "hwrng read of %zu bytes returns %ld", n, r);
	if (r > 0 && (size_t)r != ok) vf_fail("hwrng-count", "hwrng read returns %ld, generated were %zu", r, ok);
	if (r == 0 && n && !(!wait && nev_of(t, E_TRY))) vf_fail("hwrng-eof", "hwrng read of %zu bytes returns nothing", n);
	if (r < 0) { if (r == -EAGAIN && !re) vf_fail("errno", "hwrng read returns -EAGAIN"); need_cause(t, r); if (!n) vf_fail("errno", "empty hwrng read fails"); }
	if (r > 0 && (size_t)r < n && !any_cause(t)) vf_fail("hwrng-count", "hwrng read of %zu returns %ld", n, r);
	for (i = n; i < n + 16; i++) if (b[i] != 0xC3) vf_fail("hwrng-overrun", "hwrng read writes beyond its buffer");
	free(b);
	hw_inflight--; wake(&hw_inflight);
	op_end(t, r);
}
/* crypto API */
struct tfm { struct crypto_rng r; struct ident *id; int users, closing; };
#define NT 8
static struct tfm *tfms[NT];
static void do_tfm_new(struct task *t)
{
	int i; struct tfm *f; long r; struct blk *b;
	for (i = 0; i < NT && tfms[i]; i++) ;
	if (i == NT || !alg) return;
	f = tfms[i] = calloc(1, sizeof(*f)); f->closing = 1;
	op_begin(t, "tfm init", 0);
	alloc_safe++; f->r.base.ctx = ks_alloc(alg->base.cra_ctxsize, 1); alloc_safe--;
	setting_up++; r = alg->base.cra_init(&f->r.base); setting_up--;
	b = blk_of(f->r.base.ctx);
	if (r) {
		if (r > 0) vf_fail("errno", "tfm init returns %ld", r);
		if (!nev_of(t, E_NOCOLL)) vf_fail("errno", "tfm init fails with %ld although its instance could be had", r);
		need_cause(t, r);
		if (made && made->live) vf_fail("leak", "a failed tfm init leaves an instance behind");
		ks_free(b->p, b->n, 1); tfms[i] = NULL; free(f); op_end(t, r); return;
	}
	if (!made) vf_fail("no-instance", "tfm without an instance of its own");
	f->id = made; f->closing = 0;
	vf_count("tfms", 1);
	op_end(t, 0);
}
static struct tfm *tfm_pick(void) { struct tfm *c[NT]; int n = 0, i; for (i = 0; i < NT; i++) if (tfms[i] && !tfms[i]->closing) c[n++] = tfms[i]; if (!n) return NULL; i = (int)vf_below((uint64_t)n); c[i]->users++; return c[i]; }
static void do_gen(struct task *t, struct tfm *f)
{
	size_t n = some_len(), i, ok = 0; uint8_t *b; long r; int err = 0;
	op_begin(t, "generate", 0);
	b = malloc(n + 16); memset(b, 0xC3, n + 16);
	if (vf_chance(1, 10)) { r = alg->seed(&f->r, b, (unsigned)vf_below(8)); if (r) vf_fail("errno", "seed returns %ld", r); }
	r = alg->generate(&f->r, NULL, 0, b, (unsigned)n);
	for (i = 0; i < t->nev; i++) if (t->ev[i].k == E_READ) {
		struct ev *e = &t->ev[i];
		if (e->id && e->id != f->id) vf_fail("wrong-instance", "generate served by another instance");
		if (e->a < 0) err = map(e->a);
		else { if (ok + (size_t)e->a <= n && memcmp(b + ok, e->data, (size_t)e->a)) vf_fail("kcapi-data", "generate delivers bytes the instance did not generate"); ok += (size_t)e->a; }
	}
	if (!r) { if (ok != n || err) vf_fail("kcapi-result", "generate of %zu bytes reports success after %zu (error %d)", n, ok, err); }
	else if (r > 0) vf_fail("kcapi-result", "generate returns %ld", r);
	else if (!err || r != err) vf_fail("kcapi-result", "generate returns %ld, expected %d", r, err);
	for (i = n; i < n + 16; i++) if (b[i] != 0xC3) vf_fail("kcapi-overrun", "generate writes beyond its buffer");
	free(b);
	op_end(t, r);
}
static void do_tfm_free(struct task *t, struct tfm *f)
{
	int i; struct blk *b;
	if (f->users > 1) { f->users--; return; }
	for (i = 0; i < NT; i++) if (tfms[i] == f) break;
	f->closing = 1;
	op_begin(t, "tfm exit", 0);
	alg->base.cra_exit(&f->r.base);
	if (f->id->live) vf_fail("leak", "tfm exit leaves the instance behind");
	b = blk_of(f->r.base.ctx);
	ks_free(b->p, b->n, 1);
	op_end(t, 0);
	tfms[i] = NULL; free(f);
}
/* procfs */
static unsigned eff_interval;
static struct ident *ident_by_uuid(const char *u) { struct ident *i; for (i = idents; i; i = i->next) if (i->uuid[0] && !strcmp(i->uuid, u)) return i; return NULL; }
static void exact(struct proc_dir_entry *p, const char *got, const char *want) { if (strcmp(got, want)) vf_fail("proc-content", "%s reads \"%.80s\", expected \"%.80s\"", p->name, got, want); }
static const char *line_value(const char *doc, const char *label, char *out, size_t n)
{
	const char *p = strstr(doc, label); size_t i = 0;
	if (!p) return NULL;
	p += strlen(label); while (*p == ' ') p++;
	while (*p && *p != '\n' && i + 1 < n) out[i++] = *p++;
	out[i] = 0;
	return out;
}
struct stat_doc { uint64_t v[5]; int n; };
static void stat_cb(void *a, const char *path, char type, const char *val)
{
	static const char *nm[] = { "charDevice.openInstances", "charDevice.cumulativeOpens", "selfTest.intervalSeconds", "selfTest.runs", "selfTest.failures" };
	struct stat_doc *d = a; int i;
	for (i = 0; i < 5; i++) if (!strcmp(path, nm[i])) { if (type != 'n') vf_fail("proc-json", "%s is not a number", path); d->v[i] = strtoull(val, NULL, 10); d->n++; }
}
/* runs that are counted but have not reached the known answer tests yet, at most */
static uint64_t st_coming(void)
{
	uint64_t n = 0; int i; size_t k;
	for (i = 0; i < ntasks; i++) if (strstr(tasks[i]->op, "self test")) {
		for (k = 0; k < tasks[i]->nev && tasks[i]->ev[k].k != E_SELF; k++);
		n += k == tasks[i]->nev;
	}
	return n;
}
static void do_proc(struct task *t)
{
	struct proc_dir_entry *c[64], *p; int n = 0; struct seq_file m; long r; char want[128], v[64]; long o0, c0; uint64_t r0, f0; unsigned long jj = ks_jiffies;
	for (p = procs; p && n < 64; p = p->next) if (p->live && p->show) c[n++] = p;
	if (!n) return;
	p = c[vf_below((uint64_t)n)];
	p->inflight++;
	op_begin(t, "proc read", 1);
	memset(&m, 0, sizeof(m)); m.private = p->data; m.cap = 64; m.buf = calloc(1, 64);
	o0 = opens_done; c0 = closes_done; r0 = st_ended; f0 = st_fails_ended;
	r = p->show(&m, NULL);
	if (r > 0) vf_fail("errno", "%s: show returns %ld", p->name, r);
	(void)jj;
	if (p->parent && (!strcmp(p->parent->name, "instances") || !strcmp(p->name, "hwrng_status"))) {
		struct ident *id = strcmp(p->name, "hwrng_status") ? ident_by_uuid(p->name) : hw_id; size_t i; const char *doc = NULL;
		if (!id) vf_fail("proc-name", "status file named %s, which is no instance", p->name);
		for (i = 0; i < t->nev; i++) if (t->ev[i].k == E_STATUS) { if (t->ev[i].id && t->ev[i].id != id) vf_fail("wrong-instance", "%s shows the status of another instance", p->name); if (!t->ev[i].a) doc = (char *)t->ev[i].data; }
		if (!r) { if (!doc || strcmp(m.buf, doc)) vf_fail("proc-content", "%s does not show the status of its instance", p->name); vf_count("status_files_read", 1); }
		else need_cause(t, r);
	} else {
		if (r) { need_cause(t, r); }
		else if (!strcmp(p->name, "statistics")) {
			struct stat_doc sd; long d; long lo = o0 - closes_started, hi = opens_started - c0;
			memset(&sd, 0, sizeof(sd));
			if (js_parse(m.buf, stat_cb, &sd) || sd.n != 5) vf_fail("proc-json", "statistics is no JSON document with its five figures: %s", m.buf);
			d = (long)sd.v[0]; if (d < lo || d > hi) vf_fail("statistics", "%ld open instances reported, between %ld and %ld were open", d, lo, hi);
			d = (long)sd.v[1]; if (d < o0 || d > opens_started) vf_fail("statistics", "%ld opens reported, there were %ld to %ld", d, o0, opens_started);
			if (sd.v[2] != eff_interval) vf_fail("statistics", "interval %llu, effective is %u", (unsigned long long)sd.v[2], eff_interval);
			d = (long)sd.v[3]; if (d < (long)r0 || d > (long)(st_started + st_coming())) vf_fail("statistics", "%ld self tests reported, there were %llu to %llu", d, (unsigned long long)r0, (unsigned long long)(st_started + st_coming()));
			d = (long)sd.v[4]; if (d < (long)f0 || d > (long)st_fails) vf_fail("statistics", "%ld failing self tests reported, there were %llu", d, (unsigned long long)st_fails);
			vf_count("statistics_read", 1);
		} else if (!strcmp(p->name, "flags_raw")) { snprintf(want, sizeof(want), "0x%08x\n", exp_flags); exact(p, m.buf, want); }
		else if (!strcmp(p->name, "osr")) { snprintf(want, sizeof(want), "%u\n", exp_osr < JENT_MIN_OSR ? JENT_MIN_OSR : exp_osr); exact(p, m.buf, want); }
		else if (!strcmp(p->name, "ntg1")) exact(p, m.buf, exp_flags & JENT_NTG1 ? "1\n" : "0\n");
		else if (!strcmp(p->name, "fips")) exact(p, m.buf, (exp_flags & (JENT_NTG1 | JENT_FORCE_FIPS)) || fips_enabled ? "1\n" : "0\n");
		else if (!strcmp(p->name, "version")) { snprintf(want, sizeof(want), "%d.%d.%d\n", JENT_MAJVERSION, JENT_MINVERSION, JENT_PATCHLEVEL); exact(p, m.buf, want); }
		else if (p->parent && !strcmp(p->parent->name, "interfaces")) {
			int on = !strcmp(p->name, "kcapi") ? IS_ENABLED(CONFIG_EXTERNAL_JITTERENTROPY_KCAPI) : !strcmp(p->name, "hwrng") ? IS_ENABLED(CONFIG_EXTERNAL_JITTERENTROPY_HWRNG) :
				!strcmp(p->name, "chardev") ? IS_ENABLED(CONFIG_EXTERNAL_JITTERENTROPY_CHARDEV) : !strcmp(p->name, "testing") ? IS_ENABLED(CONFIG_EXTERNAL_JITTERENTROPY_TESTINTERFACE) : -1;
			if (on >= 0) exact(p, m.buf, on ? "1\n" : "0\n");
		} else if (!strcmp(p->name, "flags")) {
			static const struct { unsigned b; const char *l; } fb[] = { { JENT_DISABLE_MEMORY_ACCESS, "JENT_DISABLE_MEMORY_ACCESS:" }, { JENT_FORCE_INTERNAL_TIMER, "JENT_FORCE_INTERNAL_TIMER:" }, { JENT_DISABLE_INTERNAL_TIMER, "JENT_DISABLE_INTERNAL_TIMER:" }, { JENT_FORCE_FIPS, "JENT_FORCE_FIPS:" }, { JENT_NTG1, "JENT_NTG1:" }, { JENT_CACHE_ALL, "JENT_CACHE_ALL:" } };
			unsigned i, ms = exp_flags >> 27, hl = (exp_flags >> 24) & 7; const char *x;
			for (i = 0; i < 6; i++) { x = line_value(m.buf, fb[i].l, v, sizeof(v)); if (!x || strcmp(x, exp_flags & fb[i].b ? "on" : "off")) vf_fail("proc-flags", "%s %s with flags %#x", fb[i].l, x ? x : "missing", exp_flags); }
			x = line_value(m.buf, "max memory size:", v, sizeof(v));
			if (!ms) snprintf(want, sizeof(want), "auto"); else if (ms <= 10) snprintf(want, sizeof(want), "%u kB", 1u << (ms - 1)); else if (ms <= 20) snprintf(want, sizeof(want), "%u MB", 1u << (ms - 11)); else snprintf(want, sizeof(want), "invalid");
			if (!x || strncmp(x, want, strlen(want))) vf_fail("proc-flags", "memory size \"%s\", flags %#x mean %s", x ? x : "missing", exp_flags, want);
			x = line_value(m.buf, "hash loop count:", v, sizeof(v));
			if (!hl) snprintf(want, sizeof(want), "default"); else snprintf(want, sizeof(want), "%u", 1u << hl);
			if (!x || strcmp(x, want)) vf_fail("proc-flags", "hash loop count \"%s\", flags %#x mean %s", x ? x : "missing", exp_flags, want);
			snprintf(want, sizeof(want), "0x%08x", exp_flags); x = line_value(m.buf, "flags:", v, sizeof(v)); if (!x || strcmp(x, want)) vf_fail("proc-flags", "flags \"%s\" instead of %s", x ? x : "missing", want);
		}
		vf_count("proc_files_read", 1);
	}
	free(m.buf);
	p->inflight--; wake(&p->inflight);
	op_end(t, r);
}
/* periodic work */
static void worker(struct task *t, void *a)
{
	struct delayed_work *w = a; int i, was = 0; struct ident *id = NULL; unsigned long due = w->due;
	op_begin(t, "periodic self test", 0);
	for (i = 0; i < NF; i++) if (files[i] && files[i]->id && !files[i]->dbg) { struct blk *b = blk_of(files[i]->f.private_data); if (b && (uint8_t *)w >= b->p && (uint8_t *)w < b->p + b->n) id = files[i]->id; }
	for (i = 0; i < NT; i++) if (tfms[i] && tfms[i]->id) { struct blk *b = blk_of(tfms[i]->r.base.ctx); if (b && (uint8_t *)w >= b->p && (uint8_t *)w < b->p + b->n) id = tfms[i]->id; }
	if (id) was = id->st_failed;
	(void)due;
	w->work.func(&w->work);
	for (i = 0; i < (int)t->nev; i++) if (t->ev[i].k == E_SELF) {
		if (!t->ev[i].id) vf_fail("self-test-unbound", "a periodic self test is bound to no instance");
		if (id && t->ev[i].id != id) vf_fail("wrong-instance", "a periodic self test runs on another instance");
		if (was) vf_fail("self-test-again", "a failed instance is tested again");
		if (t->ev[i].a && w->pending) vf_fail("self-test-queued", "a failed instance's self test is queued again");
	}
	if (nev_of(t, E_SELF) > 1) vf_fail("self-test-runs", "one periodic run tests %d times", nev_of(t, E_SELF));
	if (!nev_of(t, E_SELF) && id && !id->st_failed) vf_fail("self-test-skipped", "a periodic run does not test its instance");
	w->running = 0; wake(w);
	vf_count("periodic_runs", 1);
	op_end(t, 0);
}
static int ticks_left; static int workers;
static void tick(void)
{
	struct delayed_work *w, *m = NULL;
	if (!ticks_left) return;
	/* time stands still while an instance is being set up or tested */
	FOR_WORKS(w) if (w->running) return;
	if (setting_up) return;
	FOR_WORKS(w) if (w->pending && !w->running && !w->canceling && (!m || w->due < m->due)) m = w;
	if (!m) return;
	ticks_left--;
	if (m->due > ks_jiffies) ks_jiffies = m->due;
	m->pending = 0; m->running = 1;
	spawn(worker, m);
	FOR_WORKS(w) if (w->pending && !w->running && !w->canceling && w->due <= ks_jiffies && vf_chance(1, 2)) { w->pending = 0; w->running = 1; spawn(worker, w); }
}
/* ================= the tasks of a case ================= */
static unsigned mixw[8];
static void one(struct task *t)
{
	struct kfile *k; struct tfm *f; unsigned w = (unsigned)vf_below(100);
	if (w < mixw[0]) {	/* character device */
		k = file_pick(0);
		if (!k) { do_open(t); return; }
		if (vf_chance(1, 8)) { k->users--; do_open(t); return; }
		switch (vf_below(12)) {
		case 0: case 1: case 2: case 3: do_fread(t, k); break;
		case 4: case 5: do_status(t, k, misc->fops); break;
		case 6: case 7: do_field(t, k, misc->fops); break;
		case 8: do_selftest(t, k, misc->fops); break;
		case 9: do_badioctl(t, k, misc->fops); break;
		case 10: do_flip(k); break;
		default: do_close(t, k); return;
		}
		k->users--;
	} else if (w < mixw[1]) do_hw(t);
	else if (w < mixw[2]) {
		f = tfm_pick();
		if (!f) { do_tfm_new(t); return; }
		if (vf_chance(1, 8)) { f->users--; do_tfm_new(t); return; }
		if (vf_chance(1, 8)) { do_tfm_free(t, f); return; }
		do_gen(t, f); f->users--;
	} else if (w < mixw[3]) {
		k = file_pick(1);
		if (!k) { do_topen(t); return; }
		if (vf_chance(1, 6)) { k->users--; do_topen(t); return; }
		switch (vf_below(9)) {
		case 0: case 1: case 2: case 3: do_tread(t, k); break;
		case 4: do_tloop(t, k); break;
		case 5: if (dbg_enter(k)) { do_field(t, k, k->d->fops); dbg_leave(k); } break;
		case 6: if (dbg_enter(k)) { if (vf_chance(1, 2)) do_status(t, k, k->d->fops); else do_selftest(t, k, k->d->fops); dbg_leave(k); } break;
		case 7: do_tparam(); if (vf_chance(1, 10)) lockdown = 1; break;
		default: do_tclose(t, k); return;
		}
		k->users--;
	} else if (w < mixw[4]) do_proc(t);
	else tick();
}
static int ops_per_task;
static void user(struct task *t, void *a) { int i; (void)a; for (i = 0; i < ops_per_task; i++) { one(t); kp(); } }
static void udev(struct task *t, void *a) { int i; (void)a; for (i = 0; i < 3 && misc; i++) { do_open(t); kp(); } }
static void closer(struct task *t, void *a)
{
	int i;
	(void)a;
	for (i = 0; i < NF; i++) if (files[i] && files[i]->id && !files[i]->closing) { files[i]->users++; if (files[i]->dbg) do_tclose(t, files[i]); else do_close(t, files[i]); }
	for (i = 0; i < NT; i++) if (tfms[i] && !tfms[i]->closing) { tfms[i]->users++; do_tfm_free(t, tfms[i]); }
}
static void late_reader(struct task *t, void *a) { int i; (void)a; for (i = 0; i < 4; i++) { if (vf_chance(1, 2)) do_proc(t); else if (vf_chance(1, 2)) do_hw(t); else { struct kfile *k = file_pick(1); if (k) { do_tread(t, k); k->users--; } else tick(); } kp(); } }
int ks_module_init(void); void ks_module_exit(void);
static int init_ret;
static void loader(struct task *t, void *a) { (void)a; op_begin(t, "module init", 0); in_init = 1; init_ret = ks_module_init(); in_init = 0; if (fips_enabled && init_failed) vf_fail("no-panic", "a failing initialisation does not panic in FIPS mode"); hw_id = hw_id ? hw_id : NULL;
	if (init_ret) {
		int want = init_failed ? -EFAULT : core_proc_fail ? -ENOMEM : reg_failed ? reg_err : -ENOMEM;
		if (init_ret > 0) vf_fail("errno", "module init returns %d", init_ret);
		if (!init_failed && !reg_failed && !nev_of(t, E_NOMEM) && !nev_of(t, E_NOCOLL)) vf_fail("init-fails", "module init fails with %d for no reason", init_ret);
		if (init_ret != want && !nev_of(t, E_NOMEM) && !nev_of(t, E_NOCOLL)) vf_fail("errno", "module init fails with %d, the cause is %d", init_ret, want);
	} else {
		if (init_failed) vf_fail("init-unchecked", "module loads although the library refuses the platform");
		if (core_proc_fail || (reg_failed && (!strcmp(failed_what, "misc") || !strcmp(failed_what, "hwrng") || !strcmp(failed_what, "crypto") || !strncmp(failed_what, "debugfs", 7)))) vf_fail("init-unchecked", "module loads although registering %s failed", failed_what);
	}
	op_end(t, init_ret); }
static void unloader(struct task *t, void *a) { (void)a; op_begin(t, "module exit", 0); in_exit = 1; ks_module_exit(); op_end(t, 0); }
static void all_gone(const char *when)
{
	struct delayed_work *w; struct blk *b; struct coll *c; int i;
	if (misc || hw || alg) vf_fail("left-registered", "%s leaves %s registered", when, misc ? "the character device" : hw ? "the hwrng" : "the algorithm");
	if (nproc_live) vf_fail("left-proc", "%s leaves %d proc entries", when, nproc_live);
	if (ndent_live) vf_fail("left-debugfs", "%s leaves %d debugfs entries", when, ndent_live);
	FOR_WORKS(w) if (w->magic == KS_MUTEX_MAGIC && (w->pending || w->running) ) { vf_fail("work-outlives", "%s leaves a self test queued", when); }
	for (c = colls; c; c = c->next) if (c->live) vf_fail("leak", "%s leaves an instance made by %s", when, c->id->by);
	for (b = blks; b; b = b->next) if (b->live) vf_fail("leak", "%s leaves %zu bytes allocated by %s", when, b->n, b->op);
	for (i = 0; i < NF; i++) if (files[i] && !files[i]->dbg) vf_fail("open-at-exit", "%s with the character device open", when);
}
static void quiescent(void)
{
	struct delayed_work *w; struct ident *id; int pend = 0, ok = 0, all = 0;
	FOR_WORKS(w) if (w->magic == KS_MUTEX_MAGIC && w->pending) {
		pend++;
		if (w->delay != (unsigned long)eff_interval * HZ) vf_fail("self-test-interval", "self test queued after %lu ticks, the interval is %u s", w->delay, eff_interval);
	}
	for (id = idents; id; id = id->next) if (id->live && !id->raw) { all++; if (!id->st_failed) { ok++; if (eff_interval && ks_jiffies - id->last_run > (unsigned long)eff_interval * HZ) vf_fail("self-test-late", "an instance made by %s was not tested for %lu ticks, the interval is %u s", id->by, ks_jiffies - id->last_run, eff_interval); } }
	if (!eff_interval && pend) vf_fail("self-test-interval", "%d self tests queued with the periodic test off", pend);
	if (eff_interval && (pend < ok || pend > all)) vf_fail("self-test-queued", "%d self tests queued for %d working instances (of %d)", pend, ok, all);
	vf_count("quiescent_checks", 1);
}
static void proc_all(struct task *t, void *a) { int i; (void)a; for (i = 0; i < 30; i++) do_proc(t); }
static void case_main(void)
{
	static const unsigned fl[] = { 0, JENT_FORCE_FIPS, JENT_NTG1, JENT_CACHE_ALL, JENT_DISABLE_MEMORY_ACCESS, JENT_FORCE_INTERNAL_TIMER, JENT_DISABLE_INTERNAL_TIMER };
	unsigned f, i, iv; int p_init = !strcmp(vf_profile, "init"), p_self = !strcmp(vf_profile, "selftest"), nt; unsigned quiet;
	sem_init(&main_sem, 0, 0);
#ifdef KERN_REAL
	vf_rng_seed(&rr, vf_rnd(), vf_rnd());
#endif
	switch_den = 1u << vf_below(6); sig_den = vf_chance(1, 2) ? (unsigned)vf_range(20, 400) : 0; nomem_den = 0;
	quiet = vf_chance(1, 4);
	f = fl[vf_below(7)] | fl[vf_below(7)]; if (vf_chance(1, 2)) f |= (unsigned)vf_below(32) << 27; if (vf_chance(1, 2)) f |= (unsigned)vf_below(8) << 24;
#ifdef KERN_REAL
	f &= ~(0x1fu << 27); f &= ~(unsigned)(JENT_CACHE_ALL | JENT_FORCE_INTERNAL_TIMER); f &= ~(7u << 24); f |= (unsigned)vf_range(1, 6) << 27; f |= 1u << 24;
#endif
	par_set("osr", (unsigned)vf_below(8)); par_set("flags", f); par_set("verbose", vf_chance(1, 4));
	exp_osr = par_get("osr"); exp_flags = f;
	if (vf_chance(1, 6)) { par_set("ntg1", 1); exp_flags |= JENT_NTG1; }
	if (vf_chance(1, 6)) { par_set("force_fips", 1); exp_flags |= JENT_FORCE_FIPS; }
#ifndef KERN_REAL
	if (vf_chance(1, 6)) { par_set("cache_all", 1); exp_flags |= JENT_CACHE_ALL; }
#endif
	iv = vf_chance(1, p_self ? 6 : 2) ? 0 : vf_chance(1, 6) ? (unsigned)vf_rnd() : (unsigned)vf_range(1, 5000);
	if (vf_chance(1, 10)) iv = 2592000u + (unsigned)vf_below(3) - 1;
	par_set("selftest_interval", iv); eff_interval = iv > 2592000u ? 2592000u : iv;
	par_set("hwrng_quality", vf_chance(1, 2) ? 0 : vf_chance(1, 3) ? (unsigned)vf_rnd() : (unsigned)vf_range(1, 1100));
	do_tparam(); exp_valid = 1;
	fips_enabled = vf_chance(1, 5);
	lockdown = vf_chance(1, 12);
	spawn_udev = vf_chance(1, 2);
	if (p_init || vf_chance(1, 10)) {
		switch (vf_below(5)) {
		case 0: p_initfail = 1; break;
		case 1: p_collfail = 500; break;
		case 2: reg_fail_at = (int)vf_below(24); break;
		default: reg_fail_at = (int)vf_below(20); break;
		}
		reg_err = vf_chance(1, 3) ? -EBUSY : vf_chance(1, 2) ? -EEXIST : -ENODEV;
	}
	spawn(loader, NULL);
	run_all();
	if (panicked) return;
	if (init_ret) {
		for (i = 0; i < NF; i++) if (files[i] && !files[i]->dbg) vf_fail("open-at-unwind", "module init fails with %d while the character device is open", init_ret);
		all_gone("a failed module init");
		vf_count("init_failures", 1); vf_state(vf_mix(sched_hash, (uint64_t)init_ret)); 
		vf_sample("load refused with %d (%s)", init_ret, init_failed ? "platform" : reg_failed ? failed_what : "memory");
		return;
	}
	p_collfail = quiet ? 0 : (unsigned)vf_below(60);
	/* everything the parameters promise is there */
	if (!misc && IS_ENABLED(CONFIG_EXTERNAL_JITTERENTROPY_CHARDEV)) vf_fail("not-registered", "character device missing after load");
	if (!hw && IS_ENABLED(CONFIG_EXTERNAL_JITTERENTROPY_HWRNG)) vf_fail("not-registered", "hwrng missing after load");
	if (!alg && IS_ENABLED(CONFIG_EXTERNAL_JITTERENTROPY_KCAPI)) vf_fail("not-registered", "algorithm missing after load");
	if (par_get("flags") != exp_flags) vf_fail("parameters", "flags parameter reads %#x, effective is %#x", par_get("flags"), exp_flags);
	if (hw && !hw_id) { struct ident *id; for (id = idents; id; id = id->next) { int q, mine = 0; for (q = 0; q < NF; q++) if (files[q] && files[q]->id == id) mine = 1; if (!mine && id->live) hw_id = id; } }
	if (!quiet) {
		p_readerr = (unsigned)vf_below(120); p_selffail = (unsigned)vf_below(p_self ? 400 : 120); p_statusfail = (unsigned)vf_below(80); p_uuiderr = (unsigned)vf_below(60);
		nomem_den = vf_chance(1, 2) ? (unsigned)vf_range(3, 60) : 0; proc_fail_den = vf_chance(1, 3) ? 6 : 0;
	}
	p_realloc = (unsigned)vf_below(200);
#ifdef KERN_REAL
	p_selffail = 0;
#endif
	reg_fail_at = -1;
	ticks_left = vf_chance(1, 4) ? 0 : (int)vf_range(1, 25);
	{	/* share of: character device, hwrng, crypto API, raw noise file, procfs; the rest advances the clock */
		static const struct { const char *p; unsigned w[5]; } mix[] = {
			{ "chardev", { 72, 2, 3, 1, 12 } }, { "service", { 8, 38, 38, 0, 6 } }, { "selftest", { 40, 6, 14, 2, 13 } },
			{ "raw", { 8, 2, 2, 78, 6 } }, { "", { 40, 13, 15, 8, 14 } } };
		unsigned q, k = 0;
		for (q = 0; mix[k].p[0] && strcmp(mix[k].p, vf_profile); k++) ;
		for (q = 0; q < 5; q++) mixw[q] = mix[k].w[q] + (q ? mixw[q - 1] : 0);
	}
	nt = (int)vf_range(1, 6); ops_per_task = (int)vf_range(4, vf_thorough ? 60 : 30);
#ifdef KERN_REAL
	ops_per_task = (int)vf_range(3, 10);
	rdisturb = vf_chance(1, 3) ? (unsigned)vf_range(100, 20000) : 0;
#endif
	for (i = 0; i < (unsigned)nt; i++) spawn(user, NULL);
	run_all();
	if (panicked) { vf_state(vf_mix(shape, sched_hash)); return; }
	quiescent();
	spawn(proc_all, NULL); nomem_den = 0; sig_den = 0; run_all();
	if (panicked) return;
	ticks_left = (int)vf_below(5);
	spawn(closer, NULL); spawn(late_reader, NULL);
	run_all();
	if (panicked) return;
	spawn(closer, NULL); run_all();
	if (panicked) return;
	/* unload with readers of everything that does not pin the module */
	for (i = 0; i < 2; i++) spawn(late_reader, NULL);
	ticks_left = 3;
	spawn(unloader, NULL);
	run_all();
	if (panicked) return;
	all_gone("module exit");
	vf_state(vf_mix(shape, sched_hash));
	vf_count("context_switches", nswitch); vf_count("kernel_calls", npoints);
	vf_sample("%d tasks, %d instances, %lu kernel calls, %lu switches, %llu self tests (%llu failing), flags %#x", nt, nident, npoints, nswitch, (unsigned long long)st_runs, (unsigned long long)st_fails, exp_flags);
}
int main(int c, char **v) { return vf_main(c, v, case_main); }
