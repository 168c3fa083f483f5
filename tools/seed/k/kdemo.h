/* a small single-threaded stand-in kernel with hooks, and a scripted library */
#include "kshim.h"
#include "jitterentropy.h"
#include "jitterentropy-internal.h"
#include "jitterentropy_uapi.h"
#define CHECK(c, ...) do { if (!(c)) { printf("FAIL: " __VA_ARGS__); printf("\n"); exit(1); } } while (0)
/* memory */
static size_t live_n; static struct { void *p; size_t n; } live[4096];
static void (*on_alloc)(void);
void *ks_alloc(size_t n, int zero) { void *p = calloc(1, n ? n : 1); if (!zero) memset(p, 0x5a, n); live[live_n].p = p; live[live_n++].n = n; return p; }
void ks_free(const void *p, size_t w, int s)
{
	size_t i, j;
	if (!p) return;
	for (i = 0; i < live_n; i++) if (live[i].p == p) {
		if (s) memset(live[i].p, 0, w == (size_t)-1 ? live[i].n : w);
		for (j = 0; j + 16 <= live[i].n; j++) { int k = 0; while (k < 16 && ((uint8_t *)p)[j + k] == 0xE7) k++; CHECK(k < 16, "output left in freed memory"); }
		free(live[i].p); live[i] = live[--live_n]; return;
	}
	CHECK(0, "bad free");
}
/* tasks, signals */
static struct task_struct me; static int sig, cap_ok = 1;
struct task_struct *ks_current(void) { return &me; }
int ks_signal_pending(void) { return sig; }
int ks_need_resched(void) { return 0; }
void ks_yield(void) { }
void ks_point(void) { }
/* locks: a hook runs just before a lock is taken, as another task would */
static void (*on_lock)(struct mutex *); static int would_sleep;
void ks_mutex_init(struct mutex *m) { m->magic = KS_MUTEX_MAGIC; m->owner = -1; }
void mutex_destroy(struct mutex *m) { CHECK(m->owner < 0, "busy lock destroyed"); m->magic = 0; }
static void hook_lock(struct mutex *m) { void (*h)(struct mutex *) = on_lock; if (h) { on_lock = NULL; h(m); } }
void mutex_lock(struct mutex *m) { hook_lock(m); if (m->owner >= 0) { would_sleep++; m->owner = -1; } m->owner = 1; }
int mutex_lock_interruptible(struct mutex *m) { hook_lock(m); if (m->owner >= 0) { would_sleep++; if (sig) return -EINTR; m->owner = -1; } m->owner = 1; return 0; }
int mutex_trylock(struct mutex *m) { hook_lock(m); if (m->owner >= 0) return 0; m->owner = 1; return 1; }
void mutex_unlock(struct mutex *m) { m->owner = -1; }
/* work */
unsigned long ks_jiffies = 1000; struct workqueue_struct ks_wq; static struct delayed_work *wq[256]; static int nwq;
static struct delayed_work *running;
void ks_dwork_init(struct delayed_work *d, void (*f)(struct work_struct *)) { memset(d, 0, sizeof(*d)); d->work.func = f; }
bool queue_delayed_work(struct workqueue_struct *q, struct delayed_work *d, unsigned long delay) { if (d->pending) return false; if (d->canceling) return false; d->pending = 1; d->due = ks_jiffies + delay; wq[nwq++] = d; return true; }
bool mod_delayed_work(struct workqueue_struct *q, struct delayed_work *d, unsigned long delay) { int p = d->pending; d->pending = 1; d->due = ks_jiffies + delay; if (!p) wq[nwq++] = d; return p; }
static void unq(struct delayed_work *d) { int i; for (i = 0; i < nwq; i++) if (wq[i] == d) { wq[i] = wq[--nwq]; break; } d->pending = 0; }
static void (*on_sync)(void);
bool cancel_delayed_work_sync(struct delayed_work *d) { int p = d->pending; if (p) unq(d); if (running == d && on_sync) on_sync(); return p; }
bool cancel_delayed_work(struct delayed_work *d) { int p = d->pending; if (p) unq(d); return p; }
bool flush_delayed_work(struct delayed_work *d) { return false; }
bool delayed_work_pending(struct delayed_work *d) { return d->pending; }
static void advance(unsigned long secs)
{
	unsigned long end = ks_jiffies + secs * HZ;
	for (;;) {
		int i, b = -1;
		for (i = 0; i < nwq; i++) if (wq[i]->due <= end && (b < 0 || wq[i]->due < wq[b]->due)) b = i;
		if (b < 0) break;
		{ struct delayed_work *d = wq[b]; if (d->due > ks_jiffies) ks_jiffies = d->due; unq(d); running = d; d->work.func(&d->work); running = NULL; }
	}
	ks_jiffies = end;
}
/* log, panic */
static int panics; static void (*on_panic)(void);
void ks_printk(int l, const char *f, ...) { }
#include <setjmp.h>
static jmp_buf panic_jmp;
void ks_panic(const char *f, ...) { panics++; longjmp(panic_jmp, 1); }
int ks_ratelimit(void) { return 1; }
/* user memory */
static void *fault_at; static size_t fault_ok; static void (*on_copy)(void);
unsigned long copy_to_user(void *to, const void *from, unsigned long n)
{
	void (*h)(void) = on_copy;
	if (h) { on_copy = NULL; h(); }
	if (fault_at && (char *)to + n > (char *)fault_at) { unsigned long k = (char *)to < (char *)fault_at ? (unsigned long)((char *)fault_at - (char *)to) : 0; memcpy(to, from, k); return n - k; }
	memcpy(to, from, n); return 0;
}
unsigned long copy_from_user(void *to, const void *from, unsigned long n) { memcpy(to, from, n); return 0; }
/* modules */
struct module ks_module; int ks_module_init(void); void ks_module_exit(void);
static struct { const char *n, *t; void *p; } par[64]; static int npar;
void ks_param(const char *n, const char *t, void *p, int perm) { par[npar].n = n; par[npar].t = t; par[npar++].p = p; }
static void set(const char *n, unsigned v) { int i; for (i = 0; i < npar; i++) if (!strcmp(par[i].n, n)) { if (!strcmp(par[i].t, "bool")) *(bool *)par[i].p = v; else *(unsigned *)par[i].p = v; return; } CHECK(0, "no parameter %s", n); }
int fips_enabled; static int locked_down;
bool capable(int c) { return cap_ok; }
int security_locked_down(enum lockdown_reason r) { return locked_down ? -EPERM : 0; }
/* registrations */
static struct miscdevice *misc; static struct hwrng *hw; static struct rng_alg *alg; static int fail_misc, fail_hw, fail_alg, fail_proc, fail_dbg;
static void (*on_misc)(void);
int misc_register(struct miscdevice *m) { if (fail_misc) return fail_misc; misc = m; if (on_misc) on_misc(); return 0; }
void misc_deregister(struct miscdevice *m) { misc = NULL; }
int hwrng_register(struct hwrng *r) { if (fail_hw) return fail_hw; hw = r; return 0; }
void hwrng_unregister(struct hwrng *r) { hw = NULL; }
int crypto_register_rng(struct rng_alg *a) { if (fail_alg) return fail_alg; alg = a; return 0; }
void crypto_unregister_rng(struct rng_alg *a) { alg = NULL; }
struct proc_dir_entry { char name[64]; struct proc_dir_entry *up; int (*show)(struct seq_file *, void *); void *data; int live; };
static struct proc_dir_entry pe[256]; static int npe, nproc_calls; static void (*on_proc_remove)(struct proc_dir_entry *);
static struct proc_dir_entry *mkpe(const char *n, struct proc_dir_entry *up) { struct proc_dir_entry *e = &pe[npe++]; if (fail_proc && ++nproc_calls == fail_proc) { npe--; return NULL; } snprintf(e->name, sizeof(e->name), "%s", n); e->up = up; e->live = 1; return e; }
struct proc_dir_entry *proc_mkdir(const char *n, struct proc_dir_entry *p) { return mkpe(n, p); }
struct proc_dir_entry *proc_create_single_data(const char *n, umode_t m, struct proc_dir_entry *p, int (*s)(struct seq_file *, void *), void *d) { struct proc_dir_entry *e = mkpe(n, p); if (e) { e->show = s; e->data = d; } return e; }
void proc_remove(struct proc_dir_entry *e) { int i; if (!e) return; if (on_proc_remove) on_proc_remove(e); CHECK(e->live, "proc entry %s removed twice", e->name); e->live = 0; for (i = 0; i < npe; i++) if (pe[i].live && pe[i].up == e) proc_remove(&pe[i]); }
void remove_proc_entry(const char *n, struct proc_dir_entry *p) { } int remove_proc_subtree(const char *n, struct proc_dir_entry *p) { return 0; }
static struct proc_dir_entry *proc(const char *n) { int i; for (i = 0; i < npe; i++) if (pe[i].live && !strcmp(pe[i].name, n)) return &pe[i]; return NULL; }
static char seqbuf[65536];
void seq_printf(struct seq_file *m, const char *f, ...) { va_list a; va_start(a, f); m->len += vsnprintf(seqbuf + m->len, sizeof(seqbuf) - m->len, f, a); va_end(a); }
void seq_puts(struct seq_file *m, const char *s) { seq_printf(m, "%s", s); } void seq_putc(struct seq_file *m, char c) { seq_printf(m, "%c", c); }
int seq_write(struct seq_file *m, const void *d, size_t n) { return 0; }
static const char *show(const char *n) { struct seq_file m = { 0 }; struct proc_dir_entry *e = proc(n); CHECK(e, "no %s", n); m.private = e->data; seqbuf[0] = 0; return e->show(&m, NULL) ? NULL : seqbuf; }
struct dentry { int live; const struct file_operations *fops; }; static struct dentry de[8]; static int nde;
struct dentry *debugfs_create_dir(const char *n, struct dentry *p) { if (fail_dbg == 1) return ERR_PTR(-ENOMEM); de[nde].live = 1; return &de[nde++]; }
struct dentry *debugfs_create_file(const char *n, umode_t m, struct dentry *p, void *d, const struct file_operations *f) { if (fail_dbg == 2) return ERR_PTR(-ENOMEM); de[nde].live = 1; de[nde].fops = f; return &de[nde++]; }
struct dentry *debugfs_create_file_unsafe(const char *n, umode_t m, struct dentry *p, void *d, const struct file_operations *f) { return debugfs_create_file(n, m, p, d, f); }
void debugfs_remove_recursive(struct dentry *d) { int i; if (IS_ERR_OR_NULL(d)) return; for (i = (int)(d - de); i < nde; i++) de[i].live = 0; }
static const struct file_operations *rawf(void) { int i; for (i = 0; i < nde; i++) if (de[i].live && de[i].fops) return de[i].fops; return NULL; }
long compat_ptr_ioctl(struct file *f, unsigned int c, unsigned long a) { return 0; }
void get_random_bytes(void *p, size_t n) { memset(p, 7, n); }
/* library */
static uint64_t gen; static int ncoll, nfreed; static ssize_t (*on_read)(struct rand_data **ec, char *data, size_t len);
static unsigned al_osr, al_flags, init_osr, init_flags; static int init_ret, selftest_ret, selftests; static struct rand_data *selftest_ec;
static struct rand_data *last_ec; static void (*on_selftest)(struct rand_data *);
static struct rand_data *newec(unsigned o, unsigned f) { struct rand_data *e = calloc(1, sizeof(*e)); e->osr = o; e->flags = f; al_osr = o; al_flags = f; ncoll++; last_ec = e; return e; }
struct rand_data *jent_entropy_collector_alloc(unsigned o, unsigned f) { return newec(o, f); }
struct rand_data *jent_entropy_collector_alloc_raw(unsigned o, unsigned f) { return newec(o, f); }
void jent_entropy_collector_free(struct rand_data *e) { if (e) { ncoll--; nfreed++; free(e); } }
ssize_t jent_read_entropy_safe(struct rand_data **ec, char *d, size_t n) { if (on_read) { ssize_t r = on_read(ec, d, n); if (r != 1000000) return r; } memset(d, 0xE7, n); return (ssize_t)n; }
ssize_t jent_read_entropy(struct rand_data *ec, char *d, size_t n) { return jent_read_entropy_safe(&ec, d, n); }
static char status_doc[4096] = "{ \"status\": 1 }";
int jent_status(const struct rand_data *ec, char *b, size_t n) { volatile unsigned x = ec->osr; snprintf(b, n, "%s", status_doc); return 0; }
int jent_uuid(const struct rand_data *ec, char *b, size_t n) { snprintf(b, n, "uuid-%p", (void *)ec); return 0; }
int jent_selftest(struct rand_data *ec) { selftests++; selftest_ec = ec; if (on_selftest) on_selftest(ec); return selftest_ret; }
int jent_entropy_init_ex(unsigned o, unsigned f) { init_osr = o; init_flags = f; return init_ret; }
unsigned int jent_version(void) { return JENT_MAJVERSION * 1000000 + JENT_MINVERSION * 10000 + JENT_PATCHLEVEL * 100; }
int jent_fips_enabled(void) { return fips_enabled; }
static int primed, kind; static uint64_t meas_n; static uint64_t last_loop;
static unsigned meas(struct rand_data *ec, uint64_t l, uint64_t *d, int k) { if (!d) { primed = 1; return 0; } kind = k; last_loop = l; *d = primed || k ? ++meas_n : 0xdeadULL; primed = 1; return 0; }
unsigned int jent_measure_jitter(struct rand_data *ec, uint64_t l, uint64_t *d) { return meas(ec, l, d, 0); }
unsigned int jent_measure_jitter_ntg1_sha3(struct rand_data *ec, uint64_t l, uint64_t *d) { return meas(ec, l, d, 1); }
unsigned int jent_measure_jitter_ntg1_memaccess(struct rand_data *ec, uint64_t l, uint64_t *d) { return meas(ec, l, d, 2); }
