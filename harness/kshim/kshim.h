/* A user-space stand-in for the kernel interfaces the module uses: tasks run
 * one at a time under a seeded scheduler, every call below is a place where
 * another task may run, and everything handed out is kept in a ledger. */
#ifndef KSHIM_H
#define KSHIM_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <linux/types.h>
#include <linux/errno.h>

#define __user
#define __init
#define __exit
#define __initdata
#define __maybe_unused __attribute__((unused))
#define __always_unused __attribute__((unused))
#ifndef __must_check
#define __must_check
#endif
#ifndef __always_inline
#define __always_inline inline
#endif
#define noinline __attribute__((noinline))
#define likely(x) (x)
#define unlikely(x) (x)
#define fallthrough __attribute__((__fallthrough__))
#define READ_ONCE(x) (*(volatile __typeof__(x) *)&(x))
#define WRITE_ONCE(x, v) (*(volatile __typeof__(x) *)&(x) = (v))
#define barrier() __asm__ __volatile__("" ::: "memory")
#define BUILD_BUG_ON(c) ((void)sizeof(char[1 - 2 * !!(c)]))
#define BUILD_BUG_ON_MSG(c, m) BUILD_BUG_ON(c)
#define static_assert_(...) _Static_assert(__VA_ARGS__)
#define ARRAY_SIZE(a) (sizeof(a) / sizeof((a)[0]))
#define container_of(p, t, m) ((t *)((char *)(p) - offsetof(t, m)))
#define min(a, b) ({ __typeof__(a) ks_a = (a); __typeof__(b) ks_b = (b); ks_a < ks_b ? ks_a : ks_b; })
#define max(a, b) ({ __typeof__(a) ks_a = (a); __typeof__(b) ks_b = (b); ks_a > ks_b ? ks_a : ks_b; })
#define min_t(t, a, b) ({ t ks_ta = (a); t ks_tb = (b); ks_ta < ks_tb ? ks_ta : ks_tb; })
#define max_t(t, a, b) ({ t ks_ta = (a); t ks_tb = (b); ks_ta > ks_tb ? ks_ta : ks_tb; })
#define clamp(v, lo, hi) ({ __typeof__(v) ks_v = (v); __typeof__(v) ks_l = (lo), ks_h = (hi); ks_v < ks_l ? ks_l : ks_v > ks_h ? ks_h : ks_v; })
#define clamp_t(t, v, lo, hi) ({ t ks_cv = (v); t ks_cl = (lo), ks_ch = (hi); ks_cv < ks_cl ? ks_cl : ks_cv > ks_ch ? ks_ch : ks_cv; })
#define clamp_val(v, lo, hi) clamp_t(__typeof__(v), v, lo, hi)
#define WARN_ON(c) (!!(c))
#define WARN_ON_ONCE(c) (!!(c))
#define BUG_ON(c) do { if (c) panic("BUG"); } while (0)
/* IS_ENABLED() as the kernel spells it */
#define __KS_ARG_PLACEHOLDER_1 0,
#define __ks_second(a, b, ...) b
#define __ks_is_def(x) ___ks_is_def(x)
#define ___ks_is_def(v) ____ks_is_def(__KS_ARG_PLACEHOLDER_##v)
#define ____ks_is_def(junk) __ks_second(junk 1, 0, 0)
#define IS_ENABLED(o) __ks_is_def(o)
#define IS_BUILTIN(o) __ks_is_def(o)
#define IS_REACHABLE(o) __ks_is_def(o)

static inline u64 div64_u64(u64 a, u64 b) { return a / b; }
static inline u64 div64_u64_rem(u64 a, u64 b, u64 *r) { *r = a % b; return a / b; }
static inline u64 div_u64(u64 a, u32 b) { return a / b; }
static inline u64 div_u64_rem(u64 a, u32 b, u32 *r) { *r = a % b; return a / b; }

/* ---- memory ---- */
#define GFP_KERNEL 0u
#define __GFP_ZERO 1u
#define __GFP_NOWARN 0u
void *ks_alloc(size_t n, int zero);
void ks_free(const void *p, size_t wipe, int sensitive);
#define kvmalloc(n, g) ks_alloc(n, (g) & __GFP_ZERO)
#define kvzalloc(n, g) ks_alloc(n, 1)
#define kmalloc(n, g) ks_alloc(n, (g) & __GFP_ZERO)
#define kzalloc(n, g) ks_alloc(n, 1)
#define kcalloc(n, s, g) ks_alloc((size_t)(n) * (s), 1)
#define kvcalloc(n, s, g) ks_alloc((size_t)(n) * (s), 1)
#define kmalloc_array(n, s, g) ks_alloc((size_t)(n) * (s), (g) & __GFP_ZERO)
#define kvmalloc_array(n, s, g) ks_alloc((size_t)(n) * (s), (g) & __GFP_ZERO)
#define vmalloc(n) ks_alloc(n, 0)
#define vzalloc(n) ks_alloc(n, 1)
#define kvfree(p) ks_free(p, 0, 0)
#define kfree(p) ks_free(p, 0, 0)
#define vfree(p) ks_free(p, 0, 0)
#define kvfree_sensitive(p, n) ks_free(p, n, 1)
#define kfree_sensitive(p) ks_free(p, (size_t)-1, 1)
static inline void memzero_explicit(void *p, size_t n) { memset(p, 0, n); __asm__ __volatile__("" :: "r"(p) : "memory"); }

/* ---- tasks, signals, scheduling ---- */
struct task_struct { int id; };
struct task_struct *ks_current(void);
#define current ks_current()
int ks_signal_pending(void);
#define signal_pending(t) ((void)(t), ks_signal_pending())
#define fatal_signal_pending(t) ((void)(t), ks_signal_pending())
int ks_need_resched(void);
#define need_resched() ks_need_resched()
void ks_yield(void);
#define cond_resched() (ks_yield(), 0)
#define schedule() ks_yield()
#define msleep(n) ks_yield()
#define usleep_range(a, b) ks_yield()

/* ---- locks ---- */
struct mutex { unsigned magic; int owner; int waiters; };
#define KS_MUTEX_MAGIC 0x6d757478u
#define DEFINE_MUTEX(n) struct mutex n = { KS_MUTEX_MAGIC, -1, 0 }
void ks_mutex_init(struct mutex *m);
#define mutex_init(m) ks_mutex_init(m)
void mutex_destroy(struct mutex *m);
void mutex_lock(struct mutex *m);
int mutex_lock_interruptible(struct mutex *m);
#define mutex_lock_killable(m) mutex_lock_interruptible(m)
int mutex_trylock(struct mutex *m);
void mutex_unlock(struct mutex *m);
static inline bool mutex_is_locked(struct mutex *m) { return m->owner >= 0; }
#define lockdep_assert_held(m) ((void)(m))

/* ---- atomics ---- */
void ks_point(void);
typedef struct { int counter; } atomic_t;
typedef struct { long long counter; } atomic64_t;
#define ATOMIC_INIT(i) { (i) }
#define ATOMIC64_INIT(i) { (i) }
#define atomic_read(v) (ks_point(), __atomic_load_n(&(v)->counter, __ATOMIC_SEQ_CST))
#define atomic_set(v, i) (ks_point(), __atomic_store_n(&(v)->counter, i, __ATOMIC_SEQ_CST))
#define atomic_inc(v) (ks_point(), ((void)__atomic_add_fetch(&(v)->counter, 1, __ATOMIC_SEQ_CST)))
#define atomic_dec(v) (ks_point(), ((void)__atomic_sub_fetch(&(v)->counter, 1, __ATOMIC_SEQ_CST)))
#define atomic_add(i, v) (ks_point(), ((void)__atomic_add_fetch(&(v)->counter, i, __ATOMIC_SEQ_CST)))
#define atomic_sub(i, v) (ks_point(), ((void)__atomic_sub_fetch(&(v)->counter, i, __ATOMIC_SEQ_CST)))
#define atomic_inc_return(v) (ks_point(), __atomic_add_fetch(&(v)->counter, 1, __ATOMIC_SEQ_CST))
#define atomic_dec_return(v) (ks_point(), __atomic_sub_fetch(&(v)->counter, 1, __ATOMIC_SEQ_CST))
#define atomic_dec_and_test(v) (ks_point(), (__atomic_sub_fetch(&(v)->counter, 1, __ATOMIC_SEQ_CST) == 0))
#define atomic64_read(v) atomic_read(v)
#define atomic64_set(v, i) atomic_set(v, i)
#define atomic64_inc(v) atomic_inc(v)
#define atomic64_dec(v) atomic_dec(v)
#define atomic64_add(i, v) atomic_add(i, v)
#define atomic64_inc_return(v) atomic_inc_return(v)
#define smp_load_acquire(p) __atomic_load_n(p, __ATOMIC_ACQUIRE)
#define smp_store_release(p, v) __atomic_store_n(p, v, __ATOMIC_RELEASE)
#define smp_mb() __atomic_thread_fence(__ATOMIC_SEQ_CST)
#define smp_rmb() smp_mb()
#define smp_wmb() smp_mb()
#define xchg(p, v) __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST)
#define cmpxchg(p, o, n) ({ __typeof__(*(p)) ks_o = (o); __atomic_compare_exchange_n(p, &ks_o, n, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); ks_o; })

/* ---- time, work ---- */
#define HZ 100
extern unsigned long ks_jiffies;
#define jiffies ks_jiffies
struct work_struct { void (*func)(struct work_struct *); };
struct delayed_work { struct work_struct work; unsigned magic; int pending, running, canceling; unsigned long due, delay; struct delayed_work *next; };
struct workqueue_struct { int n; };
extern struct workqueue_struct ks_wq;
#define system_wq (&ks_wq)
#define system_percpu_wq (&ks_wq)
#define system_long_wq (&ks_wq)
#define system_unbound_wq (&ks_wq)
#define system_dfl_wq (&ks_wq)
#define system_freezable_wq (&ks_wq)
#define system_power_efficient_wq (&ks_wq)
#define system_freezable_power_efficient_wq (&ks_wq)
static inline struct delayed_work *to_delayed_work(struct work_struct *w) { return container_of(w, struct delayed_work, work); }
void ks_dwork_init(struct delayed_work *d, void (*f)(struct work_struct *));
#define INIT_DELAYED_WORK(d, f) ks_dwork_init(d, f)
#define INIT_DEFERRABLE_WORK(d, f) ks_dwork_init(d, f)
bool queue_delayed_work(struct workqueue_struct *q, struct delayed_work *d, unsigned long delay);
bool mod_delayed_work(struct workqueue_struct *q, struct delayed_work *d, unsigned long delay);
#define schedule_delayed_work(d, n) queue_delayed_work(&ks_wq, d, n)
bool cancel_delayed_work_sync(struct delayed_work *d);
bool cancel_delayed_work(struct delayed_work *d);
bool flush_delayed_work(struct delayed_work *d);
bool delayed_work_pending(struct delayed_work *d);
#define round_jiffies_relative(n) (n)
static inline unsigned long secs_to_jiffies_(unsigned long s) { return s * HZ; }
#define secs_to_jiffies(s) secs_to_jiffies_(s)
static inline unsigned long msecs_to_jiffies(unsigned int m) { return ((unsigned long)m * HZ + 999) / 1000; }

/* ---- printing ---- */
void ks_printk(int lvl, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
void ks_panic(const char *fmt, ...) __attribute__((noreturn, format(printf, 1, 2)));
#define panic(...) ks_panic(__VA_ARGS__)
#define pr_emerg(...) ks_printk(0, __VA_ARGS__)
#define pr_alert(...) ks_printk(1, __VA_ARGS__)
#define pr_crit(...) ks_printk(2, __VA_ARGS__)
#define pr_err(...) ks_printk(3, __VA_ARGS__)
#define pr_warn(...) ks_printk(4, __VA_ARGS__)
#define pr_notice(...) ks_printk(5, __VA_ARGS__)
#define pr_info(...) ks_printk(6, __VA_ARGS__)
#define pr_debug(...) ks_printk(7, __VA_ARGS__)
#define printk(...) ks_printk(6, __VA_ARGS__)
#define pr_err_ratelimited pr_err
#define pr_warn_ratelimited pr_warn
#define pr_notice_ratelimited pr_notice
#define pr_info_ratelimited pr_info
#define pr_err_once pr_err
#define pr_warn_once pr_warn
#define pr_info_once pr_info
#define KERN_INFO ""
#define KERN_ERR ""
#define KERN_WARNING ""
#define KERN_NOTICE ""
struct ratelimit_state { int n; };
#define DEFAULT_RATELIMIT_INTERVAL (5 * HZ)
#define DEFAULT_RATELIMIT_BURST 10
#define DEFINE_RATELIMIT_STATE(n, i, b) struct ratelimit_state n = { 0 }
int ks_ratelimit(void);
#define __ratelimit(s) ((void)(s), ks_ratelimit())
static inline int scnprintf(char *b, size_t n, const char *f, ...) { va_list a; int r; va_start(a, f); r = vsnprintf(b, n, f, a); va_end(a); return r < 0 ? 0 : (size_t)r >= n ? (n ? (int)n - 1 : 0) : r; }
#define sysfs_streq(a, b) (!strcmp(a, b))

/* ---- user memory ---- */
unsigned long copy_to_user(void *to, const void *from, unsigned long n);
unsigned long copy_from_user(void *to, const void *from, unsigned long n);
#define put_user(v, p) ({ __typeof__(*(p)) ks_v = (v); copy_to_user(p, &ks_v, sizeof(ks_v)) ? -EFAULT : 0; })
#define get_user(v, p) ({ __typeof__(*(p)) ks_v; int ks_r = copy_from_user(&ks_v, p, sizeof(ks_v)) ? -EFAULT : 0; if (!ks_r) (v) = ks_v; ks_r; })
#define u64_to_user_ptr(x) ((void *)(uintptr_t)(x))
#define access_ok(p, n) 1

/* ---- modules ---- */
struct module { int n; };
extern struct module ks_module;
#define THIS_MODULE (&ks_module)
void ks_param(const char *name, const char *type, void *p, int perm);
#define module_param(n, t, perm) static void __attribute__((constructor)) ks_param_##n(void) { ks_param(#n, #t, &n, perm); }
#define module_param_named(nm, v, t, perm) static void __attribute__((constructor)) ks_param_##nm(void) { ks_param(#nm, #t, &v, perm); }
#define MODULE_PARM_DESC(a, b)
#define MODULE_LICENSE(a)
#define MODULE_AUTHOR(a)
#define MODULE_DESCRIPTION(a)
#define MODULE_ALIAS(a)
#define MODULE_ALIAS_CRYPTO(a)
#define MODULE_VERSION(a)
#define MODULE_SOFTDEP(a)
#define EXPORT_SYMBOL(a)
#define EXPORT_SYMBOL_GPL(a)
#define module_init(f) int ks_module_init(void) { return f(); }
#define module_exit(f) void ks_module_exit(void) { f(); }
#define late_initcall(f) module_init(f)
#define subsys_initcall(f) module_init(f)

/* ---- privilege, lockdown, fips ---- */
extern int fips_enabled;
#define CAP_SYS_ADMIN 21
bool capable(int c);
enum lockdown_reason { LOCKDOWN_NONE, LOCKDOWN_DEBUGFS, LOCKDOWN_CONFIDENTIALITY_MAX };
int security_locked_down(enum lockdown_reason r);

/* ---- files ---- */
struct inode { int n; };
struct file_operations;
struct file { unsigned int f_flags; void *private_data; const struct file_operations *f_op; };
struct file_operations {
	struct module *owner;
	int (*open)(struct inode *, struct file *);
	int (*release)(struct inode *, struct file *);
	ssize_t (*read)(struct file *, char *, size_t, loff_t *);
	ssize_t (*write)(struct file *, const char *, size_t, loff_t *);
	loff_t (*llseek)(struct file *, loff_t, int);
	long (*unlocked_ioctl)(struct file *, unsigned int, unsigned long);
	long (*compat_ioctl)(struct file *, unsigned int, unsigned long);
};
long compat_ptr_ioctl(struct file *f, unsigned int cmd, unsigned long arg);
loff_t noop_llseek(struct file *f, loff_t o, int w);
loff_t no_llseek(struct file *f, loff_t o, int w);
int nonseekable_open(struct inode *i, struct file *f);
int stream_open(struct inode *i, struct file *f);
#define MISC_DYNAMIC_MINOR 255
struct miscdevice { int minor; const char *name; const struct file_operations *fops; umode_t mode; };
int misc_register(struct miscdevice *m);
void misc_deregister(struct miscdevice *m);

/* ---- procfs, debugfs ---- */
struct seq_file { char *buf; size_t len, cap; void *private; };
void seq_printf(struct seq_file *m, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
void seq_puts(struct seq_file *m, const char *s);
void seq_putc(struct seq_file *m, char c);
int seq_write(struct seq_file *m, const void *d, size_t n);
struct proc_dir_entry;
struct proc_dir_entry *proc_mkdir(const char *name, struct proc_dir_entry *parent);
struct proc_dir_entry *proc_create_single_data(const char *name, umode_t mode, struct proc_dir_entry *parent, int (*show)(struct seq_file *, void *), void *data);
#define proc_create_single(n, m, p, s) proc_create_single_data(n, m, p, s, NULL)
void proc_remove(struct proc_dir_entry *e);
void remove_proc_entry(const char *name, struct proc_dir_entry *parent);
int remove_proc_subtree(const char *name, struct proc_dir_entry *parent);
struct dentry;
struct dentry *debugfs_create_dir(const char *name, struct dentry *parent);
struct dentry *debugfs_create_file(const char *name, umode_t mode, struct dentry *parent, void *data, const struct file_operations *fops);
struct dentry *debugfs_create_file_unsafe(const char *name, umode_t mode, struct dentry *parent, void *data, const struct file_operations *fops);
void debugfs_remove_recursive(struct dentry *d);
#define debugfs_remove(d) debugfs_remove_recursive(d)
#define MAX_ERRNO 4095
static inline bool IS_ERR(const void *p) { return (unsigned long)p >= (unsigned long)-MAX_ERRNO; }
static inline bool IS_ERR_OR_NULL(const void *p) { return !p || IS_ERR(p); }
static inline long PTR_ERR(const void *p) { return (long)p; }
static inline void *ERR_PTR(long e) { return (void *)e; }
static inline int PTR_ERR_OR_ZERO(const void *p) { return IS_ERR(p) ? (int)PTR_ERR(p) : 0; }

/* ---- hw_random, crypto API ---- */
struct hwrng {
	const char *name;
	int (*init)(struct hwrng *);
	void (*cleanup)(struct hwrng *);
	int (*data_present)(struct hwrng *, int);
	int (*data_read)(struct hwrng *, u32 *);
	int (*read)(struct hwrng *, void *, size_t, bool);
	unsigned long priv;
	unsigned short quality;
};
int hwrng_register(struct hwrng *r);
void hwrng_unregister(struct hwrng *r);
struct crypto_tfm { void *ctx; };
struct crypto_rng { struct crypto_tfm base; };
static inline void *crypto_tfm_ctx(struct crypto_tfm *t) { return t->ctx; }
static inline void *crypto_rng_ctx(struct crypto_rng *t) { return t->base.ctx; }
struct crypto_alg {
	const char *cra_name, *cra_driver_name; int cra_priority; unsigned int cra_ctxsize; struct module *cra_module; u32 cra_flags;
	int (*cra_init)(struct crypto_tfm *); void (*cra_exit)(struct crypto_tfm *);
};
struct rng_alg {
	int (*generate)(struct crypto_rng *, const u8 *, unsigned int, u8 *, unsigned int);
	int (*seed)(struct crypto_rng *, const u8 *, unsigned int);
	void (*set_ent)(struct crypto_rng *, const u8 *, unsigned int);
	unsigned int seedsize;
	struct crypto_alg base;
};
int crypto_register_rng(struct rng_alg *a);
void crypto_unregister_rng(struct rng_alg *a);
void get_random_bytes(void *p, size_t n);
static inline int num_online_cpus(void) { return 4; }
/* ---- further interfaces a rewrite of the module may use ---- */
#define atomic_fetch_add(i, v) (ks_point(), __atomic_fetch_add(&(v)->counter, i, __ATOMIC_SEQ_CST))
#define atomic_fetch_inc(v) atomic_fetch_add(1, v)
#define atomic_cmpxchg(v, o, n) (ks_point(), cmpxchg(&(v)->counter, o, n))
#define atomic_xchg(v, n) (ks_point(), xchg(&(v)->counter, n))
#define atomic_add_return(i, v) (ks_point(), __atomic_add_fetch(&(v)->counter, i, __ATOMIC_SEQ_CST))
#define atomic_sub_return(i, v) (ks_point(), __atomic_sub_fetch(&(v)->counter, i, __ATOMIC_SEQ_CST))
#define atomic_inc_and_test(v) (atomic_inc_return(v) == 0)
#define atomic64_sub(i, v) atomic_sub(i, v)
#define atomic64_dec_return(v) atomic_dec_return(v)
#define atomic64_add_return(i, v) atomic_add_return(i, v)
#define atomic64_fetch_add(i, v) atomic_fetch_add(i, v)
#define atomic64_cmpxchg(v, o, n) atomic_cmpxchg(v, o, n)
typedef struct { long counter; } atomic_long_t;
#define ATOMIC_LONG_INIT(i) { (i) }
#define atomic_long_read(v) atomic_read(v)
#define atomic_long_inc(v) atomic_inc(v)
#define atomic_long_dec(v) atomic_dec(v)
#define atomic_long_set(v, i) atomic_set(v, i)
#define kmemdup(p, n, g) ({ void *ks_d = ks_alloc(n, 0); if (ks_d) memcpy(ks_d, p, n); ks_d; })
#define kstrdup(p, g) ((char *)kmemdup(p, strlen(p) + 1, g))
#define struct_size(p, m, n) (sizeof(*(p)) + sizeof((p)->m[0]) * (n))
#define array_size(a, b) ((size_t)(a) * (b))
#define sizeof_field(t, m) sizeof(((t *)0)->m)
#define swap(a, b) do { __typeof__(a) ks_t = (a); (a) = (b); (b) = ks_t; } while (0)
#define round_up(x, y) ((((x) - 1) | ((__typeof__(x))((y) - 1))) + 1)
#define round_down(x, y) ((x) & ~((__typeof__(x))((y) - 1)))
#define roundup(x, y) ((((x) + (y) - 1) / (y)) * (y))
#define rounddown(x, y) ((x) - (x) % (y))
#define DIV_ROUND_UP(n, d) (((n) + (d) - 1) / (d))
#define IS_ALIGNED(x, a) (((x) & ((__typeof__(x))(a) - 1)) == 0)
#define min3(a, b, c) min(min(a, b), c)
#define BIT(n) (1UL << (n))
#define BIT_ULL(n) (1ULL << (n))
#define U32_MAX ((u32)~0U)
#define U64_MAX ((u64)~0ULL)
#define might_sleep() do { } while (0)
#define lockdep_assert_not_held(m) ((void)(m))
#define WARN(c, ...) (!!(c))
#define WARN_ONCE(c, ...) (!!(c))
#define BUG() panic("BUG")
#define pr_cont(...) ks_printk(6, __VA_ARGS__)
#define pr_notice_once pr_notice
#define pr_debug_ratelimited pr_debug
#define mutex_lock_nested(m, c) mutex_lock(m)
#define mutex_lock_interruptible_nested(m, c) mutex_lock_interruptible(m)
static inline void ks_mutex_scope(struct mutex **m) { if (*m) mutex_unlock(*m); }
#define ks_guard_mutex(n) struct mutex *n __attribute__((cleanup(ks_mutex_scope)))
#define KS_CAT_(a, b) a##b
#define KS_CAT(a, b) KS_CAT_(a, b)
static inline struct mutex *ks_mutex_take(struct mutex *m) { mutex_lock(m); return m; }
#define guard(k) struct mutex *KS_CAT(ks_g, __LINE__) __attribute__((cleanup(ks_mutex_scope))) = ks_mutex_take
#define scoped_guard(k, m) for (struct mutex *ks_s __attribute__((cleanup(ks_mutex_scope))) = ks_mutex_take(m), *ks_once = ks_s; ks_once; ks_once = NULL)
static inline void ks_free_scope(void *p) { void *v = *(void **)p; if (!IS_ERR_OR_NULL(v)) ks_free(v, 0, 0); }
#define __free(f) __attribute__((cleanup(ks_free_scope)))
#define no_free_ptr(p) ({ __typeof__(p) ks_p = (p); (p) = NULL; ks_p; })
#define return_ptr(p) return no_free_ptr(p)
static inline int sysfs_emit(char *b, const char *f, ...) { va_list a; int r; va_start(a, f); r = vsnprintf(b, 4096, f, a); va_end(a); return r < 0 ? 0 : r > 4095 ? 4095 : r; }
#define strscpy(d, s, ...) ({ size_t ks_n = sizeof(d); const char *ks_c = (s); size_t ks_l = strlen(ks_c); if (ks_l >= ks_n) ks_l = ks_n - 1; memcpy(d, ks_c, ks_l); (d)[ks_l] = 0; (ssize_t)ks_l; })
static inline void *memchr_inv(const void *p, int c, size_t n) { const unsigned char *b = p; for (; n; n--, b++) if (*b != (unsigned char)c) return (void *)b; return NULL; }
static inline unsigned long clear_user(void *to, unsigned long n) { static const char z[64]; unsigned long o; for (o = 0; o < n; o += 64) { unsigned long k = n - o < 64 ? n - o : 64, l = copy_to_user((char *)to + o, z, k); if (l) return n - o - k + l; } return 0; }
#define __copy_to_user copy_to_user
#define __copy_from_user copy_from_user
static inline ssize_t simple_read_from_buffer(void *to, size_t count, loff_t *pos, const void *from, size_t avail)
{
	loff_t p = *pos; unsigned long l;
	if (p < 0) return -EINVAL;
	if ((size_t)p >= avail || !count) return 0;
	if (count > avail - (size_t)p) count = avail - (size_t)p;
	l = copy_to_user(to, (const char *)from + p, count);
	if (l == count) return -EFAULT;
	*pos = p + (loff_t)(count - l);
	return (ssize_t)(count - l);
}
static inline void set_bit(long n, volatile unsigned long *a) { ks_point(); __atomic_or_fetch(a + n / 64, 1UL << (n % 64), __ATOMIC_SEQ_CST); }
static inline void clear_bit(long n, volatile unsigned long *a) { ks_point(); __atomic_and_fetch(a + n / 64, ~(1UL << (n % 64)), __ATOMIC_SEQ_CST); }
static inline int test_bit(long n, const volatile unsigned long *a) { ks_point(); return (a[n / 64] >> (n % 64)) & 1; }
static inline int test_and_set_bit(long n, volatile unsigned long *a) { ks_point(); return (__atomic_fetch_or(a + n / 64, 1UL << (n % 64), __ATOMIC_SEQ_CST) >> (n % 64)) & 1; }
static inline int test_and_clear_bit(long n, volatile unsigned long *a) { ks_point(); return (__atomic_fetch_and(a + n / 64, ~(1UL << (n % 64)), __ATOMIC_SEQ_CST) >> (n % 64)) & 1; }
#define DECLARE_BITMAP(n, b) unsigned long n[((b) + 63) / 64]
typedef struct mutex spinlock_t;
#define DEFINE_SPINLOCK(n) DEFINE_MUTEX(n)
#define spin_lock_init(l) mutex_init(l)
#define spin_lock(l) mutex_lock(l)
#define spin_unlock(l) mutex_unlock(l)
#define spin_lock_irqsave(l, f) do { (f) = 0; mutex_lock(l); } while (0)
#define spin_unlock_irqrestore(l, f) do { (void)(f); mutex_unlock(l); } while (0)
#define spin_lock_irq(l) mutex_lock(l)
#define spin_unlock_irq(l) mutex_unlock(l)
#define disable_delayed_work_sync(d) cancel_delayed_work_sync(d)
static inline int kstrtouint(const char *s, unsigned b, unsigned *r) { char *e; unsigned long v; errno = 0; v = strtoul(s, &e, (int)b); if (errno || e == s || v > UINT_MAX) return -EINVAL; *r = (unsigned)v; return 0; }
#ifdef KPROBE
/* ---- processors and their cache registers (h_probe) ---- */
struct cpuinfo_x86 { int cpuid_level; unsigned extended_cpuid_level; int x86_vendor; };
extern struct cpuinfo_x86 boot_cpu_data;
void ks_cpuid(unsigned leaf, unsigned sub, unsigned *a, unsigned *b, unsigned *c, unsigned *d);
#define cpuid_count(l, s, a, b, c, d) ks_cpuid(l, s, a, b, c, d)
void ks_cpus_lock(int on);
#define cpus_read_lock() ks_cpus_lock(1)
#define cpus_read_unlock() ks_cpus_lock(0)
#define get_online_cpus() ks_cpus_lock(1)
#define put_online_cpus() ks_cpus_lock(0)
int ks_next_online(int c);
#define for_each_online_cpu(c) for ((c) = ks_next_online(-1); (c) >= 0; (c) = ks_next_online(c))
#define for_each_cpu(c, m) for_each_online_cpu(c)
#define cpu_online_mask NULL
#define nr_cpu_ids 64
int cpu_online(int c);
int smp_call_function_single(int cpu, void (*f)(void *), void *a, int wait);
#define smp_call_function_single_async(...) smp_call_function_single(__VA_ARGS__)
void on_each_cpu(void (*f)(void *), void *a, int wait);
u64 ks_sysreg_read(const char *n);
void ks_sysreg_write(const char *n, u64 v);
void ks_isb(void);
#define read_sysreg(r) ks_sysreg_read(#r)
#define read_sysreg_s(r) ks_sysreg_read(#r)
#define write_sysreg(v, r) ks_sysreg_write(#r, v)
#define isb() ks_isb()
#endif
#endif
