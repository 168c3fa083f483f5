import sys; sys.path.insert(0,'/tmp/seed')
from mk import seed
CD='linux_kernel/jitterentropy_chardev.c'; HW='linux_kernel/jitterentropy_hwrng.c'; ST='linux_kernel/jitterentropy_selftest.c'; TS='linux_kernel/jitterentropy_testing.c'; KC='linux_kernel/jitterentropy_kcapi.c'; MD='linux_kernel/jitterentropy_mod.c'; ER='linux_kernel/jitterentropy_error.h'; IO='linux_kernel/jitterentropy_ioctl.c'
H='#include "kdemo.h"\nstatic struct file f; static loff_t pos;\n'
# C20: collector pointer taken before the lock
seed('k-field-stale-instance','C20',[(CD,'''	struct jent_ioctl_field field;
	int ret;

	if (mutex_lock_interruptible(&ctx->lock))
		return -ERESTARTSYS;
	ret = jent_ioctl_field_get(ctx->entropy_collector, cmd, &field);''','''	struct rand_data *ec = ctx->entropy_collector;
	struct jent_ioctl_field field;
	int ret;

	if (mutex_lock_interruptible(&ctx->lock))
		return -ERESTARTSYS;
	ret = jent_ioctl_field_get(ec, cmd, &field);''')],
H+'''
static ssize_t realloc_read(struct rand_data **ec, char *d, size_t n) { struct rand_data *o = *ec; *ec = newec(o->osr + 1, o->flags); (*ec)->reinit_count = 1; jent_entropy_collector_free(o); on_read = NULL; return 1000000; }
static void other_reader(struct mutex *m) { char b[8]; CHECK(misc->fops->read(&f, b, 8, &pos) == 8, "other read"); }
int main(void)
{
	uint32_t v = 77;
	set("osr", 5);
	CHECK(!ks_module_init(), "load"); CHECK(!misc->fops->open(NULL, &f), "open");
	on_read = realloc_read; on_lock = other_reader;
	CHECK(!misc->fops->unlocked_ioctl(&f, JENT_IOCREINIT, (unsigned long)&v), "ioctl");
	CHECK(v == 1, "re-initialisations %u", v);
	return 0;
}
''',"another task's read makes the library replace the instance (health recovery) between the entry of a single-field ioctl and its taking the instance lock","the ioctl then reads the freed instance",kern=True)
# C20: required length
seed('k-status-exact-length','C20',[(CD,'''	slen = strlen(buf) + 1;

	if (status.length < slen) {''','''	slen = strlen(buf) + 1;

	if (status.length < slen - 1) {''')],
H+'''
int main(void)
{
	struct jent_status_ioctl s; char b[64]; size_t n = strlen(status_doc); long r;
	CHECK(!ks_module_init(), "load"); CHECK(!misc->fops->open(NULL, &f), "open");
	memset(b, 0x33, sizeof(b)); s.buf = (uintptr_t)b; s.length = n;
	r = misc->fops->unlocked_ioctl(&f, JENT_IOCSTATUS, (unsigned long)&s);
	CHECK(r == -EOVERFLOW && s.length == n + 1 && b[n] == 0x33, "status with %zu bytes: %ld, length %u", n, r, s.length);
	s.length = n + 1;
	CHECK(!misc->fops->unlocked_ioctl(&f, JENT_IOCSTATUS, (unsigned long)&s) && !strcmp(b, status_doc), "status");
	return 0;
}
''',"a status buffer exactly as long as the text without its terminator","one byte is written past the caller's buffer and success is reported",kern=True)
# C20: count lost after partial delivery
seed('k-read-late-fault','C20',[(CD,'''		if (copy_to_user(buf, tmp, rc)) {
			if (ret == 0)
				ret = -EFAULT;
			break;
		}

		nbytes -= rc;
		buf += rc;
		ret += rc;
''','''		nbytes -= rc;
		ret += rc;

		if (copy_to_user(buf, tmp, rc)) {
			if (ret == rc)
				ret = -EFAULT;
			break;
		}
		buf += rc;
''')],
H+'''
int main(void)
{
	char b[200]; ssize_t r;
	CHECK(!ks_module_init(), "load"); CHECK(!misc->fops->open(NULL, &f), "open");
	memset(b, 0, sizeof(b)); fault_at = b + 64;
	r = misc->fops->read(&f, b, 160, &pos);
	CHECK(r == 64, "64 bytes were delivered, read returns %zd", r);
	fault_at = b; CHECK(misc->fops->read(&f, b, 160, &pos) == -EFAULT, "fault");
	return 0;
}
''',"the user buffer becomes inaccessible after the first internal chunk of a read","read counts a chunk that never reached the caller",kern=True)
# C21: hwrng nowait race
seed('k-hwrng-nowait-sleeps','C21',[(HW,'''		if (!mutex_trylock(&ctx->lock))
			return 0;
	} else if (mutex_lock_interruptible(&ctx->lock)) {
		return -ERESTARTSYS;
	}''','''		if (mutex_is_locked(&ctx->lock))
			return 0;
	}
	if (mutex_lock_interruptible(&ctx->lock))
		return -ERESTARTSYS;''')],
H+'''
static void taken(struct mutex *m) { m->owner = 2; }
int main(void)
{
	char b[32]; int r;
	CHECK(!ks_module_init(), "load");
	on_lock = taken;
	r = hw->read(hw, b, 32, false);
	CHECK(!would_sleep && r == 0, "a caller that must not wait sleeps on the instance");
	return 0;
}
''',"a waiting reader takes the instance between the check and the lock of a non-waiting hw_random read","the non-waiting caller sleeps for the other's generation",kern=True)
# C21: mapping
seed('k-selftest-error-no-panic','C21',[(ER,'''	case JENT_ERR_RCT_MEM_PERMANENT:
	case JENT_ERR_SELFTEST:
		/* Permanent''','''	case JENT_ERR_RCT_MEM_PERMANENT:
		/* Permanent'''),(ER,'''	default:
		/* Unexpected errors */''','''	case JENT_ERR_SELFTEST:
	default:
		/* Unexpected errors */''')],
H+'''
static ssize_t fail(struct rand_data **ec, char *d, size_t n) { return JENT_ERR_SELFTEST; }
int main(void)
{
	char b[32]; int r = 0;
	CHECK(!ks_module_init(), "load");
	fips_enabled = 1; on_read = fail;
	if (!setjmp(panic_jmp)) r = hw->read(hw, b, 32, true);
	CHECK(panics == 1, "no panic in FIPS mode, read returns %d", r);
	return 0;
}
''',"FIPS kernel and an instance whose bound self test failed without the panic of that run (e.g. failed inside the library)","the kernel goes on instead of panicking",kern=True)
# C22: on-demand failure forgotten
seed('k-ondemand-failure-forgotten','C22',[(ST,'''		ret = jent_selftest_execute(*st->entropy_collector);
		if (ret)
			st->failed = true;
	}
''','''		ret = jent_selftest_execute(*st->entropy_collector);
		if (ret)
			cancel_delayed_work(&st->work);
	}
''')],
H+'''
int main(void)
{
	long r; int n;
	set("selftest_interval", 10);
	CHECK(!ks_module_init(), "load"); CHECK(!misc->fops->open(NULL, &f), "open");
	selftest_ret = -1;
	r = misc->fops->unlocked_ioctl(&f, JENT_IOCSELFTEST, 0); CHECK(r == -EFAULT, "verdict %ld", r);
	n = selftests; selftest_ret = 0;
	r = misc->fops->unlocked_ioctl(&f, JENT_IOCSELFTEST, 0);
	CHECK(r == -EFAULT && selftests == n, "a failed instance was tested again: %ld", r);
	return 0;
}
''',"an on-demand self test fails and another is requested","the failed instance is tested again and its verdict reported as passed",kern=True)
# C22: async cancel
seed('k-cancel-not-sync','C22',[(ST,'''	cancel_delayed_work_sync(&st->work);''','''	if (delayed_work_pending(&st->work))
		cancel_delayed_work_sync(&st->work);''')],
H+'''
static struct file g; static struct rand_data *mine;
static void waits(void) { exit(0); }
static void closing(struct rand_data *ec) { if (ec != mine) return; on_selftest = NULL; on_sync = waits; misc->fops->release(NULL, &g); CHECK(0, "close does not wait for the self test in progress"); }
int main(void)
{
	set("selftest_interval", 10);
	CHECK(!ks_module_init(), "load"); CHECK(!misc->fops->open(NULL, &g), "open");
	mine = last_ec; on_selftest = closing;
	advance(10);
	CHECK(0, "no periodic run");
}
''',"a file is closed while the periodic self test of its instance is running","close frees the instance and its lock under the running test",kern=True)
# C23: unwinding of hwrng
seed('k-hwrng-unwind-work','C23',[(HW,'''		jent_selftest_instance_exit(&jent_hwrng_ctx.selftest);
		jent_entropy_collector_free(jent_hwrng_ctx.entropy_collector);
		jent_hwrng_ctx.entropy_collector = NULL;
		mutex_destroy(&jent_hwrng_ctx.lock);
		return ret;''','''		jent_entropy_collector_free(jent_hwrng_ctx.entropy_collector);
		jent_hwrng_ctx.entropy_collector = NULL;
		mutex_destroy(&jent_hwrng_ctx.lock);
		return ret;''')],
H+'''
int main(void)
{
	int r;
	set("selftest_interval", 10); fail_hw = -EBUSY;
	r = ks_module_init();
	CHECK(r == -EBUSY, "load returns %d", r);
	CHECK(!nwq, "a self test stays queued after the failed load");
	CHECK(!ncoll && !alg && !misc && !live_n && !proc("jitterentropy"), "something left");
	return 0;
}
''',"a self-test interval is set and registration with hw_random fails","the timer of the freed instance stays queued after the module load was undone",kern=True)
# C23: order of registration
seed('k-chardev-before-raw','C23',[(MD,'''	ret = jent_testing_init();
	if (ret)
		goto err_hwrng;
''','''	ret = jent_chardev_init();
	if (ret)
		goto err_hwrng;
'''),(MD,'''	ret = jent_chardev_init();
	if (ret)
		goto err_testing;

	return 0;

err_testing:
	jent_testing_exit();
''','''	ret = jent_testing_init();
	if (ret)
		goto err_chardev;

	return 0;

err_chardev:
	jent_chardev_exit();
''')],
H+'''
static void udev(void) { CHECK(!misc->fops->open(NULL, &f), "open"); }
int main(void)
{
	int r;
	on_misc = udev; fail_dbg = 2;
	r = ks_module_init();
	CHECK(r < 0, "load succeeds");
	CHECK(!ncoll && !live_n, "an open file of the device outlives the failed load");
	return 0;
}
''',"creation of the raw noise file fails while the device has already been opened","the module is undone under an open file",kern=True)
# C24: priming
seed('k-raw-prime-once','C24',[(TS,'''		if (measure_jitter == jent_measure_jitter)
			jent''','''		if (measure_jitter == jent_measure_jitter && !ret)
			jent''')],
H+'''
static void gap(void) { primed = 0; }
int main(void)
{
	static uint64_t b[1500]; ssize_t r; int i; const struct file_operations *o;
	CHECK(!ks_module_init(), "load"); o = rawf(); CHECK(o && !o->open(NULL, &f), "open");
	on_copy = gap;
	r = o->read(&f, (char *)b, sizeof(b), &pos); CHECK(r == sizeof(b), "read %zd", r);
	for (i = 0; i < 1500; i++) CHECK(b[i] == (uint64_t)i + 1, "sample %d spans the copy to the caller", i);
	return 0;
}
''',"a raw read of more than 1000 samples","the first sample of every later round contains the time of the copy to user space",kern=True)
# C24: flags read twice
seed('k-raw-flags-twice','C24',[(TS,'''	if (flags & (JENT_TEST_HASHLOOP))
		ctx->measure_jitter''','''	if (testing_flags & (JENT_TEST_HASHLOOP))
		ctx->measure_jitter'''),(TS,'''	/*
	 * Snapshot the runtime-writable module parameters once: a concurrent
	 * sysfs write between separate reads could otherwise pair a
	 * measurement routine with a collector allocated from different
	 * flags.
	 */
	flags = testing_flags;
	osr = testing_osr;
''',''),(TS,'''	ctx = kvzalloc(sizeof(*ctx), GFP_KERNEL);
	if (!ctx)
		return -ENOMEM;

	/* Serialize the''','''	/* Take the runtime-writable module parameters. */
	flags = testing_flags;
	osr = testing_osr;

	ctx = kvzalloc(sizeof(*ctx), GFP_KERNEL);
	if (!ctx)
		return -ENOMEM;

	/* Serialize the''')],
H+'''
static void sysfs(struct mutex *m) { set("testing_flags", 0); }
int main(void)
{
	uint64_t b[4]; ssize_t r; const struct file_operations *o;
	CHECK(!ks_module_init(), "load"); o = rawf(); set("testing_flags", 1 << 15);
	on_lock = sysfs;
	CHECK(o && !o->open(NULL, &f), "open");
	r = o->read(&f, (char *)b, 32, &pos); CHECK(r == 32, "read %zd", r);
	CHECK(kind == (al_flags & (1 << 15) ? 1 : 0), "instance with flags %#x measured with routine %d", al_flags, kind);
	return 0;
}
''',"testing_flags is changed through sysfs while an open of the raw noise file waits for the session lock","the recording routine disagrees with the configuration of the instance",kern=True)
