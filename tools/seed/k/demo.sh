#!/bin/bash
# compiles the module sources of the current tree against stand-in kernel headers and runs demo.c
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/inc/linux/sched"
cat > "$t/inc/linux/types.h" <<'X'
#include_next <linux/types.h>
#ifndef KSHIM_TYPES
#define KSHIM_TYPES
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <sys/types.h>
typedef __u8 u8; typedef __u16 u16; typedef __u32 u32; typedef __u64 u64;
typedef __s8 s8; typedef __s16 s16; typedef __s32 s32; typedef __s64 s64;
typedef unsigned short umode_t;
#endif
X
cat > "$t/inc/linux/errno.h" <<'X'
#include_next <linux/errno.h>
#ifndef ERESTARTSYS
#define ERESTARTSYS 512
#endif
X
cat > "$t/inc/linux/limits.h" <<'X'
#include_next <linux/limits.h>
#include <stdint.h>
#include <limits.h>
X
for h in $(grep -rhoE '#[ ]*include <(linux|crypto|asm|vdso|uapi)/[a-z0-9_/-]+\.h>' linux_kernel src arch *.h | sed 's/.*<//; s/>//' | sort -u); do
	case $h in linux/types.h|linux/errno.h|linux/limits.h|linux/ioctl.h|linux/version.h) continue;; esac
	mkdir -p "$t/inc/$(dirname $h)"; echo '#include "kshim.h"' > "$t/inc/$h"
done
gcc -O1 -g -w -fsanitize=address -D_GNU_SOURCE -DLINUX_KERNEL '-DKBUILD_MODNAME="jitter_rng"' -DCONFIG_PROC_FS -DCONFIG_DEBUG_FS -DCONFIG_EXTERNAL_JITTERENTROPY_TESTINTERFACE \
    -DCONFIG_EXTERNAL_JITTERENTROPY_KCAPI -DCONFIG_EXTERNAL_JITTERENTROPY_CHARDEV -DCONFIG_EXTERNAL_JITTERENTROPY_HWRNG \
    -I"$t/inc" -I"$d" -I"$PWD/linux_kernel" -I"$PWD" -I"$PWD/src" "$d/demo.c" linux_kernel/*.c -o "$t/demo" || exit 3
cd "$t" && ASAN_OPTIONS=detect_leaks=0 timeout 120 ./demo
