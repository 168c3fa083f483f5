/* make the timer source believe it is built for a processor without a counter
 * instruction of its own; the headers it may want come first */
#ifdef LINUX_KERNEL
#include "kshim.h"
#endif
#include <errno.h>
#include <fcntl.h>
#include <inttypes.h>
#include <limits.h>
#include <stdbool.h>
#include <stdatomic.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <unistd.h>
#include <pthread.h>
#include <sched.h>
#include "stamp.h"
#undef __x86_64__
#undef __x86_64
#undef __amd64__
#undef __amd64
#undef __i386__
#undef __i386
#ifdef S_XLC
#undef __GNUC__
#undef __clang__
#endif
#if defined(S_PPC) || defined(S_AIX)
#define __powerpc__ 1
#endif
#if defined(S_AIX) || defined(S_XLC)
#define _AIX 1
#endif
#ifdef S_MACH
#define __MACH__ 1
#endif
#ifdef S_QPC
#define __MINGW32__ 1
#define _M_ARM64 1
#define _SSIZE_T_DEFINED
#endif
