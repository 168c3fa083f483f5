#include_next <linux/types.h>
#ifndef KSHIM_TYPES
#define KSHIM_TYPES
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <sys/types.h>
typedef __u8 u8; typedef __u16 u16; typedef __u32 u32; typedef __u64 u64;
typedef __s8 s8; typedef __s16 s16; typedef __s32 s32; typedef __s64 s64;
typedef unsigned short umode_t;
#endif
