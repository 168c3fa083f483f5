/* stand-ins of the counters other platforms offer */
#ifndef STAMP_H
#define STAMP_H
#include <stddef.h>
#include <stdint.h>
uint64_t st_timebase(void);
#define __builtin_ppc_get_timebase() st_timebase()
uint64_t mach_absolute_time(void);
uint64_t mach_continuous_time(void);
uint64_t mach_approximate_time(void);
typedef union { struct { uint32_t LowPart; int32_t HighPart; }; struct { uint32_t LowPart; int32_t HighPart; } u; int64_t QuadPart; } LARGE_INTEGER;
int QueryPerformanceCounter(LARGE_INTEGER *t);
int QueryPerformanceFrequency(LARGE_INTEGER *t);
uint32_t GetTickCount(void);
uint64_t GetTickCount64(void);
typedef struct { int flag; unsigned int tb_high, tb_low; } timebasestruct_t;
#define TIMEBASE_SZ sizeof(timebasestruct_t)
#define RTC_POWER 1
int read_real_time(timebasestruct_t *t, size_t n);
int time_base_to_time(timebasestruct_t *t, size_t n);
unsigned long random_get_entropy(void);
uint64_t ktime_get_ns(void);
uint64_t ktime_get_raw_ns(void);
uint64_t ktime_get_real_ns(void);
uint64_t ktime_get_boottime_ns(void);
uint64_t ktime_get_mono_fast_ns(void);
uint64_t ktime_get_coarse_ns(void);
#endif
