#include "probe.h"
#define __get_cpuid_count pr_cpuid
