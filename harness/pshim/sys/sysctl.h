#include "probe.h"
#define sysctlbyname pr_sysctl
