#include "probe.h"
#define _system_configuration pr_aix
