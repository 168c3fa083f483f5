#include "cshim.h"
#define EVP_default_properties_is_fips_enabled(c) be_fips()
