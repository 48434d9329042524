#include "adapter_impl.h"
static CfgT<bignum_medp, bn_limits_medp> cfg("medp", 65536ull, false);
