#include "adapter_impl.h"
static CfgT<bignum_base2, bn_limits_base2> cfg("base2", 2ull, false);
