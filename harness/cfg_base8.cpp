#include "adapter_impl.h"
static CfgT<bignum_base8, bn_limits_base8> cfg("base8", 8ull, false);
