#include "adapter_impl.h"
static CfgT<bignum_base10, bn_limits_base10> cfg("base10", 10ull, false);
