#include "adapter_impl.h"
static CfgT<bignum_base16, bn_limits_base16> cfg("base16", 16ull, false);
