#include "adapter_impl.h"
static CfgT<bignum_lowp, bn_limits_lowp> cfg("lowp", 256ull, false);
