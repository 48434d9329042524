#include "adapter_impl.h"
static CfgT<bignum_highp, bn_limits_highp> cfg("highp", 4294967296ull, false);
