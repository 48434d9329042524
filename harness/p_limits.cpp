// The limits the library reports for its own digit types.
#include <string>
#include <sstream>
#include "bignum/bignum.h"
#define EACH_TYPE(X) \
    X(BN_UINT8, 0xffull) X(BN_UINT16, 0xffffull) X(BN_UINT32, 0xffffffffull) X(BN_UINT64, ~0ull) \
    X(bn_base2_single, 1ull) X(bn_base8_single, 7ull) X(bn_base10_single, 9ull) X(bn_base16_single, 15ull) \
    X(bn_base2_double, 3ull) X(bn_base8_double, 63ull) X(bn_base10_double, 99ull) X(bn_base16_double, 255ull)
#define EACH_LIMITS(X) X(bn_limits_lowp) X(bn_limits_medp) X(bn_limits_highp) X(bn_limits_base2) X(bn_limits_base8) X(bn_limits_base10) X(bn_limits_base16)
std::string limitsProblem() {
    std::ostringstream o;
    #define CHECK(what, got, want) { const unsigned long long got_ = (unsigned long long)(got), want_ = (unsigned long long)(want); if (got_ != want_) o << what << " is " << got_ << ", expected " << want_ << "; "; }
    // at compile time and at run time
    #define X(t, m) { constexpr bn_u64_t lo = bn_min_limit<t>(), hi = bn_max_limit<t>(); CHECK("bn_min_limit<" #t "> (constant)", lo, 0) CHECK("bn_max_limit<" #t "> (constant)", hi, m) \
        bn_u64_t (*volatile f)() = &bn_min_limit<t>; bn_u64_t (*volatile g)() = &bn_max_limit<t>; CHECK("bn_min_limit<" #t ">", f(), 0) CHECK("bn_max_limit<" #t ">", g(), m) \
        const t d = (t)hi; CHECK("a " #t " of the largest value", d, m) }
    EACH_TYPE(X)
    #undef X
    #define X(l) CHECK(#l "::SINGLE_BASE_MIN", l::SINGLE_BASE_MIN, 0) CHECK(#l "::DOUBLE_BASE_MIN", l::DOUBLE_BASE_MIN, 0) \
        CHECK(#l "::SINGLE_BASE_MAX", l::SINGLE_BASE_MAX, bn_max_limit<l::base_single>()) CHECK(#l "::DOUBLE_BASE_MAX", l::DOUBLE_BASE_MAX, bn_max_limit<l::base_double>())
    EACH_LIMITS(X)
    #undef X
    return o.str();
}
