// Extended reals: the reference for NaN, infinities and division by zero.
#ifndef EXT_H
#define EXT_H
#include "ops.h"
namespace {
// Extended value: finite (with value), NaN, +INF, -INF, or "some non-finite"
struct Ext { enum K { FIN, NAN_, PINF, NINF, NONFIN, ANYINF } k; Int v; };
inline Ext ext(Ext::K k) { return Ext{k, 0}; }
Ext fin(const Int& v) { return Ext{Ext::FIN, v}; }
int sgn(const Ext& e) { return e.k == Ext::PINF ? 1 : e.k == Ext::NINF ? -1 : e.v < 0 ? -1 : e.v > 0 ? 1 : 0; }
bool inf(const Ext& e) { return e.k == Ext::PINF || e.k == Ext::NINF; }
Ext signedInf(int s) { return ext(s < 0 ? Ext::NINF : Ext::PINF); }
Ext ref(char op, const Ext& a, const Ext& b, bool negZeroDivisor) {
    if (a.k == Ext::NAN_ || b.k == Ext::NAN_) return ext(Ext::NAN_);
    if (op == '-') { Ext n = b; if (inf(b)) n = signedInf(-sgn(b)); else n.v = -b.v; return ref('+', a, n, false); }
    if (op == '+') {
        if (inf(a) && inf(b)) return a.k == b.k ? a : ext(Ext::NAN_);
        if (inf(a)) return a;
        if (inf(b)) return b;
        return fin(a.v + b.v);
    }
    if (op == '*') {
        if (inf(a) || inf(b)) return sgn(a) == 0 || sgn(b) == 0 ? ext(Ext::NAN_) : signedInf(sgn(a) * sgn(b));
        return fin(a.v * b.v);
    }
    if (inf(a) && inf(b)) return ext(Ext::NAN_);
    if (inf(b)) return fin(0);
    if (b.v == 0) {
        if (inf(a)) return ext(negZeroDivisor ? Ext::ANYINF : a.k);
        if (a.v == 0) return ext(Ext::NONFIN);
        return negZeroDivisor ? ext(Ext::ANYINF) : signedInf(sgn(a));
    }
    if (inf(a)) return signedInf(sgn(a) * sgn(b));
    return fin(a.v / b.v);
}
std::string showExt(const Ext& e, u64 base) {
    switch (e.k) { case Ext::FIN: return showInt(e.v, base); case Ext::NAN_: return "NaN"; case Ext::PINF: return "+INF"; case Ext::NINF: return "-INF"; case Ext::ANYINF: return "an infinity"; default: return "NaN or an infinity"; }
}
bool matches(const Cfg& cfg, const Num& n, const Ext& e) {
    const Desc d = cfg.desc(n);
    if (!finite(d) && cfg.size(n) != 0) return false;   // non-finite numbers carry no digits
    switch (e.k) {
        case Ext::FIN: { if (!finite(d)) return false; Int v = valueOf(cfg.digits(n), cfg.base); if (d == D_NEG) v = -v; return v == e.v; }
        case Ext::NAN_: return d == D_NAN;
        case Ext::PINF: return d == D_PINF;
        case Ext::NINF: return d == D_NINF;
        case Ext::ANYINF: return d == D_PINF || d == D_NINF;
        default: return d == D_NAN || d == D_PINF || d == D_NINF;
    }
}
Ext actual(const Cfg& cfg, const Num& n) {
    switch (cfg.desc(n)) {
        case D_NAN: return ext(Ext::NAN_); case D_PINF: return ext(Ext::PINF); case D_NINF: return ext(Ext::NINF);
        default: return fin(libValue(cfg, n, "value"));
    }
}
void flags(const Cfg& cfg, const Num& n) {
    const Desc d = cfg.desc(n);
    const bool pos = d == D_POS || d == D_PINF, neg = d == D_NEG || d == D_NINF, in = d == D_PINF || d == D_NINF, nan = d == D_NAN;
    if (cfg.isPositive(n) != pos || cfg.isNegative(n) != neg || cfg.isInfinite(n) != in || cfg.isNan(n) != nan || cfg.isComputable(d) != finite(d))
        PBT_FAIL(cfg.name << ": predicates disagree with the descriptor of " << show(cfg, n));
}
// the order of two extended values, where at least one is not finite
void order(const Cfg& cfg, const Num& x, const Ext& a, const Num& y, const Ext& b) {
    auto want = [&](Cmp op, bool w, const char* name) { if (cfg.cmp(x, op, y) != w) PBT_FAIL(cfg.name << ": " << show(cfg, x) << " " << name << " " << show(cfg, y) << " gave " << !w); };
    if (a.k == Ext::NAN_ || b.k == Ext::NAN_) { want(C_LT, false, "<"); want(C_GT, false, ">"); if (a.k != b.k) { want(C_EQ, false, "=="); want(C_NE, true, "!="); } return; }
    if (!inf(a) && !inf(b)) return;
    if (a.k == b.k) { want(C_LT, false, "<"); want(C_GT, false, ">"); return; }
    const bool lt = a.k == Ext::NINF || b.k == Ext::PINF;
    want(C_LT, lt, "<"); want(C_GT, !lt, ">"); want(C_LE, lt, "<="); want(C_GE, !lt, ">="); want(C_EQ, false, "=="); want(C_NE, true, "!=");
}
}
#endif
