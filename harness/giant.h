// Cases with tens of thousands of digits, around the limits of 16-bit counts.
// References are digit-level or modular, so that they stay linear.
#ifndef GIANT_H
#define GIANT_H
#include "ops.h"

// True in about one of `rate` cases (never under the byte-driven fuzzer)
inline bool isGiant(Ctx& c, unsigned rate) {
    if (c.mode == Ctx::BYTES) return false;
    if (!c.flip(1, rate)) return false;
    c.label("giant operands"); c.nontrivial();
    return true;
}
inline std::size_t giantLen(Ctx& c) {
    switch (c.pick({4, 3, 2, 1})) {
        case 0: return 65536 + c.draw(6) - 3;
        case 1: return 65530 + c.draw(4000);
        case 2: return 32768 + c.draw(6) - 3;
        default: return 3000 + c.draw(60000);
    }
}
inline Digits addDigits(const Digits& a, const Digits& b, u64 base) {
    Digits r(std::max(a.size(), b.size()) + 1, 0); u64 carry = 0;
    for (std::size_t i = 0; i < r.size(); ++i) {
        unsigned __int128 t = (unsigned __int128)(i < a.size() ? a[i] : 0) + (i < b.size() ? b[i] : 0) + carry;
        carry = t >= base; r[i] = (u64)(carry ? t - base : t);
    }
    return trim(r);
}
inline int cmpDigits(const Digits& a, const Digits& b) {
    const std::size_t n = trimmed(a), m = trimmed(b);
    if (n != m) return n < m ? -1 : 1;
    for (std::size_t i = n; i--;) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1;
    return 0;
}
inline Digits subDigits(const Digits& a, const Digits& b, u64 base) {      // a >= b
    Digits r(a); u64 borrow = 0;
    for (std::size_t i = 0; i < r.size(); ++i) {
        const unsigned __int128 y = (unsigned __int128)(i < b.size() ? b[i] : 0) + borrow;
        borrow = r[i] < y; r[i] = (u64)(borrow ? (unsigned __int128)r[i] + base - y : r[i] - y);
    }
    return trim(r);
}
inline Digits mulSmall(const Digits& a, u64 k, const Digits& plus, u64 base) {   // a * k + plus, k < 2^32
    Digits r; unsigned __int128 carry = 0;
    for (std::size_t i = 0; i < a.size() || i < plus.size() || carry; ++i) {
        carry += (unsigned __int128)(i < a.size() ? a[i] : 0) * k + (i < plus.size() ? plus[i] : 0);
        r.push_back((u64)(carry % base)); carry /= base;
    }
    return trim(r);
}
inline u64 modDigits(const Digits& d, u64 base, u64 p) {
    unsigned __int128 r = 0;
    for (std::size_t i = d.size(); i--;) r = (r * base + d[i]) % p;
    return (u64)r;
}
// A pair in a relation that exercises long carries, borrows and late decisions
inline void giantPair(Ctx& c, u64 base, Digits& a, Digits& b) {
    const std::size_t n = giantLen(c);
    a = genDigits(c, base, n);
    switch (c.pick({4, 2, 4, 4, 2, 2, 2})) {
        case 0: b = genDigits(c, base, c.flip(1, 2) ? n : giantLen(c)); break;
        case 1: b = a; break;
        case 2: b = a; { const std::size_t i = c.flip(1, 2) ? c.draw(n - 1) : c.flip(1, 2) ? n - 1 - c.draw(3) : c.draw(3); b[i] = genDigit(c, base); } break;
        case 3: {
            b.resize(n); for (std::size_t i = 0; i < n; ++i) b[i] = base - 1 - a[i];
            const u64 k = c.draw(2); if (k) b = addDigits(b, Digits(1, k % base), base);
            break; }
        case 4: b = genDigits(c, base, c.draw(3)); break;
        case 5: a.assign(n, 0); a[n - 1] = genTop(c, base); b = genDigits(c, base, 1 + c.draw(2)); break;   // one long borrow
        default: a.assign(n, base - 1); b = genDigits(c, base, 1 + c.draw(2)); break;                          // one long carry
    }
    a = trim(a); b = trim(b);
    if (c.flip(1, 2)) std::swap(a, b);
}
inline void checkSpell(const Cfg& cfg, const Num& got, Desc d, const Digits& want, const std::string& what) {
    const Digits v = trim(cfg.digits(got));
    if (v.empty() && want.empty() && cfg.desc(got) == D_POS) return;
    if (cfg.desc(got) != d || v != want) PBT_FAIL(cfg.name << ": " << what << " gave " << show(cfg, got) << ", expected " << show(d, want));
}
inline std::string sizes(const Spell& a, char op, const Spell& b) {
    std::ostringstream o; o << show(a) << " " << op << " " << show(b) << " (" << a.v.size() << " and " << b.v.size() << " digits)"; return o.str();
}
// Reference sum or difference of two spellings, digit by digit
inline Spell refSum(const Spell& a, char op, const Spell& b, u64 base) {
    const Desc bd = op == '-' ? (b.d == D_NEG ? D_POS : D_NEG) : b.d;
    Spell r;
    if (a.d == bd) { r.d = a.d; r.v = addDigits(a.v, b.v, base); }
    else if (cmpDigits(a.v, b.v) >= 0) { r.d = a.d; r.v = subDigits(a.v, b.v, base); }
    else { r.d = bd; r.v = subDigits(b.v, a.v, base); }
    if (r.v.empty()) r.d = D_POS;
    return r;
}
inline void giantSum(Ctx& c, const Cfg& cfg, char op) {
    Digits x, y; giantPair(c, cfg.base, x, y);
    const Spell a = withSign(c, x), b = withSign(c, y);
    const std::string what = sizes(a, op, b);
    PBT_DESC(c, cfg.name << ": " << what); c.mix(what);
    const Spell want = refSum(a, op, b, cfg.base);
    NumP m = make(c, cfg, a), n = make(c, cfg, b);
    NumP r(cfg.op(*m, op, *n)); checkSpell(cfg, *r, want.d, want.v, what);
    cfg.opAssign(*m, op, *n); checkSpell(cfg, *m, want.d, want.v, what + " (compound)");
}
inline void giantFactors(Ctx& c, u64 base, Digits& x, Digits& y) {
    // balanced only where the total exceeds 2^16 a little; the naive algorithm
    // must remain feasible, because which one is used is the library's choice
    if (base <= 256 && c.flip(1, 2)) {
        const std::size_t t = 65536 + c.draw(2000) - 1000, k = t / 2 + c.draw(2000);
        x = genDigits(c, base, k); y = genDigits(c, base, t - k);
    } else { x = genDigits(c, base, giantLen(c)); y = genDigits(c, base, c.range(1, 400)); }
    if (c.flip(1, 2)) std::swap(x, y);
}
inline bool modProduct(const Digits& x, const Digits& y, const Digits& r, u64 base) {
    const u64 primes[] = {(1ull << 61) - 1, 18446744073709551557ull, 4611686018427387847ull};
    for (u64 p : primes)
        if ((u64)((unsigned __int128)modDigits(x, base, p) * modDigits(y, base, p) % p) != modDigits(r, base, p)) return false;
    return true;
}
inline void checkProduct(const Cfg& cfg, const Num& got, const Spell& a, const Spell& b, const std::string& what) {
    const Digits r = cfg.digits(got);
    bool ok = cfg.desc(got) == (a.d == b.d || a.v.empty() || b.v.empty() ? D_POS : D_NEG);
    for (u64 d : r) ok = ok && d < cfg.base;
    ok = ok && trimmed(r) + 1 >= trimmed(a.v) + trimmed(b.v) && trimmed(r) <= trimmed(a.v) + trimmed(b.v);
    if (!ok || !modProduct(a.v, b.v, r, cfg.base)) PBT_FAIL(cfg.name << ": " << what << " gave " << show(cfg, got) << " with " << r.size() << " digits, which is not the product");
}
inline void giantProduct(Ctx& c, const Cfg& cfg) {
    Digits x, y; giantFactors(c, cfg.base, x, y);
    const Spell a = withSign(c, x), b = withSign(c, y);
    const std::string what = sizes(a, '*', b);
    PBT_DESC(c, cfg.name << ": " << what); c.mix(what);
    NumP m = make(c, cfg, a), n = make(c, cfg, b);
    NumP r(cfg.op(*m, '*', *n)); checkProduct(cfg, *r, a, b, what);
    cfg.opAssign(*m, '*', *n); checkProduct(cfg, *m, a, b, what + " (compound)");
}
// dividend = q * divisor + r with a small q (cost grows with its square)
inline void giantDivision(Ctx& c, u64 base, Digits& a, Digits& b, Digits& q) {
    b = genDigits(c, base, giantLen(c));
    const u64 k = c.flip(1, 4) ? c.draw(2) : 1 + c.draw((1u << c.range(1, 9)) - 1);
    Digits r;
    switch (c.draw(3)) {
        case 0: break;
        case 1: r = Digits(1, 1); break;
        case 2: r = subDigits(b, Digits(1, 1), base); break;
        default: r = b; r[r.size() - 1] = 0; r[c.draw(r.size() - 1)] = genDigit(c, base); r[r.size() - 1] = 0; r = trim(r); break;
    }
    a = mulSmall(b, k, r, base); q = k ? mulSmall(Digits(1, 1), k, Digits(), base) : Digits();
    if (cmpDigits(r, b) >= 0) { a = mulSmall(b, k, Digits(), base); }
}
inline void giantQuotient(Ctx& c, const Cfg& cfg) {
    Digits x, y, q; giantDivision(c, cfg.base, x, y, q);
    const Spell a = withSign(c, x), b = withSign(c, y);
    const Desc d = q.empty() || a.d == b.d ? D_POS : D_NEG;
    const std::string what = sizes(a, '/', b);
    PBT_DESC(c, cfg.name << ": " << what); c.mix(what);
    NumP m = make(c, cfg, a), n = make(c, cfg, b);
    NumP r(cfg.op(*m, '/', *n)); checkSpell(cfg, *r, d, q, what);
    cfg.opAssign(*m, '/', *n); checkSpell(cfg, *m, d, q, what + " (compound)");
}
inline void giantCompare(Ctx& c, const Cfg& cfg) {
    Digits x, y; giantPair(c, cfg.base, x, y);
    const Desc d = genSign(c);
    const Spell a(d, x), b(c.flip(1, 8) ? genSign(c) : d, y);
    const std::string what = sizes(a, '?', b);
    PBT_DESC(c, cfg.name << ": " << what); c.mix(what);
    const int sx = x.empty() ? 0 : a.d == D_NEG ? -1 : 1, sy = y.empty() ? 0 : b.d == D_NEG ? -1 : 1;
    const int o = sx != sy ? (sx < sy ? -1 : 1) : sx * cmpDigits(x, y);
    NumP m = make(c, cfg, a), n = make(c, cfg, b);
    const bool want[] = {o == 0, o != 0, o < 0, o <= 0, o > 0, o >= 0}; const char* names[] = {"==", "!=", "<", "<=", ">", ">="};
    for (int i = 0; i < 6; ++i) if (cfg.cmp(*m, (Cmp)i, *n) != want[i]) PBT_FAIL(cfg.name << ": " << what << ": " << names[i] << " gave " << !want[i]);
}
#endif
