// Exact reference results and shared checks for the four operators.
#ifndef OPS_H
#define OPS_H
#include "model.h"

inline Int refOp(char op, const Int& a, const Int& b) {
    switch (op) { case '+': return a + b; case '-': return a - b; case '*': return a * b; default: return a / b; } // cpp_int truncates
}
inline const char* opName(char op) { return op == '+' ? "+" : op == '-' ? "-" : op == '*' ? "*" : "/"; }

inline void checkValue(const Cfg& cfg, const Num& got, const Int& want, const Spell& a, const char* op, const Spell& b, const char* form) {
    const Desc d = cfg.desc(got);
    bool ok = finite(d);
    if (ok) { Int v = valueOf(cfg.digits(got), cfg.base); if (d == D_NEG) v = -v; ok = v == want; }
    if (!ok) PBT_FAIL(cfg.name << " " << form << ": " << show(a) << " " << op << " " << show(b) << " gave " << show(cfg, got)
        << ", expected " << showInt(want, cfg.base));
}
// a op b and a op= b against the model
inline void checkBoth(Ctx& c, const Cfg& cfg, char op, const Spell& a, const Spell& b) {
    const Int want = refOp(op, value(a, cfg.base), value(b, cfg.base));
    NumP x = make(c, cfg, a), y = make(c, cfg, b);
    NumP r(cfg.op(*x, op, *y));
    checkValue(cfg, *r, want, a, opName(op), b, "binary");
    cfg.opAssign(*x, op, *y);
    checkValue(cfg, *x, want, a, opName(op), b, "compound");
    // one object on both sides
    const bool alias = a.d == b.d && a.v == b.v;
    if ((alias || c.flip(1, 24)) && (op != '/' || value(b, cfg.base) != 0)) {
        const Int own = refOp(op, value(b, cfg.base), value(b, cfg.base));
        c.label("one object on both sides");
        NumP s(cfg.op(*y, op, *y));
        checkValue(cfg, *s, own, b, opName(op), b, "binary, one object on both sides");
        cfg.opAssign(*y, op, *y);
        checkValue(cfg, *y, own, b, opName(op), b, "compound, one object on both sides");
    }
}
// enumerated row: one first operand against the whole small set
inline void checkRow(Ctx& c, const Cfg& cfg, char op, const Int& a) {
    const Spell sa = spell(a, cfg.base);
    NumP x = make(cfg, sa);
    PBT_DESC(c, cfg.name << ": row " << show(sa) << " " << op << " every small-scope value");
    for (const Int& b : smallSet(cfg.base)) {
        if (op == '/' && b == 0) continue;
        const Spell sb = spell(b, cfg.base);
        NumP y = make(cfg, sb);
        NumP r(cfg.op(*x, op, *y));
        checkValue(cfg, *r, refOp(op, a, b), sa, opName(op), sb, "binary");
        NumP z(cfg.copy(*x)); cfg.opAssign(*z, op, *y);
        checkValue(cfg, *z, refOp(op, a, b), sa, opName(op), sb, "compound");
    }
}
// Longest run of consecutive carries of a + b, and of borrows of |a| - |b|
inline std::size_t carryRun(const Digits& a, const Digits& b, u64 base) {
    std::size_t best = 0, run = 0; u64 carry = 0;
    for (std::size_t i = 0; i < std::max(a.size(), b.size()); ++i) {
        const unsigned __int128 t = (unsigned __int128)(i < a.size() ? a[i] : 0) + (i < b.size() ? b[i] : 0) + carry;
        carry = t >= base; run = carry ? run + 1 : 0; best = std::max(best, run);
    }
    return best;
}
inline std::size_t borrowRun(Digits a, Digits b, u64 base) {
    if (valueOf(a, base) < valueOf(b, base)) std::swap(a, b);
    std::size_t best = 0, run = 0; u64 borrow = 0;
    for (std::size_t i = 0; i < a.size(); ++i) {
        const unsigned __int128 y = (unsigned __int128)(i < b.size() ? b[i] : 0) + borrow;
        borrow = a[i] < y; run = borrow ? run + 1 : 0; best = std::max(best, run);
    }
    return best;
}
inline void labelRun(Ctx& c, const char* what, std::size_t n) {
    c.label(std::string(what) + (n == 0 ? " none" : n == 1 ? " 1" : n < 8 ? " 2-7" : n < 64 ? " 8-63" : " 64+"));
}
inline void labelLen(Ctx& c, const Spell& a, const Spell& b) {
    const std::size_t n = std::max(a.v.size(), b.v.size());
    c.label(n == 0 ? "digits 0" : n == 1 ? "digits 1" : n <= 8 ? "digits 2-8" : n <= 40 ? "digits 9-40" : n <= 300 ? "digits 41-300" : "digits 301+");
    c.label(a.d == b.d ? "signs equal" : "signs differ");
}
// Division operands: a = q*b + r (b != 0), with the quotient's size bounded,
// because the library's division time grows with the square of it.
inline void genDivPair(Ctx& c, const Cfg& cfg, Spell& a, Spell& b, bool longQuotients = false) {
    const u64 base = cfg.base;
    unsigned perDigit = 1; while (perDigit < 32 && (base >> perDigit) > 1) ++perDigit;
    std::size_t maxQBits, maxB, len = 0;
    switch (c.pick({30, 40, 24, 4, 4})) {
        case 0: maxQBits = 12; maxB = 300; break;
        case 1: maxQBits = 64; maxB = 60; break;
        case 2: maxQBits = 160; maxB = 24; break;
        case 3: maxQBits = pbt::tier ? 700 : 400; maxB = 10; break;
        default: maxQBits = 12; maxB = len = c.flip(1, 8) ? (std::size_t)1 << c.draw(10) : c.range(1, 1100); c.label("divisor of swept length"); break;
    }
    if (longQuotients && c.flip(1, 20000)) { maxQBits = 1300; maxB = 4; len = 0; c.label("quotient to 1300 bits"); }
    Digits db, da;
    db = len ? genDigits(c, base, len) : genMag(c, base, maxB);
    if (db.empty()) db.push_back(1);
    const Int vb = valueOf(db, base);
    switch (c.pick({10, 2, 3, 3, 2})) {
        case 0: {
            const std::size_t ql = std::max<std::size_t>(1, maxQBits / perDigit);
            const Int q = valueOf(genMag(c, base, ql), base);
            Int r = 0;
            switch (c.pick({3, 2, 3, 5})) {
                case 0: break;
                case 1: r = 1; break;
                case 2: r = vb - 1; break;
                default: r = valueOf(genMag(c, base, std::max<std::size_t>(1, db.size())), base) % vb; break;
            }
            if (r >= vb) r = 0;
            da = digitsOf(q * vb + r, base);
            c.label(q == 0 ? "quotient zero" : q == 1 ? "quotient one" : r == 0 ? "exact quotient" : "inexact quotient");
            break; }
        case 1: da = db; c.label("equal operands"); break;
        case 2: {
            Int v = vb; const u64 k = 1 + c.draw(3);
            if (c.flip(1, 2)) v += k; else v -= k;
            da = digitsOf(v < 0 ? Int(0) : v, base); c.label("near-equal operands"); break; }
        case 3: {   // same length, different digits
            da = genDigits(c, base, db.size()); c.label("same length"); break; }
        default: da = genMag(c, base, db.size()); c.label("shorter dividend"); break;
    }
    // keep the quotient within bounds
    Int va = valueOf(da, base);
    const unsigned lim = (unsigned)maxQBits + 8;
    if (bitsOf(va) > bitsOf(vb) + lim) va >>= bitsOf(va) - bitsOf(vb) - lim;
    a = withSign(c, digitsOf(va, base)); b = withSign(c, db);
}
inline void describePair(Ctx& c, const Cfg& cfg, const Spell& a, const char* op, const Spell& b) {
    PBT_DESC(c, cfg.name << ": " << show(a) << " " << op << " " << show(b));
}
// A call of one of the functions outside the number types; `report`: also
// assertions that fail
inline unsigned genMisc(Ctx& c, std::vector<u64>& a, bool report) {
    const unsigned w = (unsigned)c.pick({4, 4, 3, 3, 2, 1, report ? 2u : 0u, 1});
    auto word = [&]() -> u64 {
        switch (c.pick({3, 2, 2, 2})) {
            case 0: return c.draw(300);
            case 1: { const u64 p = 1ull << c.draw(63); return p + c.draw(2) - 1; }
            case 2: return ~0ull - c.draw(9);
            default: return c.draw(~0ull);
        }
    };
    a.clear();
    if (w == 2 || w == 3) { const std::size_t n = 1 + c.draw(c.flip(1, 8) ? 600 : 40); const u64 m = c.flip(1, 3) ? 1 : 15; for (std::size_t i = 0; i < n; ++i) a.push_back(n > 100 ? (i * (i + 3) + n) & m : c.draw(m)); }
    else { a.push_back(w >= 5 ? c.draw(2) : word()); a.push_back(word()); }
    c.mix(w); for (u64 x : a) c.mix(x);
    return w;
}
inline std::string miscName(unsigned w) { static const char* n[] = {"digit arithmetic", "digit streams", "convolution", "transforms", "powers of two", "assertion that holds", "assertion that fails", "exception classes"}; return n[w]; }
#endif
