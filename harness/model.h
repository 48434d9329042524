// Reference model (exact integers, boost::multiprecision) and generators.
#ifndef MODEL_H
#define MODEL_H
#include "engine.h"
#include "adapter.h"
#include <boost/multiprecision/cpp_int.hpp>
#include <algorithm>
#include <limits>
#include <map>

typedef boost::multiprecision::cpp_int Int;
using pbt::Ctx;

// ------------------------------------------------------------- conversions
inline Int valueOf(const Digits& d, u64 base) {
    Int r = 0;
    std::size_t n = d.size();
    while (n && !d[n - 1]) --n;
    for (std::size_t i = n; i--;) { r *= base; r += d[i]; }
    return r;
}
inline Digits digitsOf(Int v, u64 base) {        // canonical, zero = no digits
    Digits d;
    if (v < 0) v = -v;
    if (base > 2 && v > 0) {
        // peel several digits at a time
        u64 chunk = base; unsigned k = 1;
        while (chunk <= (std::numeric_limits<u64>::max() >> 1) / base) { chunk *= base; ++k; }
        while (v > 0) {
            Int q, r; boost::multiprecision::divide_qr(v, Int(chunk), q, r);
            u64 x = (u64)r;
            for (unsigned i = 0; i < k; ++i) { d.push_back(x % base); x /= base; }
            v = q;
        }
    } else
        while (v > 0) { d.push_back((u64)(v & 1)); v >>= 1; }
    while (!d.empty() && !d.back()) d.pop_back();
    return d;
}
inline unsigned bitsOf(const Int& v) { return v == 0 ? 0 : (unsigned)msb(v < 0 ? Int(-v) : v) + 1; }
inline bool finite(Desc d) { return d == D_POS || d == D_NEG; }
inline std::size_t trimmed(const Digits& d) { std::size_t n = d.size(); while (n && !d[n - 1]) --n; return n; }

// A concrete spelling of a finite number
struct Spell { Desc d; Digits v; Spell() : d(D_POS) {} Spell(Desc e, const Digits& x) : d(e), v(x) {} };
inline Int value(const Spell& s, u64 base) { Int r = valueOf(s.v, base); return s.d == D_NEG ? Int(-r) : r; }
inline Spell spell(const Int& v, u64 base) { return Spell(v < 0 ? D_NEG : D_POS, digitsOf(v, base)); }

inline std::string show(Desc d, const Digits& v) {
    std::ostringstream o;
    switch (d) { case D_NEG: o << '-'; break; case D_NAN: o << "NaN"; break; case D_PINF: o << "+INF"; break; case D_NINF: o << "-INF"; break; case D_OTHER: o << "?desc?"; break; default: break; }
    o << '[';
    std::size_t shown = 0;
    for (std::size_t i = v.size(); i;) {
        const u64 x = v[i - 1]; std::size_t run = 0;
        while (i && v[i - 1] == x) { ++run; --i; }
        if (shown++) o << ' ';
        if (shown > 60) { o << "... (" << v.size() << " digits)"; break; }
        o << x; if (run > 1) o << "(x" << run << ')';
    }
    o << ']';
    return o.str();
}
inline std::string show(const Spell& s) { return show(s.d, s.v); }
inline std::string show(const Cfg& c, const Num& n) { return show(c.desc(n), c.digits(n)); }

// Signed value of a library number that has to be finite
inline Int libValue(const Cfg& c, const Num& n, const char* what) {
    const Desc d = c.desc(n);
    if (!finite(d)) PBT_FAIL(what << " is not finite: " << show(c, n));
    Int r = valueOf(c.digits(n), c.base);
    return d == D_NEG ? Int(-r) : r;
}
inline std::string showInt(const Int& v, u64 base) { return show(v < 0 ? D_NEG : D_POS, digitsOf(v, base)); }

// ------------------------------------------------------------- generators
inline const Cfg& genCfg(Ctx& c) {
    const std::vector<Cfg*>& v = configs();
    const Cfg& r = *v[c.draw(v.size() - 1)];
    c.label("type " + r.name); c.mix(r.name);
    return r;
}

// Digits in [0, base-1], favouring the borders of the range
inline u64 genDigit(Ctx& c, u64 base) {
    switch (c.pick({6, 2, 2, 2, 1, 1, 1})) {
        case 0: return c.draw(base - 1);
        case 1: return base - 1;
        case 2: return 0;
        case 3: return 1;
        case 4: return base / 2;
        case 5: return base >= 2 ? base - 2 : 0;
        default: { const u64 x = 1ull << c.draw(32); return x < base ? x : base / 2 ? base / 2 - 1 : 0; }
    }
}
inline u64 genTop(Ctx& c, u64 base) { const u64 x = genDigit(c, base); return x ? x : 1; }

struct Sm { u64 x; u64 operator()() { u64 z = (x += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); } };

inline std::size_t genLen(Ctx& c, std::size_t maxLen) {
    std::size_t n;
    switch (c.pick({3, 8, 8, 22, 24, 14, 10, 1})) {
        case 0: n = 0; break;
        case 1: n = 1; break;
        case 2: n = 2; break;
        case 3: n = c.range(3, 8); break;
        case 4: n = c.range(9, 40); break;
        case 5: { const std::size_t p = (std::size_t)1 << c.range(2, 8); n = p + c.draw(2) - 1; break; }
        case 6: n = c.range(41, 300); break;
        default: n = c.flip(1, 2) ? ((std::size_t)1 << c.range(9, 12)) + c.draw(2) - 1 : c.range(301, 3000); break;
    }
    return n > maxLen ? (maxLen ? 1 + n % maxLen : 0) : n;
}

// A canonical magnitude of n digits (top digit non-zero)
inline Digits genDigits(Ctx& c, u64 base, std::size_t n) {
    Digits d(n, 0);
    if (!n) return d;
    switch (c.pick({6, 3, 2, 4, 4, 1, 2, 2})) {
        case 0:
            if (n <= 48) { for (std::size_t i = 0; i < n; ++i) d[i] = c.draw(base - 1); }
            else { Sm s = {c.draw(~0ull)}; for (std::size_t i = 0; i < n; ++i) d[i] = s() % base; }
            break;
        case 1: std::fill(d.begin(), d.end(), base - 1); break;
        case 2: d[n - 1] = 1; if (c.flip(1, 3)) d[n - 1] = genTop(c, base); break;
        case 3: {   // runs
            std::size_t i = 0;
            while (i < n) {
                const std::size_t len = 1 + c.draw(std::min<std::size_t>(n - i, 4 + n / 4) - 1);
                const u64 x = genDigit(c, base);
                for (std::size_t j = 0; j < len; ++j) d[i++] = x;
            }
            break; }
        case 4:   // border digits
            if (n <= 48) { for (std::size_t i = 0; i < n; ++i) d[i] = genDigit(c, base); }
            else {
                Sm s = {c.draw(~0ull)}; const u64 b[6] = {0, 1, base - 1, base - 1, base / 2, base - 2};
                for (std::size_t i = 0; i < n; ++i) { u64 r = s(); d[i] = (r & 7) < 6 ? b[r & 7] : (r >> 8) % base; }
            }
            break;
        case 5: { const u64 x = genTop(c, base); std::fill(d.begin(), d.end(), x); break; }
        case 6: {   // mostly max with a few other digits
            std::fill(d.begin(), d.end(), base - 1);
            for (u64 k = c.range(1, 3); k--;) d[c.draw(n - 1)] = genDigit(c, base);
            break; }
        default: {  // mostly zero with a few other digits
            for (u64 k = c.range(1, 3); k--;) d[c.draw(n - 1)] = genDigit(c, base);
            break; }
    }
    if (!d[n - 1]) d[n - 1] = genTop(c, base);
    return d;
}
inline Digits genMag(Ctx& c, u64 base, std::size_t maxLen) { return genDigits(c, base, genLen(c, maxLen)); }
inline Digits trim(Digits d) { d.resize(trimmed(d)); return d; }

// Two lengths, such that every single length and every total length to maxLen
// comes up, and all combinations of powers of two.
inline void genLenPair(Ctx& c, std::size_t maxLen, std::size_t& n, std::size_t& m) {
    unsigned top = 0; while (((std::size_t)2 << top) <= maxLen) ++top;
    switch (c.pick({3, 3, 2, 3, 3})) {
        case 0: n = m = c.range(1, maxLen); break;
        case 1: n = c.range(1, maxLen); m = c.range(1, std::min<std::size_t>(maxLen, 8)); break;
        case 2: n = (std::size_t)1 << c.draw(top); m = (std::size_t)1 << c.draw(top); break;
        case 3: n = c.range(1, maxLen); m = c.range(1, maxLen); break;
        default: { const std::size_t t = c.range(1, maxLen); n = c.draw(t); m = t - n; break; }
    }
}

// Two magnitudes that often stand in a relation which exercises carries,
// borrows, cancellation and digit-by-digit comparison.
inline void genMagPair(Ctx& c, u64 base, std::size_t maxLen, Digits& a, Digits& b) {
    const std::size_t kind = c.pick({10, 4, 4, 4, 4, 5, 3, 4, 4, 3, 3});
    if (kind == 10) {
        std::size_t n, m; genLenPair(c, std::max<std::size_t>(1, std::min<std::size_t>(maxLen, 1200)), n, m);
        a = genDigits(c, base, n);
        if (n == m && c.flip(1, 2)) { b = a; b[c.draw(n - 1)] = genDigit(c, base); b = trim(b); } else b = genDigits(c, base, m);
        c.label("pair of swept lengths");
        if (c.flip(1, 2)) std::swap(a, b);
        return;
    }
    a = genMag(c, base, maxLen);
    const std::size_t n = a.size();
    switch (kind) {
        case 0: b = genMag(c, base, maxLen); c.label("pair independent"); break;
        case 1: b = a; c.label("pair equal"); break;
        case 2: b = a; if (n) { b[c.draw(n - 1)] = genDigit(c, base); } c.label("pair one digit changed"); break;
        case 3:
            b = a;
            if (n >= 2) {
                const std::size_t i = c.draw(n - 1), j = c.draw(n - 1);
                if (b[i] + 1 < base) ++b[i];
                if (b[j] > 0) --b[j];
            }
            c.label("pair digits changed in opposite directions"); break;
        case 4: {
            Int v = valueOf(a, base); const u64 k = c.draw(3);
            if (c.flip(1, 2)) v += 1 + k; else v -= 1 + k;
            b = digitsOf(v < 0 ? Int(-v) : v, base); c.label("pair differs by a little"); break; }
        case 5: {   // complement: a + b = B^n - 1, B^n or B^n + 1
            b.resize(n); for (std::size_t i = 0; i < n; ++i) b[i] = base - 1 - a[i];
            const u64 k = c.draw(2);
            if (k) b = digitsOf(valueOf(b, base) + k, base);
            b = trim(b); c.label("pair complement"); break; }
        case 6: {
            const std::size_t k = 1 + c.draw(std::min<std::size_t>(n + 2, 40));
            b.assign(k, 0); b.insert(b.end(), a.begin(), a.end()); b = trim(b);
            c.label("pair shifted"); break; }
        case 7: b = genDigits(c, base, n); c.label("pair same length"); break;
        case 8:
            b = a;
            if (n) { Digits lo = genDigits(c, base, 1 + c.draw(n - 1)); std::copy(lo.begin(), lo.end(), b.begin()); b = trim(b); }
            c.label("pair common high digits"); break;
        default: b = genDigits(c, base, c.draw(2)); c.label("pair short second"); break;
    }
    b = trim(b);
    if (c.flip(1, 2)) std::swap(a, b);
}
inline Desc genSign(Ctx& c) { return c.draw(1) ? D_NEG : D_POS; }
inline Spell withSign(Ctx& c, const Digits& d) { const Desc s = genSign(c); return Spell(trimmed(d) ? s : D_POS, d); }

// Builds a library number from a spelling; construction route is a choice.
inline NumP make(Ctx& c, const Cfg& cfg, const Spell& s) {
    const bool stripped = s.v.empty() || s.v.back() != 0;
    if (s.v.size() <= 16 && stripped && c.flip(1, 2)) {
        Digits m(s.v.rbegin(), s.v.rend());
        return NumP(cfg.fromList(s.d, m.data(), m.size()));
    }
    // a number that was longer before, or came by a copy or a move
    const u64 route = c.draw(15);
    if (route == 15 && finite(s.d)) {
        Digits v(s.v); const std::size_t more = c.flip(1, 2) ? c.range(1, 8) : 40 + 4 * v.size();
        v.resize(v.size() + more, cfg.base - 1);
        NumP x(cfg.build(s.d, v));
        if (more < 9) for (std::size_t i = 0; i < more; ++i) cfg.popBack(*x); else cfg.resize1(*x, s.v.size());
        return x;
    }
    NumP x(cfg.build(s.d, s.v));
    if (route == 14) return NumP(cfg.copy(*x));
    if (route == 13) { NumP y(cfg.moved(*x)); cfg.moveAssign(*x, *y); }
    return x;
}
inline NumP make(const Cfg& cfg, const Spell& s) { return NumP(cfg.build(s.d, s.v)); }
inline void mixSpell(Ctx& c, const Spell& s) { c.mix(s.d); c.mix(s.v.size()); for (u64 x : s.v) c.mix(x); }

// Small-scope values of a base: everything up to 20, and the neighbourhoods of
// powers of the base.
inline const std::vector<Int>& smallSet(u64 base) {
    static std::map<u64, std::vector<Int>> memo;
    const auto found = memo.find(base);
    if (found != memo.end()) return found->second;
    fault::Pause p;
    std::vector<Int> v;
    for (int i = 0; i <= 20; ++i) v.push_back(i);
    Int b = base;
    for (const Int& p : {b, Int(b * b), Int(b * b * b), Int(b / 2), Int(b * 2), Int(b * (b / 2)), Int(b * (b - 1)), Int(b * b * b * b)})
        for (int i = -2; i <= 2; ++i) if (p + i >= 0) v.push_back(p + i);
    std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end());
    std::vector<Int> s; for (const Int& x : v) { s.push_back(x); if (x != 0) s.push_back(-x); }
    return memo[base] = s;
}
// Enumerated prefix: one case per (type, first operand); choices {0, type, index}
inline std::size_t rowCount() { std::size_t n = 0; for (Cfg* c : configs()) n += smallSet(c->base).size(); return n; }
inline void rowCase(std::size_t i, std::vector<u64>& v) {
    u64 t = 0;
    for (Cfg* c : configs()) { const std::size_t n = smallSet(c->base).size(); if (i < n) { v = {0, t, i}; return; } i -= n; ++t; }
}
// True when the case is an enumerated row (returns its type and first operand)
inline bool isRow(Ctx& c, const Cfg*& cfg, Int& a) {
    if (c.draw(63) != 0) return false;
    cfg = configs()[c.draw(configs().size() - 1)];
    const std::vector<Int>& s = smallSet(cfg->base);
    a = s[c.draw(s.size() - 1)];
    c.label("small-scope row");
    c.mix(cfg->name); c.mix(spell(a, cfg->base).v.size()); c.mix((u64)(a & Int(~0ull)));
    return true;
}
#endif
