#include "giant.h"
#include <iostream>
#include <sys/resource.h>
// Histories of public calls within the documented preconditions.  The property
// is "nothing bad happens": in the sanitizer and memcheck variants of the
// build any report ends the case; in the plain variant leaked allocations,
// signals and missing termination do.
struct Quiet : std::streambuf {      // the library reports bad indices on std::cerr
    std::streambuf* old; Quiet() : old(std::cerr.rdbuf(this)) {} ~Quiet() { std::cerr.rdbuf(old); }
    int overflow(int c) override { return c == traits_type::eof() ? 0 : c; }
    std::streamsize xsputn(const char*, std::streamsize n) override { return n; }
};
static double divCost(const Cfg& cfg, const Digits& a, const Digits& b) {
    const std::size_t na = trimmed(a), nb = trimmed(b);
    double perDigit = 0; for (u64 x = cfg.base - 1; x; x >>= 1) ++perDigit;
    if (na < nb) return 0;
    const double q = (double)(na - nb + 1) * perDigit;
    return q * q * (double)(na + 1);
}
// Tens of thousands of digits on a small stack: no recursion per digit.
static void deep(Ctx& c, const Cfg& cfg) {
    try {
        switch (c.draw(5)) {
            case 0: giantSum(c, cfg, '+'); break;
            case 1: giantSum(c, cfg, '-'); break;
            case 2: giantProduct(c, cfg); break;
            case 3: giantQuotient(c, cfg); break;
            case 4: giantCompare(c, cfg); break;
            default: {
                Digits x, y; giantPair(c, cfg.base, x, y); const Spell s = withSign(c, x); PBT_DESC(c, cfg.name << ": copies and text of " << show(s));
                NumP a = make(c, cfg, s), b(cfg.copy(*a)); cfg.copyAssign(*a, *b); NumP d(cfg.moved(*b)); std::ostringstream o; cfg.print(o, *d);
                cfg.pushFront(*d, 1); cfg.popFront(*d); cfg.resize(*d, 10, 0); break; }
        }
    } catch (const pbt::Failure&) {}       // whether the result is right is decided elsewhere
}
static void run(Ctx& c) {
    const Cfg& cfg = genCfg(c);
    #ifndef SANITIZED
    { static bool once = false; if (!once) { once = true; rlimit r; if (!getrlimit(RLIMIT_STACK, &r)) { r.rlim_cur = 512 << 10; setrlimit(RLIMIT_STACK, &r); } } }
    if (isGiant(c, 3000)) return deep(c, cfg);
    #endif
    { static bool warm = false; if (!warm) { warm = true; std::ostringstream o; o << 1 << 1u << 2ull; NumP n(cfg.build(D_NEG, Digits(3, 1))); cfg.print(o, *n); } }
    const std::size_t maxLen = c.pick({6, 3, 1}) == 0 ? 12 : c.flip(2, 3) ? 80 : 300;
    const double maxDiv = 4e5;
    std::size_t calls = 0, mutations = 0; bool alias = false, special = false, raw = false, thrown = false, moved = false, big = false;
    const long before = fault::live;
    {
    std::vector<NumP> pool;
    for (int i = 0; i < 4; ++i) pool.push_back(NumP(cfg.make()));
    auto rawDigits = [&](std::size_t lim) {
        Digits d = genMag(c, cfg.base, lim);
        if (c.flip(1, 5)) d.insert(d.end(), c.range(1, 3), 0);
        return d;
    };
    const u64 steps = 2 + c.draw(pbt::tier ? 60 : 24);
    PBT_DESC(c, cfg.name << ": v0..v3 = 0");
    for (u64 i = 0; i < steps; ++i) {
        const std::size_t x = c.draw(3), y = c.draw(3);
        Num& a = *pool[x]; Num& b = *pool[y];
        const std::size_t kind = c.pick({14, 4, 3, 3, 3, 2, 16, 12, 6, 4, 3, 3, 2, 2, 3, 3, 4, 5, 4, 3, 3, 6, 2, 3});
        ++calls; c.mix(kind); c.mix(x * 4 + y);
        switch (kind) {
            case 0: { Digits d = rawDigits(maxLen); const Spell s(genSign(c), d); PBT_DESC(c, "; v" << x << "=" << show(s)); pool[x] = make(c, cfg, s); mixSpell(c, s); break; }
            case 1: { // initializer list with leading zeros
                Digits d = rawDigits(14); const Desc e = (Desc)c.draw(4); PBT_DESC(c, "; v" << x << "={" << show(e, d) << "}");
                Digits m(d.rbegin(), d.rend()); if (m.size() > 16) m.resize(16); pool[x].reset(cfg.fromList(e, m.data(), m.size())); if (!finite(e)) special = true; break; }
            case 2: PBT_DESC(c, "; v" << x << "=copy(v" << y << ")"); pool[x] = NumP(cfg.copy(b)); break;
            case 3: PBT_DESC(c, "; v" << x << "=v" << y); cfg.copyAssign(a, b); if (x == y) alias = true; break;
            case 4: if (x == y) break; PBT_DESC(c, "; v" << x << "=move(v" << y << ")"); cfg.moveAssign(a, b); moved = true; break;
            case 5: { PBT_DESC(c, "; v" << x << "=moved(v" << y << ")"); Num* n = cfg.moved(b); pool[x].reset(n); if (x == y) break; moved = true; break; }
            case 6: case 7: {
                const char op = "+-*/"[c.pick({3, 3, 3, 3})];
                const Digits da = cfg.digits(a), db = cfg.digits(b);
                if (op == '*' && da.size() + db.size() > 3 * maxLen) break;
                if (op == '/' && divCost(cfg, da, db) > maxDiv) break;
                if (!finite(cfg.desc(a)) || !finite(cfg.desc(b))) special = true;
                if (x == y) alias = true;
                if (da.size() + db.size() > 100) big = true;
                ++mutations;
                PBT_DESC(c, "; v" << x << op << "=v" << y);
                if (kind == 6) cfg.opAssign(a, op, b);
                else { const std::size_t z = c.draw(3); PBT_DESC(c, " (binary, into v" << z << ")"); NumP r(cfg.op(a, op, b)); pool[z] = std::move(r); }
                break; }
            case 8: PBT_DESC(c, "; cmp v" << x << " v" << y); for (int k = C_EQ; k <= C_GE; ++k) cfg.cmp(a, (Cmp)k, b); break;
            case 9: { const u64 d = genDigit(c, cfg.base); PBT_DESC(c, "; v" << x << ".push_front(" << d << ")"); cfg.pushFront(a, d); ++mutations; break; }
            case 10: if (!cfg.size(a)) break; PBT_DESC(c, "; v" << x << ".pop_front()"); cfg.popFront(a); ++mutations; break;
            case 11: { const u64 d = genDigit(c, cfg.base); PBT_DESC(c, "; v" << x << ".push_back(" << d << ")"); cfg.pushBack(a, d); ++mutations; break; }
            case 12: if (!cfg.size(a)) break; PBT_DESC(c, "; v" << x << ".pop_back()"); cfg.popBack(a); ++mutations; break;
            case 13: { const u64 d = genDigit(c, cfg.base); const std::size_t p = c.draw(cfg.size(a)); PBT_DESC(c, "; v" << x << ".push(" << d << "," << p << ")"); cfg.push(a, d, p); ++mutations; break; }
            case 14: { if (!cfg.size(a)) break; const std::size_t p = c.draw(cfg.size(a) - 1); PBT_DESC(c, "; v" << x << ".pop(" << p << ")"); cfg.pop(a, p); ++mutations; break; }
            case 15: { const std::size_t n = genLen(c, maxLen); const u64 d = genDigit(c, cfg.base); PBT_DESC(c, "; v" << x << ".resize(" << n << "," << d << ")"); if (c.flip(1, 4)) cfg.resize1(a, n); else cfg.resize(a, n, d); ++mutations; break; }
            case 16: { // any index: in range it succeeds, out of range it throws
                const std::size_t n = cfg.size(a), p = c.flip(1, 3) ? (c.flip(1, 4) ? (std::size_t)(0ull - 1 - c.draw(3)) : n + c.draw(3)) : c.draw(n + 1);
                PBT_DESC(c, "; v" << x << "[" << p << "]");
                Quiet q;
                try { if (c.flip(1, 2)) cfg.set(a, p, genDigit(c, cfg.base)); else { cfg.get(a, p); cfg.getMut(a, p); } }
                catch (const LibError&) { thrown = true; }
                break; }
            case 17: { const Desc d = (Desc)c.draw(4); PBT_DESC(c, "; v" << x << ".setDescriptor(" << (int)d << ")"); cfg.setDesc(a, d); if (!finite(d)) special = true; break; }
            case 18: { PBT_DESC(c, "; print v" << x); std::ostringstream o; cfg.print(o, a); break; }
            case 19: PBT_DESC(c, "; v" << x << ".clear()"); cfg.clear(a); break;
            case 20: PBT_DESC(c, "; queries v" << x); cfg.isPositive(a); cfg.isNegative(a); cfg.isInfinite(a); cfg.isNan(a); cfg.size(a); cfg.isComputable(cfg.desc(a)); break;
            case 21: { // raw magnitude routines
                Digits p = rawDigits(maxLen / 2 + 2), q = rawDigits(maxLen / 2 + 2);
                const std::size_t w = c.draw(5);
                PBT_DESC(c, "; raw " << w << " " << show(D_POS, p) << " " << show(D_POS, q));
                raw = true;
                if (w == 0) cfg.absOp('+', p, q);
                else if (w == 1) { if (p.size() < q.size() || valueOf(p, cfg.base) < valueOf(q, cfg.base)) std::swap(p, q); if (p.size() >= q.size() && valueOf(p, cfg.base) >= valueOf(q, cfg.base)) cfg.absOp('-', p, q); }
                else if (w == 2) { if (trimmed(q) && divCost(cfg, p, q) <= maxDiv) cfg.absOp('/', p, q); }
                else if (w == 3) { for (Cmp k : {C_EQ, C_LT, C_LE, C_GT, C_GE}) cfg.absCmp(k, p, q); }
                else if (w == 4) cfg.mulNaive(p, q);
                else cfg.mulStrassen(p, q);
                break; }
            case 23: { // one of the number's own digits as the argument
                const std::size_t n = cfg.size(a); if (!n) break; const std::size_t w = c.draw(4), src = c.draw(n - 1), p = w == 4 ? c.draw(n - 1) : c.draw(n);
                PBT_DESC(c, "; edit " << w << " of v" << x << " with its own digit " << src << " at " << p); cfg.editOwn(a, (int)w, src, p); ++mutations; break; }
            default: { // zero operands and the largest digits
                const std::size_t n = c.draw(6); PBT_DESC(c, "; v" << x << "=max(x" << n << ")");
                pool[x] = NumP(cfg.build(D_POS, Digits(n, cfg.base - 1))); break; }
        }
    }
    }
    const long after = fault::live;
    if (alias) c.label("aliased operands");
    if (special) c.label("NaN or infinity");
    if (raw) c.label("raw routines");
    if (thrown) c.label("index out of range");
    if (moved) c.label("moved-from object");
    if (big) c.label("operands over 100 digits");
    if (mutations >= 2) c.nontrivial();
    c.label(calls < 8 ? "calls 2-7" : calls < 16 ? "calls 8-15" : "calls 16+");
    #ifndef NO_ALLOC_HOOK
    if (after != before) PBT_FAIL(cfg.name << ": " << (after - before) << " allocations leaked by a sequence of " << calls << " calls");
    #else
    (void)after; (void)before;
    #endif
}
static pbt::Registrar r({"C16", "histories of 2 to 26 (thorough: 62) public calls over a pool of 4 numbers of one type, preconditions respected, leak accounting over the whole history; one in 3000 is one operation on numbers of up to 70000 digits, on a stack of 512 KiB; a case is non-trivial when at least two calls compute or edit digits", run, 0, 0});
