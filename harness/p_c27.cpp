#include "ops.h"
#include <malloc.h>
#include <time.h>
#include <cmath>
#include <functional>
// Time and memory grow with the work.  Time is the CPU time of this thread at
// two sizes; what is judged is the growth between them, with a wide margin.
namespace {
double cpu() { timespec t; clock_gettime(CLOCK_THREAD_CPUTIME_ID, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
struct NullBuf : std::streambuf {
    std::size_t n; NullBuf() : n(0) {}
    int overflow(int c) override { ++n; return c; }
    std::streamsize xsputn(const char*, std::streamsize k) override { n += (std::size_t)k; return k; }
};
Digits shape(u64 kind, u64 base, std::size_t n, u64 seed) {
    Digits d(n, 0); Sm s = {seed};
    for (std::size_t i = 0; i < n; ++i) d[i] = kind == 0 ? s() % base : kind == 1 ? base - 1 : kind == 2 ? 0 : (s() & 3) ? base - 1 : 0;
    if (n && !d[n - 1]) d[n - 1] = 1;
    return d;
}
enum Work { CONSTANT, LINEAR, TRANSFORM, PRODUCT, QUOTIENT };
}
static void run(Ctx& c) {
    static const bool once = [] { mallopt(M_MMAP_THRESHOLD, 1 << 30); mallopt(M_TRIM_THRESHOLD, 1 << 30); mallopt(M_TOP_PAD, 64 << 20); return true; }();
    (void)once;
    if (c.mode == Ctx::BYTES) return;
    const Cfg& cfg = genCfg(c); c.mix(cfg.name); c.label("type " + cfg.name);
    const std::size_t which = c.draw(20); const u64 sa = c.draw(3), sb = c.draw(3), seed0 = c.draw(0xffff); u64 seed = seed0;
    const std::size_t transformMax = cfg.base <= 256 ? 1u << 20 : cfg.base <= 65536 ? 250 : 0;
    NumP a, b, r; NullBuf nb; std::ostream out(&nb); volatile bool sink = false; (void)sink;
    NumP src; std::string name; Work work = LINEAR; std::size_t second = 0;
    std::function<void()> before, f; std::size_t na = 0, nbd = 0;
    // the second operand's size: as the first, half of it, or a few digits
    const u64 rel = c.draw(2); const std::size_t few = c.range(1, 8); const bool negA = c.flip(1, 2), negB = c.flip(1, 2), swapped = c.flip(1, 2) && (which < 5 || which == 18 || which == 19);
    auto prepare = [&](std::size_t n) {
        second = rel == 0 ? n : rel == 1 ? (n + 1) / 2 : std::min(few, n);
        na = n; nbd = second;
        a.reset(cfg.build(negA ? D_NEG : D_POS, shape(sa, cfg.base, n, seed)));
        b.reset(cfg.build(negB ? D_NEG : D_POS, shape(sb, cfg.base, second, seed + 1)));
        if (swapped) std::swap(a, b);
        r.reset();
    };
    before = [] {};
    switch (which) {
        case 0: case 1: { const char op = which ? '-' : '+'; name = std::string("a ") + op + " b"; before = [&] { r.reset(); }; f = [&, op] { r.reset(cfg.op(*a, op, *b)); }; break; }
        case 2: case 3: { const char op = which == 3 ? '-' : '+'; name = std::string("a ") + op + "= b"; before = [&] { r.reset(cfg.copy(*a)); }; f = [&, op] { cfg.opAssign(*r, op, *b); }; break; }
        case 4: name = "comparisons of a and b"; f = [&] { for (int k = C_EQ; k <= C_GE; ++k) sink = cfg.cmp(*a, (Cmp)k, *b); }; break;
        case 5: name = "comparisons of a and a copy that differs in its lowest digit"; f = [&] { for (int k = C_EQ; k <= C_GE; ++k) sink = cfg.cmp(*a, (Cmp)k, *r); }; break;
        case 6: name = "copy construction"; before = [&] { r.reset(); }; f = [&] { r.reset(cfg.copy(*a)); }; break;
        case 7: name = "copy assignment"; before = [&] { r.reset(cfg.make()); }; f = [&] { cfg.copyAssign(*r, *a); }; break;
        case 8: name = "move construction and assignment"; work = CONSTANT; f = [&] { for (int i = 0; i < 4; ++i) { NumP t(cfg.moved(*a)); cfg.moveAssign(*a, *t); } }; break;
        case 9: name = "printing"; f = [&] { cfg.print(out, *a); }; break;
        case 10: name = "building with push_back, emptying with pop_back"; f = [&] { NumP t(cfg.make()); for (std::size_t i = 0; i < na; ++i) cfg.pushBack(*t, i % cfg.base); for (std::size_t i = 0; i < na; ++i) cfg.popBack(*t); }; break;
        case 11: name = "reading and writing all digits"; f = [&] { for (std::size_t i = 0; i < na; ++i) cfg.set(*a, i, cfg.get(*a, i)); }; break;
        case 12: name = "access to one digit, size, sign"; work = CONSTANT; f = [&] { for (int i = 0; i < 20; ++i) { cfg.set(*a, na / 2, cfg.getMut(*a, na - 1)); sink = cfg.size(*a) > 3 && cfg.isNegative(*a) && cfg.isNan(*a); } }; break;
        case 13: name = "push_front, pop_front, push, pop"; f = [&] { cfg.pushFront(*a, 1); cfg.push(*a, 0, na / 2); cfg.pop(*a, na / 3); cfg.popFront(*a); }; break;
        case 14: name = "resize, sign, clear"; before = [&] { r.reset(cfg.copy(*a)); }; f = [&] { cfg.resize(*r, 2 * na, 1); cfg.resize1(*r, na / 2); cfg.setDesc(*r, D_NEG); cfg.clear(*r); }; break;
        case 15: name = "a / b of equal length"; f = [&] { r.reset(cfg.op(*a, '/', *b)); }; break;
        case 16: name = "a / b with a short quotient"; f = [&] { r.reset(cfg.op(*a, '/', *b)); }; break;
        case 17: name = "b / a, 0 / a and a / 0"; f = [&] { r.reset(cfg.op(*b, '/', *a)); NumP z(cfg.make()); NumP q(cfg.op(*z, '/', *a)); NumP w(cfg.op(*a, '/', *z)); }; break;
        case 18: name = "a * b"; f = [&] { r.reset(cfg.op(*a, '*', *b)); }; work = TRANSFORM; break;
        case 20: name = "a / b with a long quotient"; f = [&] { r.reset(cfg.op(*a, '/', *b)); }; work = QUOTIENT; break;
        default: name = "a *= b"; before = [&] { r.reset(cfg.copy(*a)); }; f = [&] { cfg.opAssign(*r, '*', *b); }; work = TRANSFORM; break;
    }
    if (which == 17 && rel == 0) return;                // one quotient bit or none: as 15
    std::size_t n0 = c.range(1500, 2500), n1 = n0 * 32;
    if (work == TRANSFORM) {
        n0 = c.range(200, 300); n1 = n0 * 64;
        if (n0 * 2 > transformMax) { work = rel == 2 ? LINEAR : PRODUCT; if (rel == 2) { n0 *= 8; n1 = n0 * 64; } else { n0 = 250; n1 = n0 * 16; } }
        else if (n1 * 2 > transformMax) { n0 = 16; n1 = 120; }
    }
    if (work == QUOTIENT) {                                // bits of the quotient squared, times digits
        const unsigned bits = cfg.base <= 2 ? 1 : cfg.base <= 16 ? 3 : cfg.base <= 256 ? 8 : cfg.base <= 65536 ? 16 : 32;
        n0 = bits == 1 ? 34 : bits == 3 ? 16 : bits == 8 ? 9 : bits == 16 ? 6 : 4; n1 = n0 * 16;
    }
    PBT_DESC(c, cfg.name << ": " << name << ", a of " << n0 << " and of " << n1 << " digits, b " << (rel == 0 ? "as long" : rel == 1 ? "half as long" : "short") << ", digits " << sa << "/" << sb << (negA ? ", a negative" : "") << (negB ? ", b negative" : "") << (swapped ? ", swapped" : ""));
    c.mix(which); c.mix(sa); c.mix(sb); c.mix(rel); c.mix(swapped); c.mix(n0); c.mix(seed0); c.label(name);
    auto setup = [&](std::size_t n) {
        prepare(n);
        if (which == 5) { Digits d = shape(sa, cfg.base, n, seed); d[0] = d[0] ? d[0] - 1 : 1; r.reset(cfg.build(negA ? D_NEG : D_POS, d)); }
        if (which == 20) {
            Digits d = shape(0, cfg.base, 2 * n, seed), e = shape(sb, cfg.base, rel == 2 ? 2 : n, seed + 1);
            a.reset(cfg.build(negA ? D_NEG : D_POS, d)); b.reset(cfg.build(negB ? D_NEG : D_POS, e)); na = d.size(); nbd = e.size();
        }
        if (which == 15 || which == 16) {
            Digits d = shape(sa, cfg.base, n, seed), e = shape(sb, cfg.base, n, seed + 1);
            // leading digits that fix the quotient: 1 or 2, or about 4/3 of the base
            if (which == 15) { d[n - 1] = cfg.base > 2 ? 2 : 1; d[n - 2] = cfg.base - 1; e[n - 1] = 1; e[n - 2] = 0; }
            else { d[n - 1] = cfg.base - 1; d.push_back(1); e[n - 1] = 1; e[n - 2] = cfg.base / 2; }
            a.reset(cfg.build(negA ? D_NEG : D_POS, d)); b.reset(cfg.build(negB ? D_NEG : D_POS, e)); na = d.size(); nbd = e.size();
        }
    };
    const double g = (double)n1 / n0;
    const double growth = work == CONSTANT ? 1 : work == LINEAR ? g : work == TRANSFORM ? g * std::log2((double)n1 * 4) / std::log2((double)n0 * 2) : work == QUOTIENT ? g * g * g : g * g;
    const double most = growth * (work == QUOTIENT ? 5 : 8) + (work == CONSTANT ? 8 : 0);
    // the mean of enough calls, the best of a few such means; fresh digits for
    // each call of the small size, which the branch predictor would learn otherwise
    auto timeOf = [&](double least, int runs, double enough, bool fresh) {
        double best = 1e9;
        for (int k = 0; k < runs && best > enough; ++k) {
            double sum = 0; int m = 0;
            do { if (fresh) { seed += 2; setup(n0); } before(); const double t = cpu(); f(); sum += cpu() - t; ++m; } while (sum < least && m < 200);
            best = std::min(best, sum / m);
        }
        return best;
    };
    setup(n0); before(); f();                              // once for the heap
    const double t0 = timeOf(2e-4, 3, 0, true);
    // memory
    seed = seed0; setup(n1); before();
    fault::bytes = fault::peak = 0; fault::measure = true;
    try { f(); } catch (...) { fault::measure = false; throw; }
    fault::measure = false;
    const long peak = fault::peak, kept = fault::bytes, digits = (long)(na + nbd);
    const long perDigit = work != LINEAR && work != CONSTANT ? 640 : 96;
    if (peak > perDigit * digits + 65536) PBT_FAIL(cfg.name << ": " << name << " of " << na << " and " << nbd << " digits uses " << peak << " bytes, more than " << perDigit << " for each digit");
    if (kept > 32 * digits + 65536) PBT_FAIL(cfg.name << ": " << name << " of " << na << " and " << nbd << " digits keeps " << kept << " bytes");
    { const double x = (double)peak / digits; c.label(x < 10 ? "peak below 10 bytes per digit" : x < 32 ? "peak 10-32 bytes per digit" : x < 96 ? "peak 32-96 bytes per digit" : x < 200 ? "peak 96-200 bytes per digit" : "peak 200+ bytes per digit"); }
    // time: repeated only while it is above what the growth of the work allows
    const double t1 = timeOf(0, 3, std::min(2 * growth, most) * t0, false), ratio = t1 / t0;
    c.label(ratio < growth ? "growth below 1x" : ratio < 2 * growth ? "growth 1-2x" : ratio < 4 * growth ? "growth 2-4x" : ratio < 8 * growth ? "growth 4-8x" : "growth above 8x");
    c.nontrivial();
    if (ratio > most && t1 > 2e-5) PBT_FAIL(cfg.name << ": " << name << " takes " << t0 * 1e6 << " us with " << n0 << " digits, but " << t1 * 1e6 << " us with " << n1 << ": " << ratio << " times as long, where the work grows " << growth << " times");
}
static pbt::Registrar r({"C27", "one operation (of 21 kinds) on numbers of two sizes: peak and kept heap bytes per digit, and the growth of its CPU time against that of the work; every case that measures both is non-trivial", run, 0, 0});
