#include "ops.h"
#include <functional>
#include <dlfcn.h>
#include <cfenv>
#include <cerrno>
#include <cstdlib>
#include <iostream>
#include <locale>
#include <malloc.h>
#if defined(__x86_64__)
#include <immintrin.h>
#endif
// The same history on separately compiled copies of the library (other
// compilers, dialects, optimisation, macros: BN_SOS names the shared objects),
// each in its own floating-point, locale and heap environment.
struct Silent : std::streambuf {
    std::streambuf *old, *out; Silent() : old(std::cerr.rdbuf(this)), out(std::cout.rdbuf(this)) {} ~Silent() { std::cerr.rdbuf(old); std::cout.rdbuf(out); }
    int overflow(int c) override { return c == traits_type::eof() ? 0 : c; }
    std::streamsize xsputn(const char*, std::streamsize n) override { return n; }
};
struct Copy { std::string name; std::vector<Cfg*> cfgs; };
static const std::vector<Copy>& copies() {
    static std::vector<Copy> v;
    if (!v.empty()) return v;
    Copy base; base.name = "g++ -O2"; base.cfgs = configs(); v.push_back(base);
    const char* e = std::getenv("BN_SOS");
    std::istringstream in(e ? e : ""); std::string path;
    while (std::getline(in, path, ':')) {
        if (path.empty()) continue;
        void* h = dlopen(path.c_str(), RTLD_NOW | RTLD_LOCAL);
        if (!h) { std::fprintf(stderr, "dlopen: %s\n", dlerror()); std::_Exit(70); }
        typedef const std::vector<Cfg*>* (*fn)();
        fn f = reinterpret_cast<fn>(dlsym(h, "so_configs"));
        if (!f) { std::fprintf(stderr, "dlsym: %s\n", dlerror()); std::_Exit(70); }
        Copy k; const std::size_t a = path.rfind("so_"), b = path.find('-', a); k.name = path.substr(a + 3, b - a - 3); k.cfgs = *f();
        if (k.cfgs.size() != base.cfgs.size()) { std::fprintf(stderr, "configurations differ\n"); std::_Exit(70); }
        v.push_back(k);
    }
    if (v.size() < 2) { std::fprintf(stderr, "BN_SOS names no copies\n"); std::_Exit(70); }
    return v;
}
struct Punct : std::numpunct<char> {
    char do_decimal_point() const override { return ','; }
    char do_thousands_sep() const override { return '.'; }
    std::string do_grouping() const override { return "\1\2"; }
};
struct Environment { unsigned round, ftz, err, loc, heap; };
static Environment genEnv(Ctx& c) { Environment e; e.round = c.draw(3); e.ftz = c.draw(1); e.err = c.draw(2); e.loc = c.draw(1); e.heap = c.draw(2); return e; }
struct Scoped {
    int round; unsigned csr; std::locale old;
    explicit Scoped(const Environment& e) : round(fegetround()), csr(0) {
        static const int modes[4] = {FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO};
        static const std::locale odd(std::locale::classic(), new Punct);
        fesetround(modes[e.round]);
        #if defined(__x86_64__)
        csr = _mm_getcsr(); if (e.ftz) _mm_setcsr(_mm_getcsr() | 0x8040);
        #endif
        errno = e.err == 0 ? 0 : e.err == 1 ? ERANGE : EINTR;
        if (e.loc) old = std::locale::global(odd);
        static const int fill[3] = {0, 0xff, 0x5a}; mallopt(M_PERTURB, fill[e.heap]);
        feclearexcept(FE_ALL_EXCEPT); if (e.err) feraiseexcept(FE_INEXACT | FE_OVERFLOW);
    }
    ~Scoped() {
        mallopt(M_PERTURB, 0);
        std::locale::global(std::locale::classic());
        fesetround(round);
        #if defined(__x86_64__)
        _mm_setcsr(csr);
        #endif
        feclearexcept(FE_ALL_EXCEPT);
    }
};
static std::string showEnv(const Environment& e) {
    static const char* r[4] = {"nearest", "upward", "downward", "towards zero"};
    std::ostringstream o; o << "rounding " << r[e.round] << (e.ftz ? ", denormals flushed" : "") << ", errno " << e.err << (e.loc ? ", grouping locale" : "") << ", heap fill " << e.heap; return o.str();
}
// Every digit, whatever the locale
static std::string full(Desc d, const Digits& v) {
    std::string s = "+-n^v?"; s = s.substr(d, 1) + "["; const char* hex = "0123456789abcdef";
    for (std::size_t i = v.size(); i--;) { u64 x = v[i]; char t[20]; int n = 0; do t[n++] = hex[x & 15]; while (x >>= 4); while (n) s += t[--n]; if (i) s += ' '; }
    return s + "] ";
}
static std::string around(const std::string& s, std::size_t k) { const std::size_t a = k > 60 ? k - 60 : 0; return (a ? "..." : "") + s.substr(a, 160) + (a + 160 < s.size() ? "..." : ""); }
static void run(Ctx& c) {
    const std::vector<Copy>& all = copies();
    const std::size_t K = all.size(), N = 4;
    const std::size_t t = c.draw(all[0].cfgs.size() - 1); const Cfg& cfg = *all[0].cfgs[t];
    c.label("type " + cfg.name); c.mix(cfg.name);
    Environment env[16]; const bool steady = c.flip(1, 3);
    for (std::size_t k = 0; k < K; ++k) { env[k] = steady ? Environment() : genEnv(c); if (!steady) PBT_DESC(c, "[" << all[k].name << ": " << showEnv(env[k]) << "] "); }
    c.label(steady ? "environment default" : "environments differ");
    std::vector<std::vector<NumP>> v(K); std::ostringstream log;
    // runs f(copy) everywhere and compares what it reports
    std::string step;
    auto everywhere = [&](const std::function<std::string(std::size_t)>& f) {
        std::string want;
        for (std::size_t k = 0; k < K; ++k) {
            std::string got;
            { Scoped s(env[k]); Silent q; try { got = f(k); } catch (const Underflow&) { got = "BNUnderflow"; } catch (const LibError& e) { got = "bn_error_t " + std::to_string(e.code); } }
            if (!k) { want = got; continue; }
            std::size_t d = 0; while (d < got.size() && d < want.size() && got[d] == want[d]) ++d;
            if (got != want) PBT_FAIL(cfg.name << " after" << log.str() << " step" << step << " gives " << around(got, d) << " in build " << all[k].name << " (" << showEnv(env[k]) << "), but " << around(want, d) << " in build " << all[0].name << " (" << showEnv(env[0]) << ")");
        }
    };
    auto state = [&](std::size_t k, std::size_t i) { const Cfg& g = *all[k].cfgs[t]; return full(g.desc(*v[k][i]), g.digits(*v[k][i])); };
    Digits a, b; genMagPair(c, cfg.base, c.flip(1, 10) ? 700 : c.flip(1, 2) ? 150 : 30, a, b);
    for (std::size_t i = 0; i < N; ++i) {
        const Spell s = i == 0 ? withSign(c, a) : i == 1 ? withSign(c, b) : Spell(); mixSpell(c, s);
        if (i < 2) { PBT_DESC(c, " v" << i << "=" << show(s)); log << " v" << i << "=" << show(s) << ";"; }
        for (std::size_t k = 0; k < K; ++k) { Scoped e(env[k]); v[k].push_back(NumP(all[k].cfgs[t]->build(s.d, s.v))); }
    }
    const u64 steps = c.range(1, pbt::tier ? 24 : 10); std::size_t arith = 0;
    for (u64 q = 0; q < steps; ++q) {
        const std::size_t x = c.draw(N - 1), y = c.draw(N - 1), z = c.draw(N - 1); std::ostringstream st;
        const std::size_t kind = c.pick({16, 10, 4, 3, 4, 6, 5, 3, 3, 2, 5, 5});
        auto len = [&](std::size_t i) { return cfg.size(*v[0][i]); };
        std::function<std::string(std::size_t)> f;
        if (kind <= 1) {
            char op = "+-*/"[c.pick({3, 3, 5, 3})]; const std::size_t l = kind ? y : x, r = kind ? z : y;
            if (op == '*' && len(l) + len(r) > 1500) op = '-';
            if (op == '/') { unsigned per = 1; while (per < 32 && (cfg.base >> per) > 1) ++per; const std::size_t n = len(l), m = trimmed(cfg.digits(*v[0][r])); if (n > m && (n - m + 1) * per > 200) op = '+'; }
            ++arith;
            if (!kind) { st << " v" << x << op << "=v" << y; f = [&, op](std::size_t k) { const Cfg& g = *all[k].cfgs[t]; g.opAssign(*v[k][x], op, *v[k][y]); return state(k, x); }; }
            else { st << " v" << x << "=v" << y << op << "v" << z; f = [&, op](std::size_t k) { const Cfg& g = *all[k].cfgs[t]; NumP n(g.op(*v[k][y], op, *v[k][z])); v[k][x] = std::move(n); return state(k, x); }; }
        } else if (kind == 2) { st << " v" << x << "=v" << y; f = [&](std::size_t k) { all[k].cfgs[t]->copyAssign(*v[k][x], *v[k][y]); return state(k, x) + state(k, y); }; }
        else if (kind == 3) { if (x == y) continue; st << " v" << x << "=move(v" << y << ")"; f = [&](std::size_t k) { all[k].cfgs[t]->moveAssign(*v[k][x], *v[k][y]); return state(k, x) + state(k, y); }; }
        else if (kind == 4) { const Desc d = (Desc)c.pick({4, 4, 1, 1, 1}); st << " v" << x << ".setDescriptor(" << (int)d << ")"; f = [&, d](std::size_t k) { all[k].cfgs[t]->setDesc(*v[k][x], d); return state(k, x); }; }
        else if (kind == 5) { st << " compare v" << x << " v" << y; f = [&](std::size_t k) { std::string s; for (int m = C_EQ; m <= C_GE; ++m) s += all[k].cfgs[t]->cmp(*v[k][x], (Cmp)m, *v[k][y]) ? '1' : '0'; return s; }; }
        else if (kind == 6) {
            const unsigned base = c.draw(2), w = c.draw(1) * 3; st << " print v" << x;
            f = [&, base, w](std::size_t k) { std::ostringstream o; o.imbue(std::locale::classic()); o << (base == 0 ? std::dec : base == 1 ? std::hex : std::oct); o.width(w); all[k].cfgs[t]->print(o, *v[k][x]); o << ' ' << 17; return o.str(); };
        } else if (kind == 7) { const u64 d = genDigit(c, cfg.base); const std::size_t n = len(x), w = c.draw(3), p = c.draw(n); st << " edit v" << x << " " << w << " " << d << " " << p;
            f = [&, d, w, p](std::size_t k) { const Cfg& g = *all[k].cfgs[t]; Num& m = *v[k][x]; switch (w) { case 0: g.pushFront(m, d); break; case 1: g.pushBack(m, d); break; case 2: g.push(m, d, p); break; default: g.resize(m, p, d); } return state(k, x); }; }
        else if (kind == 8) { const std::size_t n = len(x), p = c.draw(n + 2); const u64 d = genDigit(c, cfg.base); st << " v" << x << "[" << p << "]=" << d;
            f = [&, d, p](std::size_t k) { const Cfg& g = *all[k].cfgs[t]; std::string s; try { g.set(*v[k][x], p, d); } catch (const LibError& e) { s = "bn_error_t " + std::to_string(e.code); } return s + state(k, x); }; }
        else if (kind == 9) { st << " queries v" << x; f = [&](std::size_t k) { const Cfg& g = *all[k].cfgs[t]; Num& m = *v[k][x]; std::ostringstream o; o.imbue(std::locale::classic()); o << g.isPositive(m) << g.isNegative(m) << g.isInfinite(m) << g.isNan(m) << g.size(m) << ' ' << g.minDigit() << ' ' << g.maxDigit() << ' ' << g.limitsMin() << ' ' << g.limitsMax(); return o.str(); }; }
        else if (kind == 11) {
            std::vector<u64> args; const unsigned m = genMisc(c, args, true); c.label(miscName(m)); st << " " << miscName(m); for (std::size_t i = 0; i < args.size() && i < 8; ++i) st << " " << args[i];
            ++arith; f = [&, args, m](std::size_t k) { return all[k].cfgs[t]->misc(m, args); };
        } else { // raw routines
            Digits p, r; genMagPair(c, cfg.base, 60, p, r); const std::size_t w = c.draw(4); st << " raw " << w << " " << show(D_POS, p) << " " << show(D_POS, r);
            if (w == 1 && valueOf(p, cfg.base) < valueOf(r, cfg.base)) std::swap(p, r);
            if (w == 2 && (r.empty() || p.size() > r.size() + 12)) continue;
            ++arith;
            f = [&, p, r, w](std::size_t k) { const Cfg& g = *all[k].cfgs[t]; Digits m = p, n = r, o; std::string s;
                switch (w) { case 0: g.absOp('+', m, n); break; case 1: g.absOp('-', m, n); break; case 2: g.absOp('/', m, n); break; case 3: o = trim(g.mulNaive(m, n)); break; default: o = trim(g.mulStrassen(m, n)); }
                for (int q = C_EQ; q <= C_GE; ++q) if (q != C_NE) s += g.absCmp((Cmp)q, m, n) ? '1' : '0';
                return full(D_POS, trim(m)) + full(D_POS, trim(n)) + full(D_POS, o) + s; };
        }
        c.mix(st.str()); step = st.str(); PBT_DESC(c, step << ";");
        everywhere(f);
        if (log.tellp() < 1500) log << step << ";";
    }
    if (arith >= 2) c.nontrivial();
    c.label(arith < 3 ? "arithmetic steps 0-2" : arith < 6 ? "arithmetic steps 3-5" : "arithmetic steps 6+");
}
static pbt::Registrar r({"C24", "histories of 1-10 public calls (thorough: 24) in lockstep on seven separately compiled copies of the library, each in its own rounding mode, denormal mode, errno, global locale and heap fill; digits, signs, text, verdicts and errors are compared after every step; non-trivial when at least two calls compute", run, 0, 0});
