#include "ops.h"
#include <cfenv>
#include <clocale>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <iomanip>
#include <iostream>
#include <locale>
#include <new>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#if defined(__x86_64__)
#include <immintrin.h>
#endif
// Operations affect their operands and nothing else.
extern char** environ;
namespace {
struct Capture : std::streambuf {
    std::string got;
    int overflow(int c) override { fault::Pause p; if (c != traits_type::eof()) got += (char)c; return c == traits_type::eof() ? 0 : c; }
    std::streamsize xsputn(const char* s, std::streamsize n) override { fault::Pause p; got.append(s, (std::size_t)n); return n; }
};
struct Format {
    std::ios::fmtflags f; std::streamsize w, p; char fill; std::ios::iostate s, e; std::streambuf* b; std::ostream* tie; std::locale l;
    explicit Format(std::ios& o) : f(o.flags()), w(o.width()), p(o.precision()), fill(o.fill()), s(o.rdstate()), e(o.exceptions()), b(o.rdbuf()), tie(o.tie()), l(o.getloc()) {}
    const char* differs(const Format& o) const {
        return f != o.f ? "flags" : w != o.w ? "width" : p != o.p ? "precision" : fill != o.fill ? "fill character" : s != o.s ? "state" : e != o.e ? "exception mask" : b != o.b ? "buffer" : tie != o.tie ? "tied stream" : l != o.l ? "locale" : 0;
    }
    void restore(std::ios& o) const { o.exceptions(std::ios::goodbit); o.clear(); o.rdbuf(b); o.flags(f); o.width(w); o.precision(p); o.fill(fill); o.clear(s); o.exceptions(e); o.tie(tie); o.imbue(l); }
};
static std::ios* const streams[] = {&std::cout, &std::cerr, &std::clog, &std::cin};
static const char* const names[] = {"cout", "cerr", "clog", "cin"};
unsigned control() {
#if defined(__x86_64__)
    return _mm_getcsr() & 0xffc0;
#else
    return 0;
#endif
}
unsigned x87() {
#if defined(__x86_64__)
    unsigned short w; __asm__ volatile("fnstcw %0" : "=m"(w)); return w;
#else
    return 0;
#endif
}
// What is looked at around every call
struct State {
    int round; unsigned csr, cw; std::locale loc; std::vector<Format> f; std::size_t out[4];
    State(const Capture* cap) : round(fegetround()), csr(control()), cw(x87()) { for (int i = 0; i < 4; ++i) { f.push_back(Format(*streams[i])); out[i] = cap[i].got.size(); } }
};
// What is looked at around a case
struct World {
    struct sigaction sa[32]; sigset_t mask; std::string cwd, env, cloc; int fd; std::terminate_handler th; std::new_handler nh; mode_t um;
    World() {
        for (int s = 1; s < 32; ++s) if (sigaction(s, 0, &sa[s])) std::memset(&sa[s], 0, sizeof sa[s]);
        sigprocmask(SIG_SETMASK, 0, &mask);
        char b[4096]; cwd = getcwd(b, sizeof b) ? b : "";
        for (char** e = environ; e && *e; ++e) { env += *e; env += '\n'; }
        cloc = std::setlocale(LC_ALL, 0);
        fd = dup(0); if (fd >= 0) close(fd);
        th = std::get_terminate(); nh = std::get_new_handler(); um = umask(0); umask(um);
    }
    const char* differs(const World& o) const {
        for (int s = 1; s < 32; ++s) if (sa[s].sa_handler != o.sa[s].sa_handler || sa[s].sa_flags != o.sa[s].sa_flags) return "a signal handler";
        for (int s = 1; s < 32; ++s) if (sigismember(&mask, s) != sigismember(&o.mask, s)) return "the signal mask";
        return cwd != o.cwd ? "the working directory" : env != o.env ? "the environment" : cloc != o.cloc ? "the C locale" : fd != o.fd ? "the open files" : th != o.th ? "the terminate handler" : nh != o.nh ? "the new handler" : um != o.um ? "the file mode mask" : 0;
    }
};
struct Punct : std::numpunct<char> { std::string do_grouping() const override { return "\3"; } };
// The process as the library finds it
struct Setting {
    unsigned round, ftz, fmt, loc;
    std::vector<Format> old; std::locale oldLoc; int oldRound; unsigned oldCsr; Capture cap[4];
    Setting(Ctx& c) : round(c.draw(3)), ftz(c.draw(1)), fmt(c.draw(15)), loc(c.draw(1)), oldRound(fegetround()), oldCsr(0) {
        static const std::locale odd(std::locale::classic(), new Punct);
        static const int modes[4] = {FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO};
        for (std::ios* s : streams) old.push_back(Format(*s));
        if (loc) oldLoc = std::locale::global(odd);
        for (int i = 0; i < 4; ++i) {
            std::ios& s = *streams[i]; s.rdbuf(&cap[i]); s.clear();
            if (fmt & 1) { s.setf(std::ios::hex, std::ios::basefield); s.setf(std::ios::showbase | std::ios::uppercase); }
            if (fmt & 2) { s.precision(11 + i); s.width(7); s.fill('#'); s.setf(std::ios::scientific, std::ios::floatfield); }
            if (fmt & 4) { s.setf(std::ios::boolalpha | std::ios::showpos); if (i == 3) s.setstate(std::ios::failbit); }
            if (fmt & 8) s.setstate(i & 1 ? std::ios::badbit : std::ios::failbit);
        }
        fesetround(modes[round]);
        #if defined(__x86_64__)
        oldCsr = _mm_getcsr(); if (ftz) _mm_setcsr(oldCsr | 0x8040);
        #endif
    }
    ~Setting() {
        for (int i = 0; i < 4; ++i) old[i].restore(*streams[i]);
        if (loc) std::locale::global(oldLoc);
        #if defined(__x86_64__)
        _mm_setcsr(oldCsr);
        #endif
        fesetround(oldRound); feclearexcept(FE_ALL_EXCEPT);
    }
    std::string text() const {
        static const char* r[4] = {"nearest", "upward", "downward", "towards zero"};
        std::ostringstream o; o.imbue(std::locale::classic()); o << "rounding " << r[round] << (ftz ? ", denormals flushed" : "") << ", format " << fmt << (loc ? ", grouping locale" : ""); return o.str();
    }
};
// Standard output and error below the stream layer
struct Files {
    int keep[2], file; bool on;
    explicit Files(bool o) : file(-1), on(o) {
        if (!on) return;
        file = memfd_create("out", 0); if (file < 0) { on = false; return; }
        std::fflush(0);
        for (int i = 0; i < 2; ++i) { keep[i] = dup(i + 1); dup2(file, i + 1); }
    }
    std::string finish() {
        if (!on) return "";
        on = false; std::fflush(0);
        for (int i = 0; i < 2; ++i) { dup2(keep[i], i + 1); close(keep[i]); }
        std::string s(200, 0); const ssize_t n = pread(file, &s[0], s.size(), 0); s.resize(n > 0 ? (std::size_t)n : 0); close(file); return s;
    }
    ~Files() { finish(); }
};
}
static void run(Ctx& c) {
    const Cfg& cfg = genCfg(c); c.label("type " + cfg.name); c.mix(cfg.name);
    const std::size_t N = 3;
    Digits a, b; genMagPair(c, cfg.base, c.flip(1, 8) ? 300 : c.flip(1, 2) ? 80 : 12, a, b);
    std::vector<NumP> v;
    for (std::size_t i = 0; i < N; ++i) {
        Spell s = i == 0 ? withSign(c, a) : i == 1 ? withSign(c, b) : Spell();
        if (c.flip(1, 16)) { const Desc d[] = {D_NAN, D_PINF, D_NINF}; s = Spell(); s.d = d[c.draw(2)]; }
        mixSpell(c, s); v.push_back(make(cfg, s)); PBT_DESC(c, " v" << i << "=" << show(s));
    }
    const bool below = c.flip(1, 3);
    const unsigned seed = (unsigned)c.draw(0xffff);
    const World before;
    Setting set(c);
    Files files(below);
    PBT_DESC(c, " [" << set.text() << (below ? ", descriptors watched" : "") << "]");
    srand(seed); int want[2]; for (int& w : want) w = rand(); srand(seed);
    const u64 steps = c.range(1, pbt::tier ? 16 : 6); std::size_t computed = 0; std::string log;
    for (u64 q = 0; q < steps; ++q) {
        const std::size_t x = c.draw(N - 1), y = c.draw(N - 1), z = c.draw(N - 1); std::ostringstream st; st.imbue(std::locale::classic());
        const std::size_t kind = c.pick({10, 10, 3, 3, 4, 4, 4, 3, 2, 4});
        const bool faulty = c.flip(1, 3); const long which = faulty ? (long)c.range(1, c.flip(1, 2) ? 4 : 40) : 0;
        auto len = [&](std::size_t i) { return cfg.size(*v[i]); };
        std::function<void()> f; bool reports = false; int where = 1;     // the stream of a report
        if (kind <= 1) {
            char op = "+-*/"[c.pick({3, 3, 5, 3})]; const std::size_t l = kind ? y : x, r = kind ? z : y;
            if (op == '*' && len(l) + len(r) > 1500) op = '-';
            if (op == '/') { unsigned per = 1; while (per < 32 && (cfg.base >> per) > 1) ++per; const std::size_t n = len(l), m = trimmed(cfg.digits(*v[r])); if (n > m && (n - m + 1) * per > 200) op = '+'; }
            ++computed;
            if (!kind) { st << " v" << x << op << "=v" << y; f = [&, op, x, y] { cfg.opAssignF(*v[x], op, *v[y]); }; }
            else { st << " v" << x << "=v" << y << op << "v" << z; f = [&, op, x, y, z] { NumP n(cfg.opF(*v[y], op, *v[z])); v[x] = std::move(n); }; }
        } else if (kind == 2) { st << " v" << x << "=v" << y; f = [&, x, y] { cfg.copyAssignF(*v[x], *v[y]); }; }
        else if (kind == 3) { st << " v" << x << "=copy of v" << y; f = [&, x, y] { NumP n(cfg.copyF(*v[y])); v[x] = std::move(n); }; }
        else if (kind == 4) { st << " compare v" << x << " v" << y; ++computed; f = [&, x, y] { for (int m = C_EQ; m <= C_GE; ++m) cfg.cmp(*v[x], (Cmp)m, *v[y]); }; }
        else if (kind == 5) { st << " print v" << x; f = [&, x] { std::ostringstream o; cfg.print(o, *v[x]); }; }
        else if (kind == 6) { const u64 d = genDigit(c, cfg.base); const std::size_t w = c.draw(3), p = c.draw(len(x)); st << " edit v" << x << " " << w << " at " << p; f = [&, d, w, p, x] { cfg.editF(*v[x], (int)w, d, p); }; }
        else if (kind == 7) { const std::size_t p = c.draw(len(x) + 2); const bool mut = c.flip(1, 2); reports = p >= len(x); st << " v" << x << "[" << p << "]"; f = [&, p, x, mut] { if (mut) cfg.getMut(*v[x], p); else cfg.get(*v[x], p); }; }
        else if (kind == 9) {
            std::vector<u64> args; const unsigned m = genMisc(c, args, true); st << " " << miscName(m); for (std::size_t i = 0; i < args.size() && i < 8; ++i) st << " " << args[i];
            c.label(miscName(m)); reports = m == 6; if (reports && args[0] % 3 == 0) where = 0;      // alerts go to cout
            ++computed; f = [&, args, m] { cfg.misc(m, args); };
        } else { // raw routines, with the exception of a debug build
            Digits p, r; genMagPair(c, cfg.base, 20, p, r); const std::size_t w = c.draw(3); st << " raw " << w;
            if (w == 2) continue;
            if (w == 1 && !cfg.debugBuild() && valueOf(p, cfg.base) < valueOf(r, cfg.base)) std::swap(p, r);
            ++computed;
            f = [&, p, r, w] { Digits m = p, n = r; switch (w) { case 0: cfg.absOp('+', m, n); break; case 1: cfg.absOp('-', m, n); break; default: cfg.mulStrassen(m, n); } };
        }
        if (faulty) st << " (allocation " << which << " fails)";
        c.mix(st.str()); PBT_DESC(c, st.str() << ";");
        if (reports) c.label("reported error");
        const State s0(set.cap);
        bool threw = false;
        fault::seen = 0; fault::fired = false; fault::countdown = which;
        try { f(); } catch (const std::bad_alloc&) { threw = true; } catch (const LibError&) { threw = true; } catch (const Underflow&) { threw = true; }
        fault::window = false; fault::countdown = 0;
        if (threw) c.label(fault::fired ? "call ended by an allocation failure" : "call ended by an error");
        const State s1(set.cap);
        auto fail = [&](const std::string& what) { const std::string head = set.text(); files.finish(); PBT_FAIL(cfg.name << ": after" << log << ", the call" << st.str() << (threw ? ", which threw," : "") << " " << what << " (" << head << ")"); };
        if (s0.round != s1.round) fail("changed the rounding mode");
        if (s0.csr != s1.csr || s0.cw != s1.cw) fail("changed the floating-point control word");
        if (s0.loc != s1.loc) fail("changed the global locale");
        for (int i = 0; i < 4; ++i) {
            if (reports && i == where) continue;
            if (s0.out[i] != s1.out[i]) fail(std::string("wrote to std::") + names[i] + ": \"" + set.cap[i].got.substr(s0.out[i], 60) + "\"");
            if (const char* d = s0.f[i].differs(s1.f[i])) fail(std::string("changed the ") + d + " of std::" + names[i]);
        }
        if (reports) {
            if (s0.f[where].s == std::ios::goodbit ? s1.out[where] == s0.out[where] : s1.out[where] != s0.out[where]) fail(s0.f[where].s == std::ios::goodbit ? std::string("reported nothing") : std::string("wrote to std::") + names[where] + " in spite of its state");
            if (s1.f[where].b != s0.f[where].b || s1.f[where].f != s0.f[where].f || s1.f[where].p != s0.f[where].p || s1.f[where].fill != s0.f[where].fill || (s0.f[where].s == std::ios::goodbit ? s1.f[where].s != s0.f[where].s : (s1.f[where].s | std::ios::failbit) != (s0.f[where].s | std::ios::failbit))) fail(std::string("changed the formatting or state of std::") + names[where]);
            if (set.fmt & 2) streams[where]->width(7);
        }
        if (std::uncaught_exceptions()) fail("left an exception in flight");
        if (log.size() < 600) log += st.str() + ";";
    }
    if (rand() != want[0] || rand() != want[1]) { files.finish(); PBT_FAIL(cfg.name << ": the calls" << log << " changed the sequence of rand()"); }
    const std::string out = files.finish();
    if (!out.empty()) PBT_FAIL(cfg.name << ": the calls" << log << " wrote to standard output or error: \"" << out << "\"");
    const World after;
    if (const char* d = before.differs(after)) PBT_FAIL(cfg.name << ": the calls" << log << " changed " << d);
    if (computed) c.nontrivial();
    c.label(below ? "descriptors watched" : "streams watched");
}
static pbt::Registrar r({"C26", "histories of 1-6 public calls (thorough: 16), some ended by a failed allocation or an error, each between two snapshots of the process: rounding and control modes, locales, formatting and content of the standard streams, descriptors 1 and 2, rand(), signals, environment, working directory, open files, handlers; non-trivial when at least one call computes", run, 0, 0});
