// The same generated computations in every phase of a program: before main (in
// the first static initialiser), in main, in another thread, at the exit of a
// thread, in an atexit handler and in the last static destructor.  Prints one
// line per phase; all lines must be equal.  First object of the link.
#include <iostream>
#include <sstream>
#include <cstdlib>
#include <cstring>
#include <string>
#include <thread>
#include <unistd.h>
#include "bignum/bignum.h"

static unsigned long long envNumber(const char* n, unsigned long long d) { const char* e = std::getenv(n); return e ? std::strtoull(e, 0, 10) : d; }
struct Rng { unsigned long long x; unsigned long long operator()(unsigned long long n) { x += 0x9e3779b97f4a7c15ull; unsigned long long z = x; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return (z ^ (z >> 31)) % n; } };

template <class BN> static BN number(Rng& g, unsigned long long base, unsigned maxLen) {
    BN n; const unsigned len = (unsigned)g(maxLen) + 1;
    for (unsigned i = 0; i < len; ++i) { unsigned long long d = g(4) ? g(base) : base - 1; if (i + 1 == len && !d) d = 1; n.push_back((typename BN::bn_single)d); }
    if (g(2)) n.setDescriptor(BN_NEG);
    return n;
}
template <class BN> static void work(std::ostream& o, Rng g, unsigned long long base, unsigned steps) {
    BN a = number<BN>(g, base, 40), b = number<BN>(g, base, 20), c{BN_POS, {}};
    for (unsigned i = 0; i < steps; ++i) {
        switch (g(8)) {
            case 0: c = a + b; break;
            case 1: c = a - b; break;
            case 2: case 3: c = a * b; break;
            case 4: c = b; c *= b; c += a; break;
            case 5: { BN q = a * b; BN s{BN_POS, {(typename BN::bn_single)(1)}}; q += s; c = b; c /= number<BN>(g, base, 3); break; }
            case 6: c = number<BN>(g, base, 12); c.push_front((typename BN::bn_single)(base - 1)); c.pop_back(); c.resize(9, (typename BN::bn_single)1); break;
            default: { BN m(a); c = std::move(m); o << (a < b) << (a == c) << (b >= c) << ' '; break; }
        }
        o << c << ';';
        if (c.size() < 60) { if (g(2)) a = c; else b = a; }
        try { o << (unsigned long long)c[c.size() / 2] << ';'; } catch (bn_error_t e) { o << "error " << (int)e << ';'; }
        b = number<BN>(g, base, 20);
    }
}
static void phase(const char* name) {
    const unsigned long long seed = envNumber("PHASE_SEED", 1); const unsigned steps = (unsigned)envNumber("PHASE_STEPS", 6);
    std::ostringstream o, t; o << name << ' ';
    Rng g = {seed * 7919 + 13};
    struct Mute : std::streambuf { int overflow(int c) override { return c == traits_type::eof() ? 0 : c; } } mute;
    std::streambuf* old = std::cerr.rdbuf(&mute);
    switch (g(7)) {
        case 0: work<bignum_lowp>(t, g, 256, steps); break;
        case 1: work<bignum_medp>(t, g, 65536, steps); break;
        case 2: work<bignum_highp>(t, g, 1ull << 32, steps); break;
        case 3: work<bignum_base2>(t, g, 2, steps); break;
        case 4: work<bignum_base8>(t, g, 8, steps); break;
        case 5: work<bignum_base10>(t, g, 10, steps); break;
        default: work<bignum_base16>(t, g, 16, steps); break;
    }
    std::cerr.rdbuf(old);
    o << t.str() << '\n'; const std::string s = o.str();
    for (std::size_t w = 0; w < s.size();) { const ssize_t r = write(1, s.data() + w, s.size() - w); if (r <= 0) _exit(71); w += (std::size_t)r; }
}
// which phase uses the library first is part of the input
static bool wants(const char* name) { const char* e = std::getenv("PHASES"); return !e || std::strstr(e, name); }
struct Global { Global() { if (wants("init")) phase("init"); } ~Global() { if (wants("destructor")) phase("destructor"); } };
static Global first;
struct Local { ~Local() { if (wants("threadexit")) phase("threadexit"); } };
static thread_local Local* touch;
static thread_local Local local;
static void handler() { if (wants("atexit")) phase("atexit"); }
int main() {
    std::atexit(handler);
    if (wants("main")) phase("main");
    std::thread t([] { touch = &local; if (wants("thread,")) phase("thread"); });
    t.join();
    std::thread u([] { touch = &local; });
    u.join();
    return 0;
}
