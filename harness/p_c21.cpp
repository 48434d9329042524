// The Fourier layer against a direct long double transform, exact integer
// convolutions and algebraic identities.
#include "engine.h"
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstring>
#include <limits>
#include <vector>
#include "bignum/bignum.h"
#include "bignum/fourier.h"
using pbt::Ctx; using pbt::u64;
typedef long double ld; typedef std::complex<long double> CL;

static const ld PI = 3.141592653589793238462643383279502884L;
static const std::vector<CL>& roots(std::size_t n) {       // n-th roots of unity, n a power of two
    static std::vector<CL> memo[24]; std::size_t k = 0; while (((std::size_t)1 << k) < n) ++k;
    std::vector<CL>& r = memo[k];
    if (r.empty()) for (std::size_t i = 0; i < n; ++i) { const ld w = -2 * PI * (ld)i / (ld)n; r.push_back(CL(std::cos(w), std::sin(w))); }
    return r;
}
static CL bin(const std::vector<CL>& x, std::size_t k) {
    const std::vector<CL>& w = roots(x.size()); CL s = 0; const std::size_t n = x.size();
    for (std::size_t j = 0; j < n; ++j) s += x[j] * w[(j * k) & (n - 1)];
    return s;
}
struct Sm { u64 x; u64 operator()() { u64 z = (x += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); } };
static double unit(u64 r) { return (double)((long long)(r >> 11) - (1ll << 52)) / (double)(1ll << 52); }

static u64 bitsOf(ld x) { const double d = (double)x; u64 u; std::memcpy(&u, &d, sizeof u); return u; }

template <class F> struct Tol;
// u: unit roundoff; tol(n): error of a bin relative to the sum of magnitudes, with
// room for differently arranged butterflies (e.g. twiddle factors by recurrence)
template <> struct Tol<double> { static ld eps() { return 1e-11L; } static ld u() { return 1.11e-16L; } static const char* name() { return "double"; } };
// the layer's own pi is a double
template <> struct Tol<long double> { static ld eps() { return 1e-11L; } static ld u() { return 1.11e-16L; } static const char* name() { return "long double"; } };
template <> struct Tol<float> { static ld eps() { return 1e-4L; } static ld u() { return 5.96e-8L; } static const char* name() { return "float"; } };

template <class F> static ld tolOf(std::size_t n) { unsigned k = 0; while (((std::size_t)1 << k) < n) ++k; return Tol<F>::u() * (90.0L * (k + 1) + 4.0L * (ld)n); }

template <class F>
static std::vector<CL> genSignal(Ctx& c, std::size_t n) {
    std::vector<CL> x(n);
    double e10 = (double)c.draw(std::is_same<F, float>::value ? 4 : 9) - 3;
    if (c.flip(1, 8)) { e10 = std::is_same<F, float>::value ? (double)c.draw(16) - 8 : (double)c.draw(40) - 20; c.label("very small or large signal"); }
    const double scale = std::pow(10.0, e10);
    switch (c.pick({5, 3, 2, 2, 2, 2})) {
        case 0: if (n <= 32) { for (auto& e : x) { const double re = unit(c.draw(~0ull)), im = unit(c.draw(~0ull)); e = CL(re, im); } } else { Sm s = {c.draw(~0ull)}; for (auto& e : x) { const double re = unit(s()), im = unit(s()); e = CL(re, im); } } c.label("random signal"); break;
        case 1: x[c.draw(n - 1)] = 1; if (c.flip(1, 2)) x[c.draw(n - 1)] += CL(0, -1); c.label("impulse"); break;
        case 2: { const CL v(unit(c.draw(~0ull)), unit(c.draw(~0ull))); for (auto& e : x) e = v; c.label("constant"); break; }
        case 3: { const std::size_t k = c.draw(n - 1); for (std::size_t i = 0; i < n; ++i) x[i] = std::conj(roots(n)[(i * k) & (n - 1)]); c.label("pure tone"); break; }
        case 4: { Sm s = {c.draw(~0ull)}; for (auto& e : x) e = CL((double)(s() % 256), (double)(s() % 256)); c.label("integer signal"); break; }
        default: { Sm s = {c.draw(~0ull)}; for (auto& e : x) if (s() % 4 == 0) e = CL(unit(s()), 0); c.label("sparse real signal"); break; }
    }
    for (auto& e : x) e = CL((ld)(F)(e.real() * scale), (ld)(F)(e.imag() * scale));
    return x;
}
template <class F> static cmplx_list_t<F> toF(const std::vector<CL>& x) { cmplx_list_t<F> r; for (const CL& e : x) r.push_back(std::complex<F>((F)e.real(), (F)e.imag())); return r; }
template <class F> static CL wide(const std::complex<F>& e) { return CL(e.real(), e.imag()); }
template <class F>
static void near(const char* what, std::size_t n, std::size_t k, CL got, CL want, ld tol) {
    if (!(std::abs(got - want) <= tol)) PBT_FAIL("fft<" << Tol<F>::name() << "> length " << n << " " << what << " [" << k << "] gave " << got << ", expected " << want << " within " << tol);
}
template <class F>
static void transform(Ctx& c) {
    const unsigned maxK = pbt::tier ? 14 : 12;
    const unsigned k = c.flip(2, 3) ? (unsigned)c.draw(8) : (unsigned)c.draw(maxK);
    const std::size_t n = (std::size_t)1 << k;
    if (c.flip(1, 40)) { cmplx_list_t<F> e; fft_complex<F>(e); ifft_complex<F>(e); if (!e.empty()) PBT_FAIL("transform of an empty list is not empty"); c.label("empty list"); }
    const std::vector<CL> x = genSignal<F>(c, n);
    { std::ostringstream o; o << "length 2^" << (k < 4 ? "0-3" : k < 7 ? "4-6" : k < 10 ? "7-9" : "10+"); c.label(o.str()); }
    c.label(Tol<F>::name());
    if (n >= 2) c.nontrivial();
    ld l1 = 0, l2 = 0, mx = 0; for (const CL& e : x) { l1 += std::abs(e); l2 += std::norm(e); mx = std::max(mx, std::abs(e)); c.mix(bitsOf(e.real())); c.mix(bitsOf(e.imag())); }
    if (c.describing) { std::ostringstream o; o << "fft<" << Tol<F>::name() << "> length " << n << ", signal"; for (std::size_t i = 0; i < std::min<std::size_t>(n, 6); ++i) o << " " << x[i]; c.describe(o.str()); }
    const ld tol = tolOf<F>(n) * (l1 + 1e-30L);
    cmplx_list_t<F> y = toF<F>(x);
    fft_complex<F>(y);
    if (y.size() != n) PBT_FAIL("fft_complex changed the length from " << n << " to " << y.size());
    if (n <= 128) for (std::size_t i = 0; i < n; ++i) near<F>("bin", n, i, wide(y[i]), bin(x, i), tol);
    else for (int i = 0; i < 6; ++i) { const std::size_t b = i == 0 ? 0 : i == 1 ? n / 2 : c.draw(n - 1); near<F>("bin", n, b, wide(y[b]), bin(x, b), tol); }
    // Parseval
    ld e2 = 0; for (auto& e : y) e2 += std::norm(wide(e));
    if (!(std::fabs(e2 / (ld)n - l2) <= 4 * Tol<F>::eps() * (l2 + l1 * mx) + 1e-30L)) PBT_FAIL("fft<" << Tol<F>::name() << "> length " << n << " energy " << (double)(e2 / (ld)n) << ", expected " << (double)l2);
    // inverse both ways
    cmplx_list_t<F> z = y; ifft_complex<F>(z);
    if (z.size() != n) PBT_FAIL("ifft_complex changed the length from " << n << " to " << z.size());
    for (std::size_t i = 0; i < n; ++i) near<F>("ifft(fft)", n, i, wide(z[i]), x[i], tol);
    cmplx_list_t<F> q = toF<F>(x); ifft_complex<F>(q);
    for (int i = 0; i < 4; ++i) { const std::size_t b = c.draw(n - 1); near<F>("inverse bin", n, b, wide(q[b]), std::conj(bin([&] { std::vector<CL> v; for (auto& e : x) v.push_back(std::conj(e)); return v; }(), b)) / (ld)n, tol); }
    fft_complex<F>(q);
    for (std::size_t i = 0; i < n; ++i) near<F>("fft(ifft)", n, i, wide(q[i]), x[i], tol);
    // linearity
    if (c.flip(1, 4)) {
        const std::vector<CL> x2 = genSignal<F>(c, n); ld m1 = l1; for (auto& e : x2) m1 += std::abs(e);
        cmplx_list_t<F> s, y2 = toF<F>(x2); for (std::size_t i = 0; i < n; ++i) s.push_back(toF<F>(x)[i] + y2[i]);
        fft_complex<F>(s); fft_complex<F>(y2);
        for (std::size_t i = 0; i < n; i += n > 64 ? n / 64 : 1) near<F>("linearity", n, i, wide(s[i]), wide(y[i]) + wide(y2[i]), 4 * tolOf<F>(n) * (m1 + 1e-30L));
        c.label("linearity");
    }
}
// Long transforms: a few impulses, whose transform is known in closed form for
// every bin.
template <class F>
static void longTransform(Ctx& c) {
    const unsigned k = 10 + (unsigned)c.draw(pbt::tier ? 8 : 6); const std::size_t n = (std::size_t)1 << k;
    c.label("long transform"); c.nontrivial(); { std::ostringstream o; o << "length 2^" << (k < 13 ? "10-12" : k < 15 ? "13-14" : "15+"); c.label(o.str()); }
    const std::vector<CL>& w = roots(n);
    std::vector<std::size_t> at; std::vector<CL> amp; const std::size_t m = c.range(1, 3); ld l1 = 0;
    for (std::size_t i = 0; i < m; ++i) {
        at.push_back(c.flip(1, 3) ? (std::size_t)c.draw(8) : c.draw(n - 1)); amp.push_back(c.flip(1, 2) ? CL(1) : CL((ld)(F)unit(c.draw(~0ull)), (ld)(F)unit(c.draw(~0ull)))); l1 += std::abs(amp.back());
        c.mix(at.back()); c.mix((u64)(long long)(amp.back().real() * 1e9L));
    }
    c.mix(k); PBT_DESC(c, "fft<" << Tol<F>::name() << "> of " << m << " impulses, first at " << at[0] << ", length 2^" << k);
    cmplx_list_t<F> y(n, std::complex<F>(0)); for (std::size_t i = 0; i < m; ++i) y[at[i]] += std::complex<F>((F)amp[i].real(), (F)amp[i].imag());
    std::vector<CL> x; for (auto& e : y) x.push_back(wide(e));
    fft_complex<F>(y);
    if (y.size() != n) PBT_FAIL("fft_complex changed the length from " << n << " to " << y.size());
    const ld tol = tolOf<F>(n) * (l1 + 1e-30L);
    for (std::size_t b = 0; b < n; ++b) { CL s = 0; for (std::size_t i = 0; i < m; ++i) s += amp[i] * w[(at[i] * b) & (n - 1)]; near<F>("bin", n, b, wide(y[b]), s, tol * 1.5L); }
    ifft_complex<F>(y);
    for (std::size_t b = 0; b < n; ++b) near<F>("ifft(fft)", n, b, wide(y[b]), x[b], 3 * tol);
}
template <class C, class F>
static void conv(Ctx& c, const std::vector<u64>& a, const std::vector<u64>& b) {
    C x, y; for (u64 v : a) x.push_back((typename C::value_type)v);
    for (u64 v : b) y.push_back((typename C::value_type)v);
    const C x0 = x, y0 = y;
    const C& cx = x; const C& cy = y;
    cmplx_list_t<F> t = create_fft_table<C, F>(cx, cy);
    std::size_t want = a.size() + b.size(), p = 0;
    if (want) for (p = 1; p < want; p <<= 1) {}
    if (t.size() != p) PBT_FAIL("create_fft_table for lengths " << a.size() << " and " << b.size() << " has " << t.size() << " entries, expected " << p);
    for (std::size_t i = 0; i < p; ++i) {
        const F re = i < a.size() ? (F)a[i] : (F)0, im = i < b.size() ? (F)b[i] : (F)0;
        if (t[i].real() != re || t[i].imag() != im) PBT_FAIL("create_fft_table entry " << i << " is " << t[i] << ", expected (" << re << "," << im << ")");
    }
    convolute_fft<F>(t);
    if (t.size() != p) PBT_FAIL("convolute_fft changed the length from " << p << " to " << t.size());
    ifft_complex<F>(t);
    // exact cyclic convolution (linear, as the table holds both lengths)
    std::vector<u64> w(p, 0);
    for (std::size_t i = 0; i < a.size(); ++i) if (a[i]) for (std::size_t j = 0; j < b.size(); ++j) w[(i + j) & (p - 1)] += a[i] * b[j];
    for (std::size_t i = 0; i < p; ++i) {
        const ld g = std::floor((ld)t[i].real() + 0.5L);
        if (g != (ld)w[i]) PBT_FAIL("convolution of lengths " << a.size() << " and " << b.size() << " entry " << i << " rounds to " << (double)g << ", expected " << w[i]);
        if (!(std::fabs((double)t[i].imag()) < 0.49)) PBT_FAIL("convolution of lengths " << a.size() << " and " << b.size() << " entry " << i << " has imaginary part " << t[i].imag());
    }
    (void)c; if (x != x0 || y != y0) PBT_FAIL("create_fft_table modified its inputs");
}
static std::vector<u64> genSeq(Ctx& c, std::size_t n, u64 max) {
    std::vector<u64> v(n); if (!n) return v;
    switch (c.pick({4, 3, 2, 2})) {
        case 0: if (n <= 32) { for (u64& x : v) x = c.draw(max); } else { Sm s = {c.draw(~0ull)}; for (u64& x : v) x = max == ~0ull ? s() : s() % (max + 1); } break;
        case 1: for (u64& x : v) x = max; break;
        case 2: v[c.draw(n - 1)] = max; break;
        default: { Sm s = {c.draw(~0ull)}; for (u64& x : v) x = s() % 2 ? max : 0; break; }
    }
    return v;
}
// Two sequences as long as the table: the convolution wraps around.
template <class F>
static void cyclic(Ctx& c) {
    c.label("cyclic convolution of full tables"); c.label(Tol<F>::name());
    const std::size_t n = (std::size_t)1 << c.draw(std::is_same<F, float>::value ? 5 : pbt::tier ? 10 : 9);
    const u64 max = std::is_same<F, float>::value ? 9 : c.flip(1, 2) ? 255 : 30000;
    const std::vector<u64> a = genSeq(c, n, max), b = genSeq(c, n, max);
    for (u64 x : a) c.mix(x);
    for (u64 x : b) c.mix(x + 1);
    if (n >= 2) c.nontrivial();
    if (c.describing) { std::ostringstream o; o << "cyclic convolution, length " << n << ", of"; for (std::size_t i = 0; i < std::min<std::size_t>(n, 12); ++i) o << " " << a[i]; o << " with"; for (std::size_t i = 0; i < std::min<std::size_t>(n, 12); ++i) o << " " << b[i]; c.describe(o.str()); }
    cmplx_list_t<F> t; for (std::size_t i = 0; i < n; ++i) t.push_back(std::complex<F>((F)a[i], (F)b[i]));
    convolute_fft<F>(t); ifft_complex<F>(t);
    if (t.size() != n) PBT_FAIL("convolute_fft changed the length from " << n << " to " << t.size());
    std::vector<u64> w(n, 0);
    for (std::size_t i = 0; i < n; ++i) if (a[i]) for (std::size_t j = 0; j < n; ++j) w[(i + j) & (n - 1)] += a[i] * b[j];
    for (std::size_t i = 0; i < n; ++i) {
        const ld g = std::floor((ld)t[i].real() + 0.5L);
        if (g != (ld)w[i]) PBT_FAIL("cyclic convolution<" << Tol<F>::name() << "> of length " << n << " entry " << i << " rounds to " << (double)g << ", expected " << w[i]);
    }
}
static void convolution(Ctx& c) {
    c.label("convolution");
    const std::size_t kind = c.pick({4, 3, 3, 2, 2, 2});
    const std::size_t lim = kind == 1 ? 200 : 600;     // 16-bit: n * (2^16-1)^2 below 2^40
    auto len = [&]() -> std::size_t { switch (c.pick({3, 4, 3, 2})) { case 0: return c.draw(4); case 1: return c.draw(24); case 2: { const std::size_t p = (std::size_t)1 << c.range(1, 7); return p + c.draw(2) - 1; } default: return c.draw(lim / 2); } };
    std::size_t la = len(), lb = len();
    if (kind == 1) while (la + lb > 250) { la /= 2; lb /= 2; }
    const u64 max = kind == 0 ? 255 : kind == 1 ? 65535 : kind == 2 ? 9 : kind == 3 ? 15 : kind == 4 ? 1000 : 1;
    const std::vector<u64> a = genSeq(c, la, max), b = genSeq(c, lb, max);
    for (u64 x : a) c.mix(x);
    c.mix(la); for (u64 x : b) c.mix(x);
    if (la >= 2 && lb >= 2) c.nontrivial();
    if (!la || !lb) c.label("empty input");
    if (c.describing) { std::ostringstream o; o << "convolution (kind " << kind << ") of"; for (std::size_t i = 0; i < std::min<std::size_t>(la, 12); ++i) o << " " << a[i]; o << " (" << la << ") with"; for (std::size_t i = 0; i < std::min<std::size_t>(lb, 12); ++i) o << " " << b[i]; o << " (" << lb << ")"; c.describe(o.str()); }
    switch (kind) {
        case 0: conv<std::vector<BN_UINT8>, double>(c, a, b); break;
        case 1: conv<std::vector<BN_UINT16>, double>(c, a, b); break;
        case 2: conv<std::vector<bn_base10_single>, double>(c, a, b); break;
        case 3: conv<std::vector<bn_base16_single>, double>(c, a, b); break;
        case 4: conv<std::vector<BN_UINT32>, double>(c, a, b); break;
        default: if (la + lb < 200) conv<std::vector<bn_base2_single>, float>(c, a, b); else conv<std::vector<bn_base2_single>, double>(c, a, b); break;
    }
}
template <class T>
static void pow2(const char* name, u64 v) {
    const T t = (T)v; const unsigned bits = 8 * sizeof(T);
    unsigned pop = 0; for (u64 x = v; x; x &= x - 1) ++pop;
    if (isPow2<T>(t) != (pop == 1)) PBT_FAIL("isPow2<" << name << ">(" << v << ") is " << isPow2<T>(t));
    if (!v) return;
    u64 p = 1; while (p < v) { if (p >> (bits - 1)) return; p <<= 1; }    // not representable
    const u64 g = (u64)nextPow2<T>(t);
    if (g != p) PBT_FAIL("nextPow2<" << name << ">(" << v << ") is " << g << ", expected " << p);
}
static void pow2Random(Ctx& c) {
    c.label("isPow2/nextPow2");
    const unsigned w = (unsigned)c.draw(3), bits = 8u << w; u64 v;
    if (c.flip(1, 2)) v = (1ull << c.draw(bits - 1)) + c.draw(6) - 3; else v = c.draw(~0ull) >> c.draw(63);
    if (bits < 64) v &= (1ull << bits) - 1;
    if (v > 2) c.nontrivial();
    c.mix(v); c.mix(w); PBT_DESC(c, "isPow2/nextPow2 of " << v << " in " << bits << " bits");
    switch (w) { case 0: pow2<BN_UINT8>("uint8", v); break; case 1: pow2<BN_UINT16>("uint16", v); break; case 2: pow2<BN_UINT32>("uint32", v); break;
        default: pow2<BN_UINT64>("uint64", v); pow2<unsigned long>("unsigned long", v); pow2<unsigned long long>("unsigned long long", v); break; }
}
static void run(Ctx& c) {
    if (c.draw(63) == 0) {
        const u64 hi = c.draw(255); c.label("exhaustive 8/16-bit isPow2/nextPow2"); c.nontrivial(); c.mix(hi); c.mix("row");
        PBT_DESC(c, "isPow2/nextPow2 of the 256 16-bit values from " << hi * 256);
        pow2<BN_UINT8>("uint8", hi);
        for (u64 lo = 0; lo < 256; ++lo) { pow2<BN_UINT16>("uint16", hi << 8 | lo); pow2<BN_UINT32>("uint32", hi << 8 | lo); pow2<BN_UINT64>("uint64", hi << 8 | lo); }
        return;
    }
    if (c.draw(399) == 399) { if (c.flip(1, 5)) longTransform<float>(c); else if (c.flip(1, 5)) longTransform<long double>(c); else longTransform<double>(c); return; }
    switch (c.pick({8, 3, 10, 4, 1, 1})) {
        case 0: transform<double>(c); break;
        case 1: transform<float>(c); break;
        case 2: convolution(c); break;
        case 4: transform<long double>(c); break;
        case 5: { const u64 k = c.draw(3); if (k == 3) cyclic<float>(c); else if (k == 2) cyclic<long double>(c); else cyclic<double>(c); break; }
        default: pow2Random(c); break;
    }
}
static std::size_t rows() { return 256; }
static void row(std::size_t i, std::vector<u64>& v) { v.assign(1, 0); v.push_back(i); }
static pbt::Registrar r({"C21", "signals of every power-of-two length (random, impulse, constant, tone, integer, sparse) against a direct long double DFT, inversion, Parseval and linearity; integer sequences through the convolution pipeline against exact convolution, also cyclic ones of full tables; isPow2/nextPow2 exhaustively to 16 bits and at the borders above; a case is non-trivial when the length is at least 2 (both lengths for convolution), the value exceeds 2, or for an enumerated row", run, rows, row});
