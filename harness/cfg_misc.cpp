// The library's public functions that belong to no number type: digit integers
// and their streams, the Fourier layer, powers of two, assertions.  The outcome
// of a call as text, so that properties about schedules, builds and side effects
// cover them like the others.
#include "bignum/bignum.h"
#include "bignum/fourier.h"
#include "bignum/bn_except.h"
#include "misc.h"
#include <cmath>
#include <locale>
#include <sstream>
#include <vector>
typedef std::uint64_t u64;
namespace {
std::string num(u64 x) { std::string s; do s.insert(s.begin(), (char)('0' + x % 10)); while (x /= 10); return s; }
template <class T, u64 ID>
std::string digits(u64 x, u64 y) {
    typedef BNIntType<T, ID> N;
    const T p = (T)x, q = (T)y; const N a(p), b(q); std::string s;
    #define PUT(e) s += num((u64)(T)(e)) + ' '
    PUT(a + b); PUT(a - b); PUT(a * b); PUT(a & b); PUT(a | b); PUT(a ^ b); PUT(~a); PUT(-a); PUT(!a); PUT(a + q); PUT(p - b); PUT(p * b);
    if (q) { PUT(a / b); PUT(a % b); PUT(a / q); PUT(p % b); }
    const T k = (T)(q % (8 * sizeof(T))); PUT(a << k); PUT(a >> N(k));
    N m(a); PUT(m += b); PUT(m -= q); PUT(m *= b); PUT(m ^= b); PUT(m++); PUT(--m); PUT(m); m <<= k; PUT(m); m = b; PUT(m);
    #undef PUT
    s += a == b ? '1' : '0'; s += a < b ? '1' : '0'; s += a >= q ? '1' : '0'; s += p > b ? '1' : '0';
    return s;
}
template <class T, u64 ID>
std::string streams(u64 x, u64 y) {
    typedef BNIntType<T, ID> N;
    std::stringstream s; s.imbue(std::locale::classic());
    const u64 f = y % 32;
    if (f & 1) s.setf(std::ios::hex, std::ios::basefield); else if (f & 2) s.setf(std::ios::oct, std::ios::basefield);
    if (f & 4) s.setf(std::ios::showbase);
    if (f & 8) s.setf(std::ios::showpos | std::ios::uppercase);
    if (f & 16) s.width(9);
    s << N((T)x) << ' ' << N((T)y) << ' ';
    N a((T)1), b((T)2), c((T)3); s >> a >> b >> c;
    return s.str() + "/" + num((u64)(T)a) + ' ' + num((u64)(T)b) + ' ' + num((u64)(T)c) + ' ' + num((u64)s.rdstate());
}
template <class F>
std::string convolution(const std::vector<u64>& v) {
    const std::size_t h = v.size() / 2; std::vector<unsigned> a(v.begin(), v.begin() + (std::ptrdiff_t)h), b(v.begin() + (std::ptrdiff_t)h, v.end());
    cmplx_list_t<F> t = create_fft_table<std::vector<unsigned>, F>(a, b);
    std::string s = num(t.size()) + ":";
    convolute_fft<F>(t); ifft_complex<F>(t);
    for (const std::complex<F>& e : t) { s += std::to_string((long long)std::floor((double)e.real() + 0.5)); s += ' '; }
    return s;
}
template <class F>
std::string roundTrip(const std::vector<u64>& v) {
    std::size_t n = 1; while (n < v.size()) n *= 2;
    cmplx_list_t<F> t(n); for (std::size_t i = 0; i < v.size(); ++i) t[i] = std::complex<F>((F)v[i], (F)(v[v.size() - 1 - i] & 7));
    fft_complex<F>(t);
    std::string s = std::to_string((long long)std::floor((double)t[0].real() + 0.5)) + ':';      // the sum
    ifft_complex<F>(t);
    for (const std::complex<F>& e : t) { s += std::to_string((long long)std::floor((double)e.real() + 0.5)); s += ','; s += std::to_string((long long)std::floor((double)e.imag() + 0.5)); s += ' '; }
    return s;
}
template <class T> std::string powers(u64 x) {
    const T t = (T)x; std::string s = isPow2<T>(t) ? "1 " : "0 ";
    if (t && t <= (T)((T)1 << (8 * sizeof(T) - 1))) s += num((u64)nextPow2<T>(t));
    return s + ' ';
}
std::string assertion(u64 level, bool holds, u64 x) {
    static const bn_error_t levels[] = {BN_ALERT, BN_WARNING, BN_ERROR};
    const std::string msg = "message " + num(x);
    try { bn_runtime_assert(holds, levels[level % 3], msg.c_str()); } catch (bn_error_t e) { return "threw " + num((u64)e); }
    return "returned";
}
}
std::string miscCall(unsigned which, const std::vector<u64>& v) {
    const u64 x = v.size() > 0 ? v[0] : 0, y = v.size() > 1 ? v[1] : 0;
    switch (which) {
        case 0: return digits<BN_UINT8, 2>(x, y) + digits<BN_UINT16, 8>(x, y) + digits<BN_UINT32, 10>(x, y) + digits<BN_UINT64, 16>(x, y);
        case 1: return streams<BN_UINT8, 2>(x, y) + streams<BN_UINT16, 8>(x, y) + streams<BN_UINT32, 16>(x, y) + streams<BN_UINT64, 10>(x, y);
        case 2: return convolution<double>(v) + convolution<long double>(v);
        case 3: return roundTrip<double>(v) + roundTrip<float>(v) + roundTrip<long double>(v);
        case 4: return powers<unsigned char>(x) + powers<unsigned short>(x) + powers<unsigned>(x) + powers<unsigned long>(x) + powers<unsigned long long>(x);
        case 5: return assertion(x, true, y);
        case 6: return assertion(x, false, y);
        default: { const BNNaN n; const BNUnderflow u; BNUnderflow w; w = u; return std::string(n.what()) + '/' + w.what(); }
    }
}
