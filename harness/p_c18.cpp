// Stream round trips of the digit integer type.
#include "engine.h"
#include "bignum/bignum.h"
#include <algorithm>
#include <cstdio>
#include <locale>
using pbt::Ctx; using pbt::u64;
static u64 maskOf(unsigned bits) { return bits == 64 ? ~0ull : (1ull << bits) - 1; }
static std::string numeral(u64 v) { char b[24]; int n = 24; b[--n] = 0; do { b[--n] = (char)('0' + v % 10); v /= 10; } while (v); return b + n; }

template <class T, u64 ID>
struct Trip {
    typedef BNIntType<T, ID> N;
    static std::string name() { std::ostringstream o; o << "BNIntType<uint" << 8 * sizeof(T) << "," << ID << ">"; return o.str(); }
    static void one(u64 v) {
        std::stringstream s; s << N((T)v);
        if (s.str() != numeral(v)) PBT_FAIL(name() << ": writing " << v << " gave \"" << s.str() << "\"");
        N y((T)(v + 1)); s >> y;
        if (s.fail()) PBT_FAIL(name() << ": reading \"" << numeral(v) << "\" back failed");
        if (y.num != (T)v) PBT_FAIL(name() << ": reading \"" << numeral(v) << "\" gave " << (u64)y.num);
    }
    static void seq(const std::vector<u64>& v, const std::vector<std::string>& sep, bool viaFile) {
        std::stringstream s; std::string want = sep[0];
        s << sep[0];
        for (std::size_t i = 0; i < v.size(); ++i) { std::ostream& o = (s << N((T)v[i])); o << sep[i + 1]; want += numeral(v[i]) + sep[i + 1]; }
        if (s.str() != want) PBT_FAIL(name() << ": sequence written as \"" << s.str() << "\", expected \"" << want << "\"");
        std::istringstream in(s.str());
        std::istream& src = viaFile ? (std::istream&)in : (std::istream&)s;
        for (std::size_t i = 0; i < v.size(); ++i) {
            N y((T)~v[i]); src >> y;
            if (src.fail()) PBT_FAIL(name() << ": reading value " << i << " of \"" << want << "\" failed");
            if (y.num != (T)v[i]) PBT_FAIL(name() << ": value " << i << " of \"" << want << "\" was read as " << (u64)y.num);
        }
    }
};
// --- any stream state, any text: what a plain integer of that width does
struct Punct : std::numpunct<char> {
    char do_thousands_sep() const { return ','; }
    std::string do_grouping() const { return "\3"; }
};
static const std::locale& grouping() { static const std::locale l(std::locale::classic(), new Punct); return l; }
struct Form { unsigned base, flags, width, locale; };
static Form genForm(Ctx& c) {
    Form f; f.base = (unsigned)c.pick({4, 2, 2, 2}); f.flags = (unsigned)c.draw(63); f.width = c.flip(1, 3) ? (unsigned)c.draw(c.flip(1, 6) ? 300 : 24) : 0; f.locale = c.flip(1, 4);
    return f;
}
static void dress(std::ios& s, const Form& f) {
    s.setf(f.base == 0 ? std::ios::dec : f.base == 1 ? std::ios::hex : f.base == 2 ? std::ios::oct : std::ios::fmtflags(0), std::ios::basefield);
    if (f.flags & 1) s.setf(std::ios::showbase);
    if (f.flags & 2) s.setf(std::ios::uppercase);
    if (f.flags & 4) s.setf(std::ios::showpos);
    if (f.flags & 8) s.unsetf(std::ios::skipws);
    if (f.flags & 16) { s.setf(std::ios::left, std::ios::adjustfield); s.fill('.'); }
    else if (f.flags & 32) s.setf(std::ios::internal, std::ios::adjustfield);
    if (f.locale) s.imbue(grouping());
}
// the plain integer: 8-bit numbers are read as 16-bit ones that must not exceed 255
template <class T> struct Plain {
    T v;
    static void put(std::ostream& o, T v) { o << v; }
    void get(std::istream& i) { i >> v; }
};
template <> struct Plain<BN_UINT8> {
    unsigned short v;
    static void put(std::ostream& o, BN_UINT8 v) { o << (unsigned)v; }
    void get(std::istream& i) { i >> v; if (v > 255) { v = 255; i.setstate(std::ios::failbit); } }
};
template <class T, u64 ID>
struct Streams {
    typedef BNIntType<T, ID> N;
    static std::string name() { return Trip<T, ID>::name(); }
    static std::string rest(std::istream& s) { s.exceptions(std::ios::goodbit); s.clear(); std::string o; char ch; while (s.get(ch)) o += ch; return o; }
    static void write(const std::vector<u64>& v, const Form& f) {
        std::ostringstream a, b; dress(a, f); dress(b, f);
        for (u64 x : v) {
            a.width(f.width); b.width(f.width);
            a << N((T)x); Plain<T>::put(b, (T)x);
            if (a.width() != b.width() || a.rdstate() != b.rdstate() || a.flags() != b.flags()) PBT_FAIL(name() << ": writing " << x << " left the stream with width " << a.width() << ", state " << a.rdstate() << ", flags " << a.flags() << " instead of " << b.width() << ", " << b.rdstate() << ", " << b.flags());
            a << '|'; b << '|';
        }
        if (a.str() != b.str()) PBT_FAIL(name() << ": written as \"" << a.str() << "\" where plain integers give \"" << b.str() << "\"");
        // and read back under the same flags, when no padding or separator is in the way
        if (f.width || f.base == 3) return;
        for (u64 x : v) {
            std::stringstream s; dress(s, f); s << N((T)x);
            const std::string t = s.str();
            N y((T)~x); s >> y;
            if (s.fail() || y.num != (T)x) PBT_FAIL(name() << ": \"" << t << "\", written for " << x << ", was read back as " << (u64)y.num << (s.fail() ? " with a failure" : ""));
        }
    }
    static void read(const std::string& t, const Form& f, std::size_t n, u64 start, unsigned mask, bool clear) {
        std::istringstream a(t), b(t); dress(a, f); dress(b, f);
        const std::ios::iostate m = mask == 1 ? std::ios::failbit : mask == 2 ? std::ios::eofbit | std::ios::badbit : std::ios::goodbit;
        a.exceptions(m); b.exceptions(m);
        N x((T)start); Plain<T> y; y.v = (T)start;
        for (std::size_t k = 0; k < n; ++k) {
            bool ta = false, tb = false;
            try { std::istream& r = (a >> x); if (&r != &a) PBT_FAIL(name() << ": reading returned another stream"); } catch (const std::ios_base::failure&) { ta = true; }
            try { y.get(b); } catch (const std::ios_base::failure&) { tb = true; }
            if (ta != tb) PBT_FAIL(name() << ": reading value " << k << " of \"" << t << "\" " << (ta ? "threw" : "did not throw") << ", unlike a plain integer");
            if (ta) break;     // the value is not judged
            if (a.rdstate() != b.rdstate()) PBT_FAIL(name() << ": reading value " << k << " of \"" << t << "\" left the stream in state " << a.rdstate() << ", a plain integer in " << b.rdstate());
            if (x.num != (T)y.v) PBT_FAIL(name() << ": value " << k << " of \"" << t << "\" was read as " << (u64)x.num << ", by a plain integer as " << (u64)y.v);
            if (clear && !a.eof()) { a.clear(); b.clear(); if (a.peek() != EOF && k % 2) { a.get(); b.get(); } }
            if (a.flags() != b.flags()) PBT_FAIL(name() << ": reading changed the flags of the stream");
        }
        const std::string ra = rest(a), rb = rest(b);
        if (ra != rb) PBT_FAIL(name() << ": after reading from \"" << t << "\" \"" << ra << "\" is left, by plain integers \"" << rb << "\"");
    }
};
struct Type {
    const char* label; unsigned bits; void (*one)(u64); void (*seq)(const std::vector<u64>&, const std::vector<std::string>&, bool);
    void (*write)(const std::vector<u64>&, const Form&); void (*read)(const std::string&, const Form&, std::size_t, u64, unsigned, bool);
};
#define TY(T, ID, L) {L, 8 * sizeof(T), Trip<T, ID>::one, Trip<T, ID>::seq, Streams<T, ID>::write, Streams<T, ID>::read}
static const Type types[] = {
    TY(BN_UINT8, 255, "width 8"), TY(BN_UINT8, 2, "width 8"), TY(BN_UINT16, 65535, "width 16"), TY(BN_UINT16, 8, "width 16"),
    TY(BN_UINT32, 4294967295u, "width 32"), TY(BN_UINT32, 10, "width 32"), TY(BN_UINT32, 16, "width 32"), TY(BN_UINT64, 10, "width 64"), TY(BN_UINT64, 7, "width 64"),
};
static const std::size_t NT = sizeof types / sizeof *types;
static u64 genVal(Ctx& c, unsigned bits) {
    const u64 m = maskOf(bits);
    switch (c.pick({3, 2, 2, 3})) {
        case 0: return c.draw(m);
        case 1: return c.draw(std::min<u64>(m, 300));
        case 2: return m - c.draw(std::min<u64>(m, 300));
        default: { u64 p = 1; for (u64 k = c.draw(19); k--;) if (p <= m / 10) p *= 10; return std::min(m, p + c.draw(2) - 1); }
    }
}
static std::string genText(Ctx& c, unsigned bits) {
    static const char* odd[] = {"x", "0x", "0X1f", "-1", "+3", "-", "+", "1e3", "1.5", "0008", ",", "1,234", "12,34", "1,234,567", "0x", "abc", "ffff", "0xg", "\v", ".", "99999999999999999999999", "-0", "0777", "18446744073709551615", "18446744073709551616", "256", "255", "65536", "4294967296", "-4294967296"};
    static const char* seps[] = {" ", "", "\n", "\t ", "  ", ";", "\r\n", " \f"};
    std::string o;
    for (u64 k = c.draw(6); k--;) {
        switch (c.pick({4, 3, 2})) {
            case 0: { const u64 v = genVal(c, bits); char b[40]; const unsigned f = (unsigned)c.pick({4, 1, 1, 1}); std::snprintf(b, sizeof b, f == 0 ? "%llu" : f == 1 ? "%llx" : f == 2 ? "%llo" : "%#llX", (unsigned long long)v); o += b; break; }
            case 1: o += odd[c.draw(sizeof odd / sizeof *odd - 1)]; break;
            default: o += (char)(32 + c.draw(94)); break;
        }
        o += seps[c.pick({6, 1, 1, 1, 1, 1, 1, 1})];
    }
    if (bits == 8) o.erase(std::remove(o.begin(), o.end(), '-'), o.end());
    return o;
}
static void anyText(Ctx& c, const Type& t) {
    const Form f = genForm(c);
    c.mix(f.base); c.mix(f.flags); c.mix(f.width); c.mix(f.locale);
    if (f.locale) c.label("grouping locale");
    if (f.base) c.label("hex, octal or automatic base");
    if (c.flip(1, 3)) {
        std::vector<u64> v;
        for (u64 n = c.range(1, 4); n--;) { v.push_back(genVal(c, t.bits)); c.mix(v.back()); }
        c.label("formatted like plain integers");
        c.nontrivial();
        if (c.describing) { std::ostringstream o; o << t.label << " type " << (&t - types) << ": format base " << f.base << " flags " << f.flags << " width " << f.width << " locale " << f.locale << ", values"; for (u64 x : v) o << " " << x; c.describe(o.str()); }
        t.write(v, f);
        return;
    }
    const std::string s = genText(c, t.bits);
    const std::size_t n = c.range(1, 5); const u64 start = genVal(c, t.bits); const unsigned mask = (unsigned)c.pick({6, 1, 1}); const bool clear = c.flip(1, 2);
    c.mix(s.c_str()); c.mix(n); c.mix(start); c.mix(mask); c.mix(clear);
    c.label("any text read like plain integers"); if (mask) c.label("stream with an exception mask");
    if (s.size() > 1) c.nontrivial();
    PBT_DESC(c, t.label << " type " << (&t - types) << ": format base " << f.base << " flags " << f.flags << " locale " << f.locale << ", reading " << n << " values from \"" << s << "\" after " << start << (clear ? ", clearing failures" : ""));
    t.read(s, f, n, start, mask, clear);
}
static void run(Ctx& c) {
    if (c.draw(63) == 0) {
        const u64 t = c.draw(3), hi = c.draw(255);
        c.label("exhaustive 8/16-bit row"); c.nontrivial(); c.mix(t); c.mix(hi); c.mix("row");
        PBT_DESC(c, types[t].label << " type " << t << ": 256 values from " << hi * 256);
        if (types[t].bits == 8) { types[t].one(hi); return; }
        for (u64 lo = 0; lo < 256; ++lo) types[t].one(hi << 8 | lo);
        return;
    }
    const Type& t = types[c.draw(NT - 1)]; c.label(t.label); c.mix(&t - types);
    if (c.flip(1, 2)) { anyText(c, t); return; }
    const std::size_t n = c.flip(1, 3) ? 1 : c.range(2, 12);
    std::vector<u64> v; std::vector<std::string> sep;
    const char* seps[] = {" ", "\n", "\t", "  ", " \n\t ", "\r\n"};
    sep.push_back(c.flip(1, 4) ? seps[c.draw(5)] : "");
    for (std::size_t i = 0; i < n; ++i) { v.push_back(genVal(c, t.bits)); c.mix(v.back()); sep.push_back(i + 1 < n || c.flip(1, 4) ? seps[c.draw(5)] : ""); }
    if (c.describing) { std::ostringstream o; o << t.label << " type " << (&t - types) << ": values"; for (u64 x : v) o << " " << x; c.describe(o.str()); }
    if (n >= 2 || v[0] > 9) c.nontrivial();
    c.label(n == 1 ? "single value" : "sequence");
    for (u64 x : v) t.one(x);
    t.seq(v, sep, c.flip(1, 2));
}
static std::size_t rows() { return 4 * 256; }
static void row(std::size_t i, std::vector<u64>& v) { v.assign(1, 0); v.push_back(i / 256); v.push_back(i % 256); }
static pbt::Registrar r({"C18", "values and whitespace-separated sequences of 9 digit integer types written to and read back from string streams; all 8-bit and all 16-bit values of 4 types exhaustively; writing under any format flags, width and locale, and reading any text, compared with plain unsigned integers; a case is non-trivial when it has several values or a value of at least two digits, or for an exhaustive row", run, rows, row});
