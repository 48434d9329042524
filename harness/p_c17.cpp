// The digit integer type against the plain unsigned integers.
#include "engine.h"
#include "bignum/bignum.h"
#include <algorithm>
using pbt::Ctx; using pbt::u64;
typedef unsigned __int128 u128;

enum Op { ADD, SUB, MUL, DIV, MOD, AND, OR, XOR, SHR, SHL, NOPS };
static const char* opNames[] = {"+", "-", "*", "/", "%", "&", "|", "^", ">>", "<<"};
static u64 maskOf(unsigned bits) { return bits == 64 ? ~0ull : (1ull << bits) - 1; }
// the operation on plain unsigned integers, reduced modulo 2^bits
static u64 ref(int op, u64 a, u64 b, unsigned bits) {
    u128 r;
    switch (op) {
        case ADD: r = (u128)a + b; break;
        case SUB: r = (u128)a - b; break;
        case MUL: r = (u128)a * b; break;
        case DIV: r = a / b; break;
        case MOD: r = a % b; break;
        case AND: r = a & b; break;
        case OR: r = a | b; break;
        case XOR: r = a ^ b; break;
        case SHR: r = a >> b; break;
        default: r = (u128)a << b; break;
    }
    return (u64)(r & maskOf(bits));
}
static bool defined(int op, u64 b, unsigned bits) { return (op == DIV || op == MOD) ? b != 0 : (op == SHR || op == SHL) ? b < bits : true; }

#define BIN(l, r) (op == ADD ? (u64)((l) + (r)) : op == SUB ? (u64)((l) - (r)) : op == MUL ? (u64)((l) * (r)) : op == DIV ? (u64)((l) / (r)) : op == MOD ? (u64)((l) % (r)) \
    : op == AND ? (u64)((l) & (r)) : op == OR ? (u64)((l) | (r)) : op == XOR ? (u64)((l) ^ (r)) : op == SHR ? (u64)((l) >> (r)) : (u64)((l) << (r)))
#define COMP(l, r) switch (op) { case ADD: p = &(l += r); break; case SUB: p = &(l -= r); break; case MUL: p = &(l *= r); break; case DIV: p = &(l /= r); break; case MOD: p = &(l %= r); break; \
    case AND: p = &(l &= r); break; case OR: p = &(l |= r); break; case XOR: p = &(l ^= r); break; case SHR: p = &(l >>= r); break; default: p = &(l <<= r); }

template <class T, u64 ID>
struct Check {
    typedef BNIntType<T, ID> N;
    static const unsigned bits = 8 * sizeof(T);
    static std::string name() { std::ostringstream o; o << "BNIntType<uint" << bits << "," << ID << ">"; return o.str(); }
    static void expect(const char* form, const char* op, u64 a, u64 b, u64 got, u64 want) {
        if (got != want) PBT_FAIL(name() << " " << form << ": " << a << " " << op << " " << b << " gave " << got << ", expected " << want);
    }
    static void pair(u64 ua, u64 ub) {
        const T a = (T)ua, b = (T)ub;
        const N x(a), y(b);
        for (int op = 0; op < NOPS; ++op) {
            if (!defined(op, ub, bits)) continue;
            const u64 want = ref(op, ua, ub, bits); const char* o = opNames[op];
            expect("BNIntType op BNIntType", o, ua, ub, (u64)(T)BIN(x, y), want);
            expect("BNIntType op plain", o, ua, ub, (u64)(T)BIN(x, b), want);
            expect("plain op BNIntType", o, ua, ub, (u64)(T)BIN(a, y), want);
            { // the result types themselves are of the underlying width
                u64 g;
                switch (op) { case ADD: g = (x + y).num; break; case SUB: g = (x - y).num; break; case MUL: g = (x * y).num; break; case DIV: g = (x / y).num; break; case MOD: g = (x % y).num; break;
                    case AND: g = (x & y).num; break; case OR: g = (x | y).num; break; case XOR: g = (x ^ y).num; break; case SHR: g = (x >> y).num; break; default: g = (x << y).num; }
                expect("BNIntType op BNIntType (num)", o, ua, ub, g, want);
            }
            { N z(a), *p = 0; COMP(z, y) expect("BNIntType op= BNIntType", o, ua, ub, z.num, want); if (p != &z) PBT_FAIL(name() << " op= does not return its target"); }
            { N z(a), *p = 0; COMP(z, b) expect("BNIntType op= plain", o, ua, ub, z.num, want); if (p != &z) PBT_FAIL(name() << " op= plain does not return its target"); }
            { T z = a, *p = 0; COMP(z, y) expect("plain op= BNIntType", o, ua, ub, z, want); if (p != &z) PBT_FAIL(name() << " plain op= does not return its target"); }
            if (ua == ub) { N z(a), *p = 0; COMP(z, z) expect("x op= x", o, ua, ub, z.num, want); (void)p; }
            expect("second operand", o, ua, ub, y.num, ub); expect("first operand", o, ua, ub, x.num, ua);
        }
        const bool w[6] = {ua == ub, ua != ub, ua > ub, ua >= ub, ua < ub, ua <= ub};
        const char* cn[6] = {"==", "!=", ">", ">=", "<", "<="};
        const bool f1[6] = {x == y, x != y, x > y, x >= y, x < y, x <= y};
        const bool f2[6] = {x == b, x != b, x > b, x >= b, x < b, x <= b};
        const bool f3[6] = {a == y, a != y, a > y, a >= y, a < y, a <= y};
        for (int i = 0; i < 6; ++i) {
            expect("comparison BNIntType/BNIntType", cn[i], ua, ub, f1[i], w[i]);
            expect("comparison BNIntType/plain", cn[i], ua, ub, f2[i], w[i]);
            expect("comparison plain/BNIntType", cn[i], ua, ub, f3[i], w[i]);
        }
        // assignment in all four forms
        { N z(a); N& q = (z = y); expect("= BNIntType", "=", ua, ub, z.num, ub); if (&q != &z) PBT_FAIL(name() << " = does not return its target"); }
        { N z(a); N t(b); N& q = (z = std::move(t)); expect("= moved BNIntType", "=", ua, ub, z.num, ub); if (&q != &z) PBT_FAIL(name() << " = does not return its target"); }
        { N z(a); N& q = (z = b); expect("= plain", "=", ua, ub, z.num, ub); if (&q != &z) PBT_FAIL(name() << " = does not return its target"); }
        { N z(a); T t = b; N& q = (z = std::move(t)); expect("= moved plain", "=", ua, ub, z.num, ub); if (&q != &z) PBT_FAIL(name() << " = does not return its target"); }
    }
    static void unary(u64 ua) {
        const T a = (T)ua; const u64 m = maskOf(bits);
        const N x(a);
        expect("conversion", "()", ua, 0, (u64)(T)x, ua); expect("num", "()", ua, 0, x.num, ua);
        expect("copy", "()", ua, 0, N(x).num, ua); { N t(a); expect("move", "()", ua, 0, N(std::move(t)).num, ua); } { T t = a; expect("from moved plain", "()", ua, 0, N(std::move(t)).num, ua); }
        expect("default", "()", 0, 0, N().num, 0);
        expect("unary", "+", ua, 0, (+x).num, ua); expect("unary", "-", ua, 0, (-x).num, (0 - ua) & m); expect("unary", "~", ua, 0, (~x).num, ~ua & m); expect("unary", "!", ua, 0, (!x).num, ua ? 0 : 1);
        { N z(a); N& q = ++z; expect("pre", "++", ua, 0, z.num, (ua + 1) & m); if (&q != &z) PBT_FAIL(name() << " ++ does not return its target"); }
        { N z(a); N& q = --z; expect("pre", "--", ua, 0, z.num, (ua - 1) & m); if (&q != &z) PBT_FAIL(name() << " -- does not return its target"); }
        { N z(a); const N o = z++; expect("post", "++", ua, 0, z.num, (ua + 1) & m); expect("post value", "++", ua, 0, o.num, ua); }
        { N z(a); const N o = z--; expect("post", "--", ua, 0, z.num, (ua - 1) & m); expect("post value", "--", ua, 0, o.num, ua); }
        if ((bool)(T)x != (ua != 0)) PBT_FAIL(name() << " truth value of " << ua);
    }
};
struct Type { const char* label; unsigned bits; void (*pair)(u64, u64); void (*unary)(u64); };
#define TY(T, ID, L) {L, 8 * sizeof(T), Check<T, ID>::pair, Check<T, ID>::unary}
static const Type types[] = {
    TY(BN_UINT8, 255, "width 8"), TY(BN_UINT8, 2, "width 8"), TY(BN_UINT8, 77, "width 8"),
    TY(BN_UINT16, 65535, "width 16"), TY(BN_UINT16, 8, "width 16"), TY(BN_UINT16, 2, "width 16"),
    TY(BN_UINT32, 4294967295u, "width 32"), TY(BN_UINT32, 10, "width 32"), TY(BN_UINT32, 16, "width 32"), TY(BN_UINT32, 8, "width 32"),
    TY(BN_UINT64, 10, "width 64"), TY(BN_UINT64, 16, "width 64"), TY(BN_UINT64, 0, "width 64"),
};
static const std::size_t NT = sizeof types / sizeof *types;
static u64 genVal(Ctx& c, unsigned bits) {
    const u64 m = maskOf(bits);
    switch (c.pick({4, 3, 3, 2, 2, 2})) {
        case 0: return c.draw(m);
        case 1: return c.draw(std::min<u64>(m, 300));
        case 2: return (m - c.draw(std::min<u64>(m, 300)));
        case 3: { const u64 p = 1ull << c.draw(bits - 1); return (p + c.draw(4) - 2) & m; }
        case 4: return c.draw(~0ull) & c.draw(~0ull) & m;
        default: return ~(c.draw(~0ull) & c.draw(~0ull)) & m;
    }
}
static void run(Ctx& c) {
    if (c.draw(63) == 0) {      // enumerated rows: an 8-bit type, a first operand, all second operands
        const Type& t = types[c.draw(2)]; const u64 a = c.draw(255);
        PBT_DESC(c, t.label << " type " << (&t - types) << ": " << a << " with all 256 second operands, every operation");
        c.label("8-bit exhaustive row"); c.nontrivial(); c.mix(&t - types); c.mix(a); c.mix("row");
        t.unary(a);
        for (u64 b = 0; b < 256; ++b) t.pair(a, b);
        return;
    }
    const Type& t = types[c.draw(NT - 1)];
    c.label(t.label); c.mix(&t - types);
    const u64 a = genVal(c, t.bits);
    t.unary(a);
    u64 b;
    switch (c.pick({6, 2, 2, 3})) {
        case 0: b = genVal(c, t.bits); break;
        case 1: b = a; c.label("equal operands"); break;
        case 2: b = (a + c.draw(2) - 1) & maskOf(t.bits); c.label("adjacent operands"); break;
        default: b = c.draw(t.bits - 1); c.label("shift range"); break;
    }
    PBT_DESC(c, t.label << " type " << (&t - types) << ": " << a << ", " << b << " through every operation");
    c.mix(a); c.mix(b);
    const u128 sum = (u128)a + b, prod = (u128)a * b;
    if (sum > maskOf(t.bits) || prod > maskOf(t.bits) || a < b) c.nontrivial();
    if (prod > maskOf(t.bits)) c.label("product wraps");
    if (a < b) c.label("difference wraps");
    t.pair(a, b);
    t.pair(b, a);
}
static std::size_t rows() { return 3 * 256; }
static void row(std::size_t i, std::vector<u64>& v) { v.assign(1, 0); v.push_back(i / 256); v.push_back(i % 256); }
static pbt::Registrar r({"C17", "value pairs through every operation of 13 digit integer types in every operand form, against 128-bit arithmetic reduced modulo 2^width; 8-bit pairs exhaustively for 3 types; a case is non-trivial when its sum, product or difference wraps, or for an exhaustive row", run, rows, row});
