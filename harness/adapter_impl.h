// Implementation of Cfg for one Bignum type.  Included next to the library.
#ifndef ADAPTER_IMPL_H
#define ADAPTER_IMPL_H
#include "bignum/bignum.h"
#include "adapter.h"
#include "misc.h"
#include "engine.h"

template <class BN, class limits_t>
struct CfgT : Cfg {
    typedef typename BN::bn_single S;
    typedef typename BN::container_type C;
    struct H : Num {
        BN v;
        H() : v() {}
        explicit H(const BN& b) : v(b) {}
        explicit H(BN&& b) : v(std::move(b)) {}
        struct FaultCopy {};
        H(const BN& b, FaultCopy) : v(b) {}
    };
    static BN& V(Num& n) { return static_cast<H&>(n).v; }
    static const BN& V(const Num& n) { return static_cast<const H&>(n).v; }
    static S dig(u64 x) { return static_cast<S>(x); }
    static u64 undig(const S& s) { return (u64)s; }
    static C toC(const Digits& d) { C c; for (u64 x : d) c.push_back(dig(x)); return c; }
    static Digits fromC(const C& c) { Digits d; d.reserve(c.size()); for (std::size_t i = 0; i < c.size(); ++i) d.push_back(undig(c[i])); return d; }
    static bn_desc_t toD(Desc d) {
        switch (d) { case D_NEG: return BN_NEG; case D_NAN: return BN_NAN; case D_PINF: return BN_POS_INF; case D_NINF: return BN_NEG_INF; default: return BN_POS; }
    }
    static Desc fromD(bn_desc_t d) {
        switch (d) { case BN_POS: return D_POS; case BN_NEG: return D_NEG; case BN_NAN: return D_NAN; case BN_POS_INF: return D_PINF; case BN_NEG_INF: return D_NINF; }
        return D_OTHER;
    }
    CfgT(const char* n, u64 b, bool isUser) {
        name = n; base = b; storageBits = 8 * sizeof(S); user = isUser;
        allConfigs().push_back(this);
    }
    Num* make() const override { return new H(); }
    Num* fromList(Desc d, const u64* m, std::size_t n) const override {
        const bn_desc_t e = toD(d);
        #define A1 dig(m[0])
        #define A2 A1, dig(m[1])
        #define A3 A2, dig(m[2])
        #define A4 A3, dig(m[3])
        #define A5 A4, dig(m[4])
        #define A6 A5, dig(m[5])
        #define A7 A6, dig(m[6])
        #define A8 A7, dig(m[7])
        #define A9 A8, dig(m[8])
        #define A10 A9, dig(m[9])
        #define A11 A10, dig(m[10])
        #define A12 A11, dig(m[11])
        #define A13 A12, dig(m[12])
        #define A14 A13, dig(m[13])
        #define A15 A14, dig(m[14])
        #define A16 A15, dig(m[15])
        switch (n) {
            case 0: return new H(BN(e, std::initializer_list<S>{}));
            #define K(i) case i: return new H(BN(e, {A##i}));
            K(1) K(2) K(3) K(4) K(5) K(6) K(7) K(8) K(9) K(10) K(11) K(12) K(13) K(14) K(15)
            default: return new H(BN(e, {A16}));
            #undef K
        }
    }
    Num* build(Desc d, const Digits& ds) const override {
        H* h = new H();
        for (u64 x : ds) h->v.push_back(dig(x));
        if (d != D_POS) h->v.setDescriptor(toD(d));
        return h;
    }
    Num* copy(const Num& n) const override { return new H(V(n)); }
    Num* moved(Num& n) const override { return new H(std::move(V(n))); }
    void copyAssign(Num& a, const Num& b) const override { V(a) = V(b); }
    void moveAssign(Num& a, Num& b) const override { V(a) = std::move(V(b)); }
    Desc desc(const Num& n) const override { return fromD(V(n).getDescriptor()); }
    Digits digits(const Num& n) const override { return fromC(V(n).getData()); }
    std::size_t size(const Num& n) const override { return V(n).size(); }
    bool isPositive(const Num& n) const override { return V(n).isPositive(); }
    bool isNegative(const Num& n) const override { return V(n).isNegative(); }
    bool isInfinite(const Num& n) const override { return V(n).isInfinite(); }
    bool isNan(const Num& n) const override { return V(n).isNan(); }
    bool isComputable(Desc d) const override { return BN::isComputable(toD(d)); }
    bool cmp(const Num& x, Cmp c, const Num& y) const override {
        const BN& a = V(x); const BN& b = V(y);
        switch (c) { case C_EQ: return a == b; case C_NE: return a != b; case C_LT: return a < b; case C_LE: return a <= b; case C_GT: return a > b; default: return a >= b; }
    }
    void print(std::ostream& o, const Num& n) const override { o << V(n); }
    u64 get(const Num& n, std::size_t i) const override {
        try { return undig(V(n)[i]); } catch (bn_error_t e) { throw LibError{(int)e}; }
    }
    u64 getMut(Num& n, std::size_t i) const override {
        try { return undig(V(n)[i]); } catch (bn_error_t e) { throw LibError{(int)e}; }
    }
    void set(Num& n, std::size_t i, u64 d) const override {
        try { V(n)[i] = dig(d); } catch (bn_error_t e) { throw LibError{(int)e}; }
    }
    void* ref(Num& n, std::size_t i) const override { return &V(n)[i]; }
    void writeRef(void* r, u64 d) const override { *static_cast<S*>(r) = dig(d); }
    u64 readRef(const void* r) const override { return undig(*static_cast<const S*>(r)); }
    const void* dataRef(const Num& n) const override { return &V(n).getData(); }
    Digits readData(const void* r) const override { return fromC(*static_cast<const C*>(r)); }
    void editOwn(Num& n, int which, std::size_t src, std::size_t pos) const override {
        BN& b = V(n);
        switch (which) {
            case 0: b.push_front(b[src]); break;
            case 1: b.push_back(b[src]); break;
            case 2: b.push(b[src], pos); break;
            case 3: b.resize(pos, b[src]); break;
            default: b[pos] = b[src]; break;
        }
    }
    void setDesc(Num& n, Desc d) const override { V(n).setDescriptor(toD(d)); }
    void clear(Num& n) const override { V(n).clear(); }
    void pushFront(Num& n, u64 d) const override { V(n).push_front(dig(d)); }
    void popFront(Num& n) const override { V(n).pop_front(); }
    void pushBack(Num& n, u64 d) const override { V(n).push_back(dig(d)); }
    void popBack(Num& n) const override { V(n).pop_back(); }
    void push(Num& n, u64 d, std::size_t p) const override { V(n).push(dig(d), p); }
    void pop(Num& n, std::size_t p) const override { V(n).pop(p); }
    void resize(Num& n, std::size_t k, u64 d) const override { V(n).resize(k, dig(d)); }
    void resize1(Num& n, std::size_t k) const override { V(n).resize(k); }
    void opAssign(Num& x, char op, const Num& y) const override {
        BN& a = V(x); const BN& b = V(y);
        try {
            switch (op) {
                case '+': check(&(a += b), &a); break;
                case '-': check(&(a -= b), &a); break;
                case '*': check(&(a *= b), &a); break;
                default:  check(&(a /= b), &a); break;
            }
        } catch (const BNUnderflow&) { throw Underflow(); }
    }
    static void check(const BN* got, const BN* want) {
        if (got != want) throw pbt::Failure("compound operator did not return a reference to its target");
    }
    static BN bin(const BN& a, char op, const BN& b) {
        switch (op) { case '+': return a + b; case '-': return a - b; case '*': return a * b; default: return a / b; }
    }
    Num* op(const Num& x, char o, const Num& y) const override {
        try { return new H(bin(V(x), o, V(y))); } catch (const BNUnderflow&) { throw Underflow(); }
    }
    static BN& assign(BN& a, char op, const BN& b) {
        switch (op) { case '+': return a += b; case '-': return a -= b; case '*': return a *= b; default: return a /= b; }
    }
    static BN own(const BN& a) { return a; }
    #define BN_EXPR(o, l, r) ((o) == '+' ? (l) + (r) : (o) == '-' ? (l) - (r) : (o) == '*' ? (l) * (r) : (l) / (r))
    static BN eval(const BN& a, char o1, const BN& b, char o2, const BN& c, int form) {
        switch (form) {
            case 0: return BN_EXPR(o2, bin(a, o1, b), c);                               // a temporary on the left
            case 1: return BN_EXPR(o2, bin(own(a), o1, own(b)), own(c));                 // temporaries everywhere
            case 2: { BN r(a), s(b); BN t = BN_EXPR(o1, std::move(r), std::move(s)); BN u(c); return BN_EXPR(o2, std::move(t), std::move(u)); }
            case 3: { BN r(a); return BN_EXPR(o2, assign(r, o1, b), c); }                // a compound result as operand
            case 4: { BN r(a); return assign(assign(r, o1, b), o2, c); }                 // chained compounds
            case 5: { BN r(a); r = BN_EXPR(o1, std::move(r), b); r = BN_EXPR(o2, std::move(r), c); return r; }
            case 6: { BN r(a); r = BN_EXPR(o1, r, b); r = BN_EXPR(o2, r, c); return r; } // assigned to its own operand
            case 7: { BN r(b); r = BN_EXPR(o2, r, c); r = BN_EXPR(o1, a, r); return r; } // a o1 (b o2 c), to the right operand
            default: return BN_EXPR(o1, a, BN_EXPR(o2, own(b), c));                      // a temporary on the right
        }
    }
    Num* expr(const Num& x, char o1, const Num& y, char o2, const Num& z, int form) const override {
        try { return new H(eval(V(x), o1, V(y), o2, V(z), form)); } catch (const BNUnderflow&) { throw Underflow(); }
    }
    void opAssignF(Num& x, char op, const Num& y) const override {
        BN& a = V(x); const BN& b = V(y);
        fault::Window w;
        switch (op) { case '+': a += b; break; case '-': a -= b; break; case '*': a *= b; break; default: a /= b; }
    }
    Num* opF(const Num& x, char o, const Num& y) const override {
        std::unique_ptr<H> h(new H());
        // the temporary lives and dies inside the window; moving it does not allocate
        { fault::Window w; BN r = bin(V(x), o, V(y)); h->v = std::move(r); }
        return h.release();
    }
    Num* copyF(const Num& x) const override {
        std::unique_ptr<H> h(new H());
        { fault::Window w; BN r(V(x)); h->v = std::move(r); }
        return h.release();
    }
    void copyAssignF(Num& a, const Num& b) const override { fault::Window w; V(a) = V(b); }
    void editF(Num& n, int which, u64 d, std::size_t p) const override {
        fault::Window w;
        switch (which) {
            case 0: V(n).push_front(dig(d)); break;
            case 1: V(n).push_back(dig(d)); break;
            case 2: V(n).push(dig(d), p); break;
            default: V(n).resize(p, dig(d));
        }
    }
    void absOp(char op, Digits& a, Digits& b) const override {
        C x = toC(a), y = toC(b);
        try {
            switch (op) {
                case '+': abs_val_add<limits_t, C>(x, y); break;
                case '-': abs_val_sub<limits_t, C>(x, y); break;
                default:  abs_val_div<limits_t, C>(x, y); break;
            }
        } catch (const BNUnderflow&) { a = fromC(x); b = fromC(y); throw Underflow(); }
        a = fromC(x); b = fromC(y);
    }
    bool absCmp(Cmp c, Digits& a, Digits& b) const override {
        C x = toC(a), y = toC(b); bool r;
        switch (c) {
            case C_EQ: r = abs_val_is_eq<C>(x, y); break;
            case C_LT: r = abs_val_is_lt<C>(x, y); break;
            case C_LE: r = abs_val_is_le<C>(x, y); break;
            case C_GT: r = abs_val_is_gt<C>(x, y); break;
            default:   r = abs_val_is_ge<C>(x, y); break;
        }
        a = fromC(x); b = fromC(y);
        return r;
    }
    Digits mulNaive(Digits& a, Digits& b) const override {
        const C x = toC(a), y = toC(b); C r = mul_naive<limits_t, C>(x, y);
        a = fromC(x); b = fromC(y); return fromC(r);
    }
    Digits mulStrassen(Digits& a, Digits& b) const override {
        const C x = toC(a), y = toC(b); C r = mul_strassen<limits_t, C>(x, y);
        a = fromC(x); b = fromC(y); return fromC(r);
    }
    std::string misc(unsigned which, const std::vector<u64>& args) const override { return miscCall(which, args); }
    u64 minDigit() const override { return bn_min_limit<S>(); }
    u64 maxDigit() const override { return bn_max_limit<S>(); }
    u64 limitsMin() const override { return limits_t::SINGLE_BASE_MIN; }
    u64 limitsMax() const override { return limits_t::SINGLE_BASE_MAX; }
    bool debugBuild() const override {
        #ifdef BN_DEBUG
        return true;
        #else
        return false;
        #endif
    }
};
#endif
