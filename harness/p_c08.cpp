#include "ops.h"
namespace {
struct Tree { char op; int l, r; Int leaf; };
// returns the index of the root; values bounded
int genTree(Ctx& c, std::vector<Tree>& t, std::vector<Int>& val, int depth) {
    if (depth == 0 || c.flip(1, 4)) {
        Int v;
        if (c.flip(1, 3)) v = c.draw(300);
        else { const u64 b[5] = {2, 10, 256, 65536, 1ull << 32}; const u64 base = b[c.draw(4)]; v = valueOf(genDigits(c, base, 1 + c.draw(11)), base); }
        if (c.draw(1)) v = -v;
        t.push_back({'#', -1, -1, v}); val.push_back(v); return (int)t.size() - 1;
    }
    const int l = genTree(c, t, val, depth - 1), r = genTree(c, t, val, depth - 1);
    char op = "+-*/"[c.pick({3, 3, 3, 3})];
    if (op == '/' && (val[r] == 0 || bitsOf(val[l]) > bitsOf(val[r]) + 150)) op = '-';
    if (op == '*' && bitsOf(val[l]) + bitsOf(val[r]) > 2500) op = '+';
    t.push_back({op, l, r, 0}); val.push_back(refOp(op, val[l], val[r]));
    return (int)t.size() - 1;
}
std::string showTree(const std::vector<Tree>& t, int i) {
    if (t[i].op == '#') { std::ostringstream o; o << t[i].leaf; return o.str(); }
    return "(" + showTree(t, t[i].l) + " " + t[i].op + " " + showTree(t, t[i].r) + ")";
}
NumP eval(const Cfg& cfg, const std::vector<Tree>& t, int i) {
    if (t[i].op == '#') return make(cfg, spell(t[i].leaf, cfg.base));
    NumP a = eval(cfg, t, t[i].l), b = eval(cfg, t, t[i].r);
    return NumP(cfg.op(*a, t[i].op, *b));
}
}
static void run(Ctx& c) {
    if (c.flip(1, 2)) {
        // the same expression in two (or all) number types
        const std::vector<Cfg*>& all = configs();
        std::vector<Tree> t; std::vector<Int> val;
        const int root = genTree(c, t, val, 1 + (int)c.draw(2));
        const std::size_t i = c.draw(all.size() - 1), j = c.draw(all.size() - 1);
        const Cfg& p = *all[i]; const Cfg& q = *all[j == i ? (i + 1) % all.size() : j];
        const std::string text = showTree(t, root);
        PBT_DESC(c, "expression " << text << " in " << p.name << " and " << q.name);
        c.mix(text); c.mix(p.name); c.mix(q.name); c.label("expression");
        NumP x = eval(p, t, root), y = eval(q, t, root);
        const Int vx = libValue(p, *x, "result"), vy = libValue(q, *y, "result");
        if (t.size() > 1) c.nontrivial();
        if (vx != vy || vx != val[root])
            PBT_FAIL("expression " << text << ": " << p.name << " gives " << show(p, *x) << " (= " << vx << "), " << q.name << " gives " << show(q, *y) << " (= " << vy << "), exact value " << val[root]);
        // result of one type converted to the other gives the same digits
        NumP back = make(p, spell(vy, p.base));
        if (!p.cmp(*back, C_EQ, *x)) PBT_FAIL("expression " << text << ": result of " << q.name << " converted to " << p.name << " differs from " << show(p, *x));
        return;
    }
    // radix extraction by repeated division, and Horner reconstruction
    const Cfg& cfg = genCfg(c);
    const std::vector<Cfg*>& all = configs();
    Digits dn; Int d;
    // number of division steps bounded by the size of n in digits of d
    const std::size_t how = c.pick({4, 3, 2, 2});
    if (how == 0) { d = all[c.draw(all.size() - 1)]->base; }
    else if (how == 1) d = 2 + c.draw(40);
    else if (how == 2) d = 2 + c.draw((1ull << 33));
    else { d = valueOf(genDigits(c, cfg.base, 1 + c.draw(5)), cfg.base); if (d < 2) d = 2; }
    {
        unsigned bits = 0; u64 b = cfg.base; while (b > 1) { b >>= 1; ++bits; }
        const unsigned maxBits = c.flip(1, 12) ? 600 : 160;
        dn = genMag(c, cfg.base, std::max<std::size_t>(1, maxBits / std::max(1u, bits)));
    }
    const Int n = valueOf(dn, cfg.base);
    PBT_DESC(c, cfg.name << ": radix digits of " << n << " for divisor " << d);
    c.label("radix round trip"); c.mix(cfg.name); c.mix(n.str()); c.mix(d.str());
    NumP num = make(c, cfg, Spell(D_POS, dn)), div = make(cfg, spell(d, cfg.base));
    NumP cur(cfg.copy(*num)), zero(cfg.make());
    std::vector<Int> digits; std::vector<NumP> libDigits;
    const std::size_t limit = bitsOf(n) + 2;
    while (cfg.cmp(*cur, C_GT, *zero)) {
        if (digits.size() > limit) PBT_FAIL(cfg.name << ": dividing " << n << " by " << d << " repeatedly does not reach zero after " << limit << " divisions");
        NumP q(cfg.op(*cur, '/', *div)), t(cfg.op(*q, '*', *div)), r(cfg.op(*cur, '-', *t));
        const Int vr = libValue(cfg, *r, "digit");
        if (vr < 0 || vr >= d) PBT_FAIL(cfg.name << ": extracting digits of " << n << " for divisor " << d << " produced the digit " << vr);
        digits.push_back(vr); libDigits.push_back(std::move(r));
        cur = std::move(q);
    }
    if (digits.size() >= 2) { c.nontrivial(); c.label("at least two digits extracted"); }
    // Horner, in the library
    NumP acc(cfg.make());
    for (std::size_t i = libDigits.size(); i--;) { cfg.opAssign(*acc, '*', *div); cfg.opAssign(*acc, '+', *libDigits[i]); }
    if (!cfg.cmp(*acc, C_EQ, *num) || libValue(cfg, *acc, "reconstruction") != n)
        PBT_FAIL(cfg.name << ": radix digits of " << n << " for divisor " << d << " rebuild " << show(cfg, *acc) << " instead of " << show(cfg, *num));
    // the digits are those of the number
    Int v = n; for (std::size_t i = 0; i < digits.size(); ++i) { if (digits[i] != Int(v % d)) PBT_FAIL(cfg.name << ": digit " << i << " of " << n << " in radix " << d << " is " << digits[i]); v /= d; }
    // if some shipped type has that base, it holds the same number
    for (Cfg* o : all) if (d == o->base) {
        Digits ds; for (const Int& x : digits) ds.push_back((u64)x);
        NumP y(o->build(D_POS, ds));
        const Int vy = libValue(*o, *y, "converted number");
        if (vy != n) PBT_FAIL("converting " << n << " from " << cfg.name << " to " << o->name << " gave " << show(*o, *y));
        c.label("converted to another shipped type");
        // and back: Horner in the source type over the digits held by the target
        break;
    }
}
static pbt::Registrar r({"C08", "random expression trees evaluated in two number types and over exact integers, and radix extraction by repeated division with Horner reconstruction; a case is non-trivial when the expression has an operator or at least two digits are extracted", run, 0, 0});
