#include "giant.h"
// Pads a number with zero digits above its most significant digit.
static void pad(Ctx& c, const Cfg& cfg, Num& n, std::size_t k) {
    switch (c.draw(3)) {
        case 0: cfg.resize(n, cfg.size(n) + k, 0); break;
        case 1: for (std::size_t i = 0; i < k; ++i) cfg.pushBack(n, 0); break;
        case 2: { const std::size_t s = cfg.size(n); cfg.resize(n, s + k, cfg.base - 1); for (std::size_t i = s; i < s + k; ++i) cfg.set(n, i, 0); break; }
        default: cfg.resize1(n, cfg.size(n) + k); break;   // default digit of resize
    }
}
static void run(Ctx& c) {
    const Cfg& cfg = genCfg(c);
    const char op = "+-*/?"[c.draw(4)];
    Spell a, b;
    if (op == '/' && c.flip(5, 6)) genDivPair(c, cfg, a, b);
    else { Digits x, y; genMagPair(c, cfg.base, op == '*' || op == '/' ? (c.flip(1, 20) ? 300 : 60) : 400, x, y); a = withSign(c, x); b = withSign(c, y);
        if (op == '/' && bitsOf(value(a, cfg.base)) > bitsOf(value(b, cfg.base)) + 160 && !b.v.empty()) std::swap(a, b); }
    if (c.flip(1, 20)) b.v.clear(), b.d = D_POS;
    else if (c.flip(1, 20)) a.v.clear(), a.d = D_POS;
    auto amount = [&]() -> std::size_t { switch (c.pick({2, 3, 3, 1})) { case 0: return 0; case 1: return 1; case 2: return c.range(2, 9); default: return c.range(10, 80); } };
    std::size_t pa = amount(), pb = amount(); if (!pa && !pb) pb = 1;
    if (isGiant(c, 8000)) (c.flip(1, 2) ? pa : pb) = giantLen(c);
    NumP x = make(c, cfg, a), y = make(c, cfg, b);
    pad(c, cfg, *x, pa); pad(c, cfg, *y, pb);
    mixSpell(c, a); mixSpell(c, b); c.mix(pa); c.mix(pb); c.mix(op);
    PBT_DESC(c, cfg.name << ": " << show(cfg, *x) << " " << op << " " << show(cfg, *y) << " (padded by " << pa << " and " << pb << ")");
    if (cfg.size(*x) != a.v.size() + pa || cfg.size(*y) != b.v.size() + pb) PBT_FAIL(cfg.name << ": padding gave " << show(cfg, *x) << " and " << show(cfg, *y));
    c.nontrivial(); c.label(std::string("op ") + op); c.label(pa && pb ? "both padded" : pa ? "left padded" : "right padded");
    const Int va = value(a, cfg.base), vb = value(b, cfg.base);
    if (va == 0 || vb == 0) c.label("a zero operand");
    if (op == '?') {
        const bool want[] = {va == vb, va != vb, va < vb, va <= vb, va > vb, va >= vb}; const char* names[] = {"==", "!=", "<", "<=", ">", ">="};
        NumP z = make(cfg, b);
        for (int i = 0; i < 6; ++i) {
            if (cfg.cmp(*x, (Cmp)i, *y) != want[i]) PBT_FAIL(cfg.name << ": " << show(cfg, *x) << " " << names[i] << " " << show(cfg, *y) << " gave " << !want[i]);
            if (cfg.cmp(*x, (Cmp)i, *z) != want[i]) PBT_FAIL(cfg.name << ": " << show(cfg, *x) << " " << names[i] << " " << show(cfg, *z) << " gave " << !want[i]);
        }
        NumP same = make(cfg, a);
        if (!cfg.cmp(*x, C_EQ, *same) || cfg.cmp(*x, C_NE, *same)) PBT_FAIL(cfg.name << ": " << show(cfg, *x) << " is not equal to itself without padding");
        return;
    }
    NumP r(cfg.op(*x, op, *y)); cfg.opAssign(*x, op, *y);
    for (const Num* n : {r.get(), x.get()}) {
        if (op == '/' && vb == 0) {
            if (finite(cfg.desc(*n))) PBT_FAIL(cfg.name << ": division by a padded zero gave " << show(cfg, *n));
            if (va != 0 && cfg.desc(*n) != (va < 0 ? D_NINF : D_PINF)) PBT_FAIL(cfg.name << ": " << show(a) << " divided by a padded zero gave " << show(cfg, *n));
        } else checkValue(cfg, *n, refOp(op, va, vb), a, opName(op), b, n == r.get() ? "binary, padded" : "compound, padded");
    }
}
static pbt::Registrar r({"C10", "one or both operands of every operator and comparison padded with 1-80 zero digits (resize, push_back, digit writes) and compared with the unpadded exact result; every case pads at least one operand and is non-trivial", run, 0, 0});
