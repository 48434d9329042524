#include "giant.h"
static Digits rawPad(Ctx& c, Digits d) { if (c.flip(1, 4)) d.insert(d.end(), c.range(1, 4), 0); return d; }
static void same(const Cfg& cfg, const char* what, const Digits& was, const Digits& is) {
    if (was != is) PBT_FAIL(cfg.name << ": " << what << " modified its argument " << show(D_POS, was) << " into " << show(D_POS, is));
}
static void inBase(const Cfg& cfg, const std::string& what, const Digits& d) {
    for (u64 x : d) if (x >= cfg.base) PBT_FAIL(cfg.name << ": " << what << " left a digit outside the base: " << show(D_POS, d));
}
static bool refCmp(Cmp k, const Int& a, const Int& b) {
    switch (k) { case C_EQ: return a == b; case C_LT: return a < b; case C_LE: return a <= b; case C_GT: return a > b; default: return a >= b; }
}
static const char* cmpName(Cmp k) { return k == C_EQ ? "abs_val_is_eq" : k == C_LT ? "abs_val_is_lt" : k == C_LE ? "abs_val_is_le" : k == C_GT ? "abs_val_is_gt" : "abs_val_is_ge"; }

static void rawAll(Ctx& c, const Cfg& cfg, const Digits& a, const Digits& b, bool withDiv) {
    const Int va = valueOf(a, cfg.base), vb = valueOf(b, cfg.base);
    const std::string args = show(D_POS, a) + " and " + show(D_POS, b);
    {   // addition
        Digits x = a, y = b; cfg.absOp('+', x, y);
        same(cfg, "abs_val_add", b, y); inBase(cfg, "abs_val_add of " + args, x);
        PBT_CHECK(valueOf(x, cfg.base) == va + vb, cfg.name << ": abs_val_add of " << args << " gave " << show(D_POS, x) << ", expected " << showInt(va + vb, cfg.base));
    }
    if (va >= vb && a.size() >= b.size()) {
        Digits x = a, y = b;
        try { cfg.absOp('-', x, y); }
        catch (const Underflow&) { PBT_FAIL(cfg.name << ": abs_val_sub of " << args << " raised BNUnderflow although the first is not smaller"); }
        same(cfg, "abs_val_sub", b, y); inBase(cfg, "abs_val_sub of " + args, x);
        PBT_CHECK(valueOf(x, cfg.base) == va - vb, cfg.name << ": abs_val_sub of " << args << " gave " << show(D_POS, x) << ", expected " << showInt(va - vb, cfg.base));
    } else if (va < vb && cfg.debugBuild()) {
        Digits x = a, y = b; bool threw = false;
        try { cfg.absOp('-', x, y); } catch (const Underflow&) { threw = true; }
        PBT_CHECK(threw, cfg.name << " (BN_DEBUG): abs_val_sub of " << args << " did not raise BNUnderflow");
        same(cfg, "abs_val_sub (second, BNUnderflow)", b, y); same(cfg, "abs_val_sub (first, BNUnderflow)", a, x);
        c.label("underflow rejected");
    }
    if (withDiv && vb != 0) {
        Digits x = a, y = b; cfg.absOp('/', x, y);
        same(cfg, "abs_val_div", b, y); inBase(cfg, "abs_val_div of " + args, x);
        PBT_CHECK(valueOf(x, cfg.base) == va / vb, cfg.name << ": abs_val_div of " << args << " gave " << show(D_POS, x) << ", expected " << showInt(va / vb, cfg.base));
    }
    for (Cmp k : {C_EQ, C_LT, C_LE, C_GT, C_GE}) {
        Digits x = a, y = b; const bool r = cfg.absCmp(k, x, y);
        same(cfg, cmpName(k), a, x); same(cfg, cmpName(k), b, y);
        PBT_CHECK(r == refCmp(k, va, vb), cfg.name << ": " << cmpName(k) << " of " << args << " gave " << r);
    }
    if (va == vb) c.label("equal magnitudes");
}
static void giant(Ctx& c, const Cfg& cfg) {
    Digits a, b; giantPair(c, cfg.base, a, b);
    if (c.flip(1, 4)) a.insert(a.end(), c.range(1, 4), 0);
    std::ostringstream o; o << show(D_POS, a) << " and " << show(D_POS, b) << " (" << a.size() << " and " << b.size() << " digits)";
    const std::string args = o.str(); PBT_DESC(c, cfg.name << ": raw routines on " << args); c.mix(args);
    const int order = cmpDigits(a, b);
    auto result = [&](char op, const Digits& x, const Digits& want, const char* fn) { (void)op;
        inBase(cfg, std::string(fn) + " of " + args, x);
        if (trim(x) != want) PBT_FAIL(cfg.name << ": " << fn << " of " << args << " gave " << show(D_POS, x) << ", expected " << show(D_POS, want)); };
    { Digits x = a, y = b; cfg.absOp('+', x, y); same(cfg, "abs_val_add", b, y); result('+', x, addDigits(a, b, cfg.base), "abs_val_add"); }
    if (order >= 0 && a.size() >= b.size()) { Digits x = a, y = b; cfg.absOp('-', x, y); same(cfg, "abs_val_sub", b, y); result('-', x, subDigits(a, b, cfg.base), "abs_val_sub"); }
    for (Cmp k : {C_EQ, C_LT, C_LE, C_GT, C_GE}) {
        Digits x = a, y = b; const bool r = cfg.absCmp(k, x, y);
        same(cfg, cmpName(k), a, x); same(cfg, cmpName(k), b, y);
        PBT_CHECK(r == refCmp(k, order, 0), cfg.name << ": " << cmpName(k) << " of " << args << " gave " << r);
    }
    Digits q; giantDivision(c, cfg.base, a, b, q);
    { Digits x = a, y = b; cfg.absOp('/', x, y); same(cfg, "abs_val_div", b, y);
      if (trim(x) != q) PBT_FAIL(cfg.name << ": abs_val_div of " << show(D_POS, a) << " and " << show(D_POS, b) << " gave " << show(D_POS, x) << ", expected " << show(D_POS, q)); }
}
static void run(Ctx& c) {
    const Cfg* rc; Int ra;
    if (isRow(c, rc, ra)) {
        if (ra < 0) return;
        c.nontrivial(); PBT_DESC(c, rc->name << ": row of raw routines for first magnitude " << ra);
        for (const Int& b : smallSet(rc->base)) if (b >= 0) rawAll(c, *rc, digitsOf(ra, rc->base), digitsOf(b, rc->base), true);
        return;
    }
    const Cfg& cfg = genCfg(c);
    if (isGiant(c, 6000)) return giant(c, cfg);
    const std::size_t kind = c.pick({5, 3, 3});
    if (kind == 2) {   // finite operators never raise BNUnderflow
        Digits da, db; genMagPair(c, cfg.base, 60, da, db);
        Spell a = withSign(c, da), b = withSign(c, db);
        char op = "+-*/"[c.draw(3)];
        if (op == '/') { genDivPair(c, cfg, a, b); }
        describePair(c, cfg, a, opName(op), b); mixSpell(c, a); mixSpell(c, b); c.mix(op);
        c.label("finite operators"); if (!a.v.empty() || !b.v.empty()) c.nontrivial();
        NumP x = make(c, cfg, a), y = make(c, cfg, b);
        try {
            NumP r(cfg.op(*x, op, *y)); cfg.opAssign(*x, op, *y);
            for (int k = C_EQ; k <= C_GE; ++k) cfg.cmp(*x, (Cmp)k, *y);
        } catch (const Underflow&) { PBT_FAIL(cfg.name << ": " << show(a) << " " << op << " " << show(b) << " raised BNUnderflow"); }
        return;
    }
    Digits a, b;
    if (kind == 0) { genMagPair(c, cfg.base, c.flip(1, 12) ? 900 : 120, a, b); c.label("general pair"); }
    else { Spell x, y; genDivPair(c, cfg, x, y); a = x.v; b = y.v; c.label("division pair"); }
    a = rawPad(c, a); b = rawPad(c, b);
    PBT_DESC(c, cfg.name << ": raw routines on " << show(D_POS, a) << " and " << show(D_POS, b));
    mixSpell(c, Spell(D_POS, a)); mixSpell(c, Spell(D_POS, b));
    if (trimmed(a) && trimmed(b)) c.nontrivial();
    if (trimmed(a) != a.size() || trimmed(b) != b.size()) c.label("leading zeros");
    rawAll(c, cfg, a, b, kind == 1);
}
static pbt::Registrar r({"C19", "raw digit containers (leading zeros included) through abs_val_add/sub/div and the five magnitude comparisons against exact integers, and finite operators watched for BNUnderflow; a case is non-trivial when both magnitudes are non-zero, or for an enumerated row", run, rowCount, rowCase});
