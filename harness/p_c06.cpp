#include "ops.h"
// Canonical form: digits within the base, no superfluous high zeros, no
// negative zero.  Zero may be spelled with no digits or one zero digit.
static void canonical(const Cfg& cfg, const Num& n, const std::string& how) {
    const Desc d = cfg.desc(n);
    if (!finite(d)) PBT_FAIL(cfg.name << ": " << how << " is not finite: " << show(cfg, n));
    const Digits v = cfg.digits(n);
    for (u64 x : v) if (x >= cfg.base) PBT_FAIL(cfg.name << ": " << how << " has a digit outside the base: " << show(cfg, n));
    if (v.size() > 1 && v.back() == 0) PBT_FAIL(cfg.name << ": " << how << " has superfluous leading zeroes: " << show(cfg, n));
    if (trimmed(v) == 0 && (d == D_NEG || cfg.isNegative(n))) PBT_FAIL(cfg.name << ": " << how << " is a negative zero");
    if (cfg.size(n) != v.size()) PBT_FAIL(cfg.name << ": " << how << " size() is " << cfg.size(n) << " for " << v.size() << " digits");
}
static void sameSpelling(const Cfg& cfg, const Num& x, const Num& y, const std::string& how) {
    if (cfg.desc(x) != cfg.desc(y) || trim(cfg.digits(x)) != trim(cfg.digits(y)))
        PBT_FAIL(cfg.name << ": " << how << " are equal in value but " << show(cfg, x) << " vs " << show(cfg, y));
}
static void run(Ctx& c) {
    const Cfg* rc; Int ra;
    if (isRow(c, rc, ra)) {
        c.nontrivial();
        const Cfg& cfg = *rc; const Spell sa = spell(ra, cfg.base); NumP x = make(cfg, sa);
        PBT_DESC(c, cfg.name << ": row " << show(sa) << " with every operator and small-scope value");
        for (const Int& b : smallSet(cfg.base)) {
            const Spell sb = spell(b, cfg.base); NumP y = make(cfg, sb);
            for (char op : {'+', '-', '*', '/'}) {
                if (op == '/' && b == 0) continue;
                const std::string how = show(sa) + " " + op + " " + show(sb);
                NumP r(cfg.op(*x, op, *y)); canonical(cfg, *r, how);
                NumP z(cfg.copy(*x)); cfg.opAssign(*z, op, *y); canonical(cfg, *z, how + " (compound)");
            }
        }
        return;
    }
    const Cfg& cfg = genCfg(c);
    // a chain of operations: an accumulator meets fresh or earlier values
    Digits da, db; genMagPair(c, cfg.base, c.flip(1, 20) ? 600 : 120, da, db);
    std::vector<NumP> pool;
    const Spell sa = withSign(c, da), sb = withSign(c, db);
    mixSpell(c, sa); mixSpell(c, sb);
    pool.push_back(make(c, cfg, sa)); pool.push_back(make(c, cfg, sb));
    if (c.flip(1, 10)) pool.push_back(NumP(cfg.build(D_POS, Digits(1, 0))));   // zero spelled with a digit
    PBT_DESC(c, cfg.name << ": v0=" << show(sa) << " v1=" << show(sb));
    const u64 steps = c.range(1, 6);
    for (u64 i = 0; i < steps; ++i) {
        const std::size_t x = c.draw(pool.size() - 1), y = c.draw(pool.size() - 1);
        char op = "+-*/"[c.pick({3, 5, 3, 2})];
        const Int vx = libValue(cfg, *pool[x], "operand"), vy = libValue(cfg, *pool[y], "operand");
        if (op == '*' && bitsOf(vx) + bitsOf(vy) > 6000) op = '-';
        if (op == '/' && (vy == 0 || (bitsOf(vx) > bitsOf(vy) + 120))) op = '-';
        std::ostringstream how; how << "v" << x << " " << op << " v" << y << " = " << show(cfg, *pool[x]) << " " << op << " " << show(cfg, *pool[y]);
        PBT_DESC(c, "; v" << pool.size() << " = v" << x << op << "v" << y);
        c.mix(op); c.mix(x); c.mix(y);
        NumP r(cfg.op(*pool[x], op, *pool[y])); canonical(cfg, *r, how.str());
        NumP z(cfg.copy(*pool[x])); cfg.opAssign(*z, op, *pool[y]); canonical(cfg, *z, how.str() + " (compound)");
        sameSpelling(cfg, *r, *z, how.str() + ": binary and compound results");
        // the same value by another route
        const Int want = refOp(op, vx, vy);
        if (libValue(cfg, *r, "result") == want) {
            NumP w = make(cfg, spell(want, cfg.base));
            sameSpelling(cfg, *r, *w, how.str() + ": result and constructed number");
            if (c.flip(1, 2)) {
                NumP s(cfg.op(*r, '+', *pool[y])), t(cfg.op(*s, '-', *pool[y]));
                canonical(cfg, *s, how.str() + " + y"); canonical(cfg, *t, how.str() + " + y - y");
                if (libValue(cfg, *t, "result") == want) sameSpelling(cfg, *t, *r, how.str() + ": (r + y) - y and r");
            }
            const std::size_t nx = trimmed(cfg.digits(*pool[x])), ny = trimmed(cfg.digits(*pool[y])), nr = trimmed(cfg.digits(*r));
            if (want == 0) { c.label("result zero"); if (vx != 0) c.nontrivial(); }
            else if (nr < std::max(nx, ny)) { c.label("result shorter than an operand"); c.nontrivial(); }
            else if (nr > std::max(nx, ny)) { c.label("result longer than both"); c.nontrivial(); }
            if (want < 0) c.label("result negative");
        }
        pool.push_back(std::move(r));
    }
}
static pbt::Registrar r({"C06", "chains of up to 6 operations over canonical operands; after each one the digits, their range, superfluous zeros, the sign of zero and equality of spelling with other routes to the same value are inspected; a case is non-trivial when some result is zero from a non-zero operand, or shorter or longer than its operands, or for an enumerated row", run, rowCount, rowCase});
