#include "giant.h"
static void run(Ctx& c) {
    const Cfg* rc; Int ra;
    if (isRow(c, rc, ra)) { c.nontrivial(); return checkRow(c, *rc, '*', ra); }
    const Cfg& cfg = genCfg(c);
    if (isGiant(c, 12000)) return giantProduct(c, cfg);
    Digits da, db;
    switch (c.pick({20, 6, 6, pbt::tier ? 3u : 1u, 2})) {
        case 0: genMagPair(c, cfg.base, 300, da, db); break;
        case 1: {   // total length around a power of two (padding of the transform)
            const std::size_t t = ((std::size_t)1 << c.range(1, 9)) + c.draw(2) - 1, k = t ? c.draw(t) : 0;
            da = genDigits(c, cfg.base, k); db = genDigits(c, cfg.base, t - k); c.label("total length 2^k +-1"); break; }
        case 2: {   // unbalanced
            da = genDigits(c, cfg.base, c.range(1, 4)); db = genDigits(c, cfg.base, c.range(100, 600));
            if (c.flip(1, 2)) std::swap(da, db);
            c.label("unbalanced"); break; }
        case 4: { std::size_t n, m; genLenPair(c, 1100, n, m); da = genDigits(c, cfg.base, n); db = genDigits(c, cfg.base, m); c.label("swept lengths"); break; }
        default: da = genDigits(c, cfg.base, c.range(300, 2500)); db = genDigits(c, cfg.base, c.range(1, 2500)); c.label("long"); break;
    }
    const Spell a = withSign(c, da), b = withSign(c, db);
    mixSpell(c, a); mixSpell(c, b); describePair(c, cfg, a, "*", b); labelLen(c, a, b);
    if (da.size() >= 2 && db.size() >= 2) c.nontrivial();
    checkBoth(c, cfg, '*', a, b);
}
static pbt::Registrar r({"C03", "operand pairs multiplied with * and *= and compared with an exact integer reference; a case is non-trivial when both operands have at least two digits, or when it is an enumerated row of all small-scope values", run, rowCount, rowCase});
