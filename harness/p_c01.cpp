#include "giant.h"
static void run(Ctx& c) {
    const Cfg* rc; Int ra;
    if (isRow(c, rc, ra)) { c.nontrivial(); return checkRow(c, *rc, '+', ra); }
    const Cfg& cfg = genCfg(c);
    if (isGiant(c, 8000)) return giantSum(c, cfg, '+');
    Digits da, db; genMagPair(c, cfg.base, 4200, da, db);
    const Spell a = withSign(c, da), b = withSign(c, db);
    mixSpell(c, a); mixSpell(c, b); describePair(c, cfg, a, "+", b); labelLen(c, a, b);
    const std::size_t run = a.d == b.d ? carryRun(da, db, cfg.base) : borrowRun(da, db, cfg.base);
    labelRun(c, a.d == b.d ? "carry run" : "borrow run", run);
    if (run) c.nontrivial();
    checkBoth(c, cfg, '+', a, b);
}
static pbt::Registrar r({"C01", "operand pairs (type, signs, lengths, related digit patterns) added with + and += and compared with an exact integer reference; a case is non-trivial when at least one carry (equal signs) or borrow (different signs) occurs, or when it is an enumerated row of all small-scope values", run, rowCount, rowCase});
