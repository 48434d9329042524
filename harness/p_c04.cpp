#include "giant.h"
static void run(Ctx& c) {
    const Cfg* rc; Int ra;
    if (isRow(c, rc, ra)) { c.nontrivial(); return checkRow(c, *rc, '/', ra); }
    const Cfg& cfg = genCfg(c);
    if (isGiant(c, 8000)) return giantQuotient(c, cfg);
    Spell a, b; genDivPair(c, cfg, a, b, true);
    mixSpell(c, a); mixSpell(c, b); describePair(c, cfg, a, "/", b); labelLen(c, a, b);
    const Int q = refOp('/', value(a, cfg.base), value(b, cfg.base));
    const unsigned qb = bitsOf(q);
    c.label(qb == 0 ? "quotient bits 0" : qb <= 8 ? "quotient bits 1-8" : qb <= 64 ? "quotient bits 9-64" : qb <= 200 ? "quotient bits 65-200" : "quotient bits 201+");
    if (q != 0 && b.v.size() >= 1 && !(b.v.size() == 1 && b.v[0] == 1)) c.nontrivial();
    checkBoth(c, cfg, '/', a, b);
}
static pbt::Registrar r({"C04", "dividends built as q*b+r (r = 0, 1, |b|-1, random), equal and near-equal operands, divided with / and /= and compared with an exact integer reference; a case is non-trivial when the quotient is not zero and the divisor is not one, or when it is an enumerated row of all small-scope values", run, rowCount, rowCase});
