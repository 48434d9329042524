#include "ops.h"
#include <new>
namespace {
struct Snap { Desc d; Digits v; };
Snap snap(const Cfg& cfg, const Num& n) { return Snap{cfg.desc(n), cfg.digits(n)}; }
bool is(const Cfg& cfg, const Num& n, const Snap& s) { return cfg.desc(n) == s.d && cfg.digits(n) == s.v; }
enum Kind { BIN, COMP, COPY, ASSIGN, EDIT };
}
static void run(Ctx& c) {
    const Cfg& cfg = genCfg(c);
    const Kind kind = (Kind)c.pick({6, 10, 2, 3, 3});
    char op = "+-*/"[c.draw(3)];
    Spell a, b;
    if ((kind == BIN || kind == COMP) && op == '/') {
        // small quotients: every step of the division allocates
        Digits db = genDigits(c, cfg.base, 1 + c.draw(5)); Int q = c.draw(c.flip(1, 8) ? ~0ull : 20), r = valueOf(genMag(c, cfg.base, 5), cfg.base), vb = valueOf(db, cfg.base);
        a = withSign(c, digitsOf(q * vb + r % vb, cfg.base)); b = withSign(c, db);
    } else {
        Digits x, y; genMagPair(c, cfg.base, c.flip(1, 6) ? (c.flip(1, 8) ? 400 : 70) : 12, x, y);
        a = withSign(c, x); b = withSign(c, y);
    }
    const bool alias = (kind == BIN || kind == COMP) && c.flip(1, 10);
    const int edit = (int)c.draw(3); const u64 digit = genDigit(c, cfg.base);
    const std::size_t pos = edit == 3 ? a.v.size() + 1 + c.draw(20) : a.v.empty() ? 0 : c.draw(a.v.size());
    if (op == '/' && alias && a.v.empty()) a.v.push_back(1);
    const char* kinds[] = {"binary", "compound", "copy", "assignment", "edit"};
    std::ostringstream head; head << cfg.name << ": " << kinds[kind];
    if (kind <= COMP) head << " " << op;
    if (kind == EDIT) head << " " << edit;
    head << " on " << show(a);
    if (!alias && kind != COPY && kind != EDIT) head << " and " << show(b);
    if (alias) head << " with itself";
    c.label(kinds[kind]); if (kind <= COMP) c.label(std::string("operator ") + op);
    if (alias) c.label("aliased");
    mixSpell(c, a); mixSpell(c, b); c.mix(head.str());
    PBT_DESC(c, head.str());
    Int want = 0; if (kind <= COMP) want = refOp(op, value(a, cfg.base), value(alias ? a : b, cfg.base));
    // makes exact-capacity copies, so that growth has to allocate
    auto fresh = [&](const Spell& s) { NumP t = make(cfg, s); return NumP(cfg.copy(*t)); };
    auto perform = [&](NumP& x, NumP& y, NumP& res) {
        Num& o = alias ? *x : *y;
        switch (kind) {
            case BIN: res.reset(cfg.opF(*x, op, o)); break;
            case COMP: cfg.opAssignF(*x, op, o); break;
            case COPY: res.reset(cfg.copyF(*x)); break;
            case ASSIGN: cfg.copyAssignF(*x, *y); break;
            default: cfg.editF(*x, edit, digit, pos); break;
        }
    };
    auto expect = [&](const Num& x, const Num* res, const char* when) {
        switch (kind) {
            case BIN: checkValue(cfg, *res, want, a, opName(op), alias ? a : b, when); break;
            case COMP: checkValue(cfg, x, want, a, opName(op), alias ? a : b, when); break;
            case COPY: if (!is(cfg, *res, Snap{a.d, a.v})) PBT_FAIL(head.str() << " " << when << " gave " << show(cfg, *res)); break;
            case ASSIGN: if (!is(cfg, x, Snap{b.d, b.v})) PBT_FAIL(head.str() << " " << when << " gave " << show(cfg, x)); break;
            default: {
                Digits v = a.v; if (edit == 0) v.insert(v.begin(), digit); else if (edit == 1) v.push_back(digit); else if (edit == 2) v.insert(v.begin() + pos, digit); else v.resize(pos, digit);
                if (!is(cfg, x, Snap{a.d, v})) PBT_FAIL(head.str() << " " << when << " gave " << show(cfg, x)); }
        }
    };
    long total;
    {   // dry run: count the allocations
        NumP x = fresh(a), y = fresh(b), res;
        fault::seen = 0; fault::countdown = 0;
        perform(x, y, res);
        total = fault::seen;
        expect(*x, res.get(), "without failures");
    }
    c.label(total == 0 ? "allocations 0" : total <= 3 ? "allocations 1-3" : total <= 20 ? "allocations 4-20" : "allocations 21+");
    if (total > 0) c.nontrivial();
    // every index of the failing allocation (sampled when there are many)
    const long cap = pbt::tier ? 200 : 40;
    std::vector<long> ks;
    for (long k = 1; k <= total; ++k) if (total <= cap || k <= cap / 2 || k > total - cap / 4) ks.push_back(k);
    if (total > cap) for (long i = 0; i < cap / 4; ++i) ks.push_back((long)c.range(1, (u64)total));
    bool becameInf = false, kept = false;
    for (long k : ks) {
        const long liveBefore = fault::live;
        {
        NumP x = fresh(a), y = fresh(b), res;
        const Snap sx = snap(cfg, *x), sy = snap(cfg, *y);
        bool bad = false, other = false;
        fault::seen = 0; fault::fired = false; fault::countdown = k;
        try { perform(x, y, res); }
        catch (const std::bad_alloc&) { bad = true; }
        catch (const pbt::Failure&) { throw; }
        catch (...) { other = true; }
        fault::window = false; fault::countdown = 0;
        const bool fired = fault::fired;
        std::ostringstream when; when << " when allocation " << k << " of " << total << " fails";
        if (other) PBT_FAIL(head.str() << when.str() << ": the exception that reaches the caller is not std::bad_alloc");
        if (fired && !bad) PBT_FAIL(head.str() << when.str() << ": the failure is not reported");
        if (!fired) continue;
        // operands
        const bool targetIsX = kind == COMP || kind == ASSIGN || kind == EDIT;
        if (!targetIsX && !is(cfg, *x, sx)) PBT_FAIL(head.str() << when.str() << ": the left operand became " << show(cfg, *x));
        if (!is(cfg, *y, sy)) PBT_FAIL(head.str() << when.str() << ": the other operand became " << show(cfg, *y));
        if (targetIsX && !is(cfg, *x, sx)) {
            const bool infinite = (cfg.desc(*x) == D_PINF || cfg.desc(*x) == D_NINF) && cfg.size(*x) == 0;
            // the spelling of the old value may differ, its value may not
            bool old = finite(cfg.desc(*x)) && kind == COMP && libValue(cfg, *x, "target") == value(a, cfg.base);
            if (!(kind == COMP && infinite) && !old) PBT_FAIL(head.str() << when.str() << ": the target became " << show(cfg, *x));
            becameInf = true;
        } else if (targetIsX) kept = true;
        // all objects remain usable: give the target its value back and repeat
        if (targetIsX) { NumP o = fresh(a); cfg.copyAssign(*x, *o); }
        perform(x, y, res);
        expect(*x, res.get(), "repeated after a failed allocation");
        }
        // every block obtained since the start of this round is gone again
        if (fault::live != liveBefore) PBT_FAIL(head.str() << " when allocation " << k << " of " << total << " fails: " << (fault::live - liveBefore) << " allocations leaked");
    }
    if (becameInf) c.label("target became infinite");
    if (kept) c.label("target kept its value");
}
static pbt::Registrar r({"C15", "operation, copy, assignment and edit cases in which every allocation of the library call is made to fail in turn (sampled beyond 40; 200 in the thorough tier); a case is non-trivial when the call allocates at least once", run, 0, 0});
