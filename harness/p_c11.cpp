#include "giant.h"
namespace {
struct Snap { Desc d; Digits v; };
Snap snap(const Cfg& cfg, const Num& n) { return Snap{cfg.desc(n), cfg.digits(n)}; }
void unchanged(const Cfg& cfg, const Num& n, const Snap& s, const std::string& what) {
    if (cfg.desc(n) != s.d || cfg.digits(n) != s.v) PBT_FAIL(cfg.name << ": " << what << " changed from " << show(s.d, s.v) << " to " << show(cfg, n));
}
bool same(const Cfg& cfg, const Num& x, const Num& y) {
    if (cfg.desc(x) != cfg.desc(y)) return false;
    return trim(cfg.digits(x)) == trim(cfg.digits(y));
}
NumP operand(Ctx& c, const Cfg& cfg, const Digits& d) {
    if (c.flip(1, 12)) { const Desc e[] = {D_NAN, D_PINF, D_NINF}; return NumP(cfg.fromList(e[c.draw(2)], 0, 0)); }
    NumP n = make(c, cfg, withSign(c, d));
    if (c.flip(1, 8)) cfg.resize(*n, cfg.size(*n) + 1 + c.draw(3), 0);
    return n;
}
void scramble(Ctx& c, const Cfg& cfg, Num& n) {
    switch (c.draw(7)) {
        case 0: cfg.clear(n); cfg.pushBack(n, 1); cfg.setDesc(n, D_NEG); break;
        case 1: cfg.pushFront(n, cfg.base - 1); break;
        case 2: cfg.pushBack(n, 1); break;
        case 3: cfg.setDesc(n, cfg.desc(n) == D_NEG ? D_POS : D_NEG); break;
        case 4: if (cfg.size(n)) cfg.set(n, c.draw(cfg.size(n) - 1), cfg.base - 1); else cfg.pushBack(n, 1); break;
        case 5: { NumP t(cfg.build(D_POS, {1, 1})); cfg.opAssign(n, '+', *t); break; }
        case 6: { NumP t(cfg.build(D_NEG, {0, 1})); cfg.opAssign(n, '*', *t); break; }
        default: cfg.resize(n, cfg.size(n) + 2, 1); break;
    }
}
}
static void run(Ctx& c) {
    const Cfg& cfg = genCfg(c);
    Digits da, db; genMagPair(c, cfg.base, c.flip(1, 16) ? 400 : 60, da, db);
    NumP x = operand(c, cfg, da), y = operand(c, cfg, db);
    const Snap sx = snap(cfg, *x), sy = snap(cfg, *y);
    c.mix(sx.d); for (u64 t : sx.v) c.mix(t); c.mix(sy.d); for (u64 t : sy.v) c.mix(t);
    if (sx.v.size() >= 2) c.nontrivial();
    const std::string ops = show(sx.d, sx.v) + " and " + show(sy.d, sy.v);
    auto divisible = [&](const Snap& a, const Snap& b) { return !finite(a.d) || !finite(b.d) || trimmed(b.v) == 0 || bitsOf(valueOf(a.v, cfg.base)) <= bitsOf(valueOf(b.v, cfg.base)) + 160; };
    switch (c.pick({8, 5, 6, 5, 3})) {
        case 0: {   // binary and compound operators
            char op = "+-*/"[c.draw(3)];
            if (op == '/' && !divisible(sx, sy)) op = '-';
            PBT_DESC(c, cfg.name << ": operands " << ops << ", operator " << op); c.label("operator"); c.mix(op);
            NumP r(cfg.op(*x, op, *y));
            unchanged(cfg, *x, sx, std::string("left operand of ") + op); unchanged(cfg, *y, sy, std::string("right operand of ") + op);
            NumP z(cfg.copy(*x)); cfg.opAssign(*z, op, *y);
            unchanged(cfg, *y, sy, std::string("right operand of ") + op + "=");
            if (!same(cfg, *z, *r)) PBT_FAIL(cfg.name << ": " << ops << ": " << op << "= gives " << show(cfg, *z) << " but " << op << " gives " << show(cfg, *r));
            // the result does not share anything with the operands
            const Snap sr = snap(cfg, *r);
            scramble(c, cfg, *x); scramble(c, cfg, *y);
            unchanged(cfg, *r, sr, "result after its operands were modified");
            break; }
        case 1: {   // comparisons and const access
            PBT_DESC(c, cfg.name << ": comparisons and reads of " << ops); c.label("const operations");
            for (int i = 0; i < 6; ++i) { const bool r1 = cfg.cmp(*x, (Cmp)i, *y), r2 = cfg.cmp(*x, (Cmp)i, *y); if (r1 != r2) PBT_FAIL(cfg.name << ": comparison of " << ops << " is not repeatable"); }
            for (std::size_t i = 0; i < cfg.size(*x); ++i) cfg.get(*x, i);
            std::ostringstream o; cfg.print(o, *x); cfg.print(o, *y);
            cfg.isNan(*x); cfg.isInfinite(*x); cfg.isPositive(*x); cfg.isNegative(*x);
            unchanged(cfg, *x, sx, "left operand of comparisons"); unchanged(cfg, *y, sy, "right operand of comparisons");
            break; }
        case 2: {   // aliasing
            char op = "+-*/="[c.draw(4)];
            PBT_DESC(c, cfg.name << ": x " << op << "= x for x = " << show(sx.d, sx.v)); c.label("aliased operator"); c.mix(op);
            NumP p(cfg.copy(*x)), q(cfg.copy(*x));
            if (op == '=') { cfg.copyAssign(*x, *x); unchanged(cfg, *x, sx, "x = x:"); break; }
            NumP two(cfg.op(*p, op, *q)), one(cfg.op(*x, op, *x));
            unchanged(cfg, *x, sx, std::string("operand of x ") + op + " x");
            cfg.opAssign(*x, op, *x);
            if (!same(cfg, *one, *two)) PBT_FAIL(cfg.name << ": x " << op << " x is " << show(cfg, *one) << " for x = " << show(sx.d, sx.v) << ", with two copies it is " << show(cfg, *two));
            if (!same(cfg, *x, *two)) PBT_FAIL(cfg.name << ": x " << op << "= x is " << show(cfg, *x) << " for x = " << show(sx.d, sx.v) << ", with two copies it is " << show(cfg, *two));
            break; }
        case 3: {   // copies
            PBT_DESC(c, cfg.name << ": copies of " << show(sx.d, sx.v) << " over " << show(sy.d, sy.v)); c.label("copy");
            // references taken before the copy refer to the source only
            void* ref = nullptr; std::size_t at = 0; const void* data = cfg.dataRef(*x);
            if (!sx.v.empty()) { at = c.draw(sx.v.size() - 1); ref = cfg.ref(*x, at); }
            NumP p(cfg.copy(*x)); unchanged(cfg, *x, sx, "source of a copy construction"); unchanged(cfg, *p, sx, "copy-constructed number");
            cfg.copyAssign(*y, *x); unchanged(cfg, *x, sx, "source of a copy assignment"); unchanged(cfg, *y, sx, "copy-assigned number");
            if (ref && c.flip(1, 2)) {
                Snap t = sx; t.v[at] = t.v[at] ? 0 : 1; cfg.writeRef(ref, t.v[at]); c.label("write through a kept reference");
                unchanged(cfg, *p, sx, "copy after its source was written through a reference"); unchanged(cfg, *y, sx, "assigned copy after its source was written through a reference");
                if (cfg.digits(*x) != t.v || cfg.readData(data) != t.v) PBT_FAIL(cfg.name << ": a write through a reference taken before a copy gave " << show(cfg, *x) << ", expected " << show(t.d, t.v));
                cfg.writeRef(ref, sx.v[at]);
            }
            scramble(c, cfg, *p); unchanged(cfg, *x, sx, "source after its copy was modified"); unchanged(cfg, *y, sx, "copy after another copy was modified");
            scramble(c, cfg, *x); unchanged(cfg, *y, sx, "copy after its source was modified");
            break; }
        default: {   // moves
            const bool ctor = c.flip(1, 2);
            PBT_DESC(c, cfg.name << ": move " << (ctor ? "construction" : "assignment") << " from " << show(sx.d, sx.v)); c.label("move");
            NumP p;
            if (ctor) p.reset(cfg.moved(*x)); else { p = std::move(y); cfg.moveAssign(*p, *x); }
            unchanged(cfg, *p, sx, "moved-to number");
            const Snap s = snap(cfg, *x);
            if (s.d != D_POS || trimmed(s.v) != 0) PBT_FAIL(cfg.name << ": moved-from number is " << show(s.d, s.v) << ", expected zero");
            // usable
            NumP t = make(cfg, Spell(D_NEG, {1, 1}));
            cfg.opAssign(*x, '+', *t);
            if (!same(cfg, *x, *t)) PBT_FAIL(cfg.name << ": moved-from number plus " << show(cfg, *t) << " is " << show(cfg, *x));
            unchanged(cfg, *p, sx, "moved-to number after its source was reused");
            cfg.copyAssign(*x, *p); unchanged(cfg, *x, sx, "number assigned to a moved-from one");
            break; }
    }
}
static pbt::Registrar r({"C11", "operands (finite, padded, NaN and infinite) snapshotted around operators, comparisons, self-aliased operators, copies and moves; results and sources are then modified to detect sharing; a case is non-trivial when the first operand has at least two digits", run, 0, 0});
