#include "giant.h"
static const char* names[] = {"==", "!=", "<", "<=", ">", ">="};
static void checkPair(const Cfg& cfg, const Num& x, const Num& y, const Int& a, const Int& b, const Spell& sa, const Spell& sb) {
    const bool want[] = {a == b, a != b, a < b, a <= b, a > b, a >= b};
    for (int i = 0; i < 6; ++i)
        if (cfg.cmp(x, (Cmp)i, y) != want[i])
            PBT_FAIL(cfg.name << ": " << show(sa) << " " << names[i] << " " << show(sb) << " gave " << !want[i] << ", expected " << want[i]);
}
static void run(Ctx& c) {
    const Cfg* rc; Int ra;
    if (isRow(c, rc, ra)) {
        c.nontrivial();
        const Cfg& cfg = *rc; const Spell sa = spell(ra, cfg.base); NumP x = make(cfg, sa);
        PBT_DESC(c, cfg.name << ": row " << show(sa) << " compared with every small-scope value");
        for (const Int& b : smallSet(cfg.base)) { const Spell sb = spell(b, cfg.base); NumP y = make(cfg, sb); checkPair(cfg, *x, *y, ra, b, sa, sb); }
        // zeros however spelled
        for (int k = 0; k < 4; ++k) { const Spell z(k & 1 ? D_NEG : D_POS, k & 2 ? Digits(1, 0) : Digits()); NumP y = make(cfg, z); checkPair(cfg, *x, *y, ra, 0, sa, z); checkPair(cfg, *y, *x, 0, ra, z, sa); }
        return;
    }
    const Cfg& cfg = genCfg(c);
    if (isGiant(c, 8000)) return giantCompare(c, cfg);
    Digits d[3]; genMagPair(c, cfg.base, 4200, d[0], d[1]);
    const bool triple = c.flip(1, 8);
    if (triple) {
        d[2] = d[c.draw(1)];
        if (!d[2].empty()) d[2][c.draw(d[2].size() - 1)] = genDigit(c, cfg.base);
        d[2] = trim(d[2]); c.label("triple");
    }
    Spell s[3]; Int v[3]; NumP n[3]; const int m = triple ? 3 : 2;
    // same sign most of the time: different signs decide early
    const Desc common = genSign(c); const bool mixed = c.flip(1, 4);
    for (int i = 0; i < m; ++i) {
        const Desc sg = mixed ? genSign(c) : common;
        s[i] = Spell(sg, d[i]);                    // includes negatively signed zero
        v[i] = value(s[i], cfg.base); n[i] = make(c, cfg, s[i]); mixSpell(c, s[i]);
        PBT_DESC(c, (i ? " ? " : cfg.name + ": ") << show(s[i]));
    }
    labelLen(c, s[0], s[1]);
    c.label(v[0] == v[1] ? "equal" : v[0] < v[1] ? "less" : "greater");
    c.label(common == D_NEG && !mixed ? "both negative" : mixed ? "signs free" : "both positive");
    if (s[0].d == s[1].d && trimmed(d[0]) == trimmed(d[1]) && trimmed(d[0]) >= 1) { c.nontrivial(); c.label("decided by digits"); }
    for (int i = 0; i < m; ++i) for (int j = 0; j < m; ++j) checkPair(cfg, *n[i], *n[j], v[i], v[j], s[i], s[j]);
    if (!c.flip(1, 4)) return;
    // compared again after edits, some of them through a reference taken before
    void* r[2] = {nullptr, nullptr}; std::size_t at[2] = {0, 0};
    for (int i = 0; i < 2; ++i) if (!s[i].v.empty()) { at[i] = c.flip(1, 2) ? s[i].v.size() - 1 : c.draw(s[i].v.size() - 1); r[i] = cfg.ref(*n[i], at[i]); }
    checkPair(cfg, *n[0], *n[1], v[0], v[1], s[0], s[1]);
    std::ostringstream log;
    for (u64 k = 1 + c.draw(2); k--;) {
        const int i = (int)c.draw(1); Spell& t = s[i]; u64 d = c.flip(1, 3) ? 0 : genDigit(c, cfg.base);
        if (r[i] && c.flip(2, 3)) {
            if (c.flip(1, 4) && at[i] < s[1 - i].v.size()) d = s[1 - i].v[at[i]];
            cfg.writeRef(r[i], d); t.v[at[i]] = d; log << " v" << i << " digit " << at[i] << "=" << d << " through a reference;"; }
        else switch (c.draw(4)) {
            case 0: cfg.pushBack(*n[i], d); t.v.push_back(d); r[i] = nullptr; log << " v" << i << " push_back " << d << ";"; break;
            case 1: if (t.v.empty()) continue; cfg.popBack(*n[i]); t.v.pop_back(); r[i] = nullptr; log << " v" << i << " pop_back;"; break;
            case 2: cfg.pushFront(*n[i], d); t.v.insert(t.v.begin(), d); r[i] = nullptr; log << " v" << i << " push_front " << d << ";"; break;
            case 3: t.d = t.d == D_NEG ? D_POS : D_NEG; cfg.setDesc(*n[i], t.d); log << " v" << i << " sign changed;"; break;
            default: { const std::size_t z = c.draw(t.v.size() + 2); cfg.resize(*n[i], z, d); t.v.resize(z, d); r[i] = nullptr; log << " v" << i << " resize " << z << " with " << d << ";"; break; }
        }
        PBT_DESC(c, ";" << log.str()); c.mix(log.str()); c.label("compared again after an edit");
        v[i] = value(t, cfg.base);
        checkPair(cfg, *n[0], *n[1], v[0], v[1], s[0], s[1]); checkPair(cfg, *n[1], *n[0], v[1], v[0], s[1], s[0]);
    }
}
static pbt::Registrar r({"C05", "pairs and triples of finite numbers compared with all six operators in both directions (and with themselves) against integer comparison, a quarter of them again after edits and writes through references; a case is non-trivial when both numbers have the same sign and digit count, so that digits decide, or when it is an enumerated row of all small-scope values", run, rowCount, rowCase});
