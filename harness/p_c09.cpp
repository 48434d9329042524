#include "ext.h"
namespace {
NumP special(Ctx& c, const Cfg& cfg, Desc d) {
    // made in one of several ways: setDescriptor on a number with digits, the
    // constructor, or an arithmetic operation that yields it
    switch (c.draw(2)) {
        case 0: { NumP n = make(cfg, Spell(D_POS, genMag(c, cfg.base, 6))); cfg.setDesc(*n, d); return n; }
        case 1: return NumP(cfg.fromList(d, 0, 0));
        default: {
            const u64 one = 1; NumP a(cfg.fromList(d == D_NINF ? D_NEG : D_POS, &one, 1)), z(cfg.make());
            NumP r(cfg.op(*a, '/', *z));
            if (d == D_NAN) { NumP s(cfg.op(*r, '-', *r)); return s; }
            return r; }
    }
}
}
static void run(Ctx& c) {
    const Cfg& cfg = genCfg(c);
    std::vector<NumP> v; std::vector<Ext> m; std::vector<bool> negZero;
    std::ostringstream log; log << cfg.name << ":";
    const std::size_t N = 3;
    bool any = false;
    for (std::size_t i = 0; i < N; ++i) {
        NumP n; Ext e = fin(0); bool nz = false;
        switch (c.pick({3, 2, 2, 3, 8})) {
            case 0: n = special(c, cfg, D_PINF); e = ext(Ext::PINF); break;
            case 1: n = special(c, cfg, D_NINF); e = ext(Ext::NINF); break;
            case 2: n = special(c, cfg, D_NAN); e = ext(Ext::NAN_); break;
            case 3: {   // zeros in several spellings
                const Desc d = c.flip(1, 4) ? D_NEG : D_POS; const Digits z(c.draw(3), 0);
                n = make(cfg, Spell(d, z)); nz = d == D_NEG; break; }
            default: { const Spell s = withSign(c, genMag(c, cfg.base, c.flip(1, 12) ? 200 : 12)); n = make(c, cfg, s); e = fin(value(s, cfg.base)); mixSpell(c, s); break; }
        }
        if (!matches(cfg, *n, e)) PBT_FAIL(cfg.name << ": operand was made as " << show(cfg, *n) << ", expected " << showExt(e, cfg.base));
        flags(cfg, *n);
        log << " v" << i << "=" << show(cfg, *n); c.mix(cfg.desc(*n)); c.mix(cfg.size(*n));
        v.push_back(std::move(n)); m.push_back(e); negZero.push_back(nz);
    }
    PBT_DESC(c, log.str());
    const u64 steps = c.range(1, 5);
    for (u64 k = 0; k < steps; ++k) {
        const std::size_t x = c.draw(N - 1), y = c.draw(N - 1);
        char op = "+-*/"[c.draw(3)];
        const bool special = m[x].k != Ext::FIN || m[y].k != Ext::FIN || (op == '/' && m[y].v == 0);
        if (op == '/' && !special && bitsOf(m[x].v) > bitsOf(m[y].v) + 300) op = '-';
        if (op == '*' && !special && bitsOf(m[x].v) + bitsOf(m[y].v) > 1500) op = '-';
        const Ext want = ref(op, m[x], m[y], negZero[y]);
        std::ostringstream st; st << " v" << x << op << "=v" << y;
        log << ";" << st.str(); PBT_DESC(c, ";" << st.str()); c.mix(st.str());
        order(cfg, *v[x], m[x], *v[y], m[y]);
        NumP r(cfg.op(*v[x], op, *v[y]));
        if (!matches(cfg, *r, want)) PBT_FAIL(log.str() << ": binary result is " << show(cfg, *r) << ", expected " << showExt(want, cfg.base));
        cfg.opAssign(*v[x], op, *v[y]);
        if (!matches(cfg, *v[x], want)) PBT_FAIL(log.str() << ": compound result is " << show(cfg, *v[x]) << ", expected " << showExt(want, cfg.base));
        flags(cfg, *v[x]);
        if (special) { any = true; c.label(std::string("special ") + op); c.label("gives " + (want.k == Ext::FIN ? std::string("finite") : showExt(want, cfg.base))); }
        m[x] = actual(cfg, *v[x]); negZero[x] = cfg.desc(*v[x]) == D_NEG && m[x].k == Ext::FIN && m[x].v == 0;
        // a result of a special operation is as good as new: usable again after clear
        if (m[x].k != Ext::FIN && c.flip(1, 4)) {
            cfg.clear(*v[x]); m[x] = fin(0); negZero[x] = false;
            if (!matches(cfg, *v[x], m[x])) PBT_FAIL(log.str() << ": clear() left " << show(cfg, *v[x]));
            log << "; clear v" << x;
        }
    }
    if (any) c.nontrivial();
}
// all combinations of operand kinds and operators, through the same decoder:
// type, kinds of three operands, ... is left to the generator; enumerated here
// are (type, kind x, kind y, operator) with the simplest spellings
static std::size_t count() { return configs().size() * 5 * 5 * 4; }
static void fixedCase(std::size_t i, std::vector<u64>& v) {
    const u64 weightStart[5] = {0, 3, 5, 7, 10};
    const u64 t = i % configs().size(); i /= configs().size();
    const u64 kx = i % 5; i /= 5; const u64 ky = i % 5; i /= 5; const u64 op = i % 4;
    v.clear(); v.push_back(t);
    auto operand = [&](u64 k) {
        v.push_back(weightStart[k]);
        if (k < 3) v.push_back(1);                       // through the constructor
        else if (k == 3) { v.push_back(0); v.push_back(0); }   // zero without digits
        else { v.push_back(3 + 3); v.push_back(0); v.push_back(7); v.push_back(0); v.push_back(0); }
    };
    operand(kx); operand(ky); operand(3);
    v.push_back(0);                                     // one step
    v.push_back(0); v.push_back(1); v.push_back(op);
}
static pbt::Registrar r({"C09", "three variables holding NaN, infinities, differently spelled zeros or finite numbers, 1-5 operations on them compared with extended-real arithmetic, order and predicates; a case is non-trivial when an operation has a non-finite operand or a zero divisor", run, count, fixedCase});
