#include "ext.h"
// Programs that mix arithmetic with digit edits, sign changes and non-finite
// values.  After an edit the digits must be the model's; after an arithmetic
// step the value must be, and the model takes over its spelling.
struct Var { NumP n; Ext e; Desc d; Digits v; };
static void mixed(Ctx& c, const Cfg& cfg) {
    const std::size_t N = 4; Var v[N]; std::ostringstream log;
    auto refresh = [&](Var& x) { x.e = finite(x.d) ? fin(value(Spell(x.d, x.v), cfg.base)) : ext(x.d == D_NAN ? Ext::NAN_ : x.d == D_PINF ? Ext::PINF : Ext::NINF); };
    auto adopt = [&](Var& x) { x.d = cfg.desc(*x.n); x.v = cfg.digits(*x.n); x.e = actual(cfg, *x.n); };
    auto check = [&](const std::string& step) {
        for (std::size_t i = 0; i < N; ++i)
            if (cfg.desc(*v[i].n) != v[i].d || cfg.digits(*v[i].n) != v[i].v || cfg.size(*v[i].n) != v[i].v.size())
                PBT_FAIL(cfg.name << " after" << log.str() << " (last: " << step << "): variable v" << i << " holds " << show(cfg, *v[i].n) << ", expected " << show(v[i].d, v[i].v));
    };
    PBT_DESC(c, cfg.name << " (mixed):");
    Digits a, b; genMagPair(c, cfg.base, c.flip(1, 8) ? 200 : 24, a, b);
    for (std::size_t i = 0; i < N; ++i) {
        Spell s = i == 0 ? withSign(c, a) : i == 1 ? withSign(c, b) : Spell();
        v[i].n = i < 2 ? make(c, cfg, s) : NumP(cfg.make()); v[i].d = s.d; v[i].v = s.v; refresh(v[i]); mixSpell(c, s);
        if (i < 2) PBT_DESC(c, " v" << i << "=" << show(s));
    }
    const u64 steps = c.range(3, pbt::tier ? 50 : 24);
    std::size_t edits = 0, arith = 0, afterEdit = 0; bool edited[N] = {};
    for (u64 k = 0; k < steps; ++k) {
        const std::size_t x = c.draw(N - 1), y = c.draw(N - 1); Var& X = v[x]; Var& Y = v[y];
        std::ostringstream st; const std::size_t kind = c.pick({22, 14, 4, 3, 3, 3, 4, 4, 4, 4, 4, 3, 3, 5, 5, 1, 2});
        if (kind >= 6 && kind <= 13 && !finite(X.d)) { cfg.clear(*X.n); X.d = D_POS; X.v.clear(); refresh(X); st << " v" << x << ".clear()"; }
        else if (kind <= 1) {
            char op = "+-*/"[c.pick({4, 4, 3, 3})];
            const bool fine = X.e.k == Ext::FIN && Y.e.k == Ext::FIN;
            if (fine && op == '*' && bitsOf(X.e.v) + bitsOf(Y.e.v) > 4000) op = '/';
            if (fine && op == '/' && Y.e.v != 0 && bitsOf(X.e.v) > bitsOf(Y.e.v) + 200) op = '-';
            const Ext want = ref(op, X.e, Y.e, Y.d == D_NEG && Y.e.v == 0);
            st << " v" << x << op << (kind == 0 ? "=v" : "v") << y;
            std::size_t t = x;
            if (kind == 0) cfg.opAssign(*X.n, op, *Y.n);
            else { t = c.draw(N - 1); st << "->v" << t; NumP r(cfg.op(*X.n, op, *Y.n)); if (c.flip(1, 2)) cfg.moveAssign(*v[t].n, *r); else cfg.copyAssign(*v[t].n, *r); }
            if (!matches(cfg, *v[t].n, want)) PBT_FAIL(cfg.name << " after" << log.str() << ";" << st.str() << ": variable v" << t << " holds " << show(cfg, *v[t].n) << ", expected " << showExt(want, cfg.base));
            if (edited[x] || edited[y]) ++afterEdit;
            adopt(v[t]); edited[t] = false; ++arith;
        }
        else if (kind == 2) { const Spell s = withSign(c, genMag(c, cfg.base, 24)); NumP t = make(c, cfg, s); cfg.moveAssign(*X.n, *t); X.d = s.d; X.v = s.v; refresh(X); st << " v" << x << "=" << show(s); }
        else if (kind == 3) { cfg.copyAssign(*X.n, *Y.n); const Desc d = Y.d; const Digits w = Y.v; X.d = d; X.v = w; refresh(X); st << " v" << x << "=v" << y; }
        else if (kind == 4 || kind == 5) {
            if (x == y) continue;
            if (kind == 4) cfg.moveAssign(*X.n, *Y.n); else X.n.reset(cfg.moved(*Y.n));
            X.d = Y.d; X.v = Y.v; refresh(X); st << " v" << x << "=move(v" << y << ")";
            if (cfg.desc(*Y.n) != D_POS || trimmed(cfg.digits(*Y.n))) PBT_FAIL(cfg.name << " after" << log.str() << ";" << st.str() << ": the moved-from variable holds " << show(cfg, *Y.n));
            adopt(Y);
        } else if (kind <= 13) {
            const u64 d = genDigit(c, cfg.base); const std::size_t len = X.v.size();
            switch (kind) {
                case 6: cfg.pushFront(*X.n, d); X.v.insert(X.v.begin(), d); st << " v" << x << ".push_front(" << d << ")"; break;
                case 7: if (!len) continue; cfg.popFront(*X.n); X.v.erase(X.v.begin()); st << " v" << x << ".pop_front()"; break;
                case 8: cfg.pushBack(*X.n, d); X.v.push_back(d); st << " v" << x << ".push_back(" << d << ")"; break;
                case 9: if (!len) continue; cfg.popBack(*X.n); X.v.pop_back(); st << " v" << x << ".pop_back()"; break;
                case 10: { if (!len) continue; const std::size_t p = c.draw(len - 1); cfg.set(*X.n, p, d); X.v[p] = d; st << " v" << x << "[" << p << "]=" << d; break; }
                case 11: { const std::size_t p = c.draw(len); cfg.push(*X.n, d, p); X.v.insert(X.v.begin() + p, d); st << " v" << x << ".push(" << d << "," << p << ")"; break; }
                case 12: { if (!len) continue; const std::size_t p = c.draw(len - 1); cfg.pop(*X.n, p); X.v.erase(X.v.begin() + p); st << " v" << x << ".pop(" << p << ")"; break; }
                default: { const std::size_t p = c.draw(len + 4); cfg.resize(*X.n, p, d); X.v.resize(p, d); st << " v" << x << ".resize(" << p << "," << d << ")"; break; }
            }
            refresh(X); edited[x] = true; ++edits;
        } else if (kind == 14) { const Desc all[] = {D_POS, D_NEG, D_NAN, D_PINF, D_NINF}; const Desc d = all[c.pick({8, 8, 1, 2, 2})];
            cfg.setDesc(*X.n, d); X.d = d; if (!finite(d)) X.v.clear(); refresh(X); edited[x] = true; st << " v" << x << ".setDescriptor(" << (int)d << ")"; }
        else if (kind == 15) { cfg.clear(*X.n); X.d = D_POS; X.v.clear(); refresh(X); st << " v" << x << ".clear()"; }
        else { X.n.reset(cfg.copy(*Y.n)); const Desc d = Y.d; const Digits w = Y.v; X.d = d; X.v = w; refresh(X); st << " v" << x << "{v" << y << "}"; }
        c.mix(st.str()); if (log.tellp() < 1500) log << st.str() << ";";
        PBT_DESC(c, st.str() << ";");
        check(st.str());
    }
    c.label("mixed history");
    if (arith >= 2 && afterEdit >= 1) { c.nontrivial(); c.label("arithmetic on edited operands"); }
}
static void run(Ctx& c) {
    const Cfg& cfg = genCfg(c);
    if (c.flip(2, 5)) return mixed(c, cfg);
    const std::size_t N = 4;
    NumP v[N]; Int m[N]; bool derived[N] = {};
    std::ostringstream log;
    auto check = [&](const std::string& step) {
        for (std::size_t i = 0; i < N; ++i) {
            const Desc d = cfg.desc(*v[i]);
            bool ok = finite(d);
            if (ok) { Int x = valueOf(cfg.digits(*v[i]), cfg.base); if (d == D_NEG) x = -x; ok = x == m[i]; }
            if (!ok) PBT_FAIL(cfg.name << " after" << log.str() << " (last: " << step << "): variable v" << i << " holds " << show(cfg, *v[i]) << ", expected " << showInt(m[i], cfg.base));
        }
    };
    PBT_DESC(c, cfg.name << ":");
    Digits seedA, seedB; genMagPair(c, cfg.base, c.flip(1, 8) ? 200 : 40, seedA, seedB);
    for (std::size_t i = 0; i < N; ++i) {
        Spell s = i == 0 ? withSign(c, seedA) : i == 1 ? withSign(c, seedB) : Spell();
        v[i] = i < 2 ? make(c, cfg, s) : NumP(cfg.make()); m[i] = value(s, cfg.base); mixSpell(c, s);
        if (i < 2) PBT_DESC(c, " v" << i << "=" << show(s));
    }
    const u64 steps = c.range(3, pbt::tier ? 40 : 20);
    std::size_t arith = 0, reuse = 0, aliased = 0;
    for (u64 k = 0; k < steps; ++k) {
        const std::size_t x = c.draw(N - 1), y = c.draw(N - 1), z = c.draw(N - 1);
        std::ostringstream st;
        const std::size_t kind = c.pick({30, 26, 6, 4, 3, 3, 2, 3, 10});
        if (kind <= 1) {
            char op = "+-*/"[c.pick({4, 4, 3, 3})];
            const std::size_t l = kind == 0 ? x : y, rr = kind == 0 ? y : z;
            if (op == '*' && bitsOf(m[l]) + bitsOf(m[rr]) > 4000) op = '/';
            if (op == '/' && m[rr] == 0) op = '+';
            if (op == '/' && bitsOf(m[l]) > bitsOf(m[rr]) + 200) op = '-';
            const Int want = refOp(op, m[l], m[rr]);
            if (kind == 0) { st << " v" << x << op << "=v" << y; cfg.opAssign(*v[x], op, *v[y]); if (x == y) ++aliased; }
            else {   // the target may be one of the operands
                st << " v" << x << "=v" << y << op << "v" << z;
                NumP t(cfg.op(*v[y], op, *v[z]));
                if (c.flip(1, 2)) cfg.moveAssign(*v[x], *t); else cfg.copyAssign(*v[x], *t);
            }
            if (derived[l] || derived[rr]) ++reuse;
            m[x] = want; derived[x] = true; ++arith;
        } else if (kind == 2) {   // fresh value, built over whatever was there
            const Spell s = withSign(c, genMag(c, cfg.base, 24));
            NumP t = make(c, cfg, s); mixSpell(c, s);
            cfg.moveAssign(*v[x], *t); m[x] = value(s, cfg.base); derived[x] = false; st << " v" << x << "=" << show(s);
        } else if (kind == 3) { cfg.copyAssign(*v[x], *v[y]); m[x] = m[y]; derived[x] = derived[y]; st << " v" << x << "=v" << y; }
        else if (kind == 4) {
            if (x != y) { cfg.moveAssign(*v[x], *v[y]); m[x] = m[y]; m[y] = 0; derived[x] = derived[y]; derived[y] = true; st << " v" << x << "=move(v" << y << ")"; }
        } else if (kind == 5) {
            if (x != y) { v[x].reset(cfg.moved(*v[y])); m[x] = m[y]; m[y] = 0; derived[x] = derived[y]; derived[y] = true; st << " v" << x << "{move(v" << y << ")}"; }
        } else if (kind == 6) { cfg.clear(*v[x]); m[x] = 0; derived[x] = true; st << " v" << x << ".clear()"; }
        else if (kind == 8) {    // one expression of two operators, with temporaries
            const std::size_t w = c.draw(N - 1); const int form = (int)c.draw(Cfg::EXPR_FORMS - 1);
            char o[2]; for (char& q : o) q = "+-*/"[c.pick({4, 4, 3, 3})];
            auto fit = [&](char& op, const Int& l, const Int& r) {
                if (op == '*' && bitsOf(l) + bitsOf(r) > 4000) op = '/';
                if (op == '/' && r == 0) op = '+';
                if (op == '/' && bitsOf(l) > bitsOf(r) + 200) op = '-';
            };
            const bool right = form >= 7;
            Int want;
            if (right) { fit(o[1], m[z], m[w]); const Int i = refOp(o[1], m[z], m[w]); fit(o[0], m[y], i); want = refOp(o[0], m[y], i); }
            else { fit(o[0], m[y], m[z]); const Int i = refOp(o[0], m[y], m[z]); fit(o[1], i, m[w]); want = refOp(o[1], i, m[w]); }
            st << " v" << x << "=" << (right ? "v" : "(v") << y << o[0] << (right ? "(v" : "v") << z << (right ? "" : ")") << o[1] << "v" << w << (right ? ")" : "") << " (form " << form << ")";
            NumP t(cfg.expr(*v[y], o[0], *v[z], o[1], *v[w], form));
            cfg.moveAssign(*v[x], *t);
            m[x] = want; derived[x] = true; arith += 2; ++reuse; c.label("expression with temporaries");
        }
        else { v[x].reset(cfg.copy(*v[y])); m[x] = m[y]; derived[x] = derived[y]; st << " v" << x << "{v" << y << "}"; }
        c.mix(st.str());
        if (log.tellp() < 1500) log << st.str() << ";";
        PBT_DESC(c, st.str() << ";");
        check(st.str());
    }
    if (aliased) c.label("aliased compound operation");
    c.label(arith < 5 ? "arithmetic steps 0-4" : arith < 10 ? "arithmetic steps 5-9" : "arithmetic steps 10+");
    if (arith >= 3 && reuse >= 2) { c.nontrivial(); c.label("results reused"); }
}
static pbt::Registrar r({"C07", "programs of 3-20 steps (40 in the thorough tier) over four variables - compound and binary arithmetic with aliasing, expressions with temporaries, copies, moves, clear, fresh values - interpreted by the library and over exact integers, all variables compared after every step; two fifths of the programs also edit digits, change signs and use NaN and infinities; a case is non-trivial with at least 3 arithmetic steps of which 2 consume earlier results, or with arithmetic on an edited operand", run, 0, 0});
