// Reentrancy: threads over shared constant operands against sequential runs,
// and repetition against hidden state.
#include "ops.h"
#include <thread>
#include <atomic>
namespace {
struct Step { int kind; char op; std::size_t x, y; unsigned misc; std::vector<u64> args; };
// takes the messages of failed assertions; has no state that threads could race for
struct Null : std::streambuf { int overflow(int ch) override { return ch == traits_type::eof() ? 0 : ch; } std::streamsize xsputn(const char*, std::streamsize n) override { return n; } };
struct Quiet {
    Null n; std::streambuf *o, *e;
    Quiet() : o(std::cout.rdbuf(&n)), e(std::cerr.rdbuf(&n)) {}
    ~Quiet() { std::cout.rdbuf(o); std::cerr.rdbuf(e); }
};
std::string text(const Cfg& cfg, const Num& n) { std::string s(1, (char)('0' + (int)cfg.desc(n))); for (u64 d : cfg.digits(n)) { s += ' '; s += std::to_string(d); } return s; }
std::string text(const Digits& d) { std::string s; for (u64 x : d) { s += ' '; s += std::to_string(x); } return s; }
// one operation on constant operands; the result as text
std::string perform(const Cfg& cfg, const std::vector<NumP>& v, const std::vector<Digits>& dv, const Step& s) {
    const Num& a = *v[s.x]; const Num& b = *v[s.y];
    switch (s.kind) {
        case 0: { NumP r(cfg.op(a, s.op, b)); return text(cfg, *r); }
        case 1: { NumP t(cfg.copy(a)); cfg.opAssign(*t, s.op, b); return text(cfg, *t); }
        case 2: { std::string r; for (int k = C_EQ; k <= C_GE; ++k) r += cfg.cmp(a, (Cmp)k, b) ? '1' : '0'; return r; }
        case 3: { std::ostringstream o; cfg.print(o, a); return o.str(); }
        case 4: { Digits p = dv[s.x], q = dv[s.y]; return text(s.op == '+' ? cfg.mulNaive(p, q) : cfg.mulStrassen(p, q)); }
        case 5: { std::string r; for (std::size_t i = 0; i < cfg.size(a); ++i) { r += std::to_string(cfg.get(a, i)); r += ' '; } r += cfg.isNan(a) ? 'n' : '-'; r += cfg.isNegative(a) ? 'm' : '-'; r += cfg.isInfinite(a) ? 'i' : '-'; return r; }
        case 6: { NumP t(cfg.copy(a)), u(cfg.make()); cfg.copyAssign(*u, b); cfg.moveAssign(*t, *u); return text(cfg, *t); }
        case 7: { // private edits
            NumP t(cfg.copy(a)); cfg.pushFront(*t, 1); cfg.pushBack(*t, 1); cfg.popFront(*t); cfg.resize(*t, cfg.size(*t) + 3, 1); return text(cfg, *t); }
        case 8: return cfg.misc(s.misc, s.args);
        case 9: { // raw magnitude routines
            Digits p = dv[s.x], q = dv[s.y]; std::string r;
            for (int k = C_EQ; k <= C_GE; ++k) if (k != C_NE) r += cfg.absCmp((Cmp)k, p, q) ? '1' : '0';
            if (cfg.absCmp(C_LT, p, q)) p.swap(q);
            if (p.size() < q.size()) p.resize(q.size(), 0);
            cfg.absOp(s.op == '-' ? '-' : '+', p, q); return r + text(p) + "/" + text(q);
        }
        case 10: try { return std::to_string(cfg.get(a, cfg.size(a) + s.y)); } catch (const LibError& e) { return "error " + std::to_string(e.code); }
        default: { std::vector<u64> m(dv[s.x].rbegin(), dv[s.x].rend()); if (m.size() > 16) m.resize(16); NumP t(cfg.fromList(D_NEG, m.data(), m.size())); return text(cfg, *t); }
    }
}
}
static void run(Ctx& c) {
    const Cfg& cfg = genCfg(c);
    std::vector<NumP> v; std::vector<Digits> dv; std::vector<Spell> sp;
    const std::size_t n = c.range(2, 5);
    Digits a, b;
    for (std::size_t i = 0; i < n; ++i) {
        if (i % 2 == 0) genMagPair(c, cfg.base, c.flip(1, 4) ? (c.flip(1, 12) ? 700 : 120) : 16, a, b);
        Spell s = withSign(c, i % 2 ? b : a);
        if (c.flip(1, 20)) { s.d = (Desc)c.range(D_NAN, D_NINF); s.v.clear(); }
        sp.push_back(s); mixSpell(c, s); dv.push_back(s.v); v.push_back(make(cfg, s));
    }
    std::vector<Step> steps; const std::size_t k = c.range(1, 8);
    for (std::size_t i = 0; i < k; ++i) {
        Step s; s.misc = 0; s.kind = (int)c.pick({10, 6, 3, 3, 4, 2, 2, 2, 4, 3, 1, 2}); s.op = "+-*/"[c.draw(3)]; s.x = c.draw(n - 1); s.y = c.draw(n - 1);
        if (s.kind <= 1 && s.op == '/') {
            const Int va = valueOf(dv[s.x], cfg.base), vb = valueOf(dv[s.y], cfg.base);
            if (vb != 0 && bitsOf(va) > bitsOf(vb) + 60) s.op = '*';
        }
        if (s.kind == 8) { s.misc = genMisc(c, s.args, true); c.label(miscName(s.misc)); }
        steps.push_back(s); c.mix(s.kind * 16 + s.x * 4 + s.y); c.mix(s.op);
    }
    const std::size_t threads = c.range(2, 4);
    if (c.describing) {
        std::ostringstream o; o << cfg.name << ": operands"; for (auto& s : sp) o << " " << show(s);
        o << "; " << threads << " threads run"; for (auto& s : steps) o << " (" << s.kind << s.op << " v" << s.x << " v" << s.y << ")";
        c.describe(o.str());
    }
    std::size_t compute = 0; for (auto& s : steps) if (s.kind <= 4 || s.kind == 8 || s.kind == 9) ++compute;
    if (compute >= 1 && threads >= 2) c.nontrivial();
    c.label("threads " + std::to_string(threads));
    const Quiet quiet;
    // concurrent, before anything else: caches and lazily built tables are cold in
    // the first cases of a process
    std::atomic<bool> go(false); std::vector<std::string> errors(threads); std::vector<std::thread> ts;
    std::vector<std::vector<std::string>> got(threads, std::vector<std::string>(steps.size()));
    for (std::size_t t = 0; t < threads; ++t)
        ts.emplace_back([&, t]() {
            while (!go.load(std::memory_order_acquire)) std::this_thread::yield();
            try {
                for (int round = 0; round < 2; ++round)
                    for (std::size_t i = 0; i < steps.size(); ++i) {
                        const std::size_t j = (i + t * 3) % steps.size();
                        const std::string r = perform(cfg, v, dv, steps[j]);
                        if (round == 0) got[t][j] = r;
                        else if (r != got[t][j]) { errors[t] = "step " + std::to_string(j) + " gave " + r + ", and " + got[t][j] + " before"; return; }
                    }
            } catch (const pbt::Failure& f) { errors[t] = f.msg; } catch (...) { errors[t] = "exception"; }
        });
    go.store(true, std::memory_order_release);
    for (auto& t : ts) t.join();
    for (std::size_t t = 0; t < threads; ++t) if (!errors[t].empty()) PBT_FAIL(cfg.name << ": thread " << t << ": " << errors[t]);
    // sequential reference, on private copies of the operands
    std::vector<std::string> want;
    { std::vector<NumP> w; for (auto& s : sp) w.push_back(make(cfg, s)); for (auto& s : steps) want.push_back(perform(cfg, w, dv, s)); }
    // repetition in another order, on other equal operands
    { std::vector<NumP> w; for (auto& s : sp) w.push_back(NumP(cfg.build(s.d, s.v)));
      for (std::size_t i = steps.size(); i--;) { const std::string r = perform(cfg, w, dv, steps[i]); if (r != want[i]) PBT_FAIL(cfg.name << ": repeating step " << i << " (" << steps[i].kind << steps[i].op << ") on equal operands gave " << r << " instead of " << want[i]); } }
    for (std::size_t t = 0; t < threads; ++t) for (std::size_t i = 0; i < steps.size(); ++i)
        if (got[t][i] != want[i]) PBT_FAIL(cfg.name << ": thread " << t << ", step " << i << " (" << steps[i].kind << steps[i].op << ") gave " << got[t][i] << ", the sequential run " << want[i]);
    for (std::size_t i = 0; i < n; ++i) if (cfg.desc(*v[i]) != sp[i].d || cfg.digits(*v[i]) != sp[i].v) PBT_FAIL(cfg.name << ": shared operand v" << i << " changed to " << show(cfg, *v[i]));
}
static pbt::Registrar r({"C23", "2 to 4 threads run the same generated list of operations, rotated, over shared constant operands; results are compared with a sequential run on equal operands and with a repetition in reverse order; a case is non-trivial when at least one step computes", run, 0, 0});
