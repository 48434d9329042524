#include "giant.h"
#include <iomanip>
namespace {
std::string text(const Spell& s) {
    if (s.d == D_NAN) return "NaN";
    if (s.d == D_PINF) return "+INF";
    if (s.d == D_NINF) return "-INF";
    std::string o = s.d == D_NEG ? "-" : "";
    if (s.v.empty()) return o + "0";
    for (std::size_t i = s.v.size(); i--;) o += std::to_string(s.v[i]);
    return o;
}
// the text as any formatted output of the stream pads it: as a whole, and only once
std::string padded(const std::string& t, std::size_t w, bool left, char fill) {
    if (t.size() >= w) return t;
    return left ? t + std::string(w - t.size(), fill) : std::string(w - t.size(), fill) + t;
}
std::size_t genWidth(Ctx& c, std::size_t len) {
    switch (c.pick({3, 1, 1})) { case 0: return 1 + c.draw(24); case 1: return len ? len - 1 + c.draw(3) : 1; default: return 1 + c.draw(500); }
}
struct State { std::ios::fmtflags f; char fill; std::streamsize p; std::ios::iostate r; std::ios::iostate e; };
State state(const std::ostream& o) { return State{o.flags(), o.fill(), o.precision(), o.rdstate(), o.exceptions()}; }
bool same(const State& a, const State& b) { return a.f == b.f && a.fill == b.fill && a.p == b.p && a.r == b.r && a.e == b.e; }
void setBase(std::ostream& o, u64 nb) {
    switch (nb) {
        case 1: o << std::hex; break;
        case 2: o << std::oct << std::showbase; break;
        case 3: o << std::hex << std::showbase << std::uppercase << std::showpos; break;
        case 4: o << std::showpoint << std::internal << std::unitbuf; o.unsetf(std::ios::basefield); break;
        case 5: o << std::showpos << std::showbase << std::uppercase; break;      // mean nothing for unsigned decimals
        default: break;
    }
}
// takes so many characters, then fails in one of three ways
struct Limited : std::streambuf {
    std::string got; std::size_t room; int how;
    Limited(std::size_t n, int h) : room(n), how(h) {}
    int_type overflow(int_type ch) override {
        if (got.size() < room) { got += traits_type::to_char_type(ch); return ch; }
        if (how == 1) throw 1;
        return traits_type::eof();
    }
    std::streamsize xsputn(const char* s, std::streamsize n) override {
        std::streamsize k = 0;
        while (k < n && overflow(traits_type::to_int_type(s[k])) != traits_type::eof()) ++k;
        return k;
    }
};
void failing(Ctx& c, const Cfg& cfg) {
    const Spell s = withSign(c, genMag(c, cfg.base, 60)); mixSpell(c, s);
    const std::size_t width = c.flip(1, 4) ? genWidth(c, text(s).size()) : 0; const bool left = c.draw(1);
    const std::string want = padded(text(s), width, left, '_');
    const std::size_t room = c.draw(want.size() + 2); const int how = (int)c.draw(2); const u64 mask = c.draw(2);
    c.mix(room); c.mix(how); c.mix(mask);
    c.label("stream that fails"); if (room > 0 && room < want.size()) c.nontrivial();
    PBT_DESC(c, cfg.name << ": printing " << show(s) << " to a buffer with room for " << room << " characters" << (width ? ", padded" : "") << (how == 1 ? ", that throws" : "") << ", exception mask " << mask);
    NumP n = make(c, cfg, s); const Desc d = cfg.desc(*n); const Digits v = cfg.digits(*n);
    Limited b(room, how); std::ostream o(&b); o.fill('_'); o.width((std::streamsize)width); if (left) o << std::left;
    if (how == 2) o.setstate(std::ios::failbit);     // failed before
    if (mask && how != 2) o.exceptions(mask == 1 ? std::ios::badbit : std::ios::failbit | std::ios::badbit);
    bool threw = false;
    try { cfg.print(o, *n); } catch (const std::ios_base::failure&) { threw = true; } catch (int) { threw = true; }
    const bool fits = room >= want.size() && how != 2;
    if (cfg.desc(*n) != d || cfg.digits(*n) != v) PBT_FAIL(cfg.name << ": printing to a failing stream changed " << show(s) << " to " << show(cfg, *n));
    if (fits ? b.got != want : how == 2 ? !b.got.empty() : want.compare(0, b.got.size(), b.got) != 0) PBT_FAIL(cfg.name << ": a failing stream received \"" << b.got << "\" of \"" << want << "\"");
    if (o.good() != fits) PBT_FAIL(cfg.name << ": printing " << want << " to a stream with room for " << room << " characters left it " << (o.good() ? "good" : "failed"));
    if (threw != (!fits && mask && how != 2)) PBT_FAIL(cfg.name << ": printing " << want << " to a stream with room for " << room << " characters and exception mask " << mask << (threw ? " threw" : " did not throw"));
}
}
static void run(Ctx& c) {
    const std::vector<Cfg*>& all = allConfigs();
    const Cfg& cfg = userConfigs().empty() ? genCfg(c) : *all[c.draw(all.size() - 1)];
    if (c.flip(1, 8)) { failing(c, cfg); return; }
    std::ostringstream o; std::string want;
    // formatting state that has no bearing on unsigned decimal digits
    const u64 st = c.draw(7);
    // other numeric bases: the digits' text is not judged, the stream's state is
    const u64 nb = c.flip(1, 6) ? 1 + c.draw(4) : c.flip(1, 4) ? 5 : 0;
    const bool judged = nb == 0 || nb == 5;
    if (st & 1) o << std::boolalpha;
    if (st & 2) o << std::scientific << std::setprecision(3);
    if (st & 4) o << std::left << std::setfill('*');
    setBase(o, nb);
    const State before = state(o);
    const u64 count = 1 + c.pick({4, 1, 1}); bool any = false;
    PBT_DESC(c, cfg.name << ": printing");
    for (u64 k = 0; k < count; ++k) {
        Spell s;
        switch (c.pick({16, 2, 2, 1})) {
            case 0: s = withSign(c, isGiant(c, 15000) ? genDigits(c, cfg.base, giantLen(c)) : genMag(c, cfg.base, 400)); break;
            case 1: { const Desc d[] = {D_NAN, D_PINF, D_NINF}; s.d = d[c.draw(2)]; break; }
            case 2: { s = withSign(c, genMag(c, cfg.base, 20)); s.v.insert(s.v.end(), 1 + c.draw(5), 0); if (trimmed(s.v) == 0) s.d = D_POS; break; }   // padded
            default: break;                                                                                  // zero
        }
        mixSpell(c, s); PBT_DESC(c, " " << show(s));
        c.label(!finite(s.d) ? "non-finite" : s.v.empty() ? "digitless" : s.d == D_NEG ? "negative" : "positive");
        NumP n = make(c, cfg, s);
        const Desc d = cfg.desc(*n); const Digits v = cfg.digits(*n);
        if (k) { o << ' '; want += ' '; }
        const std::size_t width = c.flip(1, 6) ? genWidth(c, v.size()) : 0;
        if (width) { o << std::setw((int)width); c.label("padded to a width"); c.mix(width); PBT_DESC(c, " in width " << width); }
        cfg.print(o, *n);
        want += padded(text(Spell(d, v)), width, (st & 4) != 0 && nb != 4, st & 4 ? '*' : ' ');
        if (width && o.width()) PBT_FAIL(cfg.name << ": printing in width " << width << " left the stream with width " << o.width());
        if (d != s.d || v != s.v) PBT_FAIL(cfg.name << ": " << show(s) << " was built as " << show(cfg, *n));
        if (cfg.desc(*n) != d || cfg.digits(*n) != v) PBT_FAIL(cfg.name << ": printing changed " << show(s) << " to " << show(cfg, *n));
        if (s.v.size() >= 2 || !finite(s.d)) any = true;
    }
    if (any) c.nontrivial();
    if (nb) c.label("unusual numeric flags");
    if (judged && o.str() != want) PBT_FAIL(cfg.name << ": printed \"" << o.str() << "\", expected \"" << want << "\"");
    if (!same(before, state(o))) PBT_FAIL(cfg.name << ": printing changed the formatting state of the stream");
    // the stream still formats other things the same way
    std::ostringstream p;
    if (st & 1) p << std::boolalpha;
    if (st & 2) p << std::scientific << std::setprecision(3);
    if (st & 4) p << std::left << std::setfill('*');
    setBase(p, nb);
    o.str(""); o << std::setw(6) << 42 << true << 1.5; p << std::setw(6) << 42 << true << 1.5;
    if (o.str() != p.str()) PBT_FAIL(cfg.name << ": after printing, the stream formats differently: " << o.str() << " instead of " << p.str());
}
static pbt::Registrar r({"C14", "1-3 numbers, or one into a stream buffer that fails at some character (finite, padded, digitless, NaN, infinite) of every digit width printed to a stream with varied formatting state and compared with the expected text; a case is non-trivial when a printed number has at least two digits or is not finite", run, 0, 0});
