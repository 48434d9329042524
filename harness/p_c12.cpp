#include "giant.h"
namespace {
struct Model { Desc d; Digits v; };
void compare(const Cfg& cfg, const Num& n, const Model& m, const std::string& log) {
    if (cfg.desc(n) != m.d || cfg.digits(n) != m.v || cfg.size(n) != m.v.size())
        PBT_FAIL(cfg.name << ":" << log << ": number is " << show(cfg, n) << ", the sequence model " << show(m.d, m.v));
}
// direct reads, which the container view could hide
void reads(Ctx& c, const Cfg& cfg, Num& n, const Model& m, const std::string& log) {
    if (m.v.empty()) return;
    const std::size_t all = m.v.size() <= 12 ? m.v.size() : 6;
    for (std::size_t k = 0; k < all; ++k) {
        const std::size_t i = m.v.size() <= 12 ? k : c.draw(m.v.size() - 1);
        if (cfg.get(n, i) != m.v[i]) PBT_FAIL(cfg.name << ":" << log << ": const operator[](" << i << ") of " << show(m.d, m.v) << " is " << cfg.get(n, i));
        if (cfg.getMut(n, i) != m.v[i]) PBT_FAIL(cfg.name << ":" << log << ": operator[](" << i << ") of " << show(m.d, m.v) << " is " << cfg.getMut(n, i));
    }
}
}
static void run(Ctx& c) {
    const Cfg& cfg = genCfg(c);
    std::ostringstream log;
    Model m; NumP n;
    // construction from a descriptor and a most-significant-first list
    {
        const std::size_t len = c.draw(16), zeros = c.flip(1, 2) ? c.draw(len) : 0;
        std::vector<u64> list(len); for (std::size_t i = 0; i < len; ++i) list[i] = i < zeros ? 0 : genDigit(c, cfg.base);
        const Desc d = c.draw(1) ? D_NEG : D_POS;
        const std::size_t how = c.pick({6, 1, 2});
        if (how == 1) { n.reset(cfg.make()); m = Model{D_POS, {}}; log << " default"; }
        else if (how == 2 && c.flip(1, 2)) { const Desc e[] = {D_NAN, D_PINF, D_NINF}; const Desc x = e[c.draw(2)]; n.reset(cfg.fromList(x, 0, 0)); m = Model{x, {}}; log << " " << show(x, {}); }
        else {
            n.reset(cfg.fromList(d, list.data(), len));
            std::size_t first = 0; while (first < len && !list[first]) ++first;
            m = Model{d, Digits(list.rbegin(), list.rend() - first)};
            log << " list(" << (d == D_NEG ? "-" : "+"); for (u64 x : list) log << " " << x; log << ")";
            c.label(first == len ? "all-zero list" : first ? "list with leading zeroes" : "list without leading zeroes");
        }
    }
    compare(cfg, *n, m, log.str()); reads(c, cfg, *n, m, log.str());
    if (finite(m.d) && isGiant(c, 20000)) {     // positions beyond 16 bits
        const std::size_t t = giantLen(c); const u64 x = genDigit(c, cfg.base);
        cfg.resize(*n, t, x); m.v.resize(t, x); log << "; resize " << t << " with " << x;
        compare(cfg, *n, m, log.str()); reads(c, cfg, *n, m, log.str());
    }
    const u64 steps = c.range(2, pbt::tier ? 60 : 25); std::size_t edits = 0, kinds = 0; unsigned seen = 0;
    // a reference to a digit and one to all digits, kept until an edit invalidates them
    void* kept = nullptr; std::size_t keptAt = 0; const void* data = cfg.dataRef(*n);
    for (u64 k = 0; k < steps; ++k) {
        const u64 x = genDigit(c, cfg.base); std::ostringstream st;
        const std::size_t len = m.v.size();
        const std::size_t kind = c.pick({5, 4, 5, 4, 6, 5, 4, 5, 2, 3, 3, 4, 6});
        if (kind != 7 && kind < 11) kept = nullptr;
        switch (kind) {
            case 0: cfg.pushFront(*n, x); m.v.insert(m.v.begin(), x); st << " push_front " << x; break;
            case 1: if (!len) continue; cfg.popFront(*n); m.v.erase(m.v.begin()); st << " pop_front"; break;
            case 2: cfg.pushBack(*n, x); m.v.push_back(x); st << " push_back " << x; break;
            case 3: if (!len) continue; cfg.popBack(*n); m.v.pop_back(); st << " pop_back"; break;
            case 4: { const std::size_t p = c.draw(len); cfg.push(*n, x, p); m.v.insert(m.v.begin() + p, x); st << " push " << x << "@" << p; break; }
            case 5: { if (!len) continue; const std::size_t p = c.draw(len - 1); cfg.pop(*n, p); m.v.erase(m.v.begin() + p); st << " pop @" << p; break; }
            case 6: {
                const std::size_t t = c.flip(1, 8) ? c.draw(300) : c.draw(len + 6);
                if (c.flip(1, 3)) { cfg.resize1(*n, t); m.v.resize(t, 0); st << " resize " << t; }
                else { cfg.resize(*n, t, x); m.v.resize(t, x); st << " resize " << t << " with " << x; }
                break; }
            case 7: { if (!len) continue; const std::size_t p = c.draw(len - 1); cfg.set(*n, p, x); m.v[p] = x; st << " [" << p << "]=" << x; break; }
            case 8: cfg.clear(*n); m = Model{D_POS, {}}; st << " clear"; break;
            case 9: {
                const Desc all[] = {D_POS, D_NEG, D_NAN, D_PINF, D_NINF}; const Desc d = all[c.pick({8, 8, 1, 1, 1})];
                cfg.setDesc(*n, d); m.d = d; if (!finite(d)) m.v.clear(); st << " setDescriptor " << (int)d; break; }
            case 11: {  // an edit with one of the number's own digits as its argument
                if (!len) continue; kept = nullptr;
                const std::size_t src = c.draw(len - 1), w = c.draw(4); const u64 y = m.v[src];
                switch (w) {
                    case 0: cfg.editOwn(*n, 0, src, 0); m.v.insert(m.v.begin(), y); st << " push_front [" << src << "]"; break;
                    case 1: cfg.editOwn(*n, 1, src, 0); m.v.push_back(y); st << " push_back [" << src << "]"; break;
                    case 2: { const std::size_t p = c.draw(len); cfg.editOwn(*n, 2, src, p); m.v.insert(m.v.begin() + p, y); st << " push [" << src << "]@" << p; break; }
                    case 3: { const std::size_t t = c.draw(len + 6); cfg.editOwn(*n, 3, src, t); m.v.resize(t, y); st << " resize " << t << " with [" << src << "]"; break; }
                    default: { const std::size_t p = c.draw(len - 1); cfg.editOwn(*n, 4, src, p); m.v[p] = y; st << " [" << p << "]=[" << src << "]"; break; }
                }
                break; }
            case 12: {  // a reference obtained earlier still is that digit
                if (!len) continue;
                if (!kept) { keptAt = c.draw(len - 1); kept = cfg.ref(*n, keptAt); st << " r=&[" << keptAt << "]"; c.label("kept reference"); break; }
                if (cfg.readRef(kept) != m.v[keptAt]) PBT_FAIL(cfg.name << ":" << log.str() << ": the reference to digit " << keptAt << " of " << show(m.d, m.v) << " reads " << cfg.readRef(kept));
                cfg.writeRef(kept, x); m.v[keptAt] = x; st << " *r=" << x; break; }
            default: {   // a copy or a move carries the same sequence on
                if (c.draw(1)) { n.reset(cfg.copy(*n)); st << " copied"; } else { NumP t(cfg.moved(*n)); n = std::move(t); st << " moved"; }
                data = cfg.dataRef(*n); break; }
        }
        ++edits; if (!(seen >> kind & 1)) { seen |= 1u << kind; ++kinds; }
        c.mix(st.str()); if (log.tellp() < 1500) log << ";" << st.str();
        compare(cfg, *n, m, log.str()); reads(c, cfg, *n, m, log.str());
        if (cfg.readData(data) != m.v) PBT_FAIL(cfg.name << ":" << log.str() << ": the reference from getData reads " << show(m.d, cfg.readData(data)) << ", the sequence model is " << show(m.d, m.v));
        // digits of a number that is not finite are not meaningful: leave that state
        if (!finite(m.d) && !m.v.empty()) { cfg.clear(*n); m = Model{D_POS, {}}; compare(cfg, *n, m, log.str()); }
    }
    PBT_DESC(c, cfg.name << ":" << log.str());
    if (kinds >= 3) c.nontrivial();
    c.label(edits < 5 ? "edits 0-4" : edits < 15 ? "edits 5-14" : "edits 15+");
}
static pbt::Registrar r({"C12", "a constructed number edited by 2-25 steps (60 in the thorough tier) of push/pop/resize/operator[]/clear/setDescriptor, with the number's own digits as arguments and through references kept from earlier steps, digits, size and sign compared with a plain sequence after every step; a case is non-trivial when at least three different kinds of edits occur", run, 0, 0});
