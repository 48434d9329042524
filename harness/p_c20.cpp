#include "giant.h"
static void check(const Cfg& cfg, const char* fn, const Digits& a, const Digits& b, const Int& want, bool strassen) {
    Digits x = a, y = b;
    const Digits r = strassen ? cfg.mulStrassen(x, y) : cfg.mulNaive(x, y);
    auto head = [&]() { std::ostringstream o; o << cfg.name << ": " << fn << " of " << show(D_POS, a) << " and " << show(D_POS, b); return o.str(); };
    if (x != a || y != b) PBT_FAIL(head() << " modified its inputs");
    for (u64 d : r) if (d >= cfg.base) PBT_FAIL(head() << " returned a digit outside the base: " << show(D_POS, r));
    if (valueOf(r, cfg.base) != want) PBT_FAIL(head() << " gave " << show(D_POS, r) << ", expected " << showInt(want, cfg.base));
}
static void both(const Cfg& cfg, const Digits& a, const Digits& b) {
    const Int want = valueOf(a, cfg.base) * valueOf(b, cfg.base);
    check(cfg, "mul_naive", a, b, want, false); check(cfg, "mul_strassen", a, b, want, true);
    check(cfg, "mul_naive", b, a, want, false); check(cfg, "mul_strassen", b, a, want, true);
}
static void run(Ctx& c) {
    const Cfg* rc; Int ra;
    if (isRow(c, rc, ra)) {
        if (ra < 0) return;
        c.nontrivial(); PBT_DESC(c, rc->name << ": products of " << ra << " with every small-scope value, both algorithms");
        for (const Int& b : smallSet(rc->base)) if (b >= 0) both(*rc, digitsOf(ra, rc->base), digitsOf(b, rc->base));
        return;
    }
    const Cfg& cfg = genCfg(c);
    Digits a, b;
    if (isGiant(c, 10000)) {
        giantFactors(c, cfg.base, a, b);
        if (c.flip(1, 4)) (c.flip(1, 2) ? a : b).push_back(0);
        std::ostringstream o; o << show(D_POS, a) << " * " << show(D_POS, b) << " (" << a.size() << " and " << b.size() << " digits)";
        PBT_DESC(c, cfg.name << ": " << o.str()); c.mix(o.str());
        for (int strassen = std::min(a.size(), b.size()) > 1000 ? 1 : 0; strassen < 2; ++strassen) {
            Digits x = a, y = b; const Digits r = strassen ? cfg.mulStrassen(x, y) : cfg.mulNaive(x, y);
            const char* fn = strassen ? "mul_strassen" : "mul_naive";
            if (x != a || y != b) PBT_FAIL(cfg.name << ": " << fn << " of " << o.str() << " modified its inputs");
            for (u64 d : r) if (d >= cfg.base) PBT_FAIL(cfg.name << ": " << fn << " of " << o.str() << " returned a digit outside the base");
            if (trimmed(r) > a.size() + b.size() || !modProduct(a, b, r, cfg.base)) PBT_FAIL(cfg.name << ": " << fn << " of " << o.str() << " gave " << show(D_POS, r) << ", which is not the product");
        }
        return;
    }
    switch (c.pick({8, 6, 3, 2, 1, 1})) {
        case 0: genMagPair(c, cfg.base, 48, a, b); break;
        case 1: genMagPair(c, cfg.base, 400, a, b); break;
        case 2: a = genDigits(c, cfg.base, c.range(1, 520)); b = genDigits(c, cfg.base, c.range(1, 40)); c.label("unbalanced"); break;
        case 3: { // total length around a power of two (transform size, precision limit)
            const std::size_t n = ((std::size_t)1 << c.range(3, 9)) + c.draw(4) - 2; const std::size_t k = c.draw(n);
            a = genDigits(c, cfg.base, k); b = genDigits(c, cfg.base, n - k); c.label("total length near a power of two"); break; }
        default: { const std::size_t n = c.range(1, pbt::tier || c.flip(1, 10) ? 4000 : 1500);
            a = genDigits(c, cfg.base, n); b = genDigits(c, cfg.base, c.range(1, n)); c.label("long operands"); break; }
        case 5: { std::size_t n, m; genLenPair(c, 1100, n, m); a = genDigits(c, cfg.base, n); b = genDigits(c, cfg.base, m); c.label("swept lengths"); break; }
    }
    if (c.flip(1, 6)) { a.insert(a.end(), c.range(1, 6), 0); c.label("leading zeros"); }
    if (c.flip(1, 8)) b.insert(b.end(), c.range(1, 6), 0);
    PBT_DESC(c, cfg.name << ": " << show(D_POS, a) << " * " << show(D_POS, b) << " by both algorithms");
    mixSpell(c, Spell(D_POS, a)); mixSpell(c, Spell(D_POS, b));
    if (trimmed(a) >= 2 && trimmed(b) >= 2) c.nontrivial();
    if (!trimmed(a) || !trimmed(b)) c.label("zero factor");
    const std::size_t n = a.size() + b.size();
    c.label(n <= 16 ? "total digits 0-16" : n <= 64 ? "total digits 17-64" : n <= 256 ? "total digits 65-256" : n <= 1024 ? "total digits 257-1024" : "total digits 1025+");
    both(cfg, a, b);
}
static pbt::Registrar r({"C20", "pairs of raw digit sequences (leading zeros included) multiplied by mul_naive and mul_strassen in both operand orders, digit ranges and values compared with the exact product; a case is non-trivial when both factors have at least two significant digits, or for an enumerated row", run, rowCount, rowCase});
