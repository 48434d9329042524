// User-defined bases and containers (generated translation units) under the
// same properties as the shipped types.
#include "ops.h"
std::string limitsProblem();             // of the library's own types: p_limits.cpp
static void limits(Ctx& c) {
    c.label("limits"); PBT_DESC(c, "reported limits of " << configs().size() << " types and the library's own digits");
    auto check = [](const Cfg& cfg) {
        PBT_CHECK(cfg.minDigit() == 0 && cfg.limitsMin() == 0, cfg.name << ": smallest digit is reported as " << cfg.minDigit() << "/" << cfg.limitsMin());
        PBT_CHECK(cfg.maxDigit() == cfg.base - 1 && cfg.limitsMax() == cfg.base - 1, cfg.name << ": largest digit is reported as " << cfg.maxDigit() << "/" << cfg.limitsMax() << " in base " << cfg.base);
    };
    for (const Cfg* k : configs()) check(*k);
    { useUserConfigs(false); for (const Cfg* k : configs()) check(*k); useUserConfigs(true); }
    const std::string p = limitsProblem();
    PBT_CHECK(p.empty(), p);
    c.nontrivial();
}
static void run(Ctx& c) {
    struct Guard { Guard() { useUserConfigs(true); } ~Guard() { useUserConfigs(false); } } g;
    if (configs().empty()) PBT_FAIL("no user-defined configurations were generated");
    static const char* subs[] = {"C01", "C02", "C03", "C04", "C05", "C06", "C10", "C12", "C19", "C20"};
    const std::size_t k = c.pick({4, 4, 4, 4, 3, 4, 1, 2, 3, 2, 1});
    c.mix(k);
    if (k == 10) { limits(c); return; }
    c.label(std::string("as ") + subs[k]); PBT_DESC(c, "as " << subs[k] << ": ");
    pbt::find(subs[k])->run(c);
}
static std::size_t rows() { return 1; }
static void row(std::size_t, std::vector<u64>& v) { v.assign(1, 31); }
static pbt::Registrar r({"C22", "cases of the arithmetic, comparison, canonical-form, editing, raw-routine and multiplication properties on generated user-defined types (bases chosen by the seed over 8- to 64-bit digits, several container types); a case is non-trivial by the rule of the property it belongs to", run, rows, row});
