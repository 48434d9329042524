#include "bignum/bn_except.h"
#include "giant.h"
#include <iostream>
namespace {
struct Capture {
    std::ostringstream out, err; std::streambuf *o, *e;
    Capture() : o(std::cout.rdbuf(out.rdbuf())), e(std::cerr.rdbuf(err.rdbuf())) {}
    ~Capture() { std::cout.rdbuf(o); std::cerr.rdbuf(e); }
    std::string text() const { return out.str() + err.str(); }
};
std::size_t occurrences(const std::string& hay, const std::string& needle) {
    std::size_t n = 0; for (std::size_t p = 0; (p = hay.find(needle, p)) != std::string::npos; p += needle.size()) ++n; return n;
}
void access(Ctx& c) {
    const Cfg& cfg = genCfg(c);
    const Spell s = c.flip(1, 10) ? Spell(D_POS, Digits(c.draw(3), 0)) : withSign(c, isGiant(c, 10000) ? genDigits(c, cfg.base, giantLen(c)) : genMag(c, cfg.base, 300));
    NumP n = make(c, cfg, s);
    const std::size_t len = cfg.size(*n);
    std::size_t i;
    switch (c.pick({4, 3, 3, 3, 2})) {
        case 0: i = len ? c.draw(len - 1) : 0; break;
        case 1: i = len; break;
        case 2: i = len + 1 + c.draw(16); break;
        case 3: i = len ? len - 1 : 0; break;
        default: { const std::size_t far[] = {~(std::size_t)0, ~(std::size_t)0 - len, (std::size_t)1 << 63, (std::size_t)1 << 32, ((std::size_t)1 << 32) + (len ? c.draw(len - 1) : 0), ((std::size_t)1 << 16) + (len ? c.draw(len - 1) : 0), ((std::size_t)1 << 31) + (len ? c.draw(len - 1) : 0), ((std::size_t)1 << 8) + (len ? c.draw(len - 1) : 0)}; i = far[c.draw(7)]; break; }
    }
    const std::size_t how = c.draw(2); const u64 x = genDigit(c, cfg.base);
    const char* names[] = {"const read", "read", "write"};
    PBT_DESC(c, cfg.name << ": " << names[how] << " at index " << i << " of " << show(s)); mixSpell(c, s); c.mix(i); c.mix(how);
    const bool valid = i < len; c.label(valid ? "index in range" : i == len ? "index == size" : "index beyond"); c.label(names[how]);
    if (!valid || i + 1 == len) c.nontrivial();
    Digits want = s.v; bool thrown = false; int code = -1; u64 got = 0; std::string text;
    {
        Capture cap;
        try {
            if (how == 0) got = cfg.get(*n, i); else if (how == 1) got = cfg.getMut(*n, i); else { cfg.set(*n, i, x); }
        } catch (const LibError& e) { thrown = true; code = e.code; }
        text = cap.text();
    }
    if (valid && how == 2) want[i] = x;
    const std::string what = cfg.name + ": " + names[how] + " at index " + std::to_string(i) + " of " + show(s);
    if (thrown == valid) PBT_FAIL(what << (valid ? " was rejected" : " was not rejected"));
    if (thrown && code != (int)BN_ERROR) PBT_FAIL(what << " threw the error value " << code);
    if (valid && !text.empty()) PBT_FAIL(what << " printed: " << text);
    if (!valid && text.empty()) PBT_FAIL(what << " was rejected without a message");
    if (valid && how < 2 && got != s.v[i]) PBT_FAIL(what << " returned " << got);
    if (cfg.desc(*n) != s.d || cfg.digits(*n) != want) PBT_FAIL(what << " left " << show(cfg, *n));
}
int evaluated;
bool count(bool v) { ++evaluated; return v; }
void assertion(Ctx& c) {
    const bn_error_t levels[] = {BN_ALERT, BN_WARNING, BN_ERROR}; const char* names[] = {"ALERT", "WARNING", "ERROR"};
    const std::size_t lv = c.draw(2); const bool holds = c.draw(1); const std::size_t form = c.draw(3);
    std::string msg;     // no capital letters: never contains a level label
    if (!c.flip(1, 12)) {
        msg = "m";
        const u64 odd = c.draw(3);
        for (u64 k = c.draw(c.flip(1, 10) ? 400 : 30); k--;) msg += odd ? "abcdefghij 0123456789.,:%s%d\\"[c.draw(28)] : "\n\t\r\a\x1b\x7f\x80\xc3\xa9\xff'\"<&{}"[c.draw(15)];
        if (c.flip(1, 20)) { const std::string part = msg; for (u64 k = 1 + c.draw(300); k--;) msg += part; }
        msg += "~";
    }
    // a stream that can take nothing: the message is lost, the outcome is not
    const u64 broken = c.flip(1, 12) ? 1 + c.draw(2) : 0;
    PBT_DESC(c, "assertion form " << form << " level " << names[lv] << (holds ? " holds" : " fails") << ", message \"" << msg << "\"");
    c.mix(msg); c.mix(lv); c.mix(holds); c.mix(form); c.mix(broken);
    bool thrown = false; std::string text; evaluated = 0; int code = -1; std::size_t level = lv;
    {
        Capture cap;
        const std::ios::iostate so = std::cout.rdstate(), se = std::cerr.rdstate();
        if (broken) for (std::ostream* o : {&std::cout, &std::cerr}) o->setstate(broken == 1 ? std::ios::failbit : broken == 2 ? std::ios::badbit : std::ios::eofbit);
        try {
            switch (form) {
                case 0: bn_runtime_assert(holds, levels[lv], msg.c_str()); evaluated = 1; break;
                case 1: BN_ASSERT(count(holds)); level = 2; break;
                case 2: BN_WARN(count(holds)); level = 1; break;
                default: BN_ALERT(count(holds)); level = 0; break;
            }
        } catch (bn_error_t e) { thrown = true; code = (int)e; if (form == 0) evaluated = 1; }
        std::cout.clear(so); std::cerr.clear(se);
        text = cap.text();
    }
    if (form == 1) level = 2; else if (form == 2) level = 1; else if (form == 3) level = 0;
    if (form) msg = "count(holds)";
    const std::string what = std::string("assertion of level ") + names[level] + (holds ? " that holds" : " that fails");
    c.label(what); if (!holds) c.nontrivial();
    if (evaluated != 1) PBT_FAIL(what << " evaluated its condition " << evaluated << " times");
    if (holds && (thrown || !text.empty())) PBT_FAIL(what << (thrown ? " threw" : " printed: ") << text);
    if (!holds) {
        if (thrown != (level == 2)) PBT_FAIL(what << (thrown ? " threw" : " did not throw"));
        if (thrown && code != (int)BN_ERROR) PBT_FAIL(what << " threw the error value " << code);
        if (broken) { c.label("stream that takes nothing"); return; }
        if (msg.empty()) c.label("empty message");
        else if (occurrences(text, msg) != 1) PBT_FAIL(what << " printed its message " << occurrences(text, msg) << " times: " << text);
        for (std::size_t i = 0; i < 3; ++i)
            if (occurrences(text, names[i]) != (i == level ? 1u : 0u)) PBT_FAIL(what << " printed the label " << names[i] << " " << occurrences(text, names[i]) << " times: " << text);
        if (!msg.empty() && text.find(names[level]) > text.find(msg)) PBT_FAIL(what << " printed its label after its message: " << text);
    }
}
void exceptions(Ctx& c) {
    c.label("exception classes");
    const BNNaN a; const BNUnderflow b; const std::exception* e[] = {&a, &b};
    PBT_DESC(c, "exception classes");
    for (const std::exception* x : e) if (!x->what() || !*x->what()) PBT_FAIL("exception class without a description");
}
}
static void run(Ctx& c) { switch (c.pick({20, 20, 1})) { case 0: return access(c); case 1: return assertion(c); default: return exceptions(c); } }
static pbt::Registrar r({"C13", "reads and writes at generated indices (inside, at, just beyond and far beyond the size) and runtime assertions of every level, outcome and form, with output captured; a case is non-trivial when the index is the last one or out of range, or the assertion fails", run, 0, 0});
