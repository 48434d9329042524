// Property-based testing engine: every case is a sequence of integer choices
// ("internal" choice sequence).  The same property code is driven by
//   RANDOM - a PRNG seeded from (seed, property, case index),
//   REPLAY - a recorded or shrunk choice sequence,
//   BYTES  - the input of a coverage-guided fuzzer.
// C++11, so that it can be included next to the library's own headers.
#ifndef PBT_ENGINE_H
#define PBT_ENGINE_H
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <sstream>
#include <initializer_list>

namespace pbt {

typedef std::uint64_t u64;

struct Failure {
    std::string msg;
    explicit Failure(const std::string& m) : msg(m) {}
};

static const std::size_t CAP = 1u << 17;   // recorded choices per case

struct Shared {                 // one per worker, in shared memory
    volatile u64 caseIdx;
    volatile u64 n;             // number of recorded choices
    volatile u64 stop;          // set by the parent: finish early
    volatile u64 done;          // cases completed
    volatile u64 ignored;       // oracle failures ignored (--crash-only)
    volatile u64 descLen;
    char msg[8192];
    char desc[16384];
    u64 vals[CAP];
};

class Ctx {
public:
    enum Mode { RANDOM, REPLAY, BYTES };
    // --- choices -------------------------------------------------------
    u64 draw(u64 maxInclusive);                       // 0 is the simplest
    u64 range(u64 lo, u64 hi) { return lo + draw(hi - lo); }
    bool flip(unsigned num, unsigned den) {           // true w.p. num/den
        return draw(den - 1) >= den - num;
    }
    std::size_t pick(std::initializer_list<unsigned> weights);
    // --- classification --------------------------------------------------
    void label(const char* l);
    void label(const std::string& l) { label(l.c_str()); }
    void nontrivial() { nontriv = true; }
    void mix(u64 v) {                                 // decoded input hash
        hash ^= v + 0x9e3779b97f4a7c15ull + (hash << 6) + (hash >> 2);
        hash *= 0xff51afd7ed558ccdull; hash ^= hash >> 32;
    }
    void mix(const std::string& s) { for (std::size_t i = 0; i < s.size(); ++i) mix((unsigned char)s[i]); }
    // --- description -----------------------------------------------------
    bool describing;
    void describe(const std::string& s);
    // --- internals -------------------------------------------------------
    Mode mode;
    u64 s[4];
    const std::vector<u64>* replay;
    std::size_t pos;
    const unsigned char* bytes; std::size_t nbytes;
    Shared* sh;
    bool nontriv;
    u64 hash;
    Ctx() : describing(false), mode(RANDOM), replay(0), pos(0), bytes(0), nbytes(0), sh(0), nontriv(false), hash(0) {}
    void seed(u64 a, u64 b, u64 c);
};

struct Property {
    const char* id;
    const char* rule;                        // what makes a case non-trivial
    void (*run)(Ctx&);
    std::size_t (*fixedCount)();             // enumerated prefix (may be null)
    void (*fixedCase)(std::size_t, std::vector<u64>&);
};

void add(const Property&);
const Property* find(const std::string& id);
struct Registrar { explicit Registrar(const Property& p) { add(p); } };

// tier: 0 quick, 1 thorough (generators may enlarge sizes)
extern int tier;

#define PBT_FAIL(streamed) do { std::ostringstream o_; o_ << streamed; throw pbt::Failure(o_.str()); } while (0)
#define PBT_CHECK(cond, streamed) do { if (!(cond)) PBT_FAIL(streamed); } while (0)
#define PBT_DESC(ctx, streamed) do { if ((ctx).describing) { std::ostringstream d_; d_ << streamed; (ctx).describe(d_.str()); } } while (0)

} // namespace pbt

// Allocation accounting / fault injection (alloc.cpp)
namespace fault {
extern bool window;             // inside a library call of interest
extern long countdown;          // >0: the countdown-th allocation fails
extern long seen;               // allocations seen in windows since reset
extern bool fired;
extern long live;               // live allocations, process wide
extern bool measure;            // count bytes too (single-threaded cases only)
extern long bytes, peak;        // live bytes relative to the last reset, their maximum
struct Window { Window() { window = true; } ~Window() { window = false; } };
struct Pause { bool w; Pause() : w(window) { window = false; } ~Pause() { window = w; } };
}
#endif
