// Engine: case scheduling over forked workers, crash/hang detection, shrinking,
// replay, statistics.  See engine.h.
#include "engine.h"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <new>
#include <set>
#include <unordered_set>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#if __has_include(<valgrind/valgrind.h>)
#include <valgrind/valgrind.h>
#else
#define VALGRIND_COUNT_ERRORS 0
#endif

namespace pbt {

int tier = 0;

static std::vector<Property>& props() { static std::vector<Property> p; return p; }
void add(const Property& p) { props().push_back(p); }
const Property* find(const std::string& id) {
    for (std::size_t i = 0; i < props().size(); ++i) if (id == props()[i].id) return &props()[i];
    return 0;
}

// ---------------------------------------------------------------- choices
static u64 splitmix(u64& x) {
    u64 z = (x += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
static u64 rotl(u64 x, int k) { return (x << k) | (x >> (64 - k)); }
static u64 next(u64* s) {
    const u64 r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
    s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
    return r;
}
void Ctx::seed(u64 a, u64 b, u64 c) {
    u64 x = a; u64 y = splitmix(x) ^ b; u64 z = splitmix(y) ^ c;
    for (int i = 0; i < 4; ++i) s[i] = splitmix(z);
}
u64 Ctx::draw(u64 max) {
    u64 v;
    if (mode == RANDOM) {
        const u64 r = next(s);
        v = max == ~0ull ? r : (u64)(((unsigned __int128)r * ((unsigned __int128)max + 1)) >> 64);
    } else if (mode == REPLAY) {
        v = pos < replay->size() ? (*replay)[pos] : 0;
        ++pos;
        if (v > max) v = max;
    } else {
        v = 0;
        for (u64 m = max; m; m >>= 8) { v <<= 8; if (pos < nbytes) v |= bytes[pos++]; }
        if (max != ~0ull) v %= max + 1;
    }
    if (sh) { const u64 n = sh->n; if (n < CAP) sh->vals[n] = v; sh->n = n + 1; }
    return v;
}
std::size_t Ctx::pick(std::initializer_list<unsigned> w) {
    u64 total = 0; for (unsigned x : w) total += x;
    u64 r = draw(total - 1); std::size_t i = 0;
    for (unsigned x : w) { if (r < x) return i; r -= x; ++i; }
    return 0;
}
static std::map<std::string, u64>* labels = 0;
static std::set<std::string>* caseLabels = 0;
void Ctx::label(const char* l) { if (caseLabels) { fault::Pause p; caseLabels->insert(l); } }
void Ctx::describe(const std::string& t) {
    if (!sh) { std::cerr << t; return; }
    for (std::size_t i = 0; i < t.size() && sh->descLen + 1 < sizeof sh->desc; ++i) { sh->desc[sh->descLen] = t[i]; sh->descLen = sh->descLen + 1; }
    sh->desc[sh->descLen] = 0;
}

static u64 hashStr(const char* s) { u64 h = 1469598103934665603ull; while (*s) { h ^= (unsigned char)*s++; h *= 1099511628211ull; } return h; }
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// ---------------------------------------------------------------- options
struct Options {
    std::string prop, stats, replayOut, file;
    u64 seed = 1, cases = 1000, first = 0; unsigned workers = 8, jobs = 8;   // processes in all, and at a time
    double shrinkBudget = 45, wall = 600; unsigned hangCpu = 30;
    bool crashOnly = false;
} opt;

static const int EX_FAIL = 10, EX_HANG = 11;
enum { OUT_OK, OUT_FAIL, OUT_HANG, OUT_CRASH };

static Shared* newShared() {
    void* p = mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); std::exit(3); }
    return (Shared*)p;
}

// ---------------------------------------------------------------- watchdog
static Shared* watchSh = 0; static u64 watchLast = ~0ull; static unsigned watchTicks = 0, watchLimit = 30;
static void onTick(int) {
    if (!watchSh) return;
    const u64 c = watchSh->done;
    if (c != watchLast) { watchLast = c; watchTicks = 0; return; }
    if (++watchTicks >= watchLimit) _exit(EX_HANG);
}
static void startWatch(Shared* sh, unsigned limit) {
    watchSh = sh; watchLast = sh->done; watchTicks = 0; watchLimit = limit;
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onTick; sa.sa_flags = SA_RESTART;
    sigaction(SIGPROF, &sa, 0);
    itimerval it; it.it_interval.tv_sec = 1; it.it_interval.tv_usec = 0; it.it_value = it.it_interval;
    setitimer(ITIMER_PROF, &it, 0);
}
static void limitMemory() {
#if !defined(SANITIZED)
    rlimit r; r.rlim_cur = r.rlim_max = 4ull << 30; setrlimit(RLIMIT_AS, &r);
#endif
    rlimit c; c.rlim_cur = c.rlim_max = 0; setrlimit(RLIMIT_CORE, &c);
}

static void copyMsg(Shared* sh, const std::string& m) {
    const std::size_t n = std::min(m.size(), sizeof sh->msg - 1);
    memcpy(sh->msg, m.data(), n); sh->msg[n] = 0;
}
// Runs one case; returns true when it passed.
static bool runCase(const Property& p, Ctx& c) {
    fault::window = false; fault::countdown = 0;
    const unsigned long reports = VALGRIND_COUNT_ERRORS;
    try {
        p.run(c);
        if (VALGRIND_COUNT_ERRORS == reports) return true;
        if (c.sh) copyMsg(c.sh, "memcheck reported an invalid access or the use of an uninitialised value (see log)");
        return false;
    }
    catch (const Failure& f) {
        fault::window = false; fault::countdown = 0;
        if (opt.crashOnly) { if (c.sh) c.sh->ignored = c.sh->ignored + 1; return true; }
        if (c.sh) copyMsg(c.sh, f.msg); else std::cerr << f.msg << std::endl;
    }
    catch (const std::exception& e) {
        fault::window = false; fault::countdown = 0;
        const std::string m = std::string("unexpected exception: ") + e.what();
        if (c.sh) copyMsg(c.sh, m); else std::cerr << m << std::endl;
    }
    catch (...) {
        fault::window = false; fault::countdown = 0;
        const std::string m = "unexpected exception of a type not derived from std::exception";
        if (c.sh) copyMsg(c.sh, m); else std::cerr << m << std::endl;
    }
    return false;
}
static void setCase(const Property& p, u64 idx, Ctx& c, std::vector<u64>& fixed) {
    const u64 nfixed = p.fixedCount ? p.fixedCount() : 0;
    if (idx < nfixed) { fixed.clear(); p.fixedCase(idx, fixed); c.mode = Ctx::REPLAY; c.replay = &fixed; }
    else { c.mode = Ctx::RANDOM; c.seed(opt.seed, hashStr(p.id), idx); }
}

static std::string jsonStr(const std::string& s) {
    std::string o = "\"";
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { o += '\\'; o += (char)ch; }
        else if (ch == '\n') o += "\\n";
        else if (ch < 32 || ch >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
        else o += (char)ch;
    }
    return o + "\"";
}

// ---------------------------------------------------------------- workers
static double started = 0;     // the time limit counts from here
static void workerMain(const Property& p, unsigned w, Shared* sh, const std::string& statFile) {
    limitMemory();
    labels = new std::map<std::string, u64>(); caseLabels = new std::set<std::string>();
    std::unordered_set<u64> distinct; u64 evals = 0, nontriv = 0; std::vector<u64> samples;
    startWatch(sh, opt.hangCpu);
    std::vector<u64> fixed;
    const double t0 = started; bool partial = false;
    const u64 nfixed = p.fixedCount ? p.fixedCount() : 0;
    for (u64 idx = opt.first + w; idx < opt.first + opt.cases; idx += opt.workers) {
        if (sh->stop) { partial = true; break; }
        if ((evals & 15) == 0 && now() - t0 > opt.wall) { partial = true; break; }
        sh->caseIdx = idx; sh->n = 0;
        Ctx c; c.sh = sh; setCase(p, idx, c, fixed);
        caseLabels->clear();
        if (!runCase(p, c)) _exit(EX_FAIL);
        sh->done = sh->done + 1;
        ++evals;
        for (const std::string& l : *caseLabels) ++(*labels)[l];
        if (c.nontriv) {
            ++nontriv;
            u64 h = c.hash;
            if (!h) { const u64 n = std::min<u64>((u64)sh->n, (u64)CAP); for (u64 i = 0; i < n; ++i) c.mix(sh->vals[i]); h = c.hash; }
            distinct.insert(h);
            // a few small samples, spread over the run
            if (samples.size() < 2 && idx >= nfixed + 3 * opt.workers * (samples.size() * 7 + 1) && sh->n < 200) samples.push_back(idx);
        }
    }
    std::vector<std::string> texts;
    caseLabels = 0;
    for (u64 idx : samples) {
        sh->n = 0; sh->descLen = 0; sh->desc[0] = 0; sh->caseIdx = idx;
        Ctx c; c.sh = sh; c.describing = true; setCase(p, idx, c, fixed);
        if (!runCase(p, c)) _exit(EX_FAIL);   // same case, same process: hidden state
        sh->done = sh->done + 1;
        texts.push_back(std::string(sh->desc, std::min<std::size_t>((u64)sh->descLen, 500)));
    }
    std::ofstream o(statFile.c_str(), std::ios::binary);
    o << "evals " << evals << "\nnontriv " << nontriv << "\nignored " << sh->ignored << "\npartial " << partial << "\n";
    for (auto& l : *labels) o << "label " << l.second << " " << l.first << "\n";
    for (auto& t : texts) { std::string q = t; for (char& ch : q) if (ch == '\n') ch = ' '; o << "sample " << q << "\n"; }
    o << "hashes " << distinct.size() << "\n";
    for (u64 h : distinct) o.write((const char*)&h, sizeof h);
    o.close();
    if (!o) _exit(12);
    std::cerr.flush();
    // a normal exit lets leak detection run in sanitizer builds
    std::exit(0);
}

static int classify(int st) {
    if (WIFEXITED(st)) {
        const int e = WEXITSTATUS(st);
        return e == 0 ? OUT_OK : e == EX_FAIL ? OUT_FAIL : e == EX_HANG ? OUT_HANG : OUT_CRASH;
    }
    return OUT_CRASH;
}
static std::string outcomeText(int st, const Shared* sh) {
    std::ostringstream o;
    switch (classify(st)) {
        case OUT_OK: o << "ok"; break;
        case OUT_FAIL: o << sh->msg; break;
        case OUT_HANG: o << "no termination within " << opt.hangCpu << " s of CPU time"; break;
        default:
            if (WIFSIGNALED(st)) o << "killed by signal " << WTERMSIG(st) << " (" << strsignal(WTERMSIG(st)) << ")";
            else o << "process ended with status " << WEXITSTATUS(st) << " (sanitizer report or abort, see log)";
    }
    return o.str();
}

// Waits for pid; kills it when it makes no progress for wallLimit seconds.
static int waitLimited(pid_t pid, Shared* sh, double wallLimit) {
    double last = now(); u64 seen = sh->done; int st = 0; useconds_t nap = 100;
    for (;;) {
        const pid_t r = waitpid(pid, &st, WNOHANG);
        if (r == pid) return st;
        if (r < 0 && errno != EINTR) return 0;
        if (sh->done != seen) { seen = sh->done; last = now(); }
        if (now() - last > wallLimit) { kill(pid, SIGKILL); waitpid(pid, &st, 0); return EX_HANG << 8; }
        usleep(nap); if (nap < 5000) nap += nap / 2;
    }
}

// A candidate is a list of choices (mode 0), or a single seeded case (mode 1),
// or the sequence of cases a worker ran before the failing one (mode 2).
struct Repro { int mode = 0; std::vector<u64> choices; u64 seed = 0, idx = 0, first = 0; unsigned w = 0, workers = 1; };

static int execute(const Property& p, const Repro& r, Shared* sh, bool describe, unsigned hangCpu, bool quiet) {
    sh->n = 0; sh->descLen = 0; sh->desc[0] = 0; sh->msg[0] = 0; sh->stop = 0; sh->caseIdx = r.idx;
    std::cout.flush(); std::cerr.flush();
    const pid_t pid = fork();
    if (pid < 0) { perror("fork"); std::exit(3); }
    if (pid == 0) {
        if (quiet) { int fd = open("/dev/null", O_WRONLY); if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); } }
        limitMemory();
        startWatch(sh, hangCpu);
        std::vector<u64> fixed;
        bool ok = true;
        if (r.mode == 2) {
            opt.seed = r.seed;
            for (u64 i = r.first + r.w; i <= r.idx && ok; i += r.workers) {
                sh->n = 0; sh->descLen = 0; sh->caseIdx = i;
                Ctx c; c.sh = sh; c.describing = describe && i == r.idx; setCase(p, i, c, fixed);
                ok = runCase(p, c);
                sh->done = sh->done + 1;
            }
        } else {
            Ctx c; c.sh = sh; c.describing = describe;
            if (r.mode == 1) { opt.seed = r.seed; setCase(p, r.idx, c, fixed); }
            else { c.mode = Ctx::REPLAY; c.replay = &r.choices; }
            ok = runCase(p, c);
            sh->done = sh->done + 1;
        }
        if (!ok) _exit(EX_FAIL);
        std::exit(0);
    }
    return waitLimited(pid, sh, 2.0 * hangCpu + 40);
}

static std::vector<u64> recorded(const Shared* sh) {
    return std::vector<u64>(sh->vals, sh->vals + std::min<u64>((u64)sh->n, (u64)CAP));
}

static void shrink(const Property& p, Repro& best, Shared* sh, int kind, double budget) {
    const double t0 = now();
    const unsigned hang = kind == OUT_HANG ? 4 : opt.hangCpu;
    auto over = [&]() { return now() - t0 > budget; };
    auto attempt = [&](const std::vector<u64>& c) {
        if (over()) return false;
        Repro r; r.mode = 0; r.choices = c;
        const int k = classify(execute(p, r, sh, false, hang, true));
        if (k == OUT_OK || (kind != OUT_HANG && k == OUT_HANG) || (kind == OUT_HANG && k != OUT_HANG)) return false;
        std::vector<u64> used = recorded(sh);
        // keep what was used, if it is no longer than the candidate
        if (sh->n <= CAP && used.size() <= c.size()) best.choices = used; else best.choices = c;
        return true;
    };
    bool progress = true;
    while (progress && !over()) {
        progress = false;
        // delete chunks
        for (std::size_t len = std::max<std::size_t>(1, best.choices.size() / 2); len >= 1 && !over(); len /= 2) {
            for (std::size_t i = 0; i + len <= best.choices.size() && !over();) {
                std::vector<u64> c = best.choices;
                c.erase(c.begin() + i, c.begin() + i + len);
                if (attempt(c)) progress = true; else i += len;
            }
        }
        // zero chunks
        for (std::size_t len = std::max<std::size_t>(1, best.choices.size() / 2); len >= 1 && !over(); len /= 2)
            for (std::size_t i = 0; i + len <= best.choices.size() && !over(); i += len) {
                bool any = false; std::vector<u64> c = best.choices;
                for (std::size_t j = i; j < i + len; ++j) { any = any || c[j]; c[j] = 0; }
                if (any && attempt(c)) progress = true;
            }
        // minimise single values
        for (std::size_t i = 0; i < best.choices.size() && !over(); ++i) {
            u64 lo = 0;
            while (i < best.choices.size() && best.choices[i] > lo && !over()) {
                std::vector<u64> c = best.choices;
                c[i] = lo + (c[i] - lo) / 2;
                if (c[i] == best.choices[i]) break;
                const u64 tried = c[i], before = best.choices[i];
                if (attempt(c)) { progress = true; if (i < best.choices.size() && best.choices[i] >= before) break; }
                else lo = tried + 1;
            }
        }
    }
}

static void writeRepro(const std::string& file, const Property& p, const Repro& r, const std::string& msg, const std::string& desc) {
    std::ofstream o(file.c_str());
    o << "# replay of a violation; run: check.py --replay <this file>\n";
    o << "property " << p.id << "\nmode " << r.mode << "\nseed " << r.seed << "\ncase " << r.idx << "\nfirst " << r.first
      << "\nworker " << r.w << "\nworkers " << r.workers << "\ntier " << tier << "\ncrashonly " << opt.crashOnly << "\n";
    o << "choices " << r.choices.size(); for (u64 v : r.choices) o << " " << v; o << "\n";
    std::string m = msg; for (char& ch : m) if (ch == '\n') ch = ' ';
    o << "message " << m << "\n";
    std::istringstream d(desc); std::string line; while (std::getline(d, line)) o << "# " << line << "\n";
}
static bool readRepro(const std::string& file, std::string& id, Repro& r) {
    std::ifstream in(file.c_str()); if (!in) return false;
    std::string line;
    while (std::getline(in, line)) {
        std::istringstream s(line); std::string k; s >> k;
        if (k == "property") s >> id; else if (k == "mode") s >> r.mode; else if (k == "seed") s >> r.seed;
        else if (k == "case") s >> r.idx; else if (k == "first") s >> r.first; else if (k == "worker") s >> r.w;
        else if (k == "workers") s >> r.workers; else if (k == "tier") s >> tier;
        else if (k == "crashonly") s >> opt.crashOnly;
        else if (k == "choices") { std::size_t n = 0; s >> n; r.choices.resize(n); for (auto& v : r.choices) s >> v; }
    }
    return !id.empty();
}

// Confirm (3 identical outcomes), shrink, describe, write.  Returns false when
// the failure does not reproduce.
static bool report(const Property& p, Repro& r, Shared* sh, const std::string& first) {
    auto confirm = [&](const Repro& x, unsigned hang) {
        int kind = OUT_OK;
        for (int i = 0; i < 3; ++i) { kind = classify(execute(p, x, sh, false, hang, true)); if (kind == OUT_OK) return (int)OUT_OK; if (kind == OUT_HANG) break; }   // once is enough, and takes long
        return kind;
    };
    int kind = confirm(r, opt.hangCpu);
    if (kind == OUT_OK && r.mode == 0) { r.mode = 1; kind = confirm(r, opt.hangCpu); }
    if (kind == OUT_OK) { r.mode = 2; kind = confirm(r, opt.hangCpu); }   // depends on earlier cases
    if (kind == OUT_OK) return false;
    if (r.mode == 1) {   // choices too long to record, or never recorded
        execute(p, r, sh, false, opt.hangCpu, true);
        if (sh->n <= CAP) { Repro c = r; c.mode = 0; c.choices = recorded(sh); if (confirm(c, opt.hangCpu) != OUT_OK) r = c; }
    }
    if (r.mode == 0) {
        const Repro before = r;
        shrink(p, r, sh, kind, opt.shrinkBudget);
        if (confirm(r, opt.hangCpu) == OUT_OK) r = before;
    }
    const int st = execute(p, r, sh, true, kind == OUT_HANG ? std::min(opt.hangCpu, 8u) : opt.hangCpu, false);
    std::string msg = outcomeText(st, sh);
    if (classify(st) == OUT_OK) msg = first;
    writeRepro(opt.replayOut, p, r, msg, sh->desc);
    std::cout << "FAILED " << p.id << ": " << msg << "\n" << sh->desc << std::endl;
    return true;
}

static int runMain() {
    const Property* p = find(opt.prop);
    if (!p) { std::cerr << "no property " << opt.prop << "\n"; return 3; }
    const u64 nfixed = p->fixedCount ? p->fixedCount() : 0;
    if (opt.cases < nfixed) opt.cases = nfixed;
    std::vector<Shared*> sh(opt.workers); std::vector<pid_t> pid(opt.workers); std::vector<std::string> sf(opt.workers);
    std::cout.flush(); std::cerr.flush();
    std::vector<int> st(opt.workers, 0); std::vector<u64> seen(opt.workers, 0); std::vector<double> last(opt.workers, 0);
    started = now();
    std::vector<unsigned> running; unsigned next = 0; bool bad = false;
    while (!running.empty() || (next < opt.workers && !bad)) {
        while (!bad && next < opt.workers && running.size() < opt.jobs) {
            const unsigned w = next++;
            sh[w] = newShared(); last[w] = now();
            std::ostringstream o; o << opt.stats << ".w" << w; sf[w] = o.str(); unlink(sf[w].c_str());
            pid[w] = fork();
            if (pid[w] < 0) { perror("fork"); return 3; }
            if (pid[w] == 0) { workerMain(*p, w, sh[w], sf[w]); _exit(0); }
            running.push_back(w);
        }
        for (std::size_t k = 0; k < running.size();) {
            const unsigned w = running[k];
            const pid_t r = waitpid(pid[w], &st[w], WNOHANG);
            if (sh[w]->done != seen[w]) { seen[w] = sh[w]->done; last[w] = now(); }
            if (r == 0 && now() - last[w] > 150) { kill(pid[w], SIGKILL); waitpid(pid[w], &st[w], 0); st[w] = EX_HANG << 8; }
            else if (r == 0) { ++k; continue; }
            running.erase(running.begin() + k);
            if (classify(st[w]) != OUT_OK && !bad) { bad = true; for (unsigned v : running) sh[v]->stop = 1; }
        }
        usleep(3000);
    }
    const unsigned launched = next;
    bool violated = false, unreproduced = false; std::string firstMsg;
    Shared* scratch = newShared();
    for (unsigned w = 0; w < launched && !violated; ++w) {
        if (classify(st[w]) == OUT_OK) continue;
        Repro r; r.seed = opt.seed; r.idx = sh[w]->caseIdx; r.first = opt.first; r.w = w; r.workers = opt.workers;
        r.choices = recorded(sh[w]); r.mode = sh[w]->n > CAP ? 1 : 0;
        firstMsg = outcomeText(st[w], sh[w]);
        std::cout << "worker " << w << " case " << r.idx << ": " << firstMsg << std::endl;
        if (report(*p, r, scratch, firstMsg)) violated = true; else unreproduced = true;
    }
    // statistics
    u64 evals = 0, nontriv = 0, ignored = 0, partial = 0; std::map<std::string, u64> lab; std::vector<std::string> samples; std::unordered_set<u64> hashes;
    for (unsigned w = 0; w < launched; ++w) {
        std::ifstream in(sf[w].c_str(), std::ios::binary);
        if (!in) { evals += sh[w]->done; continue; }
        std::string line;
        while (std::getline(in, line)) {
            std::istringstream s(line); std::string k; s >> k;
            u64 v = 0;
            if (k == "evals") { s >> v; evals += v; } else if (k == "nontriv") { s >> v; nontriv += v; }
            else if (k == "ignored") { s >> v; ignored += v; } else if (k == "partial") { s >> v; partial += v; }
            else if (k == "label") { s >> v; std::string l; std::getline(s, l); lab[l.size() ? l.substr(1) : l] += v; }
            else if (k == "sample") { if (line.size() > 7) samples.push_back(line.substr(7)); }
            else if (k == "hashes") { s >> v; for (u64 i = 0; i < v; ++i) { u64 h; in.read((char*)&h, sizeof h); hashes.insert(h); } break; }
        }
        in.close(); unlink(sf[w].c_str());
    }
    std::ofstream o(opt.stats.c_str());
    o << "{\"property\": " << jsonStr(p->id) << ", \"rule\": " << jsonStr(p->rule) << ", \"evaluations\": " << evals << ", \"nontrivial\": " << nontriv
      << ", \"distinct_nontrivial\": " << hashes.size() << ", \"enumerated\": " << nfixed << ", \"ignored\": " << ignored << ", \"partial\": " << partial
      << ", \"violated\": " << (violated ? "true" : "false") << ", \"unreproduced\": " << (unreproduced ? "true" : "false")
      << ", \"message\": " << jsonStr(firstMsg) << ", \"labels\": {";
    bool f = true; for (auto& l : lab) { o << (f ? "" : ", ") << jsonStr(l.first) << ": " << l.second; f = false; }
    o << "}, \"samples\": ["; f = true;
    for (std::size_t i = 0; i < samples.size() && i < 6; ++i) { o << (f ? "" : ", ") << jsonStr(samples[i]); f = false; }
    o << "]}\n";
    o.close();
    return violated ? 1 : unreproduced ? 4 : 0;
}

static int replayMain() {
    std::string id; Repro r;
    if (!readRepro(opt.file, id, r)) { std::cerr << "cannot read " << opt.file << "\n"; return 3; }
    const Property* p = find(id); if (!p) { std::cerr << "no property " << id << "\n"; return 3; }
    Shared* sh = newShared();
    const int st = execute(*p, r, sh, true, opt.hangCpu, false);
    std::cout << sh->desc << "\n" << (classify(st) == OUT_OK ? "passed" : "failed: ") << (classify(st) == OUT_OK ? "" : outcomeText(st, sh)) << std::endl;
    return classify(st) == OUT_OK ? 0 : 1;
}

// Turn a fuzzer input into a shrunk replay file.
static int bytesMain() {
    const Property* p = find(opt.prop); if (!p) return 3;
    std::ifstream in(opt.file.c_str(), std::ios::binary);
    std::vector<char> b((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
    Shared* sh = newShared(), *sh2 = newShared();
    const pid_t pid = fork();
    if (pid == 0) {
        limitMemory(); startWatch(sh, opt.hangCpu);
        Ctx c; c.sh = sh; c.mode = Ctx::BYTES; c.bytes = (const unsigned char*)b.data(); c.nbytes = b.size();
        if (!runCase(*p, c)) _exit(EX_FAIL);
        std::exit(0);
    }
    const int st = waitLimited(pid, sh, 120);
    if (classify(st) == OUT_OK) { std::cout << "input passes\n"; return 0; }
    Repro r; r.seed = opt.seed; r.choices = recorded(sh); r.mode = 0;
    std::cout << "fuzzer input: " << outcomeText(st, sh) << std::endl;
    Repro c = r;
    for (int i = 0; i < 3; ++i) if (classify(execute(*p, c, sh2, false, opt.hangCpu, true)) == OUT_OK) { std::cout << "not reproduced\n"; return 4; }
    return report(*p, r, sh2, outcomeText(st, sh)) ? 1 : 4;
}

} // namespace pbt

#ifdef FUZZ_MAIN
extern "C" int LLVMFuzzerInitialize(int*, char***) {
    const char* t = std::getenv("PBT_TIER"); if (t) pbt::tier = std::atoi(t);
    pbt::opt.crashOnly = std::getenv("PBT_CRASHONLY") != 0;
    return 0;
}
extern "C" int LLVMFuzzerTestOneInput(const unsigned char* d, std::size_t n) {
    static const pbt::Property* p = pbt::find(std::getenv("PBT_PROP") ? std::getenv("PBT_PROP") : "");
    if (!p) std::abort();
    pbt::Ctx c; c.mode = pbt::Ctx::BYTES; c.bytes = d; c.nbytes = n;
    if (!pbt::runCase(*p, c)) std::abort();
    return 0;
}
#else
int main(int argc, char** argv) {
    using namespace pbt;
    if (argc < 2) return 3;
    const std::string cmd = argv[1];
    for (int i = 2; i < argc; ++i) {
        const std::string a = argv[i]; auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--prop") opt.prop = val(); else if (a == "--seed") opt.seed = std::strtoull(val().c_str(), 0, 10);
        else if (a == "--cases") opt.cases = std::strtoull(val().c_str(), 0, 10); else if (a == "--first") opt.first = std::strtoull(val().c_str(), 0, 10);
        else if (a == "--workers") opt.workers = std::atoi(val().c_str()); else if (a == "--jobs") opt.jobs = std::atoi(val().c_str()); else if (a == "--tier") tier = std::atoi(val().c_str());
        else if (a == "--stats") opt.stats = val(); else if (a == "--replay-out") opt.replayOut = val(); else if (a == "--wall") opt.wall = std::atof(val().c_str());
        else if (a == "--shrink") opt.shrinkBudget = std::atof(val().c_str()); else if (a == "--hang") opt.hangCpu = std::atoi(val().c_str());
        else if (a == "--crash-only") opt.crashOnly = true; else opt.file = a;
    }
    if (cmd == "run") return runMain();
    if (cmd == "replay") return replayMain();
    if (cmd == "bytes") return bytesMain();
    if (cmd == "list") { for (auto& p : props()) std::cout << p.id << "\n"; return 0; }
    return 3;
}
#endif
