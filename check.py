#!/usr/bin/env python3
"""Property checks for hamsham/BigNum.

  check.py <ID>            run the check of one property (VERIF_TIER, VERIF_SEED)
  check.py --replay FILE   run one recorded violation again
  check.py --setup         compile everything once, as a smoke test

Everything is rebuilt from /repo's working tree; objects are cached under
build/ by the content of all their inputs.  Exit 0: held; 1: VIOLATION; 2: the
check itself failed.
"""
import glob, hashlib, json, os, random, re, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("BN_REPO", "/repo")
H = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, "build")
OUT = os.path.join(VERIF, "out")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
JOBS = 8
WORKERS = 8

sys.path.insert(0, os.path.join(VERIF, "tools"))
from plan import CHECKS, EXTRA_TUS            # noqa: E402
import usergen                                # noqa: E402
import constexpr_gen                          # noqa: E402
import phases                                 # noqa: E402
import programs                               # noqa: E402

SAN = "-D_GLIBCXX_DEBUG -D_GLIBCXX_SANITIZE_VECTOR=1 -fsanitize=address,undefined,float-cast-overflow,float-divide-by-zero -fno-sanitize-recover=all -fno-omit-frame-pointer -g -D_GLIBCXX_ASSERTIONS -DSANITIZED -DNO_ALLOC_HOOK"
# variant: compiler, flags for the library and its adapters, flags for property code, link flags
VARIANTS = {
    "rel":   ("g++", "-O2", "-O1", ""),
    "dbg":   ("g++", "-O1 -DBN_DEBUG -D_GLIBCXX_ASSERTIONS", "-O1 -DBN_DEBUG", ""),
    "o0":    ("g++", "-O0", "-O1", ""),
    "clang": ("clang++", "-O3", "-O1", ""),
    "san":   ("clang++", "-O1 " + SAN, "-O1 " + SAN, SAN),
    "fuzz":  ("clang++", "-O1 -fsanitize=fuzzer-no-link " + SAN, "-O1 -fsanitize=fuzzer-no-link -DFUZZ_MAIN " + SAN, "-fsanitize=fuzzer " + SAN),
    "tsan":  ("clang++", "-O1 -g -fsanitize=thread -DSANITIZED -DNO_ALLOC_HOOK", "-O1 -g -fsanitize=thread -DSANITIZED -DNO_ALLOC_HOOK", "-fsanitize=thread"),
    "vg":    ("g++", "-O1 -g", "-O1 -g -DSANITIZED -DNO_ALLOC_HOOK", ""),
}

def cpu_has(*flags):
    try:
        m = re.search(r"^flags\s*:(.*)$", open("/proc/cpuinfo").read(), re.M)
    except OSError:
        return False
    have = set(m.group(1).split()) if m else set()
    return all(f in have for f in flags)


# separately compiled copies of the library (C24): compiler, flags of everything in the copy
SO = "-w -fPIC -fvisibility=hidden -Wl,-Bsymbolic"
SHARED = {
    "so_gcc_O0_c++11": ("g++", "-std=c++11 -O0 -fno-gnu-unique"),
    "so_gcc_O3_c++20_fma": ("g++", "-std=c++20 -O3 -fno-gnu-unique -ffp-contract=fast -fno-math-errno -fno-trapping-math" + (" -march=x86-64-v3" if cpu_has("avx2", "fma", "bmi2", "movbe", "f16c") else "")),
    "so_gcc_Os_x87": ("g++", "-std=gnu++14 -Os -fno-gnu-unique -mfpmath=387 -ftrivial-auto-var-init=pattern -fwrapv -fno-strict-aliasing -fno-inline"),
    "so_gcc_Og_debug_c++23": ("g++", "-std=c++23 -Og -fno-gnu-unique -DBN_DEBUG -D_GLIBCXX_ASSERTIONS -fno-builtin"),
    "so_clang_O2_c++17_ndebug": ("clang++", "-std=c++17 -O2 -DNDEBUG -fstrict-enums"),
    "so_clang_O1_c++14_unsigned_char": ("clang++", "-std=c++14 -O1 -DBN_DEBUG -funsigned-char -ftrivial-auto-var-init=zero"),
}
for _n, (_c, _f) in SHARED.items():
    VARIANTS[_n] = (_c, _f + " " + SO, _f + " " + SO, "-shared " + SO)
LIBSTD = "-std=gnu++11 -w"
PROPSTD = "-std=c++17 -w"
# property code that includes the library's headers itself
WITH_LIB = {"p_c13", "p_c17", "p_c18", "p_c21", "p_limits"}

ENV = dict(os.environ)
ENV.update({
    "ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=0:hard_rss_limit_mb=6000:max_allocation_size_mb=4000:handle_abort=0:detect_stack_use_after_return=1:color=never",
    "UBSAN_OPTIONS": "print_stacktrace=1:color=never",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:color=never:report_signal_unsafe=0",
    "LC_ALL": "C",
})


class CheckError(Exception):
    pass


class CompileError(CheckError):
    def __init__(self, src, log):
        CheckError.__init__(self, "cannot compile %s:\n%s" % (src, log[-4000:]))
        self.src, self.log = src, log


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, **kw)


def tree_hash():
    """Content of every input a compilation can see."""
    h = hashlib.sha256()
    for root in (os.path.join(REPO, "include"), os.path.join(REPO, "src")):
        for p in sorted(glob.glob(os.path.join(root, "**", "*"), recursive=True)):
            if os.path.isfile(p):
                h.update(p.encode()); h.update(open(p, "rb").read())
    r = h.hexdigest()
    g = hashlib.sha256()
    for p in sorted(glob.glob(os.path.join(H, "*.h"))):
        g.update(p.encode()); g.update(open(p, "rb").read())
    return r, g.hexdigest()


class Builder:
    def __init__(self):
        self.repo_hash, self.hdr_hash = tree_hash()
        os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)

    def command(self, variant, src):
        cxx, lib, prop, _ = VARIANTS[variant]
        name = os.path.splitext(os.path.basename(src))[0]
        if variant in SHARED or variant.startswith("lib_"):
            flags = "%s -I%s/include -I%s" % (lib, REPO, H)
        elif src.startswith(REPO + os.sep) or name.startswith("cfg_") or name.startswith("user_") or name == "phase":
            flags = "%s %s -I%s/include -I%s" % (LIBSTD, lib, REPO, H)
        elif name in WITH_LIB:
            flags = "%s %s -I%s/include -I%s" % (PROPSTD, lib + (" -DNO_ALLOC_HOOK -DSANITIZED" if variant == "vg" else ""), REPO, H)
        else:
            flags = "%s %s -I%s" % (PROPSTD, prop, H)
        return [cxx] + [f for f in flags.split() if not f.startswith("-Wl,")] + ["-c", src]

    def needs_repo(self, cmd):
        return any(a.startswith("-I" + REPO) for a in cmd)

    def obj(self, variant, src):
        cmd = self.command(variant, src)
        h = hashlib.sha256()
        h.update(" ".join(cmd).encode()); h.update(open(src, "rb").read()); h.update(self.hdr_hash.encode())
        if self.needs_repo(cmd):
            h.update(self.repo_hash.encode())
        o = os.path.join(BUILD, "obj", "%s-%s-%s.o" % (os.path.splitext(os.path.basename(src))[0], variant, h.hexdigest()[:20]))
        if not os.path.exists(o):
            tmp = o + ".%d.%d.tmp" % (os.getpid(), threading.get_ident())
            r = sh(cmd + ["-o", tmp])
            if r.returncode != 0:
                raise CompileError(src, r.stdout.decode(errors="replace"))
            os.replace(tmp, o)
        return o

    def objs(self, pairs):
        """pairs: (variant, src); returns the objects in order, compiling in parallel."""
        with ThreadPoolExecutor(JOBS) as ex:
            futures = [ex.submit(self.obj, v, s) for v, s in pairs]
            results, err = [], None
            for f in futures:
                try:
                    results.append(f.result())
                except CheckError as e:
                    err = err or e
                    results.append(None)
            if err:
                raise err
            return results

    def sources(self, props, user_dir):
        s = sorted(glob.glob(os.path.join(REPO, "src", "*.cpp")))
        s += sorted(glob.glob(os.path.join(H, "cfg_*.cpp")))
        s += [os.path.join(H, f) for f in ("engine.cpp", "alloc.cpp", "configs.cpp")]
        tus = set()
        for p in props:
            for q in EXTRA_TUS.get(p, [p]):
                tus.add("p_" + q.lower() + ".cpp")
        s += [os.path.join(H, t) for t in sorted(tus)]
        if user_dir:
            s += sorted(glob.glob(os.path.join(user_dir, "user_*.cpp")))
        return s

    def order(self, pairs):
        # slowest first
        return sorted(pairs, key=lambda p: (0 if os.path.basename(p[1]).startswith("p_") else 1 if "engine" in p[1] else 2))

    def link(self, variant, kind, srcs):
        objs = [self.obj(variant, x) for x in srcs]
        key = hashlib.sha256(" ".join(objs).encode()).hexdigest()[:20]
        exe = os.path.join(BUILD, "%s-%s" % (kind, key))
        if not os.path.exists(exe):
            cxx, _, _, link = VARIANTS[variant]
            tmp = exe + ".%d.tmp" % os.getpid()
            r = sh([cxx] + link.split() + objs + ["-o", tmp, "-lpthread", "-ldl"])
            if r.returncode != 0:
                raise CheckError("cannot link %s:\n%s" % (exe, r.stdout.decode(errors="replace")[-4000:]))
            os.replace(tmp, exe)
        return exe

    def lib_sources(self):
        return sorted(glob.glob(os.path.join(REPO, "src", "*.cpp")))

    def shared(self):
        """The separately compiled copies of the library; their paths, joined by colons."""
        srcs = self.lib_sources() + sorted(glob.glob(os.path.join(H, "cfg_*.cpp"))) + [os.path.join(H, f) for f in ("configs.cpp", "so_main.cpp")]
        self.objs([(v, x) for v in SHARED for x in srcs])
        return ":".join(self.link(v, v, srcs) for v in SHARED)

    def library(self, cxx, std, debug, shared):
        """The library alone, as an archive or a shared object."""
        name = "lib_%s_%s%s" % (cxx, std, "_dbg" if debug else "")
        if name not in VARIANTS:
            VARIANTS[name] = (cxx, "-std=%s -O1 -w -fPIC%s" % (std, " -DBN_DEBUG" if debug else ""), "", "-shared")
        objs = [self.obj(name, x) for x in self.lib_sources()]
        key = hashlib.sha256(" ".join(objs).encode()).hexdigest()[:20]
        out = os.path.join(BUILD, "lib-%s" % key, "libbignum." + ("so" if shared else "a"))
        if not os.path.exists(out):
            os.makedirs(os.path.dirname(out), exist_ok=True)
            tmp = out + ".%d.%d.tmp" % (os.getpid(), threading.get_ident())
            r = sh(([cxx, "-shared", "-o", tmp] if shared else ["ar", "rcs", tmp]) + objs)
            if r.returncode != 0:
                raise CheckError("cannot build %s:\n%s" % (out, r.stdout.decode(errors="replace")[-4000:]))
            os.replace(tmp, out)
        return out

    def phase(self):
        """A program that computes in every phase of its life; its object comes first in the link."""
        srcs = [os.path.join(H, "phase.cpp")] + self.lib_sources()
        self.objs([("o0", x) for x in srcs])
        return self.link("o0", "phase", srcs)

    def binary(self, variant, props, user_dir=None):
        pairs = [(variant, s) for s in self.sources(props, user_dir)]
        self.objs(self.order(pairs))
        objs = [self.obj(*p) for p in pairs]
        key = hashlib.sha256(" ".join(objs).encode()).hexdigest()[:20]
        exe = os.path.join(BUILD, "run-%s-%s" % (variant, key))
        if not os.path.exists(exe):
            cxx, _, _, link = VARIANTS[variant]
            tmp = exe + ".%d.tmp" % os.getpid()
            r = sh([cxx] + link.split() + objs + ["-o", tmp, "-lpthread"])
            if r.returncode != 0:
                raise CheckError("cannot link %s:\n%s" % (exe, r.stdout.decode(errors="replace")[-4000:]))
            os.replace(tmp, exe)
        return exe


def wrap(variant, cmd):
    if variant == "vg":
        return ["valgrind", "-q", "--error-exitcode=0", "--undef-value-errors=yes", "--leak-check=no", "--num-callers=12"] + cmd
    return cmd


class Check:
    def __init__(self, cid):
        self.id = cid
        self.parts = CHECKS[cid]["parts"](THOROUGH)
        self.level = CHECKS[cid].get("level", "exploration")
        self.t0 = time.time()
        self.out = os.path.join(OUT, cid)
        os.makedirs(os.path.join(self.out, "replays"), exist_ok=True)
        self.b = Builder()
        self.results = []
        self.violation = None
        self.notes = []

    def user_dir(self):
        d = os.path.join(self.out, "user-%d-%s" % (SEED, TIER))
        usergen.generate(d, SEED, 28 if THOROUGH else 14)
        return d

    def log(self, name, data):
        with open(os.path.join(self.out, name), "wb") as f:
            f.write(data)

    # -- one part driven by the engine
    def engine_part(self, i, part):
        variant, prop = part["variant"], part["prop"]
        user = self.user_dir() if part.get("user") else None
        exe = self.b.binary(variant, [prop], user)
        if prop == "C24":
            ENV["BN_SOS"] = self.b.shared()
        tag = "%d-%s-%s" % (i, variant, prop)
        stats = os.path.join(self.out, "stats-%s.json" % tag)
        replay = os.path.join(self.out, "replays", "%s-%s-seed%d-%s.replay" % (self.id, tag, SEED, TIER))
        for f in (stats, replay):
            if os.path.exists(f):
                os.unlink(f)
        cmd = [exe, "run", "--prop", prop, "--seed", str(SEED), "--cases", str(part["cases"]), "--workers", str(part.get("processes", WORKERS)), "--jobs", str(WORKERS),
               "--tier", "1" if THOROUGH else "0", "--stats", stats, "--replay-out", replay, "--wall", str(part.get("wall", 600 if THOROUGH else 100))]
        if part.get("crash_only"):
            cmd.append("--crash-only")
        if part.get("hang"):
            cmd += ["--hang", str(part["hang"])]
        attempts = 0
        while True:
            attempts += 1
            r = sh(wrap(variant, cmd))
            self.log("log-%s.txt" % tag, r.stdout)
            # a data race or memory error that was reported once is real, however hard it is to hit again
            seen = re.search(rb"(ThreadSanitizer: data race|AddressSanitizer: |ThreadSanitizer: heap-use-after-free)", r.stdout)
            if r.returncode == 4 and attempts < 3 and not seen:
                continue
            break
        text = r.stdout.decode(errors="replace")
        if r.returncode not in (0, 1, 4) or not os.path.exists(stats):
            raise CheckError("engine failed (%s) in part %s:\n%s" % (r.returncode, tag, text[-3000:]))
        st = json.load(open(stats))
        st.update(variant=variant, requested=part["cases"], crash_only=bool(part.get("crash_only")))
        self.results.append(st)
        if r.returncode == 1:
            self.finish_replay(replay, variant, part, user)
            self.fail(replay, self.message(text) or st["message"])
        elif r.returncode == 4:
            # failed three times in a row without a reproducible minimal case
            with open(replay, "w") as f:
                f.write("# failure seen in %d runs out of %d, not reproducible as a single case\nproperty %s\nmode -1\n" % (attempts, attempts, prop))
                f.write("rerun %s\n" % " ".join(wrap(variant, cmd)))
                f.write("message %s\n" % st["message"].replace("\n", " "))
            self.finish_replay(replay, variant, part, user)
            self.fail(replay, st["message"])

    def message(self, text):
        m = re.search(r"^FAILED (.*)$", text, re.M)
        return m.group(1) if m else None

    def finish_replay(self, replay, variant, part, user):
        with open(replay, "a") as f:
            f.write("check %s\nvariant %s\nprop %s\nuserseed %s\nusercount %s\n" % (self.id, variant, part["prop"], SEED if user else "-", (28 if THOROUGH else 14) if user else "-"))

    # -- coverage-guided part
    def fuzz_part(self, i, part):
        prop = part["prop"]
        exe = self.b.binary("fuzz", [prop])
        san = self.b.binary("san", [prop])
        d = os.path.join(self.out, "fuzz-%d" % i)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        env = dict(ENV); env["PBT_PROP"] = prop; env["PBT_TIER"] = "1" if THOROUGH else "0"
        if part.get("crash_only"):
            env["PBT_CRASHONLY"] = "1"
        procs = []
        for w in range(WORKERS):
            corpus = os.path.join(d, "corpus%d" % w); os.makedirs(corpus)
            log = open(os.path.join(d, "log%d.txt" % w), "wb")
            rng = random.Random("%d/%s/%d" % (SEED, prop, w))
            for k in range(8):
                with open(os.path.join(corpus, "seed%d" % k), "wb") as f:
                    f.write(bytes(rng.randrange(256) for _ in range(rng.choice([16, 64, 256, 1024]))))
            procs.append((subprocess.Popen([exe, corpus, "-seed=%d" % (SEED * 1000 + w + 1), "-runs=%d" % part["runs"], "-max_total_time=%d" % part.get("wall", 60),
                "-max_len=4096", "-len_control=0", "-timeout=60", "-rss_limit_mb=6000", "-detect_leaks=0", "-verbosity=1", "-print_final_stats=1",
                "-artifact_prefix=%s/crash%d-" % (d, w)], stdout=log, stderr=subprocess.STDOUT, env=env), log))
        for p, log in procs:
            p.wait(); log.close()
        runs = cov = corp = 0
        for w in range(WORKERS):
            t = open(os.path.join(d, "log%d.txt" % w), "rb").read().decode(errors="replace")
            m = re.search(r"stat::number_of_executed_units:\s*(\d+)", t); runs += int(m.group(1)) if m else 0
            m = re.findall(r"cov: (\d+)", t); cov = max([cov] + [int(x) for x in m[-1:]])
            m = re.findall(r"corp: (\d+)", t); corp += int(m[-1]) if m else 0
        res = {"property": prop, "variant": "fuzz", "evaluations": runs, "distinct_nontrivial": corp, "nontrivial": corp, "labels": {"edges covered": cov}, "samples": [],
               "rule": "coverage-guided: inputs kept because they reached new code count as distinct and non-trivial", "requested": part["runs"] * WORKERS, "crash_only": bool(part.get("crash_only"))}
        self.results.append(res)
        crashes = sorted(glob.glob(os.path.join(d, "crash*-*")))
        if runs == 0 and not crashes:
            raise CheckError("fuzzer did not run, see %s" % d)
        for c in crashes:
            replay = os.path.join(self.out, "replays", "%s-fuzz-%s-seed%d.replay" % (self.id, prop, SEED))
            cmd = [san, "bytes", c, "--prop", prop, "--replay-out", replay, "--tier", "1" if THOROUGH else "0"]
            if part.get("crash_only"):
                cmd.append("--crash-only")
            r = sh(cmd); text = r.stdout.decode(errors="replace")
            if r.returncode == 1:
                self.finish_replay(replay, "san", part, None)
                self.fail(replay, self.message(text) or text[-300:])
                return
            bad = 0
            for _ in range(3):
                q = subprocess.run([exe, c, "-timeout=60", "-rss_limit_mb=6000", "-detect_leaks=0"], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                bad += q.returncode != 0
            if bad == 3:
                keep = os.path.join(self.out, "replays", os.path.basename(c)); shutil.copy(c, keep)
                with open(replay, "w") as f:
                    f.write("property %s\nmode -2\nfuzzinput %s\nmessage fuzzer input fails\n" % (prop, keep))
                self.finish_replay(replay, "fuzz", part, None)
                self.fail(replay, "fuzzer input %s fails: %s" % (keep, q.stdout.decode(errors="replace")[-600:]))
                return
            self.notes.append("fuzzer input %s did not reproduce" % c)

    # -- one computation in every phase of a program
    def phase_part(self, i, part):
        exe = self.b.phase()
        rng = random.Random("phase/%d" % SEED)
        jobs = []
        for k in range(part["cases"]):
            first = rng.sample(phases.NAMES, rng.randint(1, len(phases.NAMES)))
            jobs.append((rng.randrange(1 << 40), rng.randint(1, 8), first))
        with ThreadPoolExecutor(JOBS) as ex:
            out = list(ex.map(lambda j: phases.differs(exe, *j), jobs))
        bad = [(j, m) for j, m in zip(jobs, out) if m]
        self.results.append({"property": "C24", "variant": "phase", "evaluations": len(jobs), "distinct_nontrivial": len(set(map(str, (j for j in jobs if len(j[2]) > 1 and j[1] > 1)))),
            "nontrivial": len(jobs), "labels": {"phase " + n: sum(n in j[2] for j in jobs) for n in phases.NAMES}, "samples": ["seed %d, %d steps, computing in %s" % (s, n, ", ".join(f)) for s, n, f in jobs[:6]],
            "rule": "phase programs: the same computation before main, in main, in a thread, at thread exit, in an atexit handler and in a static destructor, compared with a run that computes in main alone; non-trivial with two phases and two steps", "requested": len(jobs)})
        if bad:
            (seed, steps, which), message = phases.shrink(exe, *bad[0][0])
            replay = os.path.join(self.out, "replays", "%s-phase-seed%d.replay" % (self.id, SEED))
            with open(replay, "w") as f:
                f.write("property C24\nmode -3\nphase %d %d %s\nmessage %s\n" % (seed, steps, ",".join(which), message.replace("\n", " ")))
            self.fail(replay, message)

    # -- generated multi-file programs
    def programs_part(self, i, part):
        base = os.path.join(self.out, "programs")
        shutil.rmtree(base, ignore_errors=True)
        todo = [programs.generate(SEED, k) for k in range(part["cases"])]
        # the library in every configuration first
        with ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(lambda a: self.b.library(*a), sorted({(p["lib_compiler"], p["lib_std"], p["lib_debug"], p["shared"]) for p in todo})))
        stop, bad = time.time() + part.get("wall", 3600 if THOROUGH else 300), []
        def one(p):
            if bad or time.time() > stop:
                return None
            d = os.path.join(base, "p%d" % p["index"])
            m = programs.run(p, d, REPO, self.b.library)
            if m:
                bad.append((p, m))
            shutil.rmtree(d, ignore_errors=True)
            return p
        with ThreadPoolExecutor(JOBS) as ex:
            ran = [p for p in ex.map(one, todo) if p]
        rich = [p for p in ran if len(p["tus"]) > 1 or sum(len(t["items"]) for t in p["tus"]) > 1]
        labels = {}
        for p in ran:
            names = ["compiler " + p["compiler"], "files %d" % len(p["tus"])] + ["user types"] * bool(p["user"]) + ["shared library"] * p["shared"] + ["BN_DEBUG"] * p["debug"] + ["library with other BN_DEBUG"] * (p["debug"] != p["lib_debug"]) + ["library of other compiler"] * (p["compiler"] != p["lib_compiler"])
            names += sorted({"dialect " + t["std"] for t in p["tus"]} | {"first header " + t["includes"][0] for t in p["tus"] if t["includes"] and not t["includes"][0].startswith("<")})
            for n in names:
                labels[n] = labels.get(n, 0) + 1
        self.results.append({"property": "C25", "variant": "programs", "evaluations": len(ran), "distinct_nontrivial": len({programs.describe(p) for p in rich}), "nontrivial": len(rich), "labels": labels,
            "samples": [programs.describe(p)[:700] for p in ran[2 * len(programs.HEADERS):][:8]], "partial": int(len(ran) < len(todo)),
            "rule": "generated programs of 1-5 files (every header alone as the first include of the first ones), compiled, linked against the library and run; non-trivial with more than one file or computation", "requested": len(todo)})
        if bad:
            p, m = min(bad, key=lambda x: x[0]["index"])
            p, m2 = programs.shrink(p, os.path.join(base, "shrink"), REPO, self.b.library)
            if m2 is None:
                raise CheckError("program %d failed once (%s) and passes now" % (p["index"], m))
            replay = os.path.join(self.out, "replays", "%s-program-seed%d.replay" % (self.id, SEED))
            programs.save(p, replay, m2)
            self.fail(replay, m2)
        shutil.rmtree(base, ignore_errors=True)

    # -- generated constant-expression programs
    def constexpr_part(self, i, part):
        r = constexpr_gen.run(os.path.join(self.out, "constexpr"), REPO, SEED, part["cases"], sh)
        self.results.append(r["stats"])
        if r.get("error"):
            raise CheckError(r["error"])
        if r.get("violation"):
            replay = os.path.join(self.out, "replays", "%s-constexpr-seed%d.cpp" % (self.id, SEED))
            shutil.copy(r["violation"], replay)
            self.fail(replay, r["message"])

    def fail(self, replay, message):
        if self.violation is None:
            self.violation = (replay, message)

    def run(self):
        try:
            for i, part in enumerate(self.parts):
                kind = part.get("kind", "engine")
                try:
                    {"engine": self.engine_part, "fuzz": self.fuzz_part, "constexpr": self.constexpr_part, "phase": self.phase_part, "programs": self.programs_part}[kind](i, part)
                except CompileError as e:
                    # a generated user-defined type that does not compile, while the shipped ones do
                    if os.path.basename(e.src).startswith("user_") and part.get("user"):
                        self.b.binary("rel", ["C01"])
                        replay = os.path.join(self.out, "replays", "%s-%s" % (self.id, os.path.basename(e.src)))
                        shutil.copy(e.src, replay)
                        self.results.append({"property": part["prop"], "variant": part["variant"], "evaluations": 1, "distinct_nontrivial": 1, "nontrivial": 1, "labels": {}, "samples": [open(e.src).read()], "rule": "compilation of a generated type", "requested": 1})
                        self.fail(replay, "user-defined type does not compile: " + (re.search(r"error:.*", e.log) or re.match(r"", "")).group(0))
                    else:
                        raise
                if self.violation:
                    break
        finally:
            self.evidence()
        if self.violation:
            print("VIOLATION property=%s replay=%s" % (self.id, self.violation[0]))
            print("  " + self.violation[1][:1500].replace("\n", "\n  "))
            return 1
        ev = sum(r["evaluations"] for r in self.results)
        print("OK property=%s tier=%s seed=%d: %d cases in %d part(s), %.1f s" % (self.id, TIER, SEED, ev, len(self.results), time.time() - self.t0))
        return 0

    def evidence(self):
        parts = []
        samples = []
        rules = []
        for r in self.results:
            parts.append({k: r.get(k) for k in ("property", "variant", "evaluations", "distinct_nontrivial", "requested", "enumerated", "ignored", "partial", "crash_only", "labels") if r.get(k) is not None})
            for s in r.get("samples", [])[:6]:
                samples.append("[%s/%s] %s" % (r["variant"], r["property"], s))
            if r.get("rule") and r["rule"] not in rules:
                rules.append(r["rule"])
        cov = {
            "evaluations": sum(r["evaluations"] for r in self.results),
            "distinct_nontrivial": sum(r["distinct_nontrivial"] for r in self.results),
            "rule": " | ".join(rules) or "no part finished",
            "samples": samples or ["none: the run stopped early"],
            "parts": parts,
            "hash_of_repo_sources": self.b.repo_hash,
        }
        if self.notes:
            cov["notes"] = self.notes
        if self.violation:
            cov["violation"] = {"replay": self.violation[0], "message": self.violation[1][:2000]}
        ev = {"property": self.id, "tier": "thorough" if THOROUGH else "quick", "seed": SEED, "level": self.level, "coverage": cov,
              "assumptions": CHECKS[self.id].get("assumptions", ["the reference model (exact integers) and the compilers are right", "behaviour outside the generated sizes follows the same code paths"]),
              "wall_s": round(time.time() - self.t0, 2), "violations": 1 if self.violation else 0}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", self.id + ".json.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
            f.write("\n")
        os.replace(tmp, os.path.join(VERIF, "evidence", self.id + ".json"))


def replay(path):
    text = open(path, errors="replace").read()
    if path.endswith(".cpp"):
        ok = True
        for cxx in ("g++", "clang++"):
            r = sh([cxx, "-std=c++14", "-w", "-fsyntax-only", "-I" + os.path.join(REPO, "include"), "-I" + H, path])
            print("%s: %s" % (cxx, "compiles" if r.returncode == 0 else r.stdout.decode(errors="replace")[-1500:]))
            ok = ok and r.returncode == 0
        return 0 if ok else 1
    f = dict(re.findall(r"^(check|variant|prop|userseed|usercount|mode|rerun|fuzzinput) (.*)$", text, re.M))
    b = Builder()
    m = re.search(r"^program (\{.*)$", text, re.M)
    if m:
        d = os.path.join(OUT, "replay-program")
        message = programs.run(json.loads(m.group(1)), d, REPO, b.library)
        print(message or "compiles, links and prints what it should")
        return 1 if message else 0
    m = re.search(r"^phase (\d+) (\d+) (.*)$", text, re.M)
    if m:
        message = phases.differs(b.phase(), int(m.group(1)), int(m.group(2)), m.group(3).split(","))
        print(message or "no difference")
        return 1 if message else 0
    user = None
    if f.get("userseed", "-") != "-":
        user = os.path.join(OUT, "replay-user")
        usergen.generate(user, int(f["userseed"]), int(f["usercount"]))
    exe = b.binary(f["variant"], [f["prop"]], user)
    if f["prop"] == "C24":
        ENV["BN_SOS"] = b.shared()
    if f.get("mode") == "-1":
        cmd = f["rerun"].split()
        r = subprocess.run([exe if c.startswith(os.path.join(BUILD, "run-")) else c for c in cmd], env=ENV)
        return 1 if r.returncode else 0
    if f.get("mode") == "-2":
        env = dict(ENV); env["PBT_PROP"] = f["prop"]
        return 1 if subprocess.run([exe, f["fuzzinput"], "-detect_leaks=0"], env=env).returncode else 0
    return subprocess.run(wrap(f["variant"], [exe, "replay", path]), env=ENV).returncode


def setup():
    b = Builder()
    props = [c for c in CHECKS if c not in ("C22", "C25")]
    exe = b.binary("rel", props)
    r = sh([exe, "list"])
    if r.returncode or len(r.stdout.split()) != len(props):
        raise CheckError("smoke test failed")
    print("setup: ok (%d properties)" % len(props))
    return 0


def main():
    if len(sys.argv) < 2:
        print(__doc__); return 2
    try:
        if sys.argv[1] == "--setup":
            return setup()
        if sys.argv[1] == "--replay":
            return replay(sys.argv[2])
        if sys.argv[1] not in CHECKS:
            print("unknown property " + sys.argv[1]); return 2
        return Check(sys.argv[1]).run()
    except CheckError as e:
        print("ERROR: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
