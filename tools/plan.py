"""What each check runs.  A part is one engine run of a property in a build
variant, a coverage-guided run, or a generated program."""


def eng(variant, prop, cases, **kw):
    d = {"kind": "engine", "variant": variant, "prop": prop, "cases": cases}
    d.update(kw)
    return d


def fuzz(prop, runs, **kw):
    d = {"kind": "fuzz", "prop": prop, "runs": runs, "variant": "fuzz"}
    d.update(kw)
    return d


def simple(cid, quick, thorough, deep=True):
    def parts(t):
        if not t:
            return [eng("rel", cid, quick)]
        p = [eng("rel", cid, thorough), eng("clang", cid, thorough // 4), eng("o0", cid, thorough // 40), eng("dbg", cid, thorough // 20)]
        if deep:
            p += [eng("san", cid, thorough // 100), fuzz(cid, 10 ** 9, wall=300)]
        return p
    return {"parts": parts}


M = 10 ** 6
CHECKS = {
    "C01": simple("C01", 3 * M, 30 * M),
    "C02": simple("C02", 3 * M, 30 * M),
    "C03": simple("C03", M, 8 * M),
    "C04": simple("C04", 5 * M // 2, 20 * M),
    "C05": simple("C05", 4 * M, 40 * M),
    "C06": simple("C06", 2 * M, 12 * M),
    "C07": simple("C07", 3 * M, 12 * M),
    "C08": simple("C08", M // 10, M),
    "C09": simple("C09", 5 * M, 30 * M),
    "C10": simple("C10", 4 * M, 60 * M),
    "C11": simple("C11", 6 * M, 30 * M),
    "C12": simple("C12", 6 * M, 80 * M),
    "C13": simple("C13", 2 * M, 20 * M),
    "C14": simple("C14", 4 * M, 40 * M),
    "C15": {"level": "fault_enumeration", "parts": lambda t: [eng("rel", "C15", 4 * M if t else 500000)] + ([eng("clang", "C15", M)] if t else [])},
    "C16": {"parts": lambda t: [
        eng("rel", "C16", 20 * M if t else 800000),
        eng("san", "C16", 2 * M if t else 30000),
        eng("vg", "C16", 40000 if t else 600, hang=120),
    ] + [eng("san", p, (n * 20 if t else n), crash_only=True) for p, n in
         [("C04", 6000), ("C03", 4000), ("C12", 8000), ("C17", 4000), ("C18", 4000), ("C20", 2000), ("C21", 3000)]]
      + [fuzz("C16", 10 ** 9 if t else 6000, wall=900 if t else 60)]
      + ([fuzz("C03", 10 ** 9, wall=200, crash_only=True), fuzz("C04", 10 ** 9, wall=200, crash_only=True)] if t else [])},
    "C17": {"parts": lambda t: [eng("rel", "C17", 100 * M if t else 4 * M), {"kind": "constexpr", "cases": 40000 if t else 3000, "variant": "constexpr", "prop": "C17"}]
            + ([eng("clang", "C17", 50 * M), eng("o0", "C17", 5 * M), eng("san", "C17", 2 * M)] if t else [eng("san", "C17", 20000)])},
    "C18": simple("C18", 5 * M, 60 * M),
    "C19": {"parts": lambda t: [eng("rel", "C19", 20 * M if t else M), eng("dbg", "C19", 10 * M if t else M // 2)]
            + ([eng("clang", "C19", 5 * M), eng("san", "C19", 400000), fuzz("C19", 10 ** 9, wall=300)] if t else [])},
    "C20": simple("C20", 500000, 6 * M),
    "C21": simple("C21", 400000, 4 * M),
    "C22": {"parts": lambda t: [eng("rel", "C22", 12 * M if t else 1200000, user=True)] + ([eng("san", "C22", 300000, user=True), eng("clang", "C22", 2 * M, user=True)] if t else [])},
    "C23": {"parts": lambda t: [eng("tsan", "C23", 400000 if t else 15000, processes=800 if t else 160), eng("rel", "C23", 2 * M if t else 150000)]},
    "C24": {"parts": lambda t: [eng("rel", "C24", 3 * M if t else 500000), {"kind": "phase", "cases": 6000 if t else 300, "variant": "phase", "prop": "C24"}]},
    "C26": {"parts": lambda t: [eng("rel", "C26", 12 * M if t else 1200000), eng("dbg", "C26", 2 * M if t else 100000)] + ([eng("clang", "C26", 4 * M), eng("san", "C26", 100000)] if t else [])},
    "C27": {"parts": lambda t: [eng("rel", "C27", 60000 if t else 3000, hang=60)] + ([eng("clang", "C27", 20000, hang=60)] if t else [])},
    "C25": {"parts": lambda t: [{"kind": "programs", "cases": 2000 if t else 160, "variant": "programs", "prop": "C25"}], "assumptions": ["the compilers are right", "what a generated program prints is computed by Python integers"]},
}
# translation units a property needs besides its own
EXTRA_TUS = {"C22": ["C22", "limits", "C01", "C02", "C03", "C04", "C05", "C06", "C10", "C12", "C19", "C20"]}
