"""C17 in constant expressions: generated programs of static_asserts, one
operation each, compiled by two compilers against independently computed
results."""
import os, random, re, shutil

OPS = ["+", "-", "*", "/", "%", "&", "|", "^", ">>", "<<"]
CMPS = ["==", "!=", ">", ">=", "<", "<="]
TAGS = {8: [255, 2, 77], 16: [65535, 8, 2], 32: [4294967295, 10, 16, 8], 64: [10, 16, 0]}


def value(rng, bits):
    m = (1 << bits) - 1
    k = rng.randrange(6)
    if k == 0: return rng.randrange(m + 1)
    if k == 1: return rng.randrange(min(m, 300) + 1)
    if k == 2: return m - rng.randrange(min(m, 300) + 1)
    if k == 3: return ((1 << rng.randrange(bits)) + rng.randrange(-2, 3)) & m
    if k == 4: return m
    return 0


def ref(op, a, b, bits):
    m = (1 << bits) - 1
    return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a // b, "%": lambda: a % b, "&": lambda: a & b, "|": lambda: a | b,
            "^": lambda: a ^ b, ">>": lambda: a >> b, "<<": lambda: a << b}[op]() & m


def one(rng):
    bits = rng.choice([8, 16, 32, 64]); tag = rng.choice(TAGS[bits])
    T = "BN_UINT%d" % bits; N = "BNIntType<%s,%dull>" % (T, tag)
    a, b = value(rng, bits), value(rng, bits)
    A, B = "%s(%dull)" % (T, a), "%s(%dull)" % (T, b)
    form = rng.randrange(3)
    k = rng.randrange(12)
    if k < 7:
        op = rng.choice(OPS)
        if op in ("/", "%") and b == 0: b = 1 + rng.randrange(9)
        if op in (">>", "<<"): b = rng.randrange(bits)
        B = "%s(%dull)" % (T, b)
        l = N + "{" + A + "}" if form != 2 else A
        r = N + "{" + B + "}" if form != 1 else B
        return "static_assert(%s((%s %s %s)) == %s(%dull), \"\");" % (T, l, op, r, T, ref(op, a, b, bits)), (bits, tag, op, form, a, b)
    if k < 10:
        op = rng.choice(CMPS)
        if rng.randrange(3) == 0: b = a; B = A
        l = N + "{" + A + "}" if form != 2 else A
        r = N + "{" + B + "}" if form != 1 else B
        want = {"==": a == b, "!=": a != b, ">": a > b, ">=": a >= b, "<": a < b, "<=": a <= b}[op]
        return "static_assert((%s %s %s) == %s, \"\");" % (l, op, r, "true" if want else "false"), (bits, tag, op, form, a, b)
    op = rng.choice(["+", "-", "~", "!", "()", "copy"])
    m = (1 << bits) - 1
    want = {"+": a, "-": -a & m, "~": ~a & m, "!": int(a == 0), "()": a, "copy": a}[op]
    e = {"()": "%s{%s}" % (N, A), "copy": "%s(%s(%s))" % (N, N, A)}.get(op, "(%s(%s{%s}))" % (op, N, A))
    return "static_assert(%s(%s) == %s(%dull), \"\");" % (T, e, T, want), (bits, tag, op, -1, a, 0)


HEAD = "// generated: constant expressions of the digit integer type\n#include \"bignum/bignum.h\"\n"


def run(directory, repo, seed, count, sh):
    shutil.rmtree(directory, ignore_errors=True)
    os.makedirs(directory)
    rng = random.Random("constexpr/%d" % seed)
    cases = [one(rng) for _ in range(count)]
    distinct = {c[1] for c in cases}
    stats = {"property": "C17", "variant": "constexpr", "evaluations": count, "distinct_nontrivial": len([d for d in distinct if d[4] > 1 or d[5] > 1]), "nontrivial": 0,
             "labels": {}, "samples": [c[0] for c in cases[:4]], "requested": count,
             "rule": "generated static_assert programs compiled by g++ and clang++: one operation on constants per assertion, expected value computed independently; non-trivial when an operand exceeds 1, distinct by width, tag, operation, form and operands"}
    for c in cases:
        k = "width %d" % c[1][0]; stats["labels"][k] = stats["labels"].get(k, 0) + 1
    full = os.path.join(directory, "all.cpp"); control = os.path.join(directory, "control.cpp")
    open(full, "w").write(HEAD + "\n".join(c[0] for c in cases) + "\n")
    open(control, "w").write(HEAD)
    for cxx in ("g++", "clang++"):
        base = [cxx, "-std=c++14", "-w", "-fsyntax-only", "-I" + os.path.join(repo, "include")]
        r = sh(base + [control])
        if r.returncode:
            return {"stats": stats, "error": "%s cannot compile the library's headers:\n%s" % (cxx, r.stdout.decode(errors="replace")[-2000:])}
        r = sh(base + [full])
        if r.returncode == 0:
            continue
        text = r.stdout.decode(errors="replace")
        lines = [int(m.group(1)) for m in re.finditer(re.escape(full) + r":(\d+):\d+: error", text)]
        n0 = HEAD.count("\n")
        single = os.path.join(directory, "violation.cpp")
        for ln in sorted(set(lines)) or list(range(n0 + 1, n0 + 1 + count)):
            if not n0 < ln <= n0 + count: continue
            open(single, "w").write(HEAD + cases[ln - n0 - 1][0] + "\n")
            q = sh(base + [single])
            if q.returncode:
                return {"stats": stats, "violation": single, "message": "%s rejects the constant expression %s : %s" % (cxx, cases[ln - n0 - 1][0], (re.search(r"error:.*", q.stdout.decode(errors="replace")) or [""])[0])}
        return {"stats": stats, "error": "%s rejects %s, but no single assertion of it:\n%s" % (cxx, full, text[-2000:])}
    return {"stats": stats}
