"""C25: generated multi-file programs that use the library's headers in every
combination; what they print is computed here.

A program is a dict: tus (each with includes, items, flags), compiler, linkage.
It is shrunk by dropping files, items and includes."""
import copy, json, os, random, re, shutil, subprocess

HEADERS = ["bignum.h", "bn_type.h", "bn_limits.h", "bn_int_type.h", "bn_except.h", "bn_setup.h", "bn_addition.h", "bn_subtraction.h", "bn_multiplication.h", "bn_division.h", "bn_compare.h", "fourier.h"]
STDS = {"g++": ["c++11", "gnu++11", "c++14", "c++17", "gnu++17", "c++20", "c++23"], "clang++": ["c++11", "gnu++11", "c++14", "c++17", "c++20", "c++23"]}
STDHDR = ["algorithm", "cassert", "cmath", "complex", "cstdint", "cstring", "exception", "fstream", "functional", "iomanip", "ios", "iterator", "limits", "list", "map", "memory", "numeric", "sstream", "string", "utility", "vector", "climits", "thread", "ctime"]
# name: (limits type, digit type, base)
SHIPPED = {"bignum_lowp": ("bn_limits_lowp", "BN_UINT8", 256), "bignum_medp": ("bn_limits_medp", "BN_UINT16", 65536), "bignum_highp": ("bn_limits_highp", "BN_UINT32", 2 ** 32), "bignum": ("bn_limits_highp", "BN_UINT32", 2 ** 32),
           "bignum_base2": ("bn_limits_base2", "bn_base2_single", 2), "bignum_base8": ("bn_limits_base8", "bn_base8_single", 8), "bignum_base10": ("bn_limits_base10", "bn_base10_single", 10), "bignum_base16": ("bn_limits_base16", "bn_base16_single", 16)}
USER = {"user_big": ("user_limits", "user_digit", 0)}


def digits(v, base):
    v, d = abs(v), []
    while v:
        d.append(v % base)
        v //= base
    return d


def text(v, base):
    return ("-" if v < 0 else "") + ("".join(str(x) for x in reversed(digits(v, base))) or "0")


def trunc(a, b):
    q = abs(a) // abs(b)
    return -q if (a < 0) != (b < 0) else q


def number(rng, base, n):
    d = [rng.choice([0, 1, base - 1, rng.randrange(base)]) for _ in range(rng.randint(0, n))]
    v = 0
    for x in d:
        v = v * base + x
    return v


def lit(v, base, digit):
    return "{%s, {%s}}" % ("BN_NEG" if v < 0 else "BN_POS", ", ".join("%s(%dull)" % (digit, x) for x in reversed(digits(v, base))))


# --- items: each returns (headers needed, statements writing to o, expected text)
def big(rng, name=None, ubase=None, templated=False):
    name = name or rng.choice(sorted(SHIPPED))
    lim, dig, base = SHIPPED.get(name) or USER[name]
    base = ubase or base
    t = "Bignum<%s, std::vector<%s>>" % (lim, dig) if templated else name
    a, b, c = (number(rng, base, 12) * rng.choice([1, -1]) for _ in range(3))
    o1, o2 = rng.choice("+-*/"), rng.choice("+-*")
    if o1 == "/":
        b = b or 1
        while len(digits(a, base)) > len(digits(b, base)) + 3:
            a = trunc(a, base)
    r = {"+": a + b, "-": a - b, "*": a * b, "/": trunc(a, b) if b else 0}[o1]
    s = {"+": r + c, "-": r - c, "*": r * c}[o2]
    form = rng.randrange(3)
    if form == 0:
        code = "%s r = (a %s b) %s c;" % (t, o1, o2)
    elif form == 1:
        code = "%s r(a); r %s= b; r = r %s c;" % (t, o1, o2)
    else:
        code = "%s r; r = a %s b; %s q(std::move(r)); q %s= c; r = q;" % (t, o1, t, o2)
    want = text(s, base) + "".join(" %d" % x for x in (r < s, r == s, r >= s))
    code = "const %s a%s, b%s, c%s; %s const %s x = a %s b; o << r << ' ' << (x < r) << ' ' << (x == r) << ' ' << (x >= r);" % (t, lit(a, base, dig), lit(b, base, dig), lit(c, base, dig), code, t, o1)
    return (["bn_type.h"] if templated else ["bignum.h"]), code, want


def big_template(rng):
    return big(rng, rng.choice([n for n in sorted(SHIPPED) if n != "bignum"]), templated=True)


def edits(rng):
    name = rng.choice(sorted(SHIPPED))
    _, dig, base = SHIPPED[name]
    d, code = [], "%s n;" % name
    for _ in range(rng.randint(1, 8)):
        x = rng.randrange(base)
        k = rng.randrange(6)
        if k == 0:
            d.insert(0, x); code += " n.push_front(%s(%dull));" % (dig, x)
        elif k == 1:
            d.append(x); code += " n.push_back(%s(%dull));" % (dig, x)
        elif k == 2:
            p = rng.randint(0, len(d)); d.insert(p, x); code += " n.push(%s(%dull), %d);" % (dig, x, p)
        elif k == 3:
            p = rng.randint(0, 6); d = d[:p] + [x] * (p - len(d)); code += " n.resize(%d, %s(%dull));" % (p, dig, x)
        elif k == 4 and d:
            p = rng.randrange(len(d)); d.pop(p); code += " n.pop(%d);" % p
        elif d:
            p = rng.randrange(len(d)); d[p] = x; code += " n[%d] = %s(%dull);" % (p, dig, x)
    code += " const %s& m = n; o << m.size(); for (std::size_t i = 0; i < m.size(); ++i) o << ' ' << (unsigned long long)m[i];" % name
    return ["bignum.h"], code, "%d%s" % (len(d), "".join(" %d" % x for x in d))


RAW = [("BNLimitsType<BN_UINT8, BN_UINT16>", "BN_UINT8", 256), ("BNLimitsType<BN_UINT16, BN_UINT32>", "BN_UINT16", 65536), ("bn_limits_highp", "BN_UINT32", 2 ** 32), ("bn_limits_base10", "bn_base10_single", 10), ("bn_limits_base2", "bn_base2_single", 2)]


def vec(d, dig):
    return "{" + ", ".join("static_cast<%s>(%dull)" % (dig, x) for x in d) + "}"


def raw(rng):
    lim, dig, base = rng.choice(RAW)
    k = rng.randrange(5)
    a, b = number(rng, base, 10), number(rng, base, 10)
    h = ["bn_addition.h", "bn_subtraction.h", "bn_multiplication.h", "bn_multiplication.h", "bn_division.h"][k]
    if k == 1 and a < b:
        a, b = b, a
    if k == 4:
        b = b or 1
        while len(digits(a, base)) > len(digits(b, base)) + 3:
            a //= base
    C = "std::vector<%s>" % dig
    decl = "%s x = %s; %s%s y = %s;" % (C, vec(digits(a, base), dig), "const " if k in (2, 3) else "", C, vec(digits(b, base), dig))
    fn = ["abs_val_add<%s, %s>(x, y);", "abs_val_sub<%s, %s>(x, y);", "x = mul_naive<%s, %s>(x, y);", "x = mul_strassen<%s, %s>(x, y);", "abs_val_div<%s, %s>(x, y);"][k] % (lim, C)
    r = [a + b, a - b, a * b, a * b, a // b if b else 0][k]
    return [h, "<vector>"], decl + " " + fn + " while (!x.empty() && x.back() == %s(0)) x.pop_back(); for (std::size_t i = x.size(); i--;) o << (unsigned long long)x[i] << ',';" % dig, "".join("%d," % x for x in reversed(digits(r, base)))


def compare(rng):
    dig = rng.choice(["unsigned", "unsigned char", "unsigned short", "unsigned long long"])
    base = 200
    a = number(rng, base, 6)
    b = rng.choice([a, number(rng, base, 6), a + 1])
    C = "std::vector<%s>" % dig
    return ["bn_compare.h", "<vector>"], "const %s x = %s, y = %s; o << abs_val_is_eq<%s>(x, y) << abs_val_is_lt<%s>(x, y) << abs_val_is_le<%s>(x, y) << abs_val_is_gt<%s>(x, y) << abs_val_is_ge<%s>(x, y);" % (C, vec(digits(a, base), dig), vec(digits(b, base), dig), C, C, C, C, C), "".join(str(int(x)) for x in (a == b, a < b, a <= b, a > b, a >= b))


def inttype(rng):
    bits, tag = rng.choice([(8, 2), (8, 77), (16, 8), (16, 65535), (32, 10), (32, 4294967295), (64, 16), (64, 5)])
    m = (1 << bits) - 1
    a, b = rng.randrange(m + 1), rng.randrange(m + 1)
    T = "BNIntType<BN_UINT%d, %dull>" % (bits, tag)
    op = rng.choice(["+", "-", "*", "&", "|", "^", "/", "%"])
    if op in "/%":
        b = b or 1
    r = {"+": a + b, "-": a - b, "*": a * b, "&": a & b, "|": a | b, "^": a ^ b, "/": a // (b or 1), "%": a % (b or 1)}[op] & m
    code = "%s x{BN_UINT%d(%dull)}, y{BN_UINT%d(%dull)}; x %s= y; const %s z = %s{BN_UINT%d(%dull)} %s y; o << x << ' ' << (z == x) << (x != z) << ' ' << ++x;" % (T, bits, a, bits, b, op, T, T, bits, a, op)
    return ["bn_int_type.h"], code, "%d 10 %d" % (r, (r + 1) & m)


def limits(rng):
    n, v = rng.choice([("BN_UINT8", 255), ("BN_UINT16", 65535), ("BN_UINT32", 2 ** 32 - 1), ("BN_UINT64", 2 ** 64 - 1), ("bn_base2_single", 1), ("bn_base8_single", 7), ("bn_base10_single", 9), ("bn_base16_single", 15),
                       ("bn_base2_double", 3), ("bn_base8_double", 63), ("bn_base10_double", 99), ("bn_base16_double", 255)])
    return ["bn_limits.h"], "static_assert(bn_max_limit<%s>() == %dull, \"limit\"); o << bn_min_limit<%s>() << ' ' << bn_max_limit<%s>();" % (n, v, n, n), "0 %d" % v


def limits2(rng):
    n, a, b = rng.choice([("bn_limits_lowp", 255, 65535), ("bn_limits_medp", 65535, 2 ** 32 - 1), ("bn_limits_highp", 2 ** 32 - 1, 2 ** 64 - 1), ("bn_limits_base2", 1, None), ("bn_limits_base8", 7, None), ("bn_limits_base10", 9, None), ("bn_limits_base16", 15, None)])
    code = "o << (unsigned long long)%s::SINGLE_BASE_MIN << ' ' << (unsigned long long)%s::SINGLE_BASE_MAX;" % (n, n)
    if b:
        code += " o << ' ' << (unsigned long long)%s::DOUBLE_BASE_MAX;" % n
    return ["bn_limits.h"], code, "0 %d%s" % (a, " %d" % b if b else "")


def errors(rng):
    k = rng.randrange(5)
    if k == 0:
        return ["bn_except.h", "<exception>"], "try { throw BNUnderflow(); } catch (const std::exception& e) { o << (e.what()[0] != 0); }", "1"
    if k == 1:
        return ["bn_except.h", "<exception>"], "try { throw BNNaN(); } catch (const std::exception& e) { o << (e.what()[0] != 0); }", "1"
    if k == 2:
        return ["bn_except.h", "<iostream>", "<sstream>"], "std::ostringstream s; std::streambuf* old = std::cerr.rdbuf(s.rdbuf()); int got = -1; try { bn_runtime_assert(false, BN_ERROR, \"text\"); } catch (bn_error_t e) { got = e; } std::cerr.rdbuf(old); o << got << ' ' << (s.str().find(\"text\") != std::string::npos);", "2 1"
    if k == 3:
        return ["bn_except.h", "<iostream>", "<sstream>"], "std::ostringstream s; std::streambuf* old = std::cerr.rdbuf(s.rdbuf()); int got = -1, n = 2; try { BN_ASSERT(n == 2); BN_ASSERT(n != 2); } catch (bn_error_t e) { got = e; } std::cerr.rdbuf(old); o << got << ' ' << (s.str().find(\"n != 2\") != std::string::npos) << (s.str().find(\"n == 2\") == std::string::npos);", "2 11"
    return ["bignum.h", "<iostream>", "<sstream>"], "std::ostringstream s; std::streambuf* old = std::cerr.rdbuf(s.rdbuf()); int got = -1; bignum_base10 n; try { n[3]; } catch (bn_error_t e) { got = e; } std::cerr.rdbuf(old); o << got;", "2"


def fourier(rng):
    k = rng.randrange(2)
    if k == 0:
        n = rng.choice([1, 2, 3, 4, 5, 63, 64, 65, 1000, 1 << 20, (1 << 20) + 1])
        p = 1
        while p < n:
            p *= 2
        return ["fourier.h"], "o << isPow2<unsigned>(%du) << ' ' << nextPow2<unsigned long long>(%dull) << ' ' << nextPow2<BN_UINT32>(%du);" % (n, n, n), "%d %d %d" % (n & (n - 1) == 0, p, p)
    a, b = ([rng.randrange(100) for _ in range(rng.randint(1, 9))] for _ in range(2))
    n = 1
    while n < len(a) + len(b):
        n *= 2
    r = [0] * n
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            r[i + j] += x * y
    C = "std::vector<unsigned>"
    return ["fourier.h", "<vector>", "<cmath>"], "const %s x = %s, y = %s; cmplx_list_t<double> t = create_fft_table<%s, double>(x, y); convolute_fft<double>(t); ifft_complex<double>(t); for (const auto& e : t) o << (long)std::floor(e.real() + 0.5) << ',';" % (C, vec(a, "unsigned"), vec(b, "unsigned"), C), "".join("%d," % x for x in r)


def algorithms(rng):
    """Numbers as elements and keys: standard algorithms and containers of numbers."""
    name = rng.choice(sorted(SHIPPED))
    _, dig, base = SHIPPED[name]
    vals = [number(rng, base, rng.choice([2, 6])) * rng.choice([1, -1]) for _ in range(rng.randint(1, 7))]
    decl = "std::vector<%s> v; %s" % (name, " ".join(rng.choice(["v.push_back(%s%s);", "v.emplace_back(%s%s);"]) % (name, lit(x, base, dig)) for x in vals))
    out = " for (const %s& x : v) o << x << ' ';" % name
    show = lambda l: "".join(text(x, base) + " " for x in l)
    k = rng.randrange(8)
    if k == 0:
        return ["bignum.h", "<vector>", "<algorithm>"], decl + " std::sort(v.begin(), v.end());" + out, show(sorted(vals))
    if k == 1:
        return ["bignum.h", "<vector>", "<numeric>"], decl + " o << std::accumulate(v.begin(), v.end(), %s());" % name, text(sum(vals), base)
    if k == 2:
        return ["bignum.h", "<vector>", "<algorithm>"], decl + " o << *std::max_element(v.begin(), v.end()) << ' ' << *std::min_element(v.begin(), v.end());", text(max(vals), base) + " " + text(min(vals), base)
    if k == 3:
        return ["bignum.h", "<vector>", "<map>"], decl + " std::map<%s, int> m; for (std::size_t i = 0; i < v.size(); ++i) m[v[i]] += int(i) + 1; for (const auto& e : m) o << e.first << ':' << e.second << ' ';" % name, "".join("%s:%d " % (text(x, base), sum(i + 1 for i, y in enumerate(vals) if y == x)) for x in sorted(set(vals)))
    if k == 4:
        return ["bignum.h", "<vector>", "<algorithm>"], decl + " std::reverse(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end());" + out, show([x for i, x in enumerate(vals[::-1]) if i == 0 or vals[::-1][i - 1] != x])
    if k == 5:
        return ["bignum.h", "<vector>", "<set>", "<functional>"], decl + " std::set<%s, std::greater<%s>> s(v.begin(), v.end()); for (const auto& x : s) o << x << ' ';" % (name, name), show(sorted(set(vals), reverse=True))
    if k == 6:
        return ["bignum.h", "<vector>", "<utility>"], decl + " using std::swap; swap(v.front(), v.back()); v.insert(v.begin(), v.back());" + out, show([vals[0]] + (vals if len(vals) == 1 else [vals[-1]] + vals[1:-1] + [vals[0]]))
    n = rng.randrange(len(vals))
    return ["bignum.h", "<vector>", "<algorithm>"], decl + " std::rotate(v.begin(), v.begin() + %d, v.end()); std::stable_sort(v.begin(), v.end(), std::greater<%s>()); o << std::is_sorted(v.rbegin(), v.rend()) << ' ';" % (n, name) + out, "1 " + show(sorted(vals, reverse=True))


# names of the standard library that a program may use for types of its own
FREE = ["list", "map", "pair", "string", "array", "function", "vector", "ratio", "tuple", "optional", "any", "deque", "complex", "set", "ostream", "exception", "allocator", "numeric_limits", "initializer_list"]


def own_names(rng):
    names = rng.sample(FREE, rng.randint(1, 6))
    return ["struct %s { int v; };" % n for n in names], "".join(" { const ::%s x{%d}; o << x.v << sizeof(%s) << ' '; }" % (n, i, n) for i, n in enumerate(names)), "".join("%d4 " % i for i in range(len(names)))


ITEMS = [big, big, big_template, edits, raw, raw, raw, compare, inttype, limits, limits2, errors, fourier, algorithms, algorithms]


def user_header(rng, base, bits):
    tag = base
    return """#ifndef USER_TYPES_H
#define USER_TYPES_H
#include "bignum/%s"
#include <vector>
BN_DECLARE_CLASS(BNIntType, user_digit, BN_UINT%d, %dull);
template <> constexpr bn_u64_t bn_min_limit<user_digit>() {return 0;}
template <> constexpr bn_u64_t bn_max_limit<user_digit>() {return %dull;}
BN_DECLARE_STRUCT(BNLimitsType, user_limits, user_digit, user_digit);
BN_DECLARE_CLASS(Bignum, user_big, user_limits, std::vector<user_digit>);
#endif
""" % (rng.choice(["bignum.h", "bignum.h", "bn_type.h"]), bits, tag, base - 1)


USER_DEFINITIONS = """BN_DEFINE_CLASS(BNIntType, BN_UINT%d, %dull);
BN_DEFINE_STRUCT(BNLimitsType, user_digit, user_digit);
BN_DEFINE_CLASS(Bignum, user_limits, std::vector<user_digit>);
"""


# options of a program's own files that leave the library's interface as it is
FLAGS = [("-pedantic-errors", 0.3), ("-fno-rtti", 0.1), ("-fPIC", 0.1), ("-funsigned-char", 0.1), ("-fvisibility=hidden", 0.1), ("-ffunction-sections", 0.1), ("-fno-elide-constructors", 0.1), ("-D_GLIBCXX_ASSERTIONS", 0.2), ("-DNDEBUG", 0.2), ("-g", 0.1)]


def generate(seed, index):
    rng = random.Random("programs/%s/%d" % (seed, index))
    p = {"seed": str(seed), "index": index, "compiler": rng.choice(["g++", "g++", "clang++"]), "shared": rng.random() < 0.25, "debug": rng.random() < 0.25, "user": None, "tus": []}
    std = rng.choice(STDS[p["compiler"]])
    p["lib_std"] = rng.choice(["gnu++11", std])
    # an installed library was not built for the program
    mix = random.Random("library/%s/%d" % (seed, index))
    p["lib_debug"] = p["debug"] != (mix.random() < 0.3)
    p["lib_compiler"] = p["compiler"] if mix.random() < 0.8 else {"g++": "clang++", "clang++": "g++"}[p["compiler"]]
    ubits = rng.choice([16, 32, 64])
    ubase = rng.choice([3, 5, 7, 12, 60, 100, 1000, 32000])
    if rng.random() < 0.5:
        p["user"] = {"base": ubase, "bits": ubits, "header": user_header(rng, ubase, ubits)}
    if index < 2 * len(HEADERS):
        # every header alone, first and only
        p["compiler"] = ["g++", "clang++"][index % 2]
        std = rng.choice(STDS[p["compiler"]])
        p["lib_std"], p["lib_debug"], p["lib_compiler"] = "gnu++11", p["debug"], p["compiler"]
    for t in range(rng.randint(1, 4)):
        items, need, uses_user = [], [], False
        for _ in range(rng.randint(1, 4)):
            if p["user"] and rng.random() < 0.3:
                h, code, want = big(rng, "user_big", ubase)
                uses_user, h = True, []
            else:
                h, code, want = rng.choice(ITEMS)(rng)
            items.append({"code": code, "want": want, "need": h})
            need += h
        if t == 0 and index < 2 * len(HEADERS):
            lone = HEADERS[index // 2]
            items = [x for x in items if x["need"] and all(h.startswith("<") or h == lone for h in x["need"])]
            while len(items) < 2:
                cand = rng.choice(ITEMS)(rng)
                if all(h.startswith("<") or h == lone for h in cand[0]):
                    items.append({"code": cand[1], "want": cand[2], "need": cand[0]})
                elif rng.random() < 0.02:
                    break
            need, uses_user = [lone] + [h for x in items for h in x["need"]], False
            order = [lone] + sorted({h for h in need if h.startswith("<")})
        else:
            order = sorted(set(need))
            for h in HEADERS:
                if rng.random() < 0.2 and h not in order:
                    order.append(h)
            order += ["<%s>" % h for h in rng.sample(STDHDR, rng.randint(0, 3))]
            if uses_user:
                order.append('"user_types.h"')
            order = list(dict.fromkeys(order))
            rng.shuffle(order)
            if rng.random() < 0.2 and order:
                order.append(rng.choice(order))
        defines_user = bool(p["user"]) and t == 0
        if defines_user and '"user_types.h"' not in order and index >= 2 * len(HEADERS):
            order.append('"user_types.h"')
        own, using_std = [], rng.random() < 0.2
        if not using_std and rng.random() < 0.3:
            own, code, want = own_names(rng)
            items.append({"code": code.strip(), "want": want, "need": []})
        p["tus"].append({"includes": order, "items": items, "std": std if rng.random() < 0.7 else rng.choice(STDS[p["compiler"]]), "opt": rng.choice(["-O0", "-O0", "-O0", "-O1", "-O2"]),
                         "using_std": using_std, "own": own, "flags": [f for f, q in FLAGS if rng.random() < q]})
    if p["user"] and index < 2 * len(HEADERS):
        p["tus"].append({"includes": ['"user_types.h"'], "items": [], "std": std, "opt": "-O0", "using_std": False, "own": [], "flags": []})
    return p


def source(p, t):
    tu = p["tus"][t]
    inc = ["#include <%s>" % h.strip("<>") if h.startswith("<") else "#include %s" % h if h.startswith('"') else '#include "bignum/%s"' % h for h in tu["includes"]]
    s = "\n".join(inc) + "\n#include <sstream>\n#include <string>\n#include <utility>\n"
    if tu["using_std"]:
        s += "using namespace std;\n"
    if p["user"] and t == owner(p):
        s += USER_DEFINITIONS % (p["user"]["bits"], p["user"]["base"])
    s += "".join(x + "\n" for x in tu["own"])
    for k, x in enumerate(tu["items"]):
        s += "static void item%d(std::ostream& o) { %s }\n" % (k, x["code"])
    s += "std::string file%d() {\n    std::ostringstream o;\n" % t
    for k, x in enumerate(tu["items"]):
        s += "    o << \"%d: \"; item%d(o); o << '\\n';\n" % (k, k)
    return s + "    return o.str();\n}\n"


def owner(p):
    for t, tu in enumerate(p["tus"]):
        if '"user_types.h"' in tu["includes"]:
            return t
    return -1


def expected(p):
    return "".join("file %d\n" % t + "".join("%d: %s\n" % (k, x["want"]) for k, x in enumerate(tu["items"])) for t, tu in enumerate(p["tus"]))


def run(p, d, repo, lib):
    """None when the program builds and prints what it should, else a message.  lib(compiler, std, debug, shared) is the library's path."""
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    if p["user"]:
        open(os.path.join(d, "user_types.h"), "w").write(p["user"]["header"])
    main = "#include <iostream>\n#include <string>\n" + "".join("std::string file%d();\n" % t for t in range(len(p["tus"]))) + "int main() {\n" + "".join("    std::cout << \"file %d\\n\" << file%d();\n" % (t, t) for t in range(len(p["tus"]))) + "}\n"
    open(os.path.join(d, "main.cpp"), "w").write(main)
    objs, env = [], dict(os.environ, LC_ALL="C")
    jobs = [("main.cpp", p["tus"][0]["std"] if p["tus"] else "c++11", ["-O0"])]
    for t, tu in enumerate(p["tus"]):
        open(os.path.join(d, "file%d.cpp" % t), "w").write(source(p, t))
        jobs.append(("file%d.cpp" % t, tu["std"], [tu["opt"]] + tu["flags"]))
    for name, std, opt in jobs:
        cmd = [p["compiler"], "-std=" + std, "-w"] + opt + [ "-I" + os.path.join(repo, "include"), "-I" + d, "-c", os.path.join(d, name), "-o", os.path.join(d, name[:-4] + ".o")] + (["-DBN_DEBUG"] if p["debug"] else [])
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)
        if r.returncode:
            m = re.search(r".*error:.*", r.stdout.decode(errors="replace"))
            inc = p["tus"][int(name[4:-4])]["includes"] if name != "main.cpp" else []
            return "%s does not compile with %s -std=%s %s, including %s: %s" % (name, p["compiler"], std, " ".join(opt), ", ".join(inc), m.group(0) if m else "")
        objs.append(os.path.join(d, name[:-4] + ".o"))
    l = lib(p["lib_compiler"], p["lib_std"], p["lib_debug"], p["shared"])
    exe = os.path.join(d, "program")
    r = subprocess.run([p["compiler"]] + objs + [l, "-Wl,-rpath," + os.path.dirname(l), "-o", exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)
    if r.returncode:
        m = re.search(r".*(undefined reference|multiple definition).*", r.stdout.decode(errors="replace"))
        return "%d files with %s do not link: %s" % (len(p["tus"]), p["compiler"], m.group(0)[-300:] if m else r.stdout.decode(errors="replace")[-300:])
    try:
        r = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=60)
    except subprocess.TimeoutExpired:
        return "the program does not end"
    got, want = r.stdout.decode(errors="replace"), expected(p)
    if r.returncode or got != want:
        g, w = got.split("\n"), want.split("\n")
        k = next((i for i in range(min(len(g), len(w))) if g[i] != w[i]), min(len(g), len(w)))
        at = [x for x in w[:k + 1] if x.startswith("file ")]
        code = ""
        m = re.match(r"(\d+): ", w[k]) if k < len(w) else None
        if at and m:
            code = p["tus"][int(at[-1][5:])]["items"][int(m.group(1))]["code"]
        return "the program (%s%s; library %s%s) ends with %d and prints '%s' instead of '%s': %s" % (p["compiler"], ", BN_DEBUG" if p["debug"] else "", p["lib_compiler"], ", BN_DEBUG" if p["lib_debug"] else "", r.returncode, g[k][:150] if k < len(g) else "", w[k][:150] if k < len(w) else "", code[:600])
    return None


def shrink(p, d, repo, lib, limit=40):
    best, message, spent = p, run(p, d, repo, lib), 1
    if not message:
        return p, None
    changed = True
    while changed and spent < limit:
        changed = False
        for q in smaller(best):
            if spent >= limit:
                break
            spent += 1
            m = run(q, d, repo, lib)
            if m:
                best, message, changed = q, m, True
                break
    return best, run(best, d, repo, lib) or message


def smaller(p):
    for t in range(len(p["tus"])):
        if len(p["tus"]) > 1 and t != owner(p):
            q = copy.deepcopy(p); del q["tus"][t]; yield q
    for t, tu in enumerate(p["tus"]):
        for k in range(len(tu["items"])):
            q = copy.deepcopy(p); del q["tus"][t]["items"][k]; yield q
    if p["user"] and not any("user_big" in x["code"] for tu in p["tus"] for x in tu["items"]):
        q = copy.deepcopy(p); q["user"] = None
        for tu in q["tus"]:
            tu["includes"] = [h for h in tu["includes"] if h != '"user_types.h"']
        yield q
    for t, tu in enumerate(p["tus"]):
        need = {h for x in tu["items"] for h in x["need"]}
        for k, h in enumerate(tu["includes"]):
            if h not in need and h != '"user_types.h"' or tu["includes"].count(h) > 1:
                q = copy.deepcopy(p); del q["tus"][t]["includes"][k]; yield q


def describe(p):
    return "%s%s, library %s%s %s%s: %s" % (p["compiler"], " BN_DEBUG" if p["debug"] else "", p["lib_compiler"], " BN_DEBUG" if p["lib_debug"] else "", p["lib_std"], " shared" if p["shared"] else "", "; ".join("[%s %s] include %s; %s" % (tu["std"], tu["opt"], ",".join(tu["includes"]), " / ".join(x["code"] for x in tu["items"])) for tu in p["tus"]))


def save(p, path, message):
    with open(path, "w") as f:
        f.write("property C25\nmode -4\nmessage %s\nprogram %s\n" % (message.replace("\n", " "), json.dumps(p)))
