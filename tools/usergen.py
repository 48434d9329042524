"""Generates translation units for user-defined digit bases and containers."""
import os, random, shutil

ALLOC = """
template <class T> struct UserAlloc {            // a stateless allocator of the user's own
    typedef T value_type;
    UserAlloc() noexcept {}
    template <class U> UserAlloc(const UserAlloc<U>&) noexcept {}
    T* allocate(std::size_t n) { return static_cast<T*>(::operator new(n * sizeof(T))); }
    void deallocate(T* p, std::size_t) noexcept { ::operator delete(p); }
    template <class U> bool operator==(const UserAlloc<U>&) const noexcept { return true; }
    template <class U> bool operator!=(const UserAlloc<U>&) const noexcept { return false; }
};
"""
DERIVED = """
template <class T> struct UserVec : std::vector<T> {   // a container that offers the vector interface
    using std::vector<T>::vector;
    UserVec() {}
};
"""
COPYING = """
template <class T> struct CopyingVec : std::vector<T> {  // moving it is copying it
    using std::vector<T>::vector;
    CopyingVec() {}
    CopyingVec(const CopyingVec& o) : std::vector<T>(o) {}
    CopyingVec& operator=(const CopyingVec& o) { std::vector<T>::operator=(o); return *this; }
};
"""
ARENA = """
// every container has an arena of its own; none takes over another's memory
template <class T> struct ArenaAlloc {
    typedef T value_type;
    typedef std::false_type propagate_on_container_copy_assignment, propagate_on_container_move_assignment, is_always_equal;
    typedef std::true_type propagate_on_container_swap;  // swapping is always allowed
    unsigned id;
    std::size_t gap() const { return id % 8 * alignof(T); }     // no better aligned than it has to be
    static unsigned next() { static unsigned n = 0; return ++n; }
    ArenaAlloc() : id(next()) {}
    ArenaAlloc(const ArenaAlloc& o) noexcept : id(o.id) {}
    template <class U> ArenaAlloc(const ArenaAlloc<U>& o) noexcept : id(o.id) {}
    ArenaAlloc& operator=(const ArenaAlloc&) = default;
    ArenaAlloc select_on_container_copy_construction() const { return ArenaAlloc(); }
    T* allocate(std::size_t n) {
        char* p = static_cast<char*>(::operator new(16 + gap() + n * sizeof(T)));
        std::memcpy(p, &id, sizeof id);
        return reinterpret_cast<T*>(p + 16 + gap());
    }
    void deallocate(T* q, std::size_t) noexcept {
        char* p = reinterpret_cast<char*>(q) - 16 - gap();
        unsigned owner; std::memcpy(&owner, p, sizeof owner);
        if (owner != id) std::abort();      // memory of another arena
        ::operator delete(p);
    }
    template <class U> bool operator==(const ArenaAlloc<U>& o) const noexcept { return id == o.id; }
    template <class U> bool operator!=(const ArenaAlloc<U>& o) const noexcept { return id != o.id; }
};
"""
CHECKED = """
template <class T> struct CheckedVec : std::vector<T> {  // refuses positions and ends that do not exist
    typedef std::vector<T> base;
    using std::vector<T>::vector;
    CheckedVec() {}
    void need(bool ok) const { if (!ok) throw std::out_of_range("position in a digit container"); }
    T& operator[](std::size_t i) { return base::at(i); }
    const T& operator[](std::size_t i) const { return base::at(i); }
    T& front() { need(!base::empty()); return base::front(); }
    const T& front() const { need(!base::empty()); return base::front(); }
    T& back() { need(!base::empty()); return base::back(); }
    const T& back() const { need(!base::empty()); return base::back(); }
    void pop_back() { need(!base::empty()); base::pop_back(); }
};
"""
CONTAINERS = {"arena": (ARENA, "std::vector<user_digit, ArenaAlloc<user_digit>>"), "checked": (CHECKED, "CheckedVec<user_digit>"),
              "vector": ("", "std::vector<user_digit>"), "alloc": (ALLOC, "std::vector<user_digit, UserAlloc<user_digit>>"),
              "derived": (DERIVED, "UserVec<user_digit>"), "copying": (COPYING, "CopyingVec<user_digit>")}
# native digits whose double-precision type is wider than it has to be
NATIVE = [(8, 32), (16, 64), (8, 64)]


def bases(rng, bits):
    top = {8: 128, 16: 32768, 32: 2 ** 31, 64: 2 ** 32}[bits]
    return top


def pick(rng, bits, i):
    top = bases(rng, bits)
    if i == 0:
        return top
    kind = rng.randrange(6)
    if kind == 0:
        return rng.choice([2, 3, 5, 7, 10, 12, 16, 60, 64, 100])
    if kind == 1:
        return top - rng.randrange(1, 4)
    if kind == 2:
        b = 10
        while b * 10 <= top and rng.random() < 0.7:
            b *= 10
        return min(b, top)
    if kind == 3:
        b = 1 << rng.randrange(1, top.bit_length())
        return min(max(2, b), top)
    if kind == 4:
        b = (1 << rng.randrange(2, top.bit_length())) + rng.choice([-1, 1])
        return min(max(2, b), top)
    return rng.randrange(2, top + 1)


def generate(directory, seed, count):
    rng = random.Random("user/%d" % seed)
    shutil.rmtree(directory, ignore_errors=True)
    os.makedirs(directory)
    natives = NATIVE[:max(2, count // 6)]
    for k in range(count):
        cont = ("vector", "arena", "derived", "checked", "copying", "alloc")[(k // 4 + k) % 6]
        code, ctype = CONTAINERS[cont]
        if k >= count - len(natives):
            bits, wide = natives[k - count + len(natives)]
            base = 1 << bits
            name = "user%d_native_u%d_u%d_%s" % (k, bits, wide, cont)
            types = "typedef BN_UINT%d user_digit;\ntypedef BNLimitsType<user_digit, BN_UINT%d> user_limits;" % (bits, wide)
        else:
            bits = (8, 16, 32, 64)[k % 4]
            base = pick(rng, bits, k // 4)
            tag = rng.randrange(1 << 40, 1 << 62)      # must not collide with the library's own types
            name = "user%d_b%d_u%d_%s" % (k, base, bits, cont)
            # base 2^32 over 64-bit digits, base 128 over 8-bit digits, ... : 2*base fits in the digit type
            types = """typedef BNIntType<BN_UINT%d, %dull> user_digit;
template <> constexpr bn_u64_t bn_min_limit<user_digit>() {return 0;}
template <> constexpr bn_u64_t bn_max_limit<user_digit>() {return %dull;}
typedef BNLimitsType<user_digit, user_digit> user_limits;""" % (bits, tag, base - 1)
        text = """#include "bignum/bignum.h"
#include <vector>
#include <cstddef>
#include <cstdlib>
#include <cstring>
#include <stdexcept>
#include <type_traits>
namespace {
%s}
%s
typedef Bignum<user_limits, %s> user_bignum;
#include "adapter_impl.h"
static CfgT<user_bignum, user_limits> cfg("%s", %dull, true);
""" % (code, types, ctype, name, base)
        with open(os.path.join(directory, "user_%02d.cpp" % k), "w") as f:
            f.write(text)
