// Type-erased view of one Bignum configuration, so that property code is
// written (and compiled) once for all of them.  C++11.
#ifndef ADAPTER_H
#define ADAPTER_H
#include <cstdint>
#include <cstddef>
#include <vector>
#include <string>
#include <ostream>
#include <memory>

typedef std::uint64_t u64;
typedef std::vector<u64> Digits;            // least significant first

enum Desc { D_POS, D_NEG, D_NAN, D_PINF, D_NINF, D_OTHER };
enum Cmp { C_EQ, C_NE, C_LT, C_LE, C_GT, C_GE };

struct Num { virtual ~Num() {} };
typedef std::unique_ptr<Num> NumP;

struct Cfg {
    std::string name;
    u64 base;            // number of digit values
    unsigned storageBits;
    bool user;           // user-defined (not shipped)
    virtual ~Cfg() {}
    // construction
    virtual Num* make() const = 0;                                       // default ctor
    virtual Num* fromList(Desc, const u64* msf, std::size_t n) const = 0; // initializer_list, n <= 16
    virtual Num* build(Desc, const Digits&) const = 0;   // default ctor + push_back + descriptor
    virtual Num* copy(const Num&) const = 0;
    virtual Num* moved(Num&) const = 0;
    virtual void copyAssign(Num&, const Num&) const = 0;
    virtual void moveAssign(Num&, Num&) const = 0;
    // observation
    virtual Desc desc(const Num&) const = 0;
    virtual Digits digits(const Num&) const = 0;      // through getData()
    virtual std::size_t size(const Num&) const = 0;
    virtual bool isPositive(const Num&) const = 0;
    virtual bool isNegative(const Num&) const = 0;
    virtual bool isInfinite(const Num&) const = 0;
    virtual bool isNan(const Num&) const = 0;
    virtual bool isComputable(Desc) const = 0;
    virtual bool cmp(const Num&, Cmp, const Num&) const = 0;
    virtual void print(std::ostream&, const Num&) const = 0;
    virtual u64 get(const Num&, std::size_t) const = 0;  // const operator[]
    virtual u64 getMut(Num&, std::size_t) const = 0;     // non-const operator[] read
    // modification
    virtual void set(Num&, std::size_t, u64) const = 0;  // non-const operator[] write
    // references handed out by the library, kept and used later
    virtual void* ref(Num&, std::size_t) const = 0;      // &n[i]
    virtual void writeRef(void*, u64) const = 0;
    virtual u64 readRef(const void*) const = 0;
    virtual const void* dataRef(const Num&) const = 0;   // &n.getData()
    virtual Digits readData(const void*) const = 0;
    // edits whose argument is one of the number's own digits, by reference
    virtual void editOwn(Num&, int which, std::size_t src, std::size_t pos) const = 0; // 0 push_front 1 push_back 2 push 3 resize 4 operator[]
    virtual void setDesc(Num&, Desc) const = 0;
    virtual void clear(Num&) const = 0;
    virtual void pushFront(Num&, u64) const = 0;
    virtual void popFront(Num&) const = 0;
    virtual void pushBack(Num&, u64) const = 0;
    virtual void popBack(Num&) const = 0;
    virtual void push(Num&, u64, std::size_t) const = 0;
    virtual void pop(Num&, std::size_t) const = 0;
    virtual void resize(Num&, std::size_t, u64) const = 0;
    virtual void resize1(Num&, std::size_t) const = 0;   // default digit
    // arithmetic: op in "+-*/"
    virtual void opAssign(Num&, char op, const Num&) const = 0;
    virtual Num* op(const Num&, char op, const Num&) const = 0;
    // (a o1 b) o2 c, or a o1 (b o2 c), written in one of EXPR_FORMS ways
    enum { EXPR_FORMS = 9 };
    virtual Num* expr(const Num& a, char o1, const Num& b, char o2, const Num& c, int form) const = 0;
    // as above, inside a fault window (only the library call is inside)
    virtual void opAssignF(Num&, char op, const Num&) const = 0;
    virtual Num* opF(const Num&, char op, const Num&) const = 0;
    virtual Num* copyF(const Num&) const = 0;
    virtual void copyAssignF(Num&, const Num&) const = 0;
    virtual void editF(Num&, int which, u64 digit, std::size_t pos) const = 0; // 0 push_front 1 push_back 2 push 3 resize
    // raw magnitude routines on containers; b is written back to show changes
    // op in "+-/" ; throws what the library throws
    virtual void absOp(char op, Digits& a, Digits& b) const = 0;
    virtual bool absCmp(Cmp c, Digits& a, Digits& b) const = 0;   // EQ LT LE GT GE
    virtual Digits mulNaive(Digits& a, Digits& b) const = 0;
    virtual Digits mulStrassen(Digits& a, Digits& b) const = 0;
    // the functions outside the number types (misc.h)
    virtual std::string misc(unsigned which, const std::vector<u64>& args) const = 0;
    // limits
    virtual u64 minDigit() const = 0;
    virtual u64 maxDigit() const = 0;
    virtual u64 limitsMin() const = 0;
    virtual u64 limitsMax() const = 0;
    virtual bool debugBuild() const = 0;
};

struct Underflow {};             // BNUnderflow, translated
struct LibError { int code; };   // bn_error_t, translated

std::vector<Cfg*>& allConfigs();       // registration order is by name
const std::vector<Cfg*>& configs();    // shipped types, sorted (or the user-defined ones)
void useUserConfigs(bool);
const std::vector<Cfg*>& userConfigs();
const Cfg* findConfig(const std::string& name);
#endif
