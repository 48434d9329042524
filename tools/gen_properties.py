#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
T = "The three test programs assert nothing: they print results for a handful of fixed operands and exit 0, so "
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            observe_at=list(observe), hook_needed=hook)))
I = "include/bignum/"
TI = I + "impl/bn_type_impl.h"
num_state = [("descriptor", "sign, or NaN/+INF/-INF", I+"bn_type.h"),
             ("numData", "digits, least significant first, each in [0, base-1]", I+"bn_type.h")]

prop("C01", "Addition is exact for every sign, length and base",
 "For all finite numbers a and b of the same type (any sign, any number of digits, any shipped base or precision), a + b and a += b hold exactly the integer sum of a and b. Carries propagate through any number of digits and a mixed-sign sum takes the sign of the operand of larger magnitude.",
 ["inputs", "configurations"], "all pairs of finite numbers, signs x lengths 0..thousands of digits x bignum_lowp/medp/highp/base2/base8/base10/base16",
 T + "a wrong carry or sign passes; only about 20 additions of at most 110 digits are ever executed, none in the native 8/16/32-bit precisions.",
 [I+"impl/bn_addition_impl.h", I+"impl/bn_subtraction_impl.h", TI],
 [("abs_val_add digit/carry loop", I+"impl/bn_addition_impl.h"), ("operator+= sign dispatch (subtract smaller magnitude from larger)", TI), ("abs_val_is_ge", I+"impl/bn_compare_impl.h")],
 num_state, ["operator+", "operator+="])
prop("C02", "Subtraction is exact for every sign, length and base",
 "For all finite numbers a and b of the same type (any sign, any number of digits), a - b and a -= b hold exactly the integer difference, including when signs differ (magnitudes add), when |b| > |a| (sign flips) and when the operands are equal (zero). Borrows propagate through any number of digits.",
 ["inputs", "configurations"], "all pairs of finite numbers, signs x lengths x shipped types, with emphasis on long borrow runs, near-equal operands and mixed signs",
 T + "a wrong borrow or sign passes; the pristine tree computed 5 - (-3) as 2 and the tests stayed green.",
 [I+"impl/bn_subtraction_impl.h", TI],
 [("abs_val_sub borrow loop and trimming", I+"impl/bn_subtraction_impl.h"), ("operator-= sign dispatch", TI)],
 num_state, ["operator-", "operator-="])
prop("C03", "Multiplication is exact for every length and base",
 "For all finite numbers a and b of the same type, a * b and a *= b hold exactly the integer product with the product of the signs, for every digit width (from binary digits to full 32-bit digits) and every operand length, however unbalanced. No rounding or overflow in the transform-based algorithm is ever visible in the result.",
 ["inputs", "configurations"], "all pairs of finite numbers; lengths around powers of two, all-maximal digits, highly unbalanced lengths, up to thousands of digits",
 T + "floating-point rounding or coefficient overflow in the FFT only shows for wide digits or long operands that the tests never use.",
 [I+"impl/bn_multiplication_impl.h", I+"impl/fourier_impl.h", TI],
 [("mul_strassen: FFT convolution, rounding, carry propagation, trimming", I+"impl/bn_multiplication_impl.h"), ("create_fft_table padding to a power of two", I+"impl/fourier_impl.h"), ("operator*= sign rule", TI)],
 num_state, ["operator*", "operator*="])
prop("C04", "Division is the exact quotient truncated toward zero",
 "For every finite a and every finite non-zero b of the same type, a / b and a /= b terminate and hold the integer quotient truncated toward zero: |a| = |q|*|b| + r with 0 <= r < |b|, and a non-zero q is negative exactly when the signs differ. In particular x / x is 1, |a| < |b| gives 0, and (q*b) / b is q.",
 ["inputs", "configurations"], "all pairs of finite numbers with non-zero divisor; quotients built as q*b+r with r in {0, 1, |b|-1, random}, equal operands, near-equal operands, length differences from 0 up",
 T + "the pristine tree returned 0 for x/x and crashed with SIGFPE for native-precision digits without any test noticing.",
 [I+"impl/bn_division_impl.h", I+"impl/bn_compare_impl.h", TI],
 [("abs_val_div doubling search", I+"impl/bn_division_impl.h"), ("operator/= sign rule and shortcuts", TI)],
 num_state, ["operator/", "operator/="])
prop("C05", "The six comparisons are the numeric total order",
 "For all finite a and b of the same type, ==, !=, <, <=, > and >= return exactly what the corresponding integer comparison of their values returns, including for two negative numbers, for numbers that differ in a single digit at any position, and for zeros however produced (a negatively signed zero equals zero). Hence exactly one of <, ==, > holds and the order is transitive and antisymmetric.",
 ["inputs", "configurations"], "all pairs (and triples) of finite numbers; near-equal operands of equal length, differing at one or two digit positions in opposite directions",
 T + "comparison results are only printed, for two fixed operand pairs of different sign.",
 [I+"impl/bn_compare_impl.h", TI],
 [("abs_val_is_eq/gt/ge/lt/le most-significant-first scans", I+"impl/bn_compare_impl.h"), ("sign dispatch of the relational operators", TI)],
 num_state, ["operator==", "operator!=", "operator<", "operator<=", "operator>", "operator>="])
prop("C06", "Arithmetic results are always in canonical form",
 "Whenever +, -, *, / (or their compound forms) are applied to finite canonical operands, a finite result has every digit within [0, base-1], no superfluous zero above its most significant digit unless its value is zero, and is never a negative zero. Hence two results with equal value have equal digits and sign (zero may be spelled with no digits or a single zero digit), whichever operations produced them.",
 ["inputs", "histories", "configurations"], "all operand pairs and all chains of operations over all shipped types",
 T + "the form of a result is never inspected; cancellation, exact products and zero results are the cases where it breaks.",
 [I+"impl/bn_subtraction_impl.h", I+"impl/bn_multiplication_impl.h", I+"impl/bn_division_impl.h", TI],
 [("trailing-zero popping after subtraction", I+"impl/bn_subtraction_impl.h"), ("zero trimming after multiplication", I+"impl/bn_multiplication_impl.h"), ("zero sign normalisation", TI)],
 num_state, ["getData", "getDescriptor", "isNegative", "size"])
prop("C07", "Any history of operations agrees with integer arithmetic",
 "After any sequence of assignments, copies, moves, compound and binary arithmetic operations (aliased operands included), digit edits, sign changes and non-finite values over a set of variables, every variable holds exactly the value that the same program computes over mathematical integers (extended by NaN and infinities). No operation's result depends on how its operands were produced or on earlier operations.",
 ["histories", "inputs", "configurations"], "all straight-line programs over a small set of variables, each step one operation of the public API",
 T + "they run one fixed chain of four operations; state left behind by one operation and consumed by another is never examined.",
 [TI, I+"impl/bn_addition_impl.h", I+"impl/bn_subtraction_impl.h", I+"impl/bn_multiplication_impl.h", I+"impl/bn_division_impl.h"],
 [("compound operators leave a value every other operator accepts", TI)],
 num_state, ["all Bignum operators"])
prop("C08", "Values are independent of the base; radix conversion round-trips",
 "The value of any expression over finite numbers is the same in every shipped base and precision: converting operands to another base, evaluating there and converting the result back gives the same number. Digits extracted by repeated division (q = n / d, digit = n - q*d) rebuild exactly n by Horner evaluation, for every n and every divisor d >= 2 - the use made of the library by its compression example.",
 ["inputs", "configurations", "programs"], "all numbers x all divisors x all pairs of shipped types; all small expressions",
 T + "one fixed file is halved bit by bit and doubled back and the result is printed, not compared; no test relates two bases.",
 ["tests/compress_test.cpp", I+"impl/bn_division_impl.h", I+"impl/bn_multiplication_impl.h", TI],
 [("division and multiply-add being exact inverses", TI)],
 num_state, ["operator/", "operator*", "operator+", "operator-"])
prop("C09", "NaN, infinities and division by zero behave as extended reals",
 "Dividing a finite non-zero number by zero yields the infinity of the dividend's sign (for a non-negative zero divisor), 0/0 is never finite, and both terminate. A NaN operand makes any arithmetic result NaN; infinities follow extended-real arithmetic (inf+finite = inf, inf-inf = NaN, inf*0 = NaN, inf*x and inf/x signed infinities, finite/inf = 0, inf/inf = NaN), and non-finite results carry no digits. Infinities order above/below every finite number and NaN is neither less nor greater than anything.",
 ["inputs", "histories", "configurations"], "all pairs of descriptors (finite positive/negative/zero, NaN, +INF, -INF) x operations x finite operand shapes",
 T + "no test constructs a NaN or an infinity or divides by zero; the pristine tree computed NaN + 5 as 0 and looped forever on x / 0.",
 [TI, I+"bn_type.h"],
 [("isComputable guards", TI), ("setDescriptor clearing digits", TI), ("zero-divisor shortcut", TI)],
 num_state, ["operators", "isNan", "isInfinite", "isPositive", "isNegative", "setDescriptor"])
prop("C10", "Leading zero digits never change a value",
 "Padding either operand of any arithmetic operation or comparison with any number of zero digits above its most significant digit (through resize, push_back or direct digit access) does not change the numeric result of that operation. This includes multi-digit spellings of zero as operand or divisor.",
 ["inputs", "configurations"], "all operand pairs x amounts of padding on either or both sides x all operations",
 T + "the compression test feeds one padded number to division and never checks the quotient; the pristine tree compared operands by digit count and borrowed from the padding.",
 [I+"impl/bn_compare_impl.h", I+"impl/bn_subtraction_impl.h", TI],
 [("numeric-value comparison (documented 'equal in numerical value')", I+"bn_compare.h"), ("trimming in results", I+"impl/bn_subtraction_impl.h")],
 num_state, ["operators", "resize", "push_back"])
prop("C11", "Numbers are values: copies, moves, aliasing, untouched operands",
 "Copies are independent of their source; a move transfers the value and leaves a usable non-negative zero behind; binary operators and comparisons leave both operands unchanged, and compound operators leave the right operand unchanged. x op= y equals x op y, and using the same object on both sides (x += x, x -= x, x *= x, x /= x, x = x) gives the same result as using two copies.",
 ["inputs", "histories", "configurations"], "all finite operands x all operators x aliasing patterns x construction/assignment forms",
 T + "no test copies, moves, self-assigns or re-reads an operand after an operation and compares it.",
 [TI, I+"bn_type.h"],
 [("copy/move constructors and assignments", TI), ("binary operators implemented as copy plus compound operator", TI)],
 num_state, ["constructors", "operator=", "operators"])
prop("C12", "Digit-level construction and editing follow a sequence model",
 "A number built from a descriptor and a most-significant-first digit list holds those digits minus leading zeros; afterwards push_front/pop_front act at digit index 0, push_back/pop_back at the highest index, push/pop at the given index, resize truncates or appends the given digit at the top, and operator[], size and getData read and write exactly the digits such a sequence holds (index 0 least significant). clear resets to positive with no digits, setDescriptor changes only the sign for finite descriptors and drops all digits for NaN and infinities, and no edit touches any other digit or the sign.",
 ["histories", "inputs", "configurations"], "all sequences of editing operations with arbitrary digits of the base and valid positions, from all constructed numbers",
 T + "only push_back is exercised by a test; insertion and removal at arbitrary positions, resize and clear are never called.",
 [TI, I+"bn_type.h"],
 [("initializer_list constructor reversing and stripping", TI), ("editing methods over the digit container", TI)],
 num_state, ["constructor", "push_front", "pop_front", "push_back", "pop_back", "push", "pop", "resize", "operator[]", "clear", "setDescriptor"])
prop("C13", "Out-of-range digit access and failed assertions are reported",
 "Reading or writing a digit at any index >= size() throws the library's error value and leaves the number unchanged, while every index < size() succeeds silently. A runtime assertion that holds prints and throws nothing; one that fails prints its level label and message exactly once, and throws exactly when its level is error.",
 ["inputs", "histories", "configurations"], "all numbers x all indices; all messages x levels x outcomes",
 T + "no test ever passes a bad index or triggers an assertion.",
 [TI, "src/bn_except.cpp", I+"bn_except.h"],
 [("BN_ASSERT in operator[]", TI), ("bn_runtime_assert", "src/bn_except.cpp")],
 num_state, ["operator[]", "bn_runtime_assert", "BN_ASSERT"])
prop("C14", "Text output is the sign and digits, most significant first",
 "Streaming a finite number writes '-' exactly when it is negative, then its digits from most to least significant, each as its decimal integer value (a digitless number prints 0), so for bases up to ten the text is the exact numeral of the value in that base, in every digit storage width. NaN and infinities print as NaN, +INF and -INF, and printing neither changes the number nor the stream's state. Flags that mean nothing for a plain unsigned decimal (showpos, showbase, ...) leave the text as it is, a width pads the number as a whole (and is used up), and a stream that fails on the way has received a prefix of it.",
 ["inputs", "configurations"], "all numbers of all shipped types and several user bases, all descriptors",
 T + "printed text is never compared with anything; the pristine tree printed base-2 and low-precision digits as raw control characters.",
 [TI, I+"impl/bn_int_type_impl.h"],
 [("operator<< for Bignum", TI), ("operator<< for BNIntType", I+"impl/bn_int_type_impl.h")],
 num_state, ["operator<<(ostream)"])
prop("C15", "Allocation failure leaves every object valid and is reported",
 "If any single memory allocation inside an arithmetic operation, copy or edit fails, the failure reaches the caller as std::bad_alloc, no memory is leaked or corrupted and every operand other than the target keeps its value. The target keeps its old value or - for compound arithmetic only - becomes an infinity without digits, and all objects remain usable: repeating the operation on fresh copies of the old values succeeds with the exact result.",
 ["fault_sequences", "inputs", "configurations"], "all operations x all operand shapes x every index k of the failing allocation",
 T + "no test can make an allocation fail, and the exception paths of all four compound operators are never executed.",
 [TI],
 [("catch blocks marking the target infinite and rethrowing", TI)],
 num_state, ["compound operators", "copy construction and assignment"])
prop("C16", "No input or call sequence causes undefined behaviour or a hang",
 "For every sequence of public calls that respects the documented preconditions (valid positions, digits within the base), no operation reads or writes out of bounds, uses freed memory, leaks, executes undefined integer or floating-point conversions or arithmetic, recurses without bound or fails to terminate. Empty (zero) operands and the largest digits are included.",
 ["inputs", "histories", "configurations"], "all API call sequences over all shipped types, generated randomly and by coverage-guided fuzzing under ASan+UBSan",
 "The tests are not run under sanitizers and never pass an empty operand: the pristine tree read out of bounds on 0 - 0, overflowed the stack on 0 * 0 and looped on x / 0.",
 [TI, I+"impl/bn_subtraction_impl.h", I+"impl/fourier_impl.h", I+"impl/bn_division_impl.h", I+"impl/bn_multiplication_impl.h"],
 [("loop bounds of the magnitude routines", I+"impl/bn_subtraction_impl.h"), ("FFT recursion base case", I+"impl/fourier_impl.h")],
 num_state, ["whole public API"])
prop("C17", "The digit integer type behaves as its underlying unsigned integer",
 "For every underlying width (8 to 64 bits) and all values, each BNIntType operation - unary, binary, compound, increment/decrement, comparison, conversion and assignment, with another BNIntType, with a plain integer on either side, at run time or in a constant expression - gives the result of the same operation on the plain unsigned integer, reduced modulo 2^width. Excluded are only division or remainder by zero and shift counts >= width.",
 ["inputs", "configurations"], "all value pairs (exhaustive for 8-bit operands) x all operators x all widths and tags",
 "One program prints 32 operator results for one random pair of 32-bit values and compares none of them; other widths are only instantiated.",
 [I+"bn_int_type.h", I+"impl/bn_int_type_impl.h", "src/bn_int_type.cpp"],
 [("operator macros forwarding to the wrapped integer", I+"impl/bn_int_type_impl.h")],
 [("num", "the wrapped integer", I+"bn_int_type.h")], ["BNIntType operators"])
prop("C18", "Digit integers survive a write/read round trip through streams",
 "Writing any BNIntType value to a stream produces its decimal numeral, and reading that text back yields the same value, for every width including 8-bit types. Sequences of values written with whitespace between them are read back in order. Under any base, format flags, width and locale the text is the one of a plain unsigned integer, and reading any text - garbage, overlong numbers, the end of the stream - has the effect on value, stream state and position it has for a plain unsigned integer of that width (8-bit types: a number above 255 gives 255 and a failed stream).",
 ["inputs", "configurations"], "all values (exhaustive for 8 and 16 bits) x widths x value sequences",
 "Stream input is never called by any test and stream output is never compared.",
 [I+"impl/bn_int_type_impl.h"],
 [("operator<< and operator>> for BNIntType", I+"impl/bn_int_type_impl.h")],
 [("num", "the wrapped integer", I+"bn_int_type.h")], ["operator<<", "operator>>"])
prop("C19", "The raw magnitude routines honour their documented contracts",
 "On raw digit containers, abs_val_add accumulates the exact sum, abs_val_sub the exact difference when the first magnitude is >= the second, abs_val_div the exact floor quotient for a non-zero divisor, and abs_val_is_eq/gt/ge/lt/le compare exactly by numeric value; the second argument is never modified. Compiled with BN_DEBUG, abs_val_sub rejects a smaller first argument with BNUnderflow leaving it unmodified, and no arithmetic or comparison operator on finite numbers ever raises BNUnderflow.",
 ["inputs", "configurations"], "all pairs of digit containers of all shipped digit types, both with and without BN_DEBUG",
 "The free functions are never called directly by a test and BN_DEBUG is never defined in a test build.",
 [I+"bn_addition.h", I+"bn_subtraction.h", I+"bn_division.h", I+"bn_compare.h", I+"impl/bn_subtraction_impl.h", I+"impl/bn_compare_impl.h"],
 [("magnitude routines", I+"impl/bn_addition_impl.h"), ("BN_DEBUG underflow guard", I+"impl/bn_subtraction_impl.h")],
 [], ["abs_val_add", "abs_val_sub", "abs_val_div", "abs_val_is_*", "BNUnderflow"])
prop("C20", "Both multiplication algorithms give the same exact product",
 "For any two digit sequences of any supported digit type, mul_naive and mul_strassen both return digits in [0, base-1] whose value is exactly the product of the two input values (leading zero digits aside), in either operand order. Neither modifies its inputs.",
 ["inputs", "configurations"], "all pairs of digit containers of all shipped digit types, lengths 0..thousands",
 "mul_naive is never instantiated by the tests and mul_strassen's output is never compared with anything.",
 [I+"bn_multiplication.h", I+"impl/bn_multiplication_impl.h"],
 [("schoolbook accumulation with carries", I+"impl/bn_multiplication_impl.h"), ("FFT convolution with carries", I+"impl/bn_multiplication_impl.h")],
 [], ["mul_naive", "mul_strassen"])
prop("C21", "The Fourier transform layer is a correct DFT pair",
 "For every complex sequence whose length is a power of two, fft_complex equals the discrete Fourier transform up to rounding, ifft_complex inverts it, and combining two integer sequences with create_fft_table, convolute_fft and ifft_complex yields their cyclic convolution, exact after rounding while the products stay within double precision. The table length is the smallest power of two that holds both inputs' lengths together, and isPow2/nextPow2 are exact for every value of every unsigned integer type whose next power of two is representable.",
 ["inputs", "configurations"], "all power-of-two lengths up to 2^14, random/impulse/extreme signals; all widths for the power-of-two helpers",
 "The transform is only exercised indirectly through a few multiplications whose results are not checked.",
 [I+"fourier.h", I+"impl/fourier_impl.h"],
 [("recursive radix-2 decimation in time", I+"impl/fourier_impl.h"), ("conjugation-based inverse", I+"impl/fourier_impl.h"), ("interleaved real/imaginary convolution", I+"impl/fourier_impl.h")],
 [], ["fft_complex", "ifft_complex", "create_fft_table", "convolute_fft", "isPow2", "nextPow2"])
prop("C22", "User-defined bases and containers get the same guarantees",
 "For every base a user defines by specialising the digit limits over an 8-, 16-, 32- or 64-bit digit type (with twice the base representable in it, and the base at most 2^32), for native unsigned digits with any wider unsigned type as their double-precision type, and for any digit container offering the vector interface, arithmetic, comparison, canonical form and digit editing are exactly as for the shipped types. The limits reported for a base are 0 and base-1 (for the shipped double-precision digits, the largest product of two digits and room above it: base squared less 1), at compile time and at run time, and all digits of results respect them.",
 ["configurations", "programs", "inputs"], "bases 2..2^32 chosen by the seed per run (programs are generated and compiled), digit storage widths, double-precision widths, allocators and containers",
 "Only base 256 over 16 bits with std::vector is ever instantiated by a test, for halving and doubling.",
 [I+"bn_limits.h", I+"impl/bn_limits_impl.h", I+"bn_int_type.h", "tests/compress_test.cpp", TI],
 [("limits_t parameterisation of every magnitude routine", I+"bn_limits.h")],
 [], ["Bignum<BNLimitsType<...>, container>"])
prop("C23", "Operations are reentrant and free of hidden shared state",
 "Operations on distinct numbers running in different threads, including concurrent reads of shared constant operands, and calls of the digit type, Fourier and assertion functions, are free of data races and give exactly the results of running them one after another. Repeating any operation on equal operands always gives the same digits, whatever ran before or in between.",
 ["schedules", "histories", "inputs"], "all concurrent workloads of public operations over thread-local targets and shared read-only operands",
 "All tests are single-threaded and none repeats an operation.",
 [TI, I+"impl/bn_multiplication_impl.h", I+"impl/fourier_impl.h", I+"impl/bn_division_impl.h"],
 [("absence of mutable static state in the magnitude and FFT routines", I+"impl/fourier_impl.h")],
 [], ["all const operations", "compound operators on distinct targets"])

prop("C24", "Results depend only on the operands, not on build or environment",
 "For every sequence of public calls, digits, signs, text, comparison verdicts and reported errors are the same whatever compiler (g++ or clang++), language dialect from C++11 on, optimisation level, instruction set, floating-point contraction or excess precision, char signedness or BN_DEBUG setting the library was built with, and whatever the rounding mode, denormal mode, errno, global locale or heap contents are when it is called (text: for a stream with the classic locale). The library computes the same results before main (in static initialisers), in main, in other threads, at thread exit, in atexit handlers and in static destructors.",
 ["configurations", "histories", "inputs"], "all call histories x builds (compiler, dialect, flags, macros) x floating-point, locale, errno and heap environments x program phases",
 "The tests run in one build, one environment and only inside main, and compare nothing.",
 [I+"impl/bn_multiplication_impl.h", I+"impl/fourier_impl.h", TI, I+"bn_limits.h", I+"bn_setup.h", "src/bn_type.cpp"],
 [("floating-point transform rounded to integers", I+"impl/bn_multiplication_impl.h"), ("absence of dynamically initialised static state", I+"impl/fourier_impl.h"), ("dialect and BN_DEBUG conditionals", I+"bn_except.h")],
 num_state, ["all operators", "digit editing", "operator<<", "operator[]"])
prop("C25", "Public headers work alone, in any order, in any number of files",
 "Every public header of include/bignum compiles as the first and only include of a file, in any order and combination with the others and with standard headers, in any number of files of one program, with g++ and clang++ in every dialect from C++11 to C++23, with and without BN_DEBUG. Programs using what those headers declare - shipped types, BNIntType, limits, raw routines, transforms, assertions, and types of their own made with the BN_DECLARE_/BN_DEFINE_ macros in one file and used in others - link with the library (static or shared, and whichever of those compilers, dialects and BN_DEBUG settings it was built with itself) and compute the documented results. The headers are valid ISO C++ and leave the names of the standard library free for types of the program's own; numbers work as elements and keys of standard algorithms and containers.",
 ["programs", "configurations"], "all programs of several files x include sets and orders x dialects x compilers x static or shared library x BN_DEBUG",
 "The tests are three single-file programs that include bignum.h alone in one dialect; base-8 and base-16 types are never linked.",
 [I+"bignum.h", I+"bn_type.h", I+"bn_limits.h", I+"bn_int_type.h", I+"bn_setup.h", I+"bn_addition.h", I+"bn_subtraction.h", I+"bn_multiplication.h", I+"bn_division.h", I+"bn_compare.h", I+"fourier.h", I+"bn_except.h", "src/bn_type.cpp", "src/bn_limits.cpp", "src/bn_int_type.cpp"],
 [("include structure and guards", I+"bignum.h"), ("extern template declarations with explicit instantiations in src", "src/bn_type.cpp"), ("BN_DECLARE_/BN_DEFINE_ macros", I+"bn_setup.h")],
 [], ["include directives", "link line", "program output"])
prop("C26", "Operations affect nothing but their operands",
 "No arithmetic, comparison, edit, digit access, copy or printing of a number, and no digit type or Fourier function, writes to standard output or error or to a standard stream (except the one message that reports a failed assertion or an invalid digit position), changes the formatting, buffer or state of a standard stream, or alters process-wide state: floating-point rounding and control modes, the global C++ and C locales, the rand() sequence, signal handlers and mask, environment, working directory, open files, terminate and new handlers. This holds in whatever state the process is, and also when the call ends with an exception, at whichever allocation it fails.",
 ["histories", "inputs", "configurations", "fault_sequences"], "all call histories x process states x failing allocations and reported errors",
 "The tests look at nothing but the output they print themselves, in one process state, and no call ever fails in them.",
 [TI, I+"impl/bn_multiplication_impl.h", I+"impl/fourier_impl.h", I+"impl/bn_division_impl.h", "src/bn_except.cpp"],
 [("error path of the compound operators", TI), ("floating-point transform", I+"impl/fourier_impl.h"), ("bn_runtime_assert", "src/bn_except.cpp")],
 num_state, ["process state around every call"])

prop("C27", "Time and memory stay proportional to the work",
 "Adding, subtracting, comparing, copying, printing and digit-wise building, reading or emptying take time proportional to the number of digits (dividing too, while the quotient is short); moving a number and accessing one digit take constant time. Multiplication takes n log n time in bases up to 256 and at most the product of the lengths elsewhere; a long quotient at most the square of its bits times the digits. No operation needs more temporary heap than a small constant per digit of its operands (640 bytes in a multiplication, 96 in any other), nor keeps more than 32 bytes per digit; what is not part of a result is freed on return.",
 ["inputs", "configurations"], "all operations x shapes of operands x types, growth measured over two sizes up to 160000 digits",
 "The tests use numbers of a few digits and measure nothing, so quadratic work or copies per digit go unnoticed.",
 [TI, I+"impl/bn_multiplication_impl.h", I+"impl/fourier_impl.h", I+"impl/bn_division_impl.h", I+"impl/bn_compare_impl.h", I+"impl/bn_addition_impl.h", I+"impl/bn_subtraction_impl.h"],
 [("linear carry and borrow loops", I+"impl/bn_addition_impl.h"), ("transform-based multiplication", I+"impl/bn_multiplication_impl.h"), ("moves instead of copies of digit containers", TI)],
 num_state, ["all operators", "digit editing", "operator<<"])

ids = [p["id"] for p in P]
assert len(set(ids)) == len(ids)
for p in P:
    assert len(p["title"]) <= 80, p["id"]
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
