// See cfg_misc.cpp.  Arguments: 0 digit arithmetic (x, y), 1 digit streams (x, y),
// 2 convolution, 3 transform and back (lists of small integers), 4 powers of two
// (x), 5 assertion that holds, 6 that fails (level, number), 7 exception classes.
#ifndef MISC_H
#define MISC_H
#include <cstdint>
#include <string>
#include <vector>
std::string miscCall(unsigned which, const std::vector<std::uint64_t>& args);
enum { MISC_KINDS = 8 };
#endif
