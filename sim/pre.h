// Included before every source. std::polar of an unknown (NaN) voltage gives NaN, as the code expects: not a violation.
#include <cmath>
#include <sstream>
#include <string>
#pragma push_macro("__glibcxx_assert")
#undef __glibcxx_assert
#define __glibcxx_assert(x)
#include <complex>
#pragma pop_macro("__glibcxx_assert")
