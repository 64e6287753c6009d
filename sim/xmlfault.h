// Faults of the XML library: its allocations fail, or a call of its writer fails. Depth 0 is a call made by the library under test.
#ifndef SIM_XMLFAULT_H
#define SIM_XMLFAULT_H
#include <cstdint>
namespace xmlfault {
struct State {
    int64_t allocLeft = -1, allocs = 0;      // n-th allocation fails
    bool allocSticky = false, allocFired = false;
    int64_t callLeft = -1, calls = 0;        // n-th call of the writer fails
    bool callSticky = false, callFired = false;
    int64_t reported = 0;                    // calls that told their caller that they failed
    const char* last = "";
};
State& state();
void install();
void reset();
}
#endif
