// Deterministic simulation runtime: scheduler, heap, race detector, clock, faults.
// The runtime itself is compiled without instrumentation; everything else (the code of
// /repo and the workload) is compiled with -fsanitize=thread and linked against this
// file instead of the real ThreadSanitizer runtime.
#ifndef SIM_RT_H
#define SIM_RT_H
#include <cstddef>
#include <cstdint>

namespace simrt {

// ---- mode -------------------------------------------------------------------------
// A thread is either in "harness" mode (mode 0: accesses are neither checked nor
// scheduling points) or in "system under test" mode.
void sut_push();
void sut_pop();
int sut_depth();
void sut_restore(int depth);
struct Sut {
    Sut() : d(sut_depth()) { sut_push(); }
    ~Sut() { sut_restore(d); }
    int d;
};
struct Harness {  // re-enter harness mode from a callback made by the system under test
    Harness() : d(sut_depth()) { sut_restore(0); }
    ~Harness() { sut_restore(d); }
    int d;
};

// ---- run control ------------------------------------------------------------------
struct SchedCfg {
    int mode;            // 0: switch only when blocked/finished; 1: geometric; 2: PCT; 3: explicit; 4: lock-biased
    uint64_t seed;
    uint32_t meanGap;    // mode 1: mean number of accesses between two preemptions
    uint32_t depth;      // mode 2: number of priority change points
    uint32_t estLen;     // mode 2: estimated number of steps
    const uint64_t* expl;  // mode 3: pairs (decision step, tid)
    size_t nExpl;
};
void init_process();                 // once, in the zygote
void begin_run(uint64_t fuelLimit, unsigned char fillByte);
void set_trace_file(const char* path);       // the switches made are written there at the end of the run
void set_result_buffer(char* p, size_t n);   // shared with the parent process
[[noreturn]] void violation(const char* kind, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void finish_ok(const char* json);
[[noreturn]] void finish_error(const char* what);   // the harness itself is at fault

// ---- threads ----------------------------------------------------------------------
typedef void (*ThreadFn)(void*);
// Runs n client threads under the scheduler and returns when all are finished.
void run_threads(int n, ThreadFn* fns, void** args, const SchedCfg& cfg);
int self();                    // 0 = main, 1..n = clients
void yield_point();            // explicit scheduling point (harness level: between operations)
bool concurrent();
void barrier();                // waits until every running client is there (or has finished); orders everything before it
uint64_t step_now();           // global step counter: a total order of events

// ---- faults -----------------------------------------------------------------------
void arm_alloc(int64_t nth, bool sticky);   // nth C++ allocation of the SUT in this thread fails; <0: disarm
int64_t alloc_count();                      // number of SUT allocations made by this thread since arm/reset
void alloc_count_reset();
bool alloc_fault_fired();
void alloc_limit(size_t n);                 // a single block of more than n bytes is refused
bool memory_refused();                      // a block was refused since alloc_limit

// content of fresh blocks; scatter != 0: the order of their addresses is random (no leak check in such runs)
void heap_style(unsigned char fill, uint64_t scatter);

// ---- clock ------------------------------------------------------------------------
void clock_set(int64_t ns);
void clock_advance(int64_t ns);
int64_t clock_now();
uint64_t clock_reads();

// ---- leaks ------------------------------------------------------------------------
// number of blocks allocated by the SUT (C++ operator new, or malloc while in SUT mode)
// that are not reachable from any root; also describes the first one.
size_t find_leaks(char* desc, size_t n, uint64_t minSerial);
uint64_t alloc_serial();

// ---- statistics -------------------------------------------------------------------
struct Stats {
    uint64_t accesses, steps, switches, blocked, lockOps, allocs, guards;
    uint64_t schedHash;
    uint64_t simNs;
};
const Stats& stats();
size_t sched_trace(const uint64_t** out);   // pairs (step,tid) of the switches actually made
void hash_event(uint64_t v);                // folded in the event-log hash
uint64_t event_hash();

}  // namespace simrt
#endif
