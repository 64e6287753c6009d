// Simulated storage: every path below /simfs/ names a file held in memory by the simulator. Faults apply to these files.
#ifndef SIM_IOFAULT_H
#define SIM_IOFAULT_H
#include <cstdint>
#include <string>
namespace iofault {
struct State {
    int64_t failOpen = -1, failClose = -1;   // n-th open/close fails
    int64_t writeBudget = -1;                 // bytes before the disk is full / fails
    int writeErrno = 28;
    int64_t readBudget = -1;                  // bytes before reads fail with EIO
    uint64_t shortEvery = 0, eintrEvery = 0, readChunk = 0;
    uint64_t opens = 0, closes = 0, writes = 0, reads = 0, bytesOut = 0, bytesIn = 0;
    uint64_t firedOpen = 0, firedClose = 0, firedWrite = 0, firedRead = 0, firedShort = 0, firedEintr = 0;
};
State& state();
void reset();                              // forgets faults and counters, keeps the files
bool exists(const std::string& path);
void put(const std::string& path, const std::string& data);
std::string get(const std::string& path);
void remove(const std::string& path);
}
#endif
