// Small utilities shared by the workload: PRNG, plan text, counters.
#ifndef SIM_UTIL_H
#define SIM_UTIL_H
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <map>
#include <sstream>
#include <string>
#include <vector>

#include "rt.h"

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed + 0x1234567) { s = next() ^ (seed << 32); s = next(); }      // the state is hashed: neighbouring seeds must not give shifted copies of one stream
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    bool chance(unsigned pct) { return below(100) < pct; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};

// One operation of a plan. Arguments are resolved from `seed` against what exists when it runs.
struct Op {
    int thr = 0;
    std::string kind;
    uint64_t seed = 0;
};
struct Plan {
    std::string check;
    uint64_t seed = 0;
    std::map<std::string, int64_t> cfg;
    std::vector<Op> ops;
    std::vector<uint64_t> sw;   // explicit schedule: (step,tid) pairs; used when cfg["explicit"]
    int64_t get(const std::string& k, int64_t d = 0) const { auto i = cfg.find(k); return i == cfg.end() ? d : i->second; }
    std::string text() const;
    static bool parse(const std::string& t, Plan& p);
};

// named counters, shared with the parent process
void count(const char* name, uint64_t n = 1);
#define HIT(name) count(name)

std::string hexd(double d);                       // exact text of a double
std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
uint64_t fnv(const std::string& s, uint64_t h = 0xcbf29ce484222325ULL);

typedef void (*CheckFn)(const Plan&);
typedef void (*GenFn)(Plan&, Rng&);
struct CheckDef { const char* id; GenFn gen; CheckFn run; };
std::vector<CheckDef>& checks();
struct RegCheck { RegCheck(const char* id, GenFn g, CheckFn r) { checks().push_back({id, g, r}); } };

// Text describing the current operation, put in front of every violation message.
extern thread_local std::string g_where;
[[noreturn]] void fail(const char* kind, const char* f, ...) __attribute__((format(printf, 2, 3)));

#endif
