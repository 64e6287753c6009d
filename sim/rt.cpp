#include <setjmp.h>
// See rt.h. Compiled WITHOUT instrumentation, without C++ library containers.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "rt.h"

#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <link.h>
#include <linux/futex.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include <new>
#include "iofault.h"

#define LIKELY(x) __builtin_expect(!!(x), 1)
#define UNLIKELY(x) __builtin_expect(!!(x), 0)
#define TLS __thread __attribute__((tls_model("initial-exec")))
#define EXPORT extern "C" __attribute__((visibility("default")))
#define RPC ((uintptr_t)__builtin_return_address(0))

typedef uintptr_t uptr;
typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;

namespace simrt {

// ------------------------------------------------------------------------- constants
static const uptr ARENA = 0x300000000000ULL;
static const uptr ARENA_SZ = 2ULL << 30;
static const uptr SHADOW = 0x310000000000ULL;      // 1 byte per 8
static const uptr RACE = 0x320000000000ULL;        // 64 bytes per 8 (arena)
static const uptr RACE_DATA = 0x340000000000ULL;   // same, for .data/.bss of the executable
static const int MAXT = 8;

struct Result { char* p; size_t n; };
static Result g_res;
static u64 g_fuel, g_fuelLimit = ~0ULL;
static u8 g_fill = 0xCD;
static volatile bool g_conc;
static int g_nthr;
static Stats g_st;
static u64 g_evHash = 0xcbf29ce484222325ULL;

static TLS int t_mode;       // 0 harness, >0 system under test
static TLS int t_tid;
static TLS int64_t t_allocArm = -1;
static TLS bool t_allocSticky, t_allocFired;
static TLS int64_t t_allocCnt;

struct Frame { uptr pc; };
static TLS u32 t_depth;
static TLS uptr t_stack[512];

// ------------------------------------------------------------------------- reporting
static void raw_write(int fd, const char* s, size_t n) { syscall(SYS_write, fd, s, n); }

void set_result_buffer(char* p, size_t n) { g_res.p = p; g_res.n = n; }

static size_t esc(char* o, size_t n, const char* s) {
    size_t k = 0;
    for (; *s && k + 8 < n; ++s) {
        unsigned char c = *s;
        if (c == '"' || c == '\\') { o[k++] = '\\'; o[k++] = c; }
        else if (c < 0x20 || c >= 0x7f) k += snprintf(o + k, 8, "\\u%04x", c);
        else o[k++] = c;
    }
    o[k] = 0;
    return k;
}

static char* trace_str(char* b, size_t n) {
    size_t k = 0;
    u32 d = t_depth > 512 ? 512 : t_depth;
    int cnt = 0;
    for (u32 i = d; i > 0 && cnt < 14; --i, ++cnt)
        k += snprintf(b + k, n - k, "%s\"%lx\"", cnt ? "," : "", (unsigned long)t_stack[i - 1]);
    return b;
}

static bool g_reported;
static char g_traceFile[512];
void set_trace_file(const char* p) { snprintf(g_traceFile, sizeof g_traceFile, "%s", p); }
static void dump_trace() {
    if (!g_traceFile[0]) return;
    FILE* f = fopen(g_traceFile, "w");
    if (!f) return;
    const uint64_t* t;
    size_t n = sched_trace(&t);
    for (size_t i = 0; i < n; ++i) fprintf(f, "sw %lu %lu\n", (unsigned long)t[2 * i], (unsigned long)t[2 * i + 1]);
    fclose(f);
}
static void put_stats(char* b, size_t n);

[[noreturn]] static void report(const char* status, const char* kind, const char* msg, uptr pc1, uptr pc2) {
    if (g_reported) _exit(99);
    g_reported = true;
    t_mode = 0;
    static char m[8192], tr[2048], st[512];
    esc(m, sizeof m, msg);
    tr[0] = 0;
    trace_str(tr, sizeof tr);
    put_stats(st, sizeof st);
    dump_trace();
    if (g_res.p)
        snprintf(g_res.p, g_res.n, "{\"status\":\"%s\",\"kind\":\"%s\",\"msg\":\"%s\",\"pcs\":[\"%lx\",\"%lx\"],\"stack\":[%s],%s}",
                 status, kind, m, (unsigned long)pc1, (unsigned long)pc2, tr, st);
    else
        fprintf(stderr, "%s %s %s pc=%lx\n", status, kind, msg, (unsigned long)pc1);
    _exit(0);
}

static void put_stats(char* b, size_t n) {
    snprintf(b, n, "\"steps\":%lu,\"accesses\":%lu,\"switches\":%lu,\"blocked\":%lu,\"locks\":%lu,\"allocs\":%lu,\"sched\":\"%016lx\",\"ev\":\"%016lx\",\"simns\":%lu,\"io_write_faults\":%lu,\"io_read_faults\":%lu,\"io_close_faults\":%lu,\"io_open_faults\":%lu",
             (unsigned long)g_st.steps, (unsigned long)g_fuel, (unsigned long)g_st.switches, (unsigned long)g_st.blocked,
             (unsigned long)g_st.lockOps, (unsigned long)g_st.allocs, (unsigned long)g_st.schedHash, (unsigned long)g_evHash, (unsigned long)g_st.simNs,
             (unsigned long)iofault::state().firedWrite, (unsigned long)iofault::state().firedRead, (unsigned long)iofault::state().firedClose,
             (unsigned long)iofault::state().firedOpen);
}

void violation(const char* kind, const char* fmt, ...) {
    static char buf[8192];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    report("violation", kind, buf, 0, 0);
}
void finish_ok(const char* json) {
    static char st[512];
    t_mode = 0;
    put_stats(st, sizeof st);
    dump_trace();
    if (g_res.p) snprintf(g_res.p, g_res.n, "{\"status\":\"ok\",%s%s%s}", st, *json ? "," : "", json);
    else printf("{\"status\":\"ok\",%s%s%s}\n", st, *json ? "," : "", json), fflush(stdout);
    _exit(0);
}
void finish_error(const char* what) { report("error", "harness", what, 0, 0); }

// ------------------------------------------------------------------------- heap
struct Hdr { u32 total, size; u64 serial; u32 state, flags; u64 user; };  // 32 bytes
static const u32 LIVE = 0x11fe11fe, FREED = 0xdeaddead;
enum { F_SUT = 1, F_MARK = 2 };
static uptr g_bump, g_base, g_gap;    // blocks below g_base were allocated before the run: never recycled
static uptr g_down;                     // scattered heap: blocks are also taken downwards from here
static u64 g_scatter;
static u64 g_serial, g_breakSerial;   // debugging aid: SIM_BREAK_ALLOC=<serial> traps at that allocation
static bool g_heapInit;
static const int NCLS = 128;
struct FL { Hdr *head, *tail; u32 n; };
static FL g_free[NCLS];
static volatile int g_heapLock;

static inline u8* shad(uptr a) { return (u8*)(SHADOW + ((a - ARENA) >> 3)); }
static inline bool inArena(uptr a) { return a - ARENA < ARENA_SZ; }

static void map_fixed(uptr a, size_t sz) {
    void* r = mmap((void*)a, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (r != (void*)a) { const char m[] = "sim: cannot map arena\n"; raw_write(2, m, sizeof m); _exit(97); }
}
static void heap_init() {
    if (g_heapInit) return;
    g_heapInit = true;
    map_fixed(ARENA, ARENA_SZ);
    map_fixed(SHADOW, ARENA_SZ / 8);
    map_fixed(RACE, ARENA_SZ * 8);
    g_bump = ARENA + 4096;
}
static u32 cls_of(u32 total, u32* rounded) {
    if (total <= 1024) { *rounded = (total + 31) & ~31u; return *rounded / 32; }   // 1..32
    u32 sh = 31 - __builtin_clz(total - 1);           // 2^sh < total <= 2^(sh+1)
    u32 step = 1u << (sh - 2);
    *rounded = (total + step - 1) & ~(step - 1);
    u32 idx = (*rounded - (1u << sh)) / step;          // 1..4
    return 33 + (sh - 10) * 4 + idx;
}
static void race_clear(uptr a, size_t n);
static void race_access(uptr a, size_t n, bool w, uptr pc, bool isFree);

static void* heap_alloc(size_t size, size_t align, bool sut) {
    heap_init();
    if (size > (1u << 30)) return nullptr;
    while (__sync_lock_test_and_set(&g_heapLock, 1)) {}
    u32 total = 32 + (u32)((size + 15) & ~15ul) + 16 + (align > 16 ? (u32)align + 32 : 0), rt;
    u32 c = cls_of(total, &rt);
    Hdr* h = nullptr;
    FL& fl = g_free[c];
    if (fl.n > 64 || (fl.n && (u64)fl.n * rt > 262144)) {   // quarantine
        h = fl.head;
        fl.head = *(Hdr**)(h + 1);
        --fl.n;
    } else if (g_scatter && ((g_scatter = g_scatter * 6364136223846793005ULL + 1442695040888963407ULL) >> 63)) {
        g_down -= rt;
        h = (Hdr*)g_down;
        if (g_down < g_bump) { g_heapLock = 0; return nullptr; }
    } else {
        h = (Hdr*)g_bump;
        g_bump += rt;
        if (g_bump > ARENA + ARENA_SZ) { g_heapLock = 0; return nullptr; }
    }
    uptr user = (uptr)(h + 1);
    if (align > 16) {
        user = (user + 16 + align - 1) & ~(align - 1);
        memset(shad((uptr)h), 0xFA, rt >> 3);
        *(u64*)(user - 8) = (u64)(uptr)h;
        h->user = user;
    } else {
        h->user = user;
    }
    h->total = rt; h->size = (u32)size; h->serial = ++g_serial; if (UNLIKELY(g_serial == g_breakSerial)) __builtin_trap(); h->state = LIVE; h->flags = sut ? F_SUT : 0;
    u8* s = shad((uptr)h);
    u8* e = shad((uptr)h + rt);
    memset(s, 0xFA, e - s);
    memset(shad(user), 0, size >> 3);
    if (size & 7) *shad(user + (size & ~7ul)) = size & 7;
    __sync_lock_release(&g_heapLock);
    if (g_conc) race_clear(user, size);
    if (sut) { memset((void*)user, g_fill, size); ++g_st.allocs; }
    return (void*)user;
}
static Hdr* hdr_of(void* p) {
    u64 v = *(u64*)((uptr)p - 8);
    return v == (u64)(uptr)p ? (Hdr*)((uptr)p - 32) : (Hdr*)v;
}
static void heap_free(void* p, uptr pc) {
    if (!p) return;
    if (!inArena((uptr)p)) { report("violation", "bad-free", "free() of a pointer that is not a heap block", pc, 0); }
    if (((uptr)p & 15) || *shad((uptr)p - 8) != 0xFA) {
        report("violation", "double-free", *shad((uptr)p) == 0xFD ? "block released twice" : "free() of an invalid pointer", pc, 0);
    }
    Hdr* h = hdr_of(p);
    if (h->state != LIVE || h->user != (u64)(uptr)p) report("violation", "double-free", "block released twice or invalid pointer", pc, 0);
    if (g_conc && t_mode) race_access((uptr)p, h->size, true, pc, true);
    while (__sync_lock_test_and_set(&g_heapLock, 1)) {}
    h->state = FREED;
    u32 rt;
    // whole block poisoned; contents scrambled so that a stale read is visible
    memset(shad((uptr)h), 0xFD, h->total >> 3);
    if (h->flags & F_SUT) memset(p, 0xDD, h->size);
    if ((uptr)h < g_base) { __sync_lock_release(&g_heapLock); return; }
    u32 c = cls_of(h->total, &rt);
    FL& fl = g_free[c];
    *(Hdr**)(h + 1) = nullptr;
    if (fl.n) *(Hdr**)(fl.tail + 1) = h; else fl.head = h;
    fl.tail = h;
    ++fl.n;
    __sync_lock_release(&g_heapLock);
}
u64 alloc_serial() { return g_serial; }

// ------------------------------------------------------------------------- race detector
struct Slot { u32 clk; u8 tid, mask, w, used; u32 pc; u32 pad; };
static u32 g_vc[MAXT][MAXT];
static uptr g_dataLo, g_dataHi;
extern "C" char __data_start, _end;

static inline Slot* slots(uptr a) {
    if (inArena(a)) return (Slot*)(RACE + ((a - ARENA) >> 3) * 64);
    if (a >= g_dataLo && a < g_dataHi) return (Slot*)(RACE_DATA + ((a - g_dataLo) >> 3) * 64);
    return nullptr;
}
static void race_clear(uptr a, size_t n) {
    if (!n) return;
    uptr lo = a & ~7ul, hi = (a + n + 7) & ~7ul;
    memset((void*)(RACE + ((lo - ARENA) >> 3) * 64), 0, ((hi - lo) >> 3) * 64);
}
static void race_granule(uptr g, u8 mask, bool w, uptr pc, bool isFree) {
    Slot* s = slots(g);
    if (!s) return;
    int me = t_tid;
    Slot* mine = nullptr;
    Slot* empty = nullptr;
    Slot* victim = nullptr;
    for (int i = 0; i < 4; ++i) {
        if (!s[i].used) { if (!empty) empty = &s[i]; continue; }
        if (s[i].tid == me) {
            if (s[i].mask == mask && s[i].w == w) mine = &s[i];
            else if (!victim) victim = &s[i];
            continue;
        }
        bool hb = s[i].clk <= g_vc[me][s[i].tid];
        if ((s[i].mask & mask) && (w || s[i].w) && !hb) {
            static char b[256];
            snprintf(b, sizeof b, "data race: thread %d %s and thread %d %s the same %zu byte(s) with no ordering between them",
                     me, isFree ? "releases memory" : w ? "writes" : "reads", (int)s[i].tid, s[i].w ? "wrote" : "read", (size_t)__builtin_popcount(s[i].mask & mask));
            report("violation", "race", b, pc, s[i].pc);
        }
        if (hb) victim = &s[i];
    }
    Slot* d = mine ? mine : empty ? empty : victim ? victim : &s[(g >> 3) & 3];
    d->clk = g_vc[me][me]; d->tid = me; d->mask = mask; d->w = w; d->used = 1; d->pc = (u32)pc;
}
static void race_access(uptr a, size_t n, bool w, uptr pc, bool isFree) {
    uptr end = a + n;
    while (a < end) {
        uptr g = a & ~7ul;
        u32 off = a - g, len = (u32)(end - a < 8 - off ? end - a : 8 - off);
        race_granule(g, (u8)(((1u << len) - 1) << off), w, pc, isFree);
        a = g + 8;
    }
}

struct Sync { uptr addr; int owner; int count; u32 vc[MAXT]; bool rec; };
static const int NSYNC = 65536;
static Sync g_sync[NSYNC];
static Sync* sync_of(uptr a) {
    u32 h = (u32)((a * 0x9E3779B97F4A7C15ULL) >> 48);
    for (int i = 0; i < NSYNC; ++i) {
        Sync* s = &g_sync[(h + i) & (NSYNC - 1)];
        if (s->addr == a) return s;
        if (!s->addr) { s->addr = a; s->owner = -1; s->count = 0; return s; }
    }
    report("error", "harness", "sync table full", 0, 0);
}
static void hb_acquire(Sync* s) { if (g_conc) for (int i = 0; i < MAXT; ++i) if (s->vc[i] > g_vc[t_tid][i]) g_vc[t_tid][i] = s->vc[i]; }
static void hb_release(Sync* s) {
    if (!g_conc) return;
    for (int i = 0; i < MAXT; ++i) if (g_vc[t_tid][i] > s->vc[i]) s->vc[i] = g_vc[t_tid][i];
    ++g_vc[t_tid][t_tid];
}

// ------------------------------------------------------------------------- scheduler
struct Thr { volatile int baton; int state; uptr waitOn; pthread_t h; ThreadFn fn; void* arg; int prio; };
enum { RUNNABLE, BLOCKED, DONE };
static Thr g_t[MAXT];
static volatile int g_mainWake;
static volatile int g_exitGate;
static SchedCfg g_cfg;
static u64 g_rng;
static int64_t g_countdown;
static u64 g_pctPoints[64];
static u32 g_pctN, g_pctI;
static size_t g_explI;
static const size_t MAXTRACE = 200000;
static u64* g_trace;
static size_t g_traceN;
static int g_prioLow;

static u64 rnd() {
    u64 z = (g_rng += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
}
static void futex_wait(volatile int* a, int v) { while (*a == v) syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0); }
static void futex_wake(volatile int* a) { syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

static int64_t geo(u32 mean) {
    // geometric-like gap: uniform in [1, 2*mean)
    if (mean <= 1) return 1;
    return 1 + (int64_t)(rnd() % (2ull * mean - 1));
}
static void arm_countdown() {
    switch (g_cfg.mode) {
        case 1: g_countdown = geo(g_cfg.meanGap); break;
        case 2:
            while (g_pctI < g_pctN && g_pctPoints[g_pctI] <= g_st.steps) ++g_pctI;
            g_countdown = g_pctI < g_pctN ? (int64_t)(g_pctPoints[g_pctI] - g_st.steps) : INT64_MAX;
            break;
        case 3:
            while (g_explI < g_cfg.nExpl && g_cfg.expl[2 * g_explI] <= g_st.steps) ++g_explI;
            g_countdown = g_explI < g_cfg.nExpl ? (int64_t)(g_cfg.expl[2 * g_explI] - g_st.steps) : INT64_MAX;
            break;
        case 4: g_countdown = geo(g_cfg.meanGap); break;
        default: g_countdown = INT64_MAX;
    }
}
static void hand_over(int to, uptr pc) {
    int me = t_tid;
    ++g_st.switches;
    g_st.schedHash = (g_st.schedHash ^ ((u64)to << 48) ^ (pc >> 32 ? 1 : pc)) * 0x100000001b3ULL;
    g_evHash = (g_evHash ^ g_st.steps ^ ((u64)to << 56)) * 0x100000001b3ULL;
    if (g_traceN < MAXTRACE) { g_trace[2 * g_traceN] = g_st.steps; g_trace[2 * g_traceN + 1] = to; ++g_traceN; }
    g_t[me].baton = 0;
    g_t[to].baton = 1;
    futex_wake(&g_t[to].baton);
    if (g_t[me].state != DONE) futex_wait(&g_t[me].baton, 0);
}
static int pick(int exclude, bool forced) {
    int run[MAXT], n = 0;
    for (int i = 1; i <= g_nthr; ++i)
        if (g_t[i].state == RUNNABLE && i != exclude) run[n++] = i;
    if (!n) return -1;
    if (g_cfg.mode == 3) {
        // explicit schedule: entry recorded for this step, else lowest runnable id when forced
        for (size_t k = g_explI; k < g_cfg.nExpl && g_cfg.expl[2 * k] <= g_st.steps; ++k)
            if (g_cfg.expl[2 * k] == g_st.steps) {
                int t = (int)g_cfg.expl[2 * k + 1];
                if (t >= 1 && t <= g_nthr && t != exclude && g_t[t].state == RUNNABLE) return t;
            }
        return forced ? run[0] : -1;
    }
    if (g_cfg.mode == 2) {
        int b = run[0];
        for (int i = 1; i < n; ++i) if (g_t[run[i]].prio > g_t[b].prio) b = run[i];
        return b;
    }
    if (g_cfg.mode == 0) return run[0];
    return run[rnd() % n];
}
// voluntary preemption of the running thread
static void preempt(uptr pc) {
    int me = t_tid, to = -1;
    if (g_cfg.mode == 2) {
        g_t[me].prio = --g_prioLow;
        to = pick(0, false);
        if (to == me) to = -1;
    } else {
        to = pick(me, false);
    }
    if (g_cfg.mode == 3) { arm_countdown(); } else arm_countdown();
    if (to > 0) hand_over(to, pc);
}
static inline void step(uptr pc) {
    ++g_st.steps;
    if (UNLIKELY(--g_countdown <= 0)) preempt(pc);
}
static void sync_point(uptr pc) {
    if (!g_conc || !t_mode) return;
    ++g_st.steps;
    bool sw = --g_countdown <= 0;
    if (g_cfg.mode == 4 && (rnd() & 3) == 0) sw = true;
    if (sw) preempt(pc);
}
static void block_on(uptr addr, uptr pc) {
    int me = t_tid;
    g_t[me].state = BLOCKED;
    g_t[me].waitOn = addr;
    ++g_st.blocked;
    ++g_st.steps;
    int to = pick(me, true);
    if (to < 0) report("violation", "deadlock", "every thread waits for a lock: the operations under way can never finish", pc, 0);
    arm_countdown();
    hand_over(to, pc);
}
static void wake_all(uptr addr) {
    for (int i = 1; i <= g_nthr; ++i)
        if (g_t[i].state == BLOCKED && g_t[i].waitOn == addr) { g_t[i].state = RUNNABLE; g_t[i].waitOn = 0; }
}
static int g_arrived;
static bool barrier_release() {   // everybody still running is at the barrier
    int alive = 0;
    for (int i = 1; i <= g_nthr; ++i) if (g_t[i].state != DONE) ++alive;
    if (!alive || g_arrived < alive) return false;
    g_arrived = 0;
    for (int k = 1; k <= g_nthr; ++k) {
        u32 m = 0;
        for (int i = 1; i <= g_nthr; ++i) if (g_vc[i][k] > m) m = g_vc[i][k];
        for (int i = 1; i <= g_nthr; ++i) if (g_t[i].state != DONE) g_vc[i][k] = m;
    }
    for (int i = 1; i <= g_nthr; ++i) if (g_t[i].state != DONE) ++g_vc[i][i];
    wake_all((uptr)&g_arrived);
    return true;
}
void barrier() {
    if (!g_conc) return;
    ++g_arrived;
    if (!barrier_release()) block_on((uptr)&g_arrived, 0);
}
static void* trampoline(void* p) {
    int id = (int)(uptr)p;
    t_tid = id;
    t_mode = 0;
    futex_wait(&g_t[id].baton, 0);
    g_t[id].fn(g_t[id].arg);
    t_mode = 0;
    g_t[id].state = DONE;
    ++g_st.steps;
    barrier_release();
    int to = pick(id, true);
    if (to > 0) {
        arm_countdown();
        hand_over(to, 0);
    } else {
        bool blocked = false;
        for (int i = 1; i <= g_nthr; ++i) if (g_t[i].state == BLOCKED) blocked = true;
        if (blocked) report("violation", "deadlock", "a thread waits for a lock that nobody will release", 0, 0);
        g_mainWake = 1;
        futex_wake(&g_mainWake);
    }
    // thread-exit work (TLS destructors, frees) is done one thread at a time, in order
    for (int v; (v = g_exitGate) < id;) syscall(SYS_futex, &g_exitGate, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0);
    return nullptr;
}
void run_threads(int n, ThreadFn* fns, void** args, const SchedCfg& cfg) {
    if (n <= 0) return;
    int mode = t_mode;
    t_mode = 0;
    g_cfg = cfg;
    g_rng = cfg.seed;
    g_nthr = n;
    g_mainWake = 0;
    g_exitGate = 0;
    g_arrived = 0;
    g_explI = 0;
    g_prioLow = 0;
    memset(g_vc, 0, sizeof g_vc);
    for (int i = 0; i < NSYNC; ++i) memset(g_sync[i].vc, 0, sizeof g_sync[i].vc);
    if (!g_trace) g_trace = (u64*)mmap(nullptr, MAXTRACE * 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    for (int i = 1; i <= n; ++i) {
        for (int j = 0; j <= n; ++j) g_vc[i][j] = 0;
        g_vc[i][i] = 1;
        g_t[i].baton = 0; g_t[i].state = RUNNABLE; g_t[i].waitOn = 0; g_t[i].fn = fns[i - 1]; g_t[i].arg = args[i - 1];
        g_t[i].prio = 1000 + (int)(rnd() % 1000) * 8 + i;
    }
    if (cfg.mode == 2) {
        g_pctN = cfg.depth > 64 ? 64 : cfg.depth;
        for (u32 i = 0; i < g_pctN; ++i) g_pctPoints[i] = g_st.steps + 1 + rnd() % (cfg.estLen ? cfg.estLen : 1);
        for (u32 i = 0; i < g_pctN; ++i) for (u32 j = i + 1; j < g_pctN; ++j) if (g_pctPoints[j] < g_pctPoints[i]) { u64 x = g_pctPoints[i]; g_pctPoints[i] = g_pctPoints[j]; g_pctPoints[j] = x; }
        g_pctI = 0;
    }
    for (int i = 1; i <= n; ++i) {
        pthread_attr_t at;
        pthread_attr_init(&at);
        pthread_attr_setstacksize(&at, 1 << 20);
        if (pthread_create(&g_t[i].h, &at, trampoline, (void*)(uptr)i)) report("error", "harness", "pthread_create failed", 0, 0);
        pthread_attr_destroy(&at);
    }
    // shadow of a previous concurrent phase is stale: everything before happens-before now
    static bool used = false;
    if (used) { madvise((void*)RACE, ARENA_SZ * 8, MADV_DONTNEED); madvise((void*)RACE_DATA, (g_dataHi - g_dataLo) * 8, MADV_DONTNEED); }
    used = true;
    arm_countdown();
    g_conc = true;
    ++g_st.steps;
    int first = pick(0, true);
    if (g_traceN < MAXTRACE) { g_trace[2 * g_traceN] = g_st.steps; g_trace[2 * g_traceN + 1] = first; ++g_traceN; }
    arm_countdown();
    g_t[first].baton = 1;
    futex_wake(&g_t[first].baton);
    futex_wait(&g_mainWake, 0);
    g_conc = false;
    for (int i = 1; i <= n; ++i) {
        g_exitGate = i;
        syscall(SYS_futex, &g_exitGate, FUTEX_WAKE_PRIVATE, INT_MAX, nullptr, nullptr, 0);
        pthread_join(g_t[i].h, nullptr);
    }
    g_nthr = 0;
    t_mode = mode;
}
u64 step_now() { return ++g_st.steps; }
int self() { return t_tid; }
bool concurrent() { return g_conc; }
void yield_point() {
    if (!g_conc) return;
    ++g_st.steps;
    if (--g_countdown <= 0) preempt(0);
}
size_t sched_trace(const u64** out) { *out = g_trace; return g_traceN; }

// ------------------------------------------------------------------------- access hook
static __attribute__((noinline)) void bad_access(uptr a, size_t n, bool w, uptr pc) {
    u8 s = *shad(a);
    if (s < 8) s = *shad(a + n - 1);
    const char* what = s == 0xFD ? "use of released memory" : s == 0xFA || s < 8 ? "access outside of a heap block" : "access to unallocated heap memory";
    static char b[128];
    snprintf(b, sizeof b, "%s (%s of %zu bytes)", what, w ? "write" : "read", n);
    report("violation", s == 0xFD ? "use-after-free" : "heap-overflow", b, pc, 0);
}
static __attribute__((noinline)) void out_of_fuel(uptr pc) { report("violation", "no-progress", "operation does not finish within the step budget", pc, 0); }

#ifdef SIM_PCLOG   // debugging aid: the program counter of every access is written to /tmp/pclog
static u32* g_pclog;
static void pclog(uptr pc) {
    if (!g_pclog) { int fd = syscall(SYS_open, "/tmp/pclog", 01102, 0600); if (syscall(SYS_ftruncate, fd, 1 << 30)) {} g_pclog = (u32*)mmap(nullptr, 1 << 30, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); }
    if (g_fuel < (1 << 28)) g_pclog[g_fuel] = (u32)pc;
}
#else
static inline void pclog(uptr) {}
#endif
static inline void access(uptr a, size_t n, bool w, uptr pc) {
    if (!t_mode) return;
    pclog(pc);
    if (UNLIKELY(++g_fuel > g_fuelLimit)) out_of_fuel(pc);
    if (inArena(a)) {
        u8 s = *shad(a);
        if (UNLIKELY(s) && (s >= 8 || (a & 7) + n > s)) bad_access(a, n, w, pc);
        if (UNLIKELY(((a & 7) + n > 8))) { u8 e = *shad(a + n - 1); if (e && (e >= 8 || ((a + n - 1) & 7) >= e)) bad_access(a, n, w, pc); }
    }
    if (g_conc) { race_access(a, n, w, pc, false); step(pc); }
}
static void access_range(uptr a, size_t n, bool w, uptr pc) {
    if (!t_mode || !n) return;
    pclog(pc);
    g_fuel += n / 8 + 1;
    if (inArena(a)) {
        for (uptr x = a & ~7ul; x < a + n; x += 8) {
            u8 s = *shad(x);
            if (!s) continue;
            uptr last = a + n - 1 < x + 7 ? a + n - 1 : x + 7;
            if (s >= 8 || (last & 7) >= s) bad_access(x < a ? a : x, last - (x < a ? a : x) + 1, w, pc);
        }
    }
    if (g_conc) { race_access(a, n, w, pc, false); step(pc); }
}

void sut_push() { ++t_mode; }
void sut_pop() { --t_mode; }
int sut_depth() { return t_mode; }
void sut_restore(int d) { t_mode = d; }

void begin_run(u64 fuelLimit, unsigned char fill) {
    g_fuelLimit = fuelLimit;
    g_fuel = 0;
    g_fill = fill;
    // the addresses of a run do not depend on what the process allocated before
    heap_init();
    g_base = ARENA + (64ul << 20);
    if (g_bump > g_base) finish_error("too much memory allocated before the run");
    g_gap = g_bump;
    g_bump = g_base;
    memset(g_free, 0, sizeof g_free);
    g_serial = 1000000;
}
const Stats& stats() { g_st.accesses = g_fuel; return g_st; }
void hash_event(u64 v) { g_evHash = (g_evHash ^ v) * 0x100000001b3ULL; g_evHash ^= g_evHash >> 29; }
u64 event_hash() { return g_evHash; }

// ------------------------------------------------------------------------- alloc faults
void arm_alloc(int64_t nth, bool sticky) { t_allocArm = nth; t_allocSticky = sticky; t_allocFired = false; }
int64_t alloc_count() { return t_allocCnt; }
void alloc_count_reset() { t_allocCnt = 0; }
static size_t g_allocMax = ~(size_t)0;
static bool g_memoryRefused;
void heap_style(unsigned char fill, uint64_t scatter) { g_fill = fill; g_scatter = scatter; if (!g_down) g_down = ARENA + ARENA_SZ; }
void alloc_limit(size_t n) { g_allocMax = n; g_memoryRefused = false; }
bool memory_refused() { return g_memoryRefused; }
bool alloc_fault_fired() { return t_allocFired; }

static void* cxx_new(size_t n, size_t al, uptr pc, bool nothrow) {
    if (t_mode) {
        ++t_allocCnt;
        if (UNLIKELY(t_allocArm >= 0)) {
            if (t_allocArm == 0) {
                t_allocFired = true;
                if (!t_allocSticky) t_allocArm = -1;
                if (nothrow) return nullptr;
                int m = t_mode;
                (void)m;
                throw std::bad_alloc();
            }
            --t_allocArm;
        }
    }
    void* p = n > g_allocMax && t_mode ? nullptr : heap_alloc(n ? n : 1, al, t_mode > 0);
    if (!p) {
        g_memoryRefused = true;
        if (nothrow) return nullptr;
        throw std::bad_alloc();
    }
    return p;
}

// ------------------------------------------------------------------------- clock
static int64_t g_now = 1700000000LL * 1000000000LL;
static u64 g_clockReads;
void clock_set(int64_t ns) { g_now = ns; }
void clock_advance(int64_t ns) { g_now += ns; g_st.simNs += ns > 0 ? (u64)ns : 0; }
int64_t clock_now() { return g_now; }
u64 clock_reads() { return g_clockReads; }

// ------------------------------------------------------------------------- leaks
static void mark_range(uptr lo, uptr hi, uptr* wl, size_t& wn, size_t cap);
static Hdr** g_idx;
static size_t g_nidx;
static void mark_ptr(uptr v, uptr* wl, size_t& wn, size_t cap) {
    if (v < ARENA || v >= g_bump) return;
    size_t lo = 0, hi = g_nidx;
    while (lo + 1 < hi) { size_t m = (lo + hi) / 2; if ((uptr)g_idx[m] <= v) lo = m; else hi = m; }
    if (!g_nidx) return;
    Hdr* h = g_idx[lo];
    if (h->state != LIVE || (h->flags & F_MARK) || v < h->user || v > h->user + h->size) return;
    h->flags |= F_MARK;
    if (wn < cap) wl[wn++] = (uptr)h;
}
static void mark_range(uptr lo, uptr hi, uptr* wl, size_t& wn, size_t cap) {
    for (uptr a = (lo + 7) & ~7ul; a + 8 <= hi; a += 8) mark_ptr(*(uptr*)a, wl, wn, cap);
}
struct PhCtx { uptr* wl; size_t* wn; size_t cap; };
static int ph_cb(struct dl_phdr_info* i, size_t, void* p) {
    PhCtx* c = (PhCtx*)p;
    for (int k = 0; k < i->dlpi_phnum; ++k)
        if (i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_W)) {
            uptr lo = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr, hi = lo + i->dlpi_phdr[k].p_memsz;
            mark_range(lo, hi, c->wl, *c->wn, c->cap);
        } else if (i->dlpi_phdr[k].p_type == PT_TLS && i->dlpi_tls_data) {
            uptr lo = (uptr)i->dlpi_tls_data;
            mark_range(lo, lo + i->dlpi_phdr[k].p_memsz, c->wl, *c->wn, c->cap);
        }
    return 0;
}
size_t find_leaks(char* desc, size_t n, u64 minSerial) {
    size_t cap = 1 << 20;
    size_t bytes = cap * 16;
    uptr* mem = (uptr*)mmap(nullptr, bytes, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    g_idx = (Hdr**)mem;
    g_nidx = 0;
    for (uptr a = ARENA + 4096; a < g_bump && g_nidx < cap; a += ((Hdr*)a)->total) {
        if (a == g_gap) { a = g_base; if (a >= g_bump) break; }
        g_idx[g_nidx++] = (Hdr*)a; ((Hdr*)a)->flags &= ~F_MARK; }
    uptr* wl = mem + cap;
    size_t wn = 0;
    PhCtx c{wl, &wn, cap};
    // the lists of this runtime live in static data: hide them
    dl_iterate_phdr(ph_cb, &c);
    uptr sp = (uptr)__builtin_frame_address(0);
    pthread_attr_t at;
    void* sa; size_t ss;
    uptr fs;
    asm("mov %%fs:0x10, %0" : "=r"(fs));
    pthread_getattr_np((pthread_t)fs, &at);
    pthread_attr_getstack(&at, &sa, &ss);
    pthread_attr_destroy(&at);
    jmp_buf regs;
    setjmp(regs);
    mark_range((uptr)&regs, (uptr)&regs + sizeof regs, wl, wn, cap);
    mark_range(sp, (uptr)sa + ss, wl, wn, cap);
    mark_range(fs - 4096, fs + 0x900, wl, wn, cap);
    while (wn) { Hdr* h = (Hdr*)wl[--wn]; mark_range(h->user, h->user + h->size, wl, wn, cap); }
    size_t leaks = 0;
    for (size_t i = 0; i < g_nidx; ++i) {
        Hdr* h = g_idx[i];
        if (h->state == LIVE && (h->flags & F_SUT) && !(h->flags & F_MARK) && h->serial > minSerial) {
            if (!leaks) snprintf(desc, n, "first leaked block: %u bytes, allocation #%lu", h->size, (unsigned long)h->serial);
            ++leaks;
        }
    }
    munmap(mem, bytes);
    return leaks;
}

// identifiers of threads are printed and hashed by the system under test: the real ones are addresses
}  // namespace simrt
EXPORT pthread_t pthread_self() { return (pthread_t)(0x7000000000ul + 0x1000 * (unsigned)simrt::t_tid); }
namespace simrt {

// ------------------------------------------------------------------------- signals
static char g_assertMsg[1024];
static void on_signal(int sig, siginfo_t* si, void*) {
    if (g_reported) _exit(99);
    static char b[1400];
    const char* n = sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "SIGABRT" : sig == SIGFPE ? "SIGFPE" : sig == SIGILL ? "SIGILL" : "SIGBUS";
    snprintf(b, sizeof b, "process crashes with %s%s%s", n, g_assertMsg[0] ? ": " : "", g_assertMsg);
    (void)si;
    // a crash of the harness itself (mode 0) is reported as an error unless it aborts inside the SUT
    report(t_mode ? "violation" : "error", g_assertMsg[0] ? "assert" : "crash", b, 0, 0);
}
static char g_altstack[65536];
void init_process() {
    heap_init();
    if (const char* e = getenv("SIM_BREAK_ALLOC")) g_breakSerial = strtoull(e, nullptr, 10);
    g_dataLo = ((uptr)&__data_start) & ~7ul;
    g_dataHi = ((uptr)&_end + 7) & ~7ul;
    if (g_dataHi > (1ULL << 32)) { const char m[] = "sim: link with -no-pie\n"; raw_write(2, m, sizeof m); _exit(97); }
    map_fixed(RACE_DATA, (g_dataHi - g_dataLo) * 8 + 4096);
    stack_t ss;
    ss.ss_sp = g_altstack; ss.ss_size = sizeof g_altstack; ss.ss_flags = 0;
    sigaltstack(&ss, nullptr);
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_signal;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    int sigs[] = {SIGSEGV, SIGABRT, SIGFPE, SIGILL, SIGBUS};
    for (int s : sigs) sigaction(s, &sa, nullptr);
}

}  // namespace simrt

using namespace simrt;

// ========================================================================= interposition
EXPORT void __assert_fail(const char* e, const char* f, unsigned l, const char* fn) noexcept {
    const char* b = strrchr(f, '/');
    (void)l; (void)fn;
    snprintf(g_assertMsg, sizeof g_assertMsg, "assertion '%s' failed in %s", e, b ? b + 1 : f);
    report("violation", "assert", g_assertMsg, RPC, 0);
}
namespace std {
[[noreturn]] __attribute__((visibility("default"))) void __glibcxx_assert_fail(const char* f, int, const char* fn, const char* c) noexcept {
    (void)f;
    snprintf(g_assertMsg, sizeof g_assertMsg, "library precondition '%s' broken in %s", c ? c : "?", fn ? fn : "?");
    report("violation", "assert", g_assertMsg, RPC, 0);
}
}

// ---- malloc family
EXPORT void* malloc(size_t n) { void* p = heap_alloc(n, 16, false); if (p && t_mode) { Hdr* h = hdr_of(p); h->flags |= F_SUT; } return p; }
EXPORT void free(void* p) { heap_free(p, RPC); }
EXPORT void* calloc(size_t a, size_t b) {
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) return nullptr;
    void* p = malloc(n);
    if (p) memset(p, 0, n);
    return p;
}
EXPORT void* realloc(void* p, size_t n) {
    if (!p) return malloc(n);
    if (!n) { free(p); return nullptr; }
    void* q = malloc(n);
    if (!q) return nullptr;
    Hdr* h = hdr_of(p);
    memcpy(q, p, h->size < n ? h->size : n);
    heap_free(p, RPC);
    return q;
}
EXPORT void* memalign(size_t al, size_t n) { return heap_alloc(n, al, false); }
EXPORT void* aligned_alloc(size_t al, size_t n) { return heap_alloc(n, al, false); }
EXPORT int posix_memalign(void** o, size_t al, size_t n) { *o = heap_alloc(n, al, false); return *o ? 0 : ENOMEM; }
EXPORT void* valloc(size_t n) { return heap_alloc(n, 4096, false); }
EXPORT void* pvalloc(size_t n) { return heap_alloc((n + 4095) & ~4095ul, 4096, false); }
EXPORT size_t malloc_usable_size(void* p) { return p ? hdr_of(p)->size : 0; }

void* operator new(size_t n) { return cxx_new(n, 16, RPC, false); }
void* operator new[](size_t n) { return cxx_new(n, 16, RPC, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return cxx_new(n, 16, RPC, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return cxx_new(n, 16, RPC, true); }
void operator delete(void* p) noexcept { heap_free(p, RPC); }
void operator delete[](void* p) noexcept { heap_free(p, RPC); }
void operator delete(void* p, size_t) noexcept { heap_free(p, RPC); }
void operator delete[](void* p, size_t) noexcept { heap_free(p, RPC); }
void operator delete(void* p, const std::nothrow_t&) noexcept { heap_free(p, RPC); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { heap_free(p, RPC); }

// ---- locks
static int do_lock(uptr a, bool rec, uptr pc, bool tryOnly) {
    ++g_st.lockOps;
    sync_point(pc);
    Sync* s = sync_of(a);
    int me = t_tid;
    for (;;) {
        if (s->owner < 0 || s->count == 0) { s->owner = me; s->count = 1; break; }
        if (s->owner == me) {
            if (rec) { ++s->count; break; }
            if (tryOnly) return EBUSY;
            report("violation", "deadlock", "a thread locks again a lock it already holds: the operation can never finish", pc, 0);
        }
        if (tryOnly) return EBUSY;
        if (!g_conc) report("violation", "deadlock", "lock held by a finished thread", pc, 0);
        block_on(a, pc);
    }
    hb_acquire(s);
    return 0;
}
static int do_unlock(uptr a, uptr pc) {
    Sync* s = sync_of(a);
    if (s->count > 0 && --s->count == 0) {
        hb_release(s);
        s->owner = -1;
        if (g_conc) wake_all(a);
    }
    sync_point(pc);
    return 0;
}
static bool is_rec(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE; }
EXPORT int pthread_mutex_lock(pthread_mutex_t* m) noexcept { return do_lock((uptr)m, is_rec(m), RPC, false); }
EXPORT int pthread_mutex_trylock(pthread_mutex_t* m) noexcept { return do_lock((uptr)m, is_rec(m), RPC, true); }
EXPORT int pthread_mutex_unlock(pthread_mutex_t* m) noexcept { return do_unlock((uptr)m, RPC); }
EXPORT int pthread_mutex_destroy(pthread_mutex_t* m) noexcept { Sync* s = sync_of((uptr)m); s->owner = -1; s->count = 0; return 0; }
// condition variables
static int cond_wait(uptr c, uptr m, uptr pc, bool timed) {
    Sync* s = sync_of(m);
    int held = s->count;
    hb_release(s);
    s->count = 0; s->owner = -1;
    wake_all(m);
    int rc = 0;
    if (!g_conc) { if (!timed) report("violation", "deadlock", "a single thread waits for a condition nobody will signal", pc, 0); rc = ETIMEDOUT; }
    else {
        bool other = false;
        for (int i = 1; i <= g_nthr; ++i) if (i != t_tid && g_t[i].state == RUNNABLE) other = true;
        if (timed && !other) rc = ETIMEDOUT; else block_on(c, pc);
    }
    do_lock(m, false, pc, false);
    s->count = held;
    return rc;
}
EXPORT int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cond_wait((uptr)c, (uptr)m, RPC, false); }
EXPORT int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec*) { return cond_wait((uptr)c, (uptr)m, RPC, true); }
EXPORT int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec*) { return cond_wait((uptr)c, (uptr)m, RPC, true); }
EXPORT int pthread_cond_broadcast(pthread_cond_t* c) noexcept { if (g_conc) wake_all((uptr)c); sync_point(RPC); return 0; }
EXPORT int pthread_cond_signal(pthread_cond_t* c) noexcept {
    if (g_conc) {
        int w[MAXT], n = 0;
        for (int i = 1; i <= g_nthr; ++i) if (g_t[i].state == BLOCKED && g_t[i].waitOn == (uptr)c) w[n++] = i;
        if (n) { int i = w[(g_st.steps * 0x9E3779B97F4A7C15ULL >> 33) % n]; g_t[i].state = RUNNABLE; g_t[i].waitOn = 0; }
    }
    sync_point(RPC);
    return 0;
}
// reader/writer locks are treated as exclusive recursive locks (conservative for deadlocks between readers: recursive)
EXPORT int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept { return do_lock((uptr)m, true, RPC, false); }
EXPORT int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept { return do_lock((uptr)m, true, RPC, false); }
EXPORT int pthread_rwlock_unlock(pthread_rwlock_t* m) noexcept { return do_unlock((uptr)m, RPC); }

static int do_once(volatile int* st, void (*fn)(), uptr pc) {
    sync_point(pc);
    Sync* s = sync_of((uptr)st);
    for (;;) {
        if (*st == 2) { hb_acquire(s); return 0; }
        if (*st == 0) {
            *st = 1;
            s->owner = t_tid;
            try { fn(); } catch (...) { *st = 0; if (g_conc) wake_all((uptr)st); throw; }
            *st = 2;
            hb_release(s);
            if (g_conc) wake_all((uptr)st);
            return 0;
        }
        if (!g_conc || s->owner == t_tid) report("violation", "deadlock", "recursive call_once", pc, 0);
        block_on((uptr)st, pc);
    }
}
EXPORT int pthread_once(pthread_once_t* o, void (*fn)()) { return do_once((volatile int*)o, fn, RPC); }

static inline void at_rel(uptr a, int mo, bool rmw);
EXPORT int __cxa_guard_acquire(u64* g) {
    ++g_st.guards;
    sync_point(RPC);
    Sync* s = sync_of((uptr)g);
    for (;;) {
        if (*(u8*)g) { hb_acquire(s); return 0; }
        if (!s->count) { s->count = 1; s->owner = t_tid; return 1; }
        if (!g_conc || s->owner == t_tid) report("violation", "deadlock", "recursive initialisation of a static object", RPC, 0);
        block_on((uptr)g, RPC);
    }
}
EXPORT void __cxa_guard_release(u64* g) {
    Sync* s = sync_of((uptr)g);
    *(u8*)g = 1;
    s->count = 0; s->owner = -1;
    hb_release(s);
    at_rel((uptr)g, 3, true);   // the inlined fast path reads the guard with an acquire load
    if (g_conc) wake_all((uptr)g);
    sync_point(RPC);
}
EXPORT void __cxa_guard_abort(u64* g) {
    Sync* s = sync_of((uptr)g);
    s->count = 0; s->owner = -1;
    if (g_conc) wake_all((uptr)g);
}

// ---- clock
static int64_t tick() { ++g_clockReads; g_now += 1000; g_st.simNs += 1000; return g_now; }
EXPORT int clock_gettime(clockid_t, struct timespec* ts) noexcept { int64_t n = tick(); ts->tv_sec = n / 1000000000LL; ts->tv_nsec = n % 1000000000LL; return 0; }
EXPORT int gettimeofday(struct timeval* tv, void*) noexcept { int64_t n = tick(); tv->tv_sec = n / 1000000000LL; tv->tv_usec = (n % 1000000000LL) / 1000; return 0; }
EXPORT time_t time(time_t* t) noexcept { int64_t n = tick() / 1000000000LL; if (t) *t = n; return n; }

// ---- red-black tree internals of libstdc++ (in the shared library, hence not instrumented)
struct RbBase { int color; RbBase *parent, *left, *right; };
EXPORT void __real__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(bool, RbBase*, RbBase*, RbBase&);
EXPORT void __wrap__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(bool l, RbBase* x, RbBase* p, RbBase& h) {
    uptr pc = RPC;
    access((uptr)x, 32, true, pc);
    access((uptr)&p->left, 16, true, pc);
    access((uptr)&h.parent, 8, true, pc);
    __real__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(l, x, p, h);
}
EXPORT RbBase* __real__ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(RbBase*, RbBase&);
EXPORT RbBase* __wrap__ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(RbBase* z, RbBase& h) {
    uptr pc = RPC;
    access((uptr)z, 32, true, pc);
    access((uptr)&h.parent, 24, true, pc);
    if (z->parent && z->parent != &h) access((uptr)&z->parent->left, 16, true, pc);
    return __real__ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(z, h);
}
#define RBINC(NAME, R)                                    \
    EXPORT R* __real_##NAME(R*);                          \
    EXPORT R* __wrap_##NAME(R* x) {                       \
        access((uptr)x + 8, 24, false, RPC);              \
        return __real_##NAME(x);                          \
    }
RBINC(_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base, RbBase)
RBINC(_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base, const RbBase)
RBINC(_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base, RbBase)
RBINC(_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base, const RbBase)

// ---- tsan callbacks
EXPORT void __tsan_init() {}
EXPORT void __tsan_func_entry(void* pc) { u32 d = t_depth++; if (LIKELY(d < 512)) t_stack[d] = (uptr)pc; }
EXPORT void __tsan_func_exit() { if (t_depth) --t_depth; }
EXPORT void __tsan_ignore_thread_begin() {}
EXPORT void __tsan_ignore_thread_end() {}
#define RW(N)                                                                                    \
    EXPORT void __tsan_read##N(void* a) { access((uptr)a, N, false, RPC); }                      \
    EXPORT void __tsan_write##N(void* a) { access((uptr)a, N, true, RPC); }                      \
    EXPORT void __tsan_unaligned_read##N(void* a) { access((uptr)a, N, false, RPC); }            \
    EXPORT void __tsan_unaligned_write##N(void* a) { access((uptr)a, N, true, RPC); }            \
    EXPORT void __tsan_read_write##N(void* a) { access((uptr)a, N, true, RPC); }                 \
    EXPORT void __tsan_unaligned_read_write##N(void* a) { access((uptr)a, N, true, RPC); }       \
    EXPORT void __tsan_volatile_read##N(void* a) { access((uptr)a, N, false, RPC); }             \
    EXPORT void __tsan_volatile_write##N(void* a) { access((uptr)a, N, true, RPC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
EXPORT void __tsan_vptr_update(void** vp, void* v) { if (!simrt::inArena((uptr)vp) || *vp != v) access((uptr)vp, 8, true, RPC); }
EXPORT void __tsan_vptr_read(void** vp) { access((uptr)vp, 8, false, RPC); }
EXPORT void __tsan_read_range(void* a, unsigned long n) { access_range((uptr)a, n, false, RPC); }
EXPORT void __tsan_write_range(void* a, unsigned long n) { access_range((uptr)a, n, true, RPC); }
EXPORT void* __tsan_memcpy(void* d, const void* s, size_t n) { access_range((uptr)s, n, false, RPC); access_range((uptr)d, n, true, RPC); return memcpy(d, s, n); }
EXPORT void* __tsan_memmove(void* d, const void* s, size_t n) { access_range((uptr)s, n, false, RPC); access_range((uptr)d, n, true, RPC); return memmove(d, s, n); }
EXPORT void* __tsan_memset(void* d, int c, size_t n) { access_range((uptr)d, n, true, RPC); return memset(d, c, n); }

// memory orders: 0 relaxed, 1 consume, 2 acquire, 3 release, 4 acq_rel, 5 seq_cst
static inline void at_acq(uptr a, int mo) { if (g_conc && (mo == 1 || mo == 2 || mo >= 4)) hb_acquire(sync_of(a | 1ULL << 63)); }
static inline void at_rel(uptr a, int mo, bool rmw) {
    if (!g_conc) return;
    if (mo >= 3) hb_release(sync_of(a | 1ULL << 63));
    else if (!rmw) memset(sync_of(a | 1ULL << 63)->vc, 0, sizeof(Sync::vc));   // a relaxed store ends the release sequence
}
static inline void at_pre(uptr a, size_t n, uptr pc) {
    if (!t_mode) return;
    if (inArena(a)) { u8 s = *shad(a); if (s >= 8) bad_access(a, n, true, pc); }
    sync_point(pc);
}
#define ATOMIC(N, T)                                                                                                        \
    EXPORT T __tsan_atomic##N##_load(const volatile T* a, int mo) { at_pre((uptr)a, sizeof(T), RPC); at_acq((uptr)a, mo); return *a; } \
    EXPORT void __tsan_atomic##N##_store(volatile T* a, T v, int mo) { at_pre((uptr)a, sizeof(T), RPC); at_rel((uptr)a, mo, false); *a = v; } \
    RMW(N, T, exchange, v) RMW(N, T, fetch_add, o + v) RMW(N, T, fetch_sub, o - v) RMW(N, T, fetch_and, o & v) RMW(N, T, fetch_or, o | v) RMW(N, T, fetch_xor, o ^ v) \
    static inline bool cas_##N(volatile T* a, T* c, T v, int mo, int fmo, uptr pc) {                                        \
        at_pre((uptr)a, sizeof(T), pc);                                                                                     \
        if (*a == *c) { at_acq((uptr)a, mo); at_rel((uptr)a, mo, true); *a = v; return true; }                              \
        at_acq((uptr)a, fmo); *c = *a; return false;                                                                        \
    }                                                                                                                       \
    EXPORT int __tsan_atomic##N##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) { return cas_##N(a, c, v, mo, fmo, RPC); } \
    EXPORT int __tsan_atomic##N##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) { return cas_##N(a, c, v, mo, fmo, RPC); }   \
    EXPORT T __tsan_atomic##N##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) { cas_##N(a, &c, v, mo, fmo, RPC); return c; }
#define RMW(N, T, NAME, EXPR) \
    EXPORT T __tsan_atomic##N##_##NAME(volatile T* a, T v, int mo) { at_pre((uptr)a, sizeof(T), RPC); at_acq((uptr)a, mo); at_rel((uptr)a, mo, true); T o = *a; *a = (T)(EXPR); return o; }
ATOMIC(8, u8) ATOMIC(16, uint16_t) ATOMIC(32, u32) ATOMIC(64, u64)
EXPORT void __tsan_atomic_thread_fence(int) {}
EXPORT void __tsan_atomic_signal_fence(int) {}

// ========================================================================= file faults
namespace iofault {
static State g_io;
static bool g_fds[1024];
State& state() { return g_io; }
void reset() { g_io = State(); }
}
using iofault::g_io;
static FILE* (*real_fopen64)(const char*, const char*);
static int (*real_fclose)(FILE*);
namespace iofault {
struct SimFile { char path[120]; int fd; };     // the content is in an anonymous memory file
static SimFile g_files[64];
static SimFile* lookup(const char* p) {
    for (auto& f : g_files) if (f.path[0] && !strcmp(f.path, p)) return &f;
    return nullptr;
}
static bool simulated(const char* p) { return p && !strncmp(p, "/simfs/", 7); }
static SimFile* create(const char* p) {
    for (auto& f : g_files) if (!f.path[0]) {
        snprintf(f.path, sizeof f.path, "%s", p);
        f.fd = (int)syscall(SYS_memfd_create, "simfs", 0);
        if (f.fd < 0) simrt::finish_error("memfd_create failed");
        return &f;
    }
    simrt::finish_error("too many simulated files");
}
bool exists(const std::string& p) { return lookup(p.c_str()) != nullptr; }
void put(const std::string& p, const std::string& d) {
    SimFile* f = lookup(p.c_str());
    if (!f) f = create(p.c_str());
    if (syscall(SYS_ftruncate, f->fd, 0L) || syscall(SYS_pwrite64, f->fd, d.data(), d.size(), 0L) != (long)d.size()) simrt::finish_error("memory file");
}
std::string get(const std::string& p) {
    std::string s;
    SimFile* f = lookup(p.c_str());
    if (!f) return s;
    char b[4096];
    for (long o = 0, n; (n = syscall(SYS_pread64, f->fd, b, sizeof b, o)) > 0; o += n) s.append(b, n);
    return s;
}
void remove(const std::string& p) {
    if (SimFile* f = lookup(p.c_str())) { syscall(SYS_close, f->fd); f->path[0] = 0; }
}
}
static FILE* do_fopen(const char* p, const char* m) {
    if (!real_fopen64) real_fopen64 = (FILE * (*)(const char*, const char*)) dlsym(RTLD_NEXT, "fopen64");
    if (!iofault::simulated(p)) return real_fopen64(p, m);
    ++g_io.opens;
    if (g_io.failOpen == (int64_t)g_io.opens) { ++g_io.firedOpen; errno = EMFILE; return nullptr; }
    iofault::SimFile* sf = iofault::lookup(p);
    if (!sf) {
        if (m[0] == 'r') { errno = ENOENT; return nullptr; }
        sf = iofault::create(p);
    }
    char q[64];
    snprintf(q, sizeof q, "/proc/self/fd/%d", sf->fd);
    FILE* f = real_fopen64(q, m);
    if (!f) simrt::finish_error("cannot open a memory file");
    if (fileno(f) < 1024) iofault::g_fds[fileno(f)] = true;
    return f;
}
EXPORT int statx(int dir, const char* p, int flags, unsigned mask, struct statx* st) {
    if (!iofault::simulated(p)) return (int)syscall(SYS_statx, dir, p, flags, mask, st);
    iofault::SimFile* sf = iofault::lookup(p);
    if (!sf) { errno = ENOENT; return -1; }
    return (int)syscall(SYS_statx, sf->fd, "", AT_EMPTY_PATH, mask, st);
}
EXPORT FILE* fopen64(const char* p, const char* m) { return do_fopen(p, m); }
EXPORT FILE* fopen(const char* p, const char* m) { return do_fopen(p, m); }
EXPORT int fclose(FILE* f) {
    if (!real_fclose) real_fclose = (int (*)(FILE*))dlsym(RTLD_NEXT, "fclose");
    int fd = fileno(f);
    bool mine = fd >= 0 && fd < 1024 && iofault::g_fds[fd];
    if (mine) iofault::g_fds[fd] = false;
    int r = real_fclose(f);
    if (mine) {
        ++g_io.closes;
        if (g_io.failClose == (int64_t)g_io.closes) { ++g_io.firedClose; errno = EIO; return EOF; }
    }
    return r;
}
static ssize_t do_write(int fd, const void* b, size_t n) {
    if (fd >= 0 && fd < 1024 && iofault::g_fds[fd]) {
        ++g_io.writes;
        if (g_io.writeBudget >= 0) {
            if ((int64_t)n > g_io.writeBudget) {
                size_t k = (size_t)g_io.writeBudget;
                g_io.writeBudget = 0;
                ++g_io.firedWrite;
                if (k) { ssize_t w = syscall(SYS_write, fd, b, k); if (w > 0) g_io.bytesOut += w; return w; }
                errno = g_io.writeErrno;
                return -1;
            }
            g_io.writeBudget -= n;
        }
        if (g_io.shortEvery && g_io.writes % g_io.shortEvery == 0 && n > 1) { n = n / 2; ++g_io.firedShort; }
        if (g_io.eintrEvery && g_io.writes % g_io.eintrEvery == 0) { ++g_io.firedEintr; errno = EINTR; return -1; }
        ssize_t w = syscall(SYS_write, fd, b, n);
        if (w > 0) g_io.bytesOut += w;
        return w;
    }
    return syscall(SYS_write, fd, b, n);
}
EXPORT ssize_t write(int fd, const void* b, size_t n) { return do_write(fd, b, n); }
EXPORT ssize_t writev(int fd, const struct iovec* v, int c) {
    if (fd >= 0 && fd < 1024 && iofault::g_fds[fd]) {
        ssize_t tot = 0;
        for (int i = 0; i < c; ++i) {
            if (!v[i].iov_len) continue;
            ssize_t w = do_write(fd, v[i].iov_base, v[i].iov_len);
            if (w < 0) return tot ? tot : -1;
            tot += w;
            if ((size_t)w < v[i].iov_len) break;
        }
        return tot;
    }
    return syscall(SYS_writev, fd, v, c);
}
EXPORT ssize_t read(int fd, void* b, size_t n) {
    if (fd >= 0 && fd < 1024 && iofault::g_fds[fd]) {
        ++g_io.reads;
        if (g_io.eintrEvery && g_io.reads % g_io.eintrEvery == 0) { ++g_io.firedEintr; errno = EINTR; return -1; }
        if (g_io.readBudget >= 0) {
            if (g_io.readBudget == 0) { ++g_io.firedRead; errno = EIO; return -1; }
            if ((int64_t)n > g_io.readBudget) n = (size_t)g_io.readBudget;
            ssize_t r = syscall(SYS_read, fd, b, n);
            if (r > 0) { g_io.readBudget -= r; g_io.bytesIn += r; }
            return r;
        }
        if (g_io.readChunk && n > g_io.readChunk) n = g_io.readChunk;
        ssize_t r = syscall(SYS_read, fd, b, n);
        if (r > 0) g_io.bytesIn += r;
        return r;
    }
    return syscall(SYS_read, fd, b, n);
}
