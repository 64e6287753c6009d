#include <locale>
#include <sstream>
// Driver: generates plans from seeds, runs one plan, or runs a batch of seeds in forked children.
#include <signal.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <cstdlib>
#include <fstream>
#include <unordered_set>

#include "util.h"

std::vector<CheckDef>& checks() { static std::vector<CheckDef> v; return v; }

std::string Plan::text() const {
    std::string s = "check " + check + "\nseed " + std::to_string(seed) + "\n";
    for (auto& c : cfg) s += "cfg " + c.first + "=" + std::to_string(c.second) + "\n";
    for (auto& o : ops) s += "op " + std::to_string(o.thr) + " " + o.kind + " " + std::to_string(o.seed) + "\n";
    for (size_t i = 0; i + 1 < sw.size(); i += 2) s += "sw " + std::to_string(sw[i]) + " " + std::to_string(sw[i + 1]) + "\n";
    return s;
}
bool Plan::parse(const std::string& t, Plan& p) {
    std::istringstream in(t);
    std::string line;
    while (std::getline(in, line)) {
        if (line.empty() || line[0] == '#') continue;
        std::istringstream l(line);
        std::string k;
        l >> k;
        if (k == "check") l >> p.check;
        else if (k == "seed") l >> p.seed;
        else if (k == "cfg") { std::string kv; l >> kv; size_t e = kv.find('='); if (e == std::string::npos) return false; p.cfg[kv.substr(0, e)] = atoll(kv.c_str() + e + 1); }
        else if (k == "op") { Op o; l >> o.thr >> o.kind >> o.seed; p.ops.push_back(o); }
        else if (k == "sw") { uint64_t a, b; l >> a >> b; p.sw.push_back(a); p.sw.push_back(b); }
        else return false;
    }
    return !p.check.empty();
}

struct Counter { char name[56]; uint64_t n; };
static const size_t NCNT = 1024, RES = 1 << 16;
static Counter* g_cnt;
static char* g_buf;
void count(const char* name, uint64_t n) {
    simrt::Harness h;
    if (!g_cnt) return;
    size_t i = fnv(name) % NCNT;
    for (size_t k = 0; k < NCNT; ++k, i = (i + 1) % NCNT) {
        if (!g_cnt[i].name[0]) snprintf(g_cnt[i].name, sizeof g_cnt[i].name, "%s", name);
        if (!strncmp(g_cnt[i].name, name, sizeof g_cnt[i].name - 1)) { g_cnt[i].n += n; return; }
    }
}
static const CheckDef* checkOf(const std::string& id) {
    for (auto& c : checks()) if (id == c.id) return &c;
    return nullptr;
}
static double wall() { timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t);  /* real clock */ return t.tv_sec + t.tv_nsec * 1e-9; }
static void genPlan(const CheckDef& c, uint64_t seed, Plan& p) {
    p.check = c.id;
    p.seed = seed;
    Rng r(seed ^ fnv(c.id));
    c.gen(p, r);
}
[[noreturn]] static void runPlan(const CheckDef& c, const Plan& p) {
    simrt::begin_run((uint64_t)p.get("fuel", 400000000), (unsigned char)(0xa5 + p.seed % 7));
    try { c.run(p); }
    catch (const std::exception& e) {
        if (!g_where.empty()) simrt::violation("query-failed", "%s: reading the network throws: %s", g_where.c_str(), e.what());
        simrt::finish_error((std::string("exception escaped the harness at '") + g_where + "': " + e.what()).c_str());
    }
    simrt::finish_ok("");
}
// result in g_buf
static void child(const CheckDef& c, const Plan* p, uint64_t seed) {
    g_buf[0] = 0;
    fflush(stdout);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); exit(3); }
    if (pid == 0) {
        alarm(60);
        simrt::set_result_buffer(g_buf, RES);
        if (p) runPlan(c, *p);
        Plan q;
        genPlan(c, seed, q);
        runPlan(c, q);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    if (WIFSIGNALED(st)) snprintf(g_buf, RES, "{\"status\":\"error\",\"kind\":\"killed\",\"msg\":\"child ended by signal %d\",\"pcs\":[\"0\",\"0\"],\"stack\":[]}", WTERMSIG(st));
    else if (!g_buf[0]) snprintf(g_buf, RES, "{\"status\":\"error\",\"kind\":\"no-result\",\"msg\":\"child exited with %d\",\"pcs\":[\"0\",\"0\"],\"stack\":[]}", WEXITSTATUS(st));
}
static uint64_t field(const char* name, int base) {
    std::string k = std::string("\"") + name + "\":";
    const char* p = strstr(g_buf, k.c_str());
    if (!p) return 0;
    p += k.size();
    if (*p == '"') ++p;
    return strtoull(p, nullptr, base);
}

int main(int argc, char** argv) {
    setvbuf(stdout, nullptr, _IOLBF, 0);
    {   // the facets of the standard library fill caches the first time they are used: every run starts with the same ones
        const std::ctype<char>& f = std::use_facet<std::ctype<char>>(std::locale::classic());
        for (int i = 0; i < 256; ++i) { (void)f.widen((char)i); (void)f.narrow((char)i, 0); }
        const char all[] = "0123456789";
        char out[sizeof all];
        f.widen(all, all + sizeof all, out);
        f.narrow(all, all + sizeof all, 0, out);
        std::stringstream warm("1 2.5 x");
        int i;
        double d;
        std::string w;
        warm >> i >> d >> w;
        warm.clear();
        warm << i << d << w << true;
    }
    simrt::init_process();
    char* m = (char*)mmap(nullptr, RES + NCNT * sizeof(Counter), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    g_buf = m;
    g_cnt = (Counter*)(m + RES);
    std::string mode = argc > 1 ? argv[1] : "";
    if (mode == "list") { for (auto& c : checks()) printf("%s\n", c.id); return 0; }
    if (mode == "gen" && argc >= 4) {
        const CheckDef* c = checkOf(argv[2]);
        if (!c) return 2;
        Plan p;
        genPlan(*c, strtoull(argv[3], nullptr, 10), p);
        printf("%s", p.text().c_str());
        return 0;
    }
    if (mode == "run" && argc >= 3) {   // run PLAN [TRACE]
        std::ifstream f(argv[2]);
        std::stringstream ss;
        ss << f.rdbuf();
        Plan p;
        if (!Plan::parse(ss.str(), p)) { fprintf(stderr, "bad plan\n"); return 2; }
        const CheckDef* c = checkOf(p.check);
        if (!c) { fprintf(stderr, "unknown check\n"); return 2; }
        if (argc >= 4) simrt::set_trace_file(argv[3]);
        child(*c, &p, 0);
        printf("%s\n", g_buf);
        return 0;
    }
    if (mode == "batch" && argc >= 6) {   // batch CHECK START COUNT SECONDS [HASHFILE]
        const CheckDef* c = checkOf(argv[2]);
        if (!c) return 2;
        uint64_t start = strtoull(argv[3], nullptr, 10), n = strtoull(argv[4], nullptr, 10);
        double budget = atof(argv[5]), t0 = wall();
        std::unordered_set<uint64_t> sched, ev;
        uint64_t runs = 0, ok = 0, bad = 0, err = 0, steps = 0, acc = 0, sw = 0, blocked = 0, simns = 0, multi = 0;
        uint64_t iow = 0, ior = 0, ioc = 0, ioo = 0;
        for (uint64_t i = 0; i < n && wall() - t0 < budget && bad < 40 && err < 3; ++i) {
            child(*c, nullptr, start + i);
            ++runs;
            steps += field("steps", 10); acc += field("accesses", 10); sw += field("switches", 10); blocked += field("blocked", 10); simns += field("simns", 10);
            iow += field("io_write_faults", 10); ior += field("io_read_faults", 10); ioc += field("io_close_faults", 10); ioo += field("io_open_faults", 10);
            if (field("switches", 10)) { ++multi; sched.insert(field("sched", 16)); }
            ev.insert(field("ev", 16));
            if (!strncmp(g_buf, "{\"status\":\"ok\"", 14)) { ++ok; if (ok <= 2) printf("O %llu %s\n", (unsigned long long)(start + i), g_buf); }
            else if (!strncmp(g_buf, "{\"status\":\"violation\"", 21)) { ++bad; printf("V %llu %s\n", (unsigned long long)(start + i), g_buf); }
            else { ++err; printf("E %llu %s\n", (unsigned long long)(start + i), g_buf); }
        }
        printf("S {\"runs\":%lu,\"ok\":%lu,\"violations\":%lu,\"errors\":%lu,\"seconds\":%.2f,\"steps\":%lu,\"accesses\":%lu,\"switches\":%lu,\"blocked\":%lu,\"simns\":%lu,\"runs_with_switches\":%lu,\"distinct_schedules\":%zu,\"distinct_histories\":%zu,\"faults\":{\"write\":%lu,\"read\":%lu,\"close\":%lu,\"open\":%lu},\"counters\":{",
               runs, ok, bad, err, wall() - t0, steps, acc, sw, blocked, simns, multi, sched.size(), ev.size(), iow, ior, ioc, ioo);
        bool first = true;
        for (size_t i = 0; i < NCNT; ++i) if (g_cnt[i].name[0]) { printf("%s\"%s\":%lu", first ? "" : ",", g_cnt[i].name, g_cnt[i].n); first = false; }
        printf("}}\n");
        if (argc >= 7) {
            FILE* f = fopen(argv[6], "wb");
            if (f) {
                uint64_t a = sched.size();
                fwrite(&a, 8, 1, f);
                for (uint64_t x : sched) fwrite(&x, 8, 1, f);
                for (uint64_t x : ev) fwrite(&x, 8, 1, f);
                fclose(f);
            }
        }
        return 0;
    }
    fprintf(stderr, "usage: sim list | gen CHECK SEED | run PLAN [TRACE] | batch CHECK START COUNT SECONDS [HASHFILE]\n");
    return 2;
}
