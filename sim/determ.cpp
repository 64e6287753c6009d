// C17: a document depends on the content of the network only. The same history is run on two networks, one of them with reads, exports, temporary variants,
// another heap layout, another content of fresh memory, another clock, locale and time zone in between; also from client threads.
#include <locale>
#include <stdlib.h>
#include <time.h>

#include "conc.h"
#include "ext.h"
#include "hist.h"
#include "io.h"
using namespace powsybl::iidm;

namespace {
struct Comma : std::numpunct<char> {        // 1.234,5
    char do_decimal_point() const override { return ','; }
    char do_thousands_sep() const override { return '.'; }
    std::string do_grouping() const override { return "\3"; }
    std::string do_truename() const override { return "wahr"; }
    std::string do_falsename() const override { return "falsch"; }
};
struct Env {                                 // locale and time zone of the process
    static void set(Rng& r) {
        simrt::Harness h;
        if (r.chance(70)) { std::locale::global(std::locale(std::locale::classic(), new Comma)); count("fault.locale"); }
        else std::locale::global(std::locale::classic());
        static const char* const Z[] = {"UTC", "EST5EDT", "XYZ-5:45", "AAA+11", "BBB-14"};
        setenv("TZ", Z[r.below(5)], 1);
        tzset();
        count("fault.time-zone");
    }
    static void clear() {
        simrt::Harness h;
        std::locale::global(std::locale::classic());
        setenv("TZ", "UTC", 1);
        tzset();
    }
    ~Env() { clear(); }
};
const char* const F = "/simfs/determ.xiidm";
const char* const FC = "/simfs/determ.csv";
std::string document(const Network& n, const ExportOptions& o) {
    iofault::reset();
    iofault::remove(FC);
    std::string t;
    try { t = writeText(n, o, F); }
    catch (const powsybl::PowsyblException& e) { return std::string("!") + e.what(); }
    if (o.isAnonymized()) { t += "\n----\n" + iofault::get(FC); iofault::remove(FC); }
    return t;
}
ExportOptions someOptions(Rng& r, const std::string& version = "") {
    Plan q;
    genOptions(q, r);
    q.cfg["anonymized"] = r.chance(20);
    ExportOptions o = optionsOf(q);
    if (!version.empty()) o.setVersion(version);
    return o;
}
void genC17(Plan& p, Rng& r) {
    shape(p, r, 20);
    genOptions(p, r);
    p.cfg["anonymized"] = r.chance(25);
    p.cfg["noise"] = (int64_t)(r.next() >> 1);
    if (r.chance(75)) genOps(p, r, 1 + r.below(15), Mix{20, 10, 30, 15, 20, 1});
    for (auto& o : p.ops) if (r.chance(15)) o.kind = EXT_OPS[r.below(13)];
    p.cfg["threads"] = r.chance(35) ? 2 + r.below(2) : 0;
    if (p.cfg["threads"]) genSched(p, r);
    size_t n = 1 + r.below(8);
    for (size_t i = 0; i < n; ++i) { Op o; o.kind = "noise"; o.seed = r.next(); p.ops.insert(p.ops.begin() + r.below(p.ops.size() + 1), o); }
}
struct Noise {
    std::vector<std::unique_ptr<char[]>> junk;
    int temps = 0;
    std::vector<std::string> live;
    void run(World& w, uint64_t seed) {
        Rng r(seed);
        if (w.working.empty()) return;
        simrt::Sut s;
        Network& n = w.n();
        VariantManager& vm = n.getVariantManager();
        std::string where = g_where;
        size_t k = 1 + r.below(3);
        while (k--) {
            switch (r.below(9)) {
                case 0: topologyText(n); count("c17.noise.topology"); break;
                case 1: snapshot(n); count("c17.noise.snapshot"); break;
                case 2: document(n, someOptions(r)); count("c17.noise.export"); break;
                case 3: case 4: {
                    std::string t = fmt("~tmp%d", temps++);
                    std::vector<std::string> from;
                    for (auto& v : vm.getVariantIds()) from.push_back(v);
                    std::sort(from.begin(), from.end());
                    vm.cloneVariant(r.pick(from), t);
                    live.push_back(t);
                    if (r.chance(50)) { VariantScope v(n, t); topologyText(n); }
                    count("c17.noise.clone");
                    break;
                }
                case 5:
                    if (live.empty()) break;
                    { size_t i = r.below(live.size()); vm.removeVariant(live[i]); live.erase(live.begin() + i); count("c17.noise.remove-variant"); }
                    break;
                case 6: { simrt::Harness h; simrt::clock_advance((int64_t)r.below(1LL << 55)); count("fault.clock-jump"); break; }
                case 7: { simrt::Harness h; for (int i = 0; i < 20; ++i) junk.emplace_back(new char[1 + r.below(300)]); simrt::heap_style((unsigned char)r.below(256), r.next() | 1); count("fault.heap-layout"); break; }
                case 8: Env::set(r); break;
            }
        }
        g_where = where;
    }
};
void history(World& w, const Plan& p, Noise* noise) {
    Rng br((uint64_t)p.get("build"));
    buildNetwork(w, br, p);
    if (noise) Env::set(br);
    for (size_t i = 0; i < p.ops.size(); ++i) {
        const Op& o = p.ops[i];
        if (o.kind == "noise") { if (noise) noise->run(w, o.seed); continue; }
        g_where = fmt("op %zu %s", i, o.kind.c_str());
        if (w.working.empty()) { simrt::Sut s; w.n().getVariantManager().setWorkingVariant(w.working = VariantManager::getInitialVariantId()); }
        Effect e = execOp(w, o);
        if (!e.noop) count(("op." + o.kind + (e.threw ? ".refused" : "")).c_str());
    }
    g_where.clear();
    simrt::Sut s;
    if (w.working.empty()) w.n().getVariantManager().setWorkingVariant(w.working = VariantManager::getInitialVariantId());
    w.n().setCaseDate(stdcxx::DateTime::parse("2021-03-04T05:06:07.089+01:00"));
}
void same(const std::string& a, const std::string& b, const char* what) {
    simrt::Harness h;
    if (a != b) fail("document-depends", "%s: %s", what, textDiff(a, b).c_str());
    count("c17.comparisons");
}
void threads(World& a, World& b, const Plan& p, Rng& r) {
    // every thread exports its own variant; the reference are the exports of the other network, one after the other
    int T = (int)p.get("threads");
    Network &na = a.n(), &nb = b.n();
    std::vector<std::string> vs;
    std::vector<ExportOptions> os;
    for (auto& v : na.getVariantManager().getVariantIds()) vs.push_back(v);
    std::sort(vs.begin(), vs.end());
    while ((int)vs.size() < T) {
        std::string from = r.pick(vs);
        vs.push_back(fmt("~t%zu", vs.size()));
        na.getVariantManager().cloneVariant(from, vs.back());
        nb.getVariantManager().cloneVariant(from, vs.back());
    }
    std::vector<std::string> got(T), again(T);
    for (int i = 0; i < T; ++i) { os.push_back(someOptions(r)); os.back().setAnonymized(false); std::swap(vs[i], vs[i + r.below(vs.size() - i)]); }
    na.getVariantManager().allowVariantMultiThreadAccess(true);
    runThreads(p, T, [&](int i) {
        simrt::Sut s;
        na.getVariantManager().setWorkingVariant(vs[i]);
        got[i] = document(na, os[i]);
        simrt::yield_point();
        again[i] = document(na, os[i]);
    });
    for (int i = 0; i < T; ++i) {
        nb.getVariantManager().setWorkingVariant(vs[i]);
        std::string t = document(nb, os[i]);
        same(t, got[i], "the export of a thread");
        same(t, again[i], "the second export of a thread");
        simrt::hash_event(fnv(t));
    }
    count("c17.concurrent-exports", T);
}
void runC17(const Plan& p) {
    registerSerializers();
    Env env;
    Rng r((uint64_t)p.get("noise"));
    World a, b;
    a.odd = b.odd = p.get("odd") != 0;
    history(a, p, nullptr);
    ExportOptions o = optionsOf(p);
    Noise noise;
    simrt::heap_style((unsigned char)r.below(256), r.next() | 1);
    history(b, p, &noise);
    simrt::Sut s;
    if (p.get("threads")) { threads(a, b, p, r); return; }
    Network &na = a.n(), &nb = b.n();
    std::string t = document(na, o);
    simrt::hash_event(fnv(t));
    same(t, document(na, o), "the second export");
    same(t, document(nb, o), "the export of a network with the same history, but other reads, heap layout, clock and locale");
    Noise more;
    more.temps = 1000;
    for (auto& op : p.ops) if (op.kind == "noise") more.run(a, op.seed ^ 77);
    same(t, document(na, o), "the export after reads");
    std::string w = a.working;
    na.getVariantManager().cloneVariant(w, "~copy");
    na.getVariantManager().setWorkingVariant("~copy");
    same(t, document(na, o), "the export of a copy of the variant");
    na.getVariantManager().setWorkingVariant(w);
    na.getVariantManager().removeVariant("~copy");
    {
        Plan q;
        std::string x;
        runThreads(q, 1, [&](int) { simrt::Sut y; if (na.getVariantManager().isVariantMultiThreadAccessAllowed()) na.getVariantManager().setWorkingVariant(w); x = document(na, o); });
        same(t, x, "the export by another thread");
    }
    if (o.isAnonymized() || t[0] == '!' || o.getIidmVersionIncompatibilityBehavior() == ExportOptions::IidmVersionIncompatibilityBehavior::LOG_ERROR) return;
    std::string x[2];
    for (int i = 0; i < 2; ++i) {
        if (i) Env::clear(); else Env::set(r);
        try { Network m = readText(t); x[i] = document(m, o); }
        catch (const std::exception& e) { x[i] = std::string("!!") + e.what(); }
        simrt::heap_style((unsigned char)r.below(256), r.next() | 1);
    }
    same(x[1], x[0], "the network read with another locale");
}
RegCheck c17("C17", genC17, runC17);
}  // namespace
