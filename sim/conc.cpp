// Concurrent clients of one or several networks under the simulated scheduler.
#include <powsybl/iidm/Bus.hpp>
#include <powsybl/iidm/Load.hpp>
#include <powsybl/iidm/LoadAdder.hpp>
#include <powsybl/iidm/Substation.hpp>
#include <powsybl/iidm/SubstationAdder.hpp>
#include <powsybl/iidm/VoltageLevel.hpp>
#include <powsybl/iidm/VoltageLevelAdder.hpp>
#include <powsybl/iidm/BusAdder.hpp>
#include <powsybl/logging/ContainerLogger.hpp>
#include <powsybl/logging/LoggerFactory.hpp>
#include <powsybl/logging/NoopLogger.hpp>

#include "conc.h"
#include "world.h"
using namespace powsybl::iidm;

void genSched(Plan& p, Rng& r) {
    static const int modes[] = {1, 1, 2, 2, 4};
    p.cfg["mode"] = modes[r.below(5)];
    static const int gaps[] = {20, 200, 2000, 20000, 100000};
    p.cfg["gap"] = gaps[r.below(5)];
    p.cfg["depth"] = 1 + (int)r.below(12);
    p.cfg["estlen"] = 1000 << r.below(11);
    p.cfg["schedseed"] = (int64_t)(r.next() >> 1);
}
simrt::SchedCfg schedOf(const Plan& p) {
    simrt::SchedCfg c;
    memset(&c, 0, sizeof c);
    c.mode = (int)p.get("mode", 1);
    c.seed = (uint64_t)p.get("schedseed", 1);
    c.meanGap = (uint32_t)p.get("gap", 1000);
    c.depth = (uint32_t)p.get("depth", 3);
    c.estLen = (uint32_t)p.get("estlen", 100000);
    c.expl = p.sw.data();
    c.nExpl = p.sw.size() / 2;
    return c;
}
void runThreads(const Plan& p, int n, const std::function<void(int)>& body) {
    struct Arg { const std::function<void(int)>* f; int i; };
    std::vector<Arg> a(n);
    std::vector<simrt::ThreadFn> fns(n);
    std::vector<void*> args(n);
    for (int i = 0; i < n; ++i) {
        a[i] = {&body, i};
        args[i] = &a[i];
        fns[i] = [](void* x) {
            Arg& q = *static_cast<Arg*>(x);
            try { (*q.f)(q.i); }
            catch (const std::exception& e) { simrt::Harness h; fail("thread-exception", "thread %d ends with an exception: %s", q.i + 1, e.what()); }
        };
    }
    simrt::run_threads(n, fns.data(), args.data(), schedOf(p));
}

namespace {
// ------------------------------------------------------------------- C01, C08: one thread per variant
typedef std::vector<std::string> Log;
const char* const STATE[] = {"set", "set", "set", "set", "read", "read", "setOpen", "connect", "setConnectableBus", "busV", "query", "derived"};
const char* const TOPO[] = {"setOpen", "setOpen", "connect", "connect", "setConnectableBus", "query", "query", "query", "query", "busV", "read", "nav"};
const char* const SETUP[] = {"clone", "clone", "removeVariant", "set", "setOpen", "connect", "query", "query", "addExt", "setWorking", "removeConnectable", "addSwitch", "removeSwitch", "addLoad"};

void genPerVariant(Plan& p, Rng& r, bool topo) {
    p.cfg["subs"] = 1 + (int)r.below(2);
    p.cfg["vls"] = 1 + (int)r.below(2);
    p.cfg["eq"] = (int)r.below(topo ? 16 : 12);
    p.cfg["nb"] = (int)r.below(3);
    p.cfg["build"] = (int64_t)(r.next() >> 1);
    p.cfg["wild"] = r.chance(50);
    p.cfg["threads"] = 2 + (int)(r.chance(30) ? r.below(3) : 0);
    p.cfg["warm"] = r.chance(40);     // the clones are made after the caches have been filled
    p.cfg["multiB"] = r.chance(30);
    genSched(p, r);
    size_t k = r.below(8);
    for (size_t i = 0; i < k; ++i) { Op o; o.kind = SETUP[r.below(sizeof SETUP / sizeof *SETUP)]; o.seed = r.next(); p.ops.push_back(o); }
    size_t n = 3 + r.below(r.chance(30) ? 24 : 8);
    for (int t = 1; t <= p.cfg["threads"]; ++t)
        for (size_t i = 0; i < n; ++i) { Op o; o.thr = t; o.kind = topo ? TOPO[r.below(sizeof TOPO / sizeof *TOPO)] : STATE[r.below(sizeof STATE / sizeof *STATE)]; o.seed = r.next(); p.ops.push_back(o); }
}
void prepare(World& w, const Plan& p, int threads) {
    w.wild = p.get("wild", 1) != 0;
    Rng br((uint64_t)p.get("build"));
    buildNetwork(w, br, p);
    simrt::Sut s;
    auto& vm = w.n().getVariantManager();
    if (w.working.empty()) vm.setWorkingVariant(w.working = VariantManager::getInitialVariantId());
    for (auto& o : p.ops) if (o.thr == 0) {
        execOp(w, o);
        if (w.working.empty()) vm.setWorkingVariant(w.working = VariantManager::getInitialVariantId());
    }
    if (p.get("warm")) topologyText(w.n());
    for (int t = 1; t <= threads; ++t) { vm.cloneVariant(w.working, "T" + std::to_string(t)); w.variants.insert("T" + std::to_string(t)); }
}
void perThread(World& parent, World& w, const Plan& p, int t, Log& log, bool shared) {
    w.shared = &parent.n();
    w.ids = parent.ids;
    w.variants = parent.variants;
    w.dead = parent.dead;
    w.nextId = 100000 * t;
    w.wild = parent.wild;
    w.mvOnly = true;
    w.working = "T" + std::to_string(t);
    { simrt::Sut s; w.n().getVariantManager().setWorkingVariant(w.working); }
    int k = 0;
    for (auto& o : p.ops) {
        if (o.thr != t) continue;
        if (shared) simrt::yield_point();
        g_where = fmt("thread %d operation %d (%s)", t, k++, o.kind.c_str());
        Effect e = execOp(w, o);
        if (e.noop) continue;
        count(e.threw ? "op.refused" : "op.done");
        log.push_back(e.what + (e.threw ? " !" + e.error : "") + " -> " + e.result);
    }
    g_where.clear();
}
std::string finalText(World& w) {
    std::string s;
    for (auto& v : w.variants) {
        w.n().getVariantManager().setWorkingVariant(v);
        s += "[" + v + "]\n" + topologyText(w.n());
    }
    return s;
}
std::string firstDiff(const std::string& a, const std::string& b) {
    std::istringstream x(a), y(b);
    std::string l, m;
    std::string sec;
    while (true) {
        bool ga = (bool)std::getline(x, l), gb = (bool)std::getline(y, m);
        if (!ga && !gb) return "";
        if (!ga) l = "(nothing)";
        if (!gb) m = "(nothing)";
        if (l != m) return sec + " '" + l.substr(0, 300) + "' instead of '" + m.substr(0, 300) + "'";
        if (!l.empty() && l[0] == '[') sec = l;
    }
}
void compareLogs(const std::vector<Log>& a, const std::vector<Log>& b) {
    for (size_t t = 0; t < a.size(); ++t) {
        for (size_t i = 0; i < a[t].size() || i < b[t].size(); ++i) {
            std::string x = i < a[t].size() ? a[t][i] : "(nothing)", y = i < b[t].size() ? b[t][i] : "(nothing)";
            if (x != y) fail("different-result", "thread %zu, result %zu: with concurrent threads '%s', alone '%s'", t + 1, i, x.substr(0, 700).c_str(), y.substr(0, 700).c_str());
            simrt::hash_event(fnv(x));
        }
    }
}
void runPerVariant(const Plan& p) {
    int n = (int)p.get("threads", 2);
    World a, b;
    prepare(a, p, n);
    prepare(b, p, n);
    {
        simrt::Sut s;
        a.n().getVariantManager().allowVariantMultiThreadAccess(true);
        if (p.get("multiB")) b.n().getVariantManager().allowVariantMultiThreadAccess(true);
    }
    std::vector<Log> la(n), lb(n);
    {
        std::vector<World> ws(n);
        runThreads(p, n, [&](int i) { perThread(a, ws[i], p, i + 1, la[i], true); });
    }
    {
        std::vector<World> ws(n);
        for (int i = 0; i < n; ++i) perThread(b, ws[i], p, i + 1, lb[i], false);
    }
    compareLogs(la, lb);
    g_where = "after the threads";
    simrt::Sut s;
    for (World* w : {&a, &b}) { w->n().getVariantManager().setWorkingVariant(VariantManager::getInitialVariantId()); w->working = VariantManager::getInitialVariantId(); }
    std::string d = diff(snapshot(b.n()), snapshot(a.n()));
    if (!d.empty()) fail("different-state", "the network differs from the one modified by one thread after the other: %s", d.c_str());
    d = firstDiff(finalText(a), finalText(b));
    if (!d.empty()) fail("different-topology", "the topology differs from the one obtained by one thread after the other: %s", d.c_str());
    for (auto& v : a.variants) { a.n().getVariantManager().setWorkingVariant(v); checkTopology(a.n(), true, true); }
    g_where.clear();
    a.net.reset();
    b.net.reset();
    count("histories");
}
void genC01(Plan& p, Rng& r) { genPerVariant(p, r, false); }
void genC08(Plan& p, Rng& r) { genPerVariant(p, r, true); }
RegCheck c01("C01", genC01, runPerVariant);
RegCheck c08("C08", genC08, runPerVariant);

// ------------------------------------------------------------------- C02: working variants of threads and networks
struct SmallNet {
    std::unique_ptr<Network> net;
    Load* load = nullptr;
    std::map<std::string, double> value;      // variant -> p0
    std::map<int, std::string> working;       // thread -> working variant ("" or absent: none)
    std::map<std::string, int> owner;         // variant -> thread that may write it (0: nobody)
    bool multi = true;
    int extra = 0;
};
void makeSmall(SmallNet& s, int threads, bool viaNb) {
    simrt::Sut sut;
    s.net.reset(new Network("net", "sim"));
    Substation& sub = s.net->newSubstation().setId("S").add();
    VoltageLevel& vl = sub.newVoltageLevel().setId("VL").setNominalV(400).setTopologyKind(viaNb ? TopologyKind::NODE_BREAKER : TopologyKind::BUS_BREAKER).add();
    auto la = vl.newLoad();
    la.setId("L").setP0(0).setQ0(0);
    if (viaNb) la.setNode(0);
    else { vl.getBusBreakerView().newBus().setId("B").add(); la.setBus("B").setConnectableBus("B"); }
    s.load = &la.add();
    s.value = {{VariantManager::getInitialVariantId(), 0.}};
    s.owner = {{VariantManager::getInitialVariantId(), 0}};
    auto& vm = s.net->getVariantManager();
    for (int t = 1; t <= threads; ++t)
        for (int k = 0; k < 2; ++k) {
            std::string v = "t" + std::to_string(t) + "_" + std::to_string(k);
            vm.cloneVariant(VariantManager::getInitialVariantId(), v);
            s.value[v] = 0.;
            s.owner[v] = t;
        }
    vm.allowVariantMultiThreadAccess(true);
    s.working[0] = VariantManager::getInitialVariantId();
}
const char* const C02OPS[] = {"sel", "sel", "sel", "get", "get", "rd", "rd", "wr", "wr", "wr", "new", "badsel"};
const char* const C02MGT[] = {"rmOwn", "cloneOwn", "addLoad", "toggle", "none", "rmLoad"};
void genC02(Plan& p, Rng& r) {
    p.cfg["threads"] = 2 + (int)r.below(3);
    p.cfg["nets"] = 1 + (int)r.below(3);
    p.cfg["nb"] = r.chance(50);
    genSched(p, r);
    int phases = 1 + (int)r.below(4);
    for (int ph = 0; ph < phases; ++ph) {
        for (int t = 1; t <= p.cfg["threads"]; ++t) {
            size_t n = 1 + r.below(7);
            for (size_t i = 0; i < n; ++i) { Op o; o.thr = t; o.kind = C02OPS[r.below(sizeof C02OPS / sizeof *C02OPS)]; o.seed = r.next(); p.ops.push_back(o); }
        }
        Op o; o.thr = 0; o.kind = C02MGT[r.below(sizeof C02MGT / sizeof *C02MGT)]; o.seed = r.next(); p.ops.push_back(o);   // barrier, then one thread alone
    }
}
void checkWorking(SmallNet& s, int k, int me) {
    std::string want = s.working.count(me) ? s.working[me] : "", got, err;
    try { simrt::Sut sut; got = s.net->getVariantManager().getWorkingVariantId(); }
    catch (const powsybl::PowsyblException& e) { err = e.what(); }
    if (got != want) fail("working-variant", "%s: thread %d works on '%s' of network %d, expected '%s'%s%s", g_where.c_str(), me, got.c_str(), k, want.c_str(), err.empty() ? "" : " - ", err.c_str());
}
void checkRead(SmallNet& s, int k, int me) {
    std::string want = s.working.count(me) ? s.working[me] : "";
    double got = -1;
    bool threw = false;
    try { simrt::Sut sut; got = s.load->getP0(); }
    catch (const powsybl::PowsyblException&) { threw = true; }
    if (threw != want.empty()) fail("working-variant", "%s: reading network %d in thread %d, whose working variant is '%s': %s", g_where.c_str(), k, me, want.c_str(), threw ? "refused" : "accepted");
    if (!threw && s.value[want] != got) fail("wrong-variant", "%s: thread %d reads %g in variant '%s' of network %d, expected %g", g_where.c_str(), me, got, want.c_str(), k, s.value[want]);
}
void c02Op(std::vector<SmallNet>& nets, std::vector<std::unique_ptr<SmallNet>>& priv, const Op& o, int me, int threads, bool nb) {
    Rng r(o.seed);
    int k = (int)r.below(nets.size());
    SmallNet& s = nets[k];
    if (o.kind == "sel") {
        std::vector<std::string> vs;
        for (auto& x : s.owner) if (x.second == me || x.second == 0) vs.push_back(x.first);
        std::string v = r.pick(vs);
        { simrt::Sut sut; s.net->getVariantManager().setWorkingVariant(v); }
        s.working[me] = v;
        checkWorking(s, k, me);
    } else if (o.kind == "badsel") {
        bool threw = false;
        try { simrt::Sut sut; s.net->getVariantManager().setWorkingVariant("nothing"); } catch (const powsybl::PowsyblException&) { threw = true; }
        if (!threw) fail("variant-accepted", "%s: unknown variant accepted as working variant", g_where.c_str());
        checkWorking(s, k, me);
    } else if (o.kind == "get") checkWorking(s, k, me);
    else if (o.kind == "rd") checkRead(s, k, me);
    else if (o.kind == "wr") {
        std::string v = s.working.count(me) ? s.working[me] : "";
        if (!v.empty() && s.owner[v] != me) return;
        double x = (double)r.below(1000);
        bool threw = false;
        try { simrt::Sut sut; s.load->setP0(x); } catch (const powsybl::PowsyblException&) { threw = true; }
        if (threw != v.empty()) fail("working-variant", "%s: writing network %d in thread %d, whose working variant is '%s': %s", g_where.c_str(), k, me, v.c_str(), threw ? "refused" : "accepted");
        if (!threw) { s.value[v] = x; checkRead(s, k, me); }
    } else if (o.kind == "new") {
        // a network of its own, created and perhaps destroyed by this thread: starts on the initial variant
        auto& mine = priv[me];
        if (mine && r.chance(50)) { simrt::Sut sut; mine->net.reset(); }
        if (mine && !mine->net) mine.reset();
        if (!mine) {
            mine.reset(new SmallNet);
            makeSmall(*mine, 1, nb);
            mine->working[me] = mine->working[0];
        }
        checkWorking(*mine, 100 + me, me);
        checkRead(*mine, 100 + me, me);
        std::string v = r.chance(50) ? "t1_0" : "t1_1";
        { simrt::Sut sut; mine->net->getVariantManager().setWorkingVariant(v); }
        mine->working[me] = v;
        double x = (double)r.below(1000);
        { simrt::Sut sut; mine->load->setP0(x); }
        mine->value[v] = x;
        checkRead(*mine, 100 + me, me);
    }
    (void)threads;
    count(("op." + o.kind).c_str());
}
void c02Mgt(std::vector<SmallNet>& nets, const Op& o, int me) {
    Rng r(o.seed);
    int k = (int)r.below(nets.size());
    SmallNet& s = nets[k];
    auto& vm = s.net->getVariantManager();
    std::vector<std::string> own;
    for (auto& x : s.owner) if (x.second == me) own.push_back(x.first);
    if (o.kind == "rmOwn" && !own.empty()) {
        std::string v = r.pick(own);
        { simrt::Sut sut; vm.removeVariant(v); }
        s.owner.erase(v);
        s.value.erase(v);
        if (s.working.count(me) && s.working[me] == v) s.working[me] = "";
    } else if (o.kind == "cloneOwn") {
        std::vector<std::string> src;
        for (auto& x : s.owner) src.push_back(x.first);
        std::string from = r.pick(src), v = "t" + std::to_string(me) + "_" + std::to_string(2 + r.below(4));
        { simrt::Sut sut; vm.cloneVariant(from, v, true); }
        s.owner[v] = me;
        s.value[v] = s.value[from];
    } else if (o.kind == "addLoad") {
        simrt::Sut sut;
        VoltageLevel& vl = s.net->getVoltageLevel("VL");
        auto a = vl.newLoad();
        a.setId("X" + std::to_string(++s.extra)).setP0(1).setQ0(1);
        if (vl.getTopologyKind() == TopologyKind::NODE_BREAKER) a.setNode((unsigned long)s.extra); else a.setBus("B").setConnectableBus("B");
        a.add();
    } else if (o.kind == "rmLoad") {
        auto x = s.net->find<Load>("X" + std::to_string(s.extra));
        if (x) { simrt::Sut sut; x.get().remove(); }
    } else if (o.kind == "toggle") {
        // forgets the selection of every other thread
        bool set = s.working.count(me) && !s.working[me].empty();
        { simrt::Sut sut; vm.allowVariantMultiThreadAccess(false); }
        std::string w = set ? s.working[me] : VariantManager::getInitialVariantId();
        s.working.clear();
        s.working[me] = w;
        checkWorking(s, k, me);
        { simrt::Sut sut; vm.allowVariantMultiThreadAccess(true); }
    }
    count(("op." + o.kind).c_str());
}
void runC02(const Plan& p) {
    int n = (int)p.get("threads", 2), nn = (int)p.get("nets", 1);
    if (nn < 1) nn = 1;
    std::vector<SmallNet> nets(nn);
    for (auto& s : nets) makeSmall(s, n, p.get("nb") != 0);
    std::vector<std::unique_ptr<SmallNet>> priv(n + 1);
    runThreads(p, n, [&](int i) {
        int me = i + 1;
        for (auto& o : p.ops) {
            if (o.thr == 0) {
                simrt::barrier();
                int who = 1 + (int)(o.seed >> 20) % n;
                if (who == me) { g_where = fmt("thread %d alone: %s", me, o.kind.c_str()); c02Mgt(nets, o, me); }
                simrt::barrier();
                g_where = fmt("thread %d after %s by thread %d", me, o.kind.c_str(), who);
                for (int k = 0; k < nn; ++k) { checkWorking(nets[k], k, me); checkRead(nets[k], k, me); }
            } else if (o.thr == me) {
                simrt::yield_point();
                g_where = fmt("thread %d: %s", me, o.kind.c_str());
                c02Op(nets, priv, o, me, n, p.get("nb") != 0);
            }
        }
        if (priv[me] && priv[me]->net) { simrt::Sut s; priv[me]->net.reset(); }
    });
    g_where = "after the threads";
    for (int k = 0; k < nn; ++k) {
        // the selections of the threads ended with them, that of the main thread is still there (unless access was toggled)
        auto& s = nets[k];
        simrt::Sut sut;
        for (auto& v : s.value) {
            s.net->getVariantManager().setWorkingVariant(v.first);
            if (s.load->getP0() != v.second) fail("wrong-variant", "variant '%s' of network %d holds %g, expected %g", v.first.c_str(), k, s.load->getP0(), v.second);
        }
        s.net.reset();
    }
    g_where.clear();
    count("histories");
}
RegCheck c02("C02", genC02, runC02);

// ------------------------------------------------------------------- C05: linearizability of variant management
struct Ev {
    int thr;
    std::string kind, a;
    std::vector<std::string> b;
    bool over = false;
    uint64_t inv = 0, res = 0;
    bool ok = false;
    std::string out;
};
struct VState {
    std::map<std::string, int> v;                 // variant -> content tag
    std::map<int, std::string> w;                 // thread -> working ("?" when it was removed by somebody)
    bool operator<(const VState& o) const { return std::tie(v, w) < std::tie(o.v, o.w); }
};
bool applyModel(VState& s, const Ev& e) {
    if (e.kind == "clone") {
        bool ok = s.v.count(e.a) > 0 && !e.b.empty();
        std::set<std::string> seen;
        if (!e.over) for (auto& t : e.b) if (!seen.insert(t).second || s.v.count(t)) ok = false;
        if (ok != e.ok) return false;
        if (ok) { int tag = s.v[e.a]; for (auto& t : e.b) s.v[t] = tag; }
        return true;
    }
    if (e.kind == "remove") {
        bool ok = s.v.count(e.a) > 0 && e.a != "InitialVariant";
        if (ok != e.ok) return false;
        if (ok) { s.v.erase(e.a); for (auto& x : s.w) if (x.second == e.a) x.second = x.first == e.thr ? "" : "?"; }
        return true;
    }
    if (e.kind == "list") {
        std::string t;
        for (auto& x : s.v) t += x.first + ",";
        return e.ok && t == e.out;
    }
    if (e.kind == "select") {
        if (e.ok != (s.v.count(e.a) > 0)) return false;
        if (e.ok) s.w[e.thr] = e.a;
        return true;
    }
    if (e.kind == "final") {
        std::string t;
        for (auto& x : s.v) t += x.first + "=" + std::to_string(x.second) + ",";
        return t == e.out;
    }
    return true;
}
struct Lin {
    const std::vector<Ev>& ev;
    std::set<std::pair<uint64_t, VState>> seen;
    bool search(uint64_t done, const VState& s) {
        if (done == (1ull << ev.size()) - 1) return true;
        if (!seen.insert({done, s}).second) return false;
        uint64_t minRes = ~0ull;
        for (size_t i = 0; i < ev.size(); ++i) if (!(done >> i & 1)) minRes = std::min(minRes, ev[i].res);
        for (size_t i = 0; i < ev.size(); ++i) {
            if ((done >> i & 1) || ev[i].inv > minRes) continue;
            VState t = s;
            if (applyModel(t, ev[i]) && search(done | 1ull << i, t)) return true;
        }
        return false;
    }
};
void genC05(Plan& p, Rng& r) {
    p.cfg["threads"] = 2 + (int)r.below(3);
    p.cfg["subs"] = 1; p.cfg["vls"] = 1 + (int)r.below(2);
    p.cfg["eq"] = (int)r.below(8);
    p.cfg["nb"] = (int)r.below(3);
    p.cfg["build"] = (int64_t)(r.next() >> 1);
    p.cfg["pre"] = (int)r.below(4);
    genSched(p, r);
    static const char* const k[] = {"clone", "clone", "clone", "clone2", "remove", "remove", "list", "select"};
    size_t total = 0;
    for (int t = 1; t <= p.cfg["threads"]; ++t) {
        size_t n = 1 + r.below(t <= 2 ? 6 : 3);
        for (size_t i = 0; i < n && total < 15; ++i, ++total) { Op o; o.thr = t; o.kind = k[r.below(8)]; o.seed = r.next(); p.ops.push_back(o); }
    }
}
void runC05(const Plan& p) {
    int n = (int)p.get("threads", 2);
    World w;
    w.wild = false;
    Rng br((uint64_t)p.get("build"));
    buildNetwork(w, br, p);
    if (w.working.empty()) fail("harness", "no working variant");
    auto& vm = w.n().getVariantManager();
    VState init;
    init.v["InitialVariant"] = 0;
    std::vector<Snap> content;
    std::string load;
    {
        simrt::Sut s;
        content.push_back(snapshotVariant(w.n(), "InitialVariant"));
        for (int i = 1; i <= p.get("pre"); ++i) {
            std::string v = "v" + std::to_string(i);
            vm.cloneVariant("InitialVariant", v);
            vm.setWorkingVariant(v);
            w.variants.insert(v);
            w.working = v;
            w.mvOnly = true;
            for (int k = 0; k < 3; ++k) { Op o; o.kind = "set"; o.seed = br.next(); execOp(w, o); }
            content.push_back(snapshotVariant(w.n(), v));
            init.v[v] = i;
        }
        vm.setWorkingVariant("InitialVariant");
        vm.allowVariantMultiThreadAccess(true);
    }
    std::vector<std::vector<Ev>> logs(n);
    runThreads(p, n, [&](int i) {
        int me = i + 1;
        for (auto& o : p.ops) {
            if (o.thr != me) continue;
            Rng r(o.seed);
            Ev e;
            e.thr = me;
            e.kind = o.kind == "clone2" ? "clone" : o.kind;
            auto name = [&]() { return r.chance(12) ? std::string("InitialVariant") : "v" + std::to_string(1 + r.below(5)); };
            e.a = name();
            if (e.kind == "clone") { e.over = r.chance(40); e.b.push_back(name()); if (o.kind == "clone2") e.b.push_back(name()); if (!e.over && e.b[0] == "InitialVariant") e.b[0] = "v1"; }
            std::string err;
            g_where = fmt("thread %d: %s", me, o.kind.c_str());
            e.inv = simrt::step_now();
            try {
                simrt::Sut s;
                simrt::yield_point();
                if (e.kind == "clone") { if (e.b.size() == 1) vm.cloneVariant(e.a, e.b[0], e.over); else vm.cloneVariant(e.a, {e.b[0], e.b[1]}, e.over); }
                else if (e.kind == "remove") vm.removeVariant(e.a);
                else if (e.kind == "list") { for (auto& x : vm.getVariantIds()) e.out += x + ","; vm.getVariantArraySize(); }
                else if (e.kind == "select") vm.setWorkingVariant(e.a);
                e.ok = true;
            } catch (const powsybl::PowsyblException& x) { err = x.what(); }
            e.res = simrt::step_now();
            logs[i].push_back(e);
            count(("op." + o.kind + (e.ok ? "" : ".refused")).c_str());
        }
    });
    g_where = "after the threads";
    Ev f;
    f.thr = 0;
    f.kind = "final";
    f.inv = simrt::step_now();
    f.ok = true;
    {
        simrt::Sut s;
        for (auto& v : vm.getVariantIds()) {
            vm.setWorkingVariant(v);
            Snap now = snapshotVariant(w.n(), v);
            int tag = -1;
            for (size_t i = 0; i < content.size(); ++i) if (diff(content[i], now).empty()) { tag = (int)i; break; }
            if (tag < 0) fail("variant-corrupted", "variant '%s' holds a mixture: compared with the initial variant: %s", v.c_str(), diff(content[0], now).c_str());
            // equal contents get the same tag in the model
            f.out += v + "=" + std::to_string(tag) + ",";
        }
        if (vm.getVariantArraySize() < vm.getVariantIds().size()) fail("variant-array-size", "array size %lu for %zu variants", vm.getVariantArraySize(), vm.getVariantIds().size());
    }
    for (auto& x : init.v) for (int i = 0; i < x.second; ++i) if (diff(content[i], content[x.second]).empty()) { x.second = i; break; }
    f.res = simrt::step_now();
    std::vector<Ev> all;
    for (auto& l : logs) for (auto& e : l) all.push_back(e);
    all.push_back(f);
    Lin lin{all, {}};
    if (!lin.search(0, init)) {
        std::string s;
        std::sort(all.begin(), all.end(), [](const Ev& x, const Ev& y) { return x.inv < y.inv; });
        for (auto& e : all) {
            s += fmt("[%lu-%lu] T%d %s %s", (unsigned long)e.inv, (unsigned long)e.res, e.thr, e.kind.c_str(), e.a.c_str());
            for (auto& t : e.b) s += " " + t;
            s += std::string(e.over ? " overwrite" : "") + (e.ok ? " ok " : " refused ") + e.out + "; ";
        }
        fail("not-linearizable", "no sequential order of the calls explains their outcome: %s", s.c_str());
    }
    for (auto& e : all) simrt::hash_event(fnv(e.kind + e.a + e.out + (e.ok ? "1" : "0")));
    // the manager is still usable
    simrt::Sut s;
    vm.cloneVariant("InitialVariant", "after");
    vm.removeVariant("after");
    w.net.reset();
    g_where.clear();
    count("histories");
}
RegCheck c05("C05", genC05, runC05);

// ------------------------------------------------------------------- C20: loggers
struct TestLogger : powsybl::logging::ContainerLogger {
    explicit TestLogger(const std::string& n) : name(n) { simrt::Harness h; ++live[name]; }
    ~TestLogger() noexcept override { simrt::Harness h; --live[name]; }
    std::string name;
    static std::map<std::string, int> live;
};
std::map<std::string, int> TestLogger::live;
void genC20(Plan& p, Rng& r) {
    p.cfg["threads"] = 2 + (int)r.below(4);
    genSched(p, r);
    p.cfg["gap"] = 5 << r.below(9);
    p.cfg["estlen"] = 200 << r.below(6);
    static const char* const k[] = {"add", "add", "remove", "get", "get", "log", "log", "other", "lib"};
    for (int t = 1; t <= p.cfg["threads"]; ++t) {
        size_t n = 2 + r.below(14);
        for (size_t i = 0; i < n; ++i) { Op o; o.thr = t; o.kind = k[r.below(9)]; o.seed = r.next(); p.ops.push_back(o); }
    }
}
void runC20(const Plan& p) {
    using powsybl::logging::LoggerFactory;
    using powsybl::logging::Logger;
    int n = (int)p.get("threads", 2);
    std::map<std::string, Logger*> common;
    bool withRoot = p.get("gap") % 2 == 1;
    for (const char* c : {"a", "a::b", "a::b::c"}) {
        if (withRoot || std::string(c) != "a") {
            std::unique_ptr<TestLogger> l(new TestLogger(c));
            common[c] = l.get();
            simrt::Sut s;
            LoggerFactory::getInstance().addLogger(c, std::unique_ptr<Logger>(std::move(l)));
        }
    }
    std::vector<std::map<std::string, std::pair<Logger*, long>>> mine(n);   // registered by the thread: logger, messages logged
    runThreads(p, n, [&](int i) {
        int me = i + 1;
        auto& own = mine[i];
        auto resolve = [&](std::string name) -> Logger* {
            while (true) {
                auto a = own.find(name);
                if (a != own.end()) return a->second.first;
                auto b = common.find(name);
                if (b != common.end()) return b->second;
                size_t k = name.rfind("::");
                if (k == std::string::npos) return nullptr;
                name = name.substr(0, k);
            }
        };
        Logger* noop = nullptr;
        for (auto& o : p.ops) {
            if (o.thr != me) continue;
            Rng r(o.seed);
            static const char* const base[] = {"", "a::", "a::b::", "a::b::c::", "zz::"};
            std::string name = std::string(base[r.below(5)]) + "t" + std::to_string(me) + (r.chance(50) ? "::x" : "") + (r.chance(30) ? "::y" : "");
            g_where = fmt("thread %d: %s %s", me, o.kind.c_str(), name.c_str());
            simrt::yield_point();
            if (o.kind == "add") {
                std::unique_ptr<TestLogger> l(new TestLogger(name));
                Logger* x = l.get();
                { simrt::Sut s; LoggerFactory::getInstance().addLogger(name, std::unique_ptr<Logger>(std::move(l))); }
                if (!own.count(name)) own[name] = {x, 0};    // a name already registered keeps its logger
            } else if (o.kind == "remove") {
                { simrt::Sut s; LoggerFactory::getInstance().removeLogger(name); }
                own.erase(name);
                if (TestLogger::live[name] != 0) fail("logger-alive", "%s: the removed logger has not been destroyed", g_where.c_str());
            } else if (o.kind == "get" || o.kind == "log") {
                std::string q = r.chance(50) ? name : name + "::more::Cls";
                Logger* want = resolve(q);
                Logger* got;
                { simrt::Sut s; got = &LoggerFactory::getLogger(q); }
                if (want && got != want) fail("wrong-logger", "%s: getLogger('%s') returns another logger than the one registered for the longest prefix", g_where.c_str(), q.c_str());
                if (!want) {
                    if (noop && got != noop) fail("wrong-logger", "%s: the default logger changes", g_where.c_str());
                    noop = got;
                    simrt::Sut s;
                    if (got->isErrorEnabled() || got->isInfoEnabled()) fail("wrong-logger", "%s: the default logger is enabled", g_where.c_str());
                    got->error("nothing %1%", 1);
                } else if (o.kind == "log") for (auto& x : own) if (x.second.first == want) {
                    { simrt::Sut s; want->info("message %1% of %2%", x.second.second, me); }
                    ++x.second.second;
                    auto& c = *static_cast<TestLogger*>(want);
                    if ((long)c.size() != x.second.second || c.getLogMessage(c.size() - 1).getMessage() != fmt("message %ld of %d", x.second.second - 1, me)) fail("lost-message", "%s: %lu messages recorded, %ld logged", g_where.c_str(), c.size(), x.second.second);
                }
            } else if (o.kind == "other") {
                // a name that another thread may be registering: some valid logger or the default one
                std::string q = "a::b::c::t" + std::to_string(1 + me % n) + "::x::Cls";
                simrt::Sut s;
                (void)&LoggerFactory::getLogger(q);
            } else {
                simrt::Sut s;
                Logger& l = LoggerFactory::getLogger<Network>();
                l.debug("from the library %1%", me);
            }
            count(("op." + o.kind).c_str());
            simrt::hash_event(fnv(g_where));
        }
    });
    g_where = "after the threads";
    simrt::Sut s;
    for (auto& m : mine) for (auto& x : m) {
        if (&LoggerFactory::getLogger(x.first) != x.second.first) fail("wrong-logger", "logger '%s' is lost", x.first.c_str());
        LoggerFactory::getInstance().removeLogger(x.first);
    }
    for (auto& c : common) LoggerFactory::getInstance().removeLogger(c.first);
    for (auto& l : TestLogger::live) if (l.second) fail("logger-alive", "%d logger(s) '%s' are still alive after their removal", l.second, l.first.c_str());
    g_where.clear();
    count("histories");
}
RegCheck c20("C20", genC20, runC20);

// ------------------------------------------------------------------- C22: independent networks
const char* const MIXED[] = {"addSubstation", "addVl", "addBus", "addBbs", "addSwitch", "addIc", "addLoad", "addGen", "addBat", "addShunt", "addSvc", "addDl", "addVsc", "addHvdc", "addLine", "add2wt", "add3wt", "addRtc", "addPtc", "addLimits", "addReactive", "addAlias", "addExt",
    "removeConnectable", "removeHvdc", "removeVl", "removeBus", "removeSwitch", "removeExt", "set", "set", "set", "setOpen", "connect", "busV", "query", "query", "read", "clone", "removeVariant", "setWorking", "multithread", "xml", "xml"};
void genC22(Plan& p, Rng& r) {
    p.cfg["threads"] = 2 + (int)(r.chance(30) ? r.below(3) : 0);
    p.cfg["subs"] = 1 + (int)r.below(2);
    p.cfg["vls"] = 1;
    p.cfg["eq"] = (int)r.below(8);
    p.cfg["nb"] = (int)r.below(3);
    p.cfg["wild"] = 1;
    p.cfg["build"] = (int64_t)(r.next() >> 1);
    p.cfg["same"] = r.chance(30);      // every thread does the same thing: first uses collide
    genSched(p, r);
    for (int t = 1; t <= p.cfg["threads"]; ++t) {
        if (t > 1 && p.cfg["same"]) { std::vector<Op> c; for (auto& o : p.ops) if (o.thr == 1) { c.push_back(o); c.back().thr = t; } p.ops.insert(p.ops.end(), c.begin(), c.end()); continue; }
        size_t n = 2 + r.below(12);
        for (size_t i = 0; i < n; ++i) { Op o; o.thr = t; o.kind = MIXED[r.below(sizeof MIXED / sizeof *MIXED)]; o.seed = r.next(); p.ops.push_back(o); }
    }
}
void ownNetwork(const Plan& p, int t, Log& log) {
    World w;
    w.wild = true;
    Rng br((uint64_t)p.get("build") + (p.get("same") ? 0 : t));
    buildNetwork(w, br, p);
    for (auto& o : p.ops) {
        if (o.thr != t) continue;
        simrt::yield_point();
        g_where = fmt("thread %d: %s", t, o.kind.c_str());
        if (w.working.empty()) { simrt::Sut s; w.n().getVariantManager().setWorkingVariant(w.working = VariantManager::getInitialVariantId()); }
        Effect e = execOp(w, o);
        if (e.noop) continue;
        count(("op." + o.kind + (e.threw ? ".refused" : "")).c_str());
        log.push_back(e.what + (e.threw ? " !" + e.error : "") + " -> " + e.result);
    }
    g_where = fmt("thread %d: end", t);
    {
        simrt::Sut s;
        if (w.working.empty()) w.n().getVariantManager().setWorkingVariant(VariantManager::getInitialVariantId());
        std::string x = topologyText(w.n());
        for (auto& k : snapshot(w.n())) x += k.first + "=" + k.second + "\n";
        log.push_back(x);
        w.net.reset();
    }
    g_where.clear();
}
void runC22(const Plan& p) {
    int n = (int)p.get("threads", 2);
    std::vector<Log> a(n), b(n);
    runThreads(p, n, [&](int i) { ownNetwork(p, i + 1, a[i]); });
    for (int i = 0; i < n; ++i) ownNetwork(p, i + 1, b[i]);
    compareLogs(a, b);
    count("histories");
}
RegCheck c22("C22", genC22, runC22);
}  // namespace
