// C24: reading and visiting never change the network. Visitors and traversals with callbacks that throw or read the network again, queries that run out of
// memory, against a twin network on which nothing was read.
#include <algorithm>

#include <powsybl/iidm/Battery.hpp>
#include <powsybl/iidm/BusbarSection.hpp>
#include <powsybl/iidm/DanglingLine.hpp>
#include <powsybl/iidm/Generator.hpp>
#include <powsybl/iidm/HvdcConverterStation.hpp>
#include <powsybl/iidm/InternalConnection.hpp>
#include <powsybl/iidm/Line.hpp>
#include <powsybl/iidm/Load.hpp>
#include <powsybl/iidm/ShuntCompensator.hpp>
#include <powsybl/iidm/StaticVarCompensator.hpp>
#include <powsybl/iidm/Substation.hpp>
#include <powsybl/iidm/Switch.hpp>
#include <powsybl/iidm/ThreeWindingsTransformer.hpp>
#include <powsybl/iidm/TopologyVisitor.hpp>
#include <powsybl/iidm/TwoWindingsTransformer.hpp>
#include <powsybl/iidm/AbstractTerminalTopologyVisitor.hpp>
#include <powsybl/iidm/VoltageLevel.hpp>

#include "hist.h"
#include "io.h"
using namespace powsybl::iidm;

namespace {
struct Stop : std::exception {};
typedef std::vector<std::string> Names;
std::string text(Names v) { std::sort(v.begin(), v.end()); std::string s; for (auto& x : v) s += x + " "; return s; }
void sameNames(const char* what, const std::string& of, const Names& got, const Names& want) {
    if (text(got) != text(want)) fail("visit-differs", "%s of %s: %s, expected %s", what, of.c_str(), text(got).c_str(), text(want).c_str());
}
// What a callback does besides recording: it may throw or read the network
struct Callback {
    Callback(Network& net, Rng& rng) : n(net), r(rng), boom(rng.chance(25) ? (int)rng.below(10) : -1), reads(rng.chance(25)) {}
    void operator()() {
        if (calls++ == boom) { count("fault.callback-throws"); throw Stop(); }
        if (!reads || !r.chance(20)) return;
        count("c24.re-entrant");
        switch (r.below(4)) {
            case 0: topologyText(n); break;
            case 1: snapshot(n); break;
            case 2: for (Terminal* t : terminalsOf(n)) { t->getBusView().getBus(); t->getBusBreakerView().getConnectableBus(); } break;
            case 3: { Names v; for (auto& x : n.getVariantManager().getVariantIds()) v.push_back(x); VariantScope s(n, r.pick(v)); topologyText(n); break; }
        }
    }
    Network& n;
    Rng& r;
    int boom, calls = 0;
    bool reads;
};
struct Visitor : TopologyVisitor {
    Visitor(Network& n, Rng& r) : cb(n, r) {}
    void add(const Terminal& t) { names.push_back(termName(t)); cb(); }
    void visitBattery(const Battery& o) override { add(o.getTerminal()); }
    void visitBusbarSection(const BusbarSection& o) override { add(o.getTerminal()); }
    void visitDanglingLine(const DanglingLine& o) override { add(o.getTerminal()); }
    void visitGenerator(const Generator& o) override { add(o.getTerminal()); }
    void visitHvdcConverterStation(const HvdcConverterStation& o) override { add(o.getTerminal()); }
    void visitLine(const Line& o, const Branch::Side& s) override { add(o.getTerminal(s)); }
    void visitLoad(const Load& o) override { add(o.getTerminal()); }
    void visitShuntCompensator(const ShuntCompensator& o) override { add(o.getTerminal()); }
    void visitStaticVarCompensator(const StaticVarCompensator& o) override { add(o.getTerminal()); }
    void visitThreeWindingsTransformer(const ThreeWindingsTransformer& o, const ThreeWindingsTransformer::Side& s) override { add(o.getTerminal(s)); }
    void visitTwoWindingsTransformer(const TwoWindingsTransformer& o, const Branch::Side& s) override { add(o.getTerminal(s)); }
    Names names;
    Callback cb;
};
// the same through the visitor that gives terminals
struct TerminalVisitor : AbstractTerminalTopologyVisitor {
    TerminalVisitor(Network& n, Rng& r) : cb(n, r) {}
    void visitTerminal(const Terminal& t) override { names.push_back(termName(t)); cb(); }
    Names names;
    Callback cb;
};
template <class T> std::vector<T*> all(stdcxx::range<T> r) { std::vector<T*> v; for (T& x : r) v.push_back(&x); return v; }
void visitVl(Network& n, Rng& r) {
    auto ls = all<VoltageLevel>(n.getVoltageLevels());
    if (ls.empty()) return;
    VoltageLevel& l = *r.pick(ls);
    Names want, got;
    try {
        if (r.chance(30)) { TerminalVisitor v(n, r); l.visitEquipments(v); got = v.names; }
        else { Visitor v(n, r); l.visitEquipments(v); got = v.names; }
    }
    catch (const Stop&) { return; }
    for (Terminal* t : terminalsOf(n)) if (&t->getVoltageLevel() == &l) want.push_back(termName(*t));
    sameNames("visitEquipments", l.getId(), got, want);
    count("c24.voltage-levels");
}
void visitBus(Network& n, Rng& r) {
    auto ls = all<VoltageLevel>(n.getVoltageLevels());
    if (ls.empty()) return;
    VoltageLevel& l = *r.pick(ls);
    bool bb = r.chance(50), nb = l.getTopologyKind() == TopologyKind::NODE_BREAKER;
    auto bs = all<Bus>(bb ? l.getBusBreakerView().getBuses() : l.getBusView().getBuses());
    if (bs.empty()) return;
    Bus& b = *r.pick(bs);
    std::string id = b.getId();
    bool connectable = r.chance(50);
    Names want;
    for (Terminal* t : terminalsOf(n)) {
        if (&t->getVoltageLevel() != &l) continue;
        stdcxx::Reference<Bus> x;
        if (!connectable || nb) x = bb ? t->getBusBreakerView().getBus() : t->getBusView().getBus();
        else {
            x = t->getBusBreakerView().getConnectableBus();
            if (!bb && x) x = l.getBusView().getMergedBus(x.get().getId());
        }
        if (x && x.get().getId() == id) want.push_back(termName(*t));
    }
    Names got;
    auto visit = [&](TopologyVisitor& v) { if (connectable) b.visitConnectedOrConnectableEquipments(v); else b.visitConnectedEquipments(v); };
    try {
        if (r.chance(30)) { TerminalVisitor v(n, r); visit(v); got = v.names; }
        else { Visitor v(n, r); visit(v); got = v.names; }
    }
    catch (const Stop&) { return; }
    sameNames(connectable ? "visitConnectedOrConnectableEquipments" : "visitConnectedEquipments", id, got, want);
    count("c24.buses");
}
struct Edge { unsigned long a, b; std::string sw; };
std::vector<Edge> edgesOf(VoltageLevel& l) {
    std::vector<Edge> es;
    VoltageLevel::NodeBreakerView& w = l.getNodeBreakerView();
    for (Switch& s : w.getSwitches()) es.push_back({w.getNode1(s.getId()), w.getNode2(s.getId()), s.getId()});
    for (const auto& c : w.getInternalConnections()) es.push_back({c.getNode1(), c.getNode2(), ""});
    return es;
}
std::vector<VoltageLevel*> nodeBreaker(Network& n) {
    std::vector<VoltageLevel*> v;
    for (auto* l : all<VoltageLevel>(n.getVoltageLevels())) if (l->getTopologyKind() == TopologyKind::NODE_BREAKER) v.push_back(l);
    return v;
}
void walkNodes(Network& n, Rng& r) {
    auto ls = nodeBreaker(n);
    if (ls.empty()) return;
    VoltageLevel& l = *r.pick(ls);
    auto es = edgesOf(l);
    std::vector<unsigned long> nodes;
    for (unsigned long x : l.getNodeBreakerView().getNodes()) nodes.push_back(x);
    if (nodes.empty()) return;
    unsigned long from = r.pick(nodes);
    uint64_t salt = r.next();
    bool many = r.chance(50);
    auto open = [&](const std::string& sw, unsigned long x, unsigned long y) { return (fnv(sw + fmt("%lu", std::min(x, y) * 1000 + std::max(x, y))) ^ salt) % 100 < (many ? 85 : 50); };      // decided by the edge
    std::set<unsigned long> seen{from};
    Callback cb(n, r);
    try {
        l.getNodeBreakerView().traverse(from, [&](unsigned long x, const stdcxx::Reference<Switch>& s, unsigned long y) {
            std::string id = s ? s.get().getId() : "";
            bool found = false;
            for (auto& e : es) found = found || (e.sw == id && ((e.a == x && e.b == y) || (e.a == y && e.b == x)));
            if (!found) fail("visit-differs", "traverse: there is no edge '%s' between %lu and %lu", id.c_str(), x, y);
            if (!seen.count(x)) fail("visit-differs", "traverse: node %lu is left before it was reached", x);
            if (seen.count(y)) fail("visit-differs", "traverse: node %lu is reached twice", y);
            cb();
            bool go = open(id, x, y);
            if (go) seen.insert(y);
            return go;
        });
    } catch (const Stop&) { return; }
    std::set<unsigned long> want{from};
    for (bool more = true; more;) {
        more = false;
        for (auto& e : es) if (want.count(e.a) != want.count(e.b) && open(e.sw, e.a, e.b)) { want.insert(e.a); want.insert(e.b); more = true; }
    }
    if (want != seen) fail("visit-differs", "traverse from node %lu of %s reaches %zu nodes, expected %zu", from, l.getId().c_str(), seen.size(), want.size());
    count("c24.node-walks");
}
struct Walker : voltage_level::TopologyTraverser {
    Walker(Network& n, Rng& r) : cb(n, r), salt(r.next()), pct(r.chance(30) ? 100 : 40 + (unsigned)r.below(60)) {}
    bool allow(const std::string& x) const { return (fnv(x) ^ salt) % 100 < pct; }
    bool traverse(Terminal& t, bool connected) override {
        std::string x = termName(t);
        if (!live.count(&t)) fail("visit-differs", "the traversal meets a terminal that does not exist");
        if (connected != t.isConnected() && t.getVoltageLevel().getTopologyKind() == TopologyKind::BUS_BREAKER) fail("visit-differs", "the traversal says that %s is %sconnected", x.c_str(), connected ? "" : "not ");
        terms.insert(x);
        cb();
        return allow(x);
    }
    bool traverse(Switch& s) override {
        if (!liveSw.count(&s)) fail("visit-differs", "the traversal meets a switch that does not exist");
        cb();
        return allow(s.getId());
    }
    Callback cb;
    uint64_t salt;
    unsigned pct;
    std::set<std::string> terms;
    std::set<Terminal*> live;
    std::set<Switch*> liveSw;
};
void walkTerminal(Network& n, Rng& r) {
    auto ts = terminalsOf(n);
    if (ts.empty()) return;
    Terminal& from = *r.pick(ts);
    Walker w(n, r);
    std::map<std::string, Terminal*> byName;
    for (auto* t : ts) { w.live.insert(t); byName[termName(*t)] = t; }
    for (Switch& s : n.getSwitches()) w.liveSw.insert(&s);
    try { from.traverse(w); }
    catch (const Stop&) { return; }
    // the terminals met: those allowed continue, through switches allowed, to the other terminals of the voltage level and to the other sides of branches
    bool exact = true;
    std::map<VoltageLevel*, std::vector<Edge>> edges;
    for (auto* l : all<VoltageLevel>(n.getVoltageLevels())) if (l->getTopologyKind() == TopologyKind::NODE_BREAKER) edges[l] = edgesOf(*l); 
    std::set<std::string> met{termName(from)};
    std::vector<Terminal*> todo{&from};
    while (!todo.empty()) {
        Terminal& t = *todo.back();
        todo.pop_back();
        if (!w.allow(termName(t))) continue;
        auto meet = [&](Terminal& o) { if (met.insert(termName(o)).second) todo.push_back(&o); };
        for (auto& o : t.getConnectable().get().getTerminals()) meet(o.get());
        VoltageLevel& l = t.getVoltageLevel();
        if (l.getTopologyKind() == TopologyKind::BUS_BREAKER) {
            exact = false;      // which terminals of another bus are met is not specified
            std::set<std::string> buses{t.getBusBreakerView().getConnectableBus().get().getId()};
            for (bool more = true; more;) {
                more = false;
                for (Switch& s : l.getBusBreakerView().getSwitches()) {
                    if (!w.allow(s.getId())) continue;
                    std::string a = l.getBusBreakerView().getBus1(s.getId()).get().getId(), b = l.getBusBreakerView().getBus2(s.getId()).get().getId();
                    if (buses.count(a) != buses.count(b)) { buses.insert(a); buses.insert(b); more = true; }
                }
            }
            for (Terminal* o : ts) if (&o->getVoltageLevel() == &l && buses.count(o->getBusBreakerView().getConnectableBus().get().getId())) meet(*o);
            continue;
        }
        std::set<unsigned long> nodes{t.getNodeBreakerView().getNode()};
        std::vector<unsigned long> q(nodes.begin(), nodes.end());
        while (!q.empty()) {
            unsigned long x = q.back();
            q.pop_back();
            for (auto& e : edges[&l]) {
                if ((e.a != x && e.b != x) || (!e.sw.empty() && !w.allow(e.sw))) continue;
                unsigned long y = e.a == x ? e.b : e.a;
                if (nodes.count(y)) continue;
                auto o = l.getNodeBreakerView().getOptionalTerminal(y);
                if (o) { meet(o.get()); if (!w.allow(termName(o.get()))) continue; }
                nodes.insert(y);
                q.push_back(y);
            }
        }
    }
    for (auto& x : w.terms) if (!met.count(x)) fail("visit-differs", "the traversal from %s meets %s, which cannot be reached", termName(from).c_str(), x.c_str());
    if (exact) for (auto& x : met) if (!w.terms.count(x)) fail("visit-differs", "the traversal from %s does not meet %s", termName(from).c_str(), x.c_str());
    // what is met from the first terminal, whatever the order: its voltage level as far as it is allowed, and the other sides of what is allowed there
    if (w.allow(termName(from))) {
        VoltageLevel& l = from.getVoltageLevel();
        std::set<std::string> must{termName(from)};
        auto meet = [&](Terminal& o) { must.insert(termName(o)); if (w.allow(termName(o))) for (auto& x : o.getConnectable().get().getTerminals()) must.insert(termName(x.get())); };
        meet(from);
        if (l.getTopologyKind() == TopologyKind::NODE_BREAKER) {
            std::set<unsigned long> nodes{from.getNodeBreakerView().getNode()};
            for (bool more = true; more;) {
                more = false;
                for (auto& e : edges[&l]) {
                    if (nodes.count(e.a) == nodes.count(e.b) || (!e.sw.empty() && !w.allow(e.sw))) continue;
                    unsigned long y = nodes.count(e.a) ? e.b : e.a;
                    auto o = l.getNodeBreakerView().getOptionalTerminal(y);
                    if (o) { meet(o.get()); if (!w.allow(termName(o.get()))) continue; }
                    nodes.insert(y);
                    more = true;
                }
            }
        } else {
            std::map<std::string, std::vector<Terminal*>> at;
            for (auto* o : ts) if (&o->getVoltageLevel() == &l) at[o->getBusBreakerView().getConnectableBus().get().getId()].push_back(o);
            std::string home = from.getBusBreakerView().getConnectableBus().get().getId();
            for (auto* o : at[home]) meet(*o);
            std::set<std::string> buses{home};
            for (bool more = true; more;) {
                more = false;
                for (Switch& s : l.getBusBreakerView().getSwitches()) {
                    std::string x = l.getBusBreakerView().getBus1(s.getId()).get().getId(), y = l.getBusBreakerView().getBus2(s.getId()).get().getId();
                    if (buses.count(x) == buses.count(y) || !w.allow(s.getId())) continue;
                    const std::string& z = buses.count(x) ? y : x;
                    size_t yes = 0, seen = 0;
                    for (auto* o : at[z]) { yes += w.allow(termName(*o)); seen += w.terms.count(termName(*o)); }
                    if (!at[z].empty() && !seen) fail("visit-differs", "the traversal from %s meets no terminal of the bus %s", termName(from).c_str(), z.c_str());
                    if (yes < at[z].size()) continue;      // one of them is asked
                    buses.insert(z);
                    more = true;
                }
            }
        }
        for (auto& x : must) if (!w.terms.count(x)) fail("visit-differs", "the traversal from %s does not meet %s", termName(from).c_str(), x.c_str());
    }
    count(exact ? "c24.terminal-walks" : "c24.terminal-walks-partial");
}
void eachVariant(Network& n, Rng& r) {
    VariantManager& vm = n.getVariantManager();
    Names got, want;
    for (auto& v : vm.getVariantIds()) want.push_back(v);
    Callback cb(n, r);
    std::string w = vm.getWorkingVariantId();
    try { vm.forEachVariant([&]() { got.push_back(vm.getWorkingVariantId()); cb(); }); sameNames("forEachVariant", "the network", got, want); }
    catch (const Stop&) {}
    if (vm.getWorkingVariantId() != w) fail("visit-differs", "forEachVariant leaves the working variant '%s' instead of '%s'", vm.getWorkingVariantId().c_str(), w.c_str());
    count("c24.for-each-variant");
}
void starved(Network& n, Rng& r) {        // a read that runs out of memory
    int64_t nth = 1 + (int64_t)r.below(r.chance(50) ? 30 : 3000);
    unsigned what = (unsigned)r.below(5);
    ExportOptions o;
    simrt::arm_alloc(nth, r.chance(30));
    try {
        switch (what) {
            case 0: case 1: topologyText(n); break;
            case 2: snapshotVariant(n, n.getVariantManager().getWorkingVariantId()); break;
            case 3: for (Component& c : n.getBusView().getConnectedComponents()) for (Bus& b : c.getBuses()) (void)b.getId(); break;
            case 4: writeText(n, o); break;
        }
    } catch (const std::bad_alloc&) { count("fault.alloc"); }
    catch (const std::ios_base::failure&) { count("fault.alloc"); }
    catch (const powsybl::PowsyblException& e) { if (!simrt::alloc_fault_fired()) throw; count("fault.alloc"); }
    simrt::arm_alloc(-1, false);
}
typedef void (*Fn)(Network&, Rng&);
const std::map<std::string, Fn>& visits() {
    static const std::map<std::string, Fn> m{{"v.level", visitVl}, {"v.bus", visitBus}, {"v.nodes", walkNodes}, {"v.terminal", walkTerminal}, {"v.variants", eachVariant}, {"v.starved", starved}};
    return m;
}
void genC24(Plan& p, Rng& r) {
    shape(p, r, 22);
    if (r.chance(80)) genOps(p, r, 1 + r.below(15), Mix{20, 12, 10, 40, 20, 1});
    std::vector<std::string> ks;
    for (auto& k : visits()) ks.push_back(k.first);
    size_t n = 2 + r.below(14);
    for (size_t i = 0; i < n; ++i) { Op o; o.kind = r.pick(ks); o.seed = r.next(); p.ops.insert(p.ops.begin() + r.below(p.ops.size() + 1), o); }
}
void run(World& w, const Plan& p, bool visiting) {
    Rng br((uint64_t)p.get("build"));
    buildNetwork(w, br, p);
    w.wild = p.get("wild", 1) != 0;
    int k = 0;
    for (const Op& op : p.ops) {
        g_where = fmt("operation %d (%s)", k++, op.kind.c_str());
        if (op.kind.compare(0, 2, "v.")) {
            Effect e = execOp(w, op);
            if (!e.noop) count(("op." + op.kind + (e.threw ? ".refused" : "")).c_str());
            simrt::hash_event(fnv(e.what + e.error));
            continue;
        }
        if (!visiting || w.working.empty()) continue;
        Rng r(op.seed);
        simrt::Sut s;
        Network& n = w.n();
        Snap before;
        std::string topo;
        bool hot = r.chance(50);
        if (hot) { before = snapshot(n); topo = topologyText(n); }
        visits().at(op.kind)(n, r);
        count(("visit." + op.kind).c_str());
        if (n.getVariantManager().getWorkingVariantId() != w.working) fail("visit-changed-state", "the working variant is '%s' instead of '%s'", n.getVariantManager().getWorkingVariantId().c_str(), w.working.c_str());
        if (!hot) continue;
        std::string d = diff(before, snapshot(n));
        if (!d.empty()) fail("visit-changed-state", "%s", d.c_str());
        if (topologyText(n) != topo) fail("visit-changed-state", "the topology is another one: %s", textDiff(topo, topologyText(n)).c_str());
    }
    g_where = "end";
    simrt::Sut s;
    if (w.working.empty()) w.n().getVariantManager().setWorkingVariant(w.working = VariantManager::getInitialVariantId());
}
void runC24(const Plan& p) {
    registerSerializers();
    World a, b;
    run(b, p, false);
    run(a, p, true);
    simrt::Sut s;
    std::vector<std::string> vs;
    for (auto& v : a.variants) vs.push_back(v);
    for (auto& v : vs) {
        VariantScope x(a.n(), v), y(b.n(), v);
        std::string ta = topologyText(a.n()), tb = topologyText(b.n());
        if (ta != tb) fail("visit-changed-state", "the topology in variant %s differs from that of a network on which nothing was read: %s", v.c_str(), textDiff(tb, ta).c_str());
        checkTopology(a.n(), true, true);
        checkComponents(a.n());
    }
    std::string d = diff(snapshot(b.n()), snapshot(a.n()));
    if (!d.empty()) fail("visit-changed-state", "the network differs from one on which nothing was read: %s", d.c_str());
    count("c24.histories");
}
RegCheck c24("C24", genC24, runC24);
}  // namespace
