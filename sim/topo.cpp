// Topology oracle: recomputes every bus, component and terminal answer from the primitive data
// (nodes, switches, internal connections, terminals) and compares it with what the views return.
#include <algorithm>
#include <cmath>
#include <powsybl/iidm/Bus.hpp>
#include <powsybl/iidm/BusbarSection.hpp>
#include <powsybl/iidm/Component.hpp>
#include <powsybl/iidm/ConnectableType.hpp>
#include <powsybl/iidm/HvdcConverterStation.hpp>
#include <powsybl/iidm/HvdcLine.hpp>
#include <powsybl/iidm/Line.hpp>
#include <powsybl/iidm/Substation.hpp>
#include <powsybl/iidm/Switch.hpp>
#include <powsybl/iidm/ThreeWindingsTransformer.hpp>
#include <powsybl/iidm/TwoWindingsTransformer.hpp>

#include "world.h"
using namespace powsybl::iidm;

namespace {
struct Dsu {
    std::map<unsigned long, unsigned long> p;
    unsigned long find(unsigned long x) {
        auto i = p.find(x);
        if (i == p.end()) { p[x] = x; return x; }
        while (p[x] != x) x = p[x] = p[p[x]];
        return x;
    }
    void join(unsigned long a, unsigned long b) { a = find(a); b = find(b); if (a != b) p[std::max(a, b)] = std::min(a, b); }
};
bool isBranchType(ConnectableType t) {
    switch (t) {
        case ConnectableType::LINE: case ConnectableType::TWO_WINDINGS_TRANSFORMER: case ConnectableType::THREE_WINDINGS_TRANSFORMER:
        case ConnectableType::HVDC_CONVERTER_STATION: case ConnectableType::DANGLING_LINE: return true;
        default: return false;
    }
}
std::string setText(const std::multiset<std::string>& s) {
    std::string r;
    for (auto& x : s) r += (r.empty() ? "" : ",") + x;
    return "{" + r + "}";
}
struct ExpBus {
    std::string id;
    std::multiset<std::string> terms;
    std::set<std::string> confs;        // bus/breaker only
};
struct Exp {
    std::map<std::string, ExpBus> busView, busBreaker;             // keyed by key (node min or first bus id)
    std::map<const Terminal*, std::string> tBus, tBB;               // terminal -> key, "" if none
    std::map<unsigned long, std::string> nodeBB;                    // node -> bus of the bus/breaker view
    std::map<std::string, std::vector<Terminal*>> reach;            // bus without terminal of the bus/breaker view -> terminals joined to it by closed switches
};
struct Ctx {
    Network& n;
    std::map<const VoltageLevel*, std::vector<Terminal*>> terms;
    std::map<const Terminal*, std::string> names;
    std::map<const VoltageLevel*, Exp> exp;
    explicit Ctx(Network& net) : n(net) {
        for (Identifiable& o : n.getIdentifiables())
            if (auto* c = dynamic_cast<Connectable*>(&o)) {
                int i = 0;
                for (auto& t : c->getTerminals()) {
                    terms[&t.get().getVoltageLevel()].push_back(&t.get());
                    names[&t.get()] = c->getId() + "#" + std::to_string(i++);
                }
            }
    }
};

void expectNB(Ctx& c, VoltageLevel& vl, Exp& e) {
    auto& nb = vl.getNodeBreakerView();
    std::map<unsigned long, Terminal*> at;
    for (Terminal* t : c.terms[&vl]) {
        unsigned long node = t->getNodeBreakerView().getNode();
        if (at.count(node)) fail("two-terminals-on-a-node", "node %lu of '%s' has %s and %s", node, vl.getId().c_str(), c.names[at[node]].c_str(), c.names[t].c_str());
        at[node] = t;
    }
    Dsu closed, unret;
    std::set<unsigned long> touched;
    for (Switch& s : nb.getSwitches()) {
        unsigned long a = nb.getNode1(s.getId()), b = nb.getNode2(s.getId());
        touched.insert(a);
        touched.insert(b);
        if (!s.isOpen()) closed.join(a, b);
        if (!s.isOpen() && !s.isRetained()) unret.join(a, b);
    }
    for (const auto& ic : nb.getInternalConnections()) {
        touched.insert(ic.getNode1());
        touched.insert(ic.getNode2());
        closed.join(ic.getNode1(), ic.getNode2());
        unret.join(ic.getNode1(), ic.getNode2());
    }
    std::map<unsigned long, std::vector<Terminal*>> joined;
    for (auto& x : at) if (touched.count(x.first)) joined[closed.find(x.first)].push_back(x.second);
    for (int pass = 0; pass < 2; ++pass) {
        Dsu& d = pass ? unret : closed;
        std::map<unsigned long, std::vector<unsigned long>> g;
        for (unsigned long v : touched) g[d.find(v)].push_back(v);
        for (auto& x : g) {
            int feeders = 0, branches = 0, bars = 0;
            ExpBus b;
            std::vector<Terminal*> ts;
            for (unsigned long v : x.second) {
                auto i = at.find(v);
                if (i == at.end()) continue;
                ts.push_back(i->second);
                b.terms.insert(c.names[i->second]);
                ConnectableType t = i->second->getConnectable().get().getType();
                if (t == ConnectableType::BUSBAR_SECTION) ++bars;
                else { ++feeders; if (isBranchType(t)) ++branches; }
            }
            bool valid = pass ? true : (bars >= 1 && feeders >= 1) || (branches >= 1 && feeders >= 2);
            if (!valid) continue;
            b.id = vl.getId() + "_" + std::to_string(x.first);
            for (Terminal* t : ts) (pass ? e.tBB : e.tBus)[t] = b.id;
            (pass ? e.busBreaker : e.busView)[b.id] = b;
            if (pass) {
                for (unsigned long v : x.second) e.nodeBB[v] = b.id;
                if (ts.empty()) e.reach[b.id] = joined[closed.find(x.second[0])];
            }
        }
    }
}
void expectBB(Ctx& c, VoltageLevel& vl, Exp& e) {
    auto& bb = vl.getBusBreakerView();
    std::vector<std::string> ids;
    std::map<std::string, unsigned long> idx;
    for (Bus& b : bb.getBuses()) { idx[b.getId()] = ids.size(); ids.push_back(b.getId()); }
    std::map<std::string, std::vector<Terminal*>> on;
    for (Terminal* t : c.terms[&vl]) {
        auto cb = t->getBusBreakerView().getConnectableBus();
        if (!cb) fail("no-connectable-bus", "terminal %s has no connectable bus", c.names[t].c_str());
        if (!idx.count(cb.get().getId())) fail("foreign-connectable-bus", "connectable bus '%s' of terminal %s is not a bus of '%s'", cb.get().getId().c_str(), c.names[t].c_str(), vl.getId().c_str());
        if (t->isConnected()) on[cb.get().getId()].push_back(t);
    }
    Dsu d;
    for (size_t i = 0; i < ids.size(); ++i) d.find(i);
    for (Switch& s : bb.getSwitches()) {
        auto b1 = bb.getBus1(s.getId()), b2 = bb.getBus2(s.getId());
        if (!b1 || !b2) fail("switch-without-bus", "switch '%s' has no bus at one end", s.getId().c_str());
        if (!s.isOpen()) d.join(idx.at(b1.get().getId()), idx.at(b2.get().getId()));
    }
    std::map<unsigned long, std::vector<unsigned long>> g;
    for (size_t i = 0; i < ids.size(); ++i) {
        g[d.find(i)].push_back(i);
        ExpBus b;
        b.id = ids[i];
        for (Terminal* t : on[ids[i]]) { b.terms.insert(c.names[t]); e.tBB[t] = ids[i]; }
        e.busBreaker[ids[i]] = b;
    }
    for (auto& x : g) {
        ExpBus b;
        bool valid = false;
        for (unsigned long i : x.second) {
            b.confs.insert(ids[i]);
            for (Terminal* t : on[ids[i]]) { b.terms.insert(c.names[t]); if (isBranchType(t->getConnectable().get().getType())) valid = true; }
        }
        if (!valid) continue;
        std::string key = *b.confs.begin();
        for (unsigned long i : x.second) for (Terminal* t : on[ids[i]]) e.tBus[t] = key;
        e.busView[key] = b;   // id: only "<vl>_<k>" is promised
    }
}
Exp& expect(Ctx& c, VoltageLevel& vl) {
    auto i = c.exp.find(&vl);
    if (i != c.exp.end()) return i->second;
    Exp& e = c.exp[&vl];
    if (vl.getTopologyKind() == TopologyKind::NODE_BREAKER) expectNB(c, vl, e); else expectBB(c, vl, e);
    return e;
}
std::multiset<std::string> termsOf(Ctx& c, Bus& b) {
    std::multiset<std::string> s;
    for (Terminal& t : b.getConnectedTerminals()) {
        auto i = c.names.find(&t);
        if (i == c.names.end()) fail("dangling-terminal", "bus '%s' lists a terminal that belongs to no equipment of the network", b.getId().c_str());
        s.insert(i->second);
    }
    return s;
}
std::string opt(const stdcxx::Reference<Bus>& b) { return b ? b.get().getId() : std::string("none"); }

void checkBusSet(Ctx& c, VoltageLevel& vl, const char* view, bool nb, bool isBusView, Exp& exps, std::map<std::string, std::string>& realId) {
    auto& exp = isBusView ? exps.busView : exps.busBreaker;
    std::set<std::string> seen;
    stdcxx::range<Bus> buses = isBusView ? vl.getBusView().getBuses() : vl.getBusBreakerView().getBuses();
    std::set<std::string> ids;
    for (Bus& b : buses) {
        if (!ids.insert(b.getId()).second) fail("duplicate-bus", "%s of '%s' lists bus '%s' twice", view, vl.getId().c_str(), b.getId().c_str());
        std::multiset<std::string> ts = termsOf(c, b);
        std::string key;
        if (nb || !isBusView) key = b.getId();
        else {
            // find the configured buses that are merged in it
            for (auto& x : exp) if (x.second.terms == ts) key = x.first;
        }
        auto i = exp.find(key);
        if (i == exp.end()) fail("wrong-bus", "%s of '%s' has bus '%s' with terminals %s, which the switches do not produce", view, vl.getId().c_str(), b.getId().c_str(), setText(ts).c_str());
        if (!seen.insert(key).second) fail("duplicate-bus", "%s of '%s' has two buses for the same group of nodes (%s)", view, vl.getId().c_str(), key.c_str());
        if (ts != i->second.terms) fail("wrong-bus-content", "%s bus '%s' has terminals %s, expected %s", view, b.getId().c_str(), setText(ts).c_str(), setText(i->second.terms).c_str());
        if (b.getConnectedTerminalCount() != ts.size()) fail("wrong-terminal-count", "%s bus '%s' counts %lu terminals but lists %zu", view, b.getId().c_str(), b.getConnectedTerminalCount(), ts.size());
        if (&b.getVoltageLevel() != &vl) fail("wrong-bus-vl", "%s bus '%s' is in voltage level '%s'", view, b.getId().c_str(), b.getVoltageLevel().getId().c_str());
        if ((nb || isBusView) && b.isFictitious() != vl.isFictitious()) fail("wrong-bus-fictitious", "%s bus '%s' is fictitious: %d, its voltage level: %d", view, b.getId().c_str(), (int) b.isFictitious(), (int) vl.isFictitious());
        if (!nb && isBusView && b.getId().compare(0, vl.getId().size() + 1, vl.getId() + "_") != 0) fail("wrong-bus-id", "merged bus '%s' of '%s'", b.getId().c_str(), vl.getId().c_str());
        auto f = isBusView ? vl.getBusView().getBus(b.getId()) : vl.getBusBreakerView().getBus(b.getId());
        if (!f || &f.get() != &b) fail("bus-lookup", "%s of '%s' lists bus '%s' but getBus does not return it", view, vl.getId().c_str(), b.getId().c_str());
        auto nf = isBusView ? c.n.getBusView().getBus(b.getId()) : c.n.getBusBreakerView().getBus(b.getId());
        if (!nf || &nf.get() != &b) fail("network-bus-lookup", "network %s.getBus(\"%s\") returns %s instead of the bus of '%s'", view, b.getId().c_str(), nf ? "another bus" : "nothing", vl.getId().c_str());
        // voltage
        if (!ts.empty() && nb) {
            double v = b.getV(), a = b.getAngle();
            bool okv = false, oka = false;
            for (Terminal& t : b.getConnectedTerminals()) { okv |= hexd(t.getV()) == hexd(v); oka |= hexd(t.getAngle()) == hexd(a); }
            if (!okv || !oka) fail("wrong-bus-voltage", "%s bus '%s' has V %s angle %s, none of its terminals has", view, b.getId().c_str(), hexd(v).c_str(), hexd(a).c_str());
        }
        if (ts.empty() && nb && !isBusView) {
            // the values of a bus without terminal are those of a terminal it is joined to by closed switches
            double v = b.getV(), a = b.getAngle();
            auto& reach = exps.reach[key];
            count(reach.empty() ? "topo.lonely-bus" : "topo.bus-joined-to-terminals");
            bool okv = reach.empty() && std::isnan(v), oka = reach.empty() && std::isnan(a);
            for (Terminal* t : reach) { okv |= hexd(t->getV()) == hexd(v); oka |= hexd(t->getAngle()) == hexd(a); }
            if (!okv || !oka) fail("wrong-bus-voltage", "bus '%s', which has no terminal and is joined to %zu terminal(s) by closed switches, has V %s angle %s", b.getId().c_str(), reach.size(), hexd(v).c_str(), hexd(a).c_str());
        }
        if (!nb && isBusView) {
            double v = b.getV(), a = b.getAngle();
            bool okv = false, oka = false, nanv = true, nana = true;
            for (auto& cid : i->second.confs) {
                auto cb = vl.getBusBreakerView().getBus(cid);
                okv |= hexd(cb.get().getV()) == hexd(v);
                oka |= hexd(cb.get().getAngle()) == hexd(a);
                nanv &= std::isnan(cb.get().getV());
                nana &= std::isnan(cb.get().getAngle());
                auto mb = vl.getBusView().getMergedBus(cid);
                if (!mb || &mb.get() != &b) fail("merged-bus-lookup", "getMergedBus('%s') is %s, expected '%s'", cid.c_str(), opt(mb).c_str(), b.getId().c_str());
            }
            if (!okv || !oka || std::isnan(v) != nanv || std::isnan(a) != nana) fail("wrong-bus-voltage", "merged bus '%s' has V %s angle %s, not a value of its buses", b.getId().c_str(), hexd(v).c_str(), hexd(a).c_str());
        }
        realId[key] = b.getId();
    }
    for (auto& x : exp)
        if (!seen.count(x.first)) fail("missing-bus", "%s of '%s' lacks bus %s with terminals %s", view, vl.getId().c_str(), x.first.c_str(), setText(x.second.terms).c_str());
    auto none = isBusView ? vl.getBusView().getBus("no such bus") : vl.getBusBreakerView().getBus("no such bus");
    if (none) fail("bus-lookup", "getBus of an unknown id returns '%s'", none.get().getId().c_str());
}
}  // namespace

namespace {
// what is read through constant references is what is read through the others
template <class A, class B> void sameObjects(const char* what, const std::string& of, A&& a, B&& b) {
    std::vector<const void*> x, y;
    for (auto& o : a) x.push_back(&o);
    for (auto& o : b) y.push_back(&o);
    std::sort(x.begin(), x.end());
    std::sort(y.begin(), y.end());
    if (x != y) fail("constant-view", "%s of '%s' lists %zu objects when it is not constant, %zu others when it is", what, of.c_str(), x.size(), y.size());
}
template <class A, class B> void sameObject(const char* what, const std::string& of, const A& a, const B& b) {
    if ((a ? &a.get() : nullptr) != (b ? &b.get() : nullptr)) fail("constant-view", "%s of '%s' is another object when it is read through a constant reference", what, of.c_str());
}
void checkConstants(Network& n) {
    const Network& cn = n;
    sameObjects("the bus view", n.getId(), n.getBusView().getBuses(), cn.getBusView().getBuses());
    sameObjects("the bus/breaker view", n.getId(), n.getBusBreakerView().getBuses(), cn.getBusBreakerView().getBuses());
    sameObjects("the switches", n.getId(), n.getBusBreakerView().getSwitches(), cn.getBusBreakerView().getSwitches());
    sameObjects("the connected components", n.getId(), n.getBusView().getConnectedComponents(), cn.getBusView().getConnectedComponents());
    sameObjects("the synchronous components", n.getId(), n.getBusView().getSynchronousComponents(), cn.getBusView().getSynchronousComponents());
    for (Component& k : n.getBusView().getConnectedComponents()) sameObjects("a component", n.getId(), k.getBuses(), static_cast<const Component&>(k).getBuses());
    auto bus = [](Bus& b) {
        const Bus& c = b;
        sameObjects("the terminals", b.getId(), b.getConnectedTerminals(), c.getConnectedTerminals());
        sameObject("the connected component", b.getId(), b.getConnectedComponent(), c.getConnectedComponent());
        sameObject("the synchronous component", b.getId(), b.getSynchronousComponent(), c.getSynchronousComponent());
        if (&b.getVoltageLevel() != &c.getVoltageLevel()) fail("constant-view", "the voltage level of '%s' is another one", b.getId().c_str());
    };
    for (Bus& b : n.getBusView().getBuses()) { sameObject("a bus", b.getId(), n.getBusView().getBus(b.getId()), cn.getBusView().getBus(b.getId())); bus(b); }
    for (Bus& b : n.getBusBreakerView().getBuses()) { sameObject("a bus", b.getId(), n.getBusBreakerView().getBus(b.getId()), cn.getBusBreakerView().getBus(b.getId())); bus(b); }
    for (VoltageLevel& vl : n.getVoltageLevels()) {
        const VoltageLevel& cl = vl;
        auto& v = vl.getBusView();
        auto& cv = cl.getBusView();
        sameObjects("the bus view", vl.getId(), v.getBuses(), cv.getBuses());
        for (Bus& b : v.getBuses()) sameObject("a bus", b.getId(), v.getBus(b.getId()), cv.getBus(b.getId()));
        auto& bb = vl.getBusBreakerView();
        auto& cb = cl.getBusBreakerView();
        sameObjects("the bus/breaker view", vl.getId(), bb.getBuses(), cb.getBuses());
        sameObjects("the switches", vl.getId(), bb.getSwitches(), cb.getSwitches());
        for (Bus& b : bb.getBuses()) {
            sameObject("a bus", b.getId(), bb.getBus(b.getId()), cb.getBus(b.getId()));
            if (vl.getTopologyKind() == TopologyKind::BUS_BREAKER) sameObject("the merged bus", b.getId(), v.getMergedBus(b.getId()), cv.getMergedBus(b.getId()));
        }
        for (Switch& s : bb.getSwitches()) {
            sameObject("a switch", s.getId(), bb.getSwitch(s.getId()), cb.getSwitch(s.getId()));
            sameObject("bus 1", s.getId(), bb.getBus1(s.getId()), cb.getBus1(s.getId()));
            sameObject("bus 2", s.getId(), bb.getBus2(s.getId()), cb.getBus2(s.getId()));
        }
        if (vl.getTopologyKind() != TopologyKind::NODE_BREAKER) continue;
        auto& nb = vl.getNodeBreakerView();
        auto& cnb = cl.getNodeBreakerView();
        sameObjects("the switches", vl.getId(), nb.getSwitches(), cnb.getSwitches());
        sameObjects("the busbar sections", vl.getId(), nb.getBusbarSections(), cnb.getBusbarSections());
        std::set<unsigned long> a, b;
        for (unsigned long k : nb.getNodes()) {
            a.insert(k);
            sameObject("the terminal of a node", vl.getId(), nb.getOptionalTerminal(k), cnb.getOptionalTerminal(k));
        }
        for (unsigned long k : cnb.getNodes()) b.insert(k);
        if (a != b) fail("constant-view", "the nodes of '%s' are others when they are read through a constant reference", vl.getId().c_str());
        for (Switch& s : nb.getSwitches()) {
            sameObject("a switch", s.getId(), nb.getSwitch(s.getId()), cnb.getSwitch(s.getId()));
            if (!cnb.getOptionalTerminal(cnb.getNode1(s.getId()))) continue;
            sameObject("terminal 1", s.getId(), nb.getTerminal1(s.getId()), cnb.getOptionalTerminal(nb.getNode1(s.getId())));
            sameObject("terminal 1", s.getId(), nb.getTerminal1(s.getId()), cnb.getTerminal1(s.getId()));
        }
        for (Switch& s : nb.getSwitches()) {
            if (!cnb.getOptionalTerminal(cnb.getNode2(s.getId()))) continue;
            sameObject("terminal 2", s.getId(), nb.getTerminal2(s.getId()), cnb.getOptionalTerminal(nb.getNode2(s.getId())));
            sameObject("terminal 2", s.getId(), nb.getTerminal2(s.getId()), cnb.getTerminal2(s.getId()));
        }
    }
    for (Terminal* t : terminalsOf(n)) {
        const Terminal& ct = *t;
        std::string id = termName(*t);
        sameObject("the bus", id, t->getBusView().getBus(), ct.getBusView().getBus());
        sameObject("the connectable bus", id, t->getBusView().getConnectableBus(), ct.getBusView().getConnectableBus());
        sameObject("the bus/breaker bus", id, t->getBusBreakerView().getBus(), ct.getBusBreakerView().getBus());
        sameObject("the bus/breaker connectable bus", id, t->getBusBreakerView().getConnectableBus(), ct.getBusBreakerView().getConnectableBus());
        sameObject("the equipment", id, t->getConnectable(), ct.getConnectable());
    }
}
}  // namespace

void checkTopology(Network& n, bool doBus, bool doBB) {
    unsigned long h = n.getConnectableCount();
    for (Switch& x : n.getSwitches()) h += x.isOpen() ? 1 : 2;
    if (doBus && doBB && h % 3 == 0) checkConstants(n);
    Ctx c(n);
    std::set<std::string> allBus, allBB;
    unsigned long retained = 0;
    for (VoltageLevel& vl : n.getVoltageLevels()) {
        bool nb = vl.getTopologyKind() == TopologyKind::NODE_BREAKER;
        Exp& e = expect(c, vl);
        std::map<std::string, std::string> idBus, idBB;
        if (doBus) checkBusSet(c, vl, "BusView", nb, true, e, idBus);
        if (doBB) checkBusSet(c, vl, "BusBreakerView", nb, false, e, idBB);
        for (auto& x : idBus) allBus.insert(x.second);
        for (auto& x : idBB) allBB.insert(x.second);
        if (!nb && doBus)
            for (Bus& b : vl.getBusBreakerView().getBuses()) {
                bool in = false;
                for (auto& x : e.busView) in |= x.second.confs.count(b.getId()) > 0;
                auto mb = vl.getBusView().getMergedBus(b.getId());
                if (!in && mb) fail("merged-bus-lookup", "bus '%s' is in no valid merged bus but getMergedBus returns '%s'", b.getId().c_str(), mb.get().getId().c_str());
            }
        // every terminal
        for (Terminal* t : c.terms[&vl]) {
            const std::string& name = c.names[t];
            if (doBus) {
                auto i = e.tBus.find(t);
                std::string want = i == e.tBus.end() ? "none" : idBus[i->second];
                std::string got = opt(t->getBusView().getBus());
                if (want != got) fail("terminal-bus", "terminal %s: BusView.getBus is %s, expected %s", name.c_str(), got.c_str(), want.c_str());
                if (nb && t->isConnected() != (want != "none")) fail("terminal-connected", "terminal %s isConnected is %d but its bus is %s", name.c_str(), (int)t->isConnected(), want.c_str());
                std::string cb = opt(t->getBusView().getConnectableBus());
                if (want != "none" && cb != want) fail("terminal-connectable-bus", "terminal %s on bus %s has connectable bus %s", name.c_str(), want.c_str(), cb.c_str());
                if (nb && want == "none") {
                    if (e.busView.empty() ? cb != "none" : !e.busView.count(cb)) fail("terminal-connectable-bus", "terminal %s: BusView.getConnectableBus is %s", name.c_str(), cb.c_str());
                }
                if (!nb) {
                    std::string k = t->getBusBreakerView().getConnectableBus().get().getId(), w = "none";
                    for (auto& x : e.busView) if (x.second.confs.count(k)) w = idBus[x.first];
                    if (cb != w) fail("terminal-connectable-bus", "terminal %s: BusView.getConnectableBus is %s, expected %s", name.c_str(), cb.c_str(), w.c_str());
                }
            }
            if (doBB) {
                auto i = e.tBB.find(t);
                std::string want = i == e.tBB.end() ? "none" : i->second;
                std::string got = opt(t->getBusBreakerView().getBus());
                if (want != got) fail("terminal-bus", "terminal %s: BusBreakerView.getBus is %s, expected %s", name.c_str(), got.c_str(), want.c_str());
                std::string cb = opt(t->getBusBreakerView().getConnectableBus());
                if (want != "none" && cb != want) fail("terminal-connectable-bus", "terminal %s on bus %s has bus/breaker connectable bus %s", name.c_str(), want.c_str(), cb.c_str());
            }
        }
        // switches seen from the bus/breaker view
        if (doBB) {
            std::set<std::string> got, want;
            for (Switch& s : vl.getBusBreakerView().getSwitches()) got.insert(s.getId());
            for (Switch& s : vl.getSwitches()) if (!nb || s.isRetained()) want.insert(s.getId());
            if (got != want || vl.getBusBreakerView().getSwitchCount() != want.size()) fail("bus-breaker-switches", "'%s' lists %zu bus/breaker switches (count %lu), expected %zu", vl.getId().c_str(), got.size(), vl.getBusBreakerView().getSwitchCount(), want.size());
            retained += want.size();
            for (auto& id : want) {
                auto b1 = vl.getBusBreakerView().getBus1(id), b2 = vl.getBusBreakerView().getBus2(id);
                if (nb) {
                    unsigned long nd[2] = {vl.getNodeBreakerView().getNode1(id), vl.getNodeBreakerView().getNode2(id)};
                    for (int k = 0; k < 2; ++k) {
                        auto& b = k ? b2 : b1;
                        if (!b) fail("switch-bus", "retained switch '%s' has no bus at side %d", id.c_str(), k + 1);
                        if (!e.busBreaker.count(b.get().getId())) fail("switch-bus", "retained switch '%s' is on unknown bus '%s'", id.c_str(), b.get().getId().c_str());
                        if (e.nodeBB[nd[k]] != b.get().getId()) fail("switch-bus", "side %d of switch '%s' is on bus '%s' but its node %lu is on '%s'", k + 1, id.c_str(), b.get().getId().c_str(), nd[k], e.nodeBB[nd[k]].c_str());
                    }
                }
            }
        }
    }
    auto cmp = [](const char* what, const std::set<std::string>& want, const std::vector<std::string>& got) {
        std::set<std::string> g(got.begin(), got.end());
        if (g != want || got.size() != want.size()) {
            std::string a, b;
            for (auto& x : want) a += x + ",";
            for (auto& x : got) b += x + ",";
            fail("network-buses", "network %s lists {%s}, the voltage levels have {%s}", what, b.c_str(), a.c_str());
        }
    };
    if (doBus) cmp("BusView", allBus, idsIn(n.getBusView().getBuses()));
    if (doBB) {
        cmp("BusBreakerView", allBB, idsIn(n.getBusBreakerView().getBuses()));
        if (n.getBusBreakerView().getSwitchCount() != retained) fail("network-switch-count", "network BusBreakerView counts %lu switches, expected %lu", n.getBusBreakerView().getSwitchCount(), retained);
    }
}

void checkComponents(Network& n) {
    Ctx c(n);
    std::vector<Bus*> buses;
    std::map<const Bus*, unsigned long> idx;
    for (VoltageLevel& vl : n.getVoltageLevels()) for (Bus& b : vl.getBusView().getBuses()) { idx[&b] = buses.size(); buses.push_back(&b); }
    for (int pass = 0; pass < 2; ++pass) {
        const char* kind = pass ? "synchronous" : "connected";
        Dsu d;
        for (size_t i = 0; i < buses.size(); ++i) d.find(i);
        auto link = [&](Terminal& a, Terminal& b) {
            auto x = a.getBusView().getBus(), y = b.getBusView().getBus();
            if (x && y) {
                if (!idx.count(&x.get()) || !idx.count(&y.get())) fail("terminal-bus", "a terminal's bus is not a bus of its voltage level");
                d.join(idx[&x.get()], idx[&y.get()]);
            }
        };
        for (Line& l : n.getLines()) link(l.getTerminal1(), l.getTerminal2());
        for (TwoWindingsTransformer& l : n.getTwoWindingsTransformers()) link(l.getTerminal1(), l.getTerminal2());
        for (ThreeWindingsTransformer& l : n.getThreeWindingsTransformers()) {
            link(l.getLeg1().getTerminal(), l.getLeg2().getTerminal());
            link(l.getLeg1().getTerminal(), l.getLeg3().getTerminal());
            link(l.getLeg2().getTerminal(), l.getLeg3().getTerminal());
        }
        if (!pass) for (HvdcLine& l : n.getHvdcLines()) link(l.getConverterStation1().get().getTerminal(), l.getConverterStation2().get().getTerminal());
        std::map<unsigned long, std::set<const Bus*>> want;
        size_t largest = 0;
        for (size_t i = 0; i < buses.size(); ++i) { auto& s = want[d.find(i)]; s.insert(buses[i]); largest = std::max(largest, s.size()); }
        std::map<unsigned long, std::set<const Bus*>> got;
        auto comp = [&](Bus& b) { return pass ? b.getSynchronousComponent() : b.getConnectedComponent(); };
        auto inMain = [&](Bus& b) { return pass ? b.isInMainSynchronousComponent() : b.isInMainConnectedComponent(); };
        for (Bus* b : buses) {
            auto k = comp(*b);
            if (!k) fail("no-component", "bus '%s' has no %s component", b->getId().c_str(), kind);
            got[k.get().getNum()].insert(b);
            if (inMain(*b) != (k.get().getNum() == 0)) fail("main-component", "bus '%s' is in %s component %lu but isInMain is %d", b->getId().c_str(), kind, k.get().getNum(), (int)inMain(*b));
        }
        if (got.size() != want.size()) fail("component-count", "%zu %s components, expected %zu", got.size(), kind, want.size());
        std::map<const Bus*, unsigned long> num;
        for (auto& x : got) {
            unsigned long k = d.find(idx[*x.second.begin()]);
            if (want[k] != x.second) fail("wrong-component", "%s component %lu holds %zu buses (first '%s'), expected %zu", kind, x.first, x.second.size(), (*x.second.begin())->getId().c_str(), want[k].size());
            for (auto* b : x.second) num[b] = x.first;
        }
        if (!got.empty() && got.begin()->first == 0 && got.begin()->second.size() != largest) fail("main-component", "main %s component has %zu buses, the largest has %zu", kind, got.begin()->second.size(), largest);
        std::set<unsigned long> nums;
        auto comps = pass ? n.getBusView().getSynchronousComponents() : n.getBusView().getConnectedComponents();
        for (Component& k : comps) {
            if (!nums.insert(k.getNum()).second) fail("component-list", "%s component %lu listed twice", kind, k.getNum());
            auto i = got.find(k.getNum());
            if (i == got.end()) fail("component-list", "%s component %lu is listed but no bus is in it", kind, k.getNum());
            if (k.getSize() != i->second.size()) fail("component-size", "%s component %lu has size %lu, holds %zu buses", kind, k.getNum(), k.getSize(), i->second.size());
            std::set<const Bus*> in;
            for (Bus& b : k.getBuses()) in.insert(&b);
            if (in != i->second) fail("component-buses", "%s component %lu lists %zu buses, expected %zu", kind, k.getNum(), in.size(), i->second.size());
        }
        if (nums.size() != got.size()) fail("component-list", "%zu %s components listed, expected %zu", nums.size(), kind, got.size());
        if (!nums.empty() && *nums.rbegin() + 1 != nums.size()) fail("component-num", "%s component numbers are not 0..%zu", kind, nums.size() - 1);
        // bus/breaker view
        for (VoltageLevel& vl : n.getVoltageLevels()) {
            bool nb = vl.getTopologyKind() == TopologyKind::NODE_BREAKER;
            for (Bus& b : vl.getBusBreakerView().getBuses()) {
                auto k = comp(b);
                std::string g = k ? std::to_string(k.get().getNum()) : "none", w = "none";
                if (nb) {
                    auto& e = expect(c, vl);
                    auto r = e.reach.find(b.getId());
                    if (r != e.reach.end()) for (Terminal* t : r->second) { auto x = t->getBusView().getBus(); if (x) w = std::to_string(num[&x.get()]); break; }
                    for (Terminal& t : b.getConnectedTerminals()) { auto x = t.getBusView().getBus(); if (x) w = std::to_string(num[&x.get()]); break; }
                } else {
                    auto m = vl.getBusView().getMergedBus(b.getId());
                    if (m) w = std::to_string(num[&m.get()]);
                }
                if (g != w) fail("bus-breaker-component", "bus '%s' of the bus/breaker view is in %s component %s, expected %s", b.getId().c_str(), kind, g.c_str(), w.c_str());
            }
        }
    }
}

std::string topologyText(Network& n) {
    std::string s;
    auto add = [&](const std::string& k, const std::string& v) { s += k + "=" + v + "\n"; };
    for (VoltageLevel& vl : n.getVoltageLevels()) {
        for (int pass = 0; pass < 2; ++pass) {
            std::map<std::string, std::string> m;
            stdcxx::range<Bus> r = pass ? vl.getBusBreakerView().getBuses() : vl.getBusView().getBuses();
            for (Bus& b : r) {
                std::multiset<std::string> ts;
                for (Terminal& t : b.getConnectedTerminals()) ts.insert(termName(t));
                auto cc = b.getConnectedComponent();
                auto sc = b.getSynchronousComponent();
                m[b.getId()] = setText(ts) + hexd(b.getV()) + "/" + hexd(b.getAngle()) + " cc" + (cc ? std::to_string(cc.get().getNum()) + "/" + std::to_string(cc.get().getSize()) : "-") + " sc" + (sc ? std::to_string(sc.get().getNum()) : "-") + (b.isInMainConnectedComponent() ? "m" : "") + (b.isInMainSynchronousComponent() ? "s" : "") + (b.isFictitious() ? "f" : "");
            }
            for (auto& x : m) add((pass ? "bb:" : "b:") + x.first, x.second);
        }
    }
    for (Terminal* t : terminalsOf(n)) {
        auto b1 = t->getBusView().getBus();
        auto b2 = t->getBusBreakerView().getBus();
        auto b3 = t->getBusView().getConnectableBus();
        add("t:" + termName(*t), std::string(t->isConnected() ? "1" : "0") + opt(b1) + "," + opt(b2) + "," + opt(b3));
    }
    std::set<std::string> nb;
    for (Bus& b : n.getBusView().getBuses()) nb.insert(b.getId());
    for (auto& x : nb) { auto b = n.getBusView().getBus(x); add("n:" + x, b ? "1" : "0"); }
    size_t k = 0;
    for (Component& x : n.getBusView().getConnectedComponents()) { (void)x; ++k; }
    for (Component& x : n.getBusView().getSynchronousComponents()) { (void)x; k += 1000; }
    add("components", std::to_string(k));
    return s;
}
