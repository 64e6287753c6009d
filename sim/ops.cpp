// The workload: every operation a user can make on a network, with generated arguments.
#include <cmath>
#include <powsybl/iidm/ActivePowerLimitsAdder.hpp>
#include <powsybl/iidm/ApparentPowerLimitsAdder.hpp>
#include <powsybl/iidm/Battery.hpp>
#include <powsybl/iidm/BatteryAdder.hpp>
#include <powsybl/iidm/Bus.hpp>
#include <powsybl/iidm/BusAdder.hpp>
#include <powsybl/iidm/BusbarSection.hpp>
#include <powsybl/iidm/BusbarSectionAdder.hpp>
#include <powsybl/iidm/CurrentLimitsAdder.hpp>
#include <powsybl/iidm/DanglingLine.hpp>
#include <powsybl/iidm/DanglingLineAdder.hpp>
#include <powsybl/iidm/Generator.hpp>
#include <powsybl/iidm/GeneratorAdder.hpp>
#include <powsybl/iidm/HvdcLine.hpp>
#include <powsybl/iidm/HvdcLineAdder.hpp>
#include <powsybl/iidm/InternalConnectionAdder.hpp>
#include <powsybl/iidm/LccConverterStation.hpp>
#include <powsybl/iidm/LccConverterStationAdder.hpp>
#include <powsybl/iidm/Line.hpp>
#include <powsybl/iidm/LineAdder.hpp>
#include <powsybl/iidm/Load.hpp>
#include <powsybl/iidm/LoadAdder.hpp>
#include <powsybl/iidm/MinMaxReactiveLimitsAdder.hpp>
#include <powsybl/iidm/PhaseTapChangerAdder.hpp>
#include <powsybl/iidm/RatioTapChangerAdder.hpp>
#include <powsybl/iidm/ReactiveCapabilityCurveAdder.hpp>
#include <powsybl/iidm/ShuntCompensator.hpp>
#include <powsybl/iidm/ShuntCompensatorAdder.hpp>
#include <powsybl/iidm/StaticVarCompensator.hpp>
#include <powsybl/iidm/StaticVarCompensatorAdder.hpp>
#include <powsybl/iidm/Substation.hpp>
#include <powsybl/iidm/SubstationAdder.hpp>
#include <powsybl/iidm/Switch.hpp>
#include <powsybl/iidm/SwitchAdder.hpp>
#include <powsybl/iidm/ThreeWindingsTransformer.hpp>
#include <powsybl/iidm/ThreeWindingsTransformerAdder.hpp>
#include <powsybl/iidm/TieLine.hpp>
#include <powsybl/iidm/TieLineAdder.hpp>
#include <powsybl/iidm/TwoWindingsTransformer.hpp>
#include <powsybl/iidm/TwoWindingsTransformerAdder.hpp>
#include <powsybl/iidm/VoltageLevelAdder.hpp>
#include <powsybl/iidm/VscConverterStation.hpp>
#include <powsybl/iidm/VscConverterStationAdder.hpp>
#include <powsybl/iidm/extensions/LoadDetail.hpp>
#include <powsybl/iidm/extensions/LoadDetailAdder.hpp>
#include <powsybl/iidm/extensions/SlackTerminal.hpp>
#include <powsybl/iidm/extensions/SlackTerminalAdder.hpp>

#include "world.h"
using namespace powsybl::iidm;

std::map<std::string, OpFn>& opTable() { static std::map<std::string, OpFn> t; return t; }
std::string World::fresh(const char* p) {
    static const char* const odds[] = {"&", "<a>", "\"q\"", "it's", "\xc3\xa9\xe2\x82\xac", ";", " x ", "a,b", "]]>", "\xf0\x9f\x98\x80", "#%_", "|"};
    std::string s = std::string(p) + std::to_string(nextId++);
    if (odd && nextId % 3) s += odds[nextId % 12];
    if (odd && nextId % 29 == 0) s += std::string(200 * (nextId % 30), 'z');
    return s;
}

Effect execOp(World& w, const Op& op) {
    Effect e;
    auto it = opTable().find(op.kind);
    if (it == opTable().end()) { simrt::Harness h; simrt::finish_error(("unknown operation " + op.kind).c_str()); }
    Rng r(op.seed);
    e.what = op.kind;
    w.doubt = false;
    try {
        simrt::Sut sut;
        it->second(w, r, e);
    } catch (const powsybl::PowsyblException& x) {
        e.threw = true;
        e.error = x.what();
    } catch (const powsybl::AssertionError& x) {
        e.threw = true;
        e.error = x.what();
    } catch (const std::exception& x) {
        e.threw = true;
        e.isPowsybl = false;
        e.error = x.what();
    }
    // thread identifiers are the only address-like text in messages
    for (size_t k = e.error.find("thread "); k != std::string::npos; k = e.error.find("thread ", k + 7)) {
        size_t b = k + 7, n = 0;
        while (b + n < e.error.size() && isxdigit((unsigned char)e.error[b + n])) ++n;
        if (n) e.error.replace(b, n, "#");
    }
    if (!e.threw) {
        for (auto& id : e.newIds) { w.ids.insert(id); w.dead.erase(id); }
        for (auto& id : e.delIds) { w.ids.erase(id); w.dead.insert(id); }
        if (e.onOk) e.onOk(w);
    }
    return e;
}

namespace {
template <class R> auto pickFrom(Rng& r, R&& range) -> decltype(&*range.begin()) {
    size_t n = 0;
    for (auto& x : range) { (void)x; ++n; }
    if (!n) return nullptr;
    size_t k = r.below(n);
    for (auto& x : range) if (k-- == 0) return &x;
    return nullptr;
}
// pick in an order that does not depend on pointers or hashing
template <class R> auto pickId(Rng& r, R&& range) -> decltype(&*range.begin()) {
    std::map<std::string, decltype(&*range.begin())> m;
    for (auto& x : range) m[x.getId()] = &x;
    if (m.empty()) return nullptr;
    auto i = m.begin();
    std::advance(i, r.below(m.size()));
    return i->second;
}
double num(World& w, Rng& r, double lo, double hi) {
    if (w.wild && r.chance(2)) return r.chance(50) ? std::nan("") : -1.5;
    return lo + (hi - lo) * (double)r.below(1000) / 1000.0;
}
void mustV(World& w, Effect& e, const std::string& id, const char* attr, const std::string& v) { for (auto& x : w.variants) e.must[id + "|" + attr + "@" + x] = v; }
void must1(Effect& e, const std::string& id, const char* attr, const std::string& v) { e.must[id + "|" + attr] = v; }
std::string tf(bool b) { return b ? "true" : "false"; }
// a number given to an adder: it can be read back afterwards, in the only or in every variant
double nm(World& w, Rng& r, Effect& e, const std::string& id, const char* attr, double lo, double hi, bool everyVariant = false) {
    double v = num(w, r, lo, hi);
    if (std::isnan(v)) return v;   // refused, or replaced by a default
    if (everyVariant) mustV(w, e, id, attr, hexd(v)); else must1(e, id, attr, hexd(v));
    return v;
}
std::string newId(World& w, Rng& r, const char* p) {
    if (w.wild && r.chance(4) && !w.ids.empty()) { auto i = w.ids.begin(); std::advance(i, r.below(w.ids.size())); return *i; }   // already used
    if (w.wild && r.chance(1)) return "";
    if (!w.dead.empty() && r.chance(10)) { auto i = w.dead.begin(); std::advance(i, r.below(w.dead.size())); if (i->compare(0, strlen(p), p) == 0) { w.doubt = true; return *i; } }
    return w.fresh(p);
}
VoltageLevel* anyVl(World& w, Rng& r) { return pickId(r, w.n().getVoltageLevels()); }
unsigned long freeNode(World& w, Rng& r, VoltageLevel& vl) {
    auto& nb = vl.getNodeBreakerView();
    std::set<unsigned long> used, all;
    for (unsigned long n : nb.getNodes()) { all.insert(n); if (nb.getOptionalTerminal(n)) used.insert(n); }
    if (w.wild && r.chance(5) && !used.empty()) { auto i = used.begin(); std::advance(i, r.below(used.size())); return *i; }
    std::vector<unsigned long> freeIn;
    for (unsigned long n : all) if (!used.count(n)) freeIn.push_back(n);
    if (!freeIn.empty() && r.chance(75)) return r.pick(freeIn);
    unsigned long n = r.below(all.size() + 3);
    while (used.count(n)) ++n;
    return n;
}
unsigned long anyNode(Rng& r, VoltageLevel& vl) {
    std::vector<unsigned long> all;
    for (unsigned long n : vl.getNodeBreakerView().getNodes()) all.push_back(n);
    if (all.empty() || r.chance(20)) return r.below(all.size() + 4);
    return r.pick(all);
}
std::string anyBus(World& w, Rng& r, VoltageLevel& vl) {
    if (w.wild && r.chance(3)) return "noSuchBus";
    Bus* b = pickId(r, vl.getBusBreakerView().getBuses());
    if (!b) w.doubt = true;
    return b ? b->getId() : std::string("noBus");
}
template <class A> void place(World& w, Rng& r, VoltageLevel& vl, A& a, Effect& e, const std::string& id) {
    bool nb = vl.getTopologyKind() == TopologyKind::NODE_BREAKER;
    if (w.wild && r.chance(2)) nb = !nb;
    if (nb && vl.getTopologyKind() == TopologyKind::NODE_BREAKER) { unsigned long n = freeNode(w, r, vl); a.setNode(n); must1(e, id, "t0.node", std::to_string(n)); }
    else if (nb) a.setNode(r.below(5));
    else {
        std::string b = vl.getTopologyKind() == TopologyKind::BUS_BREAKER ? anyBus(w, r, vl) : "noBus";
        bool on = r.chance(70), near = r.chance(90);
        if (on) a.setBus(b);
        if (near) a.setConnectableBus(b);
        if (!on && !near) w.doubt = true;
        mustV(w, e, id, "t0.conn", tf(on));
        if (!w.wild) mustV(w, e, id, "t0.bus", b);
        if (w.wild && r.chance(3) && vl.getTopologyKind() == TopologyKind::BUS_BREAKER) a.setConnectableBus(anyBus(w, r, vl));
    }
}
template <class A> void place1(World& w, Rng& r, VoltageLevel& vl, A& a, Effect& e, const std::string& id) {
    a.setVoltageLevel1(vl.getId());
    if (vl.getTopologyKind() == TopologyKind::NODE_BREAKER) { unsigned long n = freeNode(w, r, vl); a.setNode1(n); must1(e, id, "t0.node", std::to_string(n)); }
    else { std::string b = anyBus(w, r, vl); bool on = r.chance(80); if (on) a.setBus1(b); a.setConnectableBus1(b); mustV(w, e, id, "t0.conn", tf(on)); mustV(w, e, id, "t0.bus", b); }
}
template <class A> void place2(World& w, Rng& r, VoltageLevel& vl, A& a, Effect& e, const std::string& id, const VoltageLevel* other = nullptr) {
    a.setVoltageLevel2(vl.getId());
    if (vl.getTopologyKind() == TopologyKind::NODE_BREAKER) { unsigned long n = freeNode(w, r, vl); if (&vl == other && !(w.wild && r.chance(20))) { n += 7; if (vl.getNodeBreakerView().getOptionalTerminal(n) || e.must[id + "|t0.node"] == std::to_string(n)) w.doubt = true; } a.setNode2(n); must1(e, id, "t1.node", std::to_string(n)); }
    else { std::string b = anyBus(w, r, vl); bool on = r.chance(80); if (on) a.setBus2(b); a.setConnectableBus2(b); mustV(w, e, id, "t1.conn", tf(on)); mustV(w, e, id, "t1.bus", b); }
}
void created(Effect& e, const std::string& id) { e.newIds.push_back(id); e.mayAdd.push_back(id + "|"); }

template <class A> void ident(Rng& r, A& a, const std::string& id, Effect& e) {
    a.setId(id);
    std::string name = r.chance(40) ? "name" + std::to_string(r.below(9)) : "";
    if (!name.empty()) a.setName(name);
    bool f = r.chance(10);
    a.setFictitious(f);
    must1(e, id, "name", name);
    must1(e, id, "fictitious", tf(f));
}
Identifiable* anyObj(World& w, Rng& r) {
    if (r.chance(60)) return pickId(r, w.n().getIdentifiables());
    std::map<std::string, std::map<std::string, Identifiable*>> kinds;   // every kind of object is as likely
    for (Identifiable& o : w.n().getIdentifiables()) kinds[typeid(o).name()][o.getId()] = &o;
    auto k = kinds.begin();
    std::advance(k, r.below(kinds.size()));
    auto i = k->second.begin();
    std::advance(i, r.below(k->second.size()));
    return i->second;
}
template <class T> T* anyOf(World& w, Rng& r) {
    std::map<std::string, T*> m;
    for (Identifiable& o : w.n().getIdentifiables()) if (auto* t = dynamic_cast<T*>(&o)) m[o.getId()] = t;
    if (m.empty()) return nullptr;
    auto i = m.begin();
    std::advance(i, r.below(m.size()));
    return i->second;
}
stdcxx::Reference<Terminal> someTerminal(World& w, Rng& r) {
    auto ts = terminalsOf(w.n());
    std::map<std::string, Terminal*> m;
    for (auto* t : ts) m[termName(*t)] = t;
    if (m.empty()) return stdcxx::Reference<Terminal>();
    auto i = m.begin();
    std::advance(i, r.below(m.size()));
    return stdcxx::ref<Terminal>(*i->second);
}
// references to the terminals of a removed object are reset
void refsMayChange(World& w, Effect& e, const std::set<std::string>& gone) {
    for (Identifiable& o : w.n().getIdentifiables()) {
        std::vector<Attr> at;
        if (o.findExtension<extensions::SlackTerminal>()) e.may.push_back(o.getId() + "|slack.t@");
        attrsOf(o, at, false);
        for (auto& a : at) {
            size_t k = a.name.rfind("regTerm");
            if (k == std::string::npos || k + 7 != a.name.size()) continue;
            std::string v = a.get();
            if (gone.count(v.substr(0, v.rfind('#')))) {
                std::string pre = o.getId() + "|" + a.name.substr(0, k);
                e.may.push_back(pre + "regTerm$");
                e.may.push_back(pre + "regulating@");
                if (pre.find("|x.generatorRemote") != std::string::npos && !gone.count(o.getId())) e.must[pre + "regTerm"] = o.getId() + "#0";   // falls back to the generator
            }
        }
    }
}
void willDelete(World& w, Effect& e, const std::set<std::string>& gone) {
    for (auto& id : gone) { e.delIds.push_back(id); e.mayDel.push_back(id + "|"); }
    refsMayChange(w, e, gone);
}
void aliasesDie(Identifiable& o, Effect& e) {
    std::vector<std::string> al;
    for (const auto& a : o.getAliases()) al.push_back(a);
    if (al.empty()) return;
    auto prev = e.onOk;
    e.onOk = [al, prev](World& w) { if (prev) prev(w); for (auto& a : al) w.dead.insert(a); };
}
bool isCompanionOf(Extension&) { return false; }

// ------------------------------------------------------------------------- creation
RegOp addSubstation("addSubstation", [](World& w, Rng& r, Effect& e) {
    std::string id = newId(w, r, "S");
    auto a = w.n().newSubstation();
    ident(r, a, id, e);
    if (r.chance(50)) a.setTso("tso" + std::to_string(r.below(3)));
    if (r.chance(60)) a.setCountry((Country)r.below(200));
    if (r.chance(30)) a.addGeographicalTag("g1").addGeographicalTag("g2");
    created(e, id);
    e.what += " " + id;
    a.add();
});
RegOp addVl("addVl", [](World& w, Rng& r, Effect& e) {
    Substation* s = pickId(r, w.n().getSubstations());
    if (!s) { e.noop = true; return; }
    std::string id = newId(w, r, "V");
    auto a = s->newVoltageLevel();
    ident(r, a, id, e);
    bool nb = w.nbOnly ? true : w.bbOnly ? false : r.chance(50);
    double nv = num(w, r, 20, 400);
    a.setNominalV(nv);
    if (r.chance(50)) { a.setLowVoltageLimit(nm(w, r, e, id, "lowV", 10, 20)); a.setHighVoltageLimit(nm(w, r, e, id, "highV", 400, 500)); }
    a.setTopologyKind(nb ? TopologyKind::NODE_BREAKER : TopologyKind::BUS_BREAKER);
    created(e, id);
    must1(e, id, "nominalV", hexd(nv));
    must1(e, id, "substation", s->getId());
    e.what += " " + id + (nb ? " (node/breaker)" : " (bus/breaker)");
    a.add();
});
RegOp addBus("addBus", [](World& w, Rng& r, Effect& e) {
    VoltageLevel* vl = anyVl(w, r);
    if (!vl || (vl->getTopologyKind() == TopologyKind::NODE_BREAKER && !(w.wild && r.chance(5)))) { e.noop = true; return; }
    std::string id = newId(w, r, "B");
    e.what += " " + id + " in " + vl->getId();
    auto a = vl->getBusBreakerView().newBus();
    ident(r, a, id, e);
    created(e, id);
    must1(e, id, "vl", vl->getId());
    mustV(w, e, id, "v", "nan");
    a.add();
});
RegOp addBbs("addBbs", [](World& w, Rng& r, Effect& e) {
    VoltageLevel* vl = anyVl(w, r);
    if (!vl || vl->getTopologyKind() != TopologyKind::NODE_BREAKER) { e.noop = true; return; }
    std::string id = newId(w, r, "BBS");
    auto a = vl->getNodeBreakerView().newBusbarSection();
    ident(r, a, id, e);
    unsigned long n = freeNode(w, r, *vl);
    if (vl->getNodeBreakerView().getOptionalTerminal(n) && !w.bbsOcc) { e.noop = true; return; }   // known finding, see findings/
    a.setNode(n);
    e.what += " " + id + " in " + vl->getId() + " node " + std::to_string(n);
    created(e, id);
    must1(e, id, "t0.node", std::to_string(n));
    a.add();
});
RegOp addSwitch("addSwitch", [](World& w, Rng& r, Effect& e) {
    VoltageLevel* vl = anyVl(w, r);
    if (!vl) { e.noop = true; return; }
    std::string id = newId(w, r, "SW");
    bool open = r.chance(35);
    e.what += " " + id + " in " + vl->getId();
    created(e, id);
    mustV(w, e, id, "open", tf(open));
    if (vl->getTopologyKind() == TopologyKind::NODE_BREAKER) {
        int k = (int)r.below(3);
        auto a = k == 0 ? vl->getNodeBreakerView().newSwitch() : k == 1 ? vl->getNodeBreakerView().newBreaker() : vl->getNodeBreakerView().newDisconnector();
        ident(r, a, id, e);
        unsigned long n1 = anyNode(r, *vl), n2 = anyNode(r, *vl);
        if (n1 == n2 && !(w.wild && r.chance(5))) n2 = n1 + 1;
        bool ret = r.chance(30);
        a.setNode1(n1).setNode2(n2).setRetained(ret);
        if (k == 0) a.setKind(r.chance(40) ? SwitchKind::BREAKER : r.chance(50) ? SwitchKind::DISCONNECTOR : SwitchKind::LOAD_BREAK_SWITCH);
        a.setOpen(open);
        mustV(w, e, id, "retained", tf(ret));
        must1(e, id, "ends", std::to_string(n1) + "-" + std::to_string(n2));
        e.what += " nodes " + std::to_string(n1) + "-" + std::to_string(n2) + (open ? " open" : " closed") + (ret ? " retained" : "");
        a.add();
    } else {
        auto a = vl->getBusBreakerView().newSwitch();
        ident(r, a, id, e);
        std::string b1 = anyBus(w, r, *vl), b2 = anyBus(w, r, *vl);
        a.setBus1(b1);
        a.setBus2(b2);
        a.setOpen(open);
        must1(e, id, "ends", b1 + "-" + b2);
        e.what += " buses " + b1 + "-" + b2 + (open ? " open" : " closed");
        a.add();
    }
});
RegOp addIc("addIc", [](World& w, Rng& r, Effect& e) {
    VoltageLevel* vl = anyVl(w, r);
    if (!vl || vl->getTopologyKind() != TopologyKind::NODE_BREAKER) { e.noop = true; return; }
    auto a = vl->getNodeBreakerView().newInternalConnection();
    unsigned long n1 = anyNode(r, *vl), n2 = anyNode(r, *vl);
    if (n1 == n2) n2 = n1 + 1;
    a.setNode1(n1);
    if (!(w.wild && r.chance(4))) a.setNode2(n2);
    e.what += " in " + vl->getId() + " " + std::to_string(n1) + "-" + std::to_string(n2);
    e.may.push_back(vl->getId() + "|ic$");
    a.add();
});
RegOp addLoad("addLoad", [](World& w, Rng& r, Effect& e) {
    VoltageLevel* vl = anyVl(w, r);
    if (!vl) { e.noop = true; return; }
    std::string id = newId(w, r, "L");
    auto a = vl->newLoad();
    ident(r, a, id, e);
    place(w, r, *vl, a, e, id);
    double p = num(w, r, -100, 100), q = num(w, r, -100, 100);
    a.setP0(p).setQ0(q).setLoadType((LoadType)r.below(3));
    created(e, id);
    mustV(w, e, id, "p0", hexd(p));
    mustV(w, e, id, "q0", hexd(q));
    mustV(w, e, id, "t0.p", "nan");
    must1(e, id, "t0.vl", vl->getId());
    e.what += " " + id + " in " + vl->getId();
    a.add();
});
RegOp addGen("addGen", [](World& w, Rng& r, Effect& e) {
    VoltageLevel* vl = anyVl(w, r);
    if (!vl) { e.noop = true; return; }
    std::string id = newId(w, r, "G");
    auto a = vl->newGenerator();
    ident(r, a, id, e);
    place(w, r, *vl, a, e, id);
    double tp = num(w, r, 0, 90), tv = num(w, r, 20, 400), tq = num(w, r, -20, 20);
    bool on = r.chance(50);
    a.setMinP(nm(w, r, e, id, "minP", -10, 0)).setMaxP(nm(w, r, e, id, "maxP", 100, 200)).setActivePowerSetpoint(tp).setVoltageSetpoint(tv).setReactivePowerSetpoint(tq).setVoltageRegulatorOn(on);
    { auto src = (EnergySource)r.below(6); a.setEnergySource(src); must1(e, id, "source", std::to_string((long)src)); }
    if (r.chance(30)) { double rs = 1 + (double)r.below(90); a.setRatedS(rs); must1(e, id, "ratedS", hexd(rs)); }
    std::string reg = id + "#0";
    if (r.chance(20)) { auto t = someTerminal(w, r); if (t) { a.setRegulatingTerminal(t); reg = termName(t.get()); } }
    created(e, id);
    mustV(w, e, id, "targetP", hexd(tp));
    mustV(w, e, id, "targetV", hexd(tv));
    mustV(w, e, id, "targetQ", hexd(tq));
    mustV(w, e, id, "regOn", tf(on));
    must1(e, id, "regTerm", reg);
    e.what += " " + id + " in " + vl->getId();
    a.add();
});
RegOp addBat("addBat", [](World& w, Rng& r, Effect& e) {
    VoltageLevel* vl = anyVl(w, r);
    if (!vl) { e.noop = true; return; }
    std::string id = newId(w, r, "BAT");
    auto a = vl->newBattery();
    ident(r, a, id, e);
    place(w, r, *vl, a, e, id);
    double p = num(w, r, 0, 50), q = num(w, r, 0, 50);
    a.setMinP(nm(w, r, e, id, "minP", -10, 0)).setMaxP(nm(w, r, e, id, "maxP", 60, 100)).setP0(p).setQ0(q);
    created(e, id);
    mustV(w, e, id, "p0", hexd(p));
    mustV(w, e, id, "q0", hexd(q));
    e.what += " " + id + " in " + vl->getId();
    a.add();
});
RegOp addShunt("addShunt", [](World& w, Rng& r, Effect& e) {
    VoltageLevel* vl = anyVl(w, r);
    if (!vl) { e.noop = true; return; }
    std::string id = newId(w, r, "SH");
    auto a = vl->newShuntCompensator();
    ident(r, a, id, e);
    place(w, r, *vl, a, e, id);
    unsigned long n = 1 + r.below(4), cnt = r.below(n + (w.wild && r.chance(5) ? 2 : 1));
    if (r.chance(60)) a.newLinearModel().setBPerSection(nm(w, r, e, id, "bPer", 1, 2)).setGPerSection(nm(w, r, e, id, "gPer", 0, 1)).setMaximumSectionCount(n).add();
    else {
        auto m = a.newNonLinearModel();
        std::string text;
        for (unsigned long i = 0; i < n; ++i) { double b = num(w, r, 1, 2), g = num(w, r, 0, 1); m.beginSection().setB(b).setG(g).endSection(); text += hexd(b) + "," + hexd(g) + ";"; }
        if (!w.wild) must1(e, id, "model", text);
        m.add();
    }
    bool on = r.chance(40);
    double tv = num(w, r, 10, 400);
    a.setSectionCount(cnt).setVoltageRegulatorOn(on).setTargetV(tv).setTargetDeadband(nm(w, r, e, id, "deadband", 1, 5, true));
    if (r.chance(20)) { auto t = someTerminal(w, r); if (t) a.setRegulatingTerminal(t); }
    created(e, id);
    mustV(w, e, id, "sections", std::to_string(cnt));
    mustV(w, e, id, "regOn", tf(on));
    mustV(w, e, id, "targetV", hexd(tv));
    e.what += " " + id + " in " + vl->getId();
    a.add();
});
RegOp addSvc("addSvc", [](World& w, Rng& r, Effect& e) {
    VoltageLevel* vl = anyVl(w, r);
    if (!vl) { e.noop = true; return; }
    std::string id = newId(w, r, "SVC");
    auto a = vl->newStaticVarCompensator();
    ident(r, a, id, e);
    place(w, r, *vl, a, e, id);
    double v = num(w, r, 10, 400), q = num(w, r, -10, 10);
    auto mode = (StaticVarCompensator::RegulationMode)r.below(3);
    mustV(w, e, id, "mode", std::to_string((long)mode));
    a.setBmin(nm(w, r, e, id, "bMin", 0.1, 0.5)).setBmax(nm(w, r, e, id, "bMax", 0.6, 1)).setVoltageSetpoint(v).setReactivePowerSetpoint(q).setRegulationMode(mode);
    if (r.chance(20)) { auto t = someTerminal(w, r); if (t) a.setRegulatingTerminal(t); }
    created(e, id);
    mustV(w, e, id, "vSet", hexd(v));
    mustV(w, e, id, "qSet", hexd(q));
    e.what += " " + id + " in " + vl->getId();
    a.add();
});
RegOp addDl("addDl", [](World& w, Rng& r, Effect& e) {
    VoltageLevel* vl = anyVl(w, r);
    if (!vl) { e.noop = true; return; }
    std::string id = newId(w, r, "DL");
    auto a = vl->newDanglingLine();
    ident(r, a, id, e);
    place(w, r, *vl, a, e, id);
    double p = num(w, r, 0, 50), q = num(w, r, 0, 50);
    a.setP0(p).setQ0(q).setR(nm(w, r, e, id, "r", 0, 2)).setX(nm(w, r, e, id, "x", 0, 2)).setG(nm(w, r, e, id, "g", 0, 2)).setB(nm(w, r, e, id, "b", 0, 2)).setUcteXnodeCode("X" + std::to_string(r.below(99)));
    created(e, id);
    if (r.chance(40)) {
        double tp = num(w, r, 0, 50);
        bool on = r.chance(50);
        a.newGeneration().setTargetP(tp).setTargetQ(nm(w, r, e, id, "gen.q", 0, 9, true)).setTargetV(nm(w, r, e, id, "gen.v", 10, 400, true)).setMinP(nm(w, r, e, id, "gen.minP", -10, 0)).setMaxP(nm(w, r, e, id, "gen.maxP", 60, 100)).setVoltageRegulationOn(on).add();
        mustV(w, e, id, "gen.p", hexd(tp));
        mustV(w, e, id, "gen.on", tf(on));
    }
    mustV(w, e, id, "p0", hexd(p));
    mustV(w, e, id, "q0", hexd(q));
    e.what += " " + id + " in " + vl->getId();
    a.add();
});
RegOp addVsc("addVsc", [](World& w, Rng& r, Effect& e) {
    VoltageLevel* vl = anyVl(w, r);
    if (!vl) { e.noop = true; return; }
    std::string id = newId(w, r, "CS");
    e.what += " " + id + " in " + vl->getId();
    created(e, id);
    if (r.chance(50)) {
        auto a = vl->newVscConverterStation();
        ident(r, a, id, e);
        place(w, r, *vl, a, e, id);
        double v = num(w, r, 10, 400), q = num(w, r, -10, 10);
        bool on = r.chance(50);
        a.setLossFactor(nm(w, r, e, id, "loss", 0, 1)).setVoltageSetpoint(v).setReactivePowerSetpoint(q).setVoltageRegulatorOn(on);
        mustV(w, e, id, "vSet", hexd(v));
        mustV(w, e, id, "qSet", hexd(q));
        mustV(w, e, id, "regOn", tf(on));
        a.add();
    } else {
        auto a = vl->newLccConverterStation();
        ident(r, a, id, e);
        place(w, r, *vl, a, e, id);
        double pf = num(w, r, 0.1, 0.9);
        a.setLossFactor(nm(w, r, e, id, "loss", 0, 1)).setPowerFactor(pf);
        must1(e, id, "pf", hexd(pf));
        a.add();
    }
});
RegOp addHvdc("addHvdc", [](World& w, Rng& r, Effect& e) {
    std::map<std::string, HvdcConverterStation*> freeCs, all;
    for (HvdcConverterStation& c : w.n().getHvdcConverterStations()) { all[c.getId()] = &c; if (!c.getHvdcLine()) freeCs[c.getId()] = &c; }
    auto& from = (w.wild && r.chance(8)) ? all : freeCs;
    if (from.size() < 2) { e.noop = true; return; }
    auto i = from.begin(), j = from.begin();
    std::advance(i, r.below(from.size()));
    std::advance(j, r.below(from.size()));
    if (i == j) { if (!(w.wild && r.chance(20))) { ++j; if (j == from.end()) j = from.begin(); } }
    std::string id = newId(w, r, "H");
    auto a = w.n().newHvdcLine();
    ident(r, a, id, e);
    double sp = num(w, r, 0, 50);
    a.setConverterStationId1(i->first).setConverterStationId2(w.wild && r.chance(4) ? "noStation" : j->first);
    a.setR(nm(w, r, e, id, "r", 0, 2)).setNominalV(nm(w, r, e, id, "nominalV", 10, 400)).setMaxP(nm(w, r, e, id, "maxP", 50, 90)).setActivePowerSetpoint(sp);
    HvdcLine::ConvertersMode m = (HvdcLine::ConvertersMode)r.below(2);
    a.setConvertersMode(m);
    created(e, id);
    e.may.push_back(i->first + "|line$");
    e.may.push_back(j->first + "|line$");
    mustV(w, e, id, "setpoint", hexd(sp));
    mustV(w, e, id, "mode", std::to_string((long)m));
    must1(e, i->first, "line", id);
    must1(e, j->first, "line", id);
    must1(e, id, "cs1", i->first);
    must1(e, id, "cs2", j->first);
    e.what += " " + id + " " + i->first + "-" + j->first;
    a.add();
});
RegOp addLine("addLine", [](World& w, Rng& r, Effect& e) {
    VoltageLevel *v1 = anyVl(w, r), *v2 = anyVl(w, r);
    if (!v1) { e.noop = true; return; }
    bool tie = r.chance(20);
    std::string id = newId(w, r, tie ? "TL" : "LI");
    created(e, id);
    e.what += std::string(tie ? " tie " : " ") + id + " " + v1->getId() + "-" + v2->getId();
    must1(e, id, "t0.vl", v1->getId());
    must1(e, id, "t1.vl", v2->getId());
    mustV(w, e, id, "t0.p", "nan");
    if (!tie) {
        auto a = w.n().newLine();
        ident(r, a, id, e);
        place1(w, r, *v1, a, e, id);
        place2(w, r, *v2, a, e, id, v1);
        double x = num(w, r, 0, 2);
        a.setR(nm(w, r, e, id, "r", 0, 2)).setX(x).setG1(nm(w, r, e, id, "g1", 0, 1)).setG2(nm(w, r, e, id, "g2", 0, 1)).setB1(nm(w, r, e, id, "b1", 0, 1)).setB2(nm(w, r, e, id, "b2", 0, 1));
        must1(e, id, "x", hexd(x));
        a.add();
    } else {
        auto a = w.n().newTieLine();
        ident(r, a, id, e);
        place1(w, r, *v1, a, e, id);
        place2(w, r, *v2, a, e, id, v1);
        a.setUcteXnodeCode("X" + std::to_string(r.below(9)));
        a.newHalfLine1().setId(id + "_h1").setR(nm(w, r, e, id, "h1.r", 0, 2)).setX(nm(w, r, e, id, "h1.x", 0, 2)).setG1(nm(w, r, e, id, "h1.g1", 0, 1)).setG2(nm(w, r, e, id, "h1.g2", 0, 1)).setB1(nm(w, r, e, id, "h1.b1", 0, 1)).setB2(nm(w, r, e, id, "h1.b2", 0, 1)).add();
        if (!(w.wild && r.chance(4))) a.newHalfLine2().setId(id + "_h2").setR(nm(w, r, e, id, "h2.r", 0, 2)).setX(nm(w, r, e, id, "h2.x", 0, 2)).setG1(nm(w, r, e, id, "h2.g1", 0, 1)).setG2(nm(w, r, e, id, "h2.g2", 0, 1)).setB1(nm(w, r, e, id, "h2.b1", 0, 1)).setB2(nm(w, r, e, id, "h2.b2", 0, 1)).add();
        a.add();
    }
});
RegOp add2wt("add2wt", [](World& w, Rng& r, Effect& e) {
    Substation* s = pickId(r, w.n().getSubstations());
    if (!s) { e.noop = true; return; }
    VoltageLevel *v1 = pickId(r, s->getVoltageLevels()), *v2 = pickId(r, s->getVoltageLevels());
    if (w.wild && r.chance(4)) v2 = anyVl(w, r);
    if (!v1 || !v2) { e.noop = true; return; }
    std::string id = newId(w, r, "T");
    auto a = s->newTwoWindingsTransformer();
    ident(r, a, id, e);
    place1(w, r, *v1, a, e, id);
    place2(w, r, *v2, a, e, id, v1);
    double u1 = num(w, r, 10, 400);
    a.setR(nm(w, r, e, id, "r", 0, 2)).setX(nm(w, r, e, id, "x", 0, 2)).setG(nm(w, r, e, id, "g", 0, 1)).setB(nm(w, r, e, id, "b", 0, 1)).setRatedU1(u1).setRatedU2(nm(w, r, e, id, "ratedU2", 10, 400));
    if (r.chance(30)) { double rs = 1 + (double)r.below(90); a.setRatedS(rs); must1(e, id, "ratedS", hexd(rs)); }
    created(e, id);
    must1(e, id, "ratedU1", hexd(u1));
    must1(e, id, "t1.vl", v2->getId());
    e.what += " " + id + " " + v1->getId() + "-" + v2->getId();
    a.add();
});
RegOp add3wt("add3wt", [](World& w, Rng& r, Effect& e) {
    Substation* s = pickId(r, w.n().getSubstations());
    if (!s) { e.noop = true; return; }
    VoltageLevel* v[3];
    std::map<const VoltageLevel*, unsigned long> off;
    std::map<const VoltageLevel*, std::vector<unsigned long>> took;
    for (auto& x : v) x = pickId(r, s->getVoltageLevels());
    if (w.wild && r.chance(4)) v[2] = anyVl(w, r);
    if (!v[0] || !v[2]) { e.noop = true; return; }
    std::string id = newId(w, r, "W");
    auto a = s->newThreeWindingsTransformer();
    ident(r, a, id, e);
    for (int k = 0; k < 3; ++k) {
        if (k == 2 && w.wild && r.chance(3)) continue;
        auto l = k == 0 ? a.newLeg1() : k == 1 ? a.newLeg2() : a.newLeg3();
        auto at = [k](const char* n) { return "l" + std::to_string(k + 1) + "." + n; };
        auto N = [&](const char* n, double hi, double lo = 0) { return nm(w, r, e, id, at(n).c_str(), lo, hi); };
        must1(e, id, ("t" + std::to_string(k) + ".vl").c_str(), v[k]->getId());
        if (r.chance(30)) { double rs = 1 + (double)r.below(90); l.setRatedS(rs); must1(e, id, at("ratedS").c_str(), hexd(rs)); }
        l.setR(N("r", 2)).setX(N("x", 2)).setG(N("g", 1)).setB(N("b", 1)).setRatedU(N("ratedU", 400, 10)).setVoltageLevel(v[k]->getId());
        if (v[k]->getTopologyKind() == TopologyKind::NODE_BREAKER) { unsigned long n = freeNode(w, r, *v[k]); if (off[v[k]]) { n += 7 * off[v[k]]; if (v[k]->getNodeBreakerView().getOptionalTerminal(n)) w.doubt = true; for (auto u : took[v[k]]) if (u == n) w.doubt = true; } off[v[k]]++; took[v[k]].push_back(n); l.setNode(n); must1(e, id, ("t" + std::to_string(k) + ".node").c_str(), std::to_string(n)); }
        else { std::string b = anyBus(w, r, *v[k]), t = "t" + std::to_string(k); bool on = r.chance(80); if (on) l.setBus(b); l.setConnectableBus(b); mustV(w, e, id, (t + ".conn").c_str(), tf(on)); mustV(w, e, id, (t + ".bus").c_str(), b); }
        l.add();
    }
    if (r.chance(50)) a.setRatedU0(nm(w, r, e, id, "ratedU0", 10, 400));
    created(e, id);
    e.what += " " + id + " in " + s->getId();
    a.add();
});

struct RtcHolder { RatioTapChangerHolder* h; PhaseTapChangerHolder* p; std::string id, pre; };
std::vector<RtcHolder> holders(World& w) {
    std::map<std::string, RtcHolder> m;
    for (TwoWindingsTransformer& t : w.n().getTwoWindingsTransformers()) m[t.getId()] = RtcHolder{&t, &t, t.getId(), ""};
    for (ThreeWindingsTransformer& t : w.n().getThreeWindingsTransformers()) {
        m[t.getId() + "1"] = RtcHolder{&t.getLeg1(), &t.getLeg1(), t.getId(), "l1."};
        m[t.getId() + "2"] = RtcHolder{&t.getLeg2(), &t.getLeg2(), t.getId(), "l2."};
        m[t.getId() + "3"] = RtcHolder{&t.getLeg3(), &t.getLeg3(), t.getId(), "l3."};
    }
    std::vector<RtcHolder> v;
    for (auto& x : m) v.push_back(x.second);
    return v;
}
void makeRtc(World& w, Rng& r, Effect& e, const RtcHolder& h) {
    auto a = h.h->newRatioTapChanger();
    long low = (long)r.below(5) - 2;
    unsigned long n = 1 + r.below(4);
    long tap = low + (long)r.below(n + (w.wild && r.chance(6) ? 2 : 0));
    std::string steps;
    if (n == 0) tap = low;
    for (unsigned long i = 0; i < n; ++i) {
        double v[5];
        for (int k = 0; k < 5; ++k) v[k] = k ? num(w, r, 0, 2) : num(w, r, 0.5, 1.5);
        a.beginStep().setRho(v[0]).setR(v[1]).setX(v[2]).setG(v[3]).setB(v[4]).endStep();
        steps += std::to_string(i) + ":";
        for (int k = 0; k < 5; ++k) steps += hexd(v[k]) + (k < 4 ? "," : ";");
    }
    bool reg = r.chance(40), ltc = reg || r.chance(50);
    double tv = num(w, r, 10, 400);
    a.setLowTapPosition(low).setTapPosition(tap).setLoadTapChangingCapabilities(ltc).setRegulating(reg).setTargetV(tv).setTargetDeadband(nm(w, r, e, h.id, (h.pre + "rtc.deadband").c_str(), 0, 5, true));
    must1(e, h.id, (h.pre + "rtc.steps").c_str(), steps);
    must1(e, h.id, (h.pre + "rtc.ltc").c_str(), tf(ltc));
    if (ltc || reg || r.chance(40)) { auto t = someTerminal(w, r); if (t) { a.setRegulationTerminal(t); must1(e, h.id, (h.pre + "rtc.regTerm").c_str(), termName(t.get())); } else w.doubt = true; }
    if (reg) w.doubt = true;   // another one may be regulating already
    e.mayDel.push_back(h.id + "|" + h.pre + "rtc");
    e.mayAdd.push_back(h.id + "|" + h.pre + "rtc");
    e.may.push_back(h.id + "|" + h.pre + "rtc");
    std::string pre = h.pre + "rtc.";
    must1(e, h.id, (pre + "low").c_str(), std::to_string(low));
    mustV(w, e, h.id, (pre + "tap").c_str(), std::to_string(tap));
    mustV(w, e, h.id, (pre + "regulating").c_str(), tf(reg));
    mustV(w, e, h.id, (pre + "targetV").c_str(), hexd(tv));
    e.what += " on " + h.id + "." + h.pre;
    a.add();
}
RegOp addRtc("addRtc", [](World& w, Rng& r, Effect& e) {
    auto hs = holders(w);
    if (hs.empty()) { e.noop = true; return; }
    makeRtc(w, r, e, r.pick(hs));
});
void makePtc(World& w, Rng& r, Effect& e, const RtcHolder& h) {
    auto a = h.p->newPhaseTapChanger();
    long low = (long)r.below(5) - 2;
    unsigned long n = 1 + r.below(4);
    long tap = low + (long)r.below(n + (w.wild && r.chance(6) ? 2 : 0));
    std::string steps;
    for (unsigned long i = 0; i < n; ++i) {
        double v[6];
        for (int k = 0; k < 6; ++k) v[k] = k > 1 ? num(w, r, 0, 2) : k ? num(w, r, 0.5, 1.5) : num(w, r, -5, 5);
        a.beginStep().setAlpha(v[0]).setRho(v[1]).setR(v[2]).setX(v[3]).setG(v[4]).setB(v[5]).endStep();
        steps += std::to_string(i) + ":";
        for (int k = 0; k < 6; ++k) steps += hexd(v[k]) + (k < 5 ? "," : ";");
    }
    bool reg = r.chance(30);
    double rv = num(w, r, 10, 400);
    auto mode = (PhaseTapChanger::RegulationMode)r.below(3);
    if (reg && r.chance(90)) mode = PhaseTapChanger::RegulationMode::CURRENT_LIMITER;
    a.setLowTapPosition(low).setTapPosition(tap).setRegulating(reg).setRegulationMode(mode).setRegulationValue(rv).setTargetDeadband(nm(w, r, e, h.id, (h.pre + "ptc.deadband").c_str(), 0, 5, true));
    must1(e, h.id, (h.pre + "ptc.steps").c_str(), steps);
    must1(e, h.id, (h.pre + "ptc.mode").c_str(), std::to_string((long)mode));
    if (reg || r.chance(40)) { auto t = someTerminal(w, r); if (t) { a.setRegulationTerminal(t); must1(e, h.id, (h.pre + "ptc.regTerm").c_str(), termName(t.get())); } }
    if (reg) w.doubt = true;   // another one may be regulating already
    e.mayDel.push_back(h.id + "|" + h.pre + "ptc");
    e.mayAdd.push_back(h.id + "|" + h.pre + "ptc");
    e.may.push_back(h.id + "|" + h.pre + "ptc");
    std::string pre = h.pre + "ptc.";
    mustV(w, e, h.id, (pre + "regulating").c_str(), tf(reg));
    must1(e, h.id, (pre + "low").c_str(), std::to_string(low));
    mustV(w, e, h.id, (pre + "tap").c_str(), std::to_string(tap));
    mustV(w, e, h.id, (pre + "value").c_str(), hexd(rv));
    e.what += " on " + h.id + "." + h.pre;
    a.add();
}
RegOp addPtc("addPtc", [](World& w, Rng& r, Effect& e) {
    auto hs = holders(w);
    if (hs.empty()) { e.noop = true; return; }
    makePtc(w, r, e, r.pick(hs));
});
RegOp removeTc("removeTc", [](World& w, Rng& r, Effect& e) {
    auto hs = holders(w);
    if (hs.empty()) { e.noop = true; return; }
    RtcHolder h = r.pick(hs);
    bool p = r.chance(50);
    if (p ? !h.p->hasPhaseTapChanger() : !h.h->hasRatioTapChanger()) { e.noop = true; return; }
    std::string pre = h.id + "|" + h.pre + (p ? "ptc" : "rtc");
    e.mayDel.push_back(pre + ".");
    e.may.push_back(pre + "$");
    e.must[pre] = "-";
    e.what += " " + pre;
    if (p) h.p->getPhaseTapChanger().remove(); else h.h->getRatioTapChanger().remove();
});
template <class L> std::string fillLimits(World& w, Rng& r, L& a) {
    double pl = num(w, r, 10, 50);
    std::string text = hexd(pl);
    a.setPermanentLimit(pl);
    unsigned long n = r.below(4);
    if (!n && std::isnan(pl)) n = 1;     // limits without any value are not written: there is nothing in them
    for (unsigned long i = 0; i < n; ++i) {
        double v = num(w, r, 60, 100);
        unsigned long d = (w.wild && r.chance(4)) ? 60 : 60 * (n - i);
        bool f = r.chance(20);
        a.beginTemporaryLimit().setName("tl" + std::to_string(i)).setValue(v).setAcceptableDuration(d).setFictitious(f).endTemporaryLimit();
        text += ";tl" + std::to_string(i) + "," + hexd(v) + "," + std::to_string(d) + (f ? ",f" : "");
    }
    return w.wild ? std::string() : text;
}
RegOp addLimits("addLimits", [](World& w, Rng& r, Effect& e) {
    int k = (int)r.below(3);
    const char* nm[] = {"cl", "al", "sl"};
    auto apply = [&](FlowsLimitsHolder& h, const std::string& key) {
        e.may.push_back(key + "$");
        e.what += " " + key;
        if (k == 0) { auto a = h.newCurrentLimits(); std::string t = fillLimits(w, r, a); if (!t.empty()) e.must[key] = t; a.add(); }
        else if (k == 1) { auto a = h.newActivePowerLimits(); std::string t = fillLimits(w, r, a); if (!t.empty()) e.must[key] = t; a.add(); }
        else { auto a = h.newApparentPowerLimits(); std::string t = fillLimits(w, r, a); if (!t.empty()) e.must[key] = t; a.add(); }
    };
    if (r.chance(25)) {
        if (auto* d = anyOf<DanglingLine>(w, r)) { apply(*d, d->getId() + "|" + nm[k]); return; }
    }
    if (r.chance(25)) {
        if (auto* d = anyOf<ThreeWindingsTransformer>(w, r)) { int g = 1 + (int)r.below(3); apply(g == 1 ? d->getLeg1() : g == 2 ? d->getLeg2() : d->getLeg3(), d->getId() + "|l" + std::to_string(g) + "." + nm[k]); return; }
    }
    auto* b = anyOf<Branch>(w, r);
    if (!b) { e.noop = true; return; }
    bool one = r.chance(50);
    std::string key = b->getId() + "|s" + (one ? "1." : "2.") + nm[k];
    e.may.push_back(key + "$");
    e.what += " " + key;
    if (k == 0) { auto a = one ? b->newCurrentLimits1() : b->newCurrentLimits2(); std::string t = fillLimits(w, r, a); if (!t.empty()) e.must[key] = t; a.add(); }
    else if (k == 1) { auto a = one ? b->newActivePowerLimits1() : b->newActivePowerLimits2(); std::string t = fillLimits(w, r, a); if (!t.empty()) e.must[key] = t; a.add(); }
    else { auto a = one ? b->newApparentPowerLimits1() : b->newApparentPowerLimits2(); std::string t = fillLimits(w, r, a); if (!t.empty()) e.must[key] = t; a.add(); }
});
// limits are taken away, or their permanent value is changed
RegOp changeLimits("changeLimits", [](World& w, Rng& r, Effect& e) {
    std::vector<std::pair<std::string, FlowsLimitsHolder*>> hs;
    std::vector<std::pair<std::string, std::function<void(bool)>>> ls;
    double v = num(w, r, 10, 50);
    auto put = [&](const std::string& key, LoadingLimits* l) { if (l) ls.push_back({key, [l, v](bool rm) { if (rm) l->remove(); else l->setPermanentLimit(v); }}); };
    auto three = [&](const std::string& pre, const stdcxx::Reference<CurrentLimits>& c, const stdcxx::Reference<ActivePowerLimits>& p, const stdcxx::Reference<ApparentPowerLimits>& s) {
        if (c) put(pre + "cl", &c.get());
        if (p) put(pre + "al", &p.get());
        if (s) put(pre + "sl", &s.get());
    };
    std::map<std::string, Identifiable*> m;
    for (Identifiable& o : w.n().getIdentifiables()) m[o.getId()] = &o;
    for (auto& o : m) {
        if (auto* d = dynamic_cast<DanglingLine*>(o.second)) three(o.first + "|", d->getCurrentLimits(), d->getActivePowerLimits(), d->getApparentPowerLimits());
        if (auto* b = dynamic_cast<Branch*>(o.second)) for (int k = 1; k <= 2; ++k) { auto sd = k == 1 ? Branch::Side::ONE : Branch::Side::TWO; three(o.first + "|s" + std::to_string(k) + ".", b->getCurrentLimits(sd), b->getActivePowerLimits(sd), b->getApparentPowerLimits(sd)); }
        if (auto* t = dynamic_cast<ThreeWindingsTransformer*>(o.second)) { int k = 0; for (auto& leg : t->getLegs()) three(o.first + "|l" + std::to_string(++k) + ".", leg.getCurrentLimits(), leg.getActivePowerLimits(), leg.getApparentPowerLimits()); }
    }
    if (ls.empty()) { e.noop = true; return; }
    auto& l = r.pick(ls);
    bool rm = r.chance(40);
    e.what += " " + l.first + (rm ? " removed" : " permanent limit := " + hexd(v));
    e.may.push_back(l.first + "$");
    if (rm) e.must[l.first] = "-";
    l.second(rm);
});
RegOp addReactive("addReactive", [](World& w, Rng& r, Effect& e) {
    std::map<std::string, ReactiveLimitsHolder*> m;
    for (Identifiable& o : w.n().getIdentifiables()) {
        if (auto* h = dynamic_cast<ReactiveLimitsHolder*>(&o)) m[o.getId() + "|rl"] = h;
        if (auto* d = dynamic_cast<DanglingLine*>(&o)) if (d->getGeneration()) m[o.getId() + "|gen.rl"] = &d->getGeneration().get();
    }
    if (m.empty()) { e.noop = true; return; }
    auto i = m.begin();
    std::advance(i, r.below(m.size()));
    e.may.push_back(i->first + "$");
    e.what += " " + i->first;
    if (r.chance(50)) {
        double lo = num(w, r, -20, 0), hi = num(w, r, 0, 20);
        e.must[i->first] = "m " + hexd(lo) + " " + hexd(hi);
        i->second->newMinMaxReactiveLimits().setMinQ(lo).setMaxQ(hi).add();
    }
    else {
        auto a = i->second->newReactiveCapabilityCurve();
        unsigned long n = 1 + r.below(4);
        std::string text = "c";
        for (unsigned long k = 0; k < n; ++k) {
            double lo = num(w, r, -20, 0), hi = num(w, r, 0, 20);
            a.beginPoint().setP(10.0 * k).setMinQ(lo).setMaxQ(hi).endPoint();
            text += " " + hexd(10.0 * k) + "," + hexd(lo) + "," + hexd(hi);
        }
        if (n < 2) w.doubt = true;
        e.must[i->first] = text;
        a.add();
    }
});
RegOp addAlias("addAlias", [](World& w, Rng& r, Effect& e) {
    Identifiable* o = anyObj(w, r);
    if (!o) { e.noop = true; return; }
    std::string al = r.chance(15) && w.wild ? newId(w, r, "A") : (!w.dead.empty() && r.chance(20)) ? *w.dead.begin() : w.fresh("A");
    if (al.empty()) al = w.fresh("A");   // an empty alias is accepted by the library: not specified
    std::string type = r.chance(40) ? "type" + std::to_string(r.below(2)) : "";
    bool uniq = r.chance(30);
    if (!type.empty() && o->getAliasFromType(type)) w.doubt = true;
    if (uniq && r.chance(60)) {     // a name that is taken: another one is chosen
        std::vector<std::string> taken;
        for (Identifiable& i : w.n().getIdentifiables()) { taken.push_back(i.getId()); for (auto& a : i.getAliases()) taken.push_back(a); }
        std::sort(taken.begin(), taken.end());
        al = r.pick(taken);
    }
    e.may.push_back(o->getId() + "|aliases$");
    e.what += " '" + al + "' type '" + type + "' to " + o->getId();
    if (type.empty()) o->addAlias(al, uniq); else o->addAlias(al, type, uniq);
    Identifiable* p = o;
    e.onOk = [p](World& w2) { for (const auto& a : p->getAliases()) w2.dead.erase(a); };
});
RegOp removeAlias("removeAlias", [](World& w, Rng& r, Effect& e) {
    std::map<std::string, Identifiable*> m;
    for (Identifiable& o : w.n().getIdentifiables()) for (const auto& a : o.getAliases()) m[a] = &o;
    if (m.empty()) { e.noop = true; return; }
    auto i = m.begin();
    std::advance(i, r.below(m.size()));
    Identifiable* o = i->second;
    if (w.wild && r.chance(8)) o = anyObj(w, r);   // not its alias
    std::string al = i->first;
    e.may.push_back(o->getId() + "|aliases$");
    e.what += " '" + al + "' from " + o->getId();
    bool its = o == i->second;
    e.onOk = [al, its, o](World& w2) { if (its) w2.dead.insert(al); else { simrt::Harness h; fail("alias-removed-from-stranger", "removeAlias('%s') on '%s' succeeded although it is another object's alias", al.c_str(), o->getId().c_str()); } };
    o->removeAlias(al);
});
RegOp setProp("setProp", [](World& w, Rng& r, Effect& e) {
    Identifiable* o = anyObj(w, r);
    if (!o) { e.noop = true; return; }
    e.may.push_back(o->getId() + "|props$");
    o->setProperty("k" + std::to_string(r.below(3)), "v" + std::to_string(r.below(99)));
});
// extensions
RegOp addExt("addExt", [](World& w, Rng& r, Effect& e) {
    Identifiable* o = anyObj(w, r);
    if (!o || (o == &w.n() && w.shared)) { e.noop = true; return; }
    std::string id = o->getId();
    e.what += " to " + id;
    e.may.push_back(id + "|exts$");
    int k = (int)r.below(4);
    if (k == 0) {
        double v = (double)r.below(1000);
        int tag = (int)r.below(100);
        for (auto p : {&e.may, &e.mayAdd}) { p->push_back(id + "|simExt"); }
        mustV(w, e, id, "simExt", hexd(v));
        must1(e, id, "simExtTag", std::to_string(tag));
        o->addExtension(std::unique_ptr<Extension>(new SimExt(*o, v, tag)));
    } else if (k == 1) {
        std::unique_ptr<Extension> x;
        { Identifiable* tmp = o; if (dynamic_cast<VoltageLevel*>(o)) tmp = &w.n(); x.reset(new PlainExt(*tmp, (int)r.below(1000))); }
        o->addExtension(std::move(x));
    } else if (k == 2) {
        VoltageLevel* vl = anyVl(w, r);
        auto t = someTerminal(w, r);
        if (!vl || !t) { e.noop = true; return; }
        std::map<std::string, Terminal*> in;
        for (auto* x : terminalsOf(w.n())) if (&x->getVoltageLevel() == vl) in[termName(*x)] = x;
        if (!in.empty() && !r.chance(10)) { auto i = in.begin(); std::advance(i, r.below(in.size())); t = stdcxx::ref<Terminal>(*i->second); }
        id = vl->getId();
        e.may.push_back(id + "|exts$");
        for (auto p : {&e.may, &e.mayAdd}) p->push_back(id + "|slack.");
        mustV(w, e, id, "slack.t", "-");
        e.must[id + "|slack.t@" + w.working] = termName(t.get());
        vl->newExtension<extensions::SlackTerminalAdder>().withTerminal(t.get()).add();
    } else {
        auto* l = anyOf<Load>(w, r);
        if (!l) { e.noop = true; return; }
        id = l->getId();
        e.may.push_back(id + "|exts$");
        for (auto p : {&e.may, &e.mayAdd}) p->push_back(id + "|ld.");
        double fp = num(w, r, 0, 50);
        mustV(w, e, id, "ld.fp", hexd(fp));
        l->newExtension<extensions::LoadDetailAdder>().withFixedActivePower(fp).withFixedReactivePower(num(w, r, 0, 9)).withVariableActivePower(num(w, r, 0, 9)).withVariableReactivePower(num(w, r, 0, 9)).add();
    }
});
RegOp removeExt("removeExt", [](World& w, Rng& r, Effect& e) {
    std::map<std::string, std::pair<Identifiable*, int>> m;
    for (Identifiable& o : w.n().getIdentifiables()) {
        if (o.findExtension<SimExt>()) m[o.getId() + "S"] = {&o, 0};
        if (o.findExtension<PlainExt>()) m[o.getId() + "P"] = {&o, 1};
        if (o.findExtension<extensions::LoadDetail>()) m[o.getId() + "L"] = {&o, 2};
        if (o.findExtension<extensions::SlackTerminal>()) m[o.getId() + "T"] = {&o, 3};
    }
    if (m.empty()) { e.noop = true; return; }
    auto i = m.begin();
    std::advance(i, r.below(m.size()));
    Identifiable* o = i->second.first;
    std::string id = o->getId();
    e.what += " of " + id;
    e.may.push_back(id + "|exts$");
    if (i->second.second == 0) { e.mayDel.push_back(id + "|simExt"); o->removeExtension<SimExt>(); if (o->findExtension<SimExt>()) { simrt::Harness h; fail("extension-not-removed", "%s", id.c_str()); } }
    else if (i->second.second == 1) { o->removeExtension<PlainExt>(); if (o->findExtension<PlainExt>() || o->getExtensionByName<PlainExt>("plainExt")) { simrt::Harness h; fail("extension-not-removed", "%s", id.c_str()); } }
    else if (i->second.second == 2) { e.mayDel.push_back(id + "|ld."); o->removeExtension<extensions::LoadDetail>(); }
    else { e.mayDel.push_back(id + "|slack."); o->removeExtension<extensions::SlackTerminal>(); if (o->getExtensionByName<extensions::SlackTerminal>("slackTerminal")) { simrt::Harness h; fail("extension-not-removed", "%s", id.c_str()); } }
});

// slack terminals are set and reset; the extension exists as long as a terminal is set in one of the variants
RegOp slackReset("slackReset", [](World& w, Rng& r, Effect& e) {
    VoltageLevel* vl = anyVl(w, r);
    if (!vl) { e.noop = true; return; }
    std::map<std::string, std::map<std::string, std::string>> want;   // voltage level -> variant -> terminal
    std::vector<VoltageLevel*> vls;
    unsigned long k = r.below(9);
    if (k == 0) for (VoltageLevel& x : w.n().getVoltageLevels()) vls.push_back(&x); else vls.push_back(vl);
    {
        simrt::Harness h;
        for (auto& v : w.variants) {
            VariantScope scope(w.n(), v);
            for (auto* x : vls) {
                auto st = x->findExtension<extensions::SlackTerminal>();
                auto t = st ? st.get().getTerminal() : stdcxx::Reference<Terminal>();
                want[x->getId()][v] = t ? termName(t.get()) : "-";
            }
        }
    }
    for (auto* x : vls) {
        e.may.push_back(x->getId() + "|exts$");
        for (auto p : {&e.may, &e.mayAdd, &e.mayDel}) p->push_back(x->getId() + "|slack.");
    }
    std::set<std::string> in;
    bool clean = true;
    std::map<std::string, Terminal*> of;
    for (auto* x : terminalsOf(w.n())) if (&x->getVoltageLevel() == vl) of[termName(*x)] = x;
    stdcxx::Reference<Terminal> t;
    if (!of.empty() && !r.chance(40)) { auto i = of.begin(); std::advance(i, r.below(of.size())); t = stdcxx::ref<Terminal>(*i->second); }
    auto st = vl->findExtension<extensions::SlackTerminal>();
    if (k == 0) {
        e.what += " of all voltage levels";
        in.insert("-");
        extensions::SlackTerminal::reset(w.n());
    } else if (k <= 2) {
        std::vector<Bus*> buses;
        if (r.chance(50)) for (Bus& b : vl->getBusView().getBuses()) buses.push_back(&b);
        else for (Bus& b : vl->getBusBreakerView().getBuses()) buses.push_back(&b);
        if (buses.empty()) { e.noop = true; return; }
        std::sort(buses.begin(), buses.end(), [](Bus* a, Bus* b) { return a->getId() < b->getId(); });
        Bus& b = *buses[r.below(buses.size())];
        e.what += " of the bus " + b.getId();
        for (Terminal& x : b.getConnectedTerminals()) in.insert(termName(x));
        extensions::SlackTerminal::attach(b);
    } else if (k >= 7 && !of.empty() && !w.working.empty() && !w.mvOnly) {
        // a terminal that is set only in a variant that is removed does not count any more
        auto i = of.begin();
        std::advance(i, r.below(of.size()));
        e.what += " of " + vl->getId() + " after " + i->first + " in a removed variant";
        auto& vm = w.n().getVariantManager();
        vm.cloneVariant(w.working, {std::string("slack tmp 1"), std::string("slack tmp 2")});
        vm.setWorkingVariant("slack tmp 1");
        extensions::SlackTerminal::reset(*vl, stdcxx::ref<Terminal>(*i->second));
        vm.setWorkingVariant("slack tmp 2");
        extensions::SlackTerminal::reset(*vl, stdcxx::ref<Terminal>());
        vm.setWorkingVariant(w.working);
        vm.removeVariant("slack tmp 1");
        in.insert("-");
        extensions::SlackTerminal::reset(*vl, stdcxx::ref<Terminal>());
        vm.removeVariant("slack tmp 2");
    } else if (k <= 4 || !st) {
        e.what += " of " + vl->getId() + (t ? " to " + termName(t.get()) : std::string());
        in.insert(t ? termName(t.get()) : "-");
        extensions::SlackTerminal::reset(*vl, t);
    } else {
        clean = r.chance(60);
        e.what += " of " + vl->getId() + (clean ? " (cleaned)" : " (not cleaned)") + (t ? " to " + termName(t.get()) : std::string());
        in.insert(t ? termName(t.get()) : "-");
        st.get().setTerminal(t, clean);
    }
    simrt::Harness h;
    for (auto* x : vls) {
        auto now = x->findExtension<extensions::SlackTerminal>();
        bool some = false;
        for (auto& v : want[x->getId()]) {
            VariantScope scope(w.n(), v.first);
            auto y = now ? now.get().getTerminal() : stdcxx::Reference<Terminal>();
            std::string got = y ? termName(y.get()) : "-";
            some |= got != "-";
            if (v.first == w.working ? !in.count(got) : got != v.second) fail("slack-terminal", "the slack terminal of '%s' is '%s' in variant '%s', '%s' before the operation", x->getId().c_str(), got.c_str(), v.first.c_str(), v.second.c_str());
        }
        if (now && now.get().isEmpty() == some) fail("slack-empty", "the slack terminal extension of '%s' tells that it is %sempty", x->getId().c_str(), some ? "" : "not ");
        if (clean && static_cast<bool>(now) != some) fail("slack-not-cleaned", "the slack terminal extension of '%s' is %s, a variant has %s terminal", x->getId().c_str(), now ? "present" : "absent", some ? "a" : "no");
    }
});

// ------------------------------------------------------------------------- removal
RegOp removeConnectable("removeConnectable", [](World& w, Rng& r, Effect& e) {
    auto* c = anyOf<Connectable>(w, r);
    if (!c) { e.noop = true; return; }
    e.what += " " + c->getId();
    willDelete(w, e, {c->getId()});
    aliasesDie(*c, e);
    c->remove();
});
RegOp removeHvdc("removeHvdc", [](World& w, Rng& r, Effect& e) {
    auto* c = anyOf<HvdcLine>(w, r);
    if (!c) { e.noop = true; return; }
    e.what += " " + c->getId();
    willDelete(w, e, {c->getId()});
    for (auto s : {c->getConverterStation1(), c->getConverterStation2()}) { e.may.push_back(s.get().getId() + "|line$"); e.must[s.get().getId() + "|line"] = "-"; }
    aliasesDie(*c, e);
    c->remove();
});
std::set<std::string> inside(World& w, VoltageLevel& vl, bool branches) {
    std::set<std::string> g;
    g.insert(vl.getId());
    for (Identifiable& o : w.n().getIdentifiables()) {
        if (auto* c = dynamic_cast<Connectable*>(&o)) {
            auto ts = c->getTerminals();
            if (ts.size() > 1 && !branches) continue;
            for (auto& t : ts) if (&t.get().getVoltageLevel() == &vl) {
                g.insert(o.getId());
                if (auto* h = dynamic_cast<HvdcConverterStation*>(&o)) if (branches && h->getHvdcLine()) g.insert(h->getHvdcLine().get().getId());
            }
        }
        if (auto* b = dynamic_cast<Bus*>(&o)) if (&b->getVoltageLevel() == &vl) g.insert(o.getId());
        if (auto* s = dynamic_cast<Switch*>(&o)) if (&s->getVoltageLevel() == &vl) g.insert(o.getId());
    }
    return g;
}
RegOp removeVl("removeVl", [](World& w, Rng& r, Effect& e) {
    VoltageLevel* vl = anyVl(w, r);
    if (!vl) { e.noop = true; return; }
    e.what += " " + vl->getId();
    auto g = inside(w, *vl, false);
    willDelete(w, e, g);
    for (auto& id : g) aliasesDie(w.n().get<Identifiable>(id), e);
    vl->remove();
});
RegOp removeSubstation("removeSubstation", [](World& w, Rng& r, Effect& e) {
    Substation* s = pickId(r, w.n().getSubstations());
    if (!s) { e.noop = true; return; }
    e.what += " " + s->getId();
    std::set<std::string> g{s->getId()};
    for (VoltageLevel& vl : s->getVoltageLevels()) { auto x = inside(w, vl, true); g.insert(x.begin(), x.end()); }
    for (HvdcLine& l : w.n().getHvdcLines()) if (g.count(l.getId())) for (auto c : {l.getConverterStation1(), l.getConverterStation2()}) e.may.push_back(c.get().getId() + "|line$");
    willDelete(w, e, g);
    for (auto& id : g) aliasesDie(w.n().get<Identifiable>(id), e);
    s->remove();
});
RegOp removeBus("removeBus", [](World& w, Rng& r, Effect& e) {
    VoltageLevel* vl = anyVl(w, r);
    if (!vl || vl->getTopologyKind() != TopologyKind::BUS_BREAKER) { e.noop = true; return; }
    std::string id = anyBus(w, r, *vl);
    e.what += " " + id + " of " + vl->getId();
    auto b = w.n().find<Bus>(id);
    if (b) aliasesDie(b.get(), e);
    willDelete(w, e, {id});
    vl->getBusBreakerView().removeBus(id);
});
RegOp removeAll("removeAll", [](World& w, Rng& r, Effect& e) {
    VoltageLevel* vl = anyVl(w, r);
    if (!vl || vl->getTopologyKind() != TopologyKind::BUS_BREAKER) { e.noop = true; return; }
    std::set<std::string> g;
    bool sw = r.chance(50);
    if (sw) for (Switch& s : vl->getBusBreakerView().getSwitches()) g.insert(s.getId());
    else for (Bus& s : vl->getBusBreakerView().getBuses()) g.insert(s.getId());
    e.what += (sw ? " switches of " : " buses of ") + vl->getId();
    for (auto& id : g) aliasesDie(w.n().get<Identifiable>(id), e);
    willDelete(w, e, g);
    if (sw) vl->getBusBreakerView().removeAllSwitches(); else vl->getBusBreakerView().removeAllBuses();
});
RegOp removeSwitch("removeSwitch", [](World& w, Rng& r, Effect& e) {
    Switch* s = anyOf<Switch>(w, r);
    if (!s) { e.noop = true; return; }
    std::string id = s->getId();
    VoltageLevel& vl = s->getVoltageLevel();
    if (w.wild && r.chance(5)) id = "noSwitch"; else aliasesDie(*s, e);
    e.what += " " + id;
    willDelete(w, e, {id});
    if (vl.getTopologyKind() == TopologyKind::NODE_BREAKER) vl.getNodeBreakerView().removeSwitch(id); else vl.getBusBreakerView().removeSwitch(id);
});
RegOp removeIc("removeIc", [](World& w, Rng& r, Effect& e) {
    VoltageLevel* vl = anyVl(w, r);
    if (!vl || vl->getTopologyKind() != TopologyKind::NODE_BREAKER) { e.noop = true; return; }
    std::vector<std::pair<unsigned long, unsigned long>> v;
    for (const auto& ic : vl->getNodeBreakerView().getInternalConnections()) v.emplace_back(ic.getNode1(), ic.getNode2());
    std::pair<unsigned long, unsigned long> p;
    if (v.empty() || (w.wild && r.chance(10))) p = {0, 1 + r.below(3)}; else p = r.pick(v);
    if (r.chance(50)) std::swap(p.first, p.second);
    std::string key = vl->getId() + "|ic", want;
    std::multiset<std::pair<unsigned long, unsigned long>> m;
    bool any = false;
    for (auto& x : v) {
        if ((x.first == p.first && x.second == p.second) || (x.first == p.second && x.second == p.first)) { any = true; continue; }
        m.insert({std::min(x.first, x.second), std::max(x.first, x.second)});
    }
    for (auto& q : m) want += std::to_string(q.first) + "-" + std::to_string(q.second) + ";";
    e.may.push_back(key + "$");
    e.must[key] = want;
    e.what += " of " + vl->getId() + " " + std::to_string(p.first) + "-" + std::to_string(p.second);
    vl->getNodeBreakerView().removeInternalConnections(p.first, p.second);
    if (!any) { simrt::Harness h; fail("removed-nothing", "%s succeeded although there is no such connection", e.what.c_str()); }
});

// ------------------------------------------------------------------------- the network object itself
RegOp moveNet("moveNet", [](World& w, Rng& r, Effect& e) {
    if (w.shared) { e.noop = true; return; }
    std::unique_ptr<Network> m(new Network(std::move(*w.net)));
    if (r.chance(30)) { w.net.swap(m); std::unique_ptr<Network> again(new Network(std::move(*w.net))); m.reset(); w.net.swap(again); }
    else w.net.swap(m);
});

// ------------------------------------------------------------------------- state
RegOp setAttr("set", [](World& w, Rng& r, Effect& e) {
    Identifiable* o = anyObj(w, r);
    if (!o || w.working.empty()) { e.noop = true; return; }
    std::vector<Attr> all, at;
    attrsOf(*o, all, true);
    for (auto& a : all) if (a.set) at.push_back(std::move(a));
    if (at.empty()) { e.noop = true; return; }
    // several-valued attributes are what variants are about: prefer them
    std::vector<Attr*> mv;
    for (auto& a : at) if (a.mv) mv.push_back(&a);
    if (w.mvOnly && mv.empty()) { e.noop = true; return; }
    Attr& a = (!mv.empty() && (w.mvOnly || r.chance(65))) ? *r.pick(mv) : at[r.below(at.size())];
    std::string id = o->getId(), key = id + "|" + a.name + (a.mv ? "@" + w.working : ""), v;
    e.what += " " + key;
    e.may.push_back(key + "$");
    for (auto& x : a.side) { e.may.push_back(id + "|" + x + "@"); e.may.push_back(id + "|" + x + "$"); }
    if (a.name == "sections") { e.may.push_back(id + "|curB@" + w.working + "$"); e.may.push_back(id + "|curG@" + w.working + "$"); }
    a.set(r, v);
    e.what += " := " + v;
    if (a.mustHold && v != "?") e.must[key] = v;
});
// Many values, valid or not, are set on one object: a refused one changes nothing.
RegOp abuse("abuse", [](World& w, Rng& r, Effect& e) {
    Identifiable* o = anyObj(w, r);
    if (!o || w.working.empty()) { e.noop = true; return; }
    bool wild = w.wild;
    w.wild = true;
    std::string id = o->getId();
    std::vector<Attr> at;
    attrsOf(*o, at, true);
    std::vector<size_t> can;
    for (size_t i = 0; i < at.size(); ++i) if (at[i].set) can.push_back(i);
    if (can.empty()) { w.wild = wild; e.noop = true; return; }
    e.what += " " + id;
    for (auto& a : at) e.may.push_back(id + "|" + a.name + (a.mv ? "@" + w.working : "") + "$");
    size_t n = 5 + r.below(20);
    std::vector<std::string> last;
    for (auto& b : at) last.push_back(b.get ? b.get() : "");
    for (size_t i = 0; i < n; ++i) {
        Attr& a = at[can[r.below(can.size())]];
        for (auto& x : a.side) { e.may.push_back(id + "|" + x + "@"); e.may.push_back(id + "|" + x + "$"); }
        std::vector<std::string> before, after;
        before.swap(last);
        std::string v;
        bool threw = false;
        std::string why;
        try { a.set(r, v); } catch (const powsybl::PowsyblException& x) { threw = true; why = x.what(); }
        for (auto& b : at) after.push_back(b.get ? b.get() : "");
        if (threw) for (size_t k = 0; k < at.size(); ++k) if (before[k] != after[k]) fail("failed-operation-changed-state", "setting %s of '%s' to %s was refused (%s) but changed %s: %s -> %s", a.name.c_str(), id.c_str(), v.c_str(), why.c_str(), at[k].name.c_str(), before[k].c_str(), after[k].c_str());
        if (!threw && a.mustHold && a.get && v != "?") { size_t k = &a - &at[0]; if (after[k] != v) fail("wrong-value", "%s of '%s' is %s, expected %s", a.name.c_str(), id.c_str(), after[k].c_str(), v.c_str()); }
        last = after;
        count(threw ? "set.refused" : "set.done");
    }
    w.wild = wild;
});
// Every transformer gets every tap changer it can have.
RegOp equip("equip", [](World& w, Rng& r, Effect& e) {
    bool wild = w.wild;
    w.wild = false;
    for (const RtcHolder& h : holders(w)) for (int k = 0; k < 2; ++k) {
        if (k ? h.p->hasPhaseTapChanger() : h.h->hasRatioTapChanger()) continue;
        Effect one;
        try { if (k) makePtc(w, r, one, h); else makeRtc(w, r, one, h); } catch (const powsybl::PowsyblException&) { continue; }
        e.may.insert(e.may.end(), one.may.begin(), one.may.end());
        e.mayAdd.insert(e.mayAdd.end(), one.mayAdd.begin(), one.mayAdd.end());
        e.mayDel.insert(e.mayDel.end(), one.mayDel.begin(), one.mayDel.end());
        for (auto& m : one.must) e.must[m.first] = m.second;
    }
    w.wild = wild;
    e.noop = e.may.empty();
});
// Every value that depends on the variant is changed in the working variant, and nowhere else.
RegOp perturb("perturb", [](World& w, Rng& r, Effect& e) {
    if (w.working.empty()) { e.noop = true; return; }
    std::map<std::string, Identifiable*> m;
    for (Identifiable& o : w.n().getIdentifiables()) m[o.getId()] = &o;
    e.may.push_back("*@" + w.working);
    for (auto& o : m) {
        std::vector<Attr> at;
        attrsOf(*o.second, at, true);
        for (auto& a : at) {
            if (!a.mv || !a.set) continue;
            for (auto& x : a.side) { e.may.push_back(o.first + "|" + x + "@"); e.may.push_back(o.first + "|" + x + "$"); }
            std::string v;
            try { a.set(r, v); } catch (const powsybl::PowsyblException&) {}
        }
    }
    e.what += " in " + w.working;
});
RegOp setOpen("setOpen", [](World& w, Rng& r, Effect& e) {
    Switch* s = anyOf<Switch>(w, r);
    if (!s || w.working.empty()) { e.noop = true; return; }
    bool ret = r.chance(25), v = r.chance(50);
    std::string key = s->getId() + (ret ? "|retained@" : "|open@") + w.working;
    e.what += " " + key + " := " + tf(v);
    e.may.push_back(key + "$");
    e.must[key] = tf(v);
    if (ret) s->setRetained(v); else s->setOpen(v);
});
RegOp connectOp("connect", [](World& w, Rng& r, Effect& e) {
    auto t = someTerminal(w, r);
    if (!t || w.working.empty()) { e.noop = true; return; }
    bool con = r.chance(55);
    std::string nm = termName(t.get());
    VoltageLevel& vl = t.get().getVoltageLevel();
    e.what = (con ? "connect " : "disconnect ") + nm;
    bool nb = vl.getTopologyKind() == TopologyKind::NODE_BREAKER;
    bool was = t.get().isConnected();
    std::string key;
    if (nb) { for (Switch& s : vl.getNodeBreakerView().getSwitches()) if (s.getKind() == SwitchKind::BREAKER && s.isOpen() == con) e.may.push_back(s.getId() + "|open@" + w.working + "$"); }
    else { size_t h = nm.rfind('#'); key = nm.substr(0, h) + "|t" + nm.substr(h + 1) + ".conn@" + w.working; e.may.push_back(key + "$"); e.must[key] = tf(con); }
    bool res = con ? t.get().connect() : t.get().disconnect();
    bool is = t.get().isConnected();
    { simrt::Harness h;
      if (was == con && res) fail("connect-result", "%s returned true although it already was", e.what.c_str());
      if (!nb && (is != con || res != (was != con))) fail("connect-result", "%s: returned %d, was %d, is %d", e.what.c_str(), (int)res, (int)was, (int)is); }
});
RegOp setBus("setConnectableBus", [](World& w, Rng& r, Effect& e) {
    auto t = someTerminal(w, r);
    if (!t || w.working.empty() || t.get().getVoltageLevel().getTopologyKind() != TopologyKind::BUS_BREAKER) { e.noop = true; return; }
    std::string nm = termName(t.get()), b = anyBus(w, r, t.get().getVoltageLevel());
    size_t h = nm.rfind('#');
    std::string key = nm.substr(0, h) + "|t" + nm.substr(h + 1) + ".bus@" + w.working;
    e.what += " " + nm + " -> " + b;
    e.may.push_back(key + "$");
    e.must[key] = b;
    t.get().getBusBreakerView().setConnectableBus(b);
});
// every bus gets a voltage and an angle of its own
RegOp busVAll("busVAll", [](World& w, Rng& r, Effect& e) {
    if (w.working.empty()) { e.noop = true; return; }
    e.may.push_back("*@" + w.working);
    std::vector<VoltageLevel*> vls;
    for (VoltageLevel& vl : w.n().getVoltageLevels()) vls.push_back(&vl);
    std::sort(vls.begin(), vls.end(), [](VoltageLevel* a, VoltageLevel* b) { return a->getId() < b->getId(); });
    for (auto* vl : vls) {
        std::map<std::string, Bus*> m;
        if (r.chance(50)) for (Bus& b : vl->getBusBreakerView().getBuses()) m[b.getId()] = &b;
        else for (Bus& b : vl->getBusView().getBuses()) m[b.getId()] = &b;
        for (auto& b : m) { b.second->setV(num(w, r, 10, 500)); b.second->setAngle(num(w, r, -90, 90)); }
    }
});
RegOp busV("busV", [](World& w, Rng& r, Effect& e) {
    if (w.working.empty()) { e.noop = true; return; }
    bool bb = r.chance(40), ang = r.chance(40);
    std::map<std::string, Bus*> m;
    VoltageLevel* vl = anyVl(w, r);
    if (!vl) { e.noop = true; return; }
    stdcxx::range<Bus> bs = bb ? vl->getBusBreakerView().getBuses() : vl->getBusView().getBuses();
    for (Bus& b : bs) m[b.getId()] = &b;
    if (m.empty()) { e.noop = true; return; }
    auto i = m.begin();
    std::advance(i, r.below(m.size()));
    Bus& b = *i->second;
    double v = (double)r.below(4000) / 10.0;
    e.what += " " + b.getId() + (ang ? " angle := " : " V := ") + hexd(v);
    const char* at = ang ? "angle@" : "v@";
    if (vl->getTopologyKind() == TopologyKind::NODE_BREAKER) {
        for (Terminal& t : b.getConnectedTerminals()) { std::string nm = termName(t), key = nm.substr(0, nm.rfind('#')) + "|t" + nm.substr(nm.rfind('#') + 1) + "." + at + w.working; e.may.push_back(key + "$"); e.must[key] = hexd(v); }
    } else if (bb) { std::string key = b.getId() + "|" + at + w.working; e.may.push_back(key + "$"); e.must[key] = hexd(v); }
    else for (Bus& c : vl->getBusBreakerView().getBuses()) {
        auto mb = vl->getBusView().getMergedBus(c.getId());
        if (mb && &mb.get() == &b) { std::string key = c.getId() + "|" + at + w.working; e.may.push_back(key + "$"); e.must[key] = hexd(v); }
    }
    if (ang) b.setAngle(v); else b.setV(v);
    simrt::Harness h;
    if (b.getConnectedTerminalCount() && hexd(ang ? b.getAngle() : b.getV()) != hexd(v)) fail("bus-voltage-lost", "%s: reads %s", e.what.c_str(), hexd(ang ? b.getAngle() : b.getV()).c_str());
});
// a state in which branches are loaded: voltages on every bus, flows near the limits
RegOp flow("flow", [](World& w, Rng& r, Effect& e) {
    if (w.working.empty()) { e.noop = true; return; }
    auto ok = [&](double v) { return r.chance(4) ? std::nan("") : v; };
    std::vector<Terminal*> ts = terminalsOf(w.n());
    if (ts.empty()) { e.noop = true; return; }
    std::map<std::string, VoltageLevel*> vls;
    for (VoltageLevel& vl : w.n().getVoltageLevels()) vls[vl.getId()] = &vl;
    for (auto& x : vls) {
        std::map<std::string, Bus*> m;
        for (Bus& b : x.second->getBusView().getBuses()) m[b.getId()] = &b;
        for (auto& b : m) {
            std::vector<Terminal*> c;
            for (Terminal& t : b.second->getConnectedTerminals()) c.push_back(&t);
            for (const char* at : {"v@", "angle@"}) {
                for (Terminal* t : c) { std::string nm = termName(*t); e.may.push_back(nm.substr(0, nm.rfind('#')) + "|t" + nm.substr(nm.rfind('#') + 1) + "." + at + w.working + "$"); }
                if (x.second->getTopologyKind() == TopologyKind::BUS_BREAKER) for (Bus& cb : x.second->getBusBreakerView().getBuses()) e.may.push_back(cb.getId() + "|" + at + w.working + "$");
            }
            b.second->setV(ok((double)(1 + r.below(4000)) / 10));
            b.second->setAngle(ok((double)r.below(3600) / 10 - 180));
        }
    }
    for (Terminal* t : ts) {
        std::string nm = termName(*t);
        size_t h = nm.rfind('#');
        if (dynamic_cast<BusbarSection*>(&t->getConnectable().get())) continue;
        bool shunt = dynamic_cast<ShuntCompensator*>(&t->getConnectable().get()) != nullptr;
        e.may.push_back(nm.substr(0, h) + "|t" + nm.substr(h + 1) + ".p@" + w.working + "$");
        e.may.push_back(nm.substr(0, h) + "|t" + nm.substr(h + 1) + ".q@" + w.working + "$");
        // a current, active or apparent power between 0 and 120: limits lie between 10 and 100
        double goal = (double)r.below(1200) / 10, v = t->getV(), a = (double)r.below(628) / 100;
        int kind = (int)r.below(3);
        if (kind == 0 && v > 0) goal *= std::sqrt(3.) / v * 1000;
        if (kind == 1 && v > 0) goal *= std::sqrt(3.) * v / 1000;
        if (!shunt) t->setP(ok(goal * std::cos(a)));
        t->setQ(ok(goal * std::sin(a)));
    }
    e.what += " in " + w.working;
});
// queries that fill the caches
std::string compText(Bus& b, bool sync) {
    auto c = sync ? b.getSynchronousComponent() : b.getConnectedComponent();
    if (!c) return b.getId() + ":none ";
    return b.getId() + ":" + std::to_string(c.get().getNum()) + "/" + std::to_string(c.get().getSize()) + " ";
}
// the quantities computed from the state, and the navigation, read from the variant of the thread
RegOp derivedOp("derived", [](World& w, Rng& r, Effect& e) { if (w.working.empty()) { e.noop = true; return; } checkDerived(w.n(), &r); });
RegOp navOp("nav", [](World& w, Rng& r, Effect& e) { if (w.working.empty()) { e.noop = true; return; } checkNavigation(w.n(), &r); });
RegOp query("query", [](World& w, Rng& r, Effect& e) {
    if (w.working.empty()) { e.noop = true; return; }
    std::map<std::string, std::string> m;
    switch (r.below(7)) {
        case 0: e.what += " topology"; e.result = topologyText(w.n()); break;
        case 1: { for (Bus& b : w.n().getBusView().getBuses()) m[b.getId()] = b.getVoltageLevel().getId(); e.what += " buses"; auto x = w.n().getBusView().getBus("none"); if (x) e.result = "found "; break; }
        case 2: case 3: { bool sync = r.chance(50); size_t k = r.below(4); for (Bus& b : w.n().getBusView().getBuses()) { m[b.getId()] = compText(b, sync); if (k-- == 0) break; } e.what += sync ? " sync component" : " component"; break; }
        case 4: { for (Bus& b : w.n().getBusBreakerView().getBuses()) m[b.getId()] = std::to_string(b.getConnectedTerminalCount()); auto x = w.n().getBusBreakerView().getBus("none"); if (x) e.result = "found "; e.what += " bus/breaker buses"; break; }
        case 5: { auto t = someTerminal(w, r); if (!t) break; auto& tt = t.get(); e.what += " terminal " + termName(tt);
                  auto b = tt.getBusView().getBus(); m["bus"] = b ? b.get().getId() : "none"; auto c = tt.getBusView().getConnectableBus(); m["cbus"] = c ? c.get().getId() : "none";
                  auto d = tt.getBusBreakerView().getBus(); m["bbus"] = d ? d.get().getId() : "none"; m["conn"] = tf(tt.isConnected()); break; }
        default: { VoltageLevel* vl = anyVl(w, r); if (vl) { for (Bus& b : vl->getBusView().getBuses()) m[b.getId()] = "m" + std::to_string(b.getConnectedTerminalCount()); for (Bus& b : vl->getBusBreakerView().getBuses()) m["c" + b.getId()] = std::to_string(b.getConnectedTerminalCount()); } e.what += " voltage level"; }
    }
    for (auto& x : m) e.result += x.first + "=" + x.second + ";";
});
// every attribute of an object, in the working variant
RegOp readOp("read", [](World& w, Rng& r, Effect& e) {
    Identifiable* o = anyObj(w, r);
    if (!o || w.working.empty()) { e.noop = true; return; }
    std::vector<Attr> at;
    attrsOf(*o, at, false);
    e.what += " " + o->getId();
    for (auto& a : at) e.result += a.name + "=" + a.get() + ";";
});
RegOp netClean("cloneMulti", [](World&, Rng&, Effect& e) { e.noop = true; });

// ------------------------------------------------------------------------- variants
std::string variantName(World& w, Rng& r, bool exist) {
    if (exist && !(w.wild && r.chance(6))) { auto i = w.variants.begin(); std::advance(i, r.below(w.variants.size())); return *i; }
    if (w.wild && r.chance(15)) { auto i = w.variants.begin(); std::advance(i, r.below(w.variants.size())); return *i; }
    return "v" + std::to_string(r.below(7));
}
void planClone(World& w, Effect& e, const std::string& src, const std::vector<std::string>& tg, bool over) {
    std::string t;
    for (auto& x : tg) t += x + ",";
    e.what = "cloneVariant(" + src + " -> {" + t + "}" + (over ? ", overwrite" : "") + ")";
    e.variantsChange = true;
    std::set<std::string> ts(tg.begin(), tg.end());
    e.transform = [src, ts](Snap& s) {
        Snap add;
        for (auto i = s.begin(); i != s.end();) {
            size_t at = i->first.rfind('@');
            if (at == std::string::npos) { ++i; continue; }
            std::string v = i->first.substr(at + 1);
            if (v == src) for (auto& x : ts) add[i->first.substr(0, at + 1) + x] = i->second;
            if (v != src && ts.count(v)) i = s.erase(i); else ++i;
        }
        for (auto& x : add) s[x.first] = x.second;
    };
    e.onOk = [ts, src, tg, over](World& w2) {
        simrt::Harness h;
        if (tg.empty()) fail("variant-accepted", "cloneVariant to nothing was accepted");
        if (!w2.variants.count(src)) fail("variant-accepted", "cloneVariant from unknown variant '%s' was accepted", src.c_str());
        std::set<std::string> seen;
        for (auto& x : tg) if (!over && w2.variants.count(x)) fail("variant-accepted", "cloneVariant to existing variant '%s' was accepted without overwrite", x.c_str());
        w2.variants.insert(ts.begin(), ts.end());
    };
    (void)w;
}
void callClone(VariantManager& vm, const std::string& src, const std::vector<std::string>& tg, bool over) {
    switch (tg.size()) {
        case 0: vm.cloneVariant(src, std::initializer_list<std::string>{}, over); break;
        case 1: vm.cloneVariant(src, tg[0], over); break;
        case 2: vm.cloneVariant(src, {tg[0], tg[1]}, over); break;
        case 3: vm.cloneVariant(src, {tg[0], tg[1], tg[2]}, over); break;
        default: vm.cloneVariant(src, {tg[0], tg[1], tg[2], tg[3]}, over);
    }
}
RegOp cloneVariant("clone", [](World& w, Rng& r, Effect& e) {
    if (w.variants.size() > 6 && !r.chance(20)) { e.noop = true; return; }
    std::string src = variantName(w, r, true);
    bool over = r.chance(35);
    size_t n = (w.wild && r.chance(3)) ? 0 : r.chance(60) ? 1 : 1 + r.below(4);
    std::vector<std::string> tg;
    for (size_t i = 0; i < n; ++i) {
        std::string t = over && r.chance(40) ? variantName(w, r, true) : variantName(w, r, false);
        if (!w.wild && (w.variants.count(t) && !over)) continue;
        tg.push_back(t);
    }
    if (tg.empty() && n) { e.noop = true; return; }
    planClone(w, e, src, tg, over);
    callClone(w.n().getVariantManager(), src, tg, over);
});
RegOp removeVariant("removeVariant", [](World& w, Rng& r, Effect& e) {
    std::string v = variantName(w, r, true);
    e.what += " " + v;
    e.variantsChange = true;
    e.transform = [v](Snap& s) {
        for (auto i = s.begin(); i != s.end();) {
            size_t at = i->first.rfind('@');
            if (at != std::string::npos && i->first.substr(at + 1) == v) i = s.erase(i); else ++i;
        }
    };
    e.onOk = [v](World& w2) {
        simrt::Harness h;
        if (v == VariantManager::getInitialVariantId()) fail("variant-accepted", "the initial variant was removed");
        if (!w2.variants.count(v)) fail("variant-accepted", "removal of unknown variant '%s' was accepted", v.c_str());
        w2.variants.erase(v);
        if (w2.working == v) w2.working = "";
    };
    w.n().getVariantManager().removeVariant(v);
});
RegOp setWorking("setWorking", [](World& w, Rng& r, Effect& e) {
    std::string v = variantName(w, r, true);
    e.what += " " + v;
    e.variantsChange = true;
    e.onOk = [v](World& w2) {
        simrt::Harness h;
        if (!w2.variants.count(v)) fail("variant-accepted", "unknown variant '%s' was accepted as working variant", v.c_str());
        w2.working = v;
    };
    w.n().getVariantManager().setWorkingVariant(v);
});
RegOp multi("multithread", [](World& w, Rng& r, Effect& e) {
    bool on = r.chance(50);
    e.what += on ? " on" : " off";
    const bool was = w.n().getVariantManager().isVariantMultiThreadAccessAllowed();
    w.n().getVariantManager().allowVariantMultiThreadAccess(on);
    e.onOk = [on, was](World& w2) {
        if (w2.n().getVariantManager().isVariantMultiThreadAccessAllowed() != on) { simrt::Harness h; fail("multithread-flag", "isVariantMultiThreadAccessAllowed is %d after being set to %d", (int)!on, (int)on); }
        if (!on && was && w2.working.empty()) w2.working = VariantManager::getInitialVariantId();
    };
});
}  // namespace

// A random but mostly valid network, made with the operations above.
void buildNetwork(World& w, Rng& r, const Plan& p) {
    static const char* const base[] = {"addSubstation", "addVl", "addVl", "addVl"};
    {
        simrt::Sut s;
        w.net.reset(new Network("net", "sim"));
    }
    w.variants = {VariantManager::getInitialVariantId()};
    w.working = VariantManager::getInitialVariantId();
    w.nbOnly = p.get("nb", 0) == 1;
    w.bbOnly = p.get("nb", 0) == 2;
    bool wild = w.wild;
    w.wild = false;
    auto run = [&](const char* k) { Op o; o.kind = k; o.seed = r.next(); execOp(w, o); };
    int subs = (int)p.get("subs", 2), vls = (int)p.get("vls", 2), eq = (int)p.get("eq", 20);
    for (int i = 0; i < subs; ++i) run(base[0]);
    for (int i = 0; i < subs * vls; ++i) run("addVl");
    for (int i = 0; i < subs * vls * 2; ++i) { run("addBus"); run("addBbs"); }
    static const char* const kinds[] = {"addSwitch", "addSwitch", "addSwitch", "addIc", "addLoad", "addGen", "addBat", "addShunt", "addSvc", "addDl", "addVsc", "addVsc", "addHvdc", "addLine", "addLine", "add2wt", "add3wt", "addRtc", "addPtc", "addLimits", "addReactive", "addBbs", "addBus", "addExt", "addXExt", "addXExt", "measure"};
    for (int i = 0; i < eq; ++i) run(kinds[r.below(sizeof kinds / sizeof *kinds)]);
    w.wild = wild;
}
