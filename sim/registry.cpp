// Consistency of the object registry: ids, aliases, counts, lists, containment, references, value validity.
#include <algorithm>
#include <cmath>
#include <powsybl/iidm/ActivePowerLimits.hpp>
#include <powsybl/iidm/ApparentPowerLimits.hpp>
#include <powsybl/iidm/Battery.hpp>
#include <powsybl/iidm/Bus.hpp>
#include <powsybl/iidm/BusbarSection.hpp>
#include <powsybl/iidm/CurrentLimits.hpp>
#include <powsybl/iidm/DanglingLine.hpp>
#include <powsybl/iidm/Generator.hpp>
#include <powsybl/iidm/HvdcLine.hpp>
#include <powsybl/iidm/LccConverterStation.hpp>
#include <powsybl/iidm/Line.hpp>
#include <powsybl/iidm/Load.hpp>
#include <powsybl/iidm/ReactiveCapabilityCurve.hpp>
#include <powsybl/iidm/ShuntCompensator.hpp>
#include <powsybl/iidm/StaticVarCompensator.hpp>
#include <powsybl/iidm/Substation.hpp>
#include <powsybl/iidm/Switch.hpp>
#include <powsybl/iidm/ThreeWindingsTransformer.hpp>
#include <powsybl/iidm/TieLine.hpp>
#include <powsybl/iidm/TwoWindingsTransformer.hpp>
#include <powsybl/iidm/VscConverterStation.hpp>

#include "ext.h"
#include "world.h"
using namespace powsybl::iidm;

namespace {
std::string show(const std::set<const void*>& a, const std::set<const void*>& b, const std::map<const void*, std::string>& names) {
    std::string s;
    for (auto* p : a) if (!b.count(p)) s += " -" + (names.count(p) ? names.at(p) : std::string("(unknown object)"));
    for (auto* p : b) if (!a.count(p)) s += " +" + (names.count(p) ? names.at(p) : std::string("(object not in the network)"));
    return s;
}
// the list `range` and the number `cnt` must be exactly the objects of `want`
template <class R> void sameList(const char* what, const std::string& of, const std::set<const void*>& want, R&& range, long cnt, const std::map<const void*, std::string>& names) {
    std::set<const void*> got;
    size_t n = 0;
    for (auto& x : range) { got.insert(dynamic_cast<const void*>(&x)); ++n; }
    if (n != got.size()) fail("duplicate-in-list", "%s of %s lists an object twice", what, of.c_str());
    {   // a list is read several times: it is the same every time
        std::set<const void*> again;
        for (auto& x : range) again.insert(dynamic_cast<const void*>(&x));
        if (again != got) fail("list-changed-by-reading", "%s of %s: reading the same list a second time gives another content:%s", what, of.c_str(), show(got, again, names).c_str());
    }
    if (got != want) fail("wrong-list", "%s of %s: list differs from the objects that exist:%s", what, of.c_str(), show(want, got, names).c_str());
    if (cnt >= 0 && (size_t)cnt != want.size()) fail("wrong-count", "%s of %s: count is %ld, there are %zu", what, of.c_str(), cnt, want.size());
}
struct Inv {
    std::vector<Identifiable*> all;
    std::map<const void*, std::string> names;
    template <class T> std::set<const void*> of() const {
        std::set<const void*> s;
        for (auto* o : all) if (dynamic_cast<T*>(o)) s.insert(dynamic_cast<const void*>(o));
        return s;
    }
    template <class T, class F> std::set<const void*> of(F f) const {
        std::set<const void*> s;
        for (auto* o : all) if (auto* t = dynamic_cast<T*>(o)) if (f(*t)) s.insert(dynamic_cast<const void*>(o));
        return s;
    }
};
bool hasVl(const Connectable& c, const VoltageLevel& vl) {
    for (const auto& t : c.getTerminals()) if (&t.get().getVoltageLevel() == &vl) return true;
    return false;
}
}  // namespace

void checkRegistry(World& w, Network& n) {
    Inv v;
    std::map<std::string, Identifiable*> byId;
    for (Identifiable& o : n.getIdentifiables()) {
        const std::string id = o.getId();
        if (!byId.emplace(id, &o).second) fail("duplicate-id", "the network lists two objects with id '%s'", id.c_str());
        v.all.push_back(&o);
        v.names[dynamic_cast<const void*>(&o)] = id;
    }
    for (auto& p : byId)
        if (p.second != static_cast<Identifiable*>(&n) && !w.ids.count(p.first)) fail("ghost-object", "object '%s' exists but was never successfully created, or was removed", p.first.c_str());
    for (auto& id : w.ids) if (!byId.count(id)) fail("lost-object", "object '%s' was created and not removed, but is not listed", id.c_str());
    std::map<std::string, Identifiable*> alias;
    for (auto& p : byId) {
        auto f = n.find<Identifiable>(p.first);
        if (!f || &f.get() != p.second) fail("lookup", "find('%s') does not return the object that has this id", p.first.c_str());
        if (&n.getIdentifiable(p.first) != p.second) fail("lookup", "getIdentifiable('%s') does not return the object that has this id", p.first.c_str());
        if (&p.second->getNetwork() != &n) fail("wrong-network", "'%s' says that it belongs to another network", p.first.c_str());
        for (const char* ty : {"type0", "type1"}) {
            auto a = p.second->getAliasFromType(ty);
            auto l = p.second->getAliases();
            if (a && std::find(l.begin(), l.end(), *a) == l.end()) fail("alias-lookup", "getAliasFromType('%s') of '%s' returns '%s' which is not one of its aliases", ty, p.first.c_str(), a->c_str());
            if (a && (!n.find(*a) || &n.find(*a).get() != p.second)) fail("alias-lookup", "the alias '%s' of type '%s' does not lead to '%s'", a->c_str(), ty, p.first.c_str());
        }
        for (const auto& al : p.second->getAliases()) {
            if (!alias.emplace(al, p.second).second) fail("duplicate-alias", "alias '%s' belongs to two objects", al.c_str());
            if (byId.count(al) && byId[al] != p.second) fail("duplicate-alias", "alias '%s' of '%s' is also the id of another object", al.c_str(), p.first.c_str());
            auto g = n.find<Identifiable>(al);
            if (!g || &g.get() != p.second) fail("alias-lookup", "find('%s') does not return '%s' which has this alias", al.c_str(), p.first.c_str());
            if (!p.second->hasAliases()) fail("alias-lookup", "hasAliases() is false on '%s'", p.first.c_str());
            std::string ty = p.second->getAliasType(al);
            if (!ty.empty()) { auto b = p.second->getAliasFromType(ty); if (!b || *b != al) fail("alias-lookup", "getAliasFromType('%s') of '%s' does not return '%s'", ty.c_str(), p.first.c_str(), al.c_str()); }
        }
    }
    for (auto& d : w.dead) {
        if (byId.count(d) || alias.count(d)) continue;
        auto f = n.find<Identifiable>(d);
        if (f) fail("dead-name-resolves", "'%s' names nothing any more, but find() returns '%s'", d.c_str(), v.names.count(dynamic_cast<const void*>(&f.get())) ? v.names[dynamic_cast<const void*>(&f.get())].c_str() : "a removed object");
    }
    if (n.find<Identifiable>("no such thing")) fail("lookup", "find() of an unknown id returns something");
    const std::string net = "network";
    const Network& cn = n;
    const bool cst = w.registryChecks++ % 4 == 0;   // const views give the same answers
#define LIST(T, plural, count, single) \
    do { sameList(#plural, net, v.of<T>(), n.plural(), (long)n.count(), v.names); \
        for (auto* o : v.all) if (auto* t = dynamic_cast<T*>(o)) if (&n.single(t->getId()) != t) fail("lookup", #single "('%s') returns another object", t->getId().c_str()); \
        if (cst) { \
            sameList("const " #plural, net, v.of<T>(), cn.plural(), (long)cn.count(), v.names); \
            for (auto* o : v.all) if (auto* t = dynamic_cast<T*>(o)) if (&cn.single(t->getId()) != t) fail("lookup", "const " #single "('%s') returns another object", t->getId().c_str()); \
        } } while (0)
    LIST(Battery, getBatteries, getBatteryCount, getBattery);
    LIST(Branch, getBranches, getBranchCount, getBranch);
    LIST(BusbarSection, getBusbarSections, getBusbarSectionCount, getBusbarSection);
    LIST(DanglingLine, getDanglingLines, getDanglingLineCount, getDanglingLine);
    LIST(Generator, getGenerators, getGeneratorCount, getGenerator);
    LIST(HvdcConverterStation, getHvdcConverterStations, getHvdcConverterStationCount, getHvdcConverterStation);
    LIST(HvdcLine, getHvdcLines, getHvdcLineCount, getHvdcLine);
    LIST(LccConverterStation, getLccConverterStations, getLccConverterStationCount, getLccConverterStation);
    LIST(Line, getLines, getLineCount, getLine);
    LIST(Load, getLoads, getLoadCount, getLoad);
    LIST(ShuntCompensator, getShuntCompensators, getShuntCompensatorCount, getShuntCompensator);
    LIST(StaticVarCompensator, getStaticVarCompensators, getStaticVarCompensatorCount, getStaticVarCompensator);
    LIST(Substation, getSubstations, getSubstationCount, getSubstation);
    LIST(Switch, getSwitches, getSwitchCount, getSwitch);
    LIST(ThreeWindingsTransformer, getThreeWindingsTransformers, getThreeWindingsTransformerCount, getThreeWindingsTransformer);
    LIST(TwoWindingsTransformer, getTwoWindingsTransformers, getTwoWindingsTransformerCount, getTwoWindingsTransformer);
    LIST(VoltageLevel, getVoltageLevels, getVoltageLevelCount, getVoltageLevel);
    LIST(VscConverterStation, getVscConverterStations, getVscConverterStationCount, getVscConverterStation);
#undef LIST
    sameList("getConnectables", net, v.of<Connectable>(), n.getConnectables(), (long)n.getConnectableCount(), v.names);
    sameList("getStatefulObjects", net, v.of<MultiVariantObject>(), n.getStatefulObjects(), -1, v.names);
    sameList("getConnectables<Injection>", net, v.of<Injection>(), n.getConnectables<Injection>(), (long)n.getConnectableCount<Injection>(), v.names);
    if (cst) {
        sameList("const getIdentifiables", net, v.of<Identifiable>(), cn.getIdentifiables(), -1, v.names);
        sameList("const getConnectables", net, v.of<Connectable>(), cn.getConnectables(), -1, v.names);
        sameList("const getStatefulObjects", net, v.of<MultiVariantObject>(), cn.getStatefulObjects(), -1, v.names);
        sameList("const getConnectables<Injection>", net, v.of<Injection>(), cn.getConnectables<Injection>(), -1, v.names);
    }
    std::set<Country> countries;
    for (Substation& s : n.getSubstations()) if (s.getCountry()) countries.insert(*s.getCountry());
    if (n.getCountries() != countries || n.getCountryCount() != countries.size()) fail("wrong-list", "the countries of the network are not those of its substations");

    // containment
    for (auto* o : v.all) {
        const std::string id = "'" + o->getId() + "'";
        if (auto* s = dynamic_cast<Substation*>(o)) {
            sameList("voltage levels", id, v.of<VoltageLevel>([s](VoltageLevel& x) { return &x.getSubstation() == s; }), s->getVoltageLevels(), -1, v.names);
            sameList("2-windings transformers", id, v.of<TwoWindingsTransformer>([s](TwoWindingsTransformer& x) { return x.getSubstation() && &x.getSubstation().get() == s; }), s->getTwoWindingsTransformers(), (long)s->getTwoWindingsTransformerCount(), v.names);
            sameList("3-windings transformers", id, v.of<ThreeWindingsTransformer>([s](ThreeWindingsTransformer& x) { return &x.getSubstation() == s; }), s->getThreeWindingsTransformers(), (long)s->getThreeWindingsTransformerCount(), v.names);
            if (cst) {
                const Substation& cs = *s;
                sameList("const voltage levels", id, v.of<VoltageLevel>([s](VoltageLevel& x) { return &x.getSubstation() == s; }), cs.getVoltageLevels(), -1, v.names);
                sameList("const 2-windings transformers", id, v.of<TwoWindingsTransformer>([s](TwoWindingsTransformer& x) { return x.getSubstation() && &x.getSubstation().get() == s; }), cs.getTwoWindingsTransformers(), -1, v.names);
                sameList("const 3-windings transformers", id, v.of<ThreeWindingsTransformer>([s](ThreeWindingsTransformer& x) { return &x.getSubstation() == s; }), cs.getThreeWindingsTransformers(), -1, v.names);
            }
            continue;
        }
        if (auto* x = dynamic_cast<VoltageLevel*>(o)) {
            VoltageLevel& vl = *x;
            const VoltageLevel& cvl = vl;
            if (!v.names.count(dynamic_cast<const void*>(&vl.getSubstation()))) fail("dangling-container", "voltage level %s is in a substation that is not in the network", id.c_str());
            auto in = [&vl](Connectable& c) { return hasVl(c, vl); };
            auto any = v.of<Connectable>(in);
            sameList("connectables", id, any, vl.getConnectables(), (long)vl.getConnectableCount(), v.names);
#define VLLIST(T, plural, count) sameList(#plural, id, v.of<T>([&vl](T& c) { return hasVl(c, vl); }), vl.plural(), (long)vl.count(), v.names); if (cst) sameList("const " #plural, id, v.of<T>([&vl](T& c) { return hasVl(c, vl); }), cvl.plural(), (long)cvl.count(), v.names)
            VLLIST(Battery, getBatteries, getBatteryCount);
            VLLIST(DanglingLine, getDanglingLines, getDanglingLineCount);
            VLLIST(Generator, getGenerators, getGeneratorCount);
            VLLIST(LccConverterStation, getLccConverterStations, getLccConverterStationCount);
            VLLIST(Load, getLoads, getLoadCount);
            VLLIST(ShuntCompensator, getShuntCompensators, getShuntCompensatorCount);
            VLLIST(StaticVarCompensator, getStaticVarCompensators, getStaticVarCompensatorCount);
            VLLIST(VscConverterStation, getVscConverterStations, getVscConverterStationCount);
            VLLIST(Line, getConnectables<Line>, getConnectableCount<Line>);
            VLLIST(TwoWindingsTransformer, getConnectables<TwoWindingsTransformer>, getConnectableCount<TwoWindingsTransformer>);
#undef VLLIST
            auto sws = v.of<Switch>([&vl](Switch& s) { return &s.getVoltageLevel() == &vl; });
            sameList("switches", id, sws, vl.getSwitches(), (long)vl.getSwitchCount(), v.names);
            for (auto* q : v.all) if (auto* c = dynamic_cast<Connectable*>(q)) {
                if (!hasVl(*c, vl)) continue;
                auto f = vl.getConnectable<Connectable>(c->getId());
                if (!f || &f.get() != c) fail("lookup", "getConnectable('%s') of voltage level %s is wrong", c->getId().c_str(), id.c_str());
            }
            if (vl.getTopologyKind() == TopologyKind::NODE_BREAKER) {
                auto& nb = vl.getNodeBreakerView();
                sameList("busbar sections", id, v.of<BusbarSection>([&vl](BusbarSection& s) { return hasVl(s, vl); }), nb.getBusbarSections(), (long)nb.getBusbarSectionCount(), v.names);
                sameList("node/breaker switches", id, sws, nb.getSwitches(), (long)nb.getSwitchCount(), v.names);
                for (Switch& s : nb.getSwitches()) { auto f = nb.getSwitch(s.getId()); if (!f || &f.get() != &s) fail("lookup", "node/breaker getSwitch('%s') is wrong", s.getId().c_str()); }
                std::set<unsigned long> nodes;
                for (unsigned long k : nb.getNodes()) nodes.insert(k);
                std::map<unsigned long, Terminal*> at;
                for (auto* q : v.all) if (auto* c = dynamic_cast<Connectable*>(q)) for (auto& t : c->getTerminals()) if (&t.get().getVoltageLevel() == &vl) {
                    unsigned long k = t.get().getNodeBreakerView().getNode();
                    if (!at.emplace(k, &t.get()).second) fail("node-shared", "node %lu of %s is used by two terminals", k, id.c_str());
                    if (!nodes.count(k)) fail("node-missing", "node %lu of %s is used by '%s' but not listed", k, id.c_str(), c->getId().c_str());
                }
                for (unsigned long k : nodes) {
                    auto t = nb.getOptionalTerminal(k);
                    Terminal* want = at.count(k) ? at[k] : nullptr;
                    if ((t ? &t.get() : nullptr) != want) fail("node-terminal", "node %lu of %s: terminal is not the one of %s", k, id.c_str(), want ? termName(*want).c_str() : "nobody");
                }
                for (Switch& s : nb.getSwitches())
                    if (!nodes.count(nb.getNode1(s.getId())) || !nodes.count(nb.getNode2(s.getId()))) fail("node-missing", "switch '%s' is on a node that does not exist", s.getId().c_str());
                for (const auto& ic : nb.getInternalConnections())
                    if (!nodes.count(ic.getNode1()) || !nodes.count(ic.getNode2())) fail("node-missing", "an internal connection of %s is on a node that does not exist", id.c_str());
            } else {
                auto& bb = vl.getBusBreakerView();
                auto buses = v.of<Bus>([&vl](Bus& b) { return &b.getVoltageLevel() == &vl; });
                sameList("buses", id, buses, bb.getBuses(), -1, v.names);
                sameList("bus/breaker switches", id, sws, bb.getSwitches(), (long)bb.getSwitchCount(), v.names);
                for (Bus& b : bb.getBuses()) { auto f = bb.getBus(b.getId()); if (!f || &f.get() != &b) fail("lookup", "bus/breaker getBus('%s') is wrong", b.getId().c_str()); }
                for (Switch& s : bb.getSwitches()) {
                    auto b1 = bb.getBus1(s.getId()), b2 = bb.getBus2(s.getId());
                    if (!b1 || !b2 || !buses.count(dynamic_cast<const void*>(&b1.get())) || !buses.count(dynamic_cast<const void*>(&b2.get()))) fail("dangling-switch", "switch '%s' is between buses that do not exist", s.getId().c_str());
                }
            }
            continue;
        }
        if (auto* b = dynamic_cast<Bus*>(o)) { if (!v.names.count(dynamic_cast<const void*>(&b->getVoltageLevel()))) fail("dangling-container", "bus %s is in a voltage level that is not in the network", id.c_str()); continue; }
        if (auto* s = dynamic_cast<Switch*>(o)) { if (!v.names.count(dynamic_cast<const void*>(&s->getVoltageLevel()))) fail("dangling-container", "switch %s is in a voltage level that is not in the network", id.c_str()); continue; }
        if (auto* h = dynamic_cast<HvdcLine*>(o)) {
            for (int k = 0; k < 2; ++k) {
                auto s = k ? h->getConverterStation2() : h->getConverterStation1();
                if (!s || !v.names.count(dynamic_cast<const void*>(&s.get()))) fail("dangling-station", "converter station %d of HVDC line %s does not exist", k + 1, id.c_str());
                auto l = s.get().getHvdcLine();
                if (!l || &l.get() != h) fail("dangling-station", "station '%s' does not name the HVDC line %s that names it", s.get().getId().c_str(), id.c_str());
                auto sd = k ? HvdcLine::Side::TWO : HvdcLine::Side::ONE;
                if (&h->getConverterStation(sd).get() != &s.get() || &static_cast<const HvdcLine*>(h)->getConverterStation(sd).get() != &s.get()) fail("dangling-station", "converter station %d of HVDC line %s is another one when the side is given", k + 1, id.c_str());
                if (&n.getHvdcLine(s.get()) != h || &cn.getHvdcLine(s.get()) != h) fail("lookup", "getHvdcLine('%s') does not return %s", s.get().getId().c_str(), id.c_str());
                auto f = n.findHvdcLine(s.get());
                if (!f || &f.get() != h) fail("lookup", "findHvdcLine('%s') does not return %s", s.get().getId().c_str(), id.c_str());
            }
            continue;
        }
        if (auto* s = dynamic_cast<HvdcConverterStation*>(o)) {
            auto l = s->getHvdcLine();
            if (l) {
                if (!v.names.count(dynamic_cast<const void*>(&l.get()))) fail("dangling-line", "station %s names an HVDC line that does not exist", id.c_str());
                auto a = l.get().getConverterStation1(), b = l.get().getConverterStation2();
                if (!(a && &a.get() == s) && !(b && &b.get() == s)) fail("dangling-line", "station %s names an HVDC line that does not name it", id.c_str());
            }
        }
        if (auto* c = dynamic_cast<Connectable*>(o)) {
            for (auto& t : c->getTerminals()) {
                if (!v.names.count(dynamic_cast<const void*>(&t.get().getVoltageLevel()))) fail("dangling-container", "%s is in a voltage level that is not in the network", id.c_str());
                auto k = t.get().getConnectable();
                if (!k || &k.get() != c) fail("terminal-owner", "a terminal of %s does not name it as its owner", id.c_str());
            }
        }
    }
}

// Every terminal referenced by a regulation belongs to an object of this network.
void checkReferences(Network& n) {
    std::set<const Terminal*> live;
    for (auto* t : terminalsOf(n)) live.insert(t);
    auto chk = [&](const Identifiable& o, const char* what, const Terminal* t) {
        if (t && !live.count(t)) fail("dangling-reference", "%s of '%s' refers to a terminal that is not in the network", what, o.getId().c_str());
    };
    auto tc = [&](const Identifiable& o, RatioTapChangerHolder& h) { if (h.hasRatioTapChanger()) { auto t = h.getRatioTapChanger().getRegulationTerminal(); chk(o, "ratio tap changer", t ? &t.get() : nullptr); } };
    auto pc = [&](const Identifiable& o, PhaseTapChangerHolder& h) { if (h.hasPhaseTapChanger()) { auto t = h.getPhaseTapChanger().getRegulationTerminal(); chk(o, "phase tap changer", t ? &t.get() : nullptr); } };
    for (Identifiable& o : n.getIdentifiables()) {
        if (auto* g = dynamic_cast<Generator*>(&o)) chk(o, "regulating terminal", &g->getRegulatingTerminal());
        else if (auto* s = dynamic_cast<ShuntCompensator*>(&o)) chk(o, "regulating terminal", &s->getRegulatingTerminal());
        else if (auto* c = dynamic_cast<StaticVarCompensator*>(&o)) chk(o, "regulating terminal", &c->getRegulatingTerminal());
        else if (auto* t2 = dynamic_cast<TwoWindingsTransformer*>(&o)) { tc(o, *t2); pc(o, *t2); }
        else if (auto* t3 = dynamic_cast<ThreeWindingsTransformer*>(&o)) {
            tc(o, t3->getLeg1()); pc(o, t3->getLeg1()); tc(o, t3->getLeg2()); pc(o, t3->getLeg2()); tc(o, t3->getLeg3()); pc(o, t3->getLeg3());
        }
    }
}

// Values that a user relies on being valid, in the working variant.
void checkInvariants(Network& n) {
    const std::string var = n.getVariantManager().getWorkingVariantId();
    auto bad = [&](const Identifiable& o, const std::string& what) { fail("invalid-value", "'%s' in variant '%s': %s", o.getId().c_str(), var.c_str(), what.c_str()); };
    auto tap = [&](const Identifiable& o, const char* k, long lo, long cur, long hi, double db, bool reg, bool hasTerm) {
        if (cur < lo || cur > hi) bad(o, fmt("%s tap position %ld outside [%ld, %ld]", k, cur, lo, hi));
        if (db < 0) bad(o, fmt("%s negative deadband", k));
        if (reg && std::isnan(db)) bad(o, fmt("%s regulates without deadband", k));
        if (reg && !hasTerm) bad(o, fmt("%s regulates without terminal", k));
    };
    auto tc = [&](const Identifiable& o, RatioTapChangerHolder& h) {
        if (!h.hasRatioTapChanger()) return;
        auto& r = h.getRatioTapChanger();
        tap(o, "ratio", r.getLowTapPosition(), r.getTapPosition(), r.getHighTapPosition(), r.getTargetDeadband(), r.isRegulating(), !r.hasLoadTapChangingCapabilities() || r.getRegulationTerminal());   // without these capabilities the library only warns
        if (r.getStepCount() != (long)r.getAllSteps().size() || r.getHighTapPosition() - r.getLowTapPosition() + 1 != r.getStepCount()) bad(o, "ratio tap changer: step count does not match positions");
        if (&r.getCurrentStep() != &r.getStep(r.getTapPosition())) bad(o, "ratio tap changer: current step is not the step of the current position");
        if (r.isRegulating() && r.hasLoadTapChangingCapabilities() && (std::isnan(r.getTargetV()) || r.getTargetV() <= 0)) bad(o, "ratio tap changer regulates without a valid target");
    };
    auto pc = [&](const Identifiable& o, PhaseTapChangerHolder& h) {
        if (!h.hasPhaseTapChanger()) return;
        auto& r = h.getPhaseTapChanger();
        tap(o, "phase", r.getLowTapPosition(), r.getTapPosition(), r.getHighTapPosition(), r.getTargetDeadband(), r.isRegulating(), (bool)r.getRegulationTerminal());
        if (r.getStepCount() != (long)r.getAllSteps().size() || r.getHighTapPosition() - r.getLowTapPosition() + 1 != r.getStepCount()) bad(o, "phase tap changer: step count does not match positions");
        if (&r.getCurrentStep() != &r.getStep(r.getTapPosition())) bad(o, "phase tap changer: current step is not the step of the current position");
        if (r.isRegulating() && std::isnan(r.getRegulationValue())) bad(o, "phase tap changer regulates without a value");
        if (r.isRegulating() && r.getRegulationMode() == PhaseTapChanger::RegulationMode::FIXED_TAP) bad(o, "phase tap changer regulates in mode FIXED_TAP");
    };
    auto limits = [&](const Identifiable& o, const char* side, LoadingLimits* l) {
        if (l->getPermanentLimit() <= 0) bad(o, fmt("%s permanent limit not positive", side));
        std::set<std::string> names;
        bool first = true;
        unsigned long prev = 0;
        for (auto& t : l->getTemporaryLimits()) {
            if (!(t.getValue() > 0)) bad(o, fmt("%s temporary limit not positive", side));
            if (t.getName().empty() || !names.insert(t.getName()).second) bad(o, fmt("%s temporary limit without a name of its own ('%s')", side, t.getName().c_str()));
            if (!first && t.getAcceptableDuration() >= prev) bad(o, fmt("%s temporary limits are not in order of duration", side));
            if (&l->getTemporaryLimit(t.getAcceptableDuration()) != &t || hexd(l->getTemporaryLimitValue(t.getAcceptableDuration())) != hexd(t.getValue())) bad(o, fmt("%s temporary limit of %lu s cannot be looked up", side, t.getAcceptableDuration()));
            prev = t.getAcceptableDuration();
            first = false;
        }
    };
    auto branch = [&](Branch& b) {
        for (int k = 0; k < 2; ++k) {
            const Branch::Side side = k ? Branch::Side::TWO : Branch::Side::ONE;
            const char* name = k ? "side 2" : "side 1";
            if (auto l = b.getCurrentLimits(side)) limits(b, name, &l.get());
            if (auto l = b.getActivePowerLimits(side)) limits(b, name, &l.get());
            if (auto l = b.getApparentPowerLimits(side)) limits(b, name, &l.get());
        }
    };
    auto flows = [&](const Identifiable& o, const char* name, FlowsLimitsHolder& h) {
        if (auto l = h.getCurrentLimits()) limits(o, name, &l.get());
        if (auto l = h.getActivePowerLimits()) limits(o, name, &l.get());
        if (auto l = h.getApparentPowerLimits()) limits(o, name, &l.get());
    };
    auto oneRegulating = [&](const Identifiable& o, std::vector<std::pair<RatioTapChangerHolder*, PhaseTapChangerHolder*>> hs) {
        int k = 0;
        for (auto& h : hs) k += (h.first->hasRatioTapChanger() && h.first->getRatioTapChanger().isRegulating()) + (h.second->hasPhaseTapChanger() && h.second->getPhaseTapChanger().isRegulating());
        if (k > 1) bad(o, fmt("%d of its tap changers are regulating", k));
    };
    auto nums = [&](const Identifiable& o, std::initializer_list<double> l) { for (double d : l) if (std::isnan(d)) bad(o, "a characteristic is NaN"); };
    auto reactive = [&](const Identifiable& o, const ReactiveLimitsHolder& h) {
        const auto& l = h.getReactiveLimits<ReactiveLimits>();
        if (l.getKind() == ReactiveLimitsKind::MIN_MAX) {
            if (!(l.getMinQ(0) <= l.getMaxQ(0))) bad(o, "reactive limits are inverted");
            return;
        }
        const auto& c = h.getReactiveLimits<ReactiveCapabilityCurve>();
        if (c.getPointCount() < 2) bad(o, "a reactive capability curve has less than two points");
        const ReactiveCapabilityCurve::Point* prev = nullptr;
        unsigned long cnt = 0;
        for (const auto& pt : c.getPoints()) {
            nums(o, {pt.getP(), pt.getMinQ(), pt.getMaxQ()});
            if (prev && !(prev->getP() < pt.getP())) bad(o, "the points of a reactive capability curve are not ordered");
            if (hexd(c.getMinQ(pt.getP())) != hexd(pt.getMinQ()) || hexd(c.getMaxQ(pt.getP())) != hexd(pt.getMaxQ())) bad(o, "a reactive capability curve has other limits at the power of a point than this point");
            if (prev) {
                double m = prev->getP() + (pt.getP() - prev->getP()) / 2, lo = std::min(prev->getMinQ(), pt.getMinQ()), hi = std::max(prev->getMinQ(), pt.getMinQ()), eps = 1e-6 * (1 + std::fabs(lo) + std::fabs(hi));
                if (std::isfinite(m) && std::isfinite(lo) && std::isfinite(hi) && !(c.getMinQ(m) >= lo - eps && c.getMinQ(m) <= hi + eps)) bad(o, "a reactive capability curve is not between two of its points");
            } else if (hexd(c.getMinP()) != hexd(pt.getP()) || hexd(c.getMinQ(pt.getP() - 1)) != hexd(pt.getMinQ())) bad(o, "a reactive capability curve is not bounded by its first point");
            prev = &pt;
            ++cnt;
        }
        if (cnt != c.getPointCount()) bad(o, "the number of points of a reactive capability curve");
        if (hexd(c.getMaxP()) != hexd(prev->getP()) || hexd(c.getMaxQ(prev->getP() + 1)) != hexd(prev->getMaxQ())) bad(o, "a reactive capability curve is not bounded by its last point");
    };
    for (Identifiable& o : n.getIdentifiables()) {
        checkExtensionValues(o);
        if (auto* x = dynamic_cast<VoltageLevel*>(&o)) {
            if (std::isnan(x->getNominalV()) || x->getNominalV() <= 0) bad(o, "nominal voltage not positive");
            if (x->getLowVoltageLimit() > x->getHighVoltageLimit()) bad(o, "voltage limits are inverted");
            if (x->getLowVoltageLimit() < 0 || x->getHighVoltageLimit() < 0) bad(o, "negative voltage limit");
        } else if (auto* g = dynamic_cast<Generator*>(&o)) {
            if (std::isnan(g->getTargetP())) bad(o, "targetP is NaN");
            if (g->getMinP() > g->getMaxP() || std::isnan(g->getMinP()) || std::isnan(g->getMaxP())) bad(o, "minP/maxP invalid");
            if (g->isVoltageRegulatorOn() && (std::isnan(g->getTargetV()) || g->getTargetV() <= 0)) bad(o, "voltage regulator on without valid targetV");
            if (!g->isVoltageRegulatorOn() && std::isnan(g->getTargetQ())) bad(o, "voltage regulator off without targetQ");
            if (g->getRatedS() <= 0) bad(o, "ratedS not positive");
            reactive(o, *g);
        } else if (auto* b = dynamic_cast<Battery*>(&o)) {
            if (std::isnan(b->getP0()) || std::isnan(b->getQ0())) bad(o, "p0/q0 is NaN");
            if (b->getMinP() > b->getMaxP() || std::isnan(b->getMinP()) || std::isnan(b->getMaxP())) bad(o, "minP/maxP invalid");
            reactive(o, *b);
        } else if (auto* l = dynamic_cast<Load*>(&o)) {
            if (std::isnan(l->getP0()) || std::isnan(l->getQ0())) bad(o, "p0/q0 is NaN");
        } else if (auto* d = dynamic_cast<DanglingLine*>(&o)) {
            if (std::isnan(d->getP0()) || std::isnan(d->getQ0()) || std::isnan(d->getR()) || std::isnan(d->getX()) || std::isnan(d->getG()) || std::isnan(d->getB())) bad(o, "a characteristic is NaN");
            flows(o, "dangling line", *d);
            auto ge = d->getGeneration();
            if (ge) {
                auto& y = ge.get();
                reactive(o, y);
                if (y.getMinP() > y.getMaxP() || std::isnan(y.getTargetP())) bad(o, "generation limits or target invalid");
                if (y.isVoltageRegulationOn() ? (std::isnan(y.getTargetV()) || y.getTargetV() <= 0) : std::isnan(y.getTargetQ())) bad(o, "generation regulation without valid target");
            }
        } else if (auto* s = dynamic_cast<ShuntCompensator*>(&o)) {
            if (s->getSectionCount() > s->getMaximumSectionCount()) bad(o, fmt("section count %lu over maximum %lu", s->getSectionCount(), s->getMaximumSectionCount()));
            if (s->isVoltageRegulatorOn() && (std::isnan(s->getTargetV()) || s->getTargetV() <= 0)) bad(o, "voltage regulator on without valid targetV");
            if (s->isVoltageRegulatorOn() && std::isnan(s->getTargetDeadband())) bad(o, "voltage regulator on without deadband");
            if (s->getTargetDeadband() < 0) bad(o, "negative deadband");
        } else if (auto* c = dynamic_cast<StaticVarCompensator*>(&o)) {
            if (std::isnan(c->getBmin()) || std::isnan(c->getBmax())) bad(o, "bMin/bMax is NaN");
            if (c->getRegulationMode() == StaticVarCompensator::RegulationMode::VOLTAGE && std::isnan(c->getVoltageSetpoint())) bad(o, "regulates voltage without setpoint");
            if (c->getRegulationMode() == StaticVarCompensator::RegulationMode::REACTIVE_POWER && std::isnan(c->getReactivePowerSetpoint())) bad(o, "regulates reactive power without setpoint");
        } else if (auto* h = dynamic_cast<HvdcLine*>(&o)) {
            if (std::isnan(h->getActivePowerSetpoint()) || h->getActivePowerSetpoint() < 0) bad(o, "active power setpoint invalid");
            if (std::isnan(h->getR()) || std::isnan(h->getMaxP()) || h->getMaxP() < 0 || !(h->getNominalV() > 0)) bad(o, "r, maxP or nominalV invalid");
        } else if (auto* z = dynamic_cast<VscConverterStation*>(&o)) {
            if (z->isVoltageRegulatorOn() ? (std::isnan(z->getVoltageSetpoint()) || z->getVoltageSetpoint() <= 0) : std::isnan(z->getReactivePowerSetpoint())) bad(o, "regulation without valid setpoint");
            reactive(o, *z);
            if (std::isnan(z->getLossFactor()) || z->getLossFactor() < 0 || z->getLossFactor() > 100) bad(o, "loss factor invalid");
        } else if (auto* z2 = dynamic_cast<LccConverterStation*>(&o)) {
            if (std::isnan(z2->getPowerFactor()) || std::fabs(z2->getPowerFactor()) > 1) bad(o, "power factor invalid");
            if (std::isnan(z2->getLossFactor()) || z2->getLossFactor() < 0 || z2->getLossFactor() > 100) bad(o, "loss factor invalid");
        } else if (auto* t2 = dynamic_cast<TwoWindingsTransformer*>(&o)) {
            tc(o, *t2);
            pc(o, *t2);
            branch(*t2);
            oneRegulating(o, {{t2, t2}});
            nums(o, {t2->getR(), t2->getX(), t2->getG(), t2->getB(), t2->getRatedU1(), t2->getRatedU2()});
            if (t2->getRatedS() <= 0) bad(o, "ratedS not positive");
        } else if (auto* li = dynamic_cast<Line*>(&o)) {
            branch(*li);
            nums(o, {li->getR(), li->getX(), li->getG1(), li->getG2(), li->getB1(), li->getB2()});
        }
        else if (auto* t3 = dynamic_cast<ThreeWindingsTransformer*>(&o)) { tc(o, t3->getLeg1()); pc(o, t3->getLeg1()); tc(o, t3->getLeg2()); pc(o, t3->getLeg2()); tc(o, t3->getLeg3()); pc(o, t3->getLeg3());
            oneRegulating(o, {{&t3->getLeg1(), &t3->getLeg1()}, {&t3->getLeg2(), &t3->getLeg2()}, {&t3->getLeg3(), &t3->getLeg3()}});
            for (ThreeWindingsTransformer::Leg* leg : {&t3->getLeg1(), &t3->getLeg2(), &t3->getLeg3()}) {
                flows(o, "leg", *leg);
                nums(o, {leg->getR(), leg->getX(), leg->getG(), leg->getB(), leg->getRatedU()});
                if (leg->getRatedS() <= 0) bad(o, "ratedS of a leg not positive");
            }
        }
    }
}
