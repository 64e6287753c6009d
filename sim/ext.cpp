// The extensions of the extension libraries: attributes, operations, look-up oracle and check C19.
#include "attrs.h"
#include "ext.h"

#include <powsybl/iidm/Battery.hpp>
#include <powsybl/iidm/Bus.hpp>
#include <powsybl/iidm/BusbarSection.hpp>
#include <powsybl/iidm/DanglingLine.hpp>
#include <powsybl/iidm/Generator.hpp>
#include <powsybl/iidm/HvdcLine.hpp>
#include <powsybl/iidm/Line.hpp>
#include <powsybl/iidm/Load.hpp>
#include <powsybl/iidm/StaticVarCompensator.hpp>
#include <powsybl/iidm/Substation.hpp>
#include <powsybl/iidm/Switch.hpp>
#include <powsybl/iidm/ThreeWindingsTransformer.hpp>
#include <powsybl/iidm/TwoWindingsTransformer.hpp>
#include <powsybl/iidm/extensions/LoadDetail.hpp>
#include <powsybl/iidm/extensions/SlackTerminal.hpp>
#include <powsybl/iidm/extensions/entsoe/EntsoeArea.hpp>
#include <powsybl/iidm/extensions/entsoe/EntsoeAreaAdder.hpp>
#include <powsybl/iidm/extensions/entsoe/MergedXnode.hpp>
#include <powsybl/iidm/extensions/entsoe/MergedXnodeAdder.hpp>
#include <powsybl/iidm/extensions/entsoe/Xnode.hpp>
#include <powsybl/iidm/extensions/entsoe/XnodeAdder.hpp>
#include <powsybl/iidm/extensions/iidm/ActivePowerControl.hpp>
#include <powsybl/iidm/extensions/iidm/ActivePowerControlAdder.hpp>
#include <powsybl/iidm/extensions/iidm/CoordinatedReactiveControl.hpp>
#include <powsybl/iidm/extensions/iidm/CoordinatedReactiveControlAdder.hpp>
#include <powsybl/iidm/extensions/iidm/DiscreteMeasurementAdder.hpp>
#include <powsybl/iidm/extensions/iidm/DiscreteMeasurements.hpp>
#include <powsybl/iidm/extensions/iidm/DiscreteMeasurementsAdder.hpp>
#include <powsybl/iidm/extensions/iidm/HvdcAngleDroopActivePowerControl.hpp>
#include <powsybl/iidm/extensions/iidm/HvdcAngleDroopActivePowerControlAdder.hpp>
#include <powsybl/iidm/extensions/iidm/HvdcOperatorActivePowerRange.hpp>
#include <powsybl/iidm/extensions/iidm/HvdcOperatorActivePowerRangeAdder.hpp>
#include <powsybl/iidm/extensions/iidm/MeasurementAdder.hpp>
#include <powsybl/iidm/extensions/iidm/Measurements.hpp>
#include <powsybl/iidm/extensions/iidm/MeasurementsAdder.hpp>
#include <powsybl/iidm/extensions/iidm/RemoteReactivePowerControl.hpp>
#include <powsybl/iidm/extensions/iidm/RemoteReactivePowerControlAdder.hpp>
#include <powsybl/iidm/extensions/iidm/ThreeWindingsTransformerPhaseAngleClock.hpp>
#include <powsybl/iidm/extensions/iidm/ThreeWindingsTransformerPhaseAngleClockAdder.hpp>
#include <powsybl/iidm/extensions/iidm/TwoWindingsTransformerPhaseAngleClock.hpp>
#include <powsybl/iidm/extensions/iidm/TwoWindingsTransformerPhaseAngleClockAdder.hpp>
#include <powsybl/iidm/extensions/iidm/VoltagePerReactivePowerControl.hpp>
#include <powsybl/iidm/extensions/iidm/VoltagePerReactivePowerControlAdder.hpp>
#include <powsybl/iidm/extensions/sld/BranchStatus.hpp>
#include <powsybl/iidm/extensions/sld/BranchStatusAdder.hpp>
#include <powsybl/iidm/extensions/sld/BusbarSectionPosition.hpp>
#include <powsybl/iidm/extensions/sld/BusbarSectionPositionAdder.hpp>
#include <powsybl/iidm/extensions/sld/ConnectablePosition.hpp>
#include <powsybl/iidm/extensions/sld/ConnectablePositionAdder.hpp>

namespace xi = powsybl::iidm::extensions::iidm;
namespace xs = powsybl::iidm::extensions::sld;
namespace xe = powsybl::iidm::extensions::entsoe;

namespace {
// ---- text of the measurements of an object, in order
std::string text(const xi::Measurement& m) {
    std::string s = m.getId() + ":" + std::to_string((int)m.getType()) + ":" + (m.getSide() ? std::to_string((int)*m.getSide()) : "-") + ":" + hexd(m.getValue()) + ":" + hexd(m.getStandardDeviation()) + ":" + (m.isValid() ? "v" : "i");
    for (const auto& n : m.getPropertyNames()) s += ":" + n + "=" + m.getProperty(n);
    return s;
}
std::string text(const xi::DiscreteMeasurement& m) {
    std::string s = m.getId() + ":" + std::to_string((int)m.getType()) + ":" + (m.getTapChanger() ? std::to_string((int)*m.getTapChanger()) : "-") + ":";
    switch (m.getValueType()) {
        case xi::DiscreteMeasurement::ValueType::BOOLEAN: s += m.getValueAsBoolean() ? "b1" : "b0"; break;
        case xi::DiscreteMeasurement::ValueType::INT: s += "i" + std::to_string(m.getValueAsInt()); break;
        default: s += "s" + m.getValueAsString();
    }
    s += m.isValid() ? ":v" : ":i";
    for (const auto& n : m.getPropertyNames()) s += ":" + n + "=" + m.getProperty(n);
    return s;
}
template <class R> std::vector<std::string> texts(R&& range) {
    std::vector<std::string> v;
    for (const auto& m : range) v.push_back(text(m));
    return v;
}
std::string join(const std::vector<std::string>& v) {
    std::string s;
    for (auto& x : v) s += x + "\n";
    return s;
}
std::string feederText(const xs::ConnectablePosition::Feeder& f) { return f.getName() + "," + std::to_string(f.getOrder()) + "," + std::to_string((int)f.getDirection()); }
}  // namespace

void extAttrs(B& a, Identifiable& o) {
    Identifiable* p = &o;
    std::string pre = a.pre;
    if (auto x = p->findExtension<xi::ActivePowerControl>()) {
        auto* e = &x.get();
        a.pre = pre + "x.activePowerControl.";
        a.d("droop", false, [e]() { return e->getDroop(); }, [e](double v) { e->setDroop(v); });
        a.b("participate", false, [e]() { return e->isParticipate(); }, [e](bool v) { e->setParticipate(v); });
    }
    if (auto x = p->findExtension<xi::CoordinatedReactiveControl>()) {
        auto* e = &x.get();
        a.pre = pre + "x.coordinatedReactiveControl.";
        a.d("qPercent", false, [e]() { return e->getQPercent(); }, [e](double v) { e->setQPercent(v); });
    }
    if (auto x = p->findExtension<xi::DiscreteMeasurements>()) {
        auto* e = &x.get();
        a.pre = pre + "x.discreteMeasurements.";
        a.rs("list", false, [e]() { return join(texts(const_cast<const xi::DiscreteMeasurements*>(e)->getDiscreteMeasurements())); });
    }
    if (auto x = p->findExtension<xi::HvdcAngleDroopActivePowerControl>()) {
        auto* e = &x.get();
        a.pre = pre + "x.hvdcAngleDroopActivePowerControl.";
        a.d("p0", false, [e]() { return e->getP0(); }, [e](double v) { e->setP0(v); });
        a.d("droop", false, [e]() { return e->getDroop(); }, [e](double v) { e->setDroop(v); });
        a.b("enabled", false, [e]() { return e->isEnabled(); }, [e](bool v) { e->setEnabled(v); });
    }
    if (auto x = p->findExtension<xi::HvdcOperatorActivePowerRange>()) {
        auto* e = &x.get();
        a.pre = pre + "x.hvdcOperatorActivePowerRange.";
        a.d("opr12", false, [e]() { return e->getOprFromCS1toCS2(); }, [e](double v) { e->setOprFromCS1toCS2(v); });
        a.d("opr21", false, [e]() { return e->getOprFromCS2toCS1(); }, [e](double v) { e->setOprFromCS2toCS1(v); });
    }
    if (auto x = p->findExtension<xi::Measurements>()) {
        auto* e = &x.get();
        a.pre = pre + "x.measurements.";
        a.rs("list", false, [e]() { return join(texts(const_cast<const xi::Measurements*>(e)->getMeasurements())); });
    }
    if (auto x = p->findExtension<xi::RemoteReactivePowerControl>()) {
        auto* e = &x.get();
        a.pre = pre + "x.generatorRemoteReactivePowerControl.";
        a.ro("targetQ", false, [e]() { return e->getTargetQ(); });
        a.ro("enabled", false, [e]() { return e->isEnabled(); });
        a.rs("regTerm", false, [e]() { return termName(e->getRegulatingTerminal()); });
    }
    if (auto x = p->findExtension<xi::ThreeWindingsTransformerPhaseAngleClock>()) {
        auto* e = &x.get();
        a.pre = pre + "x.threeWindingsTransformerPhaseAngleClock.";
        a.u("leg2", false, [e]() { return e->getPhaseAngleClockLeg2(); }, [e](unsigned long v) { e->setPhaseAngleClockLeg2(v); }, 11);
        a.u("leg3", false, [e]() { return e->getPhaseAngleClockLeg3(); }, [e](unsigned long v) { e->setPhaseAngleClockLeg3(v); }, 11);
    }
    if (auto x = p->findExtension<xi::TwoWindingsTransformerPhaseAngleClock>()) {
        auto* e = &x.get();
        a.pre = pre + "x.twoWindingsTransformerPhaseAngleClock.";
        a.u("clock", false, [e]() { return e->getPhaseAngleClock(); }, [e](unsigned long v) { e->setPhaseAngleClock(v); }, 11);
    }
    if (auto x = p->findExtension<xi::VoltagePerReactivePowerControl>()) {
        auto* e = &x.get();
        a.pre = pre + "x.voltagePerReactivePowerControl.";
        a.d("slope", false, [e]() { return e->getSlope(); }, [e](double v) { e->setSlope(v); });
    }
    if (auto x = p->findExtension<xs::BranchStatus>()) {
        auto* e = &x.get();
        a.pre = pre + "x.branchStatus.";
        a.e<xs::BranchStatus::Status>("status", false, [e]() { return e->getStatus(); }, [e](xs::BranchStatus::Status v) { e->setStatus(v); }, 3);
    }
    if (auto x = p->findExtension<xs::BusbarSectionPosition>()) {
        auto* e = &x.get();
        a.pre = pre + "x.busbarSectionPosition.";
        a.u("busbar", false, [e]() { return e->getBusbarIndex(); }, [e](unsigned long v) { e->setBusbarIndex(v); }, 9);
        a.u("section", false, [e]() { return e->getSectionIndex(); }, [e](unsigned long v) { e->setSectionIndex(v); }, 9);
    }
    if (auto x = p->findExtension<xs::ConnectablePosition>()) {
        auto* e = &x.get();
        a.pre = pre + "x.position.";
        auto feeder = [&a](const char* n, const stdcxx::Reference<xs::ConnectablePosition::Feeder>& f) {
            if (!f) { a.rs(n, false, []() { return std::string("-"); }); return; }
            auto* k = &f.get();
            std::string q = a.pre;
            a.rs(n, false, [k]() { return feederText(*k); });
            // one attribute text per feeder; the setters change a part of it
            Attr s{q + n, false, nullptr, [k](Rng& r, std::string& e) {
                switch (r.below(3)) {
                    case 0: { std::string v = "f" + std::to_string(r.below(20)); e = v + "," + std::to_string(k->getOrder()) + "," + std::to_string((int)k->getDirection()); k->setName(v); break; }
                    case 1: { unsigned long v = r.below(50); e = k->getName() + "," + std::to_string(v) + "," + std::to_string((int)k->getDirection()); k->setOrder(v); break; }
                    default: { auto v = (xs::ConnectablePosition::Direction)r.below(3); e = k->getName() + "," + std::to_string(k->getOrder()) + "," + std::to_string((int)v); k->setDirection(v); }
                }
            }, true, {}};
            if (a.setters) a.out.push_back(std::move(s));
        };
        feeder("feeder", e->getFeeder());
        feeder("feeder1", e->getFeeder1());
        feeder("feeder2", e->getFeeder2());
        feeder("feeder3", e->getFeeder3());
    }
    if (auto x = p->findExtension<xe::EntsoeArea>()) {
        auto* e = &x.get();
        a.pre = pre + "x.entsoeArea.";
        a.e<xe::EntsoeGeographicalCode>("code", false, [e]() { return e->getCode(); }, [e](xe::EntsoeGeographicalCode v) { e->setCode(v); }, 43);
    }
    if (auto x = p->findExtension<xe::MergedXnode>()) {
        auto* e = &x.get();
        a.pre = pre + "x.mergedXnode.";
        a.d("rdp", false, [e]() { return e->getRdp(); }, [e](double v) { e->setRdp(v); });
        a.d("xdp", false, [e]() { return e->getXdp(); }, [e](double v) { e->setXdp(v); });
        a.d("p1", false, [e]() { return e->getXnodeP1(); }, [e](double v) { e->setXnodeP1(v); });
        a.d("q1", false, [e]() { return e->getXnodeQ1(); }, [e](double v) { e->setXnodeQ1(v); });
        a.d("p2", false, [e]() { return e->getXnodeP2(); }, [e](double v) { e->setXnodeP2(v); });
        a.d("q2", false, [e]() { return e->getXnodeQ2(); }, [e](double v) { e->setXnodeQ2(v); });
        a.s("line1", false, [e]() { return e->getLine1Name(); }, [e](const std::string& v) { e->setLine1Name(v); });
        a.s("line2", false, [e]() { return e->getLine2Name(); }, [e](const std::string& v) { e->setLine2Name(v); });
        a.s("code", false, [e]() { return e->getCode(); }, [e](const std::string& v) { e->setCode(v); });
    }
    if (auto x = p->findExtension<xe::Xnode>()) {
        auto* e = &x.get();
        a.pre = pre + "x.xnode.";
        a.s("code", false, [e]() { return e->getCode(); }, [e](const std::string& v) { e->setCode(v); });
    }
    a.pre = pre;
}

// ------------------------------------------------------------------------------- look-ups
namespace {
struct Kind {
    const char* name;
    bool (*has)(Identifiable&);
    void (*remove)(Identifiable&);
    void (*lookups)(Identifiable&, bool present);
};
template <class E> bool hasX(Identifiable& o) { return (bool)o.findExtension<E>(); }
template <class E> void removeX(Identifiable& o) { o.removeExtension<E>(); }
template <class E> void lookX(Identifiable& o, const char* name, bool present) {
    const Identifiable& c = o;
    auto bad = [&](const char* what) { simrt::Harness h; fail("extension-lookup", "'%s' extension %s: %s", o.getId().c_str(), name, what); };
    auto f = o.findExtension<E>();
    auto cf = c.findExtension<E>();
    auto n = o.getExtensionByName<E>(name);
    auto cn = c.getExtensionByName<E>(name);
    auto any = o.getExtensionByName<Extension>(name);
    if ((bool)f != present || (bool)cf != present || (bool)n != present || (bool)cn != present || (bool)any != present) bad("found by one look-up and not by another");
    if (present) {
        if (&f.get() != &cf.get() || &f.get() != &n.get() || &f.get() != &cn.get() || static_cast<Extension*>(&f.get()) != &any.get()) bad("the look-ups return different objects");
        if (&o.getExtension<E>() != &f.get()) bad("getExtension returns another object");
        if (f.get().getName() != name) bad("wrong name");
        if (f.get().getType() != std::type_index(typeid(E))) bad("wrong type");
        auto own = f.get().template getExtendable<Extendable>();
        if (!own || &own.get() != static_cast<Extendable*>(&o)) bad("its extendable is not the object");
    } else {
        bool thrown = false;
        try { o.getExtension<E>(); } catch (const powsybl::PowsyblException&) { thrown = true; }
        if (!thrown) bad("getExtension does not throw though the extension is absent");
    }
}
#define KIND(E, NAME) {NAME, hasX<E>, removeX<E>, [](Identifiable& o, bool p) { lookX<E>(o, NAME, p); }}
const Kind KINDS[] = {
    KIND(SimExt, "simExt"), KIND(PlainExt, "plainExt"), KIND(extensions::LoadDetail, "detail"), KIND(extensions::SlackTerminal, "slackTerminal"),
    KIND(xi::ActivePowerControl, "activePowerControl"), KIND(xi::CoordinatedReactiveControl, "coordinatedReactiveControl"), KIND(xi::DiscreteMeasurements, "discreteMeasurements"),
    KIND(xi::HvdcAngleDroopActivePowerControl, "hvdcAngleDroopActivePowerControl"), KIND(xi::HvdcOperatorActivePowerRange, "hvdcOperatorActivePowerRange"), KIND(xi::Measurements, "measurements"),
    KIND(xi::RemoteReactivePowerControl, "generatorRemoteReactivePowerControl"), KIND(xi::ThreeWindingsTransformerPhaseAngleClock, "threeWindingsTransformerPhaseAngleClock"),
    KIND(xi::TwoWindingsTransformerPhaseAngleClock, "twoWindingsTransformerPhaseAngleClock"), KIND(xi::VoltagePerReactivePowerControl, "voltagePerReactivePowerControl"),
    KIND(xs::BranchStatus, "branchStatus"), KIND(xs::BusbarSectionPosition, "busbarSectionPosition"), KIND(xs::ConnectablePosition, "position"),
    KIND(xe::EntsoeArea, "entsoeArea"), KIND(xe::MergedXnode, "mergedXnode"), KIND(xe::Xnode, "xnode"),
};
const size_t NKIND = sizeof KINDS / sizeof *KINDS;
const size_t FIRST = 4;   // the first kinds have operations of their own
}  // namespace

// the rules the values of the extensions obey
void checkExtensionValues(Identifiable& o) {
    auto rule = [&](bool ok, const char* what) { if (!ok) fail("invalid-value", "'%s': %s", o.getId().c_str(), what); };
    auto num = [](std::initializer_list<double> l) { for (double d : l) if (std::isnan(d)) return false; return true; };
    if (auto x = o.findExtension<extensions::LoadDetail>()) rule(num({x.get().getFixedActivePower(), x.get().getFixedReactivePower(), x.get().getVariableActivePower(), x.get().getVariableReactivePower()}), "a power of its load detail is NaN");
    if (auto x = o.findExtension<xi::CoordinatedReactiveControl>()) rule(num({x.get().getQPercent()}), "the percentage of its coordinated reactive control is NaN");
    if (auto x = o.findExtension<xi::HvdcAngleDroopActivePowerControl>()) rule(num({x.get().getDroop(), x.get().getP0()}), "the droop or the power of its angle droop control is NaN");
    if (auto x = o.findExtension<xi::HvdcOperatorActivePowerRange>()) rule(!(x.get().getOprFromCS1toCS2() < 0) && !(x.get().getOprFromCS2toCS1() < 0), "its operator active power range is negative");
    if (auto x = o.findExtension<xi::VoltagePerReactivePowerControl>()) rule(x.get().getSlope() >= 0, "the slope of its voltage per reactive power control is not positive");
    if (auto x = o.findExtension<xi::TwoWindingsTransformerPhaseAngleClock>()) rule(x.get().getPhaseAngleClock() <= 11, "its phase angle clock is greater than 11");
    if (auto x = o.findExtension<xi::ThreeWindingsTransformerPhaseAngleClock>()) rule(x.get().getPhaseAngleClockLeg2() <= 11 && x.get().getPhaseAngleClockLeg3() <= 11, "a phase angle clock is greater than 11");
    if (auto x = o.findExtension<xe::MergedXnode>()) {
        auto& m = x.get();
        rule(m.getRdp() >= 0 && m.getRdp() <= 1 && m.getXdp() >= 0 && m.getXdp() <= 1, "a divider position of its merged node is not in [0, 1]");
        rule(num({m.getXnodeP1(), m.getXnodeQ1(), m.getXnodeP2(), m.getXnodeQ2()}), "a power of its merged node is NaN");
        rule(!m.getCode().empty(), "the code of its merged node is empty");
    }
    if (auto x = o.findExtension<xe::Xnode>()) rule(!x.get().getCode().empty(), "the code of its node is empty");
    if (auto x = o.findExtension<xs::ConnectablePosition>()) {
        auto& c = x.get();
        bool f = (bool)c.getFeeder(), f1 = (bool)c.getFeeder1(), f2 = (bool)c.getFeeder2(), f3 = (bool)c.getFeeder3();
        rule(f ? !f1 && !f2 && !f3 : f1 && (f2 || !f3), "the feeders of its position exclude each other or are not in order");
        for (auto q : {c.getFeeder(), c.getFeeder1(), c.getFeeder2(), c.getFeeder3()}) if (q) rule(!q.get().getName().empty(), "a feeder of its position has no name");
    }
    bool inj = dynamic_cast<Injection*>(&o) != nullptr, t2 = dynamic_cast<TwoWindingsTransformer*>(&o) != nullptr, t3 = dynamic_cast<ThreeWindingsTransformer*>(&o) != nullptr;
    if (auto x = o.findExtension<xi::Measurements>()) {
        const auto& c = x.get();
        for (auto& y : c.getMeasurements()) {
            rule(!(y.isValid() && std::isnan(y.getValue())), "a measurement is valid without a value");
            rule(!(inj && y.getSide()), "a measurement of an injection has a side");
            rule(inj || y.getSide() || y.getType() == xi::Measurement::Type::OTHER, "a measurement of a branch has no side");
        }
    }
    if (auto x = o.findExtension<xi::DiscreteMeasurements>()) {
        const auto& c = x.get();
        typedef xi::DiscreteMeasurement D;
        for (auto& y : c.getDiscreteMeasurements()) {
            rule(y.getType() != D::Type::TAP_POSITION || (y.getTapChanger() && (t2 || t3)), "a tap position is measured without a tap changer");
            rule(y.getType() != D::Type::SWITCH_POSITION || dynamic_cast<Switch*>(&o), "a switch position is measured on another object");
            if (y.getTapChanger()) {
                bool noLeg = *y.getTapChanger() == D::TapChanger::RATIO_TAP_CHANGER || *y.getTapChanger() == D::TapChanger::PHASE_TAP_CHANGER;
                rule(t2 ? noLeg : t3 && !noLeg, "the tap changer of a discrete measurement is not one of the object");
            }
            rule(!y.isValid() || y.getValueType() != D::ValueType::STRING || !y.getValueAsString().empty(), "a discrete measurement is valid without a value");
        }
    }
}

void checkExtensions(Network& n) {
    std::set<const Terminal*> live;
    for (auto* t : terminalsOf(n)) live.insert(t);
    for (Identifiable& o : n.getIdentifiables()) {
        std::map<std::string, const Extension*> all;
        for (const Extension& e : static_cast<const Identifiable&>(o).getExtensions())
            if (!all.emplace(e.getName(), &e).second) fail("extension-lookup", "'%s' lists two extensions named %s", o.getId().c_str(), e.getName().c_str());
        size_t k = 0;
        for (Extension& e : o.getExtensions()) { ++k; if (!all.count(e.getName()) || all[e.getName()] != &e) fail("extension-lookup", "'%s': the two ranges of extensions differ", o.getId().c_str()); }
        if (k != all.size()) fail("extension-lookup", "'%s': the two ranges of extensions differ", o.getId().c_str());
        size_t found = 0;
        for (const auto& kd : KINDS) {
            bool present = all.count(kd.name) != 0;
            found += present;
            if (!all.empty() || &kd < KINDS + 6) kd.lookups(o, present);
        }
        if (found != all.size()) fail("extension-lookup", "'%s' lists %zu extensions, %zu are known", o.getId().c_str(), all.size(), found);
        checkExtensionValues(o);
        if (auto x = o.findExtension<xi::RemoteReactivePowerControl>())
            if (!live.count(&x.get().getRegulatingTerminal())) fail("dangling-reference", "the remote reactive power control of '%s' refers to a terminal that is not in the network", o.getId().c_str());
        if (auto x = o.findExtension<xi::Measurements>()) {
            auto& m = x.get();
            const auto& c = x.get();
            std::vector<std::string> a = texts(m.getMeasurements()), b = texts(c.getMeasurements());
            size_t byType = 0;
            for (int t = 0; t < 8; ++t) for (auto& y : c.getMeasurements((xi::Measurement::Type)t)) { ++byType; if ((int)y.getType() != t) fail("measurement-lookup", "'%s': wrong type", o.getId().c_str()); }
            if (a != b || byType != a.size()) fail("measurement-lookup", "'%s': the ranges of measurements differ", o.getId().c_str());
            std::set<std::string> ids;
            for (auto& y : c.getMeasurements()) {
                if (!y.getId().empty() && !ids.insert(y.getId()).second) fail("measurement-lookup", "'%s': two measurements named '%s'", o.getId().c_str(), y.getId().c_str());
                if (!y.getId().empty()) { auto z = c.getMeasurement(y.getId()); if (!z || &z.get() != &y) fail("measurement-lookup", "'%s': measurement '%s' is not found by its id", o.getId().c_str(), y.getId().c_str()); }
                if (y.isValid() && std::isnan(y.getValue())) fail("invalid-value", "'%s': measurement '%s' is valid without a value", o.getId().c_str(), y.getId().c_str());
            }
        }
        if (auto x = o.findExtension<xi::DiscreteMeasurements>()) {
            auto& m = x.get();
            const auto& c = x.get();
            std::vector<std::string> a = texts(m.getDiscreteMeasurements()), b = texts(c.getDiscreteMeasurements());
            size_t byType = 0;
            for (int t = 0; t < 4; ++t) for (auto& y : c.getDiscreteMeasurements((xi::DiscreteMeasurement::Type)t)) { ++byType; if ((int)y.getType() != t) fail("measurement-lookup", "'%s': wrong type", o.getId().c_str()); }
            if (a != b || byType != a.size()) fail("measurement-lookup", "'%s': the ranges of discrete measurements differ", o.getId().c_str());
            std::set<std::string> ids;
            for (auto& y : c.getDiscreteMeasurements()) {
                if (!y.getId().empty() && !ids.insert(y.getId()).second) fail("measurement-lookup", "'%s': two discrete measurements named '%s'", o.getId().c_str(), y.getId().c_str());
                if (!y.getId().empty()) { auto z = c.getDiscreteMeasurement(y.getId()); if (!z || &z.get() != &y) fail("measurement-lookup", "'%s': discrete measurement '%s' is not found by its id", o.getId().c_str(), y.getId().c_str()); }
            }
        }
    }
}

// ------------------------------------------------------------------------------- operations
namespace {
Identifiable* pickIf(World& w, Rng& r, bool (*ok)(Identifiable&)) {
    std::map<std::string, Identifiable*> m;
    bool wrong = w.wild && r.chance(4);
    for (Identifiable& o : w.n().getIdentifiables()) if (&o != &w.n() && (wrong || ok(o))) m[o.getId()] = &o;
    if (m.empty()) return nullptr;
    auto i = m.begin();
    std::advance(i, r.below(m.size()));
    return i->second;
}
template <class T> bool isA(Identifiable& o) { return dynamic_cast<T*>(&o) != nullptr; }
double val(World& w, Rng& r) { return w.wild ? genD(r, 1) : (double)(1 + r.below(40000)) / 37.0; }
struct X {   // declares what the creation of an extension does
    World& w;
    Effect& e;
    std::string id, name;
    X(World& ww, Effect& ee, Identifiable* o, const char* n) : w(ww), e(ee), id(o->getId()), name(n) {
        e.what += std::string(" ") + n + " to " + id;
        e.may.push_back(id + "|exts$");
        for (auto p : {&e.may, &e.mayAdd, &e.mayDel}) p->push_back(id + "|x." + name + ".");
    }
    void must(const char* a, const std::string& v) { e.must[id + "|x." + name + "." + a] = v; }
    void must(const char* a, double v) { must(a, hexd(v)); }
};
template <class M> std::string propsOf(Rng& r, M& a) {
    std::map<std::string, std::string> p;
    for (size_t n = r.below(3); n; --n) { std::string k = "p" + std::to_string(r.below(3)), v = "v" + std::to_string(r.below(50)); p[k] = v; a.putProperty(k, v); }
    std::string s;
    for (auto& x : p) s += ":" + x.first + "=" + x.second;
    return s;
}

RegOp addXExt("addXExt", [](World& w, Rng& r, Effect& e) {
    Identifiable* o = nullptr;
    for (int tries = 0; tries < 4 && !o; ++tries) switch (r.below(17)) {
        case 0: {
            if (!(o = pickIf(w, r, [](Identifiable& i) { return isA<Generator>(i) || isA<Battery>(i); }))) break;
            X x(w, e, o, "activePowerControl");
            double d = val(w, r);
            bool p = r.chance(50);
            x.must("droop", d);
            x.must("participate", str(p));
            o->newExtension<xi::ActivePowerControlAdder>().withDroop(d).withParticipate(p).add();
            break;
        }
        case 1: {
            if (!(o = pickIf(w, r, isA<Generator>))) break;
            X x(w, e, o, "coordinatedReactiveControl");
            double d = val(w, r);
            x.must("qPercent", d);
            auto a = o->newExtension<xi::CoordinatedReactiveControlAdder>();
            if (!(w.wild && r.chance(5))) a.withQPercent(d);
            a.add();
            break;
        }
        case 2: {
            if (!(o = pickIf(w, r, [](Identifiable& i) { return isA<Switch>(i) || isA<TwoWindingsTransformer>(i) || isA<ThreeWindingsTransformer>(i) || isA<Load>(i); }))) break;
            X x(w, e, o, "discreteMeasurements");
            x.must("list", std::string());
            o->newExtension<xi::DiscreteMeasurementsAdder>().add();
            break;
        }
        case 3: {
            if (!(o = pickIf(w, r, isA<HvdcLine>))) break;
            X x(w, e, o, "hvdcAngleDroopActivePowerControl");
            double p0 = val(w, r), d = val(w, r);
            bool b = r.chance(50);
            x.must("p0", p0); x.must("droop", d); x.must("enabled", str(b));
            auto a = o->newExtension<xi::HvdcAngleDroopActivePowerControlAdder>();
            if (!(w.wild && r.chance(5))) a.withP0(p0);
            if (!(w.wild && r.chance(5))) a.withDroop(d);
            a.withEnabled(b).add();
            break;
        }
        case 4: {
            if (!(o = pickIf(w, r, isA<HvdcLine>))) break;
            X x(w, e, o, "hvdcOperatorActivePowerRange");
            double a = val(w, r), b = val(w, r);
            x.must("opr12", a); x.must("opr21", b);
            o->newExtension<xi::HvdcOperatorActivePowerRangeAdder>().withOprFromCS1toCS2(a).withOprFromCS2toCS1(b).add();
            break;
        }
        case 5: {
            if (!(o = pickIf(w, r, isA<Connectable>))) break;
            X x(w, e, o, "measurements");
            x.must("list", std::string());
            o->newExtension<xi::MeasurementsAdder>().add();
            break;
        }
        case 6: case 7: {
            if (!(o = pickIf(w, r, isA<Generator>))) break;
            auto ts = terminalsOf(w.n());
            std::map<std::string, Terminal*> m;
            for (auto* t : ts) m[termName(*t)] = t;
            if (m.empty()) break;
            auto i = m.begin();
            std::advance(i, r.below(m.size()));
            X x(w, e, o, "generatorRemoteReactivePowerControl");
            double q = val(w, r);
            bool b = r.chance(50);
            x.must("targetQ", q); x.must("enabled", str(b)); x.must("regTerm", i->first);
            auto a = o->newExtension<xi::RemoteReactivePowerControlAdder>();
            if (!(w.wild && r.chance(3))) a.withRegulatingTerminal(*i->second);
            a.withTargetQ(q).withEnabled(b).add();
            break;
        }
        case 8: {
            if (!(o = pickIf(w, r, isA<ThreeWindingsTransformer>))) break;
            X x(w, e, o, "threeWindingsTransformerPhaseAngleClock");
            unsigned long a = r.below(w.wild ? 13 : 12), b = r.below(w.wild ? 13 : 12);
            x.must("leg2", str(a)); x.must("leg3", str(b));
            o->newExtension<xi::ThreeWindingsTransformerPhaseAngleClockAdder>().withPhaseAngleClockLeg2(a).withPhaseAngleClockLeg3(b).add();
            break;
        }
        case 9: {
            if (!(o = pickIf(w, r, isA<TwoWindingsTransformer>))) break;
            X x(w, e, o, "twoWindingsTransformerPhaseAngleClock");
            unsigned long a = r.below(w.wild ? 13 : 12);
            x.must("clock", str(a));
            o->newExtension<xi::TwoWindingsTransformerPhaseAngleClockAdder>().withPhaseAngleClock(a).add();
            break;
        }
        case 10: {
            if (!(o = pickIf(w, r, isA<StaticVarCompensator>))) break;
            X x(w, e, o, "voltagePerReactivePowerControl");
            double s = val(w, r);
            x.must("slope", s);
            o->newExtension<xi::VoltagePerReactivePowerControlAdder>().withSlope(s).add();
            break;
        }
        case 11: {
            if (!(o = pickIf(w, r, isA<Connectable>))) break;
            X x(w, e, o, "branchStatus");
            auto s = (xs::BranchStatus::Status)r.below(3);
            x.must("status", str(s));
            auto a = o->newExtension<xs::BranchStatusAdder>();
            if (!(w.wild && r.chance(5))) a.withStatus(s);
            a.add();
            break;
        }
        case 12: {
            if (!(o = pickIf(w, r, isA<BusbarSection>))) break;
            X x(w, e, o, "busbarSectionPosition");
            unsigned long a = r.below(9), b = r.below(9);
            x.must("busbar", str(a)); x.must("section", str(b));
            o->newExtension<xs::BusbarSectionPositionAdder>().withBusbarIndex(a).withSectionIndex(b).add();
            break;
        }
        case 13: {
            if (!(o = pickIf(w, r, isA<Connectable>))) break;
            X x(w, e, o, "position");
            auto a = o->newExtension<xs::ConnectablePositionAdder>();
            int mask = w.wild && r.chance(15) ? (int)r.below(16) : r.chance(40) ? 1 : r.chance(40) ? 2 : r.chance(50) ? 6 : 14;
            const char* const nm[4] = {"feeder", "feeder1", "feeder2", "feeder3"};
            for (int k = 0; k < 4; ++k) {
                if (!(mask >> k & 1)) { x.must(nm[k], std::string("-")); continue; }
                std::string n = "f" + std::to_string(r.below(9));
                unsigned long ord = r.below(40);
                auto d = (xs::ConnectablePosition::Direction)r.below(3);
                x.must(nm[k], n + "," + str(ord) + "," + str(d));
                auto f = k == 0 ? a.newFeeder() : k == 1 ? a.newFeeder1() : k == 2 ? a.newFeeder2() : a.newFeeder3();
                if (!(w.wild && r.chance(3))) f.withName(n);
                if (!(w.wild && r.chance(3))) f.withOrder(ord);
                if (!(w.wild && r.chance(3))) f.withDirection(d);
                f.add();
            }
            a.add();
            break;
        }
        case 14: {
            if (!(o = pickIf(w, r, isA<Substation>))) break;
            X x(w, e, o, "entsoeArea");
            auto c = (xe::EntsoeGeographicalCode)r.below(43);
            x.must("code", str(c));
            auto a = o->newExtension<xe::EntsoeAreaAdder>();
            if (!(w.wild && r.chance(5))) a.withCode(c);
            a.add();
            break;
        }
        case 15: {
            if (!(o = pickIf(w, r, isA<Line>))) break;
            X x(w, e, o, "mergedXnode");
            double v[6];
            for (double& d : v) d = w.wild && r.chance(10) ? genD(r, 1) : (double)r.below(100) / 100.0;
            x.must("rdp", v[0]); x.must("xdp", v[1]); x.must("p1", v[2]); x.must("q1", v[3]); x.must("p2", v[4]); x.must("q2", v[5]);
            x.must("line1", std::string("l1")); x.must("line2", std::string("l2")); x.must("code", std::string("c"));
            o->newExtension<xe::MergedXnodeAdder>().withRdp(v[0]).withXdp(v[1]).withXnodeP1(v[2]).withXnodeQ1(v[3]).withXnodeP2(v[4]).withXnodeQ2(v[5]).withLine1Name("l1").withLine2Name("l2").withCode("c").add();
            break;
        }
        default: {
            if (!(o = pickIf(w, r, isA<DanglingLine>))) break;
            X x(w, e, o, "xnode");
            std::string c = "code" + std::to_string(r.below(40));
            x.must("code", c);
            o->newExtension<xe::XnodeAdder>().withCode(c).add();
        }
    }
    if (!o) e.noop = true;
});
RegOp removeXExt("removeXExt", [](World& w, Rng& r, Effect& e) {
    std::map<std::string, std::pair<Identifiable*, const Kind*>> m;
    for (Identifiable& o : w.n().getIdentifiables())
        for (size_t k = FIRST; k < NKIND; ++k) if (KINDS[k].has(o)) m[o.getId() + "|" + KINDS[k].name] = {&o, &KINDS[k]};
    if (m.empty()) { e.noop = true; return; }
    auto i = m.begin();
    std::advance(i, r.below(m.size()));
    Identifiable* o = i->second.first;
    X x(w, e, o, i->second.second->name);
    i->second.second->remove(*o);
    if (i->second.second->has(*o)) { simrt::Harness h; fail("extension-not-removed", "%s", i->first.c_str()); }
});
// measurements: the expected list is that of the model
RegOp measure("measure", [](World& w, Rng& r, Effect& e) {
    std::map<std::string, std::pair<Identifiable*, int>> m;
    for (Identifiable& o : w.n().getIdentifiables()) {
        if (o.findExtension<xi::Measurements>()) m[o.getId() + "|m"] = {&o, 0};
        if (o.findExtension<xi::DiscreteMeasurements>()) m[o.getId() + "|d"] = {&o, 1};
    }
    if (m.empty() || r.chance(15)) {
        bool d = r.chance(40);
        Identifiable* o = d ? pickIf(w, r, [](Identifiable& i) { return (isA<Switch>(i) || isA<TwoWindingsTransformer>(i) || isA<ThreeWindingsTransformer>(i)) && !i.findExtension<xi::DiscreteMeasurements>(); })
                            : pickIf(w, r, [](Identifiable& i) { return isA<Connectable>(i) && !i.findExtension<xi::Measurements>(); });
        if (!o) { e.noop = true; return; }
        X x(w, e, o, d ? "discreteMeasurements" : "measurements");
        x.must("list", std::string());
        if (d) o->newExtension<xi::DiscreteMeasurementsAdder>().add(); else o->newExtension<xi::MeasurementsAdder>().add();
        return;
    }
    auto i = m.begin();
    std::advance(i, r.below(m.size()));
    Identifiable* o = i->second.first;
    std::string id = r.chance(20) ? "" : "m" + std::to_string(r.below(6));
    if (i->second.second == 0) {
        xi::Measurements& ms = o->getExtension<xi::Measurements>();
        e.what += " of " + o->getId();
        std::string key = o->getId() + "|x.measurements.list";
        e.may.push_back(key + "$");
        std::vector<std::string> list = texts(ms.getMeasurements());
        std::vector<xi::Measurement*> all;
        for (auto& y : ms.getMeasurements()) all.push_back(const_cast<xi::Measurement*>(&y));
        auto expect = [&]() { e.must[key] = join(list); };
        size_t k = all.empty() ? 0 : r.below(all.size());
        int what = all.empty() ? 0 : (int)r.below(10);
        if (what < 4) {
            for (auto* y : all) if (y->getId() == id) w.doubt = true;
            auto a = ms.newMeasurement();
            a.setId(id);
            auto t = (xi::Measurement::Type)r.below(8);
            if (!(w.wild && r.chance(4))) a.setType(t);
            std::string side = "-";
            bool inj = dynamic_cast<Injection*>(o) != nullptr;
            if (inj ? w.wild && r.chance(5) : !(w.wild && r.chance(10))) { int s = (int)r.below(inj ? 3 : dynamic_cast<ThreeWindingsTransformer*>(o) ? 3 : 2); side = std::to_string(s); a.setSide((xi::Measurement::Side)s); }
            double v = w.wild && r.chance(10) ? std::nan("") : (double)r.below(999) / 8, sd = (double)r.below(99) / 8;
            bool ok = !(std::isnan(v) && !(w.wild && r.chance(20))) && r.chance(70);
            a.setValue(v).setStandardDeviation(sd).setValid(ok);
            list.push_back(id + ":" + str(t) + ":" + side + ":" + hexd(v) + ":" + hexd(sd) + ":" + (ok ? "v" : "i") + propsOf(r, a));
            expect();
            auto& res = a.add();
            simrt::Harness h;
            if (text(res) != list.back()) fail("measurement-returned", "the adder returns %s, not the new measurement %s", text(res).c_str(), list.back().c_str());
        } else if (what < 6) {
            xi::Measurement& y = *all[k];
            list.erase(list.begin() + (long)k);
            expect();
            if (r.chance(50)) y.remove(); else ms.remove(y);
        } else if (what == 6) {
            e.may.push_back(o->getId() + "|exts$");
            e.mayDel.push_back(o->getId() + "|x.measurements.");
            bool empty = list.empty();
            ms.cleanIfEmpty();
            if ((bool)o->findExtension<xi::Measurements>() == empty) { simrt::Harness h; fail("measurement-clean", "'%s': cleanIfEmpty with %zu measurements", o->getId().c_str(), list.size()); }
            if (!empty) expect();
        } else {
            xi::Measurement& y = *all[k];
            std::string head = y.getId() + ":" + str(y.getType()) + ":" + (y.getSide() ? std::to_string((int)*y.getSide()) : "-") + ":";
            double v = y.getValue(), sd = y.getStandardDeviation();
            bool ok = y.isValid();
            std::map<std::string, std::string> p;
            for (const auto& n : y.getPropertyNames()) p[n] = y.getProperty(n);
            int c = (int)r.below(5);
            double nv = w.wild && r.chance(15) ? std::nan("") : (double)r.below(999) / 8;
            std::string pk = w.wild && r.chance(3) ? "" : "p" + std::to_string(r.below(3)), pv = "w" + std::to_string(r.below(9));
            bool b = r.chance(50);
            if (c == 0) v = nv; else if (c == 1) sd = nv; else if (c == 2) ok = b; else if (c == 3) p[pk] = pv; else p.erase(pk);
            list[k] = head + hexd(v) + ":" + hexd(sd) + ":" + (ok ? "v" : "i");
            for (auto& z : p) list[k] += ":" + z.first + "=" + z.second;
            expect();
            if (c == 0) y.setValue(nv); else if (c == 1) y.setStandardDeviation(nv); else if (c == 2) y.setValid(b); else if (c == 3) y.putProperty(pk, pv); else y.removeProperty(pk);
        }
        return;
    }
    xi::DiscreteMeasurements& ms = o->getExtension<xi::DiscreteMeasurements>();
    e.what += " (discrete) of " + o->getId();
    std::string key = o->getId() + "|x.discreteMeasurements.list";
    e.may.push_back(key + "$");
    std::vector<std::string> list = texts(ms.getDiscreteMeasurements());
    std::vector<xi::DiscreteMeasurement*> all;
    for (auto& y : ms.getDiscreteMeasurements()) all.push_back(&y);
    auto expect = [&]() { e.must[key] = join(list); };
    size_t k = all.empty() ? 0 : r.below(all.size());
    int what = all.empty() ? 0 : (int)r.below(10);
    auto setVal = [&](auto& a) -> std::string {
        switch (r.below(4)) {
            case 0: { bool b = r.chance(50); a.setValue(b); return b ? "b1" : "b0"; }
            case 1: { int v = (int)r.below(100) - 50; a.setValue(v); return "i" + std::to_string(v); }
            case 2: { std::string v = "t" + std::to_string(r.below(9)); a.setValue(v); return "s" + v; }
            default: { std::string v = "c" + std::to_string(r.below(9)); a.setValue(v.c_str()); return "s" + v; }
        }
    };
    if (what < 4) {
        for (auto* y : all) if (y->getId() == id) w.doubt = true;
        auto a = ms.newDiscreteMeasurement();
        bool t2 = dynamic_cast<TwoWindingsTransformer*>(o), t3 = dynamic_cast<ThreeWindingsTransformer*>(o), sw = dynamic_cast<Switch*>(o);
        using T = xi::DiscreteMeasurement::Type;
        T t = w.wild && r.chance(10) ? (T)r.below(4) : t2 || t3 ? (r.chance(60) ? T::TAP_POSITION : T::OTHER) : sw && r.chance(60) ? T::SWITCH_POSITION : r.chance(50) ? T::SHUNT_COMPENSATOR_SECTION : T::OTHER;
        a.setId(id).setType(t);
        std::string tc = "-";
        if (t == T::TAP_POSITION ? !(w.wild && r.chance(5)) : w.wild && r.chance(5)) {
            int c = w.wild && r.chance(8) ? (int)r.below(8) : t2 ? (int)r.below(2) : 2 + (int)r.below(6);
            tc = std::to_string(c);
            a.setTapChanger((xi::DiscreteMeasurement::TapChanger)c);
        }
        std::string v;
        bool ok = r.chance(70);
        if (!(w.wild && r.chance(5))) v = setVal(a);
        a.setValid(ok);
        list.push_back(id + ":" + str(t) + ":" + tc + ":" + v + (ok ? ":v" : ":i") + propsOf(r, a));
        expect();
        auto& res = a.add();
        simrt::Harness h;
        if (text(res) != list.back()) fail("measurement-returned", "the adder returns %s, not the new measurement %s", text(res).c_str(), list.back().c_str());
    } else if (what < 6) {
        xi::DiscreteMeasurement& y = *all[k];
        list.erase(list.begin() + (long)k);
        expect();
        if (r.chance(50)) y.remove(); else ms.remove(y);
    } else if (what == 6) {
        e.may.push_back(o->getId() + "|exts$");
        e.mayDel.push_back(o->getId() + "|x.discreteMeasurements.");
        bool empty = list.empty();
        ms.cleanIfEmpty();
        if ((bool)o->findExtension<xi::DiscreteMeasurements>() == empty) { simrt::Harness h; fail("measurement-clean", "'%s': cleanIfEmpty with %zu measurements", o->getId().c_str(), list.size()); }
        if (!empty) expect();
    } else {
        xi::DiscreteMeasurement& y = *all[k];
        std::string old = text(y), head = y.getId() + ":" + str(y.getType()) + ":" + (y.getTapChanger() ? std::to_string((int)*y.getTapChanger()) : "-") + ":";
        std::string rest = old.substr(head.size()), v = rest.substr(0, rest.find(':'));
        bool ok = y.isValid();
        std::map<std::string, std::string> p;
        for (const auto& n : y.getPropertyNames()) p[n] = y.getProperty(n);
        int c = (int)r.below(4);
        std::string pk = w.wild && r.chance(3) ? "" : "p" + std::to_string(r.below(3)), pv = "w" + std::to_string(r.below(9));
        bool b = r.chance(50);
        if (c == 0) v = setVal(y);
        else if (c == 1) { ok = b; y.setValid(b); }
        else if (c == 2) { p[pk] = pv; y.putProperty(pk, pv); }
        else { p.erase(pk); y.removeProperty(pk); }
        list[k] = head + v + (ok ? ":v" : ":i");
        for (auto& z : p) list[k] += ":" + z.first + "=" + z.second;
        expect();
    }
});
}  // namespace
