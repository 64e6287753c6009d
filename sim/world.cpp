#include <powsybl/iidm/extensions/LoadDetail.hpp>
#include <powsybl/iidm/extensions/SlackTerminal.hpp>
#include "attrs.h"

#include <cmath>
#include <cstdarg>
#include <powsybl/iidm/ActivePowerLimits.hpp>
#include <powsybl/iidm/ApparentPowerLimits.hpp>
#include <powsybl/iidm/Battery.hpp>
#include <powsybl/iidm/Bus.hpp>
#include <powsybl/iidm/BusbarSection.hpp>
#include <powsybl/iidm/DanglingLine.hpp>
#include <powsybl/iidm/Generator.hpp>
#include <powsybl/iidm/HvdcLine.hpp>
#include <powsybl/iidm/LccConverterStation.hpp>
#include <powsybl/iidm/Line.hpp>
#include <powsybl/iidm/Load.hpp>
#include <powsybl/iidm/MinMaxReactiveLimits.hpp>
#include <powsybl/iidm/ReactiveCapabilityCurve.hpp>
#include <powsybl/iidm/ShuntCompensator.hpp>
#include <powsybl/iidm/ShuntCompensatorLinearModel.hpp>
#include <powsybl/iidm/ShuntCompensatorNonLinearModel.hpp>
#include <powsybl/iidm/StaticVarCompensator.hpp>
#include <powsybl/iidm/Substation.hpp>
#include <powsybl/iidm/Switch.hpp>
#include <powsybl/iidm/ThreeWindingsTransformer.hpp>
#include <powsybl/iidm/TieLine.hpp>
#include <powsybl/iidm/TwoWindingsTransformer.hpp>
#include <powsybl/iidm/VscConverterStation.hpp>
#include <powsybl/stdcxx/instanceof.hpp>

using namespace powsybl::iidm;

// ------------------------------------------------------------------------------- util
std::string fmt(const char* f, ...) {
    char b[2048];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    return b;
}
std::string hexd(double d) {
    if (std::isnan(d)) return "nan";
    char b[40];
    snprintf(b, sizeof b, "%.17g", d);
    for (char* p = b; *p; ++p) if (*p == ',') *p = '.';
    return b;
}
uint64_t fnv(const std::string& s, uint64_t h) {
    for (unsigned char c : s) h = (h ^ c) * 0x100000001b3ULL;
    return h;
}
thread_local std::string g_where;
void fail(const char* kind, const char* f, ...) {
    char b[6000];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    simrt::violation(kind, "%s%s%s", g_where.c_str(), g_where.empty() ? "" : ": ", b);
}

// ------------------------------------------------------------------------------- extensions
int SimExt::alive = 0;
int PlainExt::alive = 0;
SimExt::SimExt(Identifiable& o, double v, int tag) :
    AbstractMultiVariantIdentifiableExtension(o), m_v(getVariantManagerHolder().getVariantManager().getVariantArraySize(), v), m_tag(tag) { simrt::Harness h; ++alive; }
SimExt::~SimExt() noexcept { simrt::Harness h; --alive; }
const std::string& SimExt::getName() const { static std::string s = "simExt"; return s; }
const std::type_index& SimExt::getType() const { static std::type_index t = typeid(SimExt); return t; }
void SimExt::allocateVariantArrayElement(const std::set<unsigned long>& indexes, unsigned long sourceIndex) { for (auto i : indexes) m_v.at(i) = m_v.at(sourceIndex); }
void SimExt::deleteVariantArrayElement(unsigned long index) { m_v.at(index) = -999; }
void SimExt::extendVariantArraySize(unsigned long init, unsigned long number, unsigned long sourceIndex) {
    if (init != m_v.size()) { simrt::Harness h; fail("extension-variant-array", "extension of '%s' holds %zu variant slots when told that there are %lu", getExtendable<Identifiable>().get().getId().c_str(), m_v.size(), init); }
    m_v.resize(m_v.size() + number, m_v.at(sourceIndex));
}
void SimExt::reduceVariantArraySize(unsigned long number) {
    if (number > m_v.size()) { simrt::Harness h; fail("extension-variant-array", "extension told to drop %lu of %zu variant slots", number, m_v.size()); }
    m_v.resize(m_v.size() - number);
}
void SimExt::assertExtendable(const stdcxx::Reference<Extendable>& e) const {
    if (e && !stdcxx::isInstanceOf<Identifiable>(e.get())) throw powsybl::AssertionError("Unexpected extendable type");
}
const std::string& PlainExt::getName() const { static std::string s = "plainExt"; return s; }
const std::type_index& PlainExt::getType() const { static std::type_index t = typeid(PlainExt); return t; }
void PlainExt::assertExtendable(const stdcxx::Reference<Extendable>& e) const {
    if (e && stdcxx::isInstanceOf<VoltageLevel>(e.get())) throw powsybl::AssertionError("Unexpected extendable type");
}

// ------------------------------------------------------------------------------- attributes
std::string termName(const Terminal& t) {
    auto c = t.getConnectable();
    if (!c) return "?";
    const Connectable& k = c.get();
    auto v = k.getTerminals();
    for (size_t i = 0; i < v.size(); ++i)
        if (&v[i].get() == &t) return k.getId() + "#" + std::to_string(i);
    return k.getId() + "#not-one-of-its-terminals";
}

// setters whose value is part of the text of an attribute
static void setOnly(B& a, const char* n, std::function<void(Rng&)> f, std::vector<std::string> side = {}) {
    if (!a.setters) return;
    Attr at{a.pre + n, false, nullptr, [f](Rng& r, std::string& e) { e = "?"; f(r); }, false, std::move(side)};
    a.out.push_back(std::move(at));
}
// a value that was accepted is the value
template <class S, class G> static void readBack(const char* what, double v, S set, G get) {
    set(v);
    double now = get();
    simrt::Harness h;
    if (hexd(now) != hexd(v)) fail("wrong-value", "%s was set to %s and is %s", what, hexd(v).c_str(), hexd(now).c_str());
}
template <class L> static void limitSetter(B& a, const char* n, const stdcxx::Reference<L>& l) {
    if (!l) return;
    L* c = &l.get();
    setOnly(a, n, [c](Rng& r) { readBack("a permanent limit", genD(r, c->getPermanentLimit()), [c](double v) { c->setPermanentLimit(v); }, [c]() { return c->getPermanentLimit(); }); });
}
static void limitSetters(B& a, const stdcxx::Reference<CurrentLimits>& c, const stdcxx::Reference<ActivePowerLimits>& p, const stdcxx::Reference<ApparentPowerLimits>& s) {
    limitSetter(a, "cl", c);
    limitSetter(a, "al", p);
    limitSetter(a, "sl", s);
}
static double genStep(Rng& r, double cur) { double d; do d = genD(r, cur); while (std::isnan(d)); return d; }
template <class C> static void stepSetter(B& a, C* c, std::function<void(Rng&, long)> more) {
    setOnly(a, "steps", [c, more](Rng& r) {
        long lo = c->getLowTapPosition(), hi = c->getHighTapPosition(), t = lo + (long)r.below((uint64_t)(hi - lo + 1));
        auto& st = c->getStep(t);
        switch (r.below(more ? 6 : 5)) {
            case 0: readBack("the rho of a step", 0.5 + (double)r.below(20) / 16.0, [&](double v) { st.setRho(v); }, [&]() { return st.getRho(); }); return;
            case 1: readBack("the r of a step", genStep(r, st.getR()), [&](double v) { st.setR(v); }, [&]() { return st.getR(); }); return;
            case 2: readBack("the x of a step", genStep(r, st.getX()), [&](double v) { st.setX(v); }, [&]() { return st.getX(); }); return;
            case 3: readBack("the g of a step", genStep(r, st.getG()), [&](double v) { st.setG(v); }, [&]() { return st.getG(); }); return;
            case 4: readBack("the b of a step", genStep(r, st.getB()), [&](double v) { st.setB(v); }, [&]() { return st.getB(); }); return;
            default: more(r, t);
        }
    });
}
static void limits(B& a, FlowsLimitsHolder& h) {
    FlowsLimitsHolder* p = &h;
    auto text = [](const LoadingLimits& l) {
        std::string s = hexd(l.getPermanentLimit());
        for (const auto& t : l.getTemporaryLimits())
            s += ";" + t.getName() + "," + hexd(t.getValue()) + "," + std::to_string(t.getAcceptableDuration()) + (t.isFictitious() ? ",f" : "");
        return s;
    };
    a.rs("cl", false, [p, text]() { auto l = p->getCurrentLimits(); return l ? text(l.get()) : std::string("-"); });
    a.rs("al", false, [p, text]() { auto l = p->getActivePowerLimits(); return l ? text(l.get()) : std::string("-"); });
    a.rs("sl", false, [p, text]() { auto l = p->getApparentPowerLimits(); return l ? text(l.get()) : std::string("-"); });
    limitSetters(a, p->getCurrentLimits(), p->getActivePowerLimits(), p->getApparentPowerLimits());
}
static void reactive(B& a, const ReactiveLimitsHolder& h) {
    const ReactiveLimitsHolder* p = &h;
    a.rs("rl", false, [p]() {
        const ReactiveLimits& l = p->getReactiveLimits<ReactiveLimits>();
        if (l.getKind() == ReactiveLimitsKind::MIN_MAX) {
            const auto& m = dynamic_cast<const MinMaxReactiveLimits&>(l);
            return "m " + hexd(m.getMinQ()) + " " + hexd(m.getMaxQ());
        }
        std::string s = "c";
        for (const auto& q : dynamic_cast<const ReactiveCapabilityCurve&>(l).getPoints()) s += " " + hexd(q.getP()) + "," + hexd(q.getMinQ()) + "," + hexd(q.getMaxQ());
        return s;
    });
}
template <class C> static void tapCommon(B& a, C* c, Network& net) {
    long lo = c->getLowTapPosition(), hi = c->getHighTapPosition();
    a.l("low", false, [c]() { return c->getLowTapPosition(); }, [c](long v) { c->setLowTapPosition(v); }, lo - 1, lo + 1, {"tap"});
    a.l("tap", true, [c]() { return c->getTapPosition(); }, [c](long v) { c->setTapPosition(v); }, lo, hi);
    a.b("regulating", true, [c]() { return c->isRegulating(); }, [c](bool v) { c->setRegulating(v); });
    a.d("deadband", true, [c]() { return c->getTargetDeadband(); }, [c](double v) { c->setTargetDeadband(v); });
    a.t("regTerm", net, [c]() { auto t = c->getRegulationTerminal(); return t ? termName(t.get()) : std::string("-"); },
        [c](const stdcxx::Reference<Terminal>& t) { c->setRegulationTerminal(t); }, true);
}
static void rtc(B& a, RatioTapChangerHolder& h, Network& net) {
    std::string pre = a.pre;
    if (!h.hasRatioTapChanger()) { a.rs("rtc", false, []() { return std::string("-"); }); return; }
    a.rs("rtc", false, []() { return std::string("+"); });
    a.pre = pre + "rtc.";
    RatioTapChanger* c = &h.getRatioTapChanger();
    tapCommon(a, c, net);
    a.rs("steps", false, [c]() {
        std::string s;
        for (auto& e : c->getAllSteps()) { const auto& x = e.second.get(); s += std::to_string(e.first - c->getLowTapPosition()) + ":" + hexd(x.getRho()) + "," + hexd(x.getR()) + "," + hexd(x.getX()) + "," + hexd(x.getG()) + "," + hexd(x.getB()) + ";"; }
        return s;
    });
    stepSetter(a, c, nullptr);
    a.d("targetV", true, [c]() { return c->getTargetV(); }, [c](double v) { c->setTargetV(v); });
    a.b("ltc", false, [c]() { return c->hasLoadTapChangingCapabilities(); }, [c](bool v) { c->setLoadTapChangingCapabilities(v); });
    a.pre = pre;
}
static void ptc(B& a, PhaseTapChangerHolder& h, Network& net) {
    std::string pre = a.pre;
    if (!h.hasPhaseTapChanger()) { a.rs("ptc", false, []() { return std::string("-"); }); return; }
    a.rs("ptc", false, []() { return std::string("+"); });
    a.pre = pre + "ptc.";
    PhaseTapChanger* c = &h.getPhaseTapChanger();
    tapCommon(a, c, net);
    a.rs("steps", false, [c]() {
        std::string s;
        for (auto& e : c->getAllSteps()) { const auto& x = e.second.get(); s += std::to_string(e.first - c->getLowTapPosition()) + ":" + hexd(x.getAlpha()) + "," + hexd(x.getRho()) + "," + hexd(x.getR()) + "," + hexd(x.getX()) + "," + hexd(x.getG()) + "," + hexd(x.getB()) + ";"; }
        return s;
    });
    stepSetter(a, c, [c](Rng& r, long t) { auto& st = c->getStep(t); readBack("the alpha of a step", genStep(r, st.getAlpha()), [&](double v) { st.setAlpha(v); }, [&]() { return st.getAlpha(); }); });
    a.e<PhaseTapChanger::RegulationMode>("mode", false, [c]() { return c->getRegulationMode(); }, [c](PhaseTapChanger::RegulationMode v) { c->setRegulationMode(v); }, 3);
    a.d("value", true, [c]() { return c->getRegulationValue(); }, [c](double v) { c->setRegulationValue(v); });
    a.pre = pre;
}

void attrsOf(Identifiable& o, std::vector<Attr>& out, bool withSetters) {
    B a{out, withSetters, ""};
    Identifiable* p = &o;
    Network& net = o.getNetwork();
    a.rs("name", false, [p]() { return p->getOptionalName(); });
    a.b("fictitious", false, [p]() { return p->isFictitious(); }, [p](bool v) { p->setFictitious(v); });
    a.rs("props", false, [p]() {
        std::map<std::string, std::string> m;
        for (const auto& k : p->getPropertyNames()) m[k] = p->getProperty(k);
        std::string s;
        for (auto& x : m) s += x.first + "=" + x.second + ";";
        return s;
    });
    a.rs("aliases", false, [p]() {
        std::set<std::string> m;
        for (const auto& k : p->getAliases()) m.insert(k + ":" + p->getAliasType(k));
        std::string s;
        for (auto& x : m) s += x + ";";
        return s;
    });
    a.rs("exts", false, [p]() {
        std::string s;
        for (const Extension& e : p->getExtensions()) {
            s += e.getName() + ";";
            auto owner = e.getExtendable<Extendable>();
            if (!owner || &owner.get() != static_cast<const Extendable*>(p)) s += "!owner;";
        }
        auto q = p->findExtension<PlainExt>();
        if (q) s += std::to_string(q.get().m_v);
        return s;
    });
    {
        auto x = p->findExtension<SimExt>();
        if (x) {
            SimExt* e = &x.get();
            a.d("simExt", true, [e]() { return e->get(); }, [e](double v) { e->set(v); });
            a.rs("simExtTag", false, [e]() { return std::to_string(e->tag()); });
        }
    }
    if (auto x = p->findExtension<extensions::LoadDetail>()) {
        auto* e = &x.get();
        a.d("ld.fp", true, [e]() { return e->getFixedActivePower(); }, [e](double v) { e->setFixedActivePower(v); });
        a.d("ld.fq", true, [e]() { return e->getFixedReactivePower(); }, [e](double v) { e->setFixedReactivePower(v); });
        a.d("ld.vp", true, [e]() { return e->getVariableActivePower(); }, [e](double v) { e->setVariableActivePower(v); });
        a.d("ld.vq", true, [e]() { return e->getVariableReactivePower(); }, [e](double v) { e->setVariableReactivePower(v); });
    }
    if (auto x = p->findExtension<extensions::SlackTerminal>()) {
        auto* e = &x.get();
        auto* vl = dynamic_cast<VoltageLevel*>(p);
        Attr sa{"slack.t", true, [e]() { auto t = e->getTerminal(); return t ? termName(t.get()) : std::string("-"); }, nullptr, true, {}};
        if (withSetters && vl) sa.set = [e, vl, &net](Rng& r, std::string& t) {
            auto ts = terminalsOf(net);
            if (ts.empty() || r.chance(15)) { t = "-"; e->setTerminal(stdcxx::ref<Terminal>()); return; }
            std::vector<Terminal*> in;
            for (auto* k : ts) if (&k->getVoltageLevel() == vl) in.push_back(k);
            Terminal& k = in.empty() || r.chance(10) ? *ts[r.below(ts.size())] : *in[r.below(in.size())];
            t = termName(k);
            e->setTerminal(stdcxx::ref<Terminal>(k));
        };
        out.push_back(sa);
    }
    extAttrs(a, *p);
    if (auto* c = dynamic_cast<Connectable*>(p)) {
        auto ts = c->getTerminals();
        for (size_t i = 0; i < ts.size(); ++i) {
            Terminal* t = &ts[i].get();
            a.pre = "t" + std::to_string(i) + ".";
            a.rs("vl", false, [t]() { return t->getVoltageLevel().getId(); });
            a.rs("of", false, [t]() { auto k = t->getConnectable(); return k ? k.get().getId() : std::string("-"); });
            a.d("p", true, [t]() { return t->getP(); }, [t](double v) { t->setP(v); });
            a.d("q", true, [t]() { return t->getQ(); }, [t](double v) { t->setQ(v); });
            if (t->getVoltageLevel().getTopologyKind() == TopologyKind::NODE_BREAKER) {
                a.rs("node", false, [t]() { return std::to_string(t->getNodeBreakerView().getNode()); });
                a.rs("v", true, [t]() { return hexd(t->getV()); });
                a.rs("angle", true, [t]() { return hexd(t->getAngle()); });
            } else {
                a.rs("bus", true, [t]() { auto b = t->getBusBreakerView().getConnectableBus(); return b ? b.get().getId() : std::string("-"); });
                a.rs("conn", true, [t]() { return str(t->isConnected()); });
            }
        }
        a.pre = "";
    }
    if (auto* x = dynamic_cast<Substation*>(p)) {
        a.rs("kind", false, []() { return std::string("Substation"); });
        a.s("tso", false, [x]() { return x->getTso(); }, [x](const std::string& v) { x->setTso(v); });
        Attr ca{"country", false, [x]() { return x->getCountry() ? str(*x->getCountry()) : std::string("-"); }, nullptr, true, {}};
        if (withSetters) ca.set = [x](Rng& r, std::string& e) { if (r.chance(20)) { e = "-"; x->setCountry(stdcxx::optional<Country>()); } else { Country k = (Country)r.below(200); e = str(k); x->setCountry(stdcxx::optional<Country>(k)); } };
        out.push_back(ca);
        a.rs("tags", false, [x]() { std::string s; for (auto& t : x->getGeographicalTags()) s += t + ";"; return s; });
        return;
    }
    if (auto* x = dynamic_cast<VoltageLevel*>(p)) {
        a.rs("kind", false, [x]() { return "VL" + str(x->getTopologyKind()); });
        a.rs("substation", false, [x]() { return x->getSubstation().getId(); });
        a.d("nominalV", false, [x]() { return x->getNominalV(); }, [x](double v) { x->setNominalV(v); });
        a.d("lowV", false, [x]() { return x->getLowVoltageLimit(); }, [x](double v) { x->setLowVoltageLimit(v); });
        a.d("highV", false, [x]() { return x->getHighVoltageLimit(); }, [x](double v) { x->setHighVoltageLimit(v); });
        if (x->getTopologyKind() == TopologyKind::NODE_BREAKER)
            a.rs("ic", false, [x]() {
                std::multiset<std::pair<unsigned long, unsigned long>> m;
                for (const auto& i : x->getNodeBreakerView().getInternalConnections()) m.insert({std::min(i.getNode1(), i.getNode2()), std::max(i.getNode1(), i.getNode2())});
                std::string s;
                for (auto& q : m) s += std::to_string(q.first) + "-" + std::to_string(q.second) + ";";
                return s;
            });
        return;
    }
    if (auto* x = dynamic_cast<Bus*>(p)) {
        a.rs("kind", false, []() { return std::string("Bus"); });
        a.rs("vl", false, [x]() { return x->getVoltageLevel().getId(); });
        a.d("v", true, [x]() { return x->getV(); }, [x](double v) { x->setV(v); });
        a.d("angle", true, [x]() { return x->getAngle(); }, [x](double v) { x->setAngle(v); });
        return;
    }
    if (auto* x = dynamic_cast<Switch*>(p)) {
        a.rs("kind", false, [x]() { return "Switch" + str(x->getKind()); });
        a.rs("vl", false, [x]() { return x->getVoltageLevel().getId(); });
        a.rs("ends", false, [x]() {
            VoltageLevel& v = x->getVoltageLevel();
            if (v.getTopologyKind() == TopologyKind::NODE_BREAKER)
                return std::to_string(v.getNodeBreakerView().getNode1(x->getId())) + "-" + std::to_string(v.getNodeBreakerView().getNode2(x->getId()));
            auto b1 = v.getBusBreakerView().getBus1(x->getId()), b2 = v.getBusBreakerView().getBus2(x->getId());
            return (b1 ? b1.get().getId() : "?") + "-" + (b2 ? b2.get().getId() : "?");
        });
        a.b("open", true, [x]() { return x->isOpen(); }, [x](bool v) { x->setOpen(v); });
        a.b("retained", true, [x]() { return x->isRetained(); }, [x](bool v) { x->setRetained(v); });
        return;
    }
    if (auto* x = dynamic_cast<HvdcLine*>(p)) {
        a.rs("kind", false, []() { return std::string("HvdcLine"); });
        a.rs("cs1", false, [x]() { auto s = x->getConverterStation1(); return s ? s.get().getId() : std::string("-"); });
        a.rs("cs2", false, [x]() { auto s = x->getConverterStation2(); return s ? s.get().getId() : std::string("-"); });
        a.d("r", false, [x]() { return x->getR(); }, [x](double v) { x->setR(v); });
        a.d("maxP", false, [x]() { return x->getMaxP(); }, [x](double v) { x->setMaxP(v); });
        a.d("nominalV", false, [x]() { return x->getNominalV(); }, [x](double v) { x->setNominalV(v); });
        a.d("setpoint", true, [x]() { return x->getActivePowerSetpoint(); }, [x](double v) { x->setActivePowerSetpoint(v); });
        a.e<HvdcLine::ConvertersMode>("mode", true, [x]() { return x->getConvertersMode(); }, [x](HvdcLine::ConvertersMode v) { x->setConvertersMode(v); }, 2);
        return;
    }
    if (auto* x = dynamic_cast<Battery*>(p)) {
        a.rs("kind", false, []() { return std::string("Battery"); });
        a.d("p0", true, [x]() { return x->getP0(); }, [x](double v) { x->setP0(v); });
        a.d("q0", true, [x]() { return x->getQ0(); }, [x](double v) { x->setQ0(v); });
        a.d("minP", false, [x]() { return x->getMinP(); }, [x](double v) { x->setMinP(v); });
        a.d("maxP", false, [x]() { return x->getMaxP(); }, [x](double v) { x->setMaxP(v); });
        reactive(a, *x);
        return;
    }
    if (dynamic_cast<BusbarSection*>(p)) { a.rs("kind", false, []() { return std::string("BusbarSection"); }); return; }
    if (auto* x = dynamic_cast<DanglingLine*>(p)) {
        a.rs("kind", false, []() { return std::string("DanglingLine"); });
        a.d("p0", true, [x]() { return x->getP0(); }, [x](double v) { x->setP0(v); });
        a.d("q0", true, [x]() { return x->getQ0(); }, [x](double v) { x->setQ0(v); });
        a.d("r", false, [x]() { return x->getR(); }, [x](double v) { x->setR(v); });
        a.d("x", false, [x]() { return x->getX(); }, [x](double v) { x->setX(v); });
        a.d("g", false, [x]() { return x->getG(); }, [x](double v) { x->setG(v); });
        a.d("b", false, [x]() { return x->getB(); }, [x](double v) { x->setB(v); });
        a.rs("ucte", false, [x]() { return x->getUcteXnodeCode(); });
        limits(a, *x);
        auto g = x->getGeneration();
        a.rs("gen", false, [x]() { return std::string(x->getGeneration() ? "+" : "-"); });
        if (g) {
            auto* y = &g.get();
            a.pre = "gen.";
            a.d("p", true, [y]() { return y->getTargetP(); }, [y](double v) { y->setTargetP(v); });
            a.d("q", true, [y]() { return y->getTargetQ(); }, [y](double v) { y->setTargetQ(v); });
            a.d("v", true, [y]() { return y->getTargetV(); }, [y](double v) { y->setTargetV(v); });
            a.b("on", true, [y]() { return y->isVoltageRegulationOn(); }, [y](bool v) { y->setVoltageRegulationOn(v); });
            a.d("minP", false, [y]() { return y->getMinP(); }, [y](double v) { y->setMinP(v); });
            a.d("maxP", false, [y]() { return y->getMaxP(); }, [y](double v) { y->setMaxP(v); });
            reactive(a, *y);
            a.pre = "";
        }
        return;
    }
    if (auto* x = dynamic_cast<Generator*>(p)) {
        a.rs("kind", false, []() { return std::string("Generator"); });
        a.e<EnergySource>("source", false, [x]() { return x->getEnergySource(); }, [x](EnergySource v) { x->setEnergySource(v); }, 6);
        a.d("minP", false, [x]() { return x->getMinP(); }, [x](double v) { x->setMinP(v); });
        a.d("maxP", false, [x]() { return x->getMaxP(); }, [x](double v) { x->setMaxP(v); });
        a.d("ratedS", false, [x]() { return x->getRatedS(); }, [x](double v) { x->setRatedS(v); });
        a.d("targetP", true, [x]() { return x->getTargetP(); }, [x](double v) { x->setTargetP(v); });
        a.d("targetQ", true, [x]() { return x->getTargetQ(); }, [x](double v) { x->setTargetQ(v); });
        a.d("targetV", true, [x]() { return x->getTargetV(); }, [x](double v) { x->setTargetV(v); });
        a.b("regOn", true, [x]() { return x->isVoltageRegulatorOn(); }, [x](bool v) { x->setVoltageRegulatorOn(v); });
        a.t("regTerm", net, [x]() { return termName(x->getRegulatingTerminal()); }, [x](const stdcxx::Reference<Terminal>& t) { x->setRegulatingTerminal(t); }, true);
        reactive(a, *x);
        return;
    }
    if (auto* x = dynamic_cast<Load*>(p)) {
        a.rs("kind", false, []() { return std::string("Load"); });
        a.e<LoadType>("type", false, [x]() { return x->getLoadType(); }, [x](LoadType v) { x->setLoadType(v); }, 3);
        a.d("p0", true, [x]() { return x->getP0(); }, [x](double v) { x->setP0(v); });
        a.d("q0", true, [x]() { return x->getQ0(); }, [x](double v) { x->setQ0(v); });
        return;
    }
    if (auto* x = dynamic_cast<ShuntCompensator*>(p)) {
        a.rs("kind", false, []() { return std::string("Shunt"); });
        a.u("sections", true, [x]() { return x->getSectionCount(); }, [x](unsigned long v) { x->setSectionCount(v); }, x->getMaximumSectionCount());
        a.b("regOn", true, [x]() { return x->isVoltageRegulatorOn(); }, [x](bool v) { x->setVoltageRegulatorOn(v); });
        a.d("targetV", true, [x]() { return x->getTargetV(); }, [x](double v) { x->setTargetV(v); });
        a.d("deadband", true, [x]() { return x->getTargetDeadband(); }, [x](double v) { x->setTargetDeadband(v); });
        a.t("regTerm", net, [x]() { return termName(x->getRegulatingTerminal()); }, [x](const stdcxx::Reference<Terminal>& t) { x->setRegulatingTerminal(t); }, true);
        a.ro("curB", true, [x]() { return x->getB(); });
        a.ro("curG", true, [x]() { return x->getG(); });
        if (x->getModelType() == ShuntCompensatorModelType::LINEAR) {
            auto* m = &x->getModel<ShuntCompensatorLinearModel>();
            a.d("bPer", false, [m]() { return m->getBPerSection(); }, [m](double v) { m->setBPerSection(v); }, {"curB"});
            a.d("gPer", false, [m]() { return m->getGPerSection(); }, [m](double v) { m->setGPerSection(v); }, {"curG"});
            a.u("maxSections", false, [x]() { return x->getMaximumSectionCount(); }, [m](unsigned long v) { m->setMaximumSectionCount(v); }, 6);
        } else {
            auto* m = &x->getModel<ShuntCompensatorNonLinearModel>();
            a.rs("model", false, [m]() { std::string s; for (const auto& q : m->getAllSections()) s += hexd(q.getB()) + "," + hexd(q.getG()) + ";"; return s; });
            setOnly(a, "model", [m](Rng& r) {
                std::vector<ShuntCompensatorNonLinearModel::Section*> v;
                for (auto& q : m->getAllSections()) v.push_back(&q);
                auto& y = *r.pick(v);
                if (r.chance(50)) readBack("the b of a section", genD(r, y.getB()), [&](double d) { y.setB(d); }, [&]() { return y.getB(); }); else readBack("the g of a section", genD(r, y.getG()), [&](double d) { y.setG(d); }, [&]() { return y.getG(); });
            }, {"curB", "curG"});
        }
        return;
    }
    if (auto* x = dynamic_cast<StaticVarCompensator*>(p)) {
        a.rs("kind", false, []() { return std::string("SVC"); });
        a.d("bMin", false, [x]() { return x->getBmin(); }, [x](double v) { x->setBmin(v); });
        a.d("bMax", false, [x]() { return x->getBmax(); }, [x](double v) { x->setBmax(v); });
        a.d("vSet", true, [x]() { return x->getVoltageSetpoint(); }, [x](double v) { x->setVoltageSetpoint(v); });
        a.d("qSet", true, [x]() { return x->getReactivePowerSetpoint(); }, [x](double v) { x->setReactivePowerSetpoint(v); });
        a.e<StaticVarCompensator::RegulationMode>("mode", true, [x]() { return x->getRegulationMode(); }, [x](StaticVarCompensator::RegulationMode v) { x->setRegulationMode(v); }, 3);
        a.t("regTerm", net, [x]() { return termName(x->getRegulatingTerminal()); }, [x](const stdcxx::Reference<Terminal>& t) { x->setRegulatingTerminal(t); }, true);
        return;
    }
    if (auto* x = dynamic_cast<HvdcConverterStation*>(p)) {
        a.d("loss", false, [x]() { return x->getLossFactor(); }, [x](double v) { x->setLossFactor(v); });
        a.rs("line", false, [x]() { auto l = x->getHvdcLine(); return l ? l.get().getId() : std::string("-"); });
        if (auto* y = dynamic_cast<LccConverterStation*>(p)) {
            a.rs("kind", false, []() { return std::string("LCC"); });
            a.d("pf", false, [y]() { return y->getPowerFactor(); }, [y](double v) { y->setPowerFactor(v); });
        } else if (auto* z = dynamic_cast<VscConverterStation*>(p)) {
            a.rs("kind", false, []() { return std::string("VSC"); });
            a.b("regOn", true, [z]() { return z->isVoltageRegulatorOn(); }, [z](bool v) { z->setVoltageRegulatorOn(v); });
            a.d("vSet", true, [z]() { return z->getVoltageSetpoint(); }, [z](double v) { z->setVoltageSetpoint(v); });
            a.d("qSet", true, [z]() { return z->getReactivePowerSetpoint(); }, [z](double v) { z->setReactivePowerSetpoint(v); });
            reactive(a, *z);
        }
        return;
    }
    auto branchLimits = [&](Branch& b) {
        auto text = [](const LoadingLimits& l) {
            std::string s = hexd(l.getPermanentLimit());
            for (const auto& t : l.getTemporaryLimits()) s += ";" + t.getName() + "," + hexd(t.getValue()) + "," + std::to_string(t.getAcceptableDuration()) + (t.isFictitious() ? ",f" : "");
            return s;
        };
        Branch* q = &b;
        for (int k = 1; k <= 2; ++k) {
            Branch::Side sd = k == 1 ? Branch::Side::ONE : Branch::Side::TWO;
            a.pre = "s" + std::to_string(k) + ".";
            a.rs("cl", false, [q, sd, text]() { auto l = q->getCurrentLimits(sd); return l ? text(l.get()) : std::string("-"); });
            a.rs("al", false, [q, sd, text]() { auto l = q->getActivePowerLimits(sd); return l ? text(l.get()) : std::string("-"); });
            a.rs("sl", false, [q, sd, text]() { auto l = q->getApparentPowerLimits(sd); return l ? text(l.get()) : std::string("-"); });
            limitSetters(a, q->getCurrentLimits(sd), q->getActivePowerLimits(sd), q->getApparentPowerLimits(sd));
        }
        a.pre = "";
    };
    if (auto* x = dynamic_cast<TieLine*>(p)) {
        a.rs("kind", false, []() { return std::string("TieLine"); });
        a.rs("ucte", false, [x]() { return x->getUcteXnodeCode(); });
        for (int k = 1; k <= 2; ++k) {
            auto* h = k == 1 ? &x->getHalf1() : &x->getHalf2();
            a.pre = "h" + std::to_string(k) + ".";
            a.rs("id", false, [h]() { return h->getId(); });
            a.rs("name", false, [h]() { return h->getName(); });
            a.b("fict", false, [h]() { return h->isFictitious(); }, [h](bool v) { h->setFictitious(v); });
            a.d("r", false, [h]() { return h->getR(); }, [h](double v) { h->setR(v); });
            a.d("x", false, [h]() { return h->getX(); }, [h](double v) { h->setX(v); });
            a.d("g1", false, [h]() { return h->getG1(); }, [h](double v) { h->setG1(v); });
            a.d("g2", false, [h]() { return h->getG2(); }, [h](double v) { h->setG2(v); });
            a.d("b1", false, [h]() { return h->getB1(); }, [h](double v) { h->setB1(v); });
            a.d("b2", false, [h]() { return h->getB2(); }, [h](double v) { h->setB2(v); });
        }
        a.pre = "";
        branchLimits(*x);
        return;
    }
    if (auto* x = dynamic_cast<Line*>(p)) {
        a.rs("kind", false, []() { return std::string("Line"); });
        a.d("r", false, [x]() { return x->getR(); }, [x](double v) { x->setR(v); });
        a.d("x", false, [x]() { return x->getX(); }, [x](double v) { x->setX(v); });
        a.d("g1", false, [x]() { return x->getG1(); }, [x](double v) { x->setG1(v); });
        a.d("b1", false, [x]() { return x->getB1(); }, [x](double v) { x->setB1(v); });
        a.d("g2", false, [x]() { return x->getG2(); }, [x](double v) { x->setG2(v); });
        a.d("b2", false, [x]() { return x->getB2(); }, [x](double v) { x->setB2(v); });
        branchLimits(*x);
        return;
    }
    if (auto* x = dynamic_cast<TwoWindingsTransformer*>(p)) {
        a.rs("kind", false, []() { return std::string("2WT"); });
        a.rs("substation", false, [x]() { auto s = x->getSubstation(); return s ? s.get().getId() : std::string("-"); });
        a.d("r", false, [x]() { return x->getR(); }, [x](double v) { x->setR(v); });
        a.d("x", false, [x]() { return x->getX(); }, [x](double v) { x->setX(v); });
        a.d("g", false, [x]() { return x->getG(); }, [x](double v) { x->setG(v); });
        a.d("b", false, [x]() { return x->getB(); }, [x](double v) { x->setB(v); });
        a.d("ratedU1", false, [x]() { return x->getRatedU1(); }, [x](double v) { x->setRatedU1(v); });
        a.d("ratedU2", false, [x]() { return x->getRatedU2(); }, [x](double v) { x->setRatedU2(v); });
        a.d("ratedS", false, [x]() { return x->getRatedS(); }, [x](double v) { x->setRatedS(v); });
        rtc(a, *x, net);
        ptc(a, *x, net);
        branchLimits(*x);
        return;
    }
    if (auto* x = dynamic_cast<ThreeWindingsTransformer*>(p)) {
        a.rs("kind", false, []() { return std::string("3WT"); });
        a.rs("substation", false, [x]() { return x->getSubstation().getId(); });
        a.ro("ratedU0", false, [x]() { return x->getRatedU0(); });
        for (int k = 1; k <= 3; ++k) {
            auto* l = k == 1 ? &x->getLeg1() : k == 2 ? &x->getLeg2() : &x->getLeg3();
            a.pre = "l" + std::to_string(k) + ".";
            a.d("r", false, [l]() { return l->getR(); }, [l](double v) { l->setR(v); });
            a.d("x", false, [l]() { return l->getX(); }, [l](double v) { l->setX(v); });
            a.d("g", false, [l]() { return l->getG(); }, [l](double v) { l->setG(v); });
            a.d("b", false, [l]() { return l->getB(); }, [l](double v) { l->setB(v); });
            a.d("ratedU", false, [l]() { return l->getRatedU(); }, [l](double v) { l->setRatedU(v); });
            a.d("ratedS", false, [l]() { return l->getRatedS(); }, [l](double v) { l->setRatedS(v); });
            rtc(a, *l, net);
            ptc(a, *l, net);
            limits(a, *l);
        }
        a.pre = "";
        return;
    }
    if (dynamic_cast<Network*>(p)) { a.rs("kind", false, []() { return std::string("Network"); }); a.rs("format", false, [p]() { return dynamic_cast<Network*>(p)->getSourceFormat(); });
        auto* n = dynamic_cast<Network*>(p);
        Attr f{"forecast", false, [n]() { return std::to_string(n->getForecastDistance()); }, nullptr, true, {}};
        if (withSetters) f.set = [n](Rng& r, std::string& e) { int v = (int)r.below(20) - 3; e = std::to_string(v); n->setForecastDistance(v); };
        out.push_back(f);
    }
}

// ------------------------------------------------------------------------------- snapshots
VariantScope::VariantScope(Network& net, const std::string& v) : n(net) {
    try { old = n.getVariantManager().getWorkingVariantId(); } catch (const std::exception&) { old.clear(); }
    n.getVariantManager().setWorkingVariant(v);
}
VariantScope::~VariantScope() { if (!old.empty()) n.getVariantManager().setWorkingVariant(old); }

Snap snapshot(Network& n) {
    Snap s;
    auto& vm = n.getVariantManager();
    std::string old;
    bool set = true;
    try { vm.getVariantIndex(); } catch (const std::exception&) { set = false; }
    if (set) old = vm.getWorkingVariantId();
    auto vars = vm.getVariantIds();
    std::vector<std::pair<std::string, Attr>> mv;
    vm.setWorkingVariant(*vars.begin());
    for (Identifiable& o : n.getIdentifiables()) {
        std::vector<Attr> at;
        attrsOf(o, at, false);
        for (auto& a : at) {
            if (a.mv) mv.emplace_back(o.getId() + "|" + a.name, std::move(a));
            else s[o.getId() + "|" + a.name] = a.get();
        }
    }
    for (const auto& v : vars) {
        vm.setWorkingVariant(v);
        for (auto& m : mv) s[m.first + "@" + v] = m.second.get();
    }
    if (set) vm.setWorkingVariant(old);
    else vm.setWorkingVariant(*vars.begin());
    return s;
}
Snap snapshotVariant(Network& n, const std::string& variant) {
    Snap s;
    VariantScope sc(n, variant);
    for (Identifiable& o : n.getIdentifiables()) {
        std::vector<Attr> at;
        attrsOf(o, at, false);
        for (auto& a : at) s[o.getId() + "|" + a.name] = a.get();
    }
    return s;
}
std::string diff(const Snap& a, const Snap& b, size_t max) {
    std::string r;
    size_t n = 0;
    auto i = a.begin();
    auto j = b.begin();
    auto add = [&](const std::string& x) { if (n++ < max) r += (r.empty() ? "" : "; ") + x; };
    while (i != a.end() || j != b.end()) {
        if (j == b.end() || (i != a.end() && i->first < j->first)) { add(i->first + " = " + i->second + " disappeared"); ++i; }
        else if (i == a.end() || j->first < i->first) { add(j->first + " = " + j->second + " appeared"); ++j; }
        else { if (i->second != j->second) add(i->first + ": " + i->second + " -> " + j->second); ++i; ++j; }
    }
    if (n > max) r += fmt("; and %zu more", n - max);
    return r;
}
std::vector<Terminal*> terminalsOf(Network& n) {
    std::vector<Terminal*> v;
    for (Identifiable& o : n.getIdentifiables())
        if (auto* c = dynamic_cast<Connectable*>(&o)) for (auto& t : c->getTerminals()) v.push_back(&t.get());
    return v;
}

static bool prefixed(const std::string& k, const std::vector<std::string>& v) {
    for (const auto& p : v) {
        if (p[0] == '*') { if (k.size() >= p.size() - 1 && k.compare(k.size() - (p.size() - 1), std::string::npos, p, 1, std::string::npos) == 0) return true; }   // by suffix
        else if (!p.empty() && p.back() == '$') { if (k.size() == p.size() - 1 && k.compare(0, k.size(), p, 0, k.size()) == 0) return true; }
        else if (k.compare(0, p.size(), p) == 0) return true;
    }
    return false;
}
void checkFrame(World& w, const Snap& before0, const Snap& after, const Effect& e) {
    if (e.threw) {
        std::string d = diff(before0, after);
        if (!d.empty()) fail("failed-operation-changed-state", "%s was refused (%s) but changed the network: %s", e.what.c_str(), e.error.c_str(), d.c_str());
        return;
    }
    Snap before = before0;
    if (e.transform) e.transform(before);
    std::string bad;
    size_t n = 0;
    auto add = [&](const std::string& x) { if (n++ < 5) bad += (bad.empty() ? "" : "; ") + x; };
    auto i = before.begin();
    auto j = after.begin();
    while (i != before.end() || j != after.end()) {
        if (j == after.end() || (i != before.end() && i->first < j->first)) { if (!prefixed(i->first, e.mayDel)) add(i->first + " = " + i->second + " missing"); ++i; }
        else if (i == before.end() || j->first < i->first) { if (!prefixed(j->first, e.mayAdd)) add(j->first + " = " + j->second + " appeared"); ++j; }
        else { if (i->second != j->second && !prefixed(i->first, e.may)) add(i->first + ": " + i->second + " -> " + j->second); ++i; ++j; }
    }
    if (n) fail("unexpected-change", "%s changed more than it should: %s%s", e.what.c_str(), bad.c_str(), n > 5 ? "; ..." : "");
    for (auto& m : e.must) {
        auto k = after.find(m.first);
        if (k == after.end()) fail("lost-value", "%s: %s does not exist afterwards", e.what.c_str(), m.first.c_str());
        if (k->second != m.second) fail("wrong-value", "%s: %s is %s, expected %s", e.what.c_str(), m.first.c_str(), k->second.c_str(), m.second.c_str());
    }
    for (const auto& id : e.delIds) {
        auto k = after.lower_bound(id + "|");
        if (k != after.end() && k->first.compare(0, id.size() + 1, id + "|") == 0) fail("not-removed", "%s: '%s' still exists", e.what.c_str(), id.c_str());
    }
    for (const auto& id : e.newIds) {   // a new object has the same values in every variant
        auto k = after.lower_bound(id + "|");
        if (k == after.end() || k->first.compare(0, id.size() + 1, id + "|") != 0) fail("not-created", "%s: '%s' does not exist", e.what.c_str(), id.c_str());
        std::string key, val;
        for (; k != after.end() && k->first.compare(0, id.size() + 1, id + "|") == 0; ++k) {
            size_t at = k->first.rfind('@');
            if (at == std::string::npos) continue;
            if (key.size() == at && k->first.compare(0, at, key) == 0) {
                if (val != k->second) fail("new-object-differs-between-variants", "%s: %s is %s, another variant has %s", e.what.c_str(), k->first.c_str(), k->second.c_str(), val.c_str());
            } else { key = k->first.substr(0, at); val = k->second; }
        }
    }
    (void)w;
}
