// Quantities computed from the state (currents, overloads, sums per bus, current steps and sections, flows at the other
// end, reactive limits at a power): recomputed here from the primary values of the working variant.
#include <cmath>
#include <complex>
#include <powsybl/iidm/ActivePowerLimits.hpp>
#include <powsybl/iidm/ApparentPowerLimits.hpp>
#include <powsybl/iidm/Battery.hpp>
#include <powsybl/iidm/Boundary.hpp>
#include <powsybl/iidm/Bus.hpp>
#include <powsybl/iidm/BusbarSection.hpp>
#include <powsybl/iidm/Component.hpp>
#include <powsybl/iidm/CurrentLimits.hpp>
#include <powsybl/iidm/DanglingLine.hpp>
#include <powsybl/iidm/Generator.hpp>
#include <powsybl/iidm/HvdcLine.hpp>
#include <powsybl/iidm/IdBasedBusRef.hpp>
#include <powsybl/iidm/LccConverterStation.hpp>
#include <powsybl/iidm/Line.hpp>
#include <powsybl/iidm/Load.hpp>
#include <powsybl/iidm/MinMaxReactiveLimits.hpp>
#include <powsybl/iidm/ReactiveCapabilityCurve.hpp>
#include <powsybl/iidm/ShuntCompensator.hpp>
#include <powsybl/iidm/ShuntCompensatorLinearModel.hpp>
#include <powsybl/iidm/ShuntCompensatorNonLinearModel.hpp>
#include <powsybl/iidm/StaticVarCompensator.hpp>
#include <powsybl/iidm/Substation.hpp>
#include <powsybl/iidm/Switch.hpp>
#include <powsybl/iidm/ThreeWindingsTransformer.hpp>
#include <powsybl/iidm/TieLine.hpp>
#include <powsybl/iidm/TopologyLevel.hpp>
#include <powsybl/iidm/TwoWindingsTransformer.hpp>
#include <powsybl/iidm/VscConverterStation.hpp>
#include <powsybl/iidm/util/ConnectedComponents.hpp>
#include <powsybl/iidm/util/Networks.hpp>
#include <powsybl/iidm/util/SV.hpp>
#include <powsybl/iidm/util/TerminalFinder.hpp>

#include "hist.h"
#include "world.h"
using namespace powsybl::iidm;
bool g_strictCurrent = false;

namespace {
typedef std::complex<double> cplx;
bool same(double a, double b, double scale = 0) {
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
    if (std::isinf(a) || std::isinf(b)) return a == b;
    return std::fabs(a - b) <= 1e-9 * std::max(scale, std::max(std::fabs(a), std::fabs(b)));
}
const char* tn(const Terminal& t) { static std::string s[4]; static int k = 0; std::string& x = s[k++ & 3]; x = termName(t); return x.c_str(); }

// ---- currents and overloads
void checkCurrent(const Terminal& t, bool strict) {
    double i = t.getI(), s = std::hypot(t.getP(), t.getQ());
    bool bbs = t.getConnectable().get().getType() == ConnectableType::BUSBAR_SECTION;
    double want = bbs ? 0 : s * 1000 / (std::sqrt(3.) * t.getV());
    if (same(i, want)) { if (!bbs && !std::isnan(i)) count("current.right"); return; }
    // known finding: the voltage multiplies instead of dividing, an existing test asserts it
    if (!bbs && same(i, s / std::sqrt(3.) * t.getV() / 1000)) {
        count("current.known-finding");
        if (!strict) return;
        fail("current-formula", "the current of %s is P and Q times the voltage: %s A for %s MVA at %s kV", tn(t), hexd(i).c_str(), hexd(s).c_str(), hexd(t.getV()).c_str());
    }
    fail("current", "the current of %s is %s, expected %s", tn(t), hexd(i).c_str(), hexd(want).c_str());
}
double limitValue(const Terminal& t, LimitType y) {
    return y == LimitType::CURRENT ? t.getI() : y == LimitType::ACTIVE_POWER ? t.getP() : std::hypot(t.getP(), t.getQ());
}
std::string ovText(const Branch::Overload* o) {
    if (!o) return "none";
    const auto& l = o->getTemporaryLimit();
    return l.getName() + "/" + hexd(l.getValue()) + "/" + std::to_string(l.getAcceptableDuration()) + (l.isFictitious() ? "f" : "") + " after '" + o->getPreviousLimitName() + "' " + hexd(o->getPreviousLimit());
}
void checkBranch(Branch& b) {
    const Branch& cb = b;
    unsigned long worst = std::numeric_limits<unsigned long>::max();
    static const double reds[] = {1.0, 0.7, 2.5};
    bool over[3] = {false, false, false}, unsure[3] = {false, false, false};
    for (int k = 1; k <= 2; ++k) {
        Branch::Side sd = k == 1 ? Branch::Side::ONE : Branch::Side::TWO;
        const Terminal& t = b.getTerminals()[k - 1].get();
        if (&b.getTerminal(sd) != &t || &cb.getTerminal(sd) != &t || &(k == 1 ? cb.getTerminal1() : cb.getTerminal2()) != &t || cb.getSide(t) != sd) fail("branch-terminal", "side %d of '%s' is not its terminal %d", k, b.getId().c_str(), k);
        for (LimitType y : {LimitType::CURRENT, LimitType::ACTIVE_POWER, LimitType::APPARENT_POWER}) {
            const LoadingLimits *l, *l2, *l3;
            auto gen = b.getLimits(y, sd);
            auto cgen = cb.getLimits(y, sd);
            l = gen ? &gen.get() : nullptr;
            l3 = cgen ? &cgen.get() : nullptr;
            if (y == LimitType::CURRENT) { auto a = k == 1 ? b.getCurrentLimits1() : b.getCurrentLimits2(); l2 = a ? &a.get() : nullptr; }
            else if (y == LimitType::ACTIVE_POWER) { auto a = k == 1 ? b.getActivePowerLimits1() : b.getActivePowerLimits2(); l2 = a ? &a.get() : nullptr; }
            else { auto a = k == 1 ? b.getApparentPowerLimits1() : b.getApparentPowerLimits2(); l2 = a ? &a.get() : nullptr; }
            if (l != l2 || l != l3) fail("limits-accessor", "the ways to get limits %d of side %d of '%s' disagree", (int)y, k, b.getId().c_str());
            double v = limitValue(t, y);
            std::map<unsigned long, const LoadingLimits::TemporaryLimit*, std::greater<unsigned long>> tls;
            if (l) {
                if (l->getLimitType() != y) fail("limit-type", "limits %d of '%s' say they are %d", (int)y, b.getId().c_str(), (int)l->getLimitType());
                unsigned long prev = std::numeric_limits<unsigned long>::max();
                bool first = true;
                for (const auto& tl : l->getTemporaryLimits()) {
                    if (!first && tl.getAcceptableDuration() >= prev) fail("limits-order", "the temporary limits of '%s' are not in descending order of duration", b.getId().c_str());
                    first = false;
                    prev = tl.getAcceptableDuration();
                    tls[prev] = &tl;
                    if (&l->getTemporaryLimit(prev) != &tl || !same(l->getTemporaryLimitValue(prev), tl.getValue())) fail("temporary-limit", "limit %lu of '%s' is not what the list has", prev, b.getId().c_str());
                    if (!tls.count(prev + 1) && !std::isnan(l->getTemporaryLimitValue(prev + 1))) fail("temporary-limit", "'%s' gives a limit for a duration it does not have", b.getId().c_str());
                }
            }
            for (int q = 0; q < 3; ++q) {
                double red = reds[q], perm = l ? l->getPermanentLimit() : std::nan("");
                // rounding decides next to a limit, unless nothing is computed
                bool near = false;
                auto close = [&](double lim) { if (std::fabs(v - lim * red) <= 1e-9 * std::fabs(v)) near = true; };
                if (l) { close(perm); for (auto& tl : tls) close(tl.second->getValue()); }
                if (near && (q > 0 || y == LimitType::APPARENT_POWER)) {
                    count("overload.rounding");
                    if (y == LimitType::CURRENT) unsure[q] = true;
                    continue;
                }
                bool want = l && !std::isnan(perm) && !std::isnan(v) && v >= perm * red;
                bool got1 = k == 1 ? b.checkPermanentLimit1(red, y) : b.checkPermanentLimit2(red, y), got2 = b.checkPermanentLimit(sd, red, y);
                if (got1 != want || got2 != want) fail("permanent-limit", "side %d of '%s' has %s, permanent limit %s reduced by %g: reported %d and %d", k, b.getId().c_str(), hexd(v).c_str(), hexd(perm).c_str(), red, got1, got2);
                if (q == 0 && ((k == 1 ? b.checkPermanentLimit1(y) : b.checkPermanentLimit2(y)) != want || b.checkPermanentLimit(sd, y) != want)) fail("permanent-limit", "side %d of '%s' has %s, permanent limit %s: reported %d", k, b.getId().c_str(), hexd(v).c_str(), hexd(perm).c_str(), !want);
                if (want) { count("overload.permanent"); if (y == LimitType::CURRENT) over[q] = true; }
                std::string exp = "none";
                if (l && !std::isnan(perm) && !std::isnan(v)) {
                    std::string pn;
                    double pv = perm;
                    for (auto& tl : tls) {
                        if (v >= pv * red && v < tl.second->getValue() * red) {
                            Branch::Overload o(*tl.second, pn, pv);
                            exp = ovText(&o);
                            count("overload.temporary");
                            if (y == LimitType::CURRENT && q == 0) worst = std::min(worst, tl.first);
                            break;
                        }
                        pn = tl.second->getName();
                        pv = tl.second->getValue();
                    }
                }
                auto o1 = k == 1 ? b.checkTemporaryLimits1(red, y) : b.checkTemporaryLimits2(red, y);
                auto o2 = b.checkTemporaryLimits(sd, red, y);
                if (ovText(o1.get()) != exp || ovText(o2.get()) != exp) fail("temporary-limits", "side %d of '%s' has %s at reduction %g: overload %s and %s, expected %s", k, b.getId().c_str(), hexd(v).c_str(), red, ovText(o1.get()).c_str(), ovText(o2.get()).c_str(), exp.c_str());
                if (q == 0) {
                    auto o3 = k == 1 ? b.checkTemporaryLimits1(y) : b.checkTemporaryLimits2(y);
                    auto o4 = b.checkTemporaryLimits(sd, y);
                    if (ovText(o3.get()) != exp || ovText(o4.get()) != exp) fail("temporary-limits", "side %d of '%s': overload %s and %s, expected %s", k, b.getId().c_str(), ovText(o3.get()).c_str(), ovText(o4.get()).c_str(), exp.c_str());
                }
            }
        }
    }
    for (int q = 0; q < 3; ++q) if (!unsure[q] && b.isOverloaded(reds[q]) != over[q]) fail("overloaded", "'%s' is reported %soverloaded at reduction %g", b.getId().c_str(), over[q] ? "not " : "", reds[q]);
    if (b.isOverloaded() != over[0]) fail("overloaded", "'%s' is reported %soverloaded", b.getId().c_str(), over[0] ? "not " : "");
    if (b.getOverloadDuration() != worst) fail("overload-duration", "'%s' accepts its overload for %lu, expected %lu", b.getId().c_str(), b.getOverloadDuration(), worst);
    // by voltage level
    const VoltageLevel &v1 = b.getTerminals()[0].get().getVoltageLevel(), &v2 = b.getTerminals()[1].get().getVoltageLevel();
    if (&v1 != &v2) {
        if (&b.getTerminal(v1.getId()) != &b.getTerminals()[0].get() || &cb.getTerminal(v2.getId()) != &b.getTerminals()[1].get()) fail("branch-terminal", "the terminal of '%s' in a voltage level is not the right one", b.getId().c_str());
    } else {
        bool threw = false;
        try { b.getTerminal(v1.getId()); } catch (const powsybl::PowsyblException&) { threw = true; }
        if (!threw) fail("branch-terminal", "'%s' has two terminals in '%s' and gives one of them", b.getId().c_str(), v1.getId().c_str());
    }
    bool threw = false;
    try { b.getTerminal("no such level"); } catch (const powsybl::PowsyblException&) { threw = true; }
    if (!threw) fail("branch-terminal", "'%s' has a terminal in a voltage level that does not exist", b.getId().c_str());
}

// ---- flows at the other end: the equations of the circuit, solved step by step
struct End { cplx v, s; double sv, ss; bool ok; };
// current flows from the known end through yk, the series impedance z and yo
End otherEnd(double p, double q, double u, double a, double r, double x, cplx yk, cplx yo) {
    End e;
    e.ok = false;
    if (std::isnan(p) || std::isnan(q) || std::isnan(u) || std::isnan(a)) return e;
    cplx v = std::polar(u, a * M_PI / 180), z(r, x);
    if (u < 1e-3 || std::abs(z) < 1e-3) return e;
    cplx ser = std::conj(cplx(p, q) / v) - yk * v;
    e.v = v - z * ser;
    e.s = e.v * std::conj(yo * e.v - ser);
    e.sv = std::abs(v) + std::abs(z) * (std::abs(cplx(p, q)) / u + std::abs(yk) * u);
    e.ss = e.sv * (std::abs(yo) * e.sv + std::abs(cplx(p, q)) / u + std::abs(yk) * u + e.sv / std::abs(z));
    e.ok = true;
    return e;
}
void cmpEnd(const char* what, const std::string& id, const End& e, double p, double q, double u, double a) {
    if (!e.ok) return;
    count("flows.compared");
    cplx v = std::polar(std::fabs(u), a * M_PI / 180);
    if (!(std::abs(v - e.v) <= 1e-7 * e.sv) || !(std::abs(cplx(p, q) - e.s) <= 1e-7 * e.ss))
        fail("flow-at-other-end", "%s of '%s': V %s angle %s P %s Q %s, expected V %s angle %s P %s Q %s", what, id.c_str(), hexd(u).c_str(), hexd(a).c_str(), hexd(p).c_str(), hexd(q).c_str(),
             hexd(std::abs(e.v)).c_str(), hexd(std::arg(e.v) * 180 / M_PI).c_str(), hexd(e.s.real()).c_str(), hexd(e.s.imag()).c_str());
}
void allNan(const char* what, const std::string& id, bool nan, double p, double q, double u, double a) {
    if (nan && !(std::isnan(p) && std::isnan(q) && std::isnan(u) && std::isnan(a))) fail("flow-at-other-end", "%s of '%s' has values although the state is not known", what, id.c_str());
}
double busV(const Terminal& t) { auto b = t.getBusView().getBus(); return b ? b.get().getV() : std::nan(""); }
double busA(const Terminal& t) { auto b = t.getBusView().getBus(); return b ? b.get().getAngle() : std::nan(""); }
// some of the state is missing; degenerate circuits (see otherEnd) give nothing meaningful
bool unknown(const Terminal& t, double r, double x) { return !(busV(t) < 1e-3) && std::hypot(r, x) >= 1e-3 && (std::isnan(t.getP()) || std::isnan(t.getQ()) || std::isnan(busV(t)) || std::isnan(busA(t))); }
template <class F> void withSv(const char* what, const std::string& id, const SV& o, const End& e, F side) {
    cmpEnd(what, id, e, o.getP(), o.getQ(), o.getU(), o.getA());
    if (o.getSide() != side) fail("flow-at-other-end", "%s of '%s' is not at the other side", what, id.c_str());
}
bool sameOr(double a, double b) { return (std::isnan(a) && std::isnan(b)) || std::fabs(a - b) <= 1e-9 * (std::fabs(a) + std::fabs(b)); }
// the characteristics of a transformer with its tap changers at their positions
struct Circuit {
    double r, x, g, b, rho, alpha = 0;
    explicit Circuit(const TwoWindingsTransformer& w) : r(w.getR()), x(w.getX()), g(w.getG()), b(w.getB()), rho(w.getRatedU2() / w.getRatedU1()) {
        if (w.hasRatioTapChanger()) apply(w.getRatioTapChanger());
        if (w.hasPhaseTapChanger()) alpha = apply(w.getPhaseTapChanger()).getAlpha();
    }
    template <class C> auto apply(const C& c) -> decltype(*&c.getCurrentStep()) {
        const auto& s = c.getAllSteps().at(c.getTapPosition()).get();
        r *= 1 + s.getR() / 100; x *= 1 + s.getX() / 100; g *= 1 + s.getG() / 100; b *= 1 + s.getB() / 100; rho *= s.getRho();
        return s;
    }
    bool ok() const { return rho > 1e-3 && rho < 1e3; }
};
// the scalar functions give the members of the whole answer
void scalars(const std::string& id, const SV& o, double p, double q, double u, double a) {
    if (!sameOr(o.getP(), p) || !sameOr(o.getQ(), q) || !sameOr(o.getU(), u) || !sameOr(o.getA(), a)) fail("flow-at-other-end", "the functions of one quantity of '%s' give V %s angle %s P %s Q %s", id.c_str(), hexd(u).c_str(), hexd(a).c_str(), hexd(p).c_str(), hexd(q).c_str());
}
// states that do not depend on what the network knows
SV given(const std::string& id, int k, Branch::Side sd) {
    Rng r(fnv(id) + k);
    double p = (double)r.below(400) - 200, q = (double)r.below(200) - 100, u = 1 + r.below(400), a = (double)r.below(180) - 90;
    return SV(p, q, u, a, sd);
}
void checkGiven(Identifiable& o) {
    const std::string& id = o.getId();
    for (int k = 0; k < 2; ++k) {
        auto from = k == 0 ? Branch::Side::ONE : Branch::Side::TWO, to = k == 0 ? Branch::Side::TWO : Branch::Side::ONE;
        SV in = given(id, k, from);
        if (in.getSide() != from) fail("flow-at-other-end", "a state of '%s' is not at its side", id.c_str());
        auto cmp = [&](const SV& sv, double r, double x, cplx y1, cplx y2, double rho, double alpha) {
            End e;
            if (k == 0) e = otherEnd(in.getP(), in.getQ(), in.getU() * rho, in.getA() + alpha, r, x, y1, y2);
            else {
                e = otherEnd(in.getP(), in.getQ(), in.getU(), in.getA(), r, x, y2, y1);
                if (e.ok) { e.v *= std::polar(1 / rho, -alpha * M_PI / 180); e.sv /= rho; }
            }
            withSv("the other end (given state)", id, sv, e, to);
        };
        if (auto* d = dynamic_cast<DanglingLine*>(&o)) {
            cplx y(d->getG(), d->getB());
            cmp(in.otherSide(*d), d->getR(), d->getX(), y, 0, 1, 0);
            cmp(in.otherSide(*d, true), d->getR(), d->getX(), y * .5, y * .5, 1, 0);
            scalars(id, in.otherSide(*d), in.otherSideP(*d), in.otherSideQ(*d), in.otherSideU(*d), in.otherSideA(*d));
            for (bool b : {false, true}) scalars(id, in.otherSide(*d, b), in.otherSideP(*d, b), in.otherSideQ(*d, b), in.otherSideU(*d, b), in.otherSideA(*d, b));
        } else if (auto* l = dynamic_cast<Line*>(&o)) {
            cmp(in.otherSide(*l), l->getR(), l->getX(), cplx(l->getG1(), l->getB1()), cplx(l->getG2(), l->getB2()), 1, 0);
            if (auto* tl = dynamic_cast<TieLine*>(&o)) for (auto* h : {&tl->getHalf1(), &tl->getHalf2()}) {
                SV all = in.otherSide(h->getR(), h->getX(), h->getG1(), h->getB1(), h->getG2(), h->getB2(), 1, 0);
                cmp(all, h->getR(), h->getX(), cplx(h->getG1(), h->getB1()), cplx(h->getG2(), h->getB2()), 1, 0);
                scalars(id, all, in.otherSideP(*h), in.otherSideQ(*h), in.otherSideU(*h), in.otherSideA(*h));
            }
        } else if (auto* w = dynamic_cast<TwoWindingsTransformer*>(&o)) {
            Circuit c(*w);
            if (!c.ok()) continue;
            cmp(in.otherSide(*w), c.r, c.x, cplx(c.g, c.b), 0, c.rho, c.alpha);
            cmp(in.otherSide(*w, false), c.r, c.x, cplx(c.g, c.b), 0, c.rho, c.alpha);
            cmp(in.otherSide(*w, true), c.r, c.x, cplx(c.g, c.b) * .5, cplx(c.g, c.b) * .5, c.rho, c.alpha);
            SV all = in.otherSide(c.r, c.x, c.g, c.b, 0, 0, c.rho, c.alpha * M_PI / 180);
            scalars(id, all, in.otherSideP(c.r, c.x, c.g, c.b, 0, 0, c.rho, c.alpha * M_PI / 180), in.otherSideQ(c.r, c.x, c.g, c.b, 0, 0, c.rho, c.alpha * M_PI / 180),
                    in.otherSideU(c.r, c.x, c.g, c.b, 0, 0, c.rho, c.alpha * M_PI / 180), in.otherSideA(c.r, c.x, c.g, c.b, 0, 0, c.rho, c.alpha * M_PI / 180));
            if (w->hasRatioTapChanger() && w->hasPhaseTapChanger()) count("flows.both-tap-changers");
        }
        count("flows.given");
    }
}
void checkFlows(Identifiable& o) {
    const std::string& id = o.getId();
    checkGiven(o);
    if (auto* d = dynamic_cast<DanglingLine*>(&o)) {
        const Terminal& t = d->getTerminal();
        const auto& b = d->getBoundary();
        if (&b.getConnectable() != d || &b.getVoltageLevel() != &t.getVoltageLevel() || b.getSide()) fail("boundary", "the boundary of '%s' belongs to something else", id.c_str());
        cplx y = cplx(d->getG(), d->getB()) * 0.5;
        allNan("the boundary", id, unknown(t, d->getR(), d->getX()), b.getP(), b.getQ(), b.getV(), b.getAngle());
        cmpEnd("the boundary", id, otherEnd(t.getP(), t.getQ(), busV(t), busA(t), d->getR(), d->getX(), y, y), b.getP(), b.getQ(), b.getV(), b.getAngle());
        SV sv(t.getP(), t.getQ(), busV(t), busA(t), Branch::Side::ONE);
        withSv("the other end", id, sv.otherSide(*d), otherEnd(t.getP(), t.getQ(), busV(t), busA(t), d->getR(), d->getX(), y * 2., 0), Branch::Side::TWO);
        withSv("the other end", id, sv.otherSide(*d, true), otherEnd(t.getP(), t.getQ(), busV(t), busA(t), d->getR(), d->getX(), y, y), Branch::Side::TWO);
    } else if (auto* tl = dynamic_cast<TieLine*>(&o)) {
        for (int k = 1; k <= 2; ++k) {
            Branch::Side sd = k == 1 ? Branch::Side::ONE : Branch::Side::TWO;
            auto& h = k == 1 ? tl->getHalf1() : tl->getHalf2();
            if (&tl->getHalf(sd) != &h) fail("half-line", "half %d of '%s' is another one", k, id.c_str());
            const Terminal& t = tl->getTerminal(sd);
            const auto& b = h.getBoundary();
            if (&b.getConnectable() != static_cast<Connectable*>(tl) || &b.getVoltageLevel() != &t.getVoltageLevel() || !b.getSide() || *b.getSide() != sd) fail("boundary", "the boundary of half %d of '%s' belongs to something else", k, id.c_str());
            cplx y1(h.getG1(), h.getB1()), y2(h.getG2(), h.getB2());
            allNan("a boundary", id, unknown(t, h.getR(), h.getX()), b.getP(), b.getQ(), b.getV(), b.getAngle());
            cmpEnd("a boundary", id, otherEnd(t.getP(), t.getQ(), busV(t), busA(t), h.getR(), h.getX(), k == 1 ? y1 : y2, k == 1 ? y2 : y1), b.getP(), b.getQ(), b.getV(), b.getAngle());
        }
        auto &h1 = tl->getHalf1(), &h2 = tl->getHalf2();
        if (!same(tl->getR(), h1.getR() + h2.getR()) || !same(tl->getX(), h1.getX() + h2.getX()) || !same(tl->getG1(), h1.getG1() + h2.getG1()) || !same(tl->getB1(), h1.getB1() + h2.getB1()) || !same(tl->getG2(), h1.getG2() + h2.getG2()) || !same(tl->getB2(), h1.getB2() + h2.getB2()))
            fail("tie-line-sum", "the characteristics of '%s' are not the sums of its halves", id.c_str());
    }
    if (auto* l = dynamic_cast<Line*>(&o)) {
        cplx y1(l->getG1(), l->getB1()), y2(l->getG2(), l->getB2());
        const Terminal &t1 = l->getTerminals()[0].get(), &t2 = l->getTerminals()[1].get();
        withSv("the other end", id, SV(t1.getP(), t1.getQ(), busV(t1), busA(t1), Branch::Side::ONE).otherSide(*l), otherEnd(t1.getP(), t1.getQ(), busV(t1), busA(t1), l->getR(), l->getX(), y1, y2), Branch::Side::TWO);
        withSv("the other end", id, SV(t2.getP(), t2.getQ(), busV(t2), busA(t2), Branch::Side::TWO).otherSide(*l), otherEnd(t2.getP(), t2.getQ(), busV(t2), busA(t2), l->getR(), l->getX(), y2, y1), Branch::Side::ONE);
        if (l->isTieLine() != (dynamic_cast<TieLine*>(l) != nullptr)) fail("tie-line", "'%s' does not know whether it is a tie line", id.c_str());
    } else if (auto* w = dynamic_cast<TwoWindingsTransformer*>(&o)) {
        Circuit c(*w);
        double r = c.r, x = c.x, g = c.g, b = c.b, rho = c.rho, alpha = c.alpha;
        if (c.ok()) for (int split = 0; split < 2; ++split) {
            cplx y1 = split ? cplx(g, b) * .5 : cplx(g, b), y2 = split ? cplx(g, b) * .5 : cplx(0, 0);
            const Terminal &t1 = w->getTerminals()[0].get(), &t2 = w->getTerminals()[1].get();
            // from side 1: an ideal transformer, then the line
            withSv("the other end", id, split ? SV(t1.getP(), t1.getQ(), busV(t1), busA(t1), Branch::Side::ONE).otherSide(*w, true) : SV(t1.getP(), t1.getQ(), busV(t1), busA(t1), Branch::Side::ONE).otherSide(*w),
                   otherEnd(t1.getP(), t1.getQ(), busV(t1) * rho, busA(t1) + alpha, r, x, y1, y2), Branch::Side::TWO);
            End e = otherEnd(t2.getP(), t2.getQ(), busV(t2), busA(t2), r, x, y2, y1);
            if (e.ok) { e.v *= std::polar(1 / rho, -alpha * M_PI / 180); e.sv /= rho; }
            withSv("the other end", id, split ? SV(t2.getP(), t2.getQ(), busV(t2), busA(t2), Branch::Side::TWO).otherSide(*w, true) : SV(t2.getP(), t2.getQ(), busV(t2), busA(t2), Branch::Side::TWO).otherSide(*w, false), e, Branch::Side::ONE);
        }
    }
}

// ---- tap changers, shunts, reactive limits
template <class C> void checkTap(const std::string& id, C& c) {
    const C& cc = c;
    auto all = c.getAllSteps();
    long tap = c.getTapPosition();
    if ((long)all.size() != (long)c.getStepCount() || c.getHighTapPosition() != c.getLowTapPosition() + (long)all.size() - 1 || all.begin()->first != c.getLowTapPosition() || all.rbegin()->first != c.getHighTapPosition())
        fail("tap-range", "a tap changer of '%s' has %zu steps, positions %ld to %ld", id.c_str(), all.size(), c.getLowTapPosition(), c.getHighTapPosition());
    if (!all.count(tap) || &c.getCurrentStep() != &all.at(tap).get() || &cc.getCurrentStep() != &all.at(tap).get()) fail("current-step", "the current step of a tap changer of '%s' is not that of position %ld", id.c_str(), tap);
    for (auto& s : all) if (&c.getStep(s.first) != &s.second.get()) fail("step", "step %ld of a tap changer of '%s' is another one", s.first, id.c_str());
    for (long bad : {c.getLowTapPosition() - 1, c.getHighTapPosition() + 1}) {
        bool threw = false;
        try { c.getStep(bad); } catch (const powsybl::PowsyblException&) { threw = true; }
        if (!threw) fail("step", "a tap changer of '%s' has a step at %ld", id.c_str(), bad);
    }
}
template <class H> void checkTaps(const std::string& id, H& h) {
    const H& ch = h;
    auto r = h.getOptionalRatioTapChanger();
    auto p = h.getOptionalPhaseTapChanger();
    if ((bool)r != h.hasRatioTapChanger() || (bool)p != h.hasPhaseTapChanger() || (bool)ch.getOptionalRatioTapChanger() != (bool)r || (bool)ch.getOptionalPhaseTapChanger() != (bool)p) fail("tap-changer", "'%s' does not know whether it has tap changers", id.c_str());
    if (r) { if (&r.get() != &h.getRatioTapChanger() || &ch.getRatioTapChanger() != &r.get()) fail("tap-changer", "'%s' has two ratio tap changers", id.c_str()); checkTap(id, r.get()); }
    else { bool threw = false; try { h.getRatioTapChanger(); } catch (const powsybl::PowsyblException&) { threw = true; } if (!threw) fail("tap-changer", "'%s' gives a ratio tap changer it does not have", id.c_str()); }
    if (p) { if (&p.get() != &h.getPhaseTapChanger() || &ch.getPhaseTapChanger() != &p.get()) fail("tap-changer", "'%s' has two phase tap changers", id.c_str()); checkTap(id, p.get()); }
    else { bool threw = false; try { h.getPhaseTapChanger(); } catch (const powsybl::PowsyblException&) { threw = true; } if (!threw) fail("tap-changer", "'%s' gives a phase tap changer it does not have", id.c_str()); }
}
void checkShunt(ShuntCompensator& s) {
    const ShuntCompensator& cs = s;
    unsigned long n = s.getSectionCount(), mx = s.getMaximumSectionCount();
    std::vector<double> b(1, 0.0), g(1, 0.0);
    if (s.getModelType() == ShuntCompensatorModelType::LINEAR) {
        const auto& m = cs.getModel<ShuntCompensatorLinearModel>();
        for (unsigned long k = 1; k <= mx; ++k) { b.push_back(m.getBPerSection() * k); g.push_back(std::isnan(m.getGPerSection()) ? 0 : m.getGPerSection() * k); }
    } else for (const auto& x : cs.getModel<ShuntCompensatorNonLinearModel>().getAllSections()) { b.push_back(x.getB()); g.push_back(x.getG()); }
    if (b.size() != mx + 1) fail("shunt-sections", "'%s' has %lu sections, its model %zu", s.getId().c_str(), mx, b.size() - 1);
    for (unsigned long k = 0; k <= mx; ++k) if (!same(s.getB(k), b[k]) || !same(s.getG(k), g[k])) fail("shunt-section", "'%s' with %lu sections has B %s G %s, expected %s %s", s.getId().c_str(), k, hexd(s.getB(k)).c_str(), hexd(s.getG(k)).c_str(), hexd(b[k]).c_str(), hexd(g[k]).c_str());
    if (n > mx) fail("shunt-sections", "'%s' has %lu of %lu sections", s.getId().c_str(), n, mx);
    if (!same(s.getB(), b[n]) || !same(s.getG(), g[n])) fail("shunt-current", "'%s' has B %s G %s, expected %s %s for its %lu sections", s.getId().c_str(), hexd(s.getB()).c_str(), hexd(s.getG()).c_str(), hexd(b[n]).c_str(), hexd(g[n]).c_str(), n);
    bool threw = false;
    try { s.getB(mx + 1); } catch (const powsybl::PowsyblException&) { threw = true; }
    if (!threw) fail("shunt-section", "'%s' has a susceptance for more sections than it has", s.getId().c_str());
}
void checkReactive(const std::string& id, ReactiveLimitsHolder& h) {
    const auto& l = const_cast<const ReactiveLimitsHolder&>(h).getReactiveLimits<ReactiveLimits>();
    if (&l != &h.getReactiveLimits<ReactiveLimits>()) fail("reactive-limits", "'%s' has two reactive limits", id.c_str());
    if (l.getKind() == ReactiveLimitsKind::MIN_MAX) {
        const auto& m = h.getReactiveLimits<MinMaxReactiveLimits>();
        for (double p : {-10.0, 0.0, 33.0}) if (!same(l.getMinQ(p), m.getMinQ()) || !same(l.getMaxQ(p), m.getMaxQ())) fail("reactive-limits", "the limits of '%s' depend on P", id.c_str());
        return;
    }
    auto& c = h.getReactiveLimits<ReactiveCapabilityCurve>();
    std::vector<double> ps, lo, hi;
    for (const auto& q : c.getPoints()) { ps.push_back(q.getP()); lo.push_back(q.getMinQ()); hi.push_back(q.getMaxQ()); }
    if (ps.size() != c.getPointCount() || ps.size() < 2 || !same(c.getMinP(), ps.front()) || !same(c.getMaxP(), ps.back())) fail("reactive-curve", "the curve of '%s' has %zu points from %s to %s", id.c_str(), ps.size(), hexd(c.getMinP()).c_str(), hexd(c.getMaxP()).c_str());
    std::vector<double> at = ps;
    at.push_back(ps.front() - 5);
    at.push_back(ps.back() + 5);
    for (size_t k = 1; k < ps.size(); ++k) { if (!(ps[k] > ps[k - 1])) fail("reactive-curve", "the points of '%s' are not in ascending order", id.c_str()); at.push_back(ps[k - 1] + (ps[k] - ps[k - 1]) * 0.3); at.push_back((ps[k] + ps[k - 1]) * 0.5); }
    for (double p : at) {
        auto val = [&](const std::vector<double>& v) {
            if (p <= ps.front()) return v.front();
            if (p >= ps.back()) return v.back();
            size_t k = 1;
            while (ps[k] < p) ++k;
            return v[k - 1] + (v[k] - v[k - 1]) * ((p - ps[k - 1]) / (ps[k] - ps[k - 1]));
        };
        count("reactive.curve");
        double a = val(lo), b = val(hi);
        double m = 1e-3 * (std::fabs(a) + std::fabs(b));
        if (!same(c.getMinQ(p), a, m) || !same(c.getMaxQ(p), b, m) || !same(l.getMinQ(p), a, m)) fail("reactive-curve", "'%s' at P = %s has Q from %s to %s, expected %s to %s", id.c_str(), hexd(p).c_str(), hexd(c.getMinQ(p)).c_str(), hexd(c.getMaxQ(p)).c_str(), hexd(a).c_str(), hexd(b).c_str());
    }
}

// ---- buses
template <class T> std::multiset<std::string> ofType(const std::vector<const Terminal*>& ts) {
    std::multiset<std::string> r;
    for (auto* t : ts) if (auto* x = dynamic_cast<const T*>(&t->getConnectable().get())) r.insert(x->getId());
    return r;
}
template <class R> std::multiset<std::string> idSet(R&& range) { std::multiset<std::string> r; for (const auto& x : range) r.insert(x.getId()); return r; }
std::vector<const Terminal*> termsOf(const Bus& b) { std::vector<const Terminal*> v; for (const Terminal& t : b.getConnectedTerminals()) v.push_back(&t); return v; }

void checkBusSums(Bus& b) {
    auto ts = termsOf(b);
    if (ts.size() != b.getConnectedTerminalCount()) fail("terminal-count", "'%s' counts %lu connected terminals and lists %zu", b.getId().c_str(), b.getConnectedTerminalCount(), ts.size());
    double p = 0, q = 0, sp = 0, sq = 0;
    for (auto* t : ts) {
        const Connectable& c = t->getConnectable().get();
        bool inj = dynamic_cast<const Generator*>(&c) || dynamic_cast<const Battery*>(&c) || dynamic_cast<const Load*>(&c) || dynamic_cast<const HvdcConverterStation*>(&c);
        bool qi = inj || dynamic_cast<const ShuntCompensator*>(&c) || dynamic_cast<const StaticVarCompensator*>(&c);
        if (inj && !std::isnan(t->getP())) { p += t->getP(); sp += std::fabs(t->getP()); }
        if (qi && !std::isnan(t->getQ())) { q += t->getQ(); sq += std::fabs(t->getQ()); }
    }
    if (ts.empty()) p = q = std::nan("");
    else if (sp || sq) count("bus.sums");
    if (!same(b.getP(), p, sp) || !same(b.getQ(), q, sq)) fail("bus-sum", "'%s' has P %s Q %s, its injections add up to %s and %s", b.getId().c_str(), hexd(b.getP()).c_str(), hexd(b.getQ()).c_str(), hexd(p).c_str(), hexd(q).c_str());
}
#define BUS_LIST(T, m) \
    { auto want = ofType<T>(ts); auto got = idSet(b.m()), cgot = idSet(cb.m()); \
      if (got != want || cgot != want) fail("bus-equipment", #m " of '%s' gives %zu and %zu elements, %zu are connected", b.getId().c_str(), got.size(), cgot.size(), want.size()); \
      if (!want.empty()) count("bus.equipment"); }
void checkBusLists(Bus& b) {
    const Bus& cb = b;
    auto ts = termsOf(b);
    std::vector<const Terminal*> nc;
    for (Terminal& t : b.getConnectedTerminals()) nc.push_back(&t);
    if (nc != ts) fail("bus-terminals", "the two lists of terminals of '%s' differ", b.getId().c_str());
    BUS_LIST(Battery, getBatteries)
    BUS_LIST(DanglingLine, getDanglingLines)
    BUS_LIST(Generator, getGenerators)
    BUS_LIST(LccConverterStation, getLccConverterStations)
    BUS_LIST(Line, getLines)
    BUS_LIST(Load, getLoads)
    BUS_LIST(ShuntCompensator, getShuntCompensators)
    BUS_LIST(StaticVarCompensator, getStaticVarCompensators)
    BUS_LIST(ThreeWindingsTransformer, getThreeWindingsTransformers)
    BUS_LIST(TwoWindingsTransformer, getTwoWindingsTransformers)
    BUS_LIST(VscConverterStation, getVscConverterStations)
    auto c = b.getConnectedComponent();
    auto num = ConnectedComponents::getCcNum(stdcxx::cref(cb));
    if ((bool)c != (bool)num || (c && c.get().getNum() != *num)) fail("component-number", "the component number of '%s' is not that of its component", b.getId().c_str());
    // the best terminal: the first one of the first kind in the order of the rules
    auto rank = [](const Terminal& t) {
        const Connectable& x = t.getConnectable().get();
        if (dynamic_cast<const BusbarSection*>(&x)) return 0;
        if (dynamic_cast<const Injection*>(&x)) return 1;
        return dynamic_cast<const Branch*>(&x) ? 2 : 3;
    };
    const Terminal* best = nullptr;
    for (auto* t : ts) if (!best || rank(*t) < rank(*best)) best = t;
    auto f = TerminalFinder::find(cb.getConnectedTerminals());
    auto g = TerminalFinder::find(b.getConnectedTerminals());
    if ((f ? &f.get() : nullptr) != best || (g ? &g.get() : nullptr) != best) fail("best-terminal", "the best terminal of '%s' is %s, expected %s", b.getId().c_str(), f ? tn(f.get()) : "none", best ? tn(*best) : "none");
}
struct Dsu {
    std::map<unsigned long, unsigned long> p;
    unsigned long find(unsigned long x) { auto i = p.find(x); if (i == p.end()) return p[x] = x; while (p[x] != x) x = p[x]; return x; }
};
void checkNodesByBus(VoltageLevel& vl) {
    const VoltageLevel& cvl = vl;
    if (vl.getTopologyKind() != TopologyKind::NODE_BREAKER) {
        bool t1 = false, t2 = false;
        try { Networks::getNodesByBus(vl); } catch (const powsybl::PowsyblException&) { t1 = true; }
        try { Networks::getEquivalentTerminal(vl, 0); } catch (const powsybl::PowsyblException&) { t2 = true; }
        if (!t1 || !t2) fail("nodes-by-bus", "nodes were given for '%s', which has none", vl.getId().c_str());
        return;
    }
    auto& nb = vl.getNodeBreakerView();
    Dsu d;
    std::set<unsigned long> nodes;
    for (unsigned long n : nb.getNodes()) { nodes.insert(n); d.find(n); }
    for (const auto& i : nb.getInternalConnections()) { unsigned long a = d.find(i.getNode1()), b = d.find(i.getNode2()); d.p[a] = b; }
    for (Switch& s : nb.getSwitches()) if (!s.isOpen()) { unsigned long a = d.find(nb.getNode1(s.getId())), b = d.find(nb.getNode2(s.getId())); d.p[a] = b; }
    std::map<unsigned long, std::string> busOf;   // by component
    std::set<unsigned long> withTerm;
    for (unsigned long n : nodes) {
        auto t = nb.getTerminal(n);
        if (!t) continue;
        withTerm.insert(d.find(n));
        auto b = t.get().getBusView().getBus();
        if (b) busOf[d.find(n)] = b.get().getId();
    }
    std::map<std::string, std::set<unsigned long>> want;
    for (unsigned long n : nodes) {
        if (busOf.count(d.find(n))) want[busOf[d.find(n)]].insert(n);
        auto t = Networks::getEquivalentTerminal(cvl, n);
        auto own = nb.getTerminal(n);
        bool can = withTerm.count(d.find(n)) != 0;
        if (t) { if (d.find(t.get().getNodeBreakerView().getNode()) != d.find(n)) fail("equivalent-terminal", "node %lu of '%s' is given the terminal %s, which it is not connected to", n, vl.getId().c_str(), tn(t.get())); }
        else if (can && !own) fail("equivalent-terminal", "node %lu of '%s' has no equivalent terminal", n, vl.getId().c_str());
    }
    auto got = Networks::getNodesByBus(cvl);
    if (got != want) {
        std::string a, b;
        for (auto& x : got) { a += x.first + ":"; for (auto n : x.second) a += std::to_string(n) + ","; }
        for (auto& x : want) { b += x.first + ":"; for (auto n : x.second) b += std::to_string(n) + ","; }
        fail("nodes-by-bus", "the nodes of the buses of '%s' are %s, expected %s", vl.getId().c_str(), a.c_str(), b.c_str());
    }
}
const Bus* raw(const stdcxx::CReference<Bus>& b) { return b ? &b.get() : nullptr; }
const Bus* busAt(const Terminal& t, TopologyLevel l) { return l == TopologyLevel::BUS_BRANCH ? raw(t.getBusView().getBus()) : raw(t.getBusBreakerView().getBus()); }
template <class F> std::string refText(F f) {
    try { const Bus* b = f(); return b ? b->getId() : std::string("none"); } catch (const powsybl::PowsyblException&) { return "refused"; }
}
void checkRefs(Network& n, Identifiable& o) {
    const Network& cn = n;
    const std::string& id = o.getId();
    if (o.getId().empty() || &cn.find(id).get() != &o) return;
    for (TopologyLevel l : {TopologyLevel::BUS_BREAKER, TopologyLevel::BUS_BRANCH}) {
        for (int side = 0; side < 3; ++side) {
            std::string want = "refused";
            auto* br = dynamic_cast<Branch*>(&o);
            if (!side) {
                if (auto* b = dynamic_cast<Bus*>(&o)) {
                    if (l == TopologyLevel::BUS_BREAKER) want = b->getId();
                    else {
                        auto ts = termsOf(*b);
                        auto m = b->getVoltageLevel().getBusView().getMergedBus(b->getId());
                        want = ts.empty() || !m ? "none" : m.get().getId();
                    }
                } else if (auto* i = dynamic_cast<Injection*>(&o)) want = refText([&]() { return busAt(i->getTerminal(), l); });
            } else if (br) want = refText([&]() { return busAt(br->getTerminals()[side - 1].get(), l); });
            IdBasedBusRef ref = side ? IdBasedBusRef(id, side == 1 ? Branch::Side::ONE : Branch::Side::TWO) : IdBasedBusRef(id);
            std::string got = refText([&]() { return raw(ref.resolve(cn, l)); });
            count("busref");
            if (got != want) fail("bus-reference", "the reference to '%s' (side %d) at level %d is %s, expected %s", id.c_str(), side, (int)l, got.c_str(), want.c_str());
        }
    }
}
}  // namespace

void checkDerived(Network& n, Rng* some) {
    auto skip = [some]() { return some && !some->chance(20); };
    bool strict = g_strictCurrent;
    for (Identifiable& o : n.getIdentifiables()) {
        if (skip()) continue;
        if (auto* c = dynamic_cast<Connectable*>(&o)) for (auto& t : c->getTerminals()) checkCurrent(t.get(), strict);
        if (auto* b = dynamic_cast<Branch*>(&o)) checkBranch(*b);
        checkFlows(o);
        if (auto* w = dynamic_cast<TwoWindingsTransformer*>(&o)) checkTaps(o.getId(), *w);
        if (auto* w = dynamic_cast<ThreeWindingsTransformer*>(&o)) {
            int k = 0;
            for (auto& leg : w->getLegs()) {
                checkTaps(o.getId(), leg);
                auto sd = (ThreeWindingsTransformer::Side)k;
                const Terminal& t = w->getTerminals()[k++].get();
                if (&leg.getTerminal() != &t || &w->getTerminal(sd) != &t || w->getSide(t) != sd) fail("leg-terminal", "leg %d of '%s' has another terminal", k, o.getId().c_str());
            }
        }
        if (auto* s = dynamic_cast<ShuntCompensator*>(&o)) checkShunt(*s);
        if (auto* h = dynamic_cast<ReactiveLimitsHolder*>(&o)) checkReactive(o.getId(), *h);
        if (auto* d = dynamic_cast<DanglingLine*>(&o)) if (d->getGeneration()) checkReactive(o.getId(), d->getGeneration().get());
    }
    for (Bus& b : n.getBusView().getBuses()) if (!skip()) checkBusSums(b);
    for (Bus& b : n.getBusBreakerView().getBuses()) if (!skip()) checkBusSums(b);
}
void checkNavigation(Network& n, Rng* some) {
    auto skip = [some]() { return some && !some->chance(20); };
    for (Bus& b : n.getBusView().getBuses()) if (!skip()) checkBusLists(b);
    for (Bus& b : n.getBusBreakerView().getBuses()) if (!skip()) checkBusLists(b);
    for (VoltageLevel& vl : n.getVoltageLevels()) if (!skip()) checkNodesByBus(vl);
    for (Identifiable& o : n.getIdentifiables()) if (!skip()) checkRefs(n, o);
    IdBasedBusRef ref("nothing has this id");
    if (ref.resolve(n, TopologyLevel::BUS_BREAKER)) fail("bus-reference", "a reference to nothing is a bus");
}
