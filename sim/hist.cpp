// Random operation histories on one network, driven by one client, with oracles after every operation.
#include "ext.h"
#include "hist.h"
#include <powsybl/iidm/Bus.hpp>
#include <powsybl/iidm/Substation.hpp>
#include <powsybl/iidm/VoltageLevel.hpp>
using namespace powsybl::iidm;

namespace {
enum Oracle { O_FRAME = 1, O_REG = 2, O_TOPO = 4, O_COMP = 8, O_REF = 16, O_INV = 32, O_VAR = 64, O_PSY = 128, O_LEAK = 256, O_EXT = 512, O_NAV = 1024, O_DER = 2048 };

void withEveryVariant(World& w, const std::function<void(Network&)>& f) {
    auto& vm = w.n().getVariantManager();
    std::string old = w.working;
    for (auto& v : w.variants) { vm.setWorkingVariant(v); f(w.n()); }
    if (!old.empty()) vm.setWorkingVariant(old);
    else w.working = *w.variants.rbegin();   // some variant has to be selected to read anything
}
void topoBoth(Network& n) { checkTopology(n, true, true); }
// variants known to the manager are those of the model
void checkVariants(World& w) {
    auto& vm = w.n().getVariantManager();
    auto ids = vm.getVariantIds();
    std::set<std::string> got(ids.begin(), ids.end());
    if (got != w.variants || ids.size() != got.size()) {
        std::string a, b;
        for (auto& x : got) a += x + ",";
        for (auto& x : w.variants) b += x + ",";
        fail("variant-list", "the variants are {%s}, expected {%s}", a.c_str(), b.c_str());
    }
    if (vm.getVariantArraySize() < got.size()) fail("variant-array-size", "array size %lu for %zu variants", vm.getVariantArraySize(), got.size());
    bool set = true;
    std::string cur;
    try { vm.getVariantIndex(); } catch (const powsybl::PowsyblException&) { set = false; }
    if (set) cur = vm.getWorkingVariantId();
    if (set != !w.working.empty()) fail("working-variant", "a working variant is %s, expected '%s'", set ? "set" : "not set", w.working.c_str());
    if (set && cur != w.working) fail("working-variant", "the working variant is '%s', expected '%s'", cur.c_str(), w.working.c_str());
}
const char* const CREATE[] = {"addSubstation", "addVl", "addBus", "addBbs", "addSwitch", "addIc", "addLoad", "addGen", "addBat", "addShunt", "addSvc", "addDl", "addVsc", "addHvdc", "addLine", "add2wt", "add3wt", "addRtc", "addPtc", "addLimits", "changeLimits", "addReactive", "addAlias", "setProp", "addExt"};
const char* const REMOVE[] = {"removeConnectable", "removeConnectable", "removeConnectable", "removeHvdc", "removeVl", "removeSubstation", "removeBus", "removeAll", "removeSwitch", "removeSwitch", "removeIc", "removeTc", "removeExt", "removeAlias"};
const char* const STATE[] = {"set", "set", "set", "setOpen", "connect", "setConnectableBus", "busV"};
const char* const TOPO[] = {"setOpen", "setOpen", "connect", "connect", "setConnectableBus", "query", "query"};
const char* const VARIANT[] = {"clone", "clone", "removeVariant", "setWorking", "setWorking"};
template <size_t N> const char* pick(Rng& r, const char* const (&a)[N]) { return a[r.below(N)]; }

}  // namespace
const char* const EXT_OPS[16] = {"addXExt", "addXExt", "addXExt", "addXExt", "measure", "measure", "measure", "removeXExt", "addExt", "addExt", "removeExt", "set", "set", "slackReset", "slackReset", "slackReset"};
void genOps(Plan& p, Rng& r, size_t n, const Mix& m) {
    int tot = m.create + m.remove + m.state + m.topo + m.variant + m.multi;
    for (size_t i = 0; i < n; ++i) {
        int k = (int)r.below(tot);
        Op o;
        if ((k -= m.create) < 0) o.kind = pick(r, CREATE);
        else if ((k -= m.remove) < 0) o.kind = pick(r, REMOVE);
        else if ((k -= m.state) < 0) o.kind = pick(r, STATE);
        else if ((k -= m.topo) < 0) o.kind = pick(r, TOPO);
        else if ((k -= m.variant) < 0) o.kind = pick(r, VARIANT);
        else o.kind = "multithread";
        o.seed = r.next();
        p.ops.push_back(o);
    }
}
void shape(Plan& p, Rng& r, int maxEq) {
    p.cfg["subs"] = 1 + (int)r.below(3);
    p.cfg["vls"] = 1 + (int)r.below(2);
    p.cfg["eq"] = (int)r.below(maxEq + 1);
    p.cfg["nb"] = (int)r.below(3);
    p.cfg["build"] = (int64_t)(r.next() >> 1);
    p.cfg["wild"] = r.chance(70);
}

void buildAndRun(World& w, const Plan& p) {
    Rng br((uint64_t)p.get("build"));
    buildNetwork(w, br, p);
    w.wild = p.get("wild", 1) != 0;
    runOps(w, p);
}
void runOps(World& w, const Plan& p) {
    int k = 0;
    for (const Op& op : p.ops) {
        g_where = fmt("operation %d (%s)", k++, op.kind.c_str());
        Effect e = execOp(w, op);
        simrt::hash_event(fnv(e.what + (e.threw ? "!" + e.error : "")));
        if (!e.noop) count(e.threw ? "op.refused" : "op.done");
    }
    g_where.clear();
    if (w.working.empty()) {
        simrt::Sut s;
        w.working = VariantManager::getInitialVariantId();
        w.n().getVariantManager().setWorkingVariant(w.working);
    }
}
namespace {
// operations that are only refused when an argument is invalid
const std::set<std::string> VALID = {"addSubstation", "addVl", "addBus", "addBbs", "addSwitch", "addIc", "addLoad", "addGen", "addBat", "addShunt", "addSvc", "addDl", "addVsc", "addHvdc",
    "addLine", "add2wt", "add3wt", "addRtc", "addPtc", "addLimits", "changeLimits", "addReactive", "addAlias", "removeAlias", "setProp", "addXExt", "measure", "flow", "busV", "perturb", "removeTc", "moveNet"};
void runHist(const Plan& p) {
    int oracles = (int)p.get("oracles");
    g_strictCurrent = p.get("strictI") != 0;
    World w;
    Rng br((uint64_t)p.get("build"));
    buildNetwork(w, br, p);
    w.wild = p.get("wild", 1) != 0;
    w.bbsOcc = p.get("bbsOcc") != 0;
    Snap before;
    if (oracles & O_FRAME) { simrt::Sut s; before = snapshot(w.n()); }
    int every = (int)p.get("every", 1), k = 0;
    for (const Op& op : p.ops) {
        std::string wasWorking = w.working;
        g_where = fmt("operation %d (%s)", k, op.kind.c_str());
        Effect e = execOp(w, op);
        g_where = fmt("after operation %d (%s)%s", k, e.what.c_str(), e.threw ? (" which was refused (" + e.error + ")").c_str() : "");
        ++k;
        simrt::hash_event(fnv(e.what + (e.threw ? "!" + e.error : "")));
        if (e.noop) continue;
        count(e.threw ? "op.refused" : "op.done");
        count((std::string("op.") + op.kind + (e.threw ? ".refused" : "")).c_str());
        if ((oracles & O_PSY) && e.threw && !w.wild && !w.doubt && VALID.count(op.kind)) fail("valid-refused", "%s has valid arguments and was refused: %s", e.what.c_str(), e.error.c_str());
        bool known = op.kind == "addXExt" && e.error == "m_pointer is null";   // what the repository's tests expect of a remote control without a terminal
        if ((oracles & O_PSY) && e.threw && !e.isPowsybl && !known) fail("exception-type", "the exception is not a PowsyblException: %s", e.error.c_str());
        bool last = k == (int)p.ops.size();
        simrt::Sut s;
        if (oracles & O_VAR) checkVariants(w);
        if (oracles & O_FRAME) {
            Snap after = snapshot(w.n());
            if (w.working.empty()) w.working = w.n().getVariantManager().getWorkingVariantId();
            checkFrame(w, before, after, e);
            before.swap(after);
        }
        if (e.threw && w.working != wasWorking && !wasWorking.empty() && (oracles & O_FRAME)) fail("working-variant", "a refused operation changed the working variant");
        bool doIt = last || k % every == 0;
        if (!doIt) continue;
        if (w.working.empty() && (oracles & (O_INV | O_TOPO | O_COMP | O_REG | O_REF | O_EXT | O_NAV | O_DER))) { w.n().getVariantManager().setWorkingVariant(VariantManager::getInitialVariantId()); w.working = VariantManager::getInitialVariantId(); }
        if (oracles & O_REG) checkRegistry(w, w.n());
        if (oracles & O_REF) checkReferences(w.n());
        if (oracles & O_EXT) checkExtensions(w.n());
        if (oracles & O_INV) withEveryVariant(w, checkInvariants);
        if (oracles & O_TOPO) withEveryVariant(w, topoBoth);
        if (oracles & O_COMP) withEveryVariant(w, checkComponents);
        if (oracles & O_NAV) { Rng some(fnv(op.kind) + op.seed); withEveryVariant(w, [&](Network& n) { checkNavigation(n, last ? nullptr : &some); }); }
        if (oracles & O_DER) withEveryVariant(w, [](Network& n) { checkDerived(n); });
    }
    g_where.clear();
    {
        simrt::Sut s;
        w.net.reset();
    }
    if (SimExt::alive || PlainExt::alive) fail("extension-lifetime", "%d extensions are still alive after the destruction of their network", SimExt::alive + PlainExt::alive);
    count("histories");
}

// C03: the variants of a network behave like independent copies, whatever happened before
void genC03(Plan& p, Rng& r) {
    shape(p, r, 14);
    p.cfg["oracles"] = O_FRAME | O_VAR;
    genOps(p, r, 10 + r.below(40), Mix{6, 3, 30, 6, 40, 2});
    for (auto& o : p.ops) { if (r.chance(5)) o.kind = pick(r, EXT_OPS); else if (r.chance(8)) o.kind = "perturb"; }
    if (r.chance(50)) p.ops[0].kind = "equip";
}
RegCheck c03("C03", genC03, runHist);
// C06: topology views agree with a recomputation, in every variant, after any history
void genC06(Plan& p, Rng& r) {
    shape(p, r, 25);
    p.cfg["oracles"] = O_TOPO | O_NAV;
    p.cfg["every"] = 1 + (int)r.below(3);
    genOps(p, r, 10 + r.below(30), Mix{20, 12, 4, 50, 10, 1});
    if (r.chance(70)) p.ops[r.below(std::min<size_t>(4, p.ops.size()))].kind = "busVAll";
    for (auto& o : p.ops) if (r.chance(4)) o.kind = "busVAll";
}
RegCheck c06("C06", genC06, runHist);
void genC07(Plan& p, Rng& r) {
    shape(p, r, 30);
    p.cfg["oracles"] = O_COMP;
    p.cfg["every"] = 1 + (int)r.below(3);
    genOps(p, r, 10 + r.below(30), Mix{20, 12, 3, 50, 10, 1});
}
RegCheck c07("C07", genC07, runHist);
void genC09(Plan& p, Rng& r) {
    shape(p, r, 15);
    p.cfg["oracles"] = O_REG | O_REF;
    p.cfg["every"] = 1 + (int)r.below(4);
    genOps(p, r, 10 + r.below(30), Mix{60, 25, 4, 4, 6, 1});
}
RegCheck c09("C09", genC09, runHist);
const char* const RARE[] = {"addAlias", "addXExt", "addXExt", "measure", "measure", "addRtc", "addPtc", "addLimits", "changeLimits", "addReactive", "addHvdc", "addLine", "set", "set"};
void genC10(Plan& p, Rng& r) {
    shape(p, r, 10);
    p.cfg["wild"] = r.chance(70);
    p.cfg["oracles"] = O_FRAME | O_REG | O_INV | O_PSY;
    p.cfg["every"] = 1 + (int)r.below(6);
    genOps(p, r, 8 + r.below(24), Mix{50, 10, 40, 5, 6, 1});
    bool wild = p.get("wild") != 0;
    for (auto& o : p.ops) { if (r.chance(15)) o.kind = wild ? "abuse" : pick(r, EXT_OPS); else if (r.chance(20)) o.kind = pick(r, RARE); }
    if (r.chance(30)) p.ops[0].kind = "equip";
}
RegCheck c10("C10", genC10, runHist);
void genC11(Plan& p, Rng& r) {
    shape(p, r, 25);
    p.cfg["oracles"] = O_FRAME | O_REG | O_REF | O_TOPO;
    p.cfg["every"] = 1 + (int)r.below(6);
    genOps(p, r, 8 + r.below(24), Mix{20, 50, 12, 14, 6, 1});
}
RegCheck c11("C11", genC11, runHist);
// C16: moving the network object; everything is checked
void genC16(Plan& p, Rng& r) {
    shape(p, r, 22);
    p.cfg["oracles"] = O_FRAME | O_REG | O_REF | O_TOPO | O_COMP | O_EXT | O_VAR;
    p.cfg["every"] = 1 + (int)r.below(5);
    genOps(p, r, 8 + r.below(22), Mix{20, 12, 20, 20, 14, 2});
    size_t n = 1 + r.below(4);
    for (size_t i = 0; i < n; ++i) p.ops[r.below(p.ops.size())].kind = "moveNet";
    for (auto& o : p.ops) if (o.kind != "moveNet" && r.chance(8)) o.kind = pick(r, EXT_OPS);
}
RegCheck c16("C16", genC16, runHist);
// C19: extensions
void genC19(Plan& p, Rng& r) {
    shape(p, r, 25);
    p.cfg["oracles"] = O_FRAME | O_EXT | O_REF;
    p.cfg["every"] = 1 + (int)r.below(4);
    genOps(p, r, 10 + r.below(30), Mix{8, 25, 10, 2, 12, 1});
    for (auto& o : p.ops) if (r.chance(60)) o.kind = pick(r, EXT_OPS);
    if (r.chance(25)) p.ops[r.below(p.ops.size())].kind = "moveNet";
}
RegCheck c19("C19", genC19, runHist);
// C26: what is computed from the state follows the state, in every variant
const char* const DERIVED[] = {"flow", "flow", "addLimits", "addLimits", "changeLimits", "addReactive", "equip", "set", "set", "busV", "perturb", "addRtc", "addPtc"};
void genC26(Plan& p, Rng& r) {
    shape(p, r, 25);
    p.cfg["oracles"] = O_DER;
    p.cfg["every"] = 1 + (int)r.below(4);
    genOps(p, r, 8 + r.below(24), Mix{20, 10, 25, 25, 12, 1});
    for (auto& o : p.ops) if (r.chance(55)) o.kind = pick(r, DERIVED);
    if (r.chance(60)) p.ops[0].kind = "equip";
    p.ops[p.ops.size() > 2 ? 1 + r.below(p.ops.size() - 1) : 0].kind = "flow";
}
RegCheck c26("C26", genC26, runHist);
}  // namespace
