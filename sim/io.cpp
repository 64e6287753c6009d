// Reading and writing networks with streams, files and memory under the simulator: C12 (round trip).
#include <powsybl/iidm/Branch.hpp>
#include <powsybl/iidm/Bus.hpp>
#include <powsybl/iidm/BusbarSection.hpp>
#include <powsybl/iidm/Substation.hpp>
#include <powsybl/iidm/Switch.hpp>
#include <powsybl/iidm/ThreeWindingsTransformer.hpp>
#include <powsybl/iidm/VoltageLevel.hpp>

#include <powsybl/iidm/extensions/iidm/DiscreteMeasurements.hpp>
#include <powsybl/iidm/extensions/iidm/Measurements.hpp>

#include "ext.h"
#include "hist.h"
#include "io.h"
#include <powsybl/AssertionError.hpp>
#include "xmlfault.h"
#include <powsybl/iidm/converter/SimpleAnonymizer.hpp>
using namespace powsybl::iidm;
namespace xi = powsybl::iidm::extensions::iidm;

ExportOptions optionsOf(const Plan& p) {
    static const TopologyLevel lv[] = {TopologyLevel::NODE_BREAKER, TopologyLevel::BUS_BREAKER, TopologyLevel::BUS_BRANCH};
    static const char* const vs[] = {"", "1.0", "1.1", "1.2", "1.3", "1.4", "1.5"};
    ExportOptions o;
    o.setIndent(p.get("indent") != 0);
    o.setTopologyLevel(lv[p.get("level")]);
    o.setVersion(vs[p.get("version")]);
    o.setWithBranchSV(p.get("branchSv", 1) != 0);
    o.setAnonymized(p.get("anonymized") != 0);
    o.setIidmVersionIncompatibilityBehavior(p.get("lenient") ? ExportOptions::IidmVersionIncompatibilityBehavior::LOG_ERROR : ExportOptions::IidmVersionIncompatibilityBehavior::THROW_EXCEPTION);
    std::set<std::string> ext;
    Rng r((uint64_t)p.get("extSel"));
    for (auto& s : serializable()) if (!p.get("someExt") || r.chance(60)) ext.insert(s);
    if (ext.empty()) ext.insert("loadDetail");
    o.setExtensions(ext);
    return o;
}
void genOptions(Plan& p, Rng& r) {
    p.cfg["indent"] = r.chance(50);
    p.cfg["level"] = r.chance(55) ? 0 : (int)r.below(3);
    p.cfg["version"] = r.chance(65) ? 0 : (int)r.below(7);
    p.cfg["branchSv"] = r.chance(85);
    p.cfg["lenient"] = r.chance(60);
    p.cfg["someExt"] = r.chance(25);
    p.cfg["extSel"] = (int64_t)(r.next() >> 1);
    p.cfg["odd"] = r.chance(30);
}
void checkNetwork(Network& n, const char* what) {
    std::string where = g_where;
    g_where = what;
    World w;
    w.shared = &n;
    for (Identifiable& o : n.getIdentifiables()) if (&o != &static_cast<Identifiable&>(n)) w.ids.insert(o.getId());
    for (auto& v : n.getVariantManager().getVariantIds()) w.variants.insert(v);
    w.working = n.getVariantManager().getWorkingVariantId();
    checkRegistry(w, n);
    checkReferences(n);
    checkExtensions(n);
    checkInvariants(n);
    checkTopology(n, true, true);
    checkComponents(n);
    g_where = where;
}

namespace {
// The values a document in the current version with full topology carries.
Snap carried(Network& n, const Snap& in, const ExportOptions& o) {
    Snap out;
    std::set<std::string> branches;
    for (Identifiable& i : n.getIdentifiables()) if (dynamic_cast<Branch*>(&i) || dynamic_cast<ThreeWindingsTransformer*>(&i)) branches.insert(i.getId());
    for (VoltageLevel& l : n.getVoltageLevels()) for (Bus& b : l.getBusView().getBuses()) {   // the values of a bus belong to the bus
        std::string t;
        for (Terminal& m : b.getConnectedTerminals()) if (t.empty() || termName(m) < t) t = termName(m);
        out["bus of " + t] = fmt("%.17g %.17g", b.getV(), b.getAngle());
    }
    for (auto& k : in) {
        std::string a = k.first.substr(k.first.rfind('|') + 1), id = k.first.substr(0, k.first.rfind('|')), v = k.second;
        auto has = [&](const std::string& e) { return o.withExtension(e) && serializable().count(e); };
        if (a == "exts") {      // an empty list of measurements is not written
            std::string t;
            std::istringstream l(v);
            for (std::string e; std::getline(l, e, ';');) {
                if (!has(e)) continue;
                if (e == "slackTerminal" && in.at(id + "|slack.t") == "-") continue;
                if ((e == "measurements" || e == "discreteMeasurements") && in.at(id + "|x." + e + ".list").empty()) continue;
                t += e + ";";
            }
            v = t;
        }
        if (a.compare(0, 2, "x.") == 0) {
            std::string e = a.substr(2, a.find('.', 2) - 2);
            if (!has(e)) continue;
            if ((e == "measurements" || e == "discreteMeasurements") && v.empty()) continue;
        }
        if (a.compare(0, 6, "simExt") == 0 || a.compare(0, 8, "plainExt") == 0) continue;
        if (a == "x.mergedXnode.line1" || a == "x.mergedXnode.line2") continue;    // not in the document: the reader derives them
        if (a.compare(0, 6, "slack.") == 0 && (!has("slackTerminal") || v == "-")) continue;
        if (a.compare(0, 3, "ld.") == 0 && !has("detail")) continue;
        if (a.size() > 3 && a[0] == 't' && (a[2] == '.') && (a.substr(3) == "v" || a.substr(3) == "angle")) continue;
        if (!o.isWithBranchSV() && a.size() > 3 && a[0] == 't' && a[2] == '.' && (a.substr(3) == "p" || a.substr(3) == "q") && branches.count(id)) continue;
        if (k.first == "net|fictitious") continue;
        out[k.first] = v;
    }
    return out;
}
// A bus topology can only express equipments that have a bus they could be connected to.
bool expressible(Network& n, const ExportOptions& o) {
    if (o.getTopologyLevel() == TopologyLevel::NODE_BREAKER) return true;
    for (Terminal* t : terminalsOf(n)) {
        if (t->getVoltageLevel().getTopologyKind() == TopologyKind::BUS_BREAKER && o.getTopologyLevel() != TopologyLevel::BUS_BRANCH) continue;
        if (dynamic_cast<const BusbarSection*>(&t->getConnectable().get())) continue;
        if (o.getTopologyLevel() == TopologyLevel::BUS_BRANCH ? !t->getBusView().getConnectableBus() : !t->getBusBreakerView().getConnectableBus()) return false;
    }
    return true;
}
// Extensions without content have no element in the document.
void clearInexpressible(Network& n) {
    for (Identifiable& i : n.getIdentifiables()) {
        if (auto e = i.findExtension<xi::Measurements>()) if (e.get().getMeasurements().empty()) i.removeExtension<xi::Measurements>();
        if (auto e = i.findExtension<xi::DiscreteMeasurements>()) if (e.get().getDiscreteMeasurements().empty()) i.removeExtension<xi::DiscreteMeasurements>();
    }
}
std::string normal(std::string x, const Plan& p) {     // the case date is the same instant, its offset may be spelled in another way
    // the name space of an extension without anything to write is declared
    for (size_t k = 0; (k = x.find(" xmlns:", k)) != std::string::npos;) x.erase(k, x.find('"', x.find('"', k) + 1) + 1 - k);
    size_t a = x.find("caseDate=\"");
    if (a == std::string::npos) return x;
    size_t b = x.find('"', a + 10);
    if (x[b - 1] == 'Z') x.replace(b - 1, 1, "+00:00");
    // the types of the aliases, by which they are sorted, do not exist before version 1.4
    if (p.get("version")) for (size_t k = 0; (k = x.find("<iidm:alias", k)) != std::string::npos;) {
        std::vector<std::string> t;
        size_t e = k;
        while (x.compare(e, 11, "<iidm:alias") == 0) {
            size_t q = x.find("</iidm:alias>", e);
            if (q == std::string::npos) break;
            t.push_back(x.substr(e, q + 13 - e));
            e = x.find_first_not_of(" \n\t", q + 13);
            if (e == std::string::npos) e = x.size();
        }
        if (t.empty()) break;
        std::sort(t.begin(), t.end());
        std::string all;
        for (auto& l : t) all += l;
        x.replace(k, e - k, all);
        k += all.size();
    }
    // the kind of the switches between the buses of a node/breaker voltage level does not exist in a bus topology
    if (p.get("level")) for (size_t k = 0; (k = x.find(" kind=\"", k)) != std::string::npos;) x.erase(k, x.find('"', k + 7) + 1 - k);
    if (p.get("level")) {      // equipments of a voltage level come bus by bus: another order
        std::vector<std::string> t;
        for (size_t k = 0, e; k < x.size(); k = e) { e = std::min(x.find('<', k + 1), x.size()); t.push_back(x.substr(k, x.find_last_not_of(" \n", e - 1) + 1 - k)); }
        std::sort(t.begin(), t.end());
        x.clear();
        for (auto& l : t) x += l;
    }
    return x;
}
// more of what only extensions, limits and tap changers bring into a file
void richer(Plan& p, Rng& r) {
    static const char* const MORE[] = {"addXExt", "addXExt", "addXExt", "measure", "measure", "measure", "addRtc", "addPtc", "addLimits", "addReactive", "addAlias", "setProp", "set"};
    for (auto& o : p.ops) if (r.chance(15)) o.kind = EXT_OPS[r.below(13)];
    if (!r.chance(40)) return;
    for (size_t n = 1 + r.below(12); n; --n) { Op o; o.kind = MORE[r.below(13)]; o.seed = r.next(); p.ops.push_back(o); }
}
void genC12(Plan& p, Rng& r) {
    shape(p, r, 25);
    genOptions(p, r);
    p.cfg["chunk"] = (int64_t)(r.next() >> 1);
    p.cfg["file"] = r.chance(30);
    if (r.chance(60)) genOps(p, r, 1 + r.below(15), Mix{20, 10, 30, 15, 15, 1});
    richer(p, r);
}
void runC12(const Plan& p) {
    registerSerializers();
    World w;
    w.odd = p.get("odd") != 0;
    buildAndRun(w, p);
    Rng br(p.seed ^ 0x12);
    simrt::Sut s;
    ExportOptions o = optionsOf(p);
    Network& n = w.n();
    n.setCaseDate(stdcxx::DateTime::parse(fmt("20%02d-%02d-%02dT%02d:%02d:%02d%s", (int)br.below(40), 1 + (int)br.below(12), 1 + (int)br.below(28), (int)br.below(24), (int)br.below(60), (int)br.below(60), br.chance(30) ? "Z" : fmt("%c%02d:%02d", br.chance(50) ? '+' : '-', (int)br.below(12), (int)br.below(4) * 15).c_str())));
    n.setForecastDistance((int)br.below(1500));
    if (!expressible(n, o)) { count("c12.not-expressible"); return; }
    clearInexpressible(n);
    Snap before = carried(n, snapshotVariant(n, w.working), o);
    std::string text, text2;
    if (p.get("lenient") && (p.get("version") || p.get("level"))) {     // a lenient export says in the log that the document cannot be read back
        ExportOptions strict = o;
        strict.setIidmVersionIncompatibilityBehavior(ExportOptions::IidmVersionIncompatibilityBehavior::THROW_EXCEPTION);
        try { writeText(n, strict); }
        catch (const powsybl::PowsyblException&) {
            try { writeText(n, o); } catch (const powsybl::PowsyblException&) {}
            count("c12.not-expressible");
            return;
        }
    }
    try { text = writeText(n, o); }
    catch (const powsybl::PowsyblException& e) {
        if (p.get("version") || p.get("level")) { count("c12.not-expressible"); return; }
        fail("export-failed", "the export of a valid network throws: %s", e.what());
    }
    std::unique_ptr<Network> m;
    try {
        Rng cr((uint64_t)p.get("chunk"));
        SimIn in(text, cr);
        std::istream is(&in);
        if (p.get("file")) {     // through files, with interrupted and short system calls
            iofault::reset();
            iofault::State& f = iofault::state();
            f.shortEvery = cr.chance(50) ? 2 + cr.below(4) : 0;
            f.eintrEvery = cr.chance(50) ? 2 + cr.below(4) : 0;
            f.readChunk = cr.chance(50) ? 1 + cr.below(3000) : 0;
            Network::writeXml(boost::filesystem::path("/simfs/net.xiidm"), n, o);
            if (iofault::get("/simfs/net.xiidm") != text) fail("file-differs", "the file is not the document written to a stream: %s", textDiff(text, iofault::get("/simfs/net.xiidm")).c_str());
            m.reset(new Network(Network::readXml(boost::filesystem::path("/simfs/net.xiidm"), ImportOptions())));
            count("c12.files");
            count("fault.short-write", f.firedShort);
            iofault::remove("/simfs/net.xiidm");
            iofault::reset();
        } else m.reset(new Network(Network::readXml("/simfs/none.xiidm", is, ImportOptions())));
    } catch (const std::exception& e) { fail("import-failed", "the document that was just written cannot be read: %s", e.what()); }
    checkNetwork(*m, "the network read back");
    try { text2 = writeText(*m, o); }
    catch (const powsybl::PowsyblException& e) { fail("export-failed", "the network read back cannot be written: %s", e.what()); }
    if (p.get("level") < 2 && normal(text, p) != normal(text2, p)) fail("not-idempotent", "writing the network that was read gives another document: %s", textDiff(normal(text, p), normal(text2, p)).c_str());
    simrt::hash_event(fnv(text));
    if (!p.get("version") && !p.get("level")) {
        std::string d = diff(before, carried(*m, snapshotVariant(*m, VariantManager::getInitialVariantId()), o));
        if (!d.empty()) fail("round-trip", "the network read back differs: %s", d.c_str());
    }
    count("c12.round-trips");
}
RegCheck c12("C12", genC12, runC12);
}  // namespace

std::string textDiff(const std::string& a, const std::string& b) {
    size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
    size_t s = i > 90 ? i - 90 : 0;
    return fmt("at byte %zu: ...%s... / ...%s...", i, a.substr(s, 180).c_str(), b.substr(s, 180).c_str());
}
int SimIn::underflow() {
    simrt::Harness h;
    if (gptr() < egptr()) return traits_type::to_int_type(*gptr());
    if (pos >= limit) {
        reached = true;
        if (end == THROW) throw SimFailure();
        return traits_type::eof();
    }
    size_t n = 1 + r.below(r.chance(30) ? 3 : 5000);
    if (n > limit - pos) n = limit - pos;
    char* b = const_cast<char*>(text.data()) + pos;
    pos += n;
    setg(b, b, b + n);
    return traits_type::to_int_type(*b);
}
std::streamsize SimOut::xsputn(const char* s, std::streamsize n) {
    simrt::Harness h;
    if (failed && recovers) {}      // the device works again: what it is given now arrives, but data are missing
    else if (failed || got.size() + (size_t)n > limit) {
        size_t k = failed ? 0 : limit - got.size();
        got.append(s, k);
        failed = true;
        if (throws) throw SimFailure();
        return (std::streamsize)k;
    }
    got.append(s, (size_t)n);
    return n;
}
int SimOut::overflow(int c) {
    char b = (char)c;
    return traits_type::eq_int_type(c, traits_type::eof()) ? 0 : (xsputn(&b, 1) == 1 ? c : traits_type::eof());
}

// ---- C13: failing destinations -------------------------------------------------------------------
namespace {
bool isFault(const Op& o) { return o.kind.compare(0, 5, "fault") == 0; }
Plan history(const Plan& p) {
    Plan h = p;
    h.ops.clear();
    for (auto& o : p.ops) if (!isFault(o)) h.ops.push_back(o);
    return h;
}
struct Outcome { bool ok = false, powsybl = false, badAlloc = false, device = false, number = false; std::string what; };
template <class F> Outcome attempt(F f) {
    Outcome o;
    try { f(); o.ok = true; }
    catch (const powsybl::PowsyblException& e) { o.powsybl = true; o.what = e.what(); }
    catch (const powsybl::AssertionError& e) { o.powsybl = true; o.what = e.what(); }       // what the library throws for unknown elements and names
    catch (const std::bad_alloc& e) { o.badAlloc = true; o.what = e.what(); }
    catch (const SimFailure& e) { o.device = true; o.what = e.what(); }
    catch (const std::ios_base::failure& e) { o.device = true; o.what = e.what(); }
    catch (const std::invalid_argument& e) { o.number = !strncmp(e.what(), "sto", 3); o.what = e.what(); }      // malformed number
    catch (const std::out_of_range& e) { o.number = !strncmp(e.what(), "sto", 3); o.what = e.what(); }
    catch (const std::exception& e) { o.what = e.what(); }
    return o;
}
void checkLeaks(uint64_t serial, const char* what) {
    simrt::Harness h;
    char d[200] = "";
    size_t k = simrt::find_leaks(d, sizeof d, serial);
    if (k) fail("leak", "%s leaks %zu blocks (%s)", what, k, d);
}
void genC13(Plan& p, Rng& r) {
    shape(p, r, 14);
    genOptions(p, r);
    p.cfg["version"] = 0;
    p.cfg["level"] = 0;
    p.cfg["lenient"] = 0;
    p.cfg["anonymized"] = r.chance(40);
    if (r.chance(40)) genOps(p, r, 1 + r.below(8), Mix{20, 10, 30, 15, 15, 1});
    richer(p, r);
    size_t n = 2 + r.below(5);
    static const char* const K[] = {"faultStream", "faultStream", "faultFile", "faultFile", "faultMapping", "faultAlloc", "faultXmlAlloc", "faultXmlCall"};
    for (size_t i = 0; i < n; ++i) { Op o; o.kind = K[r.below(8)]; o.seed = r.next(); p.ops.push_back(o); }
}
const char* const XML = "/simfs/out.xiidm";
const char* const CSV = "/simfs/out.csv";
void cleanFiles() { iofault::reset(); iofault::remove(XML); iofault::remove(CSV); }
size_t position(Rng& r, size_t n) {      // where something happens: also at the first and last bytes and around the sizes of buffers
    size_t k;
    switch (r.below(6)) {
        case 0: k = r.below(3); break;
        case 1: k = n - std::min(n, (size_t)r.below(4)); break;
        case 2: k = 4000 * (1 + r.below(4)) + r.below(7) - 3; break;
        case 3: k = n - std::min(n, (size_t)r.below(4200)); break;
        default: k = r.below(n + 1);
    }
    return std::min(k, n);
}
void runC13(const Plan& p) {
    registerSerializers();
    World w;
    w.odd = p.get("odd") != 0;
    buildAndRun(w, history(p));
    xmlfault::install();
    simrt::Sut s;
    Network& n = w.n();
    ExportOptions o = optionsOf(p), plain = o;
    bool anon = o.isAnonymized();
    // what a complete export gives
    cleanFiles();
    std::string text, csv;
    Outcome ref = attempt([&]() { text = writeText(n, o, XML); });
    if (!ref.ok) fail("export-failed", "the export of a valid network throws: %s", ref.what.c_str());
    if (anon) csv = iofault::get(CSV);
    Snap before = snapshot(n);
    for (const Op& op : p.ops) {
        if (!isFault(op)) continue;
        Rng r(op.seed);
        cleanFiles();
        std::string what;
        Outcome x;
        bool complete = true;
        uint64_t serial = simrt::alloc_serial();
        iofault::State& f = iofault::state();
        if (op.kind == "faultStream") {
            SimOut out(position(r, text.size() - 1));
            out.throws = r.chance(40);
            out.recovers = r.chance(30);
            std::ostream os(&out);
            int pre = (int)r.below(12);
            if (pre == 0) os.setstate(std::ios_base::badbit);
            if (pre == 1) os.setstate(std::ios_base::failbit);
            if (r.chance(35)) { try { os.exceptions(r.chance(50) ? std::ios_base::badbit : std::ios_base::badbit | std::ios_base::failbit); } catch (const std::ios_base::failure&) {} }
            what = fmt("a stream that %s after %zu of %zu bytes%s%s", out.throws ? "throws" : "fails", out.limit, text.size(), out.recovers ? " and then recovers" : "", pre < 2 ? " and had failed before" : "");
            x = attempt([&]() { Network::writeXml(XML, os, n, o); });
            complete = out.got == text && (!anon || iofault::get(CSV) == csv);
            count("fault.stream");
            if (out.failed) count("fault.stream-fired");
        } else if (op.kind == "faultFile" || op.kind == "faultMapping") {
            size_t total = text.size() + csv.size();
            bool map = op.kind == "faultMapping" && anon;
            int kind = (int)r.below(4);
            if (kind == 0) { f.failOpen = map ? 2 : 1; what = fmt("opening file %d fails", (int)f.failOpen); }
            else if (kind == 1) { f.failClose = 1 + (anon ? (int)r.below(2) : 0); what = fmt("closing file %d fails", (int)f.failClose); }
            else { f.writeBudget = (int64_t)(map ? text.size() + position(r, csv.size() - 1) : position(r, total - 1)); f.writeErrno = kind == 2 ? 28 : 5; what = fmt("the disk fails after %ld of %zu bytes", (long)f.writeBudget, total); }
            if (r.chance(30)) f.shortEvery = 2 + r.below(3);
            if (r.chance(30)) f.eintrEvery = 2 + r.below(3);
            x = attempt([&]() { Network::writeXml(boost::filesystem::path(XML), n, o); });
            complete = iofault::get(XML) == text && (!anon || iofault::get(CSV) == csv) && !f.firedClose;
            count("fault.file");
            count("fault.open", f.firedOpen);
            count("fault.close", f.firedClose);
            count("fault.disk-full-or-error", f.firedWrite);
        } else if (op.kind == "faultXmlAlloc" || op.kind == "faultXmlCall") {
            bool alloc = op.kind == "faultXmlAlloc";
            xmlfault::State& y = xmlfault::state();
            xmlfault::reset();
            { std::ostringstream dry; Network::writeXml(XML, dry, n, o); }
            uint64_t total = (uint64_t)(alloc ? y.allocs : y.calls);
            if (total == 0) continue;
            int64_t k = 1 + (int64_t)(r.chance(20) ? r.below(std::min<uint64_t>(30, total)) : r.chance(20) ? total - 1 - r.below(std::min<uint64_t>(5, total)) : r.below(total));
            bool sticky = r.chance(20);
            cleanFiles();
            what = fmt("%s %ld of %lu of the XML library fails", alloc ? "allocation" : "call", (long)k, (unsigned long)total);
            std::ostringstream os;
            xmlfault::reset();
            (alloc ? y.allocSticky : y.callSticky) = sticky;
            (alloc ? y.allocLeft : y.callLeft) = k;
            x = attempt([&]() { Network::writeXml(XML, os, n, o); });
            if (y.allocFired) count("fault.xml-alloc");
            if (y.callFired) count("fault.xml-call");
            // what the XML library loses without telling is not the exporter's
            if (y.reported) count("fault.xml-reported");
            else if (os.str() != text) count("fault.xml-silent");
            complete = !y.reported;
            if (y.reported) what += fmt(" (%s reported it)", y.last);
            xmlfault::reset();
        } else {
            std::ostringstream os;
            simrt::alloc_count_reset();
            { std::ostringstream dry; Network::writeXml(XML, dry, n, o); }
            int64_t total = simrt::alloc_count();
            cleanFiles();
            int64_t k = 1 + (int64_t)r.below((uint64_t)total);
            what = fmt("allocation %ld of %ld fails", (long)k, (long)total);
            simrt::arm_alloc(k, r.chance(20));
            x = attempt([&]() { Network::writeXml(XML, os, n, o); });
            bool fired = simrt::alloc_fault_fired();
            simrt::arm_alloc(-1, false);
            complete = os.str() == text && (!anon || iofault::get(CSV) == csv);
            if (fired) count("fault.alloc");
        }
        std::string where = g_where;
        g_where = "export where " + what;
        if (x.ok && !complete) fail("loss-not-reported", "the export returned normally but the destination is not complete");
        if (!x.ok && !x.powsybl && !x.badAlloc && !x.device) fail("exception-type", "the export throws an unrelated exception: %s", x.what.c_str());
        std::string d = diff(before, snapshot(n));
        if (!d.empty()) fail("network-changed", "a failed export changed the network: %s", d.c_str());
        if (op.kind != "faultAlloc" && op.kind != "faultXmlAlloc" && op.kind != "faultXmlCall") checkLeaks(serial, "the failed export");     // libxml2 leaks when its allocations fail, and libstdc++ itself leaks when the creation of a locale facet fails
        cleanFiles();
        std::string again;
        Outcome y = attempt([&]() { again = writeText(n, o, XML); });
        if (!y.ok) fail("unusable", "the next export fails: %s", y.what.c_str());
        if (again != text) fail("unusable", "the next export gives another document: %s", textDiff(text, again).c_str());
        if (anon && iofault::get(CSV) != csv) fail("unusable", "the next export writes another mapping");
        g_where = where;
        simrt::hash_event(fnv(what + x.what));
        count(x.ok ? "c13.completed" : "c13.reported");
    }
    cleanFiles();
}
RegCheck c13("C13", genC13, runC13);
}  // namespace

// ---- C14: damaged documents and failing sources --------------------------------------------------
namespace {
const char* const IN = "/simfs/in.xiidm";
const char* const INCSV = "/simfs/in.csv";
void genC14(Plan& p, Rng& r) {
    shape(p, r, 12);
    genOptions(p, r);
    p.cfg["lenient"] = 0;
    p.cfg["anonymized"] = r.chance(25);
    p.cfg["version"] = r.chance(30) ? 1 + (int)r.below(4) : 0;
    if (r.chance(40)) genOps(p, r, 1 + r.below(8), Mix{20, 10, 30, 15, 15, 1});
    richer(p, r);
    size_t n = 2 + r.below(6);
    static const char* const K[] = {"faultTruncate", "faultTruncate", "faultDevice", "faultFile", "faultBytes", "faultBytes", "faultToken", "faultToken", "faultToken", "faultToken", "faultCsv", "faultAlloc", "faultXmlCall"};
    for (size_t i = 0; i < n; ++i) { Op o; o.kind = K[r.below(13)]; o.seed = r.next(); p.ops.push_back(o); }
}
std::string damageBytes(std::string t, Rng& r, std::string& what) {
    int k = 1 + (int)r.below(r.chance(60) ? 1 : 5);
    for (int i = 0; i < k && !t.empty(); ++i) {
        size_t at = r.below(t.size());
        if (r.chance(60)) {      // where structure is
            size_t q = t.find_first_of("<>\"=/ &", at);
            if (q != std::string::npos) at = q;
        }
        static const char C[] = "<>\"'=/& \n\0;0aE.-\xc3\xff:";
        switch (r.below(6)) {
            case 0: t[at] = (char)(t[at] ^ (1 << r.below(8))); what += fmt(" flip@%zu", at); break;
            case 1: t[at] = C[r.below(sizeof C - 1)]; what += fmt(" set@%zu", at); break;
            case 2: t.erase(at, 1 + r.below(r.chance(50) ? 1 : 40)); what += fmt(" del@%zu", at); break;
            case 3: t.insert(at, 1, C[r.below(sizeof C - 1)]); what += fmt(" ins@%zu", at); break;
            case 4: { size_t n = 1 + r.below(200); std::string c = t.substr(r.below(t.size()), n); t.insert(at, c); what += fmt(" copy@%zu+%zu", at, c.size()); break; }
            default: { size_t n = 1 + r.below(600); for (size_t j = at; j < std::min(t.size(), at + n); ++j) t[j] = 0; what += fmt(" zero@%zu+%zu", at, n); }
        }
    }
    return t;
}
struct Tag { size_t b, e; };     // [b, e) of "<...>"
std::vector<Tag> tagsOf(const std::string& t) {
    std::vector<Tag> v;
    for (size_t i = t.find('<'); i != std::string::npos; i = t.find('<', i + 1)) { size_t e = t.find('>', i); if (e == std::string::npos) break; v.push_back({i, e + 1}); }
    return v;
}
std::vector<Tag> valuesOf(const std::string& t, Tag g) {      // [b, e) of the text between the quotes
    std::vector<Tag> v;
    for (size_t i = t.find('"', g.b); i < g.e; i = t.find('"', i + 1)) { size_t e = t.find('"', i + 1); if (e >= g.e) break; v.push_back({i + 1, e}); i = e; }
    return v;
}
size_t elementEnd(const std::string& t, Tag g) {
    if (t[g.e - 2] == '/' || t[g.b + 1] == '?' || t[g.b + 1] == '!') return g.e;
    int depth = 0;
    for (Tag x : tagsOf(t)) {
        if (x.b < g.b) continue;
        if (t[x.b + 1] == '/') { if (--depth == 0) return x.e; }
        else if (t[x.e - 2] != '/') ++depth;
    }
    return g.e;
}
// the document stays well-formed (mostly), but says something else
std::string damageToken(std::string t, Rng& r, std::string& what) {
    int k = 1 + (int)r.below(r.chance(70) ? 1 : 3);
    for (int i = 0; i < k; ++i) {
        std::vector<Tag> tags = tagsOf(t);
        if (tags.size() < 4) return t;
        Tag g = tags[1 + r.below(tags.size() - 1)];
        std::vector<Tag> v = valuesOf(t, g);
        int kind = (int)r.below(12);
        if (v.empty() && kind < 8) kind = 8 + (int)r.below(4);
        std::string head = t.substr(g.b, std::min<size_t>(g.e - g.b, 60));
        if (kind < 6) {       // another value
            Tag a = v[r.below(v.size())];
            std::string old = t.substr(a.b, a.e - a.b), now;
            static const char* const V[] = {"", "-1", "0", "1", "2", "NaN", "-NaN", "INF", "-INF", "abc", "true", "false", "1e400", "4.9e-324", "-0", "99999999999", "18446744073709551615", "-9223372036854775808", "2147483648", " 1", "1 ", "0x10", "1.5.2", "é", "&lt;", "&#10;", "ONE", "TWO", "THREE", "BUS_BREAKER", "NODE_BREAKER", "FR", "3000"};
            switch (r.below(4)) {
                case 0: now = V[r.below(sizeof V / sizeof *V)]; break;
                case 1: {     // a value used elsewhere in the document
                    Tag h = tags[r.below(tags.size())];
                    std::vector<Tag> u = valuesOf(t, h);
                    if (u.empty()) { now = "1"; break; }
                    Tag c = u[r.below(u.size())];
                    now = t.substr(c.b, c.e - c.b);
                    break;
                }
                case 2: {     // the value of the same attribute elsewhere
                    size_t nb = t.rfind(' ', a.b);
                    std::string name = t.substr(nb, a.b - nb);
                    std::vector<size_t> at;
                    for (size_t q = t.find(name); q != std::string::npos; q = t.find(name, q + 1)) at.push_back(q);
                    size_t q = at[r.below(at.size())] + name.size();
                    now = t.substr(q, t.find('"', q) - q);
                    break;
                }
                default: {
                    char* end;
                    double d = strtod(old.c_str(), &end);
                    if (!old.empty() && !*end) { static const double F[] = {-1, 1, 2, -2, 10, 100}; now = fmt("%g", r.chance(50) ? d + F[r.below(6)] : -d); }
                    else now = old + "x";
                }
            }
            what += fmt(" [%s: '%s' becomes '%s']", head.c_str(), old.c_str(), now.c_str());
            t.replace(a.b, a.e - a.b, now);
        } else if (kind == 6) {   // an attribute disappears
            Tag a = v[r.below(v.size())];
            size_t nb = t.rfind(' ', a.b);
            what += fmt(" [%s: without %s]", head.c_str(), t.substr(nb, a.b - nb).c_str());
            t.erase(nb, a.e + 1 - nb);
        } else if (kind == 7) {   // an attribute is renamed
            Tag a = v[r.below(v.size())];
            t.insert(t.rfind(' ', a.b) + 1, "x");
            what += fmt(" [%s: attribute renamed]", head.c_str());
        } else {
            size_t e = elementEnd(t, g);
            std::string el = t.substr(g.b, e - g.b);
            if (kind == 8) { t.erase(g.b, e - g.b); what += fmt(" [%s: removed]", head.c_str()); }
            else if (kind == 9) { t.insert(e, el); what += fmt(" [%s: twice]", head.c_str()); }
            else if (kind == 10) {   // elsewhere
                t.erase(g.b, e - g.b);
                std::vector<Tag> ts = tagsOf(t);
                if (ts.empty()) return t;
                Tag d = ts[r.below(ts.size())];
                t.insert(d.e, el);
                what += fmt(" [%s: moved after %s]", head.c_str(), t.substr(d.b, std::min<size_t>(d.e - d.b, 60)).c_str());
            } else {              // another name
                Tag h = tags[r.below(tags.size())];
                auto name = [&](Tag x) { size_t b = x.b + (t[x.b + 1] == '/' ? 2 : 1); return Tag{b, t.find_first_of(" />", b)}; };
                Tag a = name(g), b = name(h);
                std::string from = t.substr(a.b, a.e - a.b), to = t.substr(b.b, b.e - b.b);
                if (!el.empty() && e > g.e) { size_t c = t.rfind(from, e); if (c != std::string::npos && c > g.e) t.replace(c, from.size(), to); }
                t.replace(a.b, a.e - a.b, to);
                what += fmt(" [%s: becomes %s]", head.c_str(), to.c_str());
            }
        }
    }
    return t;
}
// nodes are numbered densely: a number that is big, but that memory can still hold, is legitimate and only slow
bool hugeNode(const std::string& t) {
    for (size_t i = t.find(" node"); i != std::string::npos; i = t.find(" node", i + 1)) {
        size_t e = t.find('"', i);
        if (e == std::string::npos) break;
        size_t f = t.find('"', e + 1);
        for (size_t q = e; q != std::string::npos && q < f; q = t.find(',', q + 1)) {
            double v = strtod(t.c_str() + q + 1, nullptr);
            if (v >= 10000 && v < 1e10) return true;
        }
    }
    return false;
}
void runC14(const Plan& p) {
    registerSerializers();
    xmlfault::install();
    World w;
    w.odd = p.get("odd") != 0;
    buildAndRun(w, history(p));
    simrt::Sut s;
    ExportOptions o = optionsOf(p);
    bool anon = o.isAnonymized();
    std::string text, csv;
    {
        Network& n = w.n();
        cleanFiles();
        clearInexpressible(n);
        if (!expressible(n, o)) { count("c14.not-expressible"); return; }
        Outcome ref = attempt([&]() { text = writeText(n, o, XML); });
        if (!ref.ok) { count("c14.not-expressible"); return; }
        if (anon) csv = iofault::get(CSV);
        cleanFiles();
    }
    w.net.reset();
    // a first import, so that what the library builds once does not count as leaked
    iofault::remove(INCSV);
    if (anon) iofault::put(INCSV, csv);
    Outcome whole = attempt([&]() { std::istringstream is(text); Network::readXml(IN, is, ImportOptions()); });
    if (!whole.ok) { count("c14.not-readable"); return; }
    const size_t root = text.rfind('>') + 1;
    for (const Op& op : p.ops) {
        if (!isFault(op)) continue;
        Rng r(op.seed);
        iofault::reset();
        iofault::State& f = iofault::state();
        std::string what, doc = text, map = csv;
        uint64_t serial = simrt::alloc_serial();
        Outcome x;
        std::unique_ptr<Network> m;
        bool mustThrow = false, mayDevice = false, alloc = op.kind == "faultAlloc", xmlCall = op.kind == "faultXmlCall";
        int64_t allocAt = -1;
        size_t limit = ~(size_t)0;
        SimIn::End end = SimIn::EOF_;
        bool viaFile = r.chance(25);
        if (op.kind == "faultTruncate") {
            limit = position(r, text.size());
            doc = text.substr(0, limit);
            mustThrow = limit < root;
            what = fmt("ends after %zu of %zu bytes", limit, text.size());
        } else if (op.kind == "faultDevice") {
            viaFile = false;
            limit = position(r, text.size());
            end = SimIn::THROW;
            what = fmt("comes from a device that fails after %zu of %zu bytes", limit, text.size());
        } else if (op.kind == "faultFile") {
            viaFile = true;
            int k = (int)r.below(3);
            if (k == 0) { f.failOpen = anon ? 1 + (int)r.below(2) : 1; mustThrow = true; what = fmt("opening file %d fails", (int)f.failOpen); }
            else { f.readBudget = (int64_t)position(r, text.size() + csv.size()); f.readChunk = 1 + r.below(3000); what = fmt("reads fail after %ld of %zu bytes", (long)f.readBudget, text.size() + csv.size()); }
        } else if (op.kind == "faultBytes") {
            doc = damageBytes(text, r, what);
        } else if (op.kind == "faultToken") {
            doc = damageToken(text, r, what);
        } else if (op.kind == "faultCsv") {
            if (!anon) { map = r.chance(50) ? "a;b\nb;a\n" : "A;\n;B\n\nC;D;E\nF"; what = "an unrelated mapping"; }
            else if (r.chance(50)) { map = csv.substr(0, position(r, csv.size())); what = fmt("a mapping of %zu of %zu bytes", map.size(), csv.size()); }
            else { what = "mapping"; map = damageBytes(csv, r, what); }
        } else if (xmlCall) {
            what = "a call of the XML library fails";
        } else {
            what = "an allocation fails";
        }
        if (hugeNode(doc)) { count("c14.huge-node-skipped"); continue; }
        bool withCsv = anon || op.kind == "faultCsv";
        iofault::remove(INCSV);
        if (withCsv) iofault::put(INCSV, map);
        iofault::put(IN, doc);
        std::string where = g_where;
        g_where = "import of a document: " + what.substr(0, 300);
        simrt::alloc_limit((size_t)48 << 20);
        std::unique_ptr<SimIn> in;
        if (xmlCall) {
            xmlfault::reset();
            { std::istringstream is(doc); Network::readXml(IN, is, ImportOptions()); }
            allocAt = 1 + (int64_t)r.below((uint64_t)xmlfault::state().calls);
            g_where += fmt(" (%ld of %ld)", (long)allocAt, (long)xmlfault::state().calls);
            xmlfault::reset();
        }
        if (alloc) {
            simrt::alloc_count_reset();
            std::istringstream is(doc);
            Network::readXml(IN, is, ImportOptions());
            int64_t total = simrt::alloc_count();
            allocAt = 1 + (int64_t)r.below((uint64_t)total);
            g_where += fmt(" (%ld of %ld)", (long)allocAt, (long)total);
        }
        {
            in.reset(new SimIn(doc, Rng(r.next())));
            in->limit = std::min(limit, doc.size());
            in->end = end;
            std::istream is(in.get());
            if (r.chance(30)) {
                mayDevice = true;
                is.exceptions(r.chance(50) ? std::ios_base::badbit : std::ios_base::badbit | std::ios_base::failbit);
            }
            if (alloc) simrt::arm_alloc(allocAt, r.chance(20));
            if (xmlCall) { xmlfault::state().callSticky = r.chance(20); xmlfault::state().callLeft = allocAt; }
            x = attempt([&]() {
                if (viaFile) m.reset(new Network(Network::readXml(boost::filesystem::path(IN), ImportOptions())));
                else m.reset(new Network(Network::readXml(IN, is, ImportOptions())));
            });
            bool fired = alloc && simrt::alloc_fault_fired();
            simrt::arm_alloc(-1, false);
            if (fired) count("fault.alloc");
            if (xmlfault::state().callFired) { count("fault.xml-call"); mustThrow = true; }
            xmlfault::reset();
        }
        bool refused = simrt::memory_refused();
        simrt::alloc_limit(~(size_t)0);
        count(("fault.damage-" + op.kind.substr(5)).c_str());
        if (op.kind == "faultDevice" && in->reached) { mustThrow = limit < root; count("fault.device-fired"); }
        if (op.kind == "faultFile" && f.firedRead) { count("fault.read-error"); mustThrow = true; }
        if (op.kind == "faultFile" && f.failOpen >= 0 && !f.firedOpen) mustThrow = false;
        if (op.kind == "faultFile" && f.firedRead && f.bytesIn >= root + csv.size()) mustThrow = false;      // nothing was lost
        if (x.ok && mustThrow) fail("damage-not-reported", "the import returned normally although the input ended or failed early");
        if (!x.ok && !x.powsybl && !(x.device && mayDevice) && !(x.badAlloc && (alloc || refused)) && !x.number) fail("exception-type", "the import throws an unrelated exception: %s", x.what.c_str());
        if (x.ok) {
            checkNetwork(*m, "the network read");
            std::string again;
            Outcome y = attempt([&]() { again = writeText(*m, ExportOptions()); });
            if (!y.ok) fail("not-writable", "the network that was read cannot be written: %s", y.what.c_str());
            m.reset();
            count("c14.accepted");
        } else count("c14.rejected");
        if (!alloc) { in.reset(); checkLeaks(serial, "the import"); }
        // the process is still usable
        iofault::reset();
        iofault::remove(INCSV);
        if (anon) iofault::put(INCSV, csv);
        Outcome z = attempt([&]() { std::istringstream is(text); Network::readXml(IN, is, ImportOptions()); });
        if (!z.ok) fail("unusable", "the next import of the undamaged document fails: %s", z.what.c_str());
        simrt::hash_event(fnv(what + x.what));
        g_where = where;
    }
    iofault::remove(IN);
    iofault::remove(INCSV);
}
RegCheck c14("C14", genC14, runC14);
}  // namespace

// ---- C15: anonymised exports ----------------------------------------------------------------------
namespace {
std::string unescape(const std::string& s) {
    std::string o;
    for (size_t i = 0; i < s.size(); ++i) {
        if (s[i] != '&') { o += s[i]; continue; }
        size_t e = s.find(';', i);
        std::string n = s.substr(i + 1, e - i - 1);
        if (n == "amp") o += '&';
        else if (n == "lt") o += '<';
        else if (n == "gt") o += '>';
        else if (n == "quot") o += '"';
        else if (n == "apos") o += '\'';
        else if (!n.empty() && n[0] == '#') {
            unsigned c = (unsigned)strtoul(n.c_str() + (n[1] == 'x' ? 2 : 1), nullptr, n[1] == 'x' ? 16 : 10);
            if (c < 0x80) o += (char)c;
            else if (c < 0x800) { o += (char)(0xC0 | c >> 6); o += (char)(0x80 | (c & 63)); }
            else if (c < 0x10000) { o += (char)(0xE0 | c >> 12); o += (char)(0x80 | ((c >> 6) & 63)); o += (char)(0x80 | (c & 63)); }
            else { o += (char)(0xF0 | c >> 18); o += (char)(0x80 | ((c >> 12) & 63)); o += (char)(0x80 | ((c >> 6) & 63)); o += (char)(0x80 | (c & 63)); }
        }
        i = e;
    }
    return o;
}
// The document as a list of (path of the element, attribute or "text", value).
struct Field { std::string elem, path, attr, value; };
std::vector<Field> fieldsOf(const std::string& t) {
    std::vector<Field> out;
    std::vector<std::string> path;
    size_t i = 0;
    while ((i = t.find('<', i)) != std::string::npos) {
        size_t e = t.find('>', i);
        if (t[i + 1] == '?') { i = e; continue; }
        if (t[i + 1] == '/') { path.pop_back(); i = e; continue; }
        size_t q = t.find_first_of(" />", i + 1);
        std::string name = t.substr(i + 1, q - i - 1);
        path.push_back(name);
        std::string full;
        for (auto& x : path) full += "/" + x;
        out.push_back({name, full, "", ""});
        while (t[q] == ' ') {
            size_t eq = t.find('=', q), b = t.find('"', eq), d = t.find('"', b + 1);
            out.push_back({name, full, t.substr(q + 1, eq - q - 1), unescape(t.substr(b + 1, d - b - 1))});
            q = d + 1;
        }
        if (t[q] == '/') { path.pop_back(); i = q; continue; }
        size_t n = t.find('<', q);
        std::string text = n == std::string::npos ? "" : t.substr(q + 1, n - q - 1);
        if (text.find_first_not_of(" \n") != std::string::npos) out.push_back({name, full, "text", unescape(text)});
        i = q;
    }
    return out;
}
typedef std::map<std::string, std::string> Names;
Names parseMapping(const std::string& csv) {
    Names m;
    std::set<std::string> seen;
    std::istringstream is(csv);
    for (std::string l; std::getline(is, l);) {
        size_t k = l.rfind(';');
        if (k == std::string::npos) fail("mapping-line", "a line of the mapping has no separator: '%s'", l.c_str());
        std::string a = l.substr(0, k), b = l.substr(k + 1);
        if (!m.insert({a, b}).second) fail("mapping-ambiguous", "'%s' has two replacements", a.c_str());
        if (!seen.insert(b).second) fail("mapping-ambiguous", "'%s' replaces two names", b.c_str());
        if (b.empty() || a.empty()) fail("mapping-line", "the mapping has an empty name");
    }
    if (!csv.empty() && csv[csv.size() - 1] != '\n') fail("mapping-line", "the last line of the mapping is not complete");
    return m;
}
// what by design is not anonymised: the network itself, properties, text that extensions carry, names of limits, UCTE node codes
bool exempt(const Field& f) {
    if (f.elem == "iidm:network" || f.elem == "iidm:property" || f.elem == "iidm:temporaryLimit" || f.attr == "ucteXnodeCode" || f.attr == "type") return true;
    if (f.path.find("/iidm:extension/") != std::string::npos && !(f.attr == "id" && f.elem.find("erminal") != std::string::npos)) return true;
    return false;
}
bool isName(const Field& f) {
    static const std::set<std::string> A = {"id", "name", "bus", "bus1", "bus2", "bus3", "connectableBus", "connectableBus1", "connectableBus2", "connectableBus3",
        "voltageLevelId1", "voltageLevelId2", "voltageLevelId3", "tso", "id_1", "id_2", "name_1", "name_2", "converterStation1", "converterStation2"};
    return f.elem == "iidm:alias" ? f.attr == "text" : A.count(f.attr) != 0;
}
void genC15(Plan& p, Rng& r) {
    shape(p, r, 22);
    genOptions(p, r);
    p.cfg["lenient"] = 0;
    p.cfg["anonymized"] = 1;
    p.cfg["odd"] = r.chance(50);
    p.cfg["chunk"] = (int64_t)(r.next() >> 1);
    if (r.chance(60)) genOps(p, r, 1 + r.below(12), Mix{20, 10, 30, 15, 15, 1});
    richer(p, r);
    size_t n = 1 + r.below(3);
    for (size_t i = 0; i < n; ++i) { Op o; o.kind = r.chance(60) ? "faultRound" : "faultMapping"; o.seed = r.next(); p.ops.insert(p.ops.begin() + (long)r.below(p.ops.size() + 1), o); }
}
void anonRound(World& w, const Plan& p, Rng& r) {
    Network& n = w.n();
    ExportOptions o = optionsOf(p), plain = o;
    plain.setAnonymized(false);
    if (!expressible(n, o)) { count("c15.not-expressible"); return; }
    std::string text, anonText, csv, base = fmt("/simfs/a%d", (int)r.below(2)), xml = base + ".xiidm", map = base + ".csv";
    try { text = writeText(n, plain); }
    catch (const powsybl::PowsyblException& e) { count("c15.not-expressible"); return; }
    bool file = r.chance(50);
    // the mapping of an earlier export with the same name may be there
    iofault::reset();
    iofault::State& f = iofault::state();
    if (file) { f.shortEvery = r.chance(50) ? 2 + r.below(4) : 0; f.eintrEvery = r.chance(50) ? 2 + r.below(4) : 0; }
    try {
        if (file) { Network::writeXml(boost::filesystem::path(xml), n, o); anonText = iofault::get(xml); }
        else { std::ostringstream os; Network::writeXml(xml, os, n, o); anonText = os.str(); }
    } catch (const std::exception& e) { fail("export-failed", "the plain export succeeds, the anonymised one throws: %s", e.what()); }
    if (!iofault::exists(map)) fail("no-mapping", "the export wrote no mapping");
    csv = iofault::get(map);
    Names m = parseMapping(csv);
    // the anonymised document is the plain one with every name replaced
    std::set<std::string> secrets;
    for (Identifiable& i : n.getIdentifiables()) {
        if (&i == &static_cast<Identifiable&>(n)) continue;
        secrets.insert(i.getId());
        secrets.insert(i.getNameOrId());
        for (auto& a : i.getAliases()) secrets.insert(a);
        if (auto* s = dynamic_cast<Substation*>(&i)) { secrets.insert(s->getTso()); for (auto& g : s->getGeographicalTags()) secrets.insert(g); }
    }
    secrets.erase("");
    std::vector<Field> a = fieldsOf(text), b = fieldsOf(anonText);
    if (a.size() != b.size()) fail("other-structure", "the anonymised document has %zu fields, the plain one %zu", b.size(), a.size());
    std::set<std::string> used;
    auto replaced = [&](const std::string& s) {
        if (s.empty()) return s;
        auto it = m.find(s);
        if (it == m.end()) fail("not-mapped", "'%s' is not in the mapping", s.c_str());
        used.insert(s);
        return it->second;
    };
    for (size_t i = 0; i < a.size(); ++i) {
        if (a[i].path != b[i].path || a[i].attr != b[i].attr) fail("other-structure", "field %zu is %s %s / %s %s", i, a[i].path.c_str(), a[i].attr.c_str(), b[i].path.c_str(), b[i].attr.c_str());
        std::string expect = a[i].value;
        if (!exempt(a[i])) {
            if (a[i].attr == "geographicalTags") {
                // (a name with a comma is cut in the same way in both)
                expect = b[i].value;
                std::istringstream l(b[i].value);
                for (std::string t; std::getline(l, t, ',');) { bool known = false; for (auto& x : m) if (x.second == t) { known = true; used.insert(x.first); } if (!known) fail("not-anonymised", "the tag '%s' is not a replacement", t.c_str()); }
            } else if (isName(a[i])) expect = replaced(a[i].value);
            else if (a[i].value.size() >= 2 && secrets.count(a[i].value) && b[i].value == a[i].value) fail("not-anonymised", "%s@%s shows '%s'", a[i].path.c_str(), a[i].attr.c_str(), a[i].value.c_str());
        }
        if (b[i].value != expect) fail(isName(a[i]) ? "not-anonymised" : "other-content", "%s@%s of '%s' is '%s', expected '%s'", a[i].path.c_str(), a[i].attr.c_str(), a[i].value.c_str(), b[i].value.c_str(), expect.c_str());
    }
    for (auto& x : m) if (!used.count(x.first)) fail("mapping-extra", "the mapping has '%s' which the document does not use", x.first.c_str());
    // reading restores the network
    std::string ref, back;
    std::unique_ptr<Network> k;
    try {
        ref = writeText(readText(text), plain);
        f.readChunk = r.chance(50) ? 1 + r.below(3000) : 0;
        if (file) k.reset(new Network(Network::readXml(boost::filesystem::path(xml), ImportOptions())));
        else {
            SimIn in(anonText, Rng(r.next()));
            std::istream is(&in);
            k.reset(new Network(Network::readXml(xml, is, ImportOptions())));
        }
    } catch (const std::exception& e) { fail("import-failed", "the anonymised document and its mapping cannot be read: %s", e.what()); }
    checkNetwork(*k, "the network read back");
    try { back = writeText(*k, plain); }
    catch (const std::exception& e) { fail("export-failed", "the network read back cannot be written: %s", e.what()); }
    if (back != ref) fail("not-restored", "the network restored differs from the original: %s", textDiff(ref, back).c_str());
    // and anonymising it again gives the same document
    std::string map2;
    {
        std::ostringstream os;
        Network::writeXml("/simfs/b.xiidm", os, *k, o);
        map2 = iofault::get("/simfs/b.csv");
        iofault::remove("/simfs/b.csv");
        if (!p.get("level") && !(p.get("version") && ref.find("<iidm:alias") != std::string::npos) && parseMapping(map2) != m) fail("not-restored", "anonymising the restored network gives another mapping");
    }
    simrt::hash_event(fnv(anonText + csv));
    count("c15.rounds");
    iofault::reset();
}
// The anonymiser alone, against a map.
void anonMapping(Rng& r) {
    using converter::SimpleAnonymizer;
    SimpleAnonymizer x;
    Names model;
    std::set<std::string> given;
    static const char* const S[] = {"", "A", "B", "AA", "Z", "a", ";", ";;", "A;B", " ", "\t", "\xc3\xa9", "\r", "a\rb", ",", "\"", "x;", ";x"};
    auto word = [&]() { return r.chance(50) ? std::string(S[r.below(sizeof S / sizeof *S)]) : fmt("n%d", (int)r.below(900)); };
    // replacements get a third letter after 702 strings and a fourth after 18278
    size_t n = r.chance(20) ? 800 : r.below(60), many = r.chance(15) ? 690 + r.below(60) : r.chance(3) ? 18250 + r.below(60) : 0;
    for (size_t i = 0; i < n + many; ++i) {
        std::string s = i < many ? fmt("m%zu", i) : word(), t = x.anonymizeString(s);
        if (s.empty() != t.empty()) fail("mapping-model", "'%s' becomes '%s'", s.c_str(), t.c_str());
        if (s.empty()) continue;
        auto it = model.find(s);
        if (it == model.end()) { if (!given.insert(t).second) fail("mapping-ambiguous", "'%s' becomes '%s', which was given before", s.c_str(), t.c_str()); model[s] = t; }
        else if (it->second != t) fail("mapping-model", "'%s' becomes '%s' and then '%s'", s.c_str(), it->second.c_str(), t.c_str());
        std::string any = word();
        auto q = model.find(any);
        if (q != model.end() && x.deanonymizeString(q->second) != any) fail("mapping-model", "'%s' becomes '%s' but does not come back", any.c_str(), q->second.c_str());
    }
    if (x.getStringCount() != model.size()) fail("mapping-model", "%lu strings are counted, %zu were given", (unsigned long)x.getStringCount(), model.size());
    bool line = r.chance(15);
    if (line) { x.anonymizeString("a\nb"); model["a\nb"] = x.anonymizeString("a\nb"); }
    std::ostringstream os;
    Outcome wr = attempt([&]() { x.write(os); });
    if (!wr.ok && !(line && wr.powsybl)) fail("mapping-write", "the mapping cannot be written: %s", wr.what.c_str());
    if (!wr.ok) { count("c15.refused-name"); return; }
    // another anonymiser, over pieces of any size
    SimIn in(os.str(), Rng(r.next()));
    if (r.chance(50)) { in.limit = r.below(os.str().size() + 1); in.end = SimIn::THROW; }
    std::istream is(&in);
    bool mask = r.chance(25);
    if (mask) is.exceptions(std::ios_base::badbit);
    SimpleAnonymizer y;
    Outcome rd = attempt([&]() { y.read(is); });
    if (in.end == SimIn::THROW) {
        count("fault.mapping-read");
        if (rd.ok && in.limit < os.str().size()) fail("loss-not-reported", "the device failed after %zu of %zu bytes of the mapping and nothing was reported", in.limit, os.str().size());
        if (!rd.ok && !rd.powsybl && !(mask && rd.device)) fail("exception-type", "unrelated exception: %s", rd.what.c_str());
        return;
    }
    if (!rd.ok) fail("mapping-read", "the mapping that was just written cannot be read: %s", rd.what.c_str());
    for (auto& k : model) {
        Outcome g = attempt([&]() { if (y.deanonymizeString(k.second) != k.first) fail("mapping-model", "after reading, '%s' does not become '%s'", k.second.c_str(), k.first.c_str()); });
        if (!g.ok) fail("mapping-model", "after reading, '%s' is unknown: %s", k.second.c_str(), g.what.c_str());
    }
    if (y.getStringCount() != model.size()) fail("mapping-model", "%lu strings after reading, expected %zu", (unsigned long)y.getStringCount(), model.size());
    count("c15.mappings");
}
void runC15(const Plan& p) {
    registerSerializers();
    World w;
    w.odd = p.get("odd") != 0;
    Plan h = p;
    h.ops.clear();
    for (const char* x : {"/simfs/a0.csv", "/simfs/a1.csv", "/simfs/a0.xiidm", "/simfs/a1.xiidm"}) iofault::remove(x);
    bool first = true;
    for (size_t i = 0; i <= p.ops.size(); ++i) {      // rounds happen at any point of the history
        bool end = i == p.ops.size();
        if (!end && !isFault(p.ops[i])) { h.ops.push_back(p.ops[i]); continue; }
        if (first) { buildAndRun(w, h); first = false; }
        else runOps(w, h);
        h.ops.clear();
        simrt::Sut s;
        Rng r(end ? p.seed ^ 0x15 : p.ops[i].seed);
        if (!end && p.ops[i].kind == "faultMapping") anonMapping(r);
        else { clearInexpressible(w.n()); anonRound(w, p, r); }
    }
    for (const char* x : {"/simfs/a0.csv", "/simfs/a1.csv", "/simfs/a0.xiidm", "/simfs/a1.xiidm"}) iofault::remove(x);
}
RegCheck c15("C15", genC15, runC15);
}  // namespace
