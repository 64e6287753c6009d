#include "xmlio.h"

#include <powsybl/iidm/ExtensionProviders.hpp>
#include <powsybl/iidm/converter/xml/ExtensionXmlSerializer.hpp>

using namespace powsybl::iidm;
using converter::xml::ExtensionXmlSerializer;
extern "C" const void* createSerializers_iidm;
extern "C" const void* createSerializers_entsoe;
extern "C" const void* createSerializers_sld;

void registerSerializers() {
    static bool done = false;
    if (done) return;
    done = true;
    typedef std::vector<std::unique_ptr<ExtensionXmlSerializer>> (*Fn)();
    simrt::Sut s;
    for (const void* f : {createSerializers_iidm, createSerializers_entsoe, createSerializers_sld})
        for (auto& x : reinterpret_cast<Fn>(const_cast<void*>(f))()) ExtensionProviders<ExtensionXmlSerializer>::getInstance().registerExtension(std::move(x));
}
const std::set<std::string>& serializable() {
    static std::set<std::string> s;
    if (s.empty()) {
        for (auto& p : static_cast<const ExtensionProviders<ExtensionXmlSerializer>&>(ExtensionProviders<ExtensionXmlSerializer>::getInstance()).getProviders()) s.insert(p.getExtensionName());
    }
    return s;
}
std::string writeText(const Network& n, const ExportOptions& o, const std::string& name) {
    std::ostringstream os;
    Network::writeXml(name, os, n, o);
    return os.str();
}
Network readText(const std::string& xml, const std::string& name) {
    std::istringstream is(xml);
    return Network::readXml(name, is, ImportOptions());
}
namespace {
RegOp xmlOp("xml", [](World& w, Rng& r, Effect& e) {
    ExportOptions o;
    o.setIndent(r.chance(50));
    o.setExtensions({"loadDetail", "slackTerminal"});
    static const TopologyLevel lv[] = {TopologyLevel::NODE_BREAKER, TopologyLevel::NODE_BREAKER, TopologyLevel::BUS_BREAKER, TopologyLevel::BUS_BRANCH};
    o.setTopologyLevel(lv[r.below(4)]);
    o.setOnlyMainCc(r.chance(20));
    std::string x = writeText(w.n(), o);
    e.result = fmt("%zu:%016lx", x.size(), (unsigned long)fnv(x));
    Network n = readText(x);
    uint64_t h = 0;
    for (auto& k : snapshot(n)) h = fnv(k.first + k.second, h ^ 77);
    e.result += fmt(" %016lx", (unsigned long)h);
});
}
