// Reading and writing networks as XML through streams owned by the simulator.
#ifndef SIM_XMLIO_H
#define SIM_XMLIO_H
#include <powsybl/iidm/converter/ExportOptions.hpp>
#include <powsybl/iidm/converter/ImportOptions.hpp>

#include "world.h"
using powsybl::iidm::converter::ExportOptions;
using powsybl::iidm::converter::ImportOptions;

void registerSerializers();                                   // the extension serialisers of every extension library
const std::set<std::string>& serializable();                  // names of the extensions that can be written
std::string writeText(const Network& n, const ExportOptions& o, const std::string& name = "/nonexistent/sim.xiidm");
Network readText(const std::string& xml, const std::string& name = "/nonexistent/sim.xiidm");
#endif
