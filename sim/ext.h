#ifndef SIM_EXT_H
#define SIM_EXT_H
#include "world.h"
void checkExtensionValues(powsybl::iidm::Identifiable& o);
void checkExtensions(Network& n);   // every look-up of every extension of every object
#endif
