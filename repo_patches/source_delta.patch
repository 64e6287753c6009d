From c8d89fcf997b819657146bedf594502feb0a4d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:32 +0000
Subject: [PATCH 01/55] fix: a refused creation of an equipment leaves nothing
 in the network

Terminals are built and checked (existing connectable bus, free and distinct
nodes, converter stations not already used) before the equipment is added to
the network index.
---
 include/powsybl/iidm/TerminalBuilder.hpp   |  4 +++
 src/iidm/BatteryAdder.cpp                  |  3 +-
 src/iidm/DanglingLineAdder.cpp             |  3 +-
 src/iidm/HvdcLineAdder.cpp                 |  9 ++++++
 src/iidm/LccConverterStationAdder.cpp      |  3 +-
 src/iidm/LineAdder.cpp                     |  2 ++
 src/iidm/LoadAdder.cpp                     |  3 +-
 src/iidm/TerminalBuilder.cpp               | 32 ++++++++++++++++++++++
 src/iidm/ThreeWindingsTransformerAdder.cpp |  4 +++
 src/iidm/TieLineAdder.cpp                  |  2 ++
 src/iidm/TwoWindingsTransformerAdder.cpp   |  2 ++
 src/iidm/VscConverterStationAdder.cpp      |  3 +-
 12 files changed, 65 insertions(+), 5 deletions(-)

diff --git a/include/powsybl/iidm/TerminalBuilder.hpp b/include/powsybl/iidm/TerminalBuilder.hpp
index 27444d1..7026137 100644
--- a/include/powsybl/iidm/TerminalBuilder.hpp
+++ b/include/powsybl/iidm/TerminalBuilder.hpp
@@ -22,6 +22,10 @@ class Validable;
 class VoltageLevel;
 
 class TerminalBuilder {
+public:
+    // check that the terminals of an equipment are not connected to the same node
+    static void checkDistinctNodes(const Validable& validable, const Terminal& terminal1, const Terminal& terminal2);
+
 public:
     TerminalBuilder(VoltageLevel& voltageLevel, Validable& validable);
 
diff --git a/src/iidm/BatteryAdder.cpp b/src/iidm/BatteryAdder.cpp
index 20c7a74..a9e1546 100644
--- a/src/iidm/BatteryAdder.cpp
+++ b/src/iidm/BatteryAdder.cpp
@@ -30,9 +30,10 @@ Battery& BatteryAdder::add() {
     checkActivePowerLimits(*this, m_minP, m_maxP);
 
     std::unique_ptr<Battery> ptrBattery = stdcxx::make_unique<Battery>(getNetwork(), checkAndGetUniqueId(), getName(), isFictitious(), m_p0, m_q0, m_minP, m_maxP);
+    std::unique_ptr<Terminal> ptrTerminal = checkAndGetTerminal();
     auto& battery = getNetwork().checkAndAdd<Battery>(std::move(ptrBattery));
 
-    Terminal& terminal = battery.addTerminal(checkAndGetTerminal());
+    Terminal& terminal = battery.addTerminal(std::move(ptrTerminal));
     getVoltageLevel().attach(terminal, false);
 
     return battery;
diff --git a/src/iidm/DanglingLineAdder.cpp b/src/iidm/DanglingLineAdder.cpp
index 3ab1eb9..3dcbd09 100644
--- a/src/iidm/DanglingLineAdder.cpp
+++ b/src/iidm/DanglingLineAdder.cpp
@@ -34,9 +34,10 @@ DanglingLine& DanglingLineAdder::add() {
 
     std::unique_ptr<DanglingLine> ptrDanglingLine = stdcxx::make_unique<DanglingLine>(getNetwork(), checkAndGetUniqueId(), getName(), isFictitious(),
                                                                                       m_p0, m_q0, m_r, m_x, m_g, m_b, m_ucteXnodeCode, std::move(ptrGeneration));
+    std::unique_ptr<Terminal> ptrTerminal = checkAndGetTerminal();
     auto& danglingLine = getNetwork().checkAndAdd<DanglingLine>(std::move(ptrDanglingLine));
 
-    Terminal& terminal = danglingLine.addTerminal(checkAndGetTerminal());
+    Terminal& terminal = danglingLine.addTerminal(std::move(ptrTerminal));
     getVoltageLevel().attach(terminal, false);
 
     return danglingLine;
diff --git a/src/iidm/HvdcLineAdder.cpp b/src/iidm/HvdcLineAdder.cpp
index c24ca9c..3142c96 100644
--- a/src/iidm/HvdcLineAdder.cpp
+++ b/src/iidm/HvdcLineAdder.cpp
@@ -10,9 +10,11 @@
 #include <powsybl/iidm/HvdcConverterStation.hpp>
 #include <powsybl/iidm/HvdcLine.hpp>
 #include <powsybl/iidm/Network.hpp>
+#include <powsybl/iidm/ValidationException.hpp>
 #include <powsybl/iidm/ValidationUtils.hpp>
 #include <powsybl/stdcxx/make_unique.hpp>
 #include <powsybl/stdcxx/math.hpp>
+#include <powsybl/stdcxx/memory.hpp>
 
 namespace powsybl {
 
@@ -32,6 +34,9 @@ HvdcLine& HvdcLineAdder::add() {
 
     HvdcConverterStation& converterStation1 = getConverterStation(m_converterStationId1, 1U);
     HvdcConverterStation& converterStation2 = getConverterStation(m_converterStationId2, 2U);
+    if (stdcxx::areSame(converterStation1, converterStation2)) {
+        throw ValidationException(*this, stdcxx::format("the same converter station %1% is used on both sides", converterStation1.getId()));
+    }
 
     std::unique_ptr<HvdcLine> ptrHvdcLine = stdcxx::make_unique<HvdcLine>(getNetwork(), checkAndGetUniqueId(), getName(), isFictitious(), m_r, m_nominalV, m_maxP, *m_convertersMode, m_activePowerSetpoint,
                                                                           converterStation1, converterStation2);
@@ -47,6 +52,10 @@ HvdcConverterStation& HvdcLineAdder::getConverterStation(const std::string& conv
     if (!converterStation) {
         throw PowsyblException(stdcxx::format("Side %1% converter station %2% not found", side, converterStationId));
     }
+    const auto& hvdcLine = stdcxx::cref(converterStation.get().getHvdcLine());
+    if (hvdcLine) {
+        throw ValidationException(*this, stdcxx::format("Side %1% converter station %2% is already attached to the HVDC line %3%", side, converterStationId, hvdcLine.get().getId()));
+    }
     return converterStation.get();
 }
 
diff --git a/src/iidm/LccConverterStationAdder.cpp b/src/iidm/LccConverterStationAdder.cpp
index 9d33d45..82229ea 100644
--- a/src/iidm/LccConverterStationAdder.cpp
+++ b/src/iidm/LccConverterStationAdder.cpp
@@ -24,9 +24,10 @@ LccConverterStation& LccConverterStationAdder::add() {
     validate();
 
     std::unique_ptr<LccConverterStation> ptrLcc = stdcxx::make_unique<LccConverterStation>(checkAndGetUniqueId(), getName(), isFictitious(), getLossFactor(), m_powerFactor);
+    std::unique_ptr<Terminal> ptrTerminal = checkAndGetTerminal();
     auto& lcc = getNetwork().checkAndAdd<LccConverterStation>(std::move(ptrLcc));
 
-    Terminal& terminal = lcc.addTerminal(checkAndGetTerminal());
+    Terminal& terminal = lcc.addTerminal(std::move(ptrTerminal));
     getVoltageLevel().attach(terminal, false);
 
     return lcc;
diff --git a/src/iidm/LineAdder.cpp b/src/iidm/LineAdder.cpp
index cddfedb..73df2d2 100644
--- a/src/iidm/LineAdder.cpp
+++ b/src/iidm/LineAdder.cpp
@@ -11,6 +11,7 @@
 
 #include <powsybl/iidm/Line.hpp>
 #include <powsybl/iidm/Network.hpp>
+#include <powsybl/iidm/TerminalBuilder.hpp>
 #include <powsybl/iidm/ValidationUtils.hpp>
 #include <powsybl/iidm/VoltageLevel.hpp>
 #include <powsybl/stdcxx/make_unique.hpp>
@@ -40,6 +41,7 @@ Line& LineAdder::add() {
     // check that the line is attachable on both side
     voltageLevel1.attach(*ptrTerminal1, true);
     voltageLevel2.attach(*ptrTerminal2, true);
+    TerminalBuilder::checkDistinctNodes(*this, *ptrTerminal1, *ptrTerminal2);
 
     std::unique_ptr<Line> ptrLine = stdcxx::make_unique<Line>(checkAndGetUniqueId(), getName(), isFictitious(), m_r, m_x, m_g1, m_b1, m_g2, m_b2);
     auto& line = m_network.checkAndAdd<Line>(std::move(ptrLine));
diff --git a/src/iidm/LoadAdder.cpp b/src/iidm/LoadAdder.cpp
index 24ff9ed..ec53187 100644
--- a/src/iidm/LoadAdder.cpp
+++ b/src/iidm/LoadAdder.cpp
@@ -27,9 +27,10 @@ Load& LoadAdder::add() {
     checkQ0(*this, m_q0);
 
     std::unique_ptr<Load> ptrLoad = stdcxx::make_unique<Load>(getNetwork(), checkAndGetUniqueId(), getName(), isFictitious(), m_loadType, m_p0, m_q0);
+    std::unique_ptr<Terminal> ptrTerminal = checkAndGetTerminal();
     auto& load = getNetwork().checkAndAdd<Load>(std::move(ptrLoad));
 
-    Terminal& terminal = load.addTerminal(checkAndGetTerminal());
+    Terminal& terminal = load.addTerminal(std::move(ptrTerminal));
     getVoltageLevel().attach(terminal, false);
 
     return load;
diff --git a/src/iidm/TerminalBuilder.cpp b/src/iidm/TerminalBuilder.cpp
index 0e047cf..9141587 100644
--- a/src/iidm/TerminalBuilder.cpp
+++ b/src/iidm/TerminalBuilder.cpp
@@ -11,6 +11,8 @@
 #include <powsybl/iidm/Validable.hpp>
 #include <powsybl/iidm/ValidationException.hpp>
 #include <powsybl/iidm/ValidationUtils.hpp>
+#include <powsybl/stdcxx/format.hpp>
+#include <powsybl/stdcxx/memory.hpp>
 
 namespace powsybl {
 
@@ -46,8 +48,26 @@ std::unique_ptr<Terminal> TerminalBuilder::build() {
             throw ValidationException(m_validable, "connectable bus is not set");
         }
 
+        if (m_voltageLevel.getTopologyKind() != TopologyKind::BUS_BREAKER) {
+            throw ValidationException(m_validable, stdcxx::format("Voltage level %1% has a node/breaker topology, a node connection should be specified instead of a bus connection", m_voltageLevel.getId()));
+        }
+        // check that the connectable bus exists
+        if (!m_voltageLevel.getBusBreakerView().getBus(connectionBus)) {
+            throw PowsyblException(stdcxx::format("Bus '%1%' not found in the voltage level '%2%'", connectionBus, m_voltageLevel.getId()));
+        }
+
         ptrTerminal = createBusTerminal(m_voltageLevel, connectionBus, !m_bus.empty());
     } else {
+        if (m_voltageLevel.getTopologyKind() != TopologyKind::NODE_BREAKER) {
+            throw ValidationException(m_validable, stdcxx::format("Voltage level '%1%' has a bus/breaker topology, a bus connection should be specified instead of a node connection", m_voltageLevel.getId()));
+        }
+        // check that the node is free
+        const auto& terminal = m_voltageLevel.getNodeBreakerView().getOptionalTerminal(*m_node);
+        if (terminal) {
+            throw ValidationException(m_validable, stdcxx::format("An equipment (%1%) is already connected to the node %2% of voltage level %3%",
+                                                                  terminal.get().getConnectable().get().getId(), *m_node, m_voltageLevel.getId()));
+        }
+
         ptrTerminal = createNodeTerminal(m_voltageLevel, *m_node);
     }
 
@@ -55,6 +75,18 @@ std::unique_ptr<Terminal> TerminalBuilder::build() {
 }
 
 
+void TerminalBuilder::checkDistinctNodes(const Validable& validable, const Terminal& terminal1, const Terminal& terminal2) {
+    const VoltageLevel& voltageLevel = terminal1.getVoltageLevel();
+    if (!stdcxx::areSame(voltageLevel, terminal2.getVoltageLevel()) || voltageLevel.getTopologyKind() != TopologyKind::NODE_BREAKER) {
+        return;
+    }
+
+    unsigned long node = terminal1.getNodeBreakerView().getNode();
+    if (node == terminal2.getNodeBreakerView().getNode()) {
+        throw ValidationException(validable, stdcxx::format("Two terminals cannot be connected to the same node %1% of voltage level %2%", node, voltageLevel.getId()));
+    }
+}
+
 TerminalBuilder& TerminalBuilder::setBus(const std::string& bus) {
     m_bus = bus;
     return *this;
diff --git a/src/iidm/ThreeWindingsTransformerAdder.cpp b/src/iidm/ThreeWindingsTransformerAdder.cpp
index 79332c7..98505de 100644
--- a/src/iidm/ThreeWindingsTransformerAdder.cpp
+++ b/src/iidm/ThreeWindingsTransformerAdder.cpp
@@ -8,6 +8,7 @@
 #include <powsybl/iidm/ThreeWindingsTransformerAdder.hpp>
 
 #include <powsybl/iidm/Substation.hpp>
+#include <powsybl/iidm/TerminalBuilder.hpp>
 #include <powsybl/iidm/VoltageLevel.hpp>
 #include <powsybl/logging/Logger.hpp>
 #include <powsybl/logging/LoggerFactory.hpp>
@@ -49,6 +50,9 @@ ThreeWindingsTransformer& ThreeWindingsTransformerAdder::add() {
     voltageLevel1.attach(*ptrTerminal1, true);
     voltageLevel2.attach(*ptrTerminal2, true);
     voltageLevel3.attach(*ptrTerminal3, true);
+    TerminalBuilder::checkDistinctNodes(*this, *ptrTerminal1, *ptrTerminal2);
+    TerminalBuilder::checkDistinctNodes(*this, *ptrTerminal1, *ptrTerminal3);
+    TerminalBuilder::checkDistinctNodes(*this, *ptrTerminal2, *ptrTerminal3);
 
     // Define ratedU0 equal to ratedU1 if it has not been defined
     if (std::isnan(m_ratedU0)) {
diff --git a/src/iidm/TieLineAdder.cpp b/src/iidm/TieLineAdder.cpp
index 1167fb1..8ad9d12 100644
--- a/src/iidm/TieLineAdder.cpp
+++ b/src/iidm/TieLineAdder.cpp
@@ -6,6 +6,7 @@
  */
 
 #include <powsybl/iidm/Network.hpp>
+#include <powsybl/iidm/TerminalBuilder.hpp>
 #include <powsybl/iidm/TieLine.hpp>
 #include <powsybl/iidm/TieLineAdder.hpp>
 #include <powsybl/iidm/ValidationException.hpp>
@@ -42,6 +43,7 @@ TieLine& TieLineAdder::add() {
     // check that the line is attachable on both side
     voltageLevel1.attach(*ptrTerminal1, true);
     voltageLevel2.attach(*ptrTerminal2, true);
+    TerminalBuilder::checkDistinctNodes(*this, *ptrTerminal1, *ptrTerminal2);
 
     std::unique_ptr<TieLine> ptrTieLine = stdcxx::make_unique<TieLine>(checkAndGetUniqueId(), getName(), isFictitious(), m_ucteXnodeCode, std::move(half1), std::move(half2));
     auto& tieLine = m_network.checkAndAdd<TieLine>(std::move(ptrTieLine));
diff --git a/src/iidm/TwoWindingsTransformerAdder.cpp b/src/iidm/TwoWindingsTransformerAdder.cpp
index 8a9f7c6..c5017d5 100644
--- a/src/iidm/TwoWindingsTransformerAdder.cpp
+++ b/src/iidm/TwoWindingsTransformerAdder.cpp
@@ -8,6 +8,7 @@
 #include <powsybl/iidm/TwoWindingsTransformerAdder.hpp>
 
 #include <powsybl/iidm/Substation.hpp>
+#include <powsybl/iidm/TerminalBuilder.hpp>
 #include <powsybl/iidm/TwoWindingsTransformer.hpp>
 #include <powsybl/iidm/ValidationUtils.hpp>
 #include <powsybl/iidm/VoltageLevel.hpp>
@@ -43,6 +44,7 @@ TwoWindingsTransformer& TwoWindingsTransformerAdder::add() {
     // check that the two windings transformer is attachable on both side
     voltageLevel1.attach(*ptrTerminal1, true);
     voltageLevel2.attach(*ptrTerminal2, true);
+    TerminalBuilder::checkDistinctNodes(*this, *ptrTerminal1, *ptrTerminal2);
 
     std::unique_ptr<TwoWindingsTransformer> ptrTransformer = stdcxx::make_unique<TwoWindingsTransformer>(checkAndGetUniqueId(), getName(), isFictitious(), m_substation, m_r, m_x, m_g, m_b, m_ratedU1, m_ratedU2, m_ratedS);
     auto& transformer = getNetwork().checkAndAdd<TwoWindingsTransformer>(std::move(ptrTransformer));
diff --git a/src/iidm/VscConverterStationAdder.cpp b/src/iidm/VscConverterStationAdder.cpp
index c1a188c..3ada130 100644
--- a/src/iidm/VscConverterStationAdder.cpp
+++ b/src/iidm/VscConverterStationAdder.cpp
@@ -24,9 +24,10 @@ VscConverterStation& VscConverterStationAdder::add() {
     validate();
 
     std::unique_ptr<VscConverterStation> ptrVsc = stdcxx::make_unique<VscConverterStation>(getNetwork(), checkAndGetUniqueId(), getName(), isFictitious(), getLossFactor(), *m_voltageRegulatorOn, m_reactivePowerSetpoint, m_voltageSetpoint);
+    std::unique_ptr<Terminal> ptrTerminal = checkAndGetTerminal();
     auto& vsc = getNetwork().checkAndAdd<VscConverterStation>(std::move(ptrVsc));
 
-    Terminal& terminal = vsc.addTerminal(checkAndGetTerminal());
+    Terminal& terminal = vsc.addTerminal(std::move(ptrTerminal));
     getVoltageLevel().attach(terminal, false);
 
     return vsc;
-- 
2.43.0


From e60bc165ed9fcfeafb4fc28bb3fd8c3fb0440e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:30 +0000
Subject: [PATCH 02/55] fix: removing an equipment of a node/breaker voltage
 level with free nodes

Nodes are not contiguous: the node of a terminal has to be compared with the
capacity of the graph, not with the number of vertices.
---
 src/iidm/NodeBreakerVoltageLevel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iidm/NodeBreakerVoltageLevel.cpp b/src/iidm/NodeBreakerVoltageLevel.cpp
index d4d080a..db3f484 100644
--- a/src/iidm/NodeBreakerVoltageLevel.cpp
+++ b/src/iidm/NodeBreakerVoltageLevel.cpp
@@ -130,7 +130,7 @@ void NodeBreakerVoltageLevel::detach(Terminal& terminal) {
     auto& nodeTerminal = dynamic_cast<NodeTerminal&>(terminal);
 
     unsigned long node = nodeTerminal.getNode();
-    assert(node < m_graph.getVertexCount());
+    assert(node < m_graph.getVertexCapacity());
     assert(stdcxx::areSame(m_graph.getVertexObject(node).get(), nodeTerminal));
 
     getNetwork().getVariantManager().forEachVariant([this]() {
-- 
2.43.0


From 6722141629a4a0a17d4d5cd3267be7c7fe2f2dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:31 +0000
Subject: [PATCH 03/55] fix: graph elements are not removed while iterating
 over them

---
 include/powsybl/math/UndirectedGraph.hxx | 12 ++++++++++--
 src/iidm/NodeBreakerVoltageLevel.cpp     | 15 +++++++++++----
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/include/powsybl/math/UndirectedGraph.hxx b/include/powsybl/math/UndirectedGraph.hxx
index 90746fd..0b9427a 100644
--- a/include/powsybl/math/UndirectedGraph.hxx
+++ b/include/powsybl/math/UndirectedGraph.hxx
@@ -342,10 +342,12 @@ void UndirectedGraph<V, E>::removeAllEdges() {
 
 template <typename V, typename E>
 void UndirectedGraph<V, E>::removeAllVertices() {
-    if (!m_edges.empty()) {
+    if (getEdgeCount() > 0) {
         throw PowsyblException("Cannot remove all vertices because there is still some edges in the graph");
     }
 
+    m_edges.clear();
+    m_removedEdges.clear();
     m_vertices.clear();
     m_availableVertices.clear();
 
@@ -378,11 +380,17 @@ void UndirectedGraph<V, E>::removeIsolatedVertices() {
         connectedVertices.emplace(getVertex2(e));
     }
 
+    // getVertices() is a lazy range: the vertices have to be collected before being removed
+    std::vector<unsigned long> isolatedVertices;
     for (const auto& v : getVertices()) {
         if ((connectedVertices.find(v) == connectedVertices.end()) && !getVertexObject(v)) {
-            removeVertex(v);
+            isolatedVertices.push_back(v);
         }
     }
+
+    for (unsigned long v : isolatedVertices) {
+        removeVertex(v);
+    }
 }
 
 template <typename V, typename E>
diff --git a/src/iidm/NodeBreakerVoltageLevel.cpp b/src/iidm/NodeBreakerVoltageLevel.cpp
index db3f484..2bc437d 100644
--- a/src/iidm/NodeBreakerVoltageLevel.cpp
+++ b/src/iidm/NodeBreakerVoltageLevel.cpp
@@ -358,8 +358,12 @@ void NodeBreakerVoltageLevel::removeInternalConnections(unsigned long node1, uns
         return !m_graph.getEdgeObject(edge) && ((m_graph.getVertex1(edge) == node1 && m_graph.getVertex2(edge) == node2) || (m_graph.getVertex1(edge) == node2 && m_graph.getVertex2(edge) == node1));
     };
 
-    const auto& internalConnectionsToBeRemoved = m_graph.getEdges() | boost::adaptors::filtered(filter);
-    if (boost::empty(internalConnectionsToBeRemoved)) {
+    // m_graph.getEdges() is a lazy range: the edges have to be collected before being removed
+    std::vector<unsigned long> internalConnectionsToBeRemoved;
+    for (unsigned long e : m_graph.getEdges() | boost::adaptors::filtered(filter)) {
+        internalConnectionsToBeRemoved.push_back(e);
+    }
+    if (internalConnectionsToBeRemoved.empty()) {
         throw PowsyblException(stdcxx::format("Internal connection not found between %1% and %2%", node1, node2));
     }
     for (unsigned long ic : internalConnectionsToBeRemoved) {
@@ -383,8 +387,11 @@ void NodeBreakerVoltageLevel::removeSwitch(const std::string& switchId) {
 }
 
 void NodeBreakerVoltageLevel::removeTopology() {
-    for (Switch& s : m_graph.getEdgeObjects()) {
-        getNetwork().getIndex().remove(s);
+    for (const stdcxx::Reference<Switch>& s : m_graph.getEdgeObjects()) {
+        // edges without object are internal connections
+        if (static_cast<bool>(s)) {
+            getNetwork().getIndex().remove(s.get());
+        }
     }
     m_graph.removeAllEdges();
     m_switches.clear();
-- 
2.43.0


From c3aee5200462505472519a25148c1b4ed9f124a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:31 +0000
Subject: [PATCH 04/55] fix: removing a voltage level or a substation removes
 all its content

---
 src/iidm/Substation.cpp   | 11 +++++++++--
 src/iidm/VoltageLevel.cpp |  5 +++++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/iidm/Substation.cpp b/src/iidm/Substation.cpp
index f0d550c..50be57f 100644
--- a/src/iidm/Substation.cpp
+++ b/src/iidm/Substation.cpp
@@ -130,9 +130,16 @@ VoltageLevelAdder Substation::newVoltageLevel() {
 void Substation::remove() {
     Substations::checkRemovability(*this);
 
-    for (VoltageLevel& vl : m_voltageLevels) {
+    // voltage levels and connectables have to be collected before being removed
+    const auto voltageLevels = m_voltageLevels;
+    for (VoltageLevel& vl : voltageLevels) {
         // Remove all branches, transformers and HVDC lines
-        for (Connectable& connectable : vl.getConnectables()) {
+        std::set<std::string> connectableIds;
+        for (const Connectable& connectable : vl.getConnectables()) {
+            connectableIds.insert(connectable.getId());
+        }
+        for (const std::string& connectableId : connectableIds) {
+            Connectable& connectable = getNetwork().get<Connectable>(connectableId);
             ConnectableType type = connectable.getType();
             if (VoltageLevels::MULTIPLE_TERMINALS_CONNECTABLE_TYPES.find(type) != VoltageLevels::MULTIPLE_TERMINALS_CONNECTABLE_TYPES.end()) {
                 connectable.remove();
diff --git a/src/iidm/VoltageLevel.cpp b/src/iidm/VoltageLevel.cpp
index 312a6ba..2c65261 100644
--- a/src/iidm/VoltageLevel.cpp
+++ b/src/iidm/VoltageLevel.cpp
@@ -238,7 +238,12 @@ void VoltageLevel::remove() {
     VoltageLevels::checkRemovability(*this);
 
     // Remove all connectables
+    // getConnectables() is a lazy range: the connectables have to be collected before being removed
+    std::vector<std::reference_wrapper<Connectable>> connectables;
     for (Connectable& connectable : getConnectables()) {
+        connectables.emplace_back(connectable);
+    }
+    for (Connectable& connectable : connectables) {
         connectable.remove();
     }
 
-- 
2.43.0


From fbb97c7f6177089af678c69c9d1fd0f3d03e0e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:54 +0000
Subject: [PATCH 05/55] fix: topology changes invalidate the computed buses of
 every variant

---
 src/iidm/BusBreakerVoltageLevel.cpp  | 24 ++++++++++++++++++++++++
 src/iidm/NetworkViews.cpp            |  2 +-
 src/iidm/NodeBreakerVoltageLevel.cpp | 20 ++++++++++++++++++--
 3 files changed, 43 insertions(+), 3 deletions(-)

diff --git a/src/iidm/BusBreakerVoltageLevel.cpp b/src/iidm/BusBreakerVoltageLevel.cpp
index 4f59035..30e7eb4 100644
--- a/src/iidm/BusBreakerVoltageLevel.cpp
+++ b/src/iidm/BusBreakerVoltageLevel.cpp
@@ -38,6 +38,10 @@ Bus& BusBreakerVoltageLevel::addBus(std::unique_ptr<ConfiguredBus>&& ptrBus) {
     m_graph.setVertexObject(node, stdcxx::ref(bus));
     m_buses.insert(std::make_pair(bus.getId(), node));
 
+    getNetwork().getVariantManager().forEachVariant([this]() {
+        invalidateCache();
+    });
+
     return bus;
 }
 
@@ -49,6 +53,10 @@ Switch& BusBreakerVoltageLevel::addSwitch(std::unique_ptr<Switch>&& ptrSwitch, c
     unsigned long e = m_graph.addEdge(v1, v2, stdcxx::ref(aSwitch));
     m_switches.insert(std::make_pair(aSwitch.getId(), e));
 
+    getNetwork().getVariantManager().forEachVariant([this]() {
+        invalidateCache();
+    });
+
     return aSwitch;
 }
 
@@ -303,6 +311,10 @@ void BusBreakerVoltageLevel::removeAllBuses() {
             throw ValidationException(*this, stdcxx::format("Cannot remove bus '%1%' due to connected equipments", bus.getId()));
         }
     }
+    getNetwork().getVariantManager().forEachVariant([this]() {
+        invalidateCache();
+    });
+
     for (const auto& it : m_graph.getVertexObjects()) {
         getNetwork().remove(it.get());
     }
@@ -312,6 +324,10 @@ void BusBreakerVoltageLevel::removeAllBuses() {
 }
 
 void BusBreakerVoltageLevel::removeAllSwitches() {
+    getNetwork().getVariantManager().forEachVariant([this]() {
+        invalidateCache();
+    });
+
     for (const auto& it : m_graph.getEdgeObjects()) {
         getNetwork().remove(it.get());
     }
@@ -339,6 +355,10 @@ void BusBreakerVoltageLevel::removeBus(const std::string& busId) {
         }
     }
 
+    getNetwork().getVariantManager().forEachVariant([this]() {
+        invalidateCache();
+    });
+
     const auto& it = m_buses.find(busId);
     m_graph.removeVertex(it->second);
     m_buses.erase(it);
@@ -351,6 +371,10 @@ void BusBreakerVoltageLevel::removeSwitch(const std::string& switchId) {
         throw PowsyblException(stdcxx::format("Switch '%1%' not found in voltage level '%2%'", switchId, getId()));
     }
 
+    getNetwork().getVariantManager().forEachVariant([this]() {
+        invalidateCache();
+    });
+
     const auto& aSwitch = m_graph.removeEdge(it->second);
     m_switches.erase(it);
     getNetwork().remove(aSwitch.get());
diff --git a/src/iidm/NetworkViews.cpp b/src/iidm/NetworkViews.cpp
index bc848bf..1634833 100644
--- a/src/iidm/NetworkViews.cpp
+++ b/src/iidm/NetworkViews.cpp
@@ -86,7 +86,7 @@ stdcxx::range<Switch> BusBreakerView::getSwitches() {
 }
 
 void BusBreakerView::invalidateCache() {
-    m_network.getBusViewCache().invalidate();
+    m_network.getBusBreakerViewCache().invalidate();
 }
 
 BusView::BusView(Network& network) :
diff --git a/src/iidm/NodeBreakerVoltageLevel.cpp b/src/iidm/NodeBreakerVoltageLevel.cpp
index 2bc437d..82823c2 100644
--- a/src/iidm/NodeBreakerVoltageLevel.cpp
+++ b/src/iidm/NodeBreakerVoltageLevel.cpp
@@ -34,7 +34,9 @@ void NodeBreakerVoltageLevel::addInternalConnection(unsigned long node1, unsigne
     m_graph.addVertexIfNotPresent(node1);
     m_graph.addVertexIfNotPresent(node2);
     m_graph.addEdge(node1, node2, stdcxx::ref<Switch>());
-    invalidateCache();
+    getNetwork().getVariantManager().forEachVariant([this]() {
+        invalidateCache();
+    });
 }
 
 Switch& NodeBreakerVoltageLevel::addSwitch(std::unique_ptr<Switch>&& ptrSwitch, unsigned long node1, unsigned long node2) {
@@ -44,6 +46,10 @@ Switch& NodeBreakerVoltageLevel::addSwitch(std::unique_ptr<Switch>&& ptrSwitch,
     unsigned long e = m_graph.addEdge(node1, node2, stdcxx::ref(aSwitch));
     m_switches.insert(std::make_pair(aSwitch.getId(), e));
 
+    getNetwork().getVariantManager().forEachVariant([this]() {
+        invalidateCache();
+    });
+
     return aSwitch;
 }
 
@@ -370,7 +376,9 @@ void NodeBreakerVoltageLevel::removeInternalConnections(unsigned long node1, uns
         m_graph.removeEdge(ic);
     }
     clean();
-    invalidateCache();
+    getNetwork().getVariantManager().forEachVariant([this]() {
+        invalidateCache();
+    });
 }
 
 void NodeBreakerVoltageLevel::removeSwitch(const std::string& switchId) {
@@ -379,6 +387,10 @@ void NodeBreakerVoltageLevel::removeSwitch(const std::string& switchId) {
         throw PowsyblException(stdcxx::format("Switch '%1%' not found in voltage level '%2%'", switchId, getId()));
     }
 
+    getNetwork().getVariantManager().forEachVariant([this]() {
+        invalidateCache();
+    });
+
     const auto& aSwitch = m_graph.removeEdge(it->second);
     clean();
 
@@ -387,6 +399,10 @@ void NodeBreakerVoltageLevel::removeSwitch(const std::string& switchId) {
 }
 
 void NodeBreakerVoltageLevel::removeTopology() {
+    getNetwork().getVariantManager().forEachVariant([this]() {
+        invalidateCache();
+    });
+
     for (const stdcxx::Reference<Switch>& s : m_graph.getEdgeObjects()) {
         // edges without object are internal connections
         if (static_cast<bool>(s)) {
-- 
2.43.0


From 749d35a9a263f36211e507df9bf9e153c021936f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:54 +0000
Subject: [PATCH 06/55] fix: bus topology of a bus/breaker voltage level with
 removed buses

---
 src/iidm/BusBreakerVoltageLevelTopology.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iidm/BusBreakerVoltageLevelTopology.cpp b/src/iidm/BusBreakerVoltageLevelTopology.cpp
index debc17e..4220310 100644
--- a/src/iidm/BusBreakerVoltageLevelTopology.cpp
+++ b/src/iidm/BusBreakerVoltageLevelTopology.cpp
@@ -110,7 +110,7 @@ void CalculatedBusTopology::updateCache() {
 
     const auto& graph = m_voltageLevel.getGraph();
 
-    std::vector<bool> encountered(graph.getVertexCount(), false);
+    std::vector<bool> encountered(graph.getVertexCapacity(), false);
     for (unsigned long v : graph.getVertices()) {
         if (!encountered[v]) {
 
-- 
2.43.0


From cc6da32547a1c28190d8e4bf88ef59b51dd159b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:54 +0000
Subject: [PATCH 07/55] fix: the connectable bus of a terminal is specific to
 each variant

---
 src/iidm/BusBreakerVoltageLevel.cpp | 18 +++++++++++++-----
 src/iidm/BusTerminalViews.cpp       |  9 ++++++---
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/iidm/BusBreakerVoltageLevel.cpp b/src/iidm/BusBreakerVoltageLevel.cpp
index 30e7eb4..b865a41 100644
--- a/src/iidm/BusBreakerVoltageLevel.cpp
+++ b/src/iidm/BusBreakerVoltageLevel.cpp
@@ -117,10 +117,10 @@ void BusBreakerVoltageLevel::detach(Terminal& terminal) {
     assert(stdcxx::isInstanceOf<BusTerminal>(terminal));
 
     auto& busTerminal = dynamic_cast<BusTerminal&>(terminal);
-    auto& bus = getConfiguredBus(busTerminal.getConnectableBusId(), true).get();
 
-    getNetwork().getVariantManager().forEachVariant([&bus, &busTerminal, this]() {
-        bus.removeTerminal(busTerminal);
+    // the connectable bus may be different in each variant
+    getNetwork().getVariantManager().forEachVariant([&busTerminal, this]() {
+        getConfiguredBus(busTerminal.getConnectableBusId(), true).get().removeTerminal(busTerminal);
         busTerminal.setConnectableBusId("");
 
         invalidateCache();
@@ -307,7 +307,11 @@ void BusBreakerVoltageLevel::removeAllBuses() {
     }
     for (const auto& it : m_graph.getVertexObjects()) {
         const auto& bus = it.get();
-        if (bus.getTerminalCount() > 0) {
+        unsigned long terminalCount = 0;
+        getNetwork().getVariantManager().forEachVariant([&bus, &terminalCount]() {
+            terminalCount += bus.getTerminalCount();
+        });
+        if (terminalCount > 0) {
             throw ValidationException(*this, stdcxx::format("Cannot remove bus '%1%' due to connected equipments", bus.getId()));
         }
     }
@@ -338,7 +342,11 @@ void BusBreakerVoltageLevel::removeAllSwitches() {
 
 void BusBreakerVoltageLevel::removeBus(const std::string& busId) {
     const auto& bus = getConfiguredBus(busId, true);
-    if (bus.get().getTerminalCount() > 0) {
+    unsigned long terminalCount = 0;
+    getNetwork().getVariantManager().forEachVariant([&bus, &terminalCount]() {
+        terminalCount += bus.get().getTerminalCount();
+    });
+    if (terminalCount > 0) {
         throw ValidationException(*this, stdcxx::format("Cannot remove bus '%1%' due to connectable equipments", busId));
     }
 
diff --git a/src/iidm/BusTerminalViews.cpp b/src/iidm/BusTerminalViews.cpp
index d769720..05637c0 100644
--- a/src/iidm/BusTerminalViews.cpp
+++ b/src/iidm/BusTerminalViews.cpp
@@ -48,11 +48,14 @@ void BusBreakerViewImpl::setConnectableBus(const std::string& busId) {
     auto& voltageLevel = dynamic_cast<BusBreakerVoltageLevel&>(m_terminal.getVoltageLevel());
 
     // Assert that the new bus exists
-    voltageLevel.getConfiguredBus(busId, true);
+    const auto& newBus = voltageLevel.getConfiguredBus(busId, true);
 
-    voltageLevel.detach(m_terminal);
+    // The connectable bus is a multi-variant attribute: only the working variant is modified
+    const auto& oldBus = voltageLevel.getConfiguredBus(m_terminal.getConnectableBusId(), true);
+    oldBus.get().removeTerminal(m_terminal);
     m_terminal.setConnectableBusId(busId);
-    voltageLevel.attach(m_terminal, false);
+    newBus.get().addTerminal(m_terminal);
+    voltageLevel.invalidateCache();
 }
 
 BusViewImpl::BusViewImpl(powsybl::iidm::BusTerminal& terminal):
-- 
2.43.0


From 279d6cbbe164589b6c01a72543a3d991fdb177de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:54 +0000
Subject: [PATCH 08/55] fix: connected components are computed again when a
 HVDC line is added or removed

---
 src/iidm/HvdcLine.cpp      | 5 +++++
 src/iidm/HvdcLineAdder.cpp | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/iidm/HvdcLine.cpp b/src/iidm/HvdcLine.cpp
index 1c0e66b..535535e 100644
--- a/src/iidm/HvdcLine.cpp
+++ b/src/iidm/HvdcLine.cpp
@@ -130,6 +130,11 @@ void HvdcLine::remove() {
     m_converterStation2 = stdcxx::ref<HvdcConverterStation>();
 
     network.remove(*this);
+
+    // HVDC lines are part of the connected components
+    network.getVariantManager().forEachVariant([&network]() {
+        network.getConnectedComponentsManager().invalidate();
+    });
 }
 
 HvdcLine& HvdcLine::setActivePowerSetpoint(double activePowerSetpoint) {
diff --git a/src/iidm/HvdcLineAdder.cpp b/src/iidm/HvdcLineAdder.cpp
index 3142c96..3f1be9b 100644
--- a/src/iidm/HvdcLineAdder.cpp
+++ b/src/iidm/HvdcLineAdder.cpp
@@ -42,6 +42,11 @@ HvdcLine& HvdcLineAdder::add() {
                                                                           converterStation1, converterStation2);
     auto& line = m_network.checkAndAdd<HvdcLine>(std::move(ptrHvdcLine));
 
+    // HVDC lines are part of the connected components
+    m_network.getVariantManager().forEachVariant([this]() {
+        m_network.getConnectedComponentsManager().invalidate();
+    });
+
     return line;
 }
 
-- 
2.43.0


From 1d12a8c73b9af7590ce3e358d8642e09cbd03820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:11 +0000
Subject: [PATCH 09/55] fix: network structure can be modified when no working
 variant is set

---
 include/powsybl/iidm/VariantContextGuard.hpp | 2 ++
 src/iidm/VariantContextGuard.cpp             | 9 +++++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/powsybl/iidm/VariantContextGuard.hpp b/include/powsybl/iidm/VariantContextGuard.hpp
index e9ba3bf..8f54f7d 100644
--- a/include/powsybl/iidm/VariantContextGuard.hpp
+++ b/include/powsybl/iidm/VariantContextGuard.hpp
@@ -30,6 +30,8 @@ public:
 private:
     VariantContext& m_context;
 
+    bool m_indexSet;
+
     unsigned long m_variantIndex;
 };
 
diff --git a/src/iidm/VariantContextGuard.cpp b/src/iidm/VariantContextGuard.cpp
index 1734b2b..5d0d0ad 100644
--- a/src/iidm/VariantContextGuard.cpp
+++ b/src/iidm/VariantContextGuard.cpp
@@ -15,11 +15,16 @@ namespace iidm {
 
 VariantContextGuard::VariantContextGuard(VariantContext& context) :
     m_context(context),
-    m_variantIndex(context.getVariantIndex()) {
+    m_indexSet(context.isIndexSet()),
+    m_variantIndex(m_indexSet ? context.getVariantIndex() : 0UL) {
 }
 
 VariantContextGuard::~VariantContextGuard() noexcept {
-    m_context.setVariantIndex(m_variantIndex);
+    if (m_indexSet) {
+        m_context.setVariantIndex(m_variantIndex);
+    } else if (m_context.isIndexSet()) {
+        m_context.resetIfVariantIndexIs(m_context.getVariantIndex());
+    }
 }
 
 }  // namespace iidm
-- 
2.43.0


From 7155245cd57e09aee290e96417be4a83c5ab44b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:11 +0000
Subject: [PATCH 10/55] fix: the variant manager can be used while iterating
 over the variants

---
 include/powsybl/iidm/VariantManager.hpp |  2 +-
 src/iidm/VariantManager.cpp             | 26 +++++++++++++++----------
 2 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/include/powsybl/iidm/VariantManager.hpp b/include/powsybl/iidm/VariantManager.hpp
index 4273f18..169435e 100644
--- a/include/powsybl/iidm/VariantManager.hpp
+++ b/include/powsybl/iidm/VariantManager.hpp
@@ -79,7 +79,7 @@ private:
 
     std::unique_ptr<VariantContext> m_variantContext;
 
-    mutable std::mutex m_variantMutex;
+    mutable std::recursive_mutex m_variantMutex;
 
     std::unordered_map<std::string, unsigned long> m_variantsById;
 
diff --git a/src/iidm/VariantManager.cpp b/src/iidm/VariantManager.cpp
index c38ad1d..b00275b 100644
--- a/src/iidm/VariantManager.cpp
+++ b/src/iidm/VariantManager.cpp
@@ -88,7 +88,7 @@ void VariantManager::cloneVariant(const std::string& sourceVariantId, const std:
 
     logger.debug("Creating variants %1%", stdcxx::toString(targetVariantIds));
 
-    std::lock_guard<std::mutex> lock(m_variantMutex);
+    std::lock_guard<std::recursive_mutex> lock(m_variantMutex);
 
     unsigned long sourceIndex = getVariantIndex(sourceVariantId);
     unsigned long initVariantArraySize = m_variantArraySize;
@@ -129,13 +129,17 @@ void VariantManager::cloneVariant(const std::string& sourceVariantId, const std:
 }
 
 void VariantManager::forEachVariant(const std::function<void()>& function) {
-    std::lock_guard<std::mutex> lock(m_variantMutex);
+    std::lock_guard<std::recursive_mutex> lock(m_variantMutex);
 
     VariantContextGuard context(*m_variantContext);
 
-    for (const auto& it : m_variantsById) {
-        m_variantContext->setVariantIndex(it.second);
-        function();
+    // the function may use the variant manager and even modify the variants
+    const auto variantsById = m_variantsById;
+    for (const auto& it : variantsById) {
+        if (m_variantsById.find(it.first) != m_variantsById.end()) {
+            m_variantContext->setVariantIndex(m_variantsById.at(it.first));
+            function();
+        }
     }
 }
 
@@ -146,11 +150,13 @@ const std::string& VariantManager::getInitialVariantId() {
 }
 
 unsigned long VariantManager::getVariantArraySize() const {
+    std::lock_guard<std::recursive_mutex> lock(m_variantMutex);
+
     return m_variantArraySize;
 }
 
 std::set<std::string> VariantManager::getVariantIds() const {
-    std::lock_guard<std::mutex> lock(m_variantMutex);
+    std::lock_guard<std::recursive_mutex> lock(m_variantMutex);
 
     std::set<std::string> variantIds;
     std::for_each(m_variantsById.begin(), m_variantsById.end(), [&variantIds](const std::pair<std::string, unsigned long>& entry) {
@@ -174,7 +180,7 @@ unsigned long VariantManager::getVariantIndex(const std::string& variantId) cons
 }
 
 std::set<unsigned long> VariantManager::getVariantIndices() const {
-    std::lock_guard<std::mutex> lock(m_variantMutex);
+    std::lock_guard<std::recursive_mutex> lock(m_variantMutex);
 
     std::set<unsigned long> variantIndices;
     std::for_each(m_variantsById.begin(), m_variantsById.end(), [&variantIndices](const std::pair<std::string, unsigned long>& entry) {
@@ -185,7 +191,7 @@ std::set<unsigned long> VariantManager::getVariantIndices() const {
 }
 
 const std::string& VariantManager::getWorkingVariantId() const {
-    std::lock_guard<std::mutex> lock(m_variantMutex);
+    std::lock_guard<std::recursive_mutex> lock(m_variantMutex);
 
     unsigned long index = m_variantContext->getVariantIndex();
     const auto& it = std::find_if(m_variantsById.begin(), m_variantsById.end(), [index](const std::pair<std::string, unsigned long>& entry) {
@@ -202,7 +208,7 @@ bool VariantManager::isVariantMultiThreadAccessAllowed() const {
 void VariantManager::removeVariant(const std::string& variantId) {
     logging::Logger& logger = logging::LoggerFactory::getLogger<VariantManager>();
 
-    std::lock_guard<std::mutex> lock(m_variantMutex);
+    std::lock_guard<std::recursive_mutex> lock(m_variantMutex);
 
     if (variantId == getInitialVariantId()) {
         throw PowsyblException("Removing initial variant is forbidden");
@@ -246,7 +252,7 @@ void VariantManager::removeVariant(const std::string& variantId) {
 }
 
 void VariantManager::setWorkingVariant(const std::string& variantId) {
-    std::lock_guard<std::mutex> lock(m_variantMutex);
+    std::lock_guard<std::recursive_mutex> lock(m_variantMutex);
 
     unsigned long index = getVariantIndex(variantId);
     m_variantContext->setVariantIndex(index);
-- 
2.43.0


From de6adb77b75ce50256cce59ee3b52c42e24e3d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:11 +0000
Subject: [PATCH 11/55] fix: working variant id of a thread whose working
 variant has been removed

---
 src/iidm/VariantManager.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/iidm/VariantManager.cpp b/src/iidm/VariantManager.cpp
index b00275b..e72bc02 100644
--- a/src/iidm/VariantManager.cpp
+++ b/src/iidm/VariantManager.cpp
@@ -197,6 +197,9 @@ const std::string& VariantManager::getWorkingVariantId() const {
     const auto& it = std::find_if(m_variantsById.begin(), m_variantsById.end(), [index](const std::pair<std::string, unsigned long>& entry) {
         return entry.second == index;
     });
+    if (it == m_variantsById.end()) {
+        throw PowsyblException("Variant index not set: the working variant has been removed");
+    }
 
     return it->first;
 }
-- 
2.43.0


From 733c13b4e8f55b0a65554839f80599b7a85617b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:11 +0000
Subject: [PATCH 12/55] fix: a refused clone of variants leaves the variant
 manager unchanged

---
 src/iidm/VariantManager.cpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/iidm/VariantManager.cpp b/src/iidm/VariantManager.cpp
index e72bc02..b815473 100644
--- a/src/iidm/VariantManager.cpp
+++ b/src/iidm/VariantManager.cpp
@@ -95,13 +95,22 @@ void VariantManager::cloneVariant(const std::string& sourceVariantId, const std:
     unsigned long extendedCount = 0;
     std::set<unsigned long> recycled;
     std::set<unsigned long> overwritten;
+    std::set<std::string> uniqueTargetVariantIds;
     for (const auto& targetVariantId : targetVariantIds) {
-        if (m_variantsById.find(targetVariantId) != m_variantsById.end()) {
-            if (mayOverwrite) {
-                overwritten.emplace(m_variantsById[targetVariantId]);
-            } else {
-                throw PowsyblException(stdcxx::format("Target variant '%1%' already exists", targetVariantId));
-            }
+        // check all the target variants before modifying anything
+        bool unique = uniqueTargetVariantIds.insert(targetVariantId).second;
+        if (!mayOverwrite && (!unique || m_variantsById.find(targetVariantId) != m_variantsById.end())) {
+            throw PowsyblException(stdcxx::format("Target variant '%1%' already exists", targetVariantId));
+        }
+    }
+    for (const auto& targetVariantId : targetVariantIds) {
+        if (uniqueTargetVariantIds.erase(targetVariantId) == 0) {
+            // already processed
+            continue;
+        }
+        const auto& itTarget = m_variantsById.find(targetVariantId);
+        if (itTarget != m_variantsById.end()) {
+            overwritten.emplace(itTarget->second);
         }
         else if (m_unusedIndexes.empty()) {
             // extend variant array size
-- 
2.43.0


From 9d6d52a40624366f5dcb97742878283b6e334014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:11 +0000
Subject: [PATCH 13/55] fix: aliases are kept when a network is moved

---
 src/iidm/NetworkIndex.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/iidm/NetworkIndex.cpp b/src/iidm/NetworkIndex.cpp
index 5e41e5d..a0b57da 100644
--- a/src/iidm/NetworkIndex.cpp
+++ b/src/iidm/NetworkIndex.cpp
@@ -39,7 +39,8 @@ void NetworkIndex::Deleter::operator()(Identifiable* ptr) const {
 
 NetworkIndex::NetworkIndex(Network& network, NetworkIndex&& networkIndex) noexcept :
     m_objectsById(std::move(networkIndex.m_objectsById)),
-    m_objectsByType(std::move(networkIndex.m_objectsByType)) {
+    m_objectsByType(std::move(networkIndex.m_objectsByType)),
+    m_idByAlias(std::move(networkIndex.m_idByAlias)) {
 
     // Replace the references to the old network by the new one
     m_objectsById[network.getId()].reset(&network);
-- 
2.43.0


From 5ab7bf95a020ca7fad21176ccfdac5c4dc298be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:11 +0000
Subject: [PATCH 14/55] fix: a network with unused variant indexes can be moved

---
 include/powsybl/iidm/VariantArray.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/powsybl/iidm/VariantArray.hxx b/include/powsybl/iidm/VariantArray.hxx
index b4a103a..d694d62 100644
--- a/include/powsybl/iidm/VariantArray.hxx
+++ b/include/powsybl/iidm/VariantArray.hxx
@@ -34,7 +34,8 @@ VariantArray<Owner, V, Dummy>::VariantArray(Owner& owner, VariantArray&& variant
     m_owner(owner) {
 
     for (auto& variant : variantArray.m_variants) {
-        m_variants.emplace_back(stdcxx::make_unique<V>(owner, std::move(*variant)));
+        // there is no element for the unused indexes
+        m_variants.emplace_back(variant ? stdcxx::make_unique<V>(owner, std::move(*variant)) : nullptr);
     }
 }
 
-- 
2.43.0


From 72c42d933426169942e14d43ad05129adc62b67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:11 +0000
Subject: [PATCH 15/55] fix: the id of a new object cannot be the alias of
 another object

---
 include/powsybl/iidm/NetworkIndex.hxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/powsybl/iidm/NetworkIndex.hxx b/include/powsybl/iidm/NetworkIndex.hxx
index 813b307..1346f31 100644
--- a/include/powsybl/iidm/NetworkIndex.hxx
+++ b/include/powsybl/iidm/NetworkIndex.hxx
@@ -39,6 +39,11 @@ T& NetworkIndex::checkAndAdd(std::unique_ptr<T>&& identifiable) {
         throw PowsyblException(stdcxx::format("Object '%1%' already exists (%2%)", identifiable->getId(), stdcxx::demangle(*other->second)));
     }
 
+    auto alias = m_idByAlias.find(identifiable->getId());
+    if (alias != m_idByAlias.end()) {
+        throw PowsyblException(stdcxx::format("Object '%1%' already exists (alias of object '%2%')", identifiable->getId(), alias->second));
+    }
+
     auto ptrIdentifiable = std::unique_ptr<Identifiable, Deleter>(identifiable.release());
     for (const std::string& alias : ptrIdentifiable->getAliases()) {
         addAlias(*ptrIdentifiable, alias);
-- 
2.43.0


From f837d777df0bbb4723bc0ecd13333d929c8179b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:11 +0000
Subject: [PATCH 16/55] fix: reading a network does not modify its index

---
 include/powsybl/iidm/NetworkIndex.hpp |  2 +-
 include/powsybl/iidm/NetworkIndex.hxx | 15 +++++++++++----
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/include/powsybl/iidm/NetworkIndex.hpp b/include/powsybl/iidm/NetworkIndex.hpp
index e48e555..911b41e 100644
--- a/include/powsybl/iidm/NetworkIndex.hpp
+++ b/include/powsybl/iidm/NetworkIndex.hpp
@@ -87,7 +87,7 @@ private:
 private:
     IdentifiableById m_objectsById;
 
-    mutable IdentifiablesByType m_objectsByType;
+    IdentifiablesByType m_objectsByType;
 
     std::map<std::string, std::string> m_idByAlias;
 };
diff --git a/include/powsybl/iidm/NetworkIndex.hxx b/include/powsybl/iidm/NetworkIndex.hxx
index 1346f31..80f7fc2 100644
--- a/include/powsybl/iidm/NetworkIndex.hxx
+++ b/include/powsybl/iidm/NetworkIndex.hxx
@@ -97,20 +97,27 @@ stdcxx::range<VoltageLevel> NetworkIndex::getAll<VoltageLevel, VoltageLevel>();
 
 template <typename T, typename U>
 stdcxx::const_range<U> NetworkIndex::getAll() const {
-    const auto& it = m_objectsByType[typeid(T)];
+    // this method may be called by several threads: m_objectsByType cannot be modified
+    static const Identifiables s_empty;
+
+    const auto& it = m_objectsByType.find(typeid(T));
+    const Identifiables& identifiables = it != m_objectsByType.end() ? it->second : s_empty;
 
     const auto& mapper = map<const U>;
 
-    return it | boost::adaptors::transformed(mapper);
+    return identifiables | boost::adaptors::transformed(mapper);
 }
 
 template <typename T, typename U>
 stdcxx::range<U> NetworkIndex::getAll() {
-    auto& it = m_objectsByType[typeid(T)];
+    static const Identifiables s_empty;
+
+    const auto& it = m_objectsByType.find(typeid(T));
+    const Identifiables& identifiables = it != m_objectsByType.end() ? it->second : s_empty;
 
     const auto& mapper = map<U>;
 
-    return it | boost::adaptors::transformed(mapper);
+    return identifiables | boost::adaptors::transformed(mapper);
 }
 
 template <typename T>
-- 
2.43.0


From 12e2f5dc8c77fbee2d925c3de29de6a16498e807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:12 +0000
Subject: [PATCH 17/55] fix: boolean attributes of two variants can be modified
 by two threads

---
 include/powsybl/iidm/DanglingLineGeneration.hpp | 3 ++-
 include/powsybl/iidm/Generator.hpp              | 3 ++-
 include/powsybl/iidm/ShuntCompensator.hpp       | 3 ++-
 include/powsybl/iidm/Switch.hpp                 | 6 ++++--
 include/powsybl/iidm/TapChanger.hpp             | 3 ++-
 include/powsybl/iidm/VscConverterStation.hpp    | 3 ++-
 src/iidm/BusTerminal.hpp                        | 3 ++-
 7 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/include/powsybl/iidm/DanglingLineGeneration.hpp b/include/powsybl/iidm/DanglingLineGeneration.hpp
index 4ece846..b96d869 100644
--- a/include/powsybl/iidm/DanglingLineGeneration.hpp
+++ b/include/powsybl/iidm/DanglingLineGeneration.hpp
@@ -79,7 +79,8 @@ private:
 
     std::vector<double> m_targetV;
 
-    std::vector<bool> m_voltageRegulationOn;
+    // not a std::vector<bool>: the elements are modified by different threads
+    std::vector<char> m_voltageRegulationOn;
 };
 
 }  // namespace dangling_line
diff --git a/include/powsybl/iidm/Generator.hpp b/include/powsybl/iidm/Generator.hpp
index d360bc7..f044926 100644
--- a/include/powsybl/iidm/Generator.hpp
+++ b/include/powsybl/iidm/Generator.hpp
@@ -99,7 +99,8 @@ private:
 
     std::reference_wrapper<Terminal> m_regulatingTerminal;
 
-    std::vector<bool> m_voltageRegulatorOn;
+    // not a std::vector<bool>: the elements are modified by different threads
+    std::vector<char> m_voltageRegulatorOn;
 
     std::vector<double> m_activePowerSetpoint;
 
diff --git a/include/powsybl/iidm/ShuntCompensator.hpp b/include/powsybl/iidm/ShuntCompensator.hpp
index 821c02d..0d212b6 100644
--- a/include/powsybl/iidm/ShuntCompensator.hpp
+++ b/include/powsybl/iidm/ShuntCompensator.hpp
@@ -90,7 +90,8 @@ private:
 
     std::reference_wrapper<Terminal> m_regulatingTerminal;
 
-    std::vector<bool> m_voltageRegulatorOn;
+    // not a std::vector<bool>: the elements are modified by different threads
+    std::vector<char> m_voltageRegulatorOn;
 
     std::vector<double> m_targetV;
 
diff --git a/include/powsybl/iidm/Switch.hpp b/include/powsybl/iidm/Switch.hpp
index 9a0d39c..c3ddcbe 100644
--- a/include/powsybl/iidm/Switch.hpp
+++ b/include/powsybl/iidm/Switch.hpp
@@ -63,9 +63,11 @@ private:
 
     SwitchKind m_kind;
 
-    std::vector<bool> m_open;
+    // not a std::vector<bool>: the elements are modified by different threads
+    std::vector<char> m_open;
 
-    std::vector<bool> m_retained;
+    // not a std::vector<bool>: the elements are modified by different threads
+    std::vector<char> m_retained;
 };
 
 }  // namespace iidm
diff --git a/include/powsybl/iidm/TapChanger.hpp b/include/powsybl/iidm/TapChanger.hpp
index a738d54..f081c17 100644
--- a/include/powsybl/iidm/TapChanger.hpp
+++ b/include/powsybl/iidm/TapChanger.hpp
@@ -103,7 +103,8 @@ private:
 
     std::vector<long> m_tapPosition;
 
-    std::vector<bool> m_regulating;
+    // not a std::vector<bool>: the elements are modified by different threads
+    std::vector<char> m_regulating;
 
     std::vector<double> m_targetDeadband;
 
diff --git a/include/powsybl/iidm/VscConverterStation.hpp b/include/powsybl/iidm/VscConverterStation.hpp
index d3a49d5..eee0283 100644
--- a/include/powsybl/iidm/VscConverterStation.hpp
+++ b/include/powsybl/iidm/VscConverterStation.hpp
@@ -49,7 +49,8 @@ private: // Identifiable
     const std::string& getTypeDescription() const override;
 
 private:
-    std::vector<bool> m_voltageRegulatorOn;
+    // not a std::vector<bool>: the elements are modified by different threads
+    std::vector<char> m_voltageRegulatorOn;
 
     std::vector<double> m_reactivePowerSetpoint;
 
diff --git a/src/iidm/BusTerminal.hpp b/src/iidm/BusTerminal.hpp
index ae19e82..1bef78e 100644
--- a/src/iidm/BusTerminal.hpp
+++ b/src/iidm/BusTerminal.hpp
@@ -81,7 +81,8 @@ protected: // MultiVariantObject
     void reduceVariantArraySize(unsigned long number) override;
 
 private:
-    std::vector<bool> m_connected;
+    // not a std::vector<bool>: the elements are modified by different threads
+    std::vector<char> m_connected;
 
     std::vector<std::string> m_connectableBusId;
 
-- 
2.43.0


From 8acbcb701ba56a19a12bf8dcb1750a0ac8c4a41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:58 +0000
Subject: [PATCH 18/55] fix: the working variants of several networks are
 independent in a thread

---
 .../ThreadLocalMultipleVariantContext.cpp     | 37 +++++++++++++++----
 .../ThreadLocalMultipleVariantContext.hpp     | 21 +++++++----
 2 files changed, 42 insertions(+), 16 deletions(-)

diff --git a/src/iidm/ThreadLocalMultipleVariantContext.cpp b/src/iidm/ThreadLocalMultipleVariantContext.cpp
index 3eb7ab0..2338152 100644
--- a/src/iidm/ThreadLocalMultipleVariantContext.cpp
+++ b/src/iidm/ThreadLocalMultipleVariantContext.cpp
@@ -7,6 +7,7 @@
 
 #include "ThreadLocalMultipleVariantContext.hpp"
 
+#include <atomic>
 #include <thread>
 
 #include <powsybl/PowsyblException.hpp>
@@ -16,31 +17,51 @@ namespace powsybl {
 
 namespace iidm {
 
-thread_local stdcxx::optional<unsigned long> ThreadLocalMultipleVariantContext::m_index;
+static unsigned long nextContextId() {
+    static std::atomic<unsigned long> s_contextId(0);
+
+    return s_contextId++;
+}
+
+ThreadLocalMultipleVariantContext::ThreadLocalMultipleVariantContext() :
+    m_contextId(nextContextId()) {
+}
+
+ThreadLocalMultipleVariantContext::~ThreadLocalMultipleVariantContext() noexcept {
+    reset();
+}
+
+std::unordered_map<unsigned long, unsigned long>& ThreadLocalMultipleVariantContext::getIndexes() {
+    static thread_local std::unordered_map<unsigned long, unsigned long> s_indexes;
+
+    return s_indexes;
+}
 
 unsigned long ThreadLocalMultipleVariantContext::getVariantIndex() const {
-    if (m_index) {
-        return *m_index;
+    const auto& indexes = getIndexes();
+    const auto& it = indexes.find(m_contextId);
+    if (it != indexes.end()) {
+        return it->second;
     }
     throw PowsyblException(stdcxx::format("Variant index not set for current thread %1%", std::this_thread::get_id()));
 }
 
 bool ThreadLocalMultipleVariantContext::isIndexSet() const {
-    return static_cast<bool>(m_index);
+    return getIndexes().find(m_contextId) != getIndexes().end();
 }
 
 void ThreadLocalMultipleVariantContext::reset() {
-    m_index.reset();
+    getIndexes().erase(m_contextId);
 }
 
 void ThreadLocalMultipleVariantContext::resetIfVariantIndexIs(unsigned long index) {
-    if (m_index && m_index == index) {
-        m_index.reset();
+    if (isIndexSet() && getVariantIndex() == index) {
+        reset();
     }
 }
 
 void ThreadLocalMultipleVariantContext::setVariantIndex(unsigned long index) {
-    m_index = index;
+    getIndexes()[m_contextId] = index;
 }
 
 }  // namespace iidm
diff --git a/src/iidm/ThreadLocalMultipleVariantContext.hpp b/src/iidm/ThreadLocalMultipleVariantContext.hpp
index 0c8d9a1..0d4da8e 100644
--- a/src/iidm/ThreadLocalMultipleVariantContext.hpp
+++ b/src/iidm/ThreadLocalMultipleVariantContext.hpp
@@ -8,8 +8,9 @@
 #ifndef POWSYBL_IIDM_THREADLOCALMULTIPLEVARIANTCONTEXT_HPP
 #define POWSYBL_IIDM_THREADLOCALMULTIPLEVARIANTCONTEXT_HPP
 
+#include <unordered_map>
+
 #include <powsybl/iidm/VariantContext.hpp>
-#include <powsybl/stdcxx/optional.hpp>
 
 namespace powsybl {
 
@@ -26,22 +27,26 @@ public:  // VariantContext
     void setVariantIndex(unsigned long index) override;
 
 public:
-    ThreadLocalMultipleVariantContext() = default;
+    ThreadLocalMultipleVariantContext();
 
-    ThreadLocalMultipleVariantContext(const ThreadLocalMultipleVariantContext&) = default;
+    ThreadLocalMultipleVariantContext(const ThreadLocalMultipleVariantContext&) = delete;
 
-    ThreadLocalMultipleVariantContext(ThreadLocalMultipleVariantContext&&) noexcept = default;
+    ThreadLocalMultipleVariantContext(ThreadLocalMultipleVariantContext&&) noexcept = delete;
 
-    ~ThreadLocalMultipleVariantContext() noexcept override = default;
+    ~ThreadLocalMultipleVariantContext() noexcept override;
 
-    ThreadLocalMultipleVariantContext& operator=(const ThreadLocalMultipleVariantContext&) = default;
+    ThreadLocalMultipleVariantContext& operator=(const ThreadLocalMultipleVariantContext&) = delete;
 
-    ThreadLocalMultipleVariantContext& operator=(ThreadLocalMultipleVariantContext&&) noexcept = default;
+    ThreadLocalMultipleVariantContext& operator=(ThreadLocalMultipleVariantContext&&) noexcept = delete;
 
     void reset();
 
 private:
-    static thread_local stdcxx::optional<unsigned long> m_index;
+    // each thread has one index per context: a thread may work on several networks
+    static std::unordered_map<unsigned long, unsigned long>& getIndexes();
+
+private:
+    const unsigned long m_contextId;
 };
 
 }  // namespace iidm
-- 
2.43.0


From 4a5536275a268fb0b41e97f1e909c4e215e6ba00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:58 +0000
Subject: [PATCH 19/55] fix: changing the low tap position shifts the tap
 position of every variant

---
 include/powsybl/iidm/TapChanger.hxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/powsybl/iidm/TapChanger.hxx b/include/powsybl/iidm/TapChanger.hxx
index 56afb8e..2f9b200 100644
--- a/include/powsybl/iidm/TapChanger.hxx
+++ b/include/powsybl/iidm/TapChanger.hxx
@@ -167,7 +167,10 @@ template<typename H, typename C, typename S>
 C& TapChanger<H, C, S>::setLowTapPosition(long lowTapPosition) {
     long oldValue = m_lowTapPosition;
     m_lowTapPosition = lowTapPosition;
-    m_tapPosition[getNetwork().getVariantIndex()] = getTapPosition() + m_lowTapPosition - oldValue;
+    // the low tap position is shared by all the variants
+    for (long& tapPosition : m_tapPosition) {
+        tapPosition += m_lowTapPosition - oldValue;
+    }
 
     return static_cast<C&>(*this);
 }
-- 
2.43.0


From a66a5995dc0a8210ec8f5e445fc8723795e6db00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:10 +0000
Subject: [PATCH 20/55] fix: references to the terminals of a removed equipment
 are reset

---
 .../iidm/RemoteReactivePowerControl.hpp         |  2 ++
 .../iidm/src/RemoteReactivePowerControl.cpp     |  7 +++++++
 include/powsybl/iidm/Connectable.hpp            |  6 ++++++
 include/powsybl/iidm/Extension.hpp              |  6 ++++++
 include/powsybl/iidm/Generator.hpp              |  3 +++
 include/powsybl/iidm/ShuntCompensator.hpp       |  3 +++
 include/powsybl/iidm/StaticVarCompensator.hpp   |  3 +++
 include/powsybl/iidm/TapChanger.hpp             |  2 ++
 include/powsybl/iidm/TapChanger.hxx             |  9 +++++++++
 .../powsybl/iidm/ThreeWindingsTransformer.hpp   |  3 +++
 include/powsybl/iidm/TwoWindingsTransformer.hpp |  3 +++
 .../powsybl/iidm/extensions/SlackTerminal.hpp   |  2 ++
 src/iidm/Connectable.cpp                        | 17 +++++++++++++++++
 src/iidm/Extension.cpp                          |  4 ++++
 src/iidm/Generator.cpp                          |  7 +++++++
 src/iidm/ShuntCompensator.cpp                   |  7 +++++++
 src/iidm/StaticVarCompensator.cpp               |  7 +++++++
 src/iidm/ThreeWindingsTransformer.cpp           | 11 +++++++++++
 src/iidm/TwoWindingsTransformer.cpp             |  9 +++++++++
 src/iidm/extensions/SlackTerminal.cpp           |  9 +++++++++
 20 files changed, 120 insertions(+)

diff --git a/extensions/iidm/include/powsybl/iidm/extensions/iidm/RemoteReactivePowerControl.hpp b/extensions/iidm/include/powsybl/iidm/extensions/iidm/RemoteReactivePowerControl.hpp
index 5cc2a20..94a113b 100644
--- a/extensions/iidm/include/powsybl/iidm/extensions/iidm/RemoteReactivePowerControl.hpp
+++ b/extensions/iidm/include/powsybl/iidm/extensions/iidm/RemoteReactivePowerControl.hpp
@@ -30,6 +30,8 @@ public:  // Extension
 
     const std::type_index& getType() const override;
 
+    void onTerminalRemoved(const Terminal& removedTerminal) override;
+
 public:
     ~RemoteReactivePowerControl() noexcept override = default;
 
diff --git a/extensions/iidm/src/RemoteReactivePowerControl.cpp b/extensions/iidm/src/RemoteReactivePowerControl.cpp
index 1ac4025..0abcbcd 100644
--- a/extensions/iidm/src/RemoteReactivePowerControl.cpp
+++ b/extensions/iidm/src/RemoteReactivePowerControl.cpp
@@ -11,6 +11,7 @@
 #include <powsybl/iidm/Terminal.hpp>
 #include <powsybl/stdcxx/format.hpp>
 #include <powsybl/stdcxx/instanceof.hpp>
+#include <powsybl/stdcxx/memory.hpp>
 
 namespace powsybl {
 
@@ -59,6 +60,12 @@ bool RemoteReactivePowerControl::isEnabled() const {
     return m_enabled;
 }
 
+void RemoteReactivePowerControl::onTerminalRemoved(const Terminal& removedTerminal) {
+    if (stdcxx::areSame(m_regulatingTerminal.get(), removedTerminal)) {
+        m_regulatingTerminal = getExtendable<Generator>().get().getTerminal();
+    }
+}
+
 }  // namespace iidm
 
 }  // namespace extensions
diff --git a/include/powsybl/iidm/Connectable.hpp b/include/powsybl/iidm/Connectable.hpp
index ea868c5..a1c8609 100644
--- a/include/powsybl/iidm/Connectable.hpp
+++ b/include/powsybl/iidm/Connectable.hpp
@@ -54,6 +54,12 @@ protected:
 
     Terminal& getTerminal(unsigned long index);
 
+private:
+    /**
+     * Called when a terminal is about to be removed: it can no longer be referenced by this connectable
+     */
+    virtual void onTerminalRemoved(const Terminal& removedTerminal);
+
 private:
     ConnectableType m_connectableType;
 
diff --git a/include/powsybl/iidm/Extension.hpp b/include/powsybl/iidm/Extension.hpp
index e86363a..0d073b1 100644
--- a/include/powsybl/iidm/Extension.hpp
+++ b/include/powsybl/iidm/Extension.hpp
@@ -20,6 +20,7 @@ namespace powsybl {
 namespace iidm {
 
 class Extendable;
+class Terminal;
 
 class Extension {
 public:
@@ -49,6 +50,11 @@ public:
 
     void setExtendable(const stdcxx::Reference<Extendable>& extendable);
 
+    /**
+     * Called when a terminal of the network is about to be removed: it can no longer be referenced by this extension
+     */
+    virtual void onTerminalRemoved(const Terminal& removedTerminal);
+
 protected:
     explicit Extension(Extendable& extendable);
 
diff --git a/include/powsybl/iidm/Generator.hpp b/include/powsybl/iidm/Generator.hpp
index f044926..75422e1 100644
--- a/include/powsybl/iidm/Generator.hpp
+++ b/include/powsybl/iidm/Generator.hpp
@@ -85,6 +85,9 @@ protected: // MultiVariantObject
 
     void reduceVariantArraySize(unsigned long number) override;
 
+private: // Connectable
+    void onTerminalRemoved(const Terminal& removedTerminal) override;
+
 private: // Identifiable
     const std::string& getTypeDescription() const override;
 
diff --git a/include/powsybl/iidm/ShuntCompensator.hpp b/include/powsybl/iidm/ShuntCompensator.hpp
index 0d212b6..80371fd 100644
--- a/include/powsybl/iidm/ShuntCompensator.hpp
+++ b/include/powsybl/iidm/ShuntCompensator.hpp
@@ -79,6 +79,9 @@ protected: // MultiVariantObject
 
     void reduceVariantArraySize(unsigned long number) override;
 
+private: // Connectable
+    void onTerminalRemoved(const Terminal& removedTerminal) override;
+
 private: // Identifiable
     const std::string& getTypeDescription() const override;
 
diff --git a/include/powsybl/iidm/StaticVarCompensator.hpp b/include/powsybl/iidm/StaticVarCompensator.hpp
index 6e4f396..393bbe2 100644
--- a/include/powsybl/iidm/StaticVarCompensator.hpp
+++ b/include/powsybl/iidm/StaticVarCompensator.hpp
@@ -66,6 +66,9 @@ protected: // MultiVariantObject
 
     void reduceVariantArraySize(unsigned long number) override;
 
+private: // Connectable
+    void onTerminalRemoved(const Terminal& removedTerminal) override;
+
 private: // Identifiable
     const std::string& getTypeDescription() const override;
 
diff --git a/include/powsybl/iidm/TapChanger.hpp b/include/powsybl/iidm/TapChanger.hpp
index f081c17..1eb6da8 100644
--- a/include/powsybl/iidm/TapChanger.hpp
+++ b/include/powsybl/iidm/TapChanger.hpp
@@ -68,6 +68,8 @@ public:
 
     bool isRegulating() const;
 
+    void onTerminalRemoved(const Terminal& removedTerminal);
+
     virtual void remove() = 0;
 
     C& setLowTapPosition(long lowTapPosition);
diff --git a/include/powsybl/iidm/TapChanger.hxx b/include/powsybl/iidm/TapChanger.hxx
index 2f9b200..0ba9f35 100644
--- a/include/powsybl/iidm/TapChanger.hxx
+++ b/include/powsybl/iidm/TapChanger.hxx
@@ -163,6 +163,15 @@ void TapChanger<H, C, S>::reduceVariantArraySize(unsigned long number) {
     m_targetDeadband.resize(m_targetDeadband.size() - number);
 }
 
+template<typename H, typename C, typename S>
+void TapChanger<H, C, S>::onTerminalRemoved(const Terminal& removedTerminal) {
+    if (static_cast<bool>(m_regulationTerminal) && stdcxx::areSame(m_regulationTerminal.get(), removedTerminal)) {
+        // nothing to regulate anymore
+        m_regulationTerminal.reset();
+        m_regulating.assign(m_regulating.size(), false);
+    }
+}
+
 template<typename H, typename C, typename S>
 C& TapChanger<H, C, S>::setLowTapPosition(long lowTapPosition) {
     long oldValue = m_lowTapPosition;
diff --git a/include/powsybl/iidm/ThreeWindingsTransformer.hpp b/include/powsybl/iidm/ThreeWindingsTransformer.hpp
index 5a85e2b..cb5e924 100644
--- a/include/powsybl/iidm/ThreeWindingsTransformer.hpp
+++ b/include/powsybl/iidm/ThreeWindingsTransformer.hpp
@@ -70,6 +70,9 @@ protected: // MultiVariantObject
 
     void reduceVariantArraySize(unsigned long number) override;
 
+private: // Connectable
+    void onTerminalRemoved(const Terminal& removedTerminal) override;
+
 private: // Identifiable
     const std::string& getTypeDescription() const override;
 
diff --git a/include/powsybl/iidm/TwoWindingsTransformer.hpp b/include/powsybl/iidm/TwoWindingsTransformer.hpp
index 39354e6..697dd46 100644
--- a/include/powsybl/iidm/TwoWindingsTransformer.hpp
+++ b/include/powsybl/iidm/TwoWindingsTransformer.hpp
@@ -90,6 +90,9 @@ protected: // MultiVariantObject
 
     void reduceVariantArraySize(unsigned long number) override;
 
+private: // Connectable
+    void onTerminalRemoved(const Terminal& removedTerminal) override;
+
 private:  // Identifiable
     const std::string& getTypeDescription() const override;
 
diff --git a/include/powsybl/iidm/extensions/SlackTerminal.hpp b/include/powsybl/iidm/extensions/SlackTerminal.hpp
index 195e665..6d9d518 100644
--- a/include/powsybl/iidm/extensions/SlackTerminal.hpp
+++ b/include/powsybl/iidm/extensions/SlackTerminal.hpp
@@ -37,6 +37,8 @@ public:  // Extension
 
     const std::type_index& getType() const override;
 
+    void onTerminalRemoved(const Terminal& removedTerminal) override;
+
 public:  // MultiVariantObject
     void allocateVariantArrayElement(const std::set<unsigned long>& indexes, unsigned long sourceIndex) override;
 
diff --git a/src/iidm/Connectable.cpp b/src/iidm/Connectable.cpp
index 4507a25..21cf5c4 100644
--- a/src/iidm/Connectable.cpp
+++ b/src/iidm/Connectable.cpp
@@ -92,9 +92,26 @@ void Connectable::reduceVariantArraySize(unsigned long number) {
     }
 }
 
+void Connectable::onTerminalRemoved(const Terminal& /*removedTerminal*/) {
+    // no reference to other terminals by default
+}
+
 void Connectable::remove() {
     Network& network = getNetwork();
 
+    // the terminals may be referenced by other equipments or by extensions
+    for (Identifiable& identifiable : network.getIdentifiables()) {
+        auto* connectable = dynamic_cast<Connectable*>(&identifiable);
+        for (const auto& terminal : m_terminals) {
+            if (connectable != nullptr && connectable != this) {
+                connectable->onTerminalRemoved(*terminal);
+            }
+            for (Extension& extension : identifiable.getExtensions()) {
+                extension.onTerminalRemoved(*terminal);
+            }
+        }
+    }
+
     for (auto& terminal : m_terminals) {
         VoltageLevel& voltageLevel = terminal->getVoltageLevel();
         voltageLevel.detach(*terminal);
diff --git a/src/iidm/Extension.cpp b/src/iidm/Extension.cpp
index 64f968f..6c4eea6 100644
--- a/src/iidm/Extension.cpp
+++ b/src/iidm/Extension.cpp
@@ -18,6 +18,10 @@ Extension::Extension(powsybl::iidm::Extendable& extendable) :
     m_extendable(extendable) {
 }
 
+void Extension::onTerminalRemoved(const Terminal& /*removedTerminal*/) {
+    // no reference to terminals by default
+}
+
 void Extension::setExtendable(powsybl::iidm::Extendable& extendable) {
     setExtendable(stdcxx::ref(extendable));
 }
diff --git a/src/iidm/Generator.cpp b/src/iidm/Generator.cpp
index 903879a..1db4aeb 100644
--- a/src/iidm/Generator.cpp
+++ b/src/iidm/Generator.cpp
@@ -9,6 +9,7 @@
 
 #include <powsybl/iidm/ValidationUtils.hpp>
 #include <powsybl/iidm/VariantManager.hpp>
+#include <powsybl/stdcxx/memory.hpp>
 
 namespace powsybl {
 
@@ -110,6 +111,12 @@ bool Generator::isVoltageRegulatorOn() const {
     return m_voltageRegulatorOn.at(getNetwork().getVariantIndex());
 }
 
+void Generator::onTerminalRemoved(const Terminal& removedTerminal) {
+    if (stdcxx::areSame(m_regulatingTerminal.get(), removedTerminal)) {
+        m_regulatingTerminal = getTerminal();
+    }
+}
+
 void Generator::reduceVariantArraySize(unsigned long number) {
     Injection::reduceVariantArraySize(number);
 
diff --git a/src/iidm/ShuntCompensator.cpp b/src/iidm/ShuntCompensator.cpp
index 1e7ac9e..babdbd3 100644
--- a/src/iidm/ShuntCompensator.cpp
+++ b/src/iidm/ShuntCompensator.cpp
@@ -10,6 +10,7 @@
 #include <powsybl/iidm/ShuntCompensatorModel.hpp>
 #include <powsybl/iidm/ValidationUtils.hpp>
 #include <powsybl/iidm/VariantManager.hpp>
+#include <powsybl/stdcxx/memory.hpp>
 
 namespace powsybl {
 
@@ -110,6 +111,12 @@ const std::string& ShuntCompensator::getTypeDescription() const {
     return s_typeDescription;
 }
 
+void ShuntCompensator::onTerminalRemoved(const Terminal& removedTerminal) {
+    if (stdcxx::areSame(m_regulatingTerminal.get(), removedTerminal)) {
+        m_regulatingTerminal = getTerminal();
+    }
+}
+
 void ShuntCompensator::reduceVariantArraySize(unsigned long number) {
     Injection::reduceVariantArraySize(number);
 
diff --git a/src/iidm/StaticVarCompensator.cpp b/src/iidm/StaticVarCompensator.cpp
index 4ccc4ce..1da870c 100644
--- a/src/iidm/StaticVarCompensator.cpp
+++ b/src/iidm/StaticVarCompensator.cpp
@@ -11,6 +11,7 @@
 #include <powsybl/iidm/ValidationUtils.hpp>
 #include <powsybl/iidm/VariantManager.hpp>
 #include <powsybl/stdcxx/format.hpp>
+#include <powsybl/stdcxx/memory.hpp>
 
 namespace powsybl {
 
@@ -80,6 +81,12 @@ double StaticVarCompensator::getVoltageSetpoint() const {
     return m_voltageSetpoint.at(getNetwork().getVariantIndex());
 }
 
+void StaticVarCompensator::onTerminalRemoved(const Terminal& removedTerminal) {
+    if (stdcxx::areSame(m_regulatingTerminal.get(), removedTerminal)) {
+        m_regulatingTerminal = getTerminal();
+    }
+}
+
 void StaticVarCompensator::reduceVariantArraySize(unsigned long number) {
     Injection::reduceVariantArraySize(number);
 
diff --git a/src/iidm/ThreeWindingsTransformer.cpp b/src/iidm/ThreeWindingsTransformer.cpp
index 7e8f9b9..fe8c583 100644
--- a/src/iidm/ThreeWindingsTransformer.cpp
+++ b/src/iidm/ThreeWindingsTransformer.cpp
@@ -145,6 +145,17 @@ const std::string& ThreeWindingsTransformer::getTypeDescription() const {
     return s_typeDescription;
 }
 
+void ThreeWindingsTransformer::onTerminalRemoved(const Terminal& removedTerminal) {
+    for (Leg& leg : m_legs) {
+        if (leg.hasRatioTapChanger()) {
+            leg.getRatioTapChanger().onTerminalRemoved(removedTerminal);
+        }
+        if (leg.hasPhaseTapChanger()) {
+            leg.getPhaseTapChanger().onTerminalRemoved(removedTerminal);
+        }
+    }
+}
+
 void ThreeWindingsTransformer::reduceVariantArraySize(unsigned long number) {
     Connectable::reduceVariantArraySize(number);
 
diff --git a/src/iidm/TwoWindingsTransformer.cpp b/src/iidm/TwoWindingsTransformer.cpp
index 3bd2cec..2389b69 100644
--- a/src/iidm/TwoWindingsTransformer.cpp
+++ b/src/iidm/TwoWindingsTransformer.cpp
@@ -157,6 +157,15 @@ RatioTapChangerAdder TwoWindingsTransformer::newRatioTapChanger() {
     return RatioTapChangerAdder(*this);
 }
 
+void TwoWindingsTransformer::onTerminalRemoved(const Terminal& removedTerminal) {
+    if (m_ratioTapChanger) {
+        m_ratioTapChanger->onTerminalRemoved(removedTerminal);
+    }
+    if (m_phaseTapChanger) {
+        m_phaseTapChanger->onTerminalRemoved(removedTerminal);
+    }
+}
+
 void TwoWindingsTransformer::reduceVariantArraySize(unsigned long number) {
     Branch::reduceVariantArraySize(number);
 
diff --git a/src/iidm/extensions/SlackTerminal.cpp b/src/iidm/extensions/SlackTerminal.cpp
index b0f1ca3..8c15554 100644
--- a/src/iidm/extensions/SlackTerminal.cpp
+++ b/src/iidm/extensions/SlackTerminal.cpp
@@ -13,6 +13,7 @@
 #include <powsybl/iidm/VoltageLevel.hpp>
 #include <powsybl/iidm/extensions/SlackTerminalAdder.hpp>
 #include <powsybl/iidm/util/TerminalFinder.hpp>
+#include <powsybl/stdcxx/memory.hpp>
 
 namespace powsybl {
 
@@ -81,6 +82,14 @@ bool SlackTerminal::isEmpty() const {
     return it == m_terminals.end();
 }
 
+void SlackTerminal::onTerminalRemoved(const Terminal& removedTerminal) {
+    for (auto& terminal : m_terminals) {
+        if (terminal && stdcxx::areSame(terminal.get(), removedTerminal)) {
+            terminal.reset();
+        }
+    }
+}
+
 void SlackTerminal::reduceVariantArraySize(unsigned long number) {
     m_terminals.resize(number); // remove elements from the top to avoid moves inside the array
 }
-- 
2.43.0


From 4013d5b2b30492fc34716684dcb797a9a0b38f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:10 +0000
Subject: [PATCH 21/55] fix: slack terminals are kept when variants at the end
 of the array are removed

---
 src/iidm/extensions/SlackTerminal.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iidm/extensions/SlackTerminal.cpp b/src/iidm/extensions/SlackTerminal.cpp
index 8c15554..4632c60 100644
--- a/src/iidm/extensions/SlackTerminal.cpp
+++ b/src/iidm/extensions/SlackTerminal.cpp
@@ -91,7 +91,7 @@ void SlackTerminal::onTerminalRemoved(const Terminal& removedTerminal) {
 }
 
 void SlackTerminal::reduceVariantArraySize(unsigned long number) {
-    m_terminals.resize(number); // remove elements from the top to avoid moves inside the array
+    m_terminals.resize(m_terminals.size() - number); // remove elements from the top to avoid moves inside the array
 }
 
 void SlackTerminal::reset(Network& network) {
-- 
2.43.0


From 9b67f489400991ce62d327fe9f2aca3afeee540f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:10 +0000
Subject: [PATCH 22/55] fix: ratio tap changer regulating without regulation
 terminal

---
 src/iidm/ValidationUtils.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/iidm/ValidationUtils.cpp b/src/iidm/ValidationUtils.cpp
index e727de3..b4eca9d 100644
--- a/src/iidm/ValidationUtils.cpp
+++ b/src/iidm/ValidationUtils.cpp
@@ -330,8 +330,7 @@ void checkRatioTapChangerRegulation(const Validable& validable, bool regulating,
         }
         if (!regulationTerminal) {
             throwExceptionOrWarningForRtc(validable, loadTapChangingCapabilities, "a regulation terminal has to be set for a regulating ratio tap changer");
-        }
-        if (!stdcxx::areSame(regulationTerminal.get().getVoltageLevel().getNetwork(), network)) {
+        } else if (!stdcxx::areSame(regulationTerminal.get().getVoltageLevel().getNetwork(), network)) {
             throwExceptionOrWarningForRtc(validable, loadTapChangingCapabilities, "regulation terminal is not part of the network");
         }
     }
-- 
2.43.0


From d4022826ec6728505cf995b907686cc577b2d2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:51 +0000
Subject: [PATCH 23/55] fix: attributes shared by the variants are validated
 against every variant

---
 src/iidm/PhaseTapChanger.cpp             | 11 +++++++++--
 src/iidm/RatioTapChanger.cpp             | 11 +++++++++--
 src/iidm/ShuntCompensatorLinearModel.cpp |  6 +++++-
 3 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/iidm/PhaseTapChanger.cpp b/src/iidm/PhaseTapChanger.cpp
index d607d70..84ec56c 100644
--- a/src/iidm/PhaseTapChanger.cpp
+++ b/src/iidm/PhaseTapChanger.cpp
@@ -10,6 +10,7 @@
 #include <powsybl/iidm/Enum.hpp>
 #include <powsybl/iidm/TwoWindingsTransformer.hpp>
 #include <powsybl/iidm/ValidationUtils.hpp>
+#include <powsybl/iidm/VariantManager.hpp>
 #include <powsybl/stdcxx/format.hpp>
 
 namespace powsybl {
@@ -58,13 +59,19 @@ void PhaseTapChanger::remove() {
 }
 
 PhaseTapChanger& PhaseTapChanger::setRegulationMode(const RegulationMode& regulationMode) {
-    checkPhaseTapChangerRegulation(getParent(), regulationMode, getRegulationValue(), isRegulating(), getRegulationTerminal(), getNetwork());
+    // the regulation mode is shared by all the variants
+    getNetwork().getVariantManager().forEachVariant([this, &regulationMode]() {
+        checkPhaseTapChangerRegulation(getParent(), regulationMode, getRegulationValue(), isRegulating(), getRegulationTerminal(), getNetwork());
+    });
     m_regulationMode = regulationMode;
     return *this;
 }
 
 PhaseTapChanger& PhaseTapChanger::setRegulationTerminal(const stdcxx::Reference<Terminal>& regulationTerminal) {
-    checkPhaseTapChangerRegulation(getParent(), m_regulationMode, getRegulationValue(), isRegulating(), regulationTerminal, getNetwork());
+    // the regulation terminal is shared by all the variants
+    getNetwork().getVariantManager().forEachVariant([this, &regulationTerminal]() {
+        checkPhaseTapChangerRegulation(getParent(), m_regulationMode, getRegulationValue(), isRegulating(), regulationTerminal, getNetwork());
+    });
     return TapChanger::setRegulationTerminal(regulationTerminal);
 }
 
diff --git a/src/iidm/RatioTapChanger.cpp b/src/iidm/RatioTapChanger.cpp
index 854d427..078e547 100644
--- a/src/iidm/RatioTapChanger.cpp
+++ b/src/iidm/RatioTapChanger.cpp
@@ -9,6 +9,7 @@
 
 #include <powsybl/iidm/RatioTapChangerHolder.hpp>
 #include <powsybl/iidm/ValidationUtils.hpp>
+#include <powsybl/iidm/VariantManager.hpp>
 
 namespace powsybl {
 
@@ -56,7 +57,10 @@ void RatioTapChanger::remove() {
 }
 
 RatioTapChanger& RatioTapChanger::setLoadTapChangingCapabilities(bool loadTapChangingCapabilities) {
-    checkRatioTapChangerRegulation(getParent(), isRegulating(), m_loadTapChangingCapabilities, getRegulationTerminal(), getTargetV(), getNetwork());
+    // these capabilities are shared by all the variants
+    getNetwork().getVariantManager().forEachVariant([this, loadTapChangingCapabilities]() {
+        checkRatioTapChangerRegulation(getParent(), isRegulating(), loadTapChangingCapabilities, getRegulationTerminal(), getTargetV(), getNetwork());
+    });
     m_loadTapChangingCapabilities = loadTapChangingCapabilities;
     return *this;
 }
@@ -67,7 +71,10 @@ RatioTapChanger& RatioTapChanger::setRegulating(bool regulating) {
 }
 
 RatioTapChanger& RatioTapChanger::setRegulationTerminal(const stdcxx::Reference<Terminal>& regulationTerminal) {
-    checkRatioTapChangerRegulation(getParent(), isRegulating(), m_loadTapChangingCapabilities, regulationTerminal, getTargetV(), getNetwork());
+    // the regulation terminal is shared by all the variants
+    getNetwork().getVariantManager().forEachVariant([this, &regulationTerminal]() {
+        checkRatioTapChangerRegulation(getParent(), isRegulating(), m_loadTapChangingCapabilities, regulationTerminal, getTargetV(), getNetwork());
+    });
     return TapChanger::setRegulationTerminal(regulationTerminal);
 }
 
diff --git a/src/iidm/ShuntCompensatorLinearModel.cpp b/src/iidm/ShuntCompensatorLinearModel.cpp
index cb9f4c1..117e960 100644
--- a/src/iidm/ShuntCompensatorLinearModel.cpp
+++ b/src/iidm/ShuntCompensatorLinearModel.cpp
@@ -10,6 +10,7 @@
 #include <powsybl/AssertionError.hpp>
 #include <powsybl/iidm/ShuntCompensator.hpp>
 #include <powsybl/iidm/ValidationUtils.hpp>
+#include <powsybl/iidm/VariantManager.hpp>
 #include <powsybl/stdcxx/format.hpp>
 
 namespace powsybl {
@@ -73,7 +74,10 @@ ShuntCompensatorLinearModel& ShuntCompensatorLinearModel::setGPerSection(double
 }
 
 ShuntCompensatorLinearModel& ShuntCompensatorLinearModel::setMaximumSectionCount(unsigned long maximumSectionCount) {
-    checkSections(m_shuntCompensator, m_shuntCompensator.get().getSectionCount(), maximumSectionCount);
+    // the model is shared by all the variants
+    m_shuntCompensator.get().getNetwork().getVariantManager().forEachVariant([this, maximumSectionCount]() {
+        checkSections(m_shuntCompensator, m_shuntCompensator.get().getSectionCount(), maximumSectionCount);
+    });
     m_maximumSectionCount = maximumSectionCount;
     return *this;
 }
-- 
2.43.0


From 9b19b7d1a0d8b1d246b473358e3bbafd11d6b744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:06 +0000
Subject: [PATCH 24/55] fix: a replaced extension is kept when the new one is
 refused

---
 src/iidm/Extendable.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/iidm/Extendable.cpp b/src/iidm/Extendable.cpp
index 2b14f44..77a0ab3 100644
--- a/src/iidm/Extendable.cpp
+++ b/src/iidm/Extendable.cpp
@@ -27,15 +27,17 @@ Extendable::Extendable(Extendable&& extendable) noexcept :
 }
 
 void Extendable::addExtension(std::unique_ptr<Extension>&& extension) {
+    // Check first that the new extension is acceptable: the existing one is kept if it's not the case
+    extension->setExtendable(*this);
+
     auto it = m_extensionsByName.find(extension->getName());
     if (it != m_extensionsByName.end()) {
         // Clean the existing extension
         it->second->setExtendable(stdcxx::ref<Extendable>());
-        m_extensionsByName.erase(extension->getName());
-        m_extensionsByType.erase(extension->getType());
+        m_extensionsByType.erase(it->second->getType());
+        m_extensionsByName.erase(it);
     }
 
-    extension->setExtendable(*this);
     auto newIt = m_extensionsByName.emplace(std::make_pair(extension->getName(), std::move(extension)));
 
     std::reference_wrapper<Extension> refExtension = *newIt.first->second;
-- 
2.43.0


From c840cacea97b4c489bf9e24fb2cf85209afc7a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:06 +0000
Subject: [PATCH 25/55] fix: regulating flag of a phase tap changer is
 validated

---
 include/powsybl/iidm/PhaseTapChanger.hpp | 2 ++
 src/iidm/PhaseTapChanger.cpp             | 5 +++++
 2 files changed, 7 insertions(+)

diff --git a/include/powsybl/iidm/PhaseTapChanger.hpp b/include/powsybl/iidm/PhaseTapChanger.hpp
index 1b32814..3878a3f 100644
--- a/include/powsybl/iidm/PhaseTapChanger.hpp
+++ b/include/powsybl/iidm/PhaseTapChanger.hpp
@@ -35,6 +35,8 @@ public: // MultiVariantObject
 public: // TapChanger
     void remove() override;
 
+    PhaseTapChanger& setRegulating(bool regulating) override;
+
     PhaseTapChanger& setRegulationTerminal(const stdcxx::Reference<Terminal>& regulationTerminal) override;
 
 public:
diff --git a/src/iidm/PhaseTapChanger.cpp b/src/iidm/PhaseTapChanger.cpp
index 84ec56c..121d633 100644
--- a/src/iidm/PhaseTapChanger.cpp
+++ b/src/iidm/PhaseTapChanger.cpp
@@ -58,6 +58,11 @@ void PhaseTapChanger::remove() {
     return getParent().setPhaseTapChanger(std::unique_ptr<PhaseTapChanger>());
 }
 
+PhaseTapChanger& PhaseTapChanger::setRegulating(bool regulating) {
+    checkPhaseTapChangerRegulation(getParent(), m_regulationMode, getRegulationValue(), regulating, getRegulationTerminal(), getNetwork());
+    return TapChanger::setRegulating(regulating);
+}
+
 PhaseTapChanger& PhaseTapChanger::setRegulationMode(const RegulationMode& regulationMode) {
     // the regulation mode is shared by all the variants
     getNetwork().getVariantManager().forEachVariant([this, &regulationMode]() {
-- 
2.43.0


From 1fe006d1ec7a283703c84c7252ab1e3837188428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:21 +0000
Subject: [PATCH 26/55] fix: equipment can be attached to a bus with no working
 variant

---
 src/iidm/BusBreakerVoltageLevel.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/iidm/BusBreakerVoltageLevel.cpp b/src/iidm/BusBreakerVoltageLevel.cpp
index b865a41..126ed4b 100644
--- a/src/iidm/BusBreakerVoltageLevel.cpp
+++ b/src/iidm/BusBreakerVoltageLevel.cpp
@@ -66,13 +66,15 @@ void BusBreakerVoltageLevel::allocateVariantArrayElement(const std::set<unsigned
 }
 
 void BusBreakerVoltageLevel::attach(Terminal& terminal, bool test) {
-    checkTerminal(terminal);
+    // the working variant might not be set: the connectable bus is read in every variant
+    getNetwork().getVariantManager().forEachVariant([&terminal, this]() {
+        checkTerminal(terminal);
+    });
     if (!test) {
         auto& busTerminal = dynamic_cast<BusTerminal&>(terminal);
-        const auto& connectableBus = getConfiguredBus(busTerminal.getConnectableBusId(), true);
 
-        getNetwork().getVariantManager().forEachVariant([&connectableBus, &busTerminal, this]() {
-            connectableBus.get().addTerminal(busTerminal);
+        getNetwork().getVariantManager().forEachVariant([&busTerminal, this]() {
+            getConfiguredBus(busTerminal.getConnectableBusId(), true).get().addTerminal(busTerminal);
 
             invalidateCache();
         });
-- 
2.43.0


From 38ee9e6c4375d086182d44fce59c4f1f7b991fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:35 +0000
Subject: [PATCH 27/55] fix: do not keep a reference to the argument in the
 ranges of measurements

---
 extensions/iidm/src/DiscreteMeasurements.cpp | 4 ++--
 extensions/iidm/src/Measurements.cpp         | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/extensions/iidm/src/DiscreteMeasurements.cpp b/extensions/iidm/src/DiscreteMeasurements.cpp
index 519ff06..35e7aec 100644
--- a/extensions/iidm/src/DiscreteMeasurements.cpp
+++ b/extensions/iidm/src/DiscreteMeasurements.cpp
@@ -64,7 +64,7 @@ stdcxx::range<DiscreteMeasurement> DiscreteMeasurements::getDiscreteMeasurements
 }
 
 stdcxx::const_range<DiscreteMeasurement> DiscreteMeasurements::getDiscreteMeasurements(const DiscreteMeasurement::Type& type) const {
-    const auto& filter = [&type](const std::unique_ptr<DiscreteMeasurement>& measurement) {
+    const auto& filter = [type](const std::unique_ptr<DiscreteMeasurement>& measurement) {
         return measurement->getType() == type;
     };
 
@@ -72,7 +72,7 @@ stdcxx::const_range<DiscreteMeasurement> DiscreteMeasurements::getDiscreteMeasur
 }
 
 stdcxx::range<DiscreteMeasurement> DiscreteMeasurements::getDiscreteMeasurements(const DiscreteMeasurement::Type& type) {
-    const auto& filter = [&type](const std::unique_ptr<DiscreteMeasurement>& measurement) {
+    const auto& filter = [type](const std::unique_ptr<DiscreteMeasurement>& measurement) {
         return measurement->getType() == type;
     };
 
diff --git a/extensions/iidm/src/Measurements.cpp b/extensions/iidm/src/Measurements.cpp
index 6853d7a..d2c03fb 100644
--- a/extensions/iidm/src/Measurements.cpp
+++ b/extensions/iidm/src/Measurements.cpp
@@ -59,7 +59,7 @@ stdcxx::const_range<Measurement> Measurements::getMeasurements() const {
 }
 
 stdcxx::const_range<Measurement> Measurements::getMeasurements(const Measurement::Type& type) const {
-    const auto& filter = [&type](const std::unique_ptr<Measurement>& measurement) {
+    const auto& filter = [type](const std::unique_ptr<Measurement>& measurement) {
         return measurement->getType() == type;
     };
 
@@ -67,7 +67,7 @@ stdcxx::const_range<Measurement> Measurements::getMeasurements(const Measurement
 }
 
 stdcxx::range<Measurement> Measurements::getMeasurements(const Measurement::Type& type) {
-    const auto& filter = [&type](const std::unique_ptr<Measurement>& measurement) {
+    const auto& filter = [type](const std::unique_ptr<Measurement>& measurement) {
         return measurement->getType() == type;
     };
 
-- 
2.43.0


From edacdd4438cad4fd36315b6aef4057431b3c4edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:35 +0000
Subject: [PATCH 28/55] fix: return the measurement that was added when several
 have no id

---
 extensions/iidm/src/DiscreteMeasurementAdder.cpp | 3 ++-
 extensions/iidm/src/MeasurementAdder.cpp         | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/extensions/iidm/src/DiscreteMeasurementAdder.cpp b/extensions/iidm/src/DiscreteMeasurementAdder.cpp
index aeb5606..383aaf2 100644
--- a/extensions/iidm/src/DiscreteMeasurementAdder.cpp
+++ b/extensions/iidm/src/DiscreteMeasurementAdder.cpp
@@ -32,9 +32,10 @@ DiscreteMeasurement& DiscreteMeasurementAdder::add() {
 
     auto discreteMeasurement = std::unique_ptr<DiscreteMeasurement>(
         new DiscreteMeasurement(m_discreteMeasurements, m_id, m_type, m_tapChanger, m_properties, DiscreteMeasurementValidationUtil::getValueType(m_value), m_value, m_valid));
+    DiscreteMeasurement& result = *discreteMeasurement;
     m_discreteMeasurements.add(std::move(discreteMeasurement));
 
-    return m_discreteMeasurements.getDiscreteMeasurement(m_id);
+    return result;
 }
 
 DiscreteMeasurementAdder& DiscreteMeasurementAdder::putProperty(const std::string& name, const std::string& value) {
diff --git a/extensions/iidm/src/MeasurementAdder.cpp b/extensions/iidm/src/MeasurementAdder.cpp
index 8caabb7..bb02786 100644
--- a/extensions/iidm/src/MeasurementAdder.cpp
+++ b/extensions/iidm/src/MeasurementAdder.cpp
@@ -31,8 +31,9 @@ Measurement& MeasurementAdder::add() {
     MeasurementValidationUtil::checkValue(m_value, m_valid);
     MeasurementValidationUtil::checkSide(*m_type, m_side, m_measurements.getExtendable<Connectable>().get());
     std::unique_ptr<Measurement> measurement = stdcxx::make_unique<Measurement>(m_measurements, m_id, *m_type, m_properties, m_value, m_standardDeviation, m_valid, m_side);
+    Measurement& result = *measurement;
     m_measurements.add(std::move(measurement));
-    return m_measurements.getMeasurement(m_id).get();
+    return result;
 }
 
 MeasurementAdder& MeasurementAdder::putProperty(const std::string& name, const std::string& value) {
-- 
2.43.0


From 6887f5ef0c49778eef383a47f7da8f400d35d452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:41 +0000
Subject: [PATCH 29/55] fix: refuse a valid measurement without a value in the
 setters too

---
 extensions/iidm/src/Measurement.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/extensions/iidm/src/Measurement.cpp b/extensions/iidm/src/Measurement.cpp
index b03f2b6..dbc6fdf 100644
--- a/extensions/iidm/src/Measurement.cpp
+++ b/extensions/iidm/src/Measurement.cpp
@@ -10,6 +10,7 @@
 #include <boost/range/adaptor/map.hpp>
 
 #include <powsybl/iidm/Enum.hpp>
+#include <powsybl/iidm/extensions/iidm/MeasurementValidationUtil.hpp>
 #include <powsybl/iidm/extensions/iidm/Measurements.hpp>
 
 namespace powsybl {
@@ -127,11 +128,13 @@ Measurement& Measurement::setStandardDeviation(double standardDeviation) {
 }
 
 Measurement& Measurement::setValid(bool valid) {
+    MeasurementValidationUtil::checkValue(m_value, valid);
     m_valid = valid;
     return *this;
 }
 
 Measurement& Measurement::setValue(double value) {
+    MeasurementValidationUtil::checkValue(value, m_valid);
     m_value = value;
     return *this;
 }
-- 
2.43.0


From 53b7212edcb118a651a4c74f87f3058b294dde54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:31 +0000
Subject: [PATCH 30/55] fix: keep the extensions of a network that is moved

---
 include/powsybl/iidm/Extension.hpp | 2 ++
 src/iidm/Extendable.cpp            | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/powsybl/iidm/Extension.hpp b/include/powsybl/iidm/Extension.hpp
index 0d073b1..b0e9b5f 100644
--- a/include/powsybl/iidm/Extension.hpp
+++ b/include/powsybl/iidm/Extension.hpp
@@ -63,6 +63,8 @@ private:
 
 private:
     stdcxx::Reference<Extendable> m_extendable;
+
+    friend class Extendable;
 };
 
 }  // namespace iidm
diff --git a/src/iidm/Extendable.cpp b/src/iidm/Extendable.cpp
index 77a0ab3..055d3d9 100644
--- a/src/iidm/Extendable.cpp
+++ b/src/iidm/Extendable.cpp
@@ -22,7 +22,8 @@ Extendable::Extendable(Extendable&& extendable) noexcept :
     m_extensionsByType(std::move(extendable.m_extensionsByType)) {
 
     for (auto& it : m_extensionsByName) {
-        it.second->setExtendable(*this);
+        // The extensions have already been accepted: the new object can't be checked while it is under construction
+        it.second->m_extendable = stdcxx::ref<Extendable>(*this);
     }
 }
 
-- 
2.43.0


From 3b797ebe7eb6dc276158f9b1bb37787e2ae9e9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:14 +0000
Subject: [PATCH 31/55] fix: read the properties and aliases of a bus up to the
 end of the bus

---
 src/iidm/converter/xml/BusXml.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iidm/converter/xml/BusXml.cpp b/src/iidm/converter/xml/BusXml.cpp
index d8381f4..6a504f2 100644
--- a/src/iidm/converter/xml/BusXml.cpp
+++ b/src/iidm/converter/xml/BusXml.cpp
@@ -38,7 +38,7 @@ Bus& BusXml::readRootElementAttributes(BusAdder& adder, NetworkXmlReaderContext&
 }
 
 void BusXml::readSubElements(Bus& bus, NetworkXmlReaderContext& context) const {
-    context.getReader().readUntilEndElement(SUBSTATION, [this, &bus, &context]() {
+    context.getReader().readUntilEndElement(BUS, [this, &bus, &context]() {
         AbstractIdentifiableXml::readSubElements(bus, context);
     });
 }
-- 
2.43.0


From 0e31f9de7f2a57315d26f4038265d826cb3192f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:14 +0000
Subject: [PATCH 32/55] fix: report an extension that does not support the
 network version with a PowsyblException

---
 .../xml/AbstractVersionableExtensionXmlSerializer.cpp      | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/iidm/converter/xml/AbstractVersionableExtensionXmlSerializer.cpp b/src/iidm/converter/xml/AbstractVersionableExtensionXmlSerializer.cpp
index 3e6c357..ef8e5f1 100644
--- a/src/iidm/converter/xml/AbstractVersionableExtensionXmlSerializer.cpp
+++ b/src/iidm/converter/xml/AbstractVersionableExtensionXmlSerializer.cpp
@@ -77,7 +77,12 @@ const std::string& AbstractVersionableExtensionXmlSerializer::getVersion() const
 }
 
 const std::string& AbstractVersionableExtensionXmlSerializer::getVersion(const IidmXmlVersion& networkVersion) const {
-    return m_extensionVersions.at(networkVersion.toString(".")).back();
+    const std::string& version = networkVersion.toString(".");
+    const auto& it = m_extensionVersions.find(version);
+    if (it == m_extensionVersions.end()) {
+        throw PowsyblException(stdcxx::format("IIDM-XML version of network (%1%) is not supported by the %2% extension's XML serializer", version, getExtensionName()));
+    }
+    return it->second.back();
 }
 
 }  // namespace xml
-- 
2.43.0


From 0eb8e6f8280b8cd358a28a0c94738e30cbdd942e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:14 +0000
Subject: [PATCH 33/55] fix: skip the extensions without serializer instead of
 aborting the export

---
 src/iidm/converter/xml/NetworkXml.cpp | 34 +++++++++++++++++----------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/src/iidm/converter/xml/NetworkXml.cpp b/src/iidm/converter/xml/NetworkXml.cpp
index 1fbf7cb..f2b9cdf 100644
--- a/src/iidm/converter/xml/NetworkXml.cpp
+++ b/src/iidm/converter/xml/NetworkXml.cpp
@@ -166,20 +166,16 @@ void writeExtensionNamespaces(const Network& network, NetworkXmlWriterContext& c
     }
 }
 
-void writeExtension(const Extension& extension, NetworkXmlWriterContext& context) {
+void writeExtension(const Extension& extension, const ExtensionXmlSerializer& serializer, NetworkXmlWriterContext& context) {
     powsybl::xml::XmlStreamWriter& writer = context.getWriter();
-    stdcxx::CReference<ExtensionXmlSerializer> serializer = getExtensionSerializer(context.getOptions(), extension);
-    if (!serializer) {
-        throw AssertionError(stdcxx::format("Extension XML Serializer of %1% should not be null", extension.getName()));
-    }
 
     const std::string& version = context.getExtensionVersion(extension.getName());
     if (!version.empty()) {
-        serializer.get().checkExtensionVersionSupported(version);
+        serializer.checkExtensionVersionSupported(version);
     }
 
-    writer.writeStartElement(serializer.get().getNamespacePrefix(), extension.getName());
-    serializer.get().write(extension, context);
+    writer.writeStartElement(serializer.getNamespacePrefix(), extension.getName());
+    serializer.write(extension, context);
     writer.writeEndElement();
 }
 
@@ -188,14 +184,26 @@ void writeExtensions(const Network& network, NetworkXmlWriterContext& context) {
         if (!context.isExportedEquipment(identifiable.getId()) || boost::empty(identifiable.getExtensions()) || !context.getOptions().hasAtLeastOneExtension(identifiable.getExtensions())) {
             continue;
         }
-        context.getWriter().writeStartElement(context.getVersion().getPrefix(), EXTENSION);
-        context.getWriter().writeAttribute(ID, context.getAnonymizer().anonymizeString(identifiable.getId()));
+
+        bool started = false;
         for (const auto& extension : identifiable.getExtensions()) {
-            if (context.getOptions().withExtension(extension.getName())) {
-                writeExtension(extension, context);
+            if (!context.getOptions().withExtension(extension.getName())) {
+                continue;
+            }
+            const stdcxx::CReference<ExtensionXmlSerializer>& serializer = getExtensionSerializer(context.getOptions(), extension);
+            if (!serializer) {
+                continue;
             }
+            if (!started) {
+                context.getWriter().writeStartElement(context.getVersion().getPrefix(), EXTENSION);
+                context.getWriter().writeAttribute(ID, context.getAnonymizer().anonymizeString(identifiable.getId()));
+                started = true;
+            }
+            writeExtension(extension, serializer.get(), context);
+        }
+        if (started) {
+            context.getWriter().writeEndElement();
         }
-        context.getWriter().writeEndElement();
     }
 }
 
-- 
2.43.0


From 083c59c161af2377190de99c97da3b5ca3d521fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:36 +0000
Subject: [PATCH 34/55] fix: read an active power control without droop

---
 extensions/iidm/src/ActivePowerControlXmlSerializer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/extensions/iidm/src/ActivePowerControlXmlSerializer.cpp b/extensions/iidm/src/ActivePowerControlXmlSerializer.cpp
index 5d03fb5..92552bc 100644
--- a/extensions/iidm/src/ActivePowerControlXmlSerializer.cpp
+++ b/extensions/iidm/src/ActivePowerControlXmlSerializer.cpp
@@ -19,6 +19,8 @@
 #include <powsybl/iidm/extensions/iidm/ActivePowerControl.hpp>
 #include <powsybl/iidm/extensions/iidm/ActivePowerControlAdder.hpp>
 
+#include <powsybl/stdcxx/math.hpp>
+
 #include <powsybl/xml/XmlStreamReader.hpp>
 #include <powsybl/xml/XmlStreamWriter.hpp>
 
@@ -36,7 +38,7 @@ ActivePowerControlXmlSerializer::ActivePowerControlXmlSerializer() :
 
 Extension& ActivePowerControlXmlSerializer::read(Extendable& extendable, converter::xml::NetworkXmlReaderContext& context) const {
     const auto& participate = context.getReader().getAttributeValue<bool>("participate");
-    const auto& droop = context.getReader().getAttributeValue<double>("droop");
+    const auto& droop = context.getReader().getOptionalAttributeValue("droop", stdcxx::nan());
 
     extendable.newExtension<ActivePowerControlAdder>().withParticipate(participate).withDroop(droop).add();
     return extendable.getExtension<ActivePowerControl>();
-- 
2.43.0


From aef5ca82de475618f4a81a5f6148f2f900b47ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:48 +0000
Subject: [PATCH 35/55] fix: report an export that could not be written
 completely

---
 src/iidm/Network.cpp                  |  4 ++++
 src/iidm/converter/xml/NetworkXml.cpp |  4 ++++
 src/xml/XmlStreamWriter.cpp           | 14 ++++++++++++--
 3 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/iidm/Network.cpp b/src/iidm/Network.cpp
index b7dd6c6..7edfaaf 100644
--- a/src/iidm/Network.cpp
+++ b/src/iidm/Network.cpp
@@ -63,6 +63,10 @@ void Network::writeXml(const boost::filesystem::path& path, const Network& netwo
         throw PowsyblException(stdcxx::format("Unable to open file '%1%' for writing", path.string()));
     }
     converter::xml::NetworkXml::write(path.string(), os, network, options);
+    os.close();
+    if (!os) {
+        throw PowsyblException(stdcxx::format("Unable to write file '%1%'", path.string()));
+    }
 }
 
 void Network::writeXml(const std::string& filename, std::ostream& ostream, const Network& network, const converter::ExportOptions& options) {
diff --git a/src/iidm/converter/xml/NetworkXml.cpp b/src/iidm/converter/xml/NetworkXml.cpp
index f2b9cdf..9911d50 100644
--- a/src/iidm/converter/xml/NetworkXml.cpp
+++ b/src/iidm/converter/xml/NetworkXml.cpp
@@ -351,6 +351,10 @@ void NetworkXml::write(const std::string& filename, std::ostream& os, const Netw
             throw PowsyblException(stdcxx::format("Unable to open file '%1%' for writing", csvPath.string()));
         }
         context.getAnonymizer().write(csvStream);
+        csvStream.close();
+        if (!csvStream) {
+            throw PowsyblException(stdcxx::format("Unable to write file '%1%'", csvPath.string()));
+        }
     }
 
     auto endTime = std::chrono::high_resolution_clock::now();
diff --git a/src/xml/XmlStreamWriter.cpp b/src/xml/XmlStreamWriter.cpp
index 9f80944..c6ecc08 100644
--- a/src/xml/XmlStreamWriter.cpp
+++ b/src/xml/XmlStreamWriter.cpp
@@ -82,9 +82,15 @@ void XmlStreamWriter::writeEmptyElement(const std::string& uri, const std::strin
 }
 
 void XmlStreamWriter::writeEndDocument() {
-    // deleting the xmlTextWriter pointer automatically calls xmlTextWriterFlush() and write to stream
+    // deleting the xmlTextWriter pointer automatically calls xmlTextWriterFlush() and write to stream, but cannot report a failure
+    int written = m_writer ? xmlTextWriterFlush(m_writer.get()) : 0;
+
     // m_writer is instanciated in writeStartElement, so it must be deleted here
     m_writer.reset();
+
+    if (written < 0 || !m_stream) {
+        throw XmlStreamException("Failed to write end document");
+    }
 }
 
 void XmlStreamWriter::writeEndElement() {
@@ -149,7 +155,11 @@ void XmlStreamWriter::writeStartDocument(const std::string& encoding, const std:
     auto writeCallback = [](void* context, const char* buffer, int len) {
         XmlStreamWriter& writer = *static_cast<XmlStreamWriter*>(context);
 
-        writer.m_stream.write(buffer, len);
+        try {
+            writer.m_stream.write(buffer, len);
+        } catch (...) {
+            // an exception thrown by the stream must not go through libxml2: writeEndDocument reports the failure
+        }
 
         return len;
     };
-- 
2.43.0


From d75195613a2f774fab709c0a2366809a74040f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:48 +0000
Subject: [PATCH 36/55] fix: write the switches of an anonymised bus/breaker
 voltage level

---
 src/iidm/converter/xml/VoltageLevelXml.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iidm/converter/xml/VoltageLevelXml.cpp b/src/iidm/converter/xml/VoltageLevelXml.cpp
index dd4524c..881c6f5 100644
--- a/src/iidm/converter/xml/VoltageLevelXml.cpp
+++ b/src/iidm/converter/xml/VoltageLevelXml.cpp
@@ -177,8 +177,8 @@ void VoltageLevelXml::writeBusBreakerTopology(const VoltageLevel& voltageLevel,
         BusXml::getInstance().write(bus, voltageLevel, context);
     }
     for (const Switch& sw : voltageLevel.getBusBreakerView().getSwitches()) {
-        const Bus& b1 = voltageLevel.getBusBreakerView().getBus1(context.getAnonymizer().anonymizeString(sw.getId()));
-        const Bus& b2 = voltageLevel.getBusBreakerView().getBus2(context.getAnonymizer().anonymizeString(sw.getId()));
+        const Bus& b1 = voltageLevel.getBusBreakerView().getBus1(sw.getId());
+        const Bus& b2 = voltageLevel.getBusBreakerView().getBus2(sw.getId());
         if (!context.getFilter().test(b1) || !context.getFilter().test(b2)) {
             continue;
         }
-- 
2.43.0


From fff0f9d6a1ef3e372a1a01701d7e8ad0b9bf26cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:49 +0000
Subject: [PATCH 37/55] fix: convert numbers to text independently of the
 global locale and report failures

---
 include/powsybl/stdcxx/math.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/powsybl/stdcxx/math.hpp b/include/powsybl/stdcxx/math.hpp
index 032a90b..465ebf2 100644
--- a/include/powsybl/stdcxx/math.hpp
+++ b/include/powsybl/stdcxx/math.hpp
@@ -10,6 +10,7 @@
 
 #include <cmath>
 #include <limits>
+#include <locale>
 #include <sstream>
 
 #if __cplusplus >= 201703L
@@ -55,6 +56,8 @@ inline T nan() {
 template <typename T>
 std::string to_string(const T& value) {
     std::ostringstream out;
+    out.imbue(std::locale::classic());  // the text must not depend on the global locale
+    out.exceptions(std::ios_base::badbit);
     out.precision(std::numeric_limits<T>::max_digits10);
     out << value;
     return out.str();
-- 
2.43.0


From 4c5a17ec16ba652334eb9424c83badd962fdb53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:49 +0000
Subject: [PATCH 38/55] fix: report unreadable XML documents and missing
 attributes

---
 src/xml/XmlStreamReader.cpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/xml/XmlStreamReader.cpp b/src/xml/XmlStreamReader.cpp
index 914a81f..4b96e18 100644
--- a/src/xml/XmlStreamReader.cpp
+++ b/src/xml/XmlStreamReader.cpp
@@ -41,9 +41,14 @@ XmlStreamReader::XmlStreamReader(std::istream& stream, const std::string& encodi
 
     auto readCallback = [](void* context, char* buffer, int len) {
         XmlStreamReader& reader = *static_cast<XmlStreamReader*>(context);
-        reader.m_stream.read(buffer, len);
+        try {
+            reader.m_stream.read(buffer, len);
+        } catch (...) {
+            // an exception thrown by the stream must not go through libxml2: see below
+        }
 
-        return static_cast<int>(reader.m_stream.gcount());
+        // the end of the stream is not an error, a failure of the stream is
+        return reader.m_stream.bad() ? -1 : static_cast<int>(reader.m_stream.gcount());
     };
 
     auto closeCallback = [](void* /*context*/) {
@@ -57,13 +62,16 @@ XmlStreamReader::XmlStreamReader(std::istream& stream, const std::string& encodi
     m_reader = XmlTextReaderPtr(
         xmlReaderForIO(readCallback, closeCallback, this, "", encoding.c_str(), XML_PARSE_NO_OPTION),
         deleteReaderCallback);
+    if (!m_reader) {
+        throw XmlStreamException("Failed to create the XML reader");
+    }
 
     next();
 }
 
 template <>
 bool XmlStreamReader::getAttributeValue(const std::string& attributeName) const {
-    XmlString value = getAttributeValue(attributeName, false);
+    XmlString value = getAttributeValue(attributeName, true);
     const std::string& booleanStr = XML2S(value.get());
     return boost::iequals(booleanStr, "true");
 }
@@ -88,7 +96,7 @@ long XmlStreamReader::getAttributeValue(const std::string& attributeName) const
 
 template <>
 unsigned long XmlStreamReader::getAttributeValue(const std::string& attributeName) const {
-    XmlString value = getAttributeValue(attributeName, false);
+    XmlString value = getAttributeValue(attributeName, true);
     return std::stoul(XML2S(value.get()));
 }
 
@@ -260,12 +268,14 @@ std::string XmlStreamReader::getText() const {
 }
 
 int XmlStreamReader::next() const {
-    xmlTextReaderRead(m_reader.get());
+    if (xmlTextReaderRead(m_reader.get()) < 0) {
+        throw XmlStreamException("An error occurred while reading the XML document");
+    }
     return getCurrentNodeType();
 }
 
 std::string XmlStreamReader::readCharacters() const {
-    xmlTextReaderRead(m_reader.get());
+    next();
     return getText();
 }
 
-- 
2.43.0


From ec2628760239e492c66488a5e3756d43b8aca967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:49 +0000
Subject: [PATCH 39/55] fix: a network that cannot be built does not delete
 itself

---
 src/iidm/Network.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/iidm/Network.cpp b/src/iidm/Network.cpp
index 7edfaaf..c3347bf 100644
--- a/src/iidm/Network.cpp
+++ b/src/iidm/Network.cpp
@@ -80,7 +80,14 @@ Network::Network(const std::string& id, const std::string& sourceFormat) :
     m_variants(*this, [this]() { return stdcxx::make_unique<network::VariantImpl>(*this); }),
     m_busBreakerView(*this),
     m_busView(*this) {
-    checkAndAdd(std::unique_ptr<Network>(this));
+    std::unique_ptr<Network> self(this);
+    try {
+        checkAndAdd(std::move(self));
+    } catch (...) {
+        // the network must not delete itself: this constructor releases what has been built
+        self.release();  // NOLINT(bugprone-unused-return-value)
+        throw;
+    }
 }
 
 Network::Network(Network&& network) noexcept :
-- 
2.43.0


From 950639f7ca1ef85d42cff8ebba86fdcffe29d782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:49 +0000
Subject: [PATCH 40/55] fix: refuse vertices that are out of range

---
 include/powsybl/math/UndirectedGraph.hxx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/powsybl/math/UndirectedGraph.hxx b/include/powsybl/math/UndirectedGraph.hxx
index 0b9427a..85699ec 100644
--- a/include/powsybl/math/UndirectedGraph.hxx
+++ b/include/powsybl/math/UndirectedGraph.hxx
@@ -75,10 +75,14 @@ void UndirectedGraph<V, E>::addVertexIfNotPresent(unsigned long v) {
             m_availableVertices.erase(it);
         }
     } else {
-        for (unsigned int i = m_vertices.size(); i < v; ++i) {
-            m_availableVertices.insert(i);
+        if (v >= m_vertices.max_size()) {
+            throw PowsyblException(stdcxx::format("Vertex %1% is out of range", v));
         }
+        unsigned long size = m_vertices.size();
         m_vertices.resize(v + 1);
+        for (unsigned long i = size; i < v; ++i) {
+            m_availableVertices.insert(i);
+        }
         m_vertices[v] = stdcxx::make_unique<Vertex>();
     }
     invalidateAdjacencyList();
-- 
2.43.0


From cbabc8ebeb1f24ebd68958b81c44fa41cd78556b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:49 +0000
Subject: [PATCH 41/55] fix: anonymised names may contain the separator of the
 mapping, report an unreadable mapping

---
 src/iidm/converter/SimpleAnonymizer.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/iidm/converter/SimpleAnonymizer.cpp b/src/iidm/converter/SimpleAnonymizer.cpp
index 95c6f2c..dea1c6e 100644
--- a/src/iidm/converter/SimpleAnonymizer.cpp
+++ b/src/iidm/converter/SimpleAnonymizer.cpp
@@ -10,8 +10,6 @@
 #include <istream>
 #include <ostream>
 
-#include <boost/algorithm/string.hpp>
-
 #include <powsybl/PowsyblException.hpp>
 #include <powsybl/stdcxx/format.hpp>
 
@@ -76,19 +74,24 @@ void SimpleAnonymizer::read(std::istream& stream) {
     std::string line;
     while (std::getline(stream, line))
     {
-        std::vector<std::string> cells;
-        boost::split(cells, line, boost::is_any_of(";"));
-
-        if (cells.size() != 2) {
+        // a name may contain the separator, an anonymized string cannot
+        auto separator = line.rfind(';');
+        if (separator == std::string::npos) {
             throw PowsyblException(stdcxx::format("Invalid line '%1%'", line));
         }
 
-        m_mapping.insert(Mapping::value_type(cells[0], cells[1]));
+        m_mapping.insert(Mapping::value_type(line.substr(0, separator), line.substr(separator + 1)));
+    }
+    if (stream.bad()) {
+        throw PowsyblException("Unable to read the mapping of the anonymized strings");
     }
 }
 
 void SimpleAnonymizer::write(std::ostream& stream) const {
     for (const auto& pair : m_mapping.left) {
+        if (pair.first.find('\n') != std::string::npos) {
+            throw PowsyblException(stdcxx::format("String '%1%' cannot be written: the mapping has one string per line", pair.first));
+        }
         stream << pair.first << ';' << pair.second << std::endl;
     }
 }
-- 
2.43.0


From 0208e96c44f82928c1e27e857c8a3c16c84a62f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:49 +0000
Subject: [PATCH 42/55] fix: anonymise the converter stations of HVDC lines

---
 src/iidm/converter/xml/HvdcLineXml.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/iidm/converter/xml/HvdcLineXml.cpp b/src/iidm/converter/xml/HvdcLineXml.cpp
index c59f78d..b921343 100644
--- a/src/iidm/converter/xml/HvdcLineXml.cpp
+++ b/src/iidm/converter/xml/HvdcLineXml.cpp
@@ -36,8 +36,8 @@ HvdcLine& HvdcLineXml::readRootElementAttributes(HvdcLineAdder& adder, NetworkXm
     const auto& convertersMode = Enum::fromString<HvdcLine::ConvertersMode>(context.getReader().getAttributeValue(CONVERTERS_MODE));
     const auto& activePowerSetpoint = context.getReader().getAttributeValue<double>(ACTIVE_POWER_SETPOINT);
     const auto& maxP = context.getReader().getAttributeValue<double>(MAX_P);
-    const std::string& converterStation1 = context.getReader().getAttributeValue(CONVERTER_STATION1);
-    const std::string& converterStation2 = context.getReader().getAttributeValue(CONVERTER_STATION2);
+    const std::string& converterStation1 = context.getAnonymizer().deanonymizeString(context.getReader().getAttributeValue(CONVERTER_STATION1));
+    const std::string& converterStation2 = context.getAnonymizer().deanonymizeString(context.getReader().getAttributeValue(CONVERTER_STATION2));
     return adder.setR(r)
         .setNominalV(nominalV)
         .setConvertersMode(convertersMode)
@@ -60,8 +60,8 @@ void HvdcLineXml::writeRootElementAttributes(const HvdcLine& line, const Network
     context.getWriter().writeAttribute(CONVERTERS_MODE, Enum::toString(line.getConvertersMode()));
     context.getWriter().writeAttribute(ACTIVE_POWER_SETPOINT, line.getActivePowerSetpoint());
     context.getWriter().writeAttribute(MAX_P, line.getMaxP());
-    context.getWriter().writeAttribute(CONVERTER_STATION1, line.getConverterStation1().get().getId());
-    context.getWriter().writeAttribute(CONVERTER_STATION2, line.getConverterStation2().get().getId());
+    context.getWriter().writeAttribute(CONVERTER_STATION1, context.getAnonymizer().anonymizeString(line.getConverterStation1().get().getId()));
+    context.getWriter().writeAttribute(CONVERTER_STATION2, context.getAnonymizer().anonymizeString(line.getConverterStation2().get().getId()));
 }
 
 }  // namespace xml
-- 
2.43.0


From ad60cafc3fd31e632cbcab59b53db25d02ec52d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:08 +0000
Subject: [PATCH 43/55] fix: a formatted text is complete and independent of
 the global locale, or an exception is thrown

---
 include/powsybl/stdcxx/format.hxx | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/include/powsybl/stdcxx/format.hxx b/include/powsybl/stdcxx/format.hxx
index 5f19375..a3aeb66 100644
--- a/include/powsybl/stdcxx/format.hxx
+++ b/include/powsybl/stdcxx/format.hxx
@@ -11,6 +11,8 @@
 #include <powsybl/stdcxx/format.hpp>
 
 #include <iterator>
+#include <locale>
+#include <new>
 #include <set>
 #include <sstream>
 #include <vector>
@@ -21,19 +23,37 @@
 
 namespace stdcxx {
 
+/**
+ * An argument of a formatted message: boost::format does not look at the state of the stream the argument was written
+ * to, so a failure (memory exhausted) would silently truncate the message
+ */
+template <typename Arg>
+struct FormatArgument {
+    const Arg& value;
+};
+
+template <typename Arg>
+std::ostream& operator<<(std::ostream& stream, const FormatArgument<Arg>& argument) {
+    stream << argument.value;
+    if (stream.bad()) {
+        throw std::bad_alloc();
+    }
+    return stream;
+}
+
 inline void format(const boost::format& /*fmt*/) {
     // This function is used to stop the recursion
 }
 
 template <typename Arg, typename... Args>
 void format(boost::format& fmt, const Arg& arg, const Args&... args) {
-    fmt % arg;
+    fmt % FormatArgument<Arg>{arg};
     format(fmt, args...);
 }
 
 template <typename... Args>
 std::string format(const std::string& message, const Args&... args) {
-    boost::format fmt(message);
+    boost::format fmt(message, std::locale::classic());  // the text must not depend on the global locale
     format(fmt, args...);
 
     return fmt.str();
-- 
2.43.0


From c42d0028ab9e08f4a12919467fad1e2cd17279c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:08 +0000
Subject: [PATCH 44/55] fix: a failed allocation leaves the graph as it was

---
 include/powsybl/math/UndirectedGraph.hxx | 26 ++++++++++++++----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/include/powsybl/math/UndirectedGraph.hxx b/include/powsybl/math/UndirectedGraph.hxx
index 85699ec..71242a6 100644
--- a/include/powsybl/math/UndirectedGraph.hxx
+++ b/include/powsybl/math/UndirectedGraph.hxx
@@ -78,12 +78,15 @@ void UndirectedGraph<V, E>::addVertexIfNotPresent(unsigned long v) {
         if (v >= m_vertices.max_size()) {
             throw PowsyblException(stdcxx::format("Vertex %1% is out of range", v));
         }
-        unsigned long size = m_vertices.size();
-        m_vertices.resize(v + 1);
-        for (unsigned long i = size; i < v; ++i) {
-            m_availableVertices.insert(i);
+        std::unique_ptr<Vertex> vertex = stdcxx::make_unique<Vertex>();
+        if (v >= m_vertices.capacity()) {
+            m_vertices.reserve(std::max(v + 1, 2 * m_vertices.capacity()));
         }
-        m_vertices[v] = stdcxx::make_unique<Vertex>();
+        for (unsigned long i = m_vertices.size(); i < v; ++i) {
+            m_availableVertices.insert(m_availableVertices.end(), i);
+            m_vertices.emplace_back();
+        }
+        m_vertices.emplace_back(std::move(vertex));
     }
     invalidateAdjacencyList();
 }
@@ -189,20 +192,21 @@ const std::vector<std::vector<unsigned long> >& UndirectedGraph<V, E>::getAdjace
     std::lock_guard<std::mutex> lock(m_adjacencyListMutex);
 
     if (m_adjacencyList.size() != m_vertices.size()) {
-        m_adjacencyList.resize(m_vertices.size());
+        std::vector<std::vector<unsigned long> > adjacencyList(m_vertices.size());
         for (unsigned long v = 0; v < m_vertices.size(); ++v) {
             if (m_vertices[v]) {
-                m_adjacencyList[v].reserve(s_neighborsCapacity);
+                adjacencyList[v].reserve(s_neighborsCapacity);
             }
         }
 
         for (unsigned long e = 0; e < m_edges.size(); ++e) {
             const std::unique_ptr<Edge>& edge = m_edges[e];
             if (edge) {
-                m_adjacencyList[edge->getVertex1()].push_back(e);
-                m_adjacencyList[edge->getVertex2()].push_back(e);
+                adjacencyList[edge->getVertex1()].push_back(e);
+                adjacencyList[edge->getVertex2()].push_back(e);
             }
         }
+        m_adjacencyList = std::move(adjacencyList);
     }
 
     return m_adjacencyList;
@@ -366,8 +370,8 @@ stdcxx::Reference<E> UndirectedGraph<V, E>::removeEdge(unsigned long e) {
     if (e == m_edges.size() - 1) {
         m_edges.pop_back();
     } else {
-        m_edges[e].reset();
         m_removedEdges.insert(e);
+        m_edges[e].reset();
     }
 
     invalidateAdjacencyList();
@@ -413,8 +417,8 @@ stdcxx::Reference<V> UndirectedGraph<V, E>::removeVertex(unsigned long v) {
         m_vertices.pop_back();
         cleanVertices(v - 1);
     } else {
-        m_vertices[v].reset();
         m_availableVertices.insert(v);
+        m_vertices[v].reset();
     }
 
     invalidateAdjacencyList();
-- 
2.43.0


From fc8e5ba7eed47562360156ca6559f2229657c27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:36 +0000
Subject: [PATCH 45/55] fix: the edges between two vertices can be read

---
 include/powsybl/math/UndirectedGraph.hxx | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/include/powsybl/math/UndirectedGraph.hxx b/include/powsybl/math/UndirectedGraph.hxx
index 71242a6..ba35605 100644
--- a/include/powsybl/math/UndirectedGraph.hxx
+++ b/include/powsybl/math/UndirectedGraph.hxx
@@ -247,20 +247,11 @@ typename UndirectedGraph<V, E>::template const_range<E> UndirectedGraph<V, E>::g
     checkVertex(v1);
     checkVertex(v2);
 
-    const std::vector<std::vector<unsigned long> >& adjacencyList = getAdjacencyList();
-    const std::vector<unsigned long>& adjacentEdges = adjacencyList[v1];
-
-    const auto& edgeMapper = [this](const unsigned long& e) {
-        return m_edges[e].get();
-    };
-    const auto& edgeFilter = [v1, v2](const Edge& edge) {
-        return ((edge->getVertex1() == v1 && edge->getVertex2() == v2) || (edge->getVertex1() == v2 && edge->getVertex2() == v1));
+    const auto& filter = [v1, v2](const std::unique_ptr<Edge>& edge) {
+        return edge && ((edge->getVertex1() == v1 && edge->getVertex2() == v2) || (edge->getVertex1() == v2 && edge->getVertex2() == v1));
     };
 
-    return adjacentEdges |
-        boost::adaptors::transformed(edgeMapper) |
-        boost::adaptors::filtered(edgeFilter) |
-        boost::adaptors::transformed(Edge::map);
+    return m_edges | boost::adaptors::filtered(filter) | boost::adaptors::indirected | boost::adaptors::transformed(Edge::map);
 }
 
 template <typename V, typename E>
-- 
2.43.0


From 283c4cd5335603e2b521aeb547d5d6f1b961b217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:33 +0000
Subject: [PATCH 46/55] fix: a version of the format that cannot be built
 because of missing memory does not end the program

---
 src/iidm/converter/xml/IidmXmlVersion.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iidm/converter/xml/IidmXmlVersion.cpp b/src/iidm/converter/xml/IidmXmlVersion.cpp
index 660dc1d..ca76eee 100644
--- a/src/iidm/converter/xml/IidmXmlVersion.cpp
+++ b/src/iidm/converter/xml/IidmXmlVersion.cpp
@@ -29,8 +29,8 @@ bool operator==(const std::reference_wrapper<const IidmXmlVersion>& ref, const I
 }
 
 IidmXmlVersion::IidmXmlVersion(std::string&& domain, std::vector<int>&& versionArray) noexcept :
-    m_domain(domain),
-    m_versionArray(versionArray) {
+    m_domain(std::move(domain)),
+    m_versionArray(std::move(versionArray)) {
 }
 
 bool IidmXmlVersion::operator<(const IidmXmlVersion& version) const {
-- 
2.43.0


From f483b1771b91a1d814a26cb55f8ccdf6868ddf06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:33 +0000
Subject: [PATCH 47/55] fix: the cache of the buses of a network is complete or
 absent

---
 src/iidm/BusCache.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/iidm/BusCache.cpp b/src/iidm/BusCache.cpp
index cb3a452..e3a0e0e 100644
--- a/src/iidm/BusCache.cpp
+++ b/src/iidm/BusCache.cpp
@@ -26,10 +26,11 @@ stdcxx::CReference<Bus> BusCache::getBus(const std::string& id) const {
 const std::map<std::string, std::reference_wrapper<const Bus>>& BusCache::getCache() const {
     std::lock_guard<std::mutex> lock(m_mutex);
     if (!m_cache) {
-        m_cache = std::map<std::string, std::reference_wrapper<const Bus>>();
+        std::map<std::string, std::reference_wrapper<const Bus>> cache;
         for (const Bus& bus : m_supplier()) {
-            (*m_cache).emplace(bus.getId(), std::cref(bus));
+            cache.emplace(bus.getId(), std::cref(bus));
         }
+        m_cache = std::move(cache);
     }
     return *m_cache;
 }
-- 
2.43.0


From 06e81d7a8a10d12a0702ace475ffb69c7259898f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:00 +0000
Subject: [PATCH 48/55] fix: the calculated buses follow the fictitious
 attribute of their voltage level

---
 include/powsybl/iidm/VoltageLevel.hpp |  2 ++
 src/iidm/VoltageLevel.cpp             | 10 ++++++++++
 2 files changed, 12 insertions(+)

diff --git a/include/powsybl/iidm/VoltageLevel.hpp b/include/powsybl/iidm/VoltageLevel.hpp
index 71b4ca0..74649dc 100644
--- a/include/powsybl/iidm/VoltageLevel.hpp
+++ b/include/powsybl/iidm/VoltageLevel.hpp
@@ -60,6 +60,8 @@ public:  // Identifiable
 
     Network& getNetwork() override;
 
+    void setFictitious(bool fictitious) override;
+
 public:
     ~VoltageLevel() noexcept override = default;
 
diff --git a/src/iidm/VoltageLevel.cpp b/src/iidm/VoltageLevel.cpp
index 2c65261..15875f3 100644
--- a/src/iidm/VoltageLevel.cpp
+++ b/src/iidm/VoltageLevel.cpp
@@ -255,6 +255,16 @@ void VoltageLevel::remove() {
     getNetwork().getIndex().remove(*this);
 }
 
+void VoltageLevel::setFictitious(bool fictitious) {
+    if (isFictitious() != fictitious) {
+        Identifiable::setFictitious(fictitious);
+        // the calculated buses have a copy of this attribute
+        getNetwork().getVariantManager().forEachVariant([this]() {
+            invalidateCache();
+        });
+    }
+}
+
 VoltageLevel& VoltageLevel::setHighVoltageLimit(double highVoltageLimit) {
     checkVoltageLimits(*this, m_lowVoltageLimit, highVoltageLimit);
     m_highVoltageLimit = highVoltageLimit;
-- 
2.43.0


From 650f7ce8b1cf74487e7f125d9668a0a6b994c6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:07 +0000
Subject: [PATCH 49/55] fix: only one tap changer of a transformer is
 regulating in each variant

---
 include/powsybl/iidm/TapChangerHolder.hpp |  4 ++++
 src/iidm/PhaseTapChanger.cpp              |  1 +
 src/iidm/PhaseTapChangerAdder.cpp         | 10 +++++++---
 src/iidm/RatioTapChanger.cpp              |  1 +
 src/iidm/RatioTapChangerAdder.cpp         | 10 +++++++---
 5 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/include/powsybl/iidm/TapChangerHolder.hpp b/include/powsybl/iidm/TapChangerHolder.hpp
index bb1d534..f890fbf 100644
--- a/include/powsybl/iidm/TapChangerHolder.hpp
+++ b/include/powsybl/iidm/TapChangerHolder.hpp
@@ -36,8 +36,12 @@ private:
     virtual unsigned long getRegulatingTapChangerCount() const = 0;
 
 private:
+    friend class PhaseTapChanger;
+
     friend class PhaseTapChangerAdder;
 
+    friend class RatioTapChanger;
+
     friend class RatioTapChangerAdder;
 };
 
diff --git a/src/iidm/PhaseTapChanger.cpp b/src/iidm/PhaseTapChanger.cpp
index 121d633..257f371 100644
--- a/src/iidm/PhaseTapChanger.cpp
+++ b/src/iidm/PhaseTapChanger.cpp
@@ -60,6 +60,7 @@ void PhaseTapChanger::remove() {
 
 PhaseTapChanger& PhaseTapChanger::setRegulating(bool regulating) {
     checkPhaseTapChangerRegulation(getParent(), m_regulationMode, getRegulationValue(), regulating, getRegulationTerminal(), getNetwork());
+    checkOnlyOneTapChangerRegulatingEnabled(getParent(), getParent().getRegulatingTapChangerCount() - (isRegulating() ? 1 : 0), regulating);
     return TapChanger::setRegulating(regulating);
 }
 
diff --git a/src/iidm/PhaseTapChangerAdder.cpp b/src/iidm/PhaseTapChangerAdder.cpp
index 955fb2f..e042662 100644
--- a/src/iidm/PhaseTapChangerAdder.cpp
+++ b/src/iidm/PhaseTapChangerAdder.cpp
@@ -10,6 +10,7 @@
 #include <powsybl/iidm/PhaseTapChangerStep.hpp>
 #include <powsybl/iidm/TwoWindingsTransformer.hpp>
 #include <powsybl/iidm/ValidationUtils.hpp>
+#include <powsybl/iidm/VariantManager.hpp>
 #include <powsybl/logging/Logger.hpp>
 #include <powsybl/logging/LoggerFactory.hpp>
 #include <powsybl/stdcxx/make_unique.hpp>
@@ -83,9 +84,12 @@ PhaseTapChanger& PhaseTapChangerAdder::add() {
     std::unique_ptr<PhaseTapChanger> ptrPhaseTapChanger = stdcxx::make_unique<PhaseTapChanger>(m_parent, m_lowTapPosition, m_steps, m_regulationTerminal,
                                                                                                *m_tapPosition, m_regulating, m_regulationMode, m_regulationValue, m_targetDeadband);
 
-    bool wasRegulating = m_parent.hasPhaseTapChanger() && m_parent.getPhaseTapChanger().isRegulating();
-    unsigned long count = m_parent.getRegulatingTapChangerCount() - (wasRegulating ? 1 : 0);
-    checkOnlyOneTapChangerRegulatingEnabled(m_parent, count, m_regulating);
+    // the new tap changer is regulating, or not, in all the variants
+    getNetwork().getVariantManager().forEachVariant([this]() {
+        bool wasRegulating = m_parent.hasPhaseTapChanger() && m_parent.getPhaseTapChanger().isRegulating();
+        unsigned long count = m_parent.getRegulatingTapChangerCount() - (wasRegulating ? 1 : 0);
+        checkOnlyOneTapChangerRegulatingEnabled(m_parent, count, m_regulating);
+    });
 
     if (m_parent.hasRatioTapChanger()) {
         logger.warn("%1% both Ratio and Phase Tap Changer are defined", m_parent.getMessageHeader());
diff --git a/src/iidm/RatioTapChanger.cpp b/src/iidm/RatioTapChanger.cpp
index 078e547..cb1180c 100644
--- a/src/iidm/RatioTapChanger.cpp
+++ b/src/iidm/RatioTapChanger.cpp
@@ -67,6 +67,7 @@ RatioTapChanger& RatioTapChanger::setLoadTapChangingCapabilities(bool loadTapCha
 
 RatioTapChanger& RatioTapChanger::setRegulating(bool regulating) {
     checkRatioTapChangerRegulation(getParent(), regulating, m_loadTapChangingCapabilities, getRegulationTerminal(), getTargetV(), getNetwork());
+    checkOnlyOneTapChangerRegulatingEnabled(getParent(), getParent().getRegulatingTapChangerCount() - (isRegulating() ? 1 : 0), regulating);
     return TapChanger::setRegulating(regulating);
 }
 
diff --git a/src/iidm/RatioTapChangerAdder.cpp b/src/iidm/RatioTapChangerAdder.cpp
index d07216b..97786d8 100644
--- a/src/iidm/RatioTapChangerAdder.cpp
+++ b/src/iidm/RatioTapChangerAdder.cpp
@@ -11,6 +11,7 @@
 #include <powsybl/iidm/RatioTapChangerHolder.hpp>
 #include <powsybl/iidm/RatioTapChangerStep.hpp>
 #include <powsybl/iidm/ValidationUtils.hpp>
+#include <powsybl/iidm/VariantManager.hpp>
 #include <powsybl/logging/Logger.hpp>
 #include <powsybl/logging/LoggerFactory.hpp>
 #include <powsybl/stdcxx/make_unique.hpp>
@@ -78,9 +79,12 @@ RatioTapChanger& RatioTapChangerAdder::add() {
     std::unique_ptr<RatioTapChanger> ptrRatioTapChanger = stdcxx::make_unique<RatioTapChanger>(m_parent, m_lowTapPosition, m_steps, m_regulationTerminal,
                                                                                                m_loadTapChangingCapabilities, *m_tapPosition, m_regulating, m_targetV, m_targetDeadband);
 
-    bool wasRegulating = m_parent.hasRatioTapChanger() && m_parent.getRatioTapChanger().isRegulating();
-    unsigned long count = m_parent.getRegulatingTapChangerCount() - (wasRegulating ? 1 : 0);
-    checkOnlyOneTapChangerRegulatingEnabled(m_parent, count, m_regulating);
+    // the new tap changer is regulating, or not, in all the variants
+    getNetwork().getVariantManager().forEachVariant([this]() {
+        bool wasRegulating = m_parent.hasRatioTapChanger() && m_parent.getRatioTapChanger().isRegulating();
+        unsigned long count = m_parent.getRegulatingTapChangerCount() - (wasRegulating ? 1 : 0);
+        checkOnlyOneTapChangerRegulatingEnabled(m_parent, count, m_regulating);
+    });
 
     if (m_parent.hasPhaseTapChanger()) {
         logger.warn("%1% both Ratio and Phase Tap Changer are defined", m_parent.getMessageHeader());
-- 
2.43.0


From bea4f0948ff4c14e65e7d96da3e2eb78714be042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:07 +0000
Subject: [PATCH 50/55] fix: the voltage of a busbar section without feeder is
 read back

---
 src/iidm/converter/xml/BusbarSectionXml.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/iidm/converter/xml/BusbarSectionXml.cpp b/src/iidm/converter/xml/BusbarSectionXml.cpp
index 71b2e44..2752c4a 100644
--- a/src/iidm/converter/xml/BusbarSectionXml.cpp
+++ b/src/iidm/converter/xml/BusbarSectionXml.cpp
@@ -40,7 +40,11 @@ BusbarSection& BusbarSectionXml::readRootElementAttributes(BusbarSectionAdder& a
         double v = context.getReader().getOptionalAttributeValue(V, stdcxx::nan());
         double angle = context.getReader().getOptionalAttributeValue(ANGLE, stdcxx::nan());
         context.addEndTask([&bbs, angle, v]() {
-            const auto& b = bbs.getTerminal().getBusView().getBus();
+            auto b = bbs.getTerminal().getBusView().getBus();
+            if (!b) {
+                // a busbar section without any feeder is only a bus in the bus/breaker view
+                b = bbs.getTerminal().getBusBreakerView().getBus();
+            }
             if (b) {
                 b.get().setV(v).setAngle(angle);
             }
-- 
2.43.0


From 88a8d814bc91c46f24140b7968500e636574fc10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:07 +0000
Subject: [PATCH 51/55] fix: reactive limits of a dangling line without
 generation are refused by a library exception

---
 src/iidm/converter/xml/DanglingLineXml.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/iidm/converter/xml/DanglingLineXml.cpp b/src/iidm/converter/xml/DanglingLineXml.cpp
index f80e5ed..b6f2ef7 100644
--- a/src/iidm/converter/xml/DanglingLineXml.cpp
+++ b/src/iidm/converter/xml/DanglingLineXml.cpp
@@ -91,6 +91,9 @@ void DanglingLineXml::readSubElements(DanglingLine& dl, NetworkXmlReaderContext&
         } else if (context.getReader().getLocalName() == REACTIVE_CAPABILITY_CURVE ||
                    context.getReader().getLocalName() == MIN_MAX_REACTIVE_LIMITS) {
             IidmXmlUtil::assertMinimumVersion(stdcxx::format("%1%.generation", DANGLING_LINE), "reactiveLimits", ErrorMessage::NOT_SUPPORTED, IidmXmlVersion::V1_3(), context);
+            if (!dl.getGeneration()) {
+                throw PowsyblException(stdcxx::format("Dangling line '%1%': reactive limits are defined without any generation", dl.getId()));
+            }
             ReactiveLimitsXml::getInstance().read(dl.getGeneration(), context);
         } else {
             AbstractConnectableXml::readSubElements(dl, context);
-- 
2.43.0


From 44dd09a200bbfeac34379cc51b91efb45bb67846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:06 +0000
Subject: [PATCH 52/55] fix: a list of connectables can be read several times

---
 include/powsybl/iidm/VoltageLevel.hxx         |  4 +-
 .../powsybl/iidm/util/DistinctPredicate.hpp   | 24 +++-------
 src/iidm/Substation.cpp                       | 46 +++++++++++++------
 src/iidm/util/DistinctPredicate.cpp           | 20 ++++----
 4 files changed, 51 insertions(+), 43 deletions(-)

diff --git a/include/powsybl/iidm/VoltageLevel.hxx b/include/powsybl/iidm/VoltageLevel.hxx
index c322fd0..368824c 100644
--- a/include/powsybl/iidm/VoltageLevel.hxx
+++ b/include/powsybl/iidm/VoltageLevel.hxx
@@ -76,12 +76,12 @@ unsigned long VoltageLevel::getConnectableCount() const {
 
 template <typename T, typename>
 stdcxx::const_range<T> VoltageLevel::getConnectables() const {
-    return getTerminals() | boost::adaptors::filtered(Terminal::isInstanceOf<T>) | boost::adaptors::transformed(Terminal::map<const T>) | boost::adaptors::filtered(DistinctPredicate());
+    return getTerminals() | boost::adaptors::filtered(Terminal::isInstanceOf<T>) | boost::adaptors::filtered(DistinctPredicate()) | boost::adaptors::transformed(Terminal::map<const T>);
 }
 
 template <typename T, typename>
 stdcxx::range<T> VoltageLevel::getConnectables() {
-    return getTerminals() | boost::adaptors::filtered(Terminal::isInstanceOf<T>) | boost::adaptors::transformed(Terminal::map<T>) | boost::adaptors::filtered(DistinctPredicate());
+    return getTerminals() | boost::adaptors::filtered(Terminal::isInstanceOf<T>) | boost::adaptors::filtered(DistinctPredicate()) | boost::adaptors::transformed(Terminal::map<T>);
 }
 
 }  // namespace iidm
diff --git a/include/powsybl/iidm/util/DistinctPredicate.hpp b/include/powsybl/iidm/util/DistinctPredicate.hpp
index f7fa21b..c7056b7 100644
--- a/include/powsybl/iidm/util/DistinctPredicate.hpp
+++ b/include/powsybl/iidm/util/DistinctPredicate.hpp
@@ -8,30 +8,20 @@
 #ifndef POWSYBL_IIDM_UTIL_DISTINCTPREDICATE_HPP
 #define POWSYBL_IIDM_UTIL_DISTINCTPREDICATE_HPP
 
-#include <memory>
-#include <set>
-#include <string>
-
 namespace powsybl {
 
 namespace iidm {
 
-class Identifiable;
+class Terminal;
 
+/**
+ * Keeps only one terminal of each connectable in each voltage level.
+ *
+ * This predicate has no state, so that a range filtered by it can be read several times.
+ */
 class DistinctPredicate {
 public:
-    DistinctPredicate();
-
-    ~DistinctPredicate() = default;
-
-    DistinctPredicate(const DistinctPredicate&) = default;
-
-    DistinctPredicate(DistinctPredicate&&) = default;
-
-    bool operator()(const Identifiable& identifiable) const;
-
-private:
-    std::shared_ptr<std::set<std::string> > m_ids;
+    bool operator()(const Terminal& terminal) const;
 };
 
 }  // namespace iidm
diff --git a/src/iidm/Substation.cpp b/src/iidm/Substation.cpp
index 50be57f..746b1e6 100644
--- a/src/iidm/Substation.cpp
+++ b/src/iidm/Substation.cpp
@@ -15,10 +15,10 @@
 #include <powsybl/iidm/ThreeWindingsTransformerAdder.hpp>
 #include <powsybl/iidm/TwoWindingsTransformer.hpp>
 #include <powsybl/iidm/TwoWindingsTransformerAdder.hpp>
-#include <powsybl/iidm/util/DistinctPredicate.hpp>
 #include <powsybl/iidm/util/Substations.hpp>
 #include <powsybl/iidm/util/VoltageLevels.hpp>
 #include <powsybl/stdcxx/flattened.hpp>
+#include <powsybl/stdcxx/memory.hpp>
 
 namespace powsybl {
 
@@ -62,19 +62,29 @@ unsigned long Substation::getThreeWindingsTransformerCount() const {
 }
 
 stdcxx::const_range<ThreeWindingsTransformer> Substation::getThreeWindingsTransformers() const {
-    const auto& mapper = [](const std::reference_wrapper<VoltageLevel>& voltageLevel) {
-        return voltageLevel.get().getConnectables<ThreeWindingsTransformer>();
+    const auto& mapper = [](const std::reference_wrapper<VoltageLevel>& voltageLevel) -> stdcxx::range<ThreeWindingsTransformer> {
+        VoltageLevel& vl = voltageLevel.get();
+        // a transformer is listed by each of its voltage levels: it is kept in the first one only
+        const auto& filter = [&vl](const ThreeWindingsTransformer& transformer) {
+            return stdcxx::areSame(transformer.getTerminals().front().get().getVoltageLevel(), vl);
+        };
+        return vl.getConnectables<ThreeWindingsTransformer>() | boost::adaptors::filtered(filter);
     };
 
-    return m_voltageLevels | boost::adaptors::transformed(mapper) | stdcxx::flattened | boost::adaptors::filtered(DistinctPredicate());
+    return m_voltageLevels | boost::adaptors::transformed(mapper) | stdcxx::flattened;
 }
 
 stdcxx::range<ThreeWindingsTransformer> Substation::getThreeWindingsTransformers() {
-    const auto& mapper = [](const std::reference_wrapper<VoltageLevel>& voltageLevel) {
-        return voltageLevel.get().getConnectables<ThreeWindingsTransformer>();
+    const auto& mapper = [](const std::reference_wrapper<VoltageLevel>& voltageLevel) -> stdcxx::range<ThreeWindingsTransformer> {
+        VoltageLevel& vl = voltageLevel.get();
+        // a transformer is listed by each of its voltage levels: it is kept in the first one only
+        const auto& filter = [&vl](const ThreeWindingsTransformer& transformer) {
+            return stdcxx::areSame(transformer.getTerminals().front().get().getVoltageLevel(), vl);
+        };
+        return vl.getConnectables<ThreeWindingsTransformer>() | boost::adaptors::filtered(filter);
     };
 
-    return m_voltageLevels | boost::adaptors::transformed(mapper) | stdcxx::flattened | boost::adaptors::filtered(DistinctPredicate());
+    return m_voltageLevels | boost::adaptors::transformed(mapper) | stdcxx::flattened;
 }
 
 const std::string& Substation::getTso() const {
@@ -86,19 +96,29 @@ unsigned long Substation::getTwoWindingsTransformerCount() const {
 }
 
 stdcxx::const_range<TwoWindingsTransformer> Substation::getTwoWindingsTransformers() const {
-    const auto& mapper = [](const std::reference_wrapper<VoltageLevel>& voltageLevel) {
-        return voltageLevel.get().getConnectables<TwoWindingsTransformer>();
+    const auto& mapper = [](const std::reference_wrapper<VoltageLevel>& voltageLevel) -> stdcxx::range<TwoWindingsTransformer> {
+        VoltageLevel& vl = voltageLevel.get();
+        // a transformer is listed by each of its voltage levels: it is kept in the first one only
+        const auto& filter = [&vl](const TwoWindingsTransformer& transformer) {
+            return stdcxx::areSame(transformer.getTerminals().front().get().getVoltageLevel(), vl);
+        };
+        return vl.getConnectables<TwoWindingsTransformer>() | boost::adaptors::filtered(filter);
     };
 
-    return m_voltageLevels | boost::adaptors::transformed(mapper) | stdcxx::flattened | boost::adaptors::filtered(DistinctPredicate());
+    return m_voltageLevels | boost::adaptors::transformed(mapper) | stdcxx::flattened;
 }
 
 stdcxx::range<TwoWindingsTransformer> Substation::getTwoWindingsTransformers() {
-    const auto& mapper = [](const std::reference_wrapper<VoltageLevel>& voltageLevel) {
-        return voltageLevel.get().getConnectables<TwoWindingsTransformer>();
+    const auto& mapper = [](const std::reference_wrapper<VoltageLevel>& voltageLevel) -> stdcxx::range<TwoWindingsTransformer> {
+        VoltageLevel& vl = voltageLevel.get();
+        // a transformer is listed by each of its voltage levels: it is kept in the first one only
+        const auto& filter = [&vl](const TwoWindingsTransformer& transformer) {
+            return stdcxx::areSame(transformer.getTerminals().front().get().getVoltageLevel(), vl);
+        };
+        return vl.getConnectables<TwoWindingsTransformer>() | boost::adaptors::filtered(filter);
     };
 
-    return m_voltageLevels | boost::adaptors::transformed(mapper) | stdcxx::flattened | boost::adaptors::filtered(DistinctPredicate());
+    return m_voltageLevels | boost::adaptors::transformed(mapper) | stdcxx::flattened;
 }
 
 const std::string& Substation::getTypeDescription() const {
diff --git a/src/iidm/util/DistinctPredicate.cpp b/src/iidm/util/DistinctPredicate.cpp
index 9015cfd..886f989 100644
--- a/src/iidm/util/DistinctPredicate.cpp
+++ b/src/iidm/util/DistinctPredicate.cpp
@@ -7,22 +7,20 @@
 
 #include <powsybl/iidm/util/DistinctPredicate.hpp>
 
-#include <powsybl/iidm/Identifiable.hpp>
-#include <powsybl/stdcxx/make_unique.hpp>
+#include <powsybl/iidm/Connectable.hpp>
+#include <powsybl/iidm/Terminal.hpp>
+#include <powsybl/iidm/VoltageLevel.hpp>
+#include <powsybl/stdcxx/memory.hpp>
 
 namespace powsybl {
 
 namespace iidm {
 
-DistinctPredicate::DistinctPredicate() :
-    m_ids(std::make_shared<std::set<std::string>>()) {
-
-}
-
-bool DistinctPredicate::operator()(const Identifiable& identifiable) const {
-    if (m_ids->find(identifiable.getId()) == m_ids->end()) {
-        m_ids->insert(identifiable.getId());
-        return true;
+bool DistinctPredicate::operator()(const Terminal& terminal) const {
+    for (const Terminal& other : terminal.getConnectable().get().getTerminals()) {
+        if (stdcxx::areSame(other.getVoltageLevel(), terminal.getVoltageLevel())) {
+            return stdcxx::areSame(other, terminal);
+        }
     }
 
     return false;
-- 
2.43.0


From aec01a577a07fa0dc5fb59bf8aac3db0fa80844d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:06 +0000
Subject: [PATCH 53/55] fix: a computation of the components that fails is done
 again by the next read

---
 src/iidm/AbstractComponentsManager.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/iidm/AbstractComponentsManager.cpp b/src/iidm/AbstractComponentsManager.cpp
index e564672..bdcd613 100644
--- a/src/iidm/AbstractComponentsManager.cpp
+++ b/src/iidm/AbstractComponentsManager.cpp
@@ -128,9 +128,10 @@ void AbstractComponentsManager::update() {
     const auto& componentNumbers = result.getComponentNumber();
     const auto& componentSizes = result.getComponentSize();
 
-    m_components.reserve(componentSizes.size());
+    decltype(m_components) components;
+    components.reserve(componentSizes.size());
     for (unsigned long i = 0UL; i < componentSizes.size(); i++) {
-        m_components.emplace_back(m_factory(m_network, i, componentSizes[i]));
+        components.emplace_back(m_factory(m_network, i, componentSizes[i]));
     }
 
     for (unsigned long i = 0UL; i < componentNumbers.size(); i++) {
@@ -138,6 +139,9 @@ void AbstractComponentsManager::update() {
         setComponentNumber(bus, componentNumbers[i]);
     }
 
+    // the computation is complete: if it had failed before, it would have to be done again
+    m_components = std::move(components);
+
     auto endTime = std::chrono::high_resolution_clock::now();
     std::chrono::duration<double> diff = endTime - startTime;
     logger.debug(stdcxx::format("%1% components computed in %2% ms", getComponentLabel(), diff.count() * 1000.0));
-- 
2.43.0


From 442604c2e7bf4e7db7a19ed3e8f11fe5067c4ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:38 +0000
Subject: [PATCH 54/55] fix: sections of a non linear shunt compensator can be
 modified

The sections were never attached to their shunt compensator, so every call
of setB() or setG() on them threw an AssertionError.
---
 include/powsybl/iidm/ShuntCompensatorNonLinearModel.hpp | 2 ++
 src/iidm/ShuntCompensatorNonLinearModel.cpp             | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/include/powsybl/iidm/ShuntCompensatorNonLinearModel.hpp b/include/powsybl/iidm/ShuntCompensatorNonLinearModel.hpp
index f22f846..7bbd95a 100644
--- a/include/powsybl/iidm/ShuntCompensatorNonLinearModel.hpp
+++ b/include/powsybl/iidm/ShuntCompensatorNonLinearModel.hpp
@@ -33,6 +33,8 @@ public:
         Section& setG(double g);
 
     private:
+        friend class ShuntCompensatorNonLinearModel;
+
         Section& attach(ShuntCompensator& shuntCompensator);
 
     private:
diff --git a/src/iidm/ShuntCompensatorNonLinearModel.cpp b/src/iidm/ShuntCompensatorNonLinearModel.cpp
index 8120cbd..0c04b40 100644
--- a/src/iidm/ShuntCompensatorNonLinearModel.cpp
+++ b/src/iidm/ShuntCompensatorNonLinearModel.cpp
@@ -59,6 +59,9 @@ ShuntCompensatorNonLinearModel& ShuntCompensatorNonLinearModel::attach(ShuntComp
         throw AssertionError(stdcxx::format("ShuntCompensatorNonLinearModel already attached to %1%", m_shuntCompensator.get().getId()));
     }
     m_shuntCompensator = shuntCompensator;
+    for (auto& section : m_sections) {
+        section.attach(shuntCompensator);
+    }
     return *this;
 }
 
-- 
2.43.0


From a384c50cbaad8004367833f69fd11d1938858885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:35 +0000
Subject: [PATCH 55/55] fix: moving half a tie line reports a failing
 allocation

---
 include/powsybl/iidm/HalfLine.hpp | 3 ++-
 src/iidm/HalfLine.cpp             | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/powsybl/iidm/HalfLine.hpp b/include/powsybl/iidm/HalfLine.hpp
index 10b3f3f..33e1d1c 100644
--- a/include/powsybl/iidm/HalfLine.hpp
+++ b/include/powsybl/iidm/HalfLine.hpp
@@ -78,7 +78,8 @@ private:
     HalfLine(const std::string& id, const std::string& name, bool fictitious,
              double r, double x, double g1, double b1, double g2, double b2, const Branch::Side& side);
 
-    HalfLine(HalfLine&& halfLine) noexcept;
+    // NOLINTNEXTLINE(performance-noexcept-move-constructor): the boundary is allocated
+    HalfLine(HalfLine&& halfLine);
 
     ~HalfLine() override = default;
 
diff --git a/src/iidm/HalfLine.cpp b/src/iidm/HalfLine.cpp
index 679515f..3f8d85a 100644
--- a/src/iidm/HalfLine.cpp
+++ b/src/iidm/HalfLine.cpp
@@ -27,7 +27,7 @@ HalfLine::HalfLine(const std::string& id, const std::string& name, bool fictitio
     m_boundary(stdcxx::make_unique<half_line::Boundary>(*this, side)) {
 }
 
-HalfLine::HalfLine(HalfLine&& halfLine) noexcept :
+HalfLine::HalfLine(HalfLine&& halfLine) :
     m_parent(halfLine.m_parent),
     m_id(std::move(halfLine.m_id)),
     m_name(std::move(halfLine.m_name)),
-- 
2.43.0

