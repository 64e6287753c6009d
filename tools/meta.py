#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json. Properties without an entry in props.PROPS are left out until their check exists."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from props import PROPS

I = "src/iidm/"
X = "src/iidm/converter/xml/"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe or [], hook_needed=None)))


prop("C01", "Variants can be worked on concurrently without influencing each other",
     "When variant multi-thread access is allowed and every thread works on its own variant, reading and modifying the state of the network (set-points, flows, tap positions, switch and terminal states, voltages, multi-variant extensions) from several threads at once gives every thread the results, and leaves every variant with the values, of the same operations run one thread after the other. No two threads make a conflicting unsynchronised access to the same memory while doing so.",
     ["schedules", "histories"], "every interleaving of threads working on distinct variants, every history of state operations, every network",
     "The existing tests use two threads that exchange one value with a barrier; the operating system picks one interleaving and a data race is invisible without a detector.",
     [I + "ThreadLocalMultipleVariantContext.cpp", I + "VariantManager.cpp", I + "NetworkIndex.cpp", I + "NetworkRef.cpp"],
     [("per-variant arrays indexed by the working variant of the thread", I + "Terminal.cpp"), ("thread-local variant context", I + "ThreadLocalMultipleVariantContext.cpp"), ("bool attributes stored one memory location per variant", "include/powsybl/iidm/Generator.hpp")],
     ["public getters and setters of every network element"])
prop("C02", "The working variant belongs to one thread and one network",
     "With variant multi-thread access, selecting or losing a working variant in one thread never changes which variant another thread works on, nor the working variant of another network in the same thread. A thread that has selected no variant, or that has removed the variant it was working on, gets an exception and never the data of some variant; switching multi-thread access on or off keeps the working variant of the thread that does it.",
     ["schedules", "histories"], "every interleaving of threads that select, reset and read the working variant of one or several networks",
     "Tests use one network and two threads at a time; cross-talk between networks of a thread, or a working variant lost with its removal, needs longer multi-network histories.",
     [I + "ThreadLocalMultipleVariantContext.cpp", I + "MultipleVariantContext.cpp", I + "VariantManager.cpp", I + "VariantContextGuard.cpp"],
     [("thread-local index keyed by the context", I + "ThreadLocalMultipleVariantContext.cpp"), ("variant context guard", I + "VariantContextGuard.cpp")],
     ["VariantManager::getWorkingVariantId / setWorkingVariant"])
prop("C03", "Variants behave like independent full copies of the network state",
     "After any history of cloning (one or several targets, with or without overwrite), removing, re-creating and selecting variants, every variant holds exactly the values its source had when it was cloned, changed only by what was written while it was the working variant: nothing leaks between variants, into a re-used slot, or to elements created while several variants exist. The list of variants and the working variant are those the calls imply, and a refused call changes nothing.",
     ["histories", "inputs"], "every history of variant and state operations on every network",
     "Tests clone one or two variants of fixed networks and check a few attributes of one element type each; slot re-use after removals and interplay with creations, removals and extensions are hardly touched.",
     [I + "VariantManager.cpp", "include/powsybl/iidm/VariantArray.hxx", I + "Network.cpp", I + "Terminal.cpp", I + "TapChanger.cpp"],
     [("extend/reduce/allocate/delete of variant array elements in every multi-variant object", "include/powsybl/iidm/MultiVariantObject.hpp"), ("free-index list of the variant manager", I + "VariantManager.cpp")],
     ["every per-variant getter in every variant"])
prop("C05", "Concurrent variant management is atomic",
     "When several threads clone, remove, list and select variants of one network at the same time, every call takes effect as if the calls were made one after the other in some order compatible with their real-time order, including which calls are refused, and every remaining variant holds the values of the source of its last clone. Nothing is corrupted: the variant manager stays usable and every remaining variant can be selected.",
     ["schedules", "histories"], "every interleaving of variant-management calls made by several threads",
     "No test manages variants from two threads at once.",
     [I + "VariantManager.cpp", I + "ThreadLocalMultipleVariantContext.cpp"],
     [("recursive mutex of the variant manager", I + "VariantManager.cpp")],
     ["VariantManager public API"])
prop("C06", "Topology views always agree with the current switches, buses and connections",
     "In every variant and after any history of structural changes, switch operations, connections and variant operations, the bus/breaker and bus views of every voltage level, the buses of every terminal and the network-wide bus lists are what a recomputation from the configured nodes, switches, internal connections and connectable buses gives, repeated or unrelated reads never change the answer, and what is derived from the views - the equipment, terminals and best terminal of a bus, references to buses, the nodes of a bus, equivalent terminals - follows them.",
     ["histories", "inputs"], "every history of structure, topology and variant operations with cached answers requested at any point, every network",
     "Tests use small fixed topologies and query once or twice; a cache that is not invalidated shows only after a specific read-modify-read sequence in a specific variant.",
     [I + "NodeBreakerVoltageLevelTopology.cpp", I + "BusBreakerVoltageLevelTopology.cpp", I + "NodeBreakerVoltageLevel.cpp", I + "BusBreakerVoltageLevel.cpp", I + "NetworkViews.cpp", I + "BusCache.cpp"],
     [("calculated bus caches and their invalidation", I + "NodeBreakerVoltageLevelTopology.cpp"), ("bus/breaker merged-bus cache", I + "BusBreakerVoltageLevelTopology.cpp")],
     ["VoltageLevel::getBusView / getBusBreakerView, Terminal views, Network views"])
prop("C07", "Connected and synchronous components always reflect the current connectivity",
     "In every variant and after any history of changes, two buses are in the same connected component exactly when a path of closed branches, transformers and HVDC lines joins them, in the same synchronous component exactly when one without HVDC lines does, components are numbered by decreasing size, and the main-component flags follow.",
     ["histories", "inputs"], "every history of structure, topology and variant operations with components requested at any point, every network",
     "Tests check component numbers of fixed networks after one change; stale components need a specific order of reads and changes.",
     [I + "AbstractComponentsManager.cpp", I + "ConnectedComponentsManager.cpp", I + "SynchronousComponentsManager.cpp", I + "Component.cpp", "src/math/GraphUtil.cpp"],
     [("component cache invalidated with the buses", I + "AbstractComponentsManager.cpp")],
     ["Bus::getConnectedComponent, getSynchronousComponent, isInMainConnectedComponent"])
prop("C08", "Topology can be computed and changed concurrently in different variants",
     "When threads working on distinct variants operate switches and connections and query buses, merged buses and components at the same time, every answer and the final topology of every variant are those of the same operations run one thread after the other, and no two threads make a conflicting unsynchronised access to the same memory.",
     ["schedules", "histories"], "every interleaving of topology reads and changes made by threads on distinct variants",
     "Topology tests are single-threaded; caches and graph structures shared by the variants are never exercised concurrently.",
     [I + "NodeBreakerVoltageLevelTopology.cpp", I + "BusBreakerVoltageLevelTopology.cpp", I + "BusCache.cpp", I + "AbstractComponentsManager.cpp", "include/powsybl/math/UndirectedGraph.hxx"],
     [("per-variant topology caches", I + "NodeBreakerVoltageLevelVariant.cpp"), ("mutexes of the shared caches", "include/powsybl/math/UndirectedGraph.hxx")],
     ["topology views and components"])
prop("C09", "Ids, aliases, containers and counts always agree",
     "After any history of creations, removals and alias operations, every element is reachable by its id and each of its aliases from the network and from every container it belongs to, every by-type list and count contains exactly the existing elements, containment is consistent in both directions, lists can be read repeatedly with the same result, and removed ids and aliases resolve to nothing and can be used again.",
     ["histories", "inputs"], "every history of creations, removals and alias changes",
     "Tests create and remove single elements and check a handful of accessors; the agreement of several hundred accessors after mixed histories is not sampled.",
     [I + "NetworkIndex.cpp", I + "Network.cpp", I + "Substation.cpp", I + "VoltageLevel.cpp", I + "Identifiable.cpp"],
     [("network index", I + "NetworkIndex.cpp"), ("back references of containers", I + "Substation.cpp")],
     ["Network/Substation/VoltageLevel accessors"])
prop("C10", "A refused operation leaves the network unchanged and every value valid",
     "Any operation that is refused throws a library exception and leaves the network exactly as it was: no half-created element, no registered id, no connected terminal, no changed value in any variant. An operation whose arguments are valid is not refused, and what was created holds exactly the values it was given. Conversely the values readable in every variant always satisfy the documented validity rules of the model.",
     ["histories", "inputs"], "every sequence of valid and invalid operations on every network, every variant",
     "Tests check that invalid arguments throw, on a network that is then discarded; almost none looks at what the refused call left behind, none in the other variants.",
     [I + "ValidationUtils.cpp", I + "Network.cpp", I + "TerminalBuilder.cpp", I + "LineAdder.cpp", I + "TapChanger.cpp", I + "ShuntCompensator.cpp"],
     [("validation before mutation in adders and setters", I + "ValidationUtils.cpp")],
     ["all public mutators"])
prop("C11", "Removing an element leaves nothing dangling and nothing else changed",
     "After an element is removed (alone or with its voltage level or substation), nothing reachable from the network refers to it any more - regulating terminals, slack terminals, topology, views, caches - no freed memory is used, and every other element keeps its values in every variant.",
     ["histories"], "every history that contains removals, followed by any reads",
     "Tests remove an element and check that lookups fail; dangling references surface only when a later read follows them.",
     [I + "Connectable.cpp", I + "VoltageLevel.cpp", I + "Substation.cpp", I + "HvdcLine.cpp", I + "NodeBreakerVoltageLevel.cpp", I + "BusBreakerVoltageLevel.cpp"],
     [("detach and clean on removal", I + "BusBreakerVoltageLevel.cpp"), ("onTerminalRemoved", I + "Connectable.cpp")],
     ["every accessor after a removal"])
prop("C12", "Writing and reading a network as XML gives back the same network",
     "Writing any network (any variant, topology level, supported format version and set of extensions) and reading the result back gives a network with the same elements, attributes, topology and extensions up to what the chosen version and level can express (a strict export refuses what the version cannot express; the case date may be spelled with another offset), however the stream or file delivers its bytes. Writing the network that was read gives the same document again.",
     ["inputs", "histories", "fault_sequences"], "every network reachable through the API, every working variant, every way a stream may split its data, every export option",
     "Tests round-trip a few fixed resource files, with the whole document available at once and freshly created networks.",
     [X + "NetworkXml.cpp", "src/xml/XmlStreamReader.cpp", "src/xml/XmlStreamWriter.cpp", X + "VoltageLevelXml.cpp", X + "NodeBreakerViewSwitchXml.cpp"],
     [("element serialisers", X), ("stream reader and writer", "src/xml")],
     ["Network::writeXml / Network::readXml"])
prop("C13", "A network that could not be written completely is reported",
     "Whenever the destination of an export (stream or file, including the anonymisation mapping) fails to take all the data - full disk, I/O error, failed open, close or flush, exception thrown by the stream - or a call of the XML library or an allocation fails while it is written, the export call reports an error; it never returns normally while data were lost, and it leaves the network and the process usable.",
     ["fault_sequences", "crash_points", "inputs"], "every failure of the destination at every byte, every export entry point",
     "No test makes a write fail.",
     ["src/xml/XmlStreamWriter.cpp", X + "NetworkXml.cpp", I + "converter/Anonymizer.cpp", I + "converter/SimpleAnonymizer.cpp"],
     [("libxml2 output callbacks", "src/xml/XmlStreamWriter.cpp")],
     ["Network::writeXml overloads, SimpleAnonymizer::write"])
prop("C14", "Damaged or unreadable input is rejected cleanly",
     "Reading a document that is truncated, corrupted, or whose stream or file fails part-way either throws an exception that says so (a library exception, or the standard one for a malformed number) or yields a network that is consistent and can be written; it never crashes, hangs, leaks, corrupts memory, throws an unrelated exception, or silently returns a part of the network because the input ended or failed early or because a call of the XML library that reads on failed.",
     ["fault_sequences", "inputs", "crash_points"], "every truncation point, I/O error position, byte corruption and stream chunking of every document, allocation failure at any point",
     "Tests read a few hand-made invalid files; truncation and I/O failure at arbitrary offsets are never tried.",
     ["src/xml/XmlStreamReader.cpp", X + "NetworkXml.cpp", X + "ConnectableXml.cpp"],
     [("error propagation of the stream reader", "src/xml/XmlStreamReader.cpp"), ("end-of-document checks", X + "NetworkXml.cpp")],
     ["Network::readXml overloads"])
prop("C15", "Anonymised export hides every name and the mapping restores it",
     "An anonymised export shows every id, alias, name, tso and geographical tag of the elements of the network only by its replacement and is otherwise the plain export (the network's own id, countries, properties, limit names and texts of extensions are not anonymised by design); distinct strings get distinct replacements, and reading the document with the written mapping, over files and streams that split the data in any way, restores the original network. A mapping that could not be read entirely because its source failed is reported.",
     ["inputs", "histories", "fault_sequences"], "every network, every set of names, every stream behaviour",
     "One test anonymises one fixed network and compares files.",
     [I + "converter/SimpleAnonymizer.cpp", X + "NetworkXml.cpp", X + "IdentifiableXml.cpp"],
     [("two-way mapping", I + "converter/SimpleAnonymizer.cpp")],
     ["anonymised writeXml/readXml"])
prop("C16", "Moving a network object preserves everything",
     "Moving a network (by construction, at any point of any history, including with several variants, caches filled, aliases, extensions and variant multi-thread access enabled) gives a network whose elements, variants, views, extensions and behaviour are those of the original, with no reference left to the moved-from object.",
     ["histories", "inputs"], "every history before and after any number of moves",
     "Tests move a freshly built network and check a few parent references.",
     [I + "Network.cpp", I + "NetworkIndex.cpp", I + "VariantManager.cpp", I + "NetworkRef.cpp", I + "NetworkViews.cpp"],
     [("move constructors that re-target the back references", I + "Network.cpp")],
     ["Network(Network&&)"])
prop("C17", "Exports depend on the network only",
     "Exporting the same network twice gives byte-identical documents, whatever was read in between, whatever the thread, clock, locale or memory layout, and the document of a network depends on its content and not on the order in which caches were filled or variants allocated.",
     ["histories", "configurations", "schedules"], "every network, every history of reads between the exports, every clock, locale, heap layout and thread",
     "Tests compare one export with a reference file under one locale, clock and heap layout.",
     [X + "NetworkXml.cpp", "src/xml/XmlStreamWriter.cpp", "include/powsybl/stdcxx/format.hxx"],
     [("ordered traversal of the index", X + "NetworkXml.cpp")],
     ["Network::writeXml"])
prop("C19", "Extensions follow the life of the element they extend",
     "After any history of adding, replacing, removing and reading extensions, cloning and removing variants, moving the network and removing the extended elements, every element has exactly the extensions that were added and not removed, each found by type and by name, refers to the element it extends, holds the right value in every variant, and is destroyed exactly once.",
     ["histories", "inputs"], "every history of extension, variant and structural operations over every built-in extension type",
     "Tests add one extension to one element and check its getters.",
     [I + "Extendable.cpp", I + "Extension.cpp", I + "AbstractMultiVariantIdentifiableExtension.cpp", "extensions/iidm/src", "extensions/entsoe/src"],
     [("two indexes of extensions kept in step", I + "Extendable.cpp"), ("variant hooks of multi-variant extensions", I + "Identifiable.cpp")],
     ["Extendable public API, extension getters"])
prop("C20", "Loggers can be used and replaced from any thread",
     "When threads register, look up, use and remove loggers at the same time, a look-up returns the logger registered for the longest matching prefix of the name (a name already registered keeps its logger, a removed name falls back to the next prefix or to the disabled default logger), every message reaches the logger it was given to exactly once and in order, a removed logger is destroyed exactly once and never used again, and there is no data race, deadlock or lost registration.",
     ["schedules", "histories"], "every interleaving of registrations, look-ups, removals and logging calls of several threads",
     "Logging tests are single-threaded and register one logger at a time.",
     ["src/logging/LoggerFactory.cpp", "include/powsybl/logging/LoggerFactory.hpp", "src/logging/ContainerLogger.cpp", "src/logging/LogMessage.cpp"],
     [("mutex of the logger factory", "src/logging/LoggerFactory.cpp")],
     ["LoggerFactory::getLogger / addLogger / removeLogger"])
prop("C21", "Graph operations match a simple mathematical model",
     "After any history of adding and removing vertices and edges with re-use of freed numbers, every query, path search and traversal of an undirected graph gives what a plain set-based model of the same history gives; removed elements are never returned, readers in several threads get the same answers, and an exception thrown by a visitor or predicate, or a failed allocation, leaves the graph as it was.",
     ["histories", "inputs", "fault_sequences"], "every history of graph operations, callbacks that throw at any point, allocations that fail at any point, every interleaving of readers",
     "Tests build one fixed graph; re-use of indexes and failing callbacks are not explored.",
     ["include/powsybl/math/UndirectedGraph.hpp", "include/powsybl/math/UndirectedGraph.hxx", "src/math/GraphUtil.cpp"],
     [("free-edge list and adjacency cache", "include/powsybl/math/UndirectedGraph.hxx")],
     ["UndirectedGraph public API"])
prop("C22", "Independent networks do not influence each other",
     "Threads that each use their own networks - creating, modifying, computing topology, reading, writing and destroying them - never interfere: every thread gets the results it would get alone, and no two threads make a conflicting unsynchronised access to the same memory.",
     ["schedules", "histories"], "every interleaving of threads using distinct networks, from the first use of the library in the process",
     "No test uses two networks in two threads; shared caches, lazily built tables and libxml2 initialisation are exercised by one thread only.",
     [I + "ThreadLocalMultipleVariantContext.cpp", I + "ExtensionProviders.cpp", "src/xml/XmlStreamReader.cpp", "src/stdcxx/Properties.cpp", I + "Enum.cpp"],
     [("no shared mutable state; function-local statics", "src")],
     ["the whole public API"])
prop("C24", "Reading and visiting never change the network",
     "Every query - views, lookups, ranges, traversals, topology visitors, exports, area and component computations - leaves all observable state unchanged in every variant, including the working variant, even when a callback given to it throws or queries the network again, or when memory runs out in the middle; a visitor of a voltage level or bus is given each equipment once per terminal it has there, and a traversal meets what can be reached and nothing else.",
     ["histories", "inputs", "fault_sequences"], "every query with callbacks that throw or re-enter at any step, on any network in any variant",
     "Tests run each visitor once on a fixed network with callbacks that always succeed.",
     [I + "VariantManager.cpp", I + "NodeBreakerVoltageLevelTopology.cpp", I + "Terminal.cpp", I + "VoltageLevel.cpp", I + "AbstractTerminalTopologyVisitor.cpp"],
     [("working variant restored by a guard", I + "VariantContextGuard.cpp")],
     ["traverse, visitEquipments, forEachVariant and const accessors"])

prop("C26", "Quantities derived from the state follow the state of the working variant",
     "In every variant and after any history of changes, currents, permanent and temporary limit overloads of branches, flows and voltages at the other end of lines, transformers, dangling lines and tie-line halves, sums of power per bus, the current step of tap changers, the susceptance of shunt compensators and the reactive limits at a power are what the documented formulas give for the values that hold in the working variant at that moment.",
     ["histories", "inputs"], "every history of operations on states, limits, tap changers, sections, topology and variants, every network",
     "Tests check single formulas on one network in its initial state; a derived quantity that lags behind the state, or takes the value of another variant, needs a history to show.",
     [I + "Terminal.cpp", I + "Branch.cpp", I + "util/LimitViolationUtils.cpp", I + "util/SV.cpp", I + "DanglingLineBoundary.cpp", I + "HalfLineBoundary.cpp", I + "Bus.cpp", I + "ReactiveCapabilityCurve.cpp", I + "ShuntCompensator.cpp", "include/powsybl/iidm/TapChanger.hxx"],
     [("limit checks", I + "util/LimitViolationUtils.cpp"), ("state vectors", I + "util/SV.cpp"), ("current step", "include/powsybl/iidm/TapChanger.hxx")],
     ["Branch::isOverloaded / checkTemporaryLimits, Boundary accessors, Bus::getP / getQ, getCurrentStep, ShuntCompensator::getB, ReactiveLimits::getMinQ"])
NA = [
    ("C91", "Enumerations and countries convert to and from text without loss",
     "Every enumeration value and country converts to its text and back to itself, and unknown text is refused.",
     ["inputs"], "all values and strings", "Tests sample some values.", ["include/powsybl/iidm/Enum.hxx", I + "Country.cpp"],
     "pure total functions on small finite domains: nothing to schedule or to fail (concurrent first use of their tables is part of C22)"),
]


def main():
    claimed = [p for p in P if p["id"] in PROPS]
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in claimed:
            f.write(json.dumps(p) + "\n")
        for id, title, st, over, text, why, files, reason in NA:
            f.write(json.dumps(dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=text), why_tests_cant=why,
                                    anchors=dict(files=files, mechanism=[dict(name="the functions themselves", where=files[0])], observe_at=[], hook_needed=None))) + "\n")
    m = dict(version=1, setup_cmd="python3 build.py",
             checks=[dict(property=p["id"], quick_cmd="python3 check.py %s quick" % p["id"], thorough_cmd="python3 check.py %s thorough" % p["id"],
                          technique="deterministic simulation with fault injection: " + PROPS[p["id"]]["technique"], level="exploration", level_note=PROPS[p["id"]]["note"]) for p in claimed],
             not_applicable=[dict(property=n[0], reason=n[-1]) for n in NA])
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
