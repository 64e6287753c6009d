"""Budgets and wording of the checks. quick/thorough: (runs per worker, seconds per worker) for 8 workers."""
HIST_RULE = "One run builds a random network from its seed and applies a random history of public API calls; two runs are distinct when the hash of their sequence of calls, outcomes and observed results differs; calls without a candidate argument are not counted."
CONC_RULE = "One run executes several client threads under the simulated scheduler; two runs are distinct when the sequence of context switches (thread and program counter of every switch) differs; only runs with at least one switch inside the code of the library count."
SEQ = "seeded simulated histories of API calls (valid and invalid) over randomly built networks, with the heap, the clock and the allocation of addresses under the simulator, "
SAMPLE = "Assurance by sampling: the histories and schedules of the seeds of the run, nothing beyond them. "
TRUST = "Trusts the harness (model, oracles, simulated runtime in sim/), clang's memory-access instrumentation, libstdc++, libxml2 and boost."
NOTE = SAMPLE + TRUST


def hist(technique, **kw):
    d = dict(quick=(100000, 30), thorough=(10000000, 600), rule=HIST_RULE, technique=SEQ + technique, note=NOTE,
             stubs="heap (guarded, quarantined), clock; single client thread")
    d.update(kw)
    return d


CONC = "seeded schedules of real client threads of which the simulator runs one at a time, switching at any memory access, lock or atomic operation of the library; vector-clock race detection; "


def conc(technique, **kw):
    d = dict(quick=(100000, 40), thorough=(10000000, 600), rule=CONC_RULE, technique=CONC + technique, note=NOTE,
             stubs="scheduler, mutexes, condition variables, once-guards, heap (guarded, quarantined), clock",
             conc=True, min_runs=30, assumptions=["sequentially consistent memory in the simulated executions; weaker orders are covered by the race detector only"])
    d.update(kw)
    return d


PROPS = {
    "C03": hist("checked against a reference model of the variants after every call"),
    "C06": hist("every topology answer compared with an independent recomputation in every variant, with the equipment of buses and references to them"),
    "C07": hist("every component answer compared with an independent recomputation in every variant"),
    "C09": hist("every accessor compared with an independent model of ids, aliases and containment after the calls"),
    "C10": hist("a full snapshot of all variants before and after each refused call, validity invariants in every variant"),
    "C11": hist("reference, registry and topology oracles after each removal and a heap that reports every use of freed memory"),
    "C12": hist("every network written with random options and read back through streams and simulated files that split the data at random, both compared element by element; the documents compared too", stubs="streams and file storage (sizes of reads and writes, interrupted calls), heap (guarded, quarantined), clock; single client thread"),
    "C13": hist("exports to streams and simulated files that fail, throw, are full or run out of memory at random points: an export that returns normally must have delivered every byte", stubs="streams and file storage (open, write, close and flush failures, full disk, short and interrupted calls), failing allocations, heap (guarded, quarantined), clock; single client thread"),
    "C14": hist("imports of documents that are cut, damaged in bytes or in meaning, or delivered by streams and simulated files that fail at random points: an exception, or a network that passes every oracle of the histories and can be written; no crash, leak or endless loop", stubs="streams and file storage (open and read failures, sizes of reads, interrupted calls), failing allocations, heap (guarded, quarantined), clock; single client thread", assumptions=["node numbers between 10000 and 1e10, which are legitimate but make the dense graph huge, are left out of the damage"]),
    "C15": hist("every anonymised document compared field by field with the plain one under the mapping, and read back with it; the anonymiser alone against a map, over streams that split and fail at random", stubs="streams and file storage (sizes of reads and writes, interrupted calls, read failures), heap (guarded, quarantined), clock; single client thread"),
    "C16": hist("histories in which the network object itself is moved, with every oracle of the histories and a heap that reports every use of the old object afterwards"),
    "C17": hist("every document compared byte by byte with that of a twin network that went through the same history with other reads, temporary variants, heap layout, clock, time zone and locale in between; exports by concurrent client threads under the simulated scheduler compared with serial ones", stubs="scheduler, heap (addresses and content of fresh memory decided by the seed), clock, locale and time zone of the process", assumptions=["only the C++ locale is varied: the machine has no C locale with another decimal separator"]),
    "C21": hist("every query, path search and traversal compared with a set-based model, callbacks that throw or call the graph again, failing allocations, and concurrent readers under the simulated scheduler", stubs="scheduler, mutexes, heap (guarded, quarantined, failing allocations)", rule="One run applies a random history of graph operations and queries; two runs are distinct when the hash of the sizes of the graph after every operation differs."),
    "C24": hist("visitors and traversals with callbacks that throw or read the network again, and queries that run out of memory, with snapshots before and after and a twin network on which nothing was read", stubs="heap (guarded, quarantined, failing allocations), clock; single client thread"),
    "C26": hist("every derived quantity recomputed from the primary values of each variant after the calls"),
    "C19": hist("extension look-up compared with a model, attributes of extensions followed through variants and removals"),
    "C01": conc("results and final values compared with the same operations run one thread after the other on a twin network", assumptions=["each thread works on its own variant, as the documentation of multi-thread access asks", "sequentially consistent memory in the simulated executions; weaker orders are covered by the race detector only"]),
    "C02": conc("every answer compared with a model of the working variants of each thread and network"),
    "C05": conc("the recorded history of calls searched for a linearisation against an executable model of the variant manager"),
    "C08": conc("topology answers and final topology compared with a serial execution on a twin network and with an independent recomputation", assumptions=["each thread works on its own variant; several threads on the same variant are outside the documented contract"]),
    "C20": conc("every look-up, message count and destruction compared with a model of the logger registry"),
    "C22": conc("results and final state of every thread compared with the same operations run alone"),
}
