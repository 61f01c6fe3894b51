SEQ = "the code reads no clock; simulated time is counted in executed steps"
c("P01", 40000, 4000000, time=SEQ, real=DDREAL, stub=HEAP,
  technique="seeded histories of package operations with forced/automatic collections, cache clears, resizes, resets and heap reuse, compared with dense linear algebra",
  measure="distinct (operation, operand sharing class, package phase, cache state) tuples plus distinct result values")
c("P02", 40000, 4000000, time=SEQ, real=DDREAL, stub=HEAP,
  technique="seeded histories of holds, releases, operations and collections, compared with an independent reachability model of nodes and numbers",
  measure="distinct (operation, live-node count class, collection phase) tuples plus distinct table populations")
c("P03", 40000, 4000000, time=SEQ, real=DDREAL, stub=HEAP,
  technique="seeded histories over Clifford+T values; independently computed equal diagrams must be pointer-identical, stored nodes in normal form",
  measure="distinct (operation, operand sharing class, package phase) tuples plus distinct canonical roots")
c("P04", 40000, 4000000, time=SEQ, real=DDREAL, stub=HEAP,
  technique="allocation failures injected at seeded points inside package operations; held diagrams, later results and final emptiness are checked against the model",
  measure="distinct (operation, failing allocation index class) tuples plus distinct recovered states")
c("P05", 20000, 2000000, time=SEQ, real=DDREAL+["measurement and sampling (dd::Simulation)","qc::QuantumComputation"], stub=HEAP+["random engine (every output chosen by the simulator)"],
  technique="measurements on held states inside seeded package histories; the simulator owns every random number the engine returns (including both ends of its range) and compares outcomes and post-measurement states with exact Born probabilities",
  measure="distinct (operation, package phase, outcome class) tuples plus distinct result values")
c("P06", 12000, 1200000, time=SEQ, real=DDREAL+["measurement and sampling (dd::Simulation)","qc::QuantumComputation"], stub=HEAP+["random engine (every output chosen by the simulator)"],
  technique="seeded static and dynamic circuits sampled with many seeds in a package under collection pressure; histograms compared with the exact outcome distribution of a branching reference simulator",
  measure="distinct (circuit kind, layout, register split) tuples plus distinct histograms")
c("P07", 30000, 3000000, time=SEQ, real=DDREAL+["density matrices","DeterministicNoiseFunctionality"], stub=HEAP,
  technique="seeded histories of gates, noise, measurements, copies and collections over several density matrices in one package, compared with dense density-matrix arithmetic",
  measure="distinct (operation, stored density nodes) pairs plus distinct result values")
c("P08", 3000, 300000, time=SEQ, real=DDREAL+["StochasticNoiseFunctionality"], stub=HEAP+["random engine (lattice points and both ends of the range)"],
  technique="stochastic noise driven by simulator-chosen random numbers (a low-discrepancy sequence and extreme values); every outcome is compared with the Kraus outcomes and the average with the channel",
  measure="distinct (noise configuration, qubits, number of distinct outcomes) tuples plus distinct averages")
c("P09", 16000, 1600000, time=SEQ, real=DDREAL+["serialization (dd/Export)","C++ file streams of the standard library"], stub=HEAP+["disk (simulated: split, failing, interrupted reads and writes, full disk, failing close and open)"],
  technique="diagrams written to and read from a simulated disk with split, short, interrupted, failing and truncated I/O and failing allocations inside package histories; compared with the written value and with its completely written sub-diagrams",
  measure="distinct (format, fault kind, fault offset class, outcome) tuples plus distinct values")
c("P10", 30000, 3000000, time=SEQ, real=["qc::QuantumComputation","OpenQASM dump","qasm3 importer (scanner, parser, passes)","C++ file streams of the standard library"], stub=HEAP+["disk (simulated: split, failing, interrupted reads and writes, full disk, failing close and open)"],
  technique="seeded circuits dumped to and imported from a simulated disk with split, failing, interrupted and truncated I/O, included files and failing allocations; the imported operations are compared with the original's in all measurement branches",
  measure="distinct (format, file size class, fault kind, fault offset class, outcome) tuples")
c("P11", 2600, 200000, variant="cov", time="none: a thread runs until the seeded scheduler preempts it at a basic block, an access to global data or a lock",
  real=["threads (pthread), thread-local storage, static initialisation","packages, circuits, parsing, sampling, noise, ZX, layers, symbolic expressions, neutral atom computations, optimizer passes, generators"],
  stub=["pthread mutexes, read-write locks, once flags and static-initialisation guards (block in the scheduler)"]+HEAP+["entropy sources and clocks (scripted)"],
  technique="seeded thread schedules: two or three threads run jobs on objects of their own, one thread at a time, preempted at seeded basic blocks, code places or accesses to global data, with allocations failing in single threads; outputs are compared with each thread running alone, and a happens-before check over all memory accesses (compiler instrumentation with the simulator's own runtime) reports data shared without synchronisation",
  measure="distinct interleavings (hash of all switches)")
c("P12", 14000, 1000000, time="clocks are scripted (every read returns a seeded value); no timers exist",
  real=["generators, state preparation, sampling, measuring, stochastic and density noise","DD construction, DOT and weight export, serialization","qc::Layer, ZX reduction, symbolic expressions, OpenQASM dump and import, optimizer passes, neutral atom computations"], stub=HEAP+["entropy sources and clocks (scripted)"],
  technique="the same seeded jobs run in several forked worlds that differ in heap layout, fill patterns, block distances, stack contents, entropy, clocks, order, repetition, earlier work cut short by failing allocations and shared packages or streams; all outputs are compared between the worlds",
  measure="distinct job outputs")
c("P13", 30000, 3000000, time=SEQ, real=["ZX diagrams, rules, simplification procedures, circuit translation (src/zx)","qc::QuantumComputation, symbolic operations"], stub=HEAP,
  technique="seeded schedules of single rewrite rules on chosen matches, simplification procedures, diagram edits and failing allocations on diagrams of circuits and random graphs; the linear map is evaluated independently after every step",
  measure="distinct diagrams reached (hash of vertices, phases and edges)")
c("P14", 120000, 6000000, time=SEQ, real=["qc::QuantumComputation and its registers, layouts, flags","all operation classes (standard, symbolic, compound, non-unitary, classically controlled)"], stub=HEAP,
  technique="seeded histories of circuit edits on two circuits, with rejected edits and failing allocations inside them; after every edit the whole observable circuit is compared with a reference model of registers, layouts, flags and operations",
  measure="distinct circuits reached (hash of counts, both layouts and operation kinds)")
c("P15", 30000, 3000000, time=SEQ, real=DDREAL, stub=HEAP,
  technique="seeded circuits built sequentially/recursively and simulated while collections are forced between and inside the calls, compared with dense unitaries; afterwards only held diagrams may be stored",
  measure="distinct (gate kinds, layout, entry point, collection phase) tuples plus distinct result values")
c("P16", 100000, 5000000, time=SEQ, real=["qc::Layer (execution DAG, executable sets)","commutation and inverse tests of the operation classes","qc::UndirectedGraph"], stub=HEAP,
  technique="seeded execution orders over the layers of seeded circuits, with refused executions, copies and moves of half-executed layers and failing allocations during construction; every executed order is compared with the dense unitary of the circuit",
  measure="distinct (circuit, executed order prefix) hashes")
c("P17", 40000, 4000000, time=SEQ, real=["qc::CircuitOptimizer (all passes)","qc::QuantumComputation, all operation classes"], stub=HEAP,
  technique="seeded histories of optimizer passes and edits on static and dynamic circuits with failing allocations inside passes; before and after each pass the classical-quantum state (every branch of every measurement, weighted, with its quantum state) is computed by a reference model and compared",
  measure="distinct (number of effective passes, circuit size) states")
c("P18", 40000, 4000000, time=SEQ, real=["qasm3 importer (scanner, parser, passes, standard library)","qc::QuantumComputation, all operation classes","C++ file streams of the standard library"], stub=HEAP+["disk (simulated: split, failing, interrupted and truncated reads, failing open)"],
  technique="seeded OpenQASM programs and included files written by a generator that knows what they mean, read from a simulated disk with split, failing and truncated reads and failing allocations; the imported circuit is compared with the meaning in all measurement branches, damaged programs must be refused",
  measure="distinct (program length, operations, outcome) and (fault kind, offset class, outcome) tuples")
c("P19", 25000, 2500000, time=SEQ, real=["algorithm generators (src/algorithms)","qc::QuantumComputation, all operation classes","dd::simulate and dd::sample (large instances)"], stub=HEAP,
  technique="seeded sequences of generator calls over sizes, parameters and seeds with failing allocations inside them; every circuit, in all measurement branches, is compared with the definition of its algorithm by an independent reference simulator, large instances through decision diagrams",
  measure="distinct (generator, size and parameter class) tuples")
NA = {
 "P20": "rational and symbolic arithmetic is a pure function of its operands without state, faults or schedules",
 "P21": "neutral-atom programs are value objects printed and built by pure functions; nothing nondeterministic takes part",
 "P22": "DirectedGraph/DisjointSet/SymmetricMatrix are plain sequential containers: no faults, schedules or clocks reach them other than allocation failure, for which they promise nothing",
 "P23": "translation to and from the MLIR dialects and the Python bindings' conversions are pure functions of one circuit: no schedule, clock, randomness, I/O or fault takes part",
}
