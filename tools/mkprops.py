#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

DD=["src/dd/Package.cpp","include/mqt-core/dd/Package.hpp"]
p("P01","Decision-diagram results do not depend on the package's history",
 "Every result computed on decision diagrams (building states and gates, addition, multiplication, Kronecker product, conjugation, adjoint, inner product, fidelity, expectation value, trace, partial trace, ancilla/garbage reduction, export to vector or matrix, transfer between packages, and reading amplitudes or element values) is the linear-algebra value of its operands. This stays true whatever the same package was used for before the call: earlier operations with the same or other operands, garbage collections, cache clearing, growing, resetting, deletion of other diagrams, and any legal table sizes. Diagrams the caller still holds keep representing the same vector or matrix throughout.",
 ["histories","configurations","fault_sequences"],
 "All sequences of package operations, forced or automatic garbage collections, cache/table clears, resizes and resets; all operands up to numerical tolerance; all legal table configurations.",
 "Unit tests run a handful of operations on a fresh default-sized package; automatic collection needs >131072 nodes and hash-slot reuse needs thousands of operations, so stale-cache, slot-collision and address-reuse states are never reached.",
 DD+["include/mqt-core/dd/ComputeTable.hpp","include/mqt-core/dd/UnaryComputeTable.hpp","include/mqt-core/dd/UniqueTable.hpp","src/dd/UniqueTable.cpp","src/dd/Edge.cpp","src/dd/MemoryManager.cpp","src/dd/CachedEdge.cpp"],
 [("compute tables keyed on operands, invalidated on collection","Package::garbageCollect, ComputeTable::lookup/insert"),("hash-consed nodes","UniqueTable::lookup"),("chunked memory reuse","MemoryManager::get/returnEntry/reset")],
 ["Package public operations","vEdge/mEdge getValueByPath/getVector/getMatrix"])
p("P02","Garbage collection frees exactly what nobody holds",
 "After any history, a garbage collection keeps every node and number reachable from a diagram the caller holds, bit for bit as it was, and removes every other one; after the last hold is released and everything is collected no node is left and no number beyond the package's constants. The usage statistics the package reports (entries, active entries, memory in use) agree with what is actually stored and reachable.",
 ["histories","configurations","fault_sequences"],
 "All interleavings of acquiring and releasing holds (including several holds on the same or on overlapping diagrams), operations, forced and automatic collections, and memory-pool growth and reuse.",
 "Tests check a few hand-written reference counts on one or two diagrams; leaks and premature frees depend on sharing, on which internal step drops a hold, and on collection timing.",
 ["src/dd/Package.cpp","include/mqt-core/dd/Package.hpp","src/dd/UniqueTable.cpp","include/mqt-core/dd/UniqueTable.hpp","src/dd/RealNumberUniqueTable.cpp","src/dd/RealNumber.cpp","src/dd/ComplexNumbers.cpp","src/dd/MemoryManager.cpp","src/dd/Simulation.cpp","src/dd/FunctionalityConstruction.cpp"],
 [("reference counting of edges, nodes and numbers","Package::incRef/decRef, UniqueTable::incRef/decRef, ComplexNumbers::incRef/decRef"),("sweeping","UniqueTable::garbageCollect, RealNumberUniqueTable::garbageCollect"),("free-list","MemoryManager::get/returnEntry")],
 ["Package::garbageCollect, UniqueTable/RealNumberUniqueTable/MemoryManager statistics, node identity of held diagrams"])
p("P03","Equal states and matrices have the identical diagram",
 "Within one package, two ways of computing the same vector or the same matrix end in the identical diagram, so equality is decided by comparing roots; this holds whatever happened between the two computations, as long as one of them is still held. Stored diagrams are always in normal form: no duplicate nodes, no node that normalisation or identity skipping should have removed, weights at most one in magnitude.",
 ["histories","configurations"],
 "All pairs of equivalent computations over numerically well-separated (Clifford+T) values, interleaved with arbitrary other work, collections, cache clears and resizes.",
 "Tests compare a few identities in fresh packages; canonicity breaks only when a node or number is duplicated after reuse, resize, collection or tolerance-bucket placement.",
 ["include/mqt-core/dd/UniqueTable.hpp","src/dd/UniqueTable.cpp","src/dd/RealNumberUniqueTable.cpp","src/dd/Node.cpp","src/dd/Edge.cpp","src/dd/Package.cpp"],
 [("hash consing","UniqueTable::lookup/searchTable"),("normalisation","Edge::normalize"),("tolerance lookup of numbers","RealNumberUniqueTable::lookup/findOrInsert")],
 ["root equality of independently computed diagrams"])
p("P04","A failed allocation never corrupts a package",
 "If memory runs out at any allocation inside a decision-diagram operation, that operation fails with an exception; every diagram held before it still represents the same value, later operations return correct results, and releasing everything and collecting still empties the package.",
 ["crash_points","fault_sequences","histories"],
 "Every allocation inside every package operation, alone or repeated, at any point of any history.",
 "No test injects an allocation failure; the failure points number in the thousands per operation sequence.",
 DD+["src/dd/MemoryManager.cpp","src/dd/UniqueTable.cpp","src/dd/RealNumberUniqueTable.cpp","src/dd/Operations.cpp"],
 [("allocation before linking","UniqueTable::lookup, MemoryManager::allocateNewChunk"),("reference update after construction","Package::applyOperation and similar")],
 ["exceptions from Package operations; state afterwards"])
p("P05","Measurements obey the Born rule and collapse correctly",
 "Measuring one or all qubits of a state returns outcomes distributed as the squared amplitudes, given the random source: an outcome of zero probability is never produced, and every outcome follows from the drawn random number by its probability. Collapsing leaves the normalised post-measurement state for exactly the reported outcome, and a non-collapsing measurement changes nothing.",
 ["histories","schedules","configurations"],
 "All states, all random-number streams including boundary draws, all qubit orders of repeated measurements, interleaved with collections and other work in the package.",
 "Tests measure a few fixed states with fixed or real random seeds and look at one outcome or rough frequencies; boundary draws and the interaction of collapse, reference release and collection are not reached.",
 ["src/dd/Package.cpp","include/mqt-core/dd/Package.hpp"],
 [("probability propagation","Package::assignProbabilities, determineMeasurementProbabilities"),("projection","Package::performCollapsingMeasurement"),("sampling walk","Package::measureAll")],
 ["measureAll, measureOneCollapsing, performCollapsingMeasurement, determineMeasurementProbabilities"])
p("P06","Circuit sampling matches the circuit's outcome distribution",
 "Sampling a circuit, with or without mid-circuit measurements, resets and classically controlled operations, returns exactly the requested number of shots; every reported bit string has non-zero probability in the circuit's exact outcome distribution and is laid out by classical bit index, and frequencies follow that distribution. The same seed gives the same histogram.",
 ["programs","schedules","histories"],
 "All dynamic circuits (measurement, reset, classical control with any comparison, repeated measurement of a bit, any order of measured qubits, layouts and output permutations), all random streams, all shot counts.",
 "Tests sample a handful of circuits; dynamic paths branch on random outcomes that a fixed seed explores only once.",
 ["src/dd/Simulation.cpp","include/mqt-core/dd/Simulation.hpp","include/mqt-core/dd/Operations.hpp","src/dd/Operations.cpp","src/ir/operations/ClassicControlledOperation.cpp","src/ir/operations/NonUnitaryOperation.cpp"],
 [("static/dynamic split and measurement mapping","dd::sample"),("reset/measure/classical control application","dd::applyMeasurement, applyReset, applyClassicControlledOperation")],
 ["dd::sample(qc, shots, seed)"])
p("P07","Noisy density-matrix simulation is the specified channel",
 "Simulating gates and deterministic noise on a density matrix yields the state that the corresponding unitary and the configured noise (amplitude damping, phase flip, depolarisation on exactly the affected qubits) produce by matrix arithmetic: trace one, Hermitian, and equal to the reference state. This holds for every order of gates and noise and is not affected by garbage collection, cached earlier results or other density matrices in the same package.",
 ["histories","configurations","programs"],
 "All gate/noise sequences, probabilities, noise-type subsets, cache-hit patterns and collection points on small registers.",
 "The existing noise tests use one circuit and are not reliable here; cache flag mix-ups and collection need particular repeated operand pairs.",
 ["src/dd/NoiseFunctionality.cpp","include/mqt-core/dd/NoiseFunctionality.hpp","include/mqt-core/dd/DensityNoiseTable.hpp","src/dd/Package.cpp","src/dd/Edge.cpp","include/mqt-core/dd/Node.hpp"],
 [("deterministic noise recursion","DeterministicNoiseFunctionality::applyNoiseEffects"),("density flags on pointers","dEdge::applyDmChangesToEdges/alignDensityEdge"),("density compute tables","Package::multiply with generateDensityMatrix, DensityNoiseTable")],
 ["applyOperationToDensity, applyNoiseEffects, dEdge::getMatrix"])
p("P08","Averaged stochastic noise equals the specified noise channel",
 "Every run of stochastic noise on a state returns a normalised state that is one of the configured noise channel's Kraus outcomes; the average over the random draws equals the channel applied to the state.",
 ["schedules","histories","programs"],
 "All random-draw sequences, gate sequences, probabilities and noise-type subsets on small registers.",
 "Tests average a few hundred real runs of one circuit against loose tolerances; single wrong branches are invisible and the existing tests are not reliable here.",
 ["src/dd/NoiseFunctionality.cpp","include/mqt-core/dd/StochasticNoiseOperationTable.hpp"],
 [("branch choice","StochasticNoiseFunctionality::applyNoiseOperation/stackOperation")],
 ["StochasticNoiseFunctionality::applyNoiseOperation"])
p("P09","A serialized diagram reads back the same or fails loudly",
 "Writing a decision diagram to a stream or file and reading it back, into the same or another package, gives the same vector or matrix. If a write does not reach the medium completely the writer reports it; if the stored data is truncated, empty or unreadable, reading throws or, at worst, returns a diagram that was itself completely written, and never crashes nor disturbs diagrams already held.",
 ["crash_points","fault_sequences","inputs"],
 "All diagrams, text and binary form, every truncation point, short reads and writes, I/O errors and full disk at any byte, at any point of a package's history.",
 "Tests write to a healthy disk and read back whole files; failure points are every byte offset.",
 ["include/mqt-core/dd/Export.hpp","src/dd/Export.cpp","include/mqt-core/dd/Package.hpp","src/dd/Package.cpp","src/dd/ComplexValue.cpp"],
 [("serialisation","dd::serialize"),("deserialisation","Package::deserialize")],
 ["dd::serialize, Package::deserialize return values and exceptions"])
p("P10","Circuit files survive faulty disks without silent corruption",
 "A circuit dumped to OpenQASM and imported again denotes the same operations on the same qubits and bits, however the disk splits reads and writes. If the disk fails or fills up while writing, or fails while reading, the caller is told; importing a file cut off at any byte either throws or yields a prefix of the circuit's operations.",
 ["crash_points","fault_sequences","programs"],
 "All supported circuits, every byte offset at which a write or read fails or the file ends, all short-read/short-write patterns.",
 "Tests use healthy in-memory streams and complete files.",
 ["src/ir/QuantumComputation.cpp","src/qasm3/Importer.cpp","src/qasm3/Parser.cpp","src/qasm3/Scanner.cpp"],
 [("dump","QuantumComputation::dump/dumpOpenQASM"),("import","Importer::importf, Scanner::readUtf8Codepoint")],
 ["QuantumComputation::dump, qasm3::Importer::importf"])
p("P11","Independent objects can be used from different threads",
 "Threads that each use only their own packages, circuits and diagrams obtain exactly the results they would obtain alone, under every interleaving, and never touch the same memory without synchronisation.",
 ["schedules"],
 "All preemption points between two or three threads doing decision-diagram, circuit-construction, parsing, sampling and ZX work on disjoint objects.",
 "No test uses two threads; a race needs a preemption inside a few instructions.",
 ["include/mqt-core/dd/ComputeTable.hpp","src/dd/Edge.cpp","src/dd/Package.cpp","src/dd/RealNumber.cpp","include/mqt-core/ir/Register.hpp","include/mqt-core/ir/operations/Expression.hpp","src/qasm3/Importer.cpp","src/ir/operations/Expression.cpp"],
 [("no shared mutable state between packages","Package members, function-local statics")],
 ["results per thread versus running alone"])
p("P12","A seed makes a run reproducible",
 "With a non-zero seed, everything that uses randomness (sampling, measuring, random circuit generation, stochastic state preparation, hidden-string and oracle choices) gives the same result each time, independent of memory layout, uninitialised memory, system entropy, earlier unrelated work in the process and the position of objects on the heap. The same input circuit or neutral-atom computation always gives the same operations, printed text, file output and diagram values; an earlier call that failed for lack of memory makes no difference.",
 ["histories","configurations","schedules"],
 "All seeds and programs; all heap layouts and poison values, all entropy-source outputs, all prior histories.",
 "Tests run once per process on one heap layout; a dependence on pointers or hash order stays hidden.",
 ["src/ir/QuantumComputation.cpp","src/dd/Simulation.cpp","src/algorithms/Grover.cpp","src/algorithms/BernsteinVazirani.cpp","src/algorithms/QPE.cpp","src/algorithms/RandomCliffordCircuit.cpp","src/circuit_optimizer/CircuitOptimizer.cpp"],
 [("seeded Mersenne Twister","QuantumComputation constructor, dd::sample"),("iteration orders","unordered containers in ir and dd")],
 ["outputs of generators, sample, dump"])
p("P13","ZX simplification preserves the diagram's linear map",
 "The ZX-diagram built from a circuit represents the circuit's linear map up to a non-zero scalar. Whatever order ZX rewrite rules are applied in, on whichever matching vertices, the diagram keeps representing the same linear map up to a non-zero scalar, keeps its inputs and outputs, and stays structurally consistent (adjacency symmetric, counts exact); composing, inverting and closing diagrams composes, inverts and closes their maps; isIdentity holds only for identity maps; every simplification procedure stops.",
 ["schedules","inputs","histories"],
 "All schedules of applicable rewrites and simplification procedures over all circuit-derived diagrams, including ancillas, garbage and composition/adjoint of diagrams.",
 "Tests run each procedure in its own fixed order on a few circuits.",
 ["src/zx/Rules.cpp","src/zx/Simplify.cpp","src/zx/ZXDiagram.cpp","src/zx/FunctionalityConstruction.cpp","include/mqt-core/zx/Rules.hpp","src/zx/Rational.cpp","include/mqt-core/ir/operations/Expression.hpp"],
 [("rule preconditions","zx::check*"),("rule rewriting","zx::fuseSpiders, removeId, localComp, pivot*, fuseGadget"),("procedures","zx::*Simp, fullReduce")],
 ["ZXDiagram contents after each rewrite"])
p("P14","Editing a circuit keeps its bookkeeping consistent",
 "Under any sequence of circuit edits (adding, removing and re-adding registers, qubits, ancillas and garbage, appending, inserting, removing, replacing and inverting operations, renaming permutations, resetting, copying and moving) the qubit and bit counts, register coverage, layouts, ancilla and garbage flags, parameters and operation list agree with each other and with the sequence of accepted edits. A rejected edit throws and leaves the circuit as it was.",
 ["histories","fault_sequences"],
 "All sequences of accepted and rejected edits, with copies, moves and allocation failures in between.",
 "Tests check single edits on fresh circuits; inconsistencies need particular orders of removals, resets and re-additions.",
 ["src/ir/QuantumComputation.cpp","include/mqt-core/ir/QuantumComputation.hpp","include/mqt-core/ir/Register.hpp","src/ir/Permutation.cpp","src/ir/operations/CompoundOperation.cpp"],
 [("bounds checks before mutation","QuantumComputation::checkQubitRange/checkBitRange"),("register/layout maintenance","addQubit*, removeQubit, addAncillary*, setLogicalQubit*")],
 ["QuantumComputation getters, dump"])
p("P15","Circuit functionality and simulation are the circuit's unitary",
 "Building a circuit's functionality (sequentially or recursively) and simulating it from any held input state give the product of its gates with initial layout, output permutation, ancillas and garbage respected, for every supported gate, control polarity and parameter. This holds however often memory is collected during the run and whatever else lives in the package; afterwards the package holds only the result.",
 ["programs","histories","configurations"],
 "All unitary circuits of small width over all gate types and permutations, all collection points during construction, all shared-package histories.",
 "Tests cover single gates and some algorithms in fresh packages where collection never triggers.",
 ["src/dd/FunctionalityConstruction.cpp","src/dd/Simulation.cpp","include/mqt-core/dd/Operations.hpp","src/dd/Operations.cpp","src/dd/GateMatrixDefinitions.cpp","src/dd/Package.cpp"],
 [("gate application with collection","Package::applyOperation, dd::simulate, buildFunctionality, buildFunctionalityRecursive"),("permutation handling","dd::changePermutation"),("gate matrices","dd::opToSingleQubitGateMatrix, opToTwoQubitGateMatrix, getDD")],
 ["dd::simulate, dd::buildFunctionality, dd::buildFunctionalityRecursive"])
p("P16","Every execution order a circuit layer admits is the circuit",
 "A scheduler that repeatedly executes any currently executable operation of a circuit's layer view never gets stuck, executes every operation exactly once, and the executed sequence is equivalent to the circuit, whether or not commutation is taken into account. An operation that is not executable is refused and nothing changes.",
 ["schedules","programs"],
 "All execution orders of all unitary circuits, with and without commutation rules, including attempts to execute non-executable operations.",
 "Tests follow one or two hand-written orders on fixed circuits.",
 ["src/datastructures/Layer.cpp","include/mqt-core/datastructures/Layer.hpp","src/ir/operations/Operation.cpp","src/ir/operations/StandardOperation.cpp","include/mqt-core/ir/operations/OpType.hpp"],
 [("enable/disable counters","Layer::constructDAG, DAGVertex::execute"),("commutation test","Operation::commutesAtQubit"),("inverse test","Operation::isInverseOf")],
 ["Layer::getExecutableSet, DAGVertex::execute"])
p("P17","Optimization passes preserve what a circuit does",
 "Any sequence of optimization passes and further edits (identity and operation removal, swap reconstruction and decomposition, single-qubit gate fusion, CNOT cancellation, flattening, MCX replacement, reordering, diagonal gate and final measurement removal, measurement deferral, reset elimination, block collection, permutation elision and output back-propagation) keeps what the circuit does: the joint distribution of its recorded measurement outcomes together with the state each of them leaves, up to a global phase, is that of the circuit before, on the qubits and bits the pass keeps, whatever measurements, resets, conditions, controls of either polarity, compound operations, layouts and global phases the circuit has. Each pass also does what it is for (e.g. no SWAP is left after their decomposition, no reset after their elimination, only final measurements with unused outcomes are removed), never crashes, and leaves other copies of the circuit alone; a pass that cannot handle a circuit throws; a pass cut short by a failing allocation leaves copies of the circuit usable. Deferral and block collection are judged on circuits in which no measured qubit is changed by a later operation.",
 ["histories","programs","fault_sequences"],
 "All sequences of passes and edits over all static and dynamic circuits, including compound and conditional operations, gapped registers and allocation failures inside a pass.",
 "Tests apply one pass to one hand-written, mostly static circuit; interactions of passes with measurements, resets, conditions, compounds and earlier passes are not sampled.",
 ["src/circuit_optimizer/CircuitOptimizer.cpp","include/mqt-core/circuit_optimizer/CircuitOptimizer.hpp","src/ir/operations/CompoundOperation.cpp"],
 [("passes","qc::CircuitOptimizer::*"),("DAG of operations per qubit","CircuitOptimizer::constructDAG"),("measurement deferral","CircuitOptimizer::deferMeasurements"),("reset elimination","CircuitOptimizer::eliminateResets")],
 ["the operations, layouts and flags of the rewritten circuit"])
p("P18","OpenQASM programs are imported with the language's meaning",
 "Importing a valid OpenQASM 2 or 3 program, from a string or a file, yields a circuit that means what the program says: its registers with their sizes and order, its gates (built-in, standard-library and user-defined ones, with parameters, ctrl, negctrl and inv modifiers, and broadcasting over registers), measurements, resets, barriers and conditions (on registers and single bits, in all comparisons, with else) act as the language defines, for all constants, constant expressions, number formats, gate definitions and their scopes, comments, whitespace and included files; comments are no instructions unless they are layout comments. An invalid program (unknown or doubly declared names, wrong numbers of parameters or operands, indices out of range, operands that repeat a qubit, recursive gates, unterminated comments, missing or stray tokens) is refused with an error and never accepted, crashes or hangs; nor does a program whose file cannot be read completely count as a shorter program. A failing allocation makes the import throw and leaves no file open, and the program can be imported afterwards.",
 ["inputs","programs","fault_sequences"],
 "All programs of the supported part of the language, all damaged programs, all disk faults, truncations and allocation failures while they are read.",
 "Tests cover a list of snippets and compare most of them with their printed form; interactions of scopes, constants, modifiers, broadcasting and number formats, damaged programs and faults while reading are not sampled.",
 ["src/qasm3/Scanner.cpp","src/qasm3/Parser.cpp","src/qasm3/Importer.cpp","src/qasm3/passes/ConstEvalPass.cpp","src/qasm3/passes/TypeCheckPass.cpp","include/mqt-core/qasm3/StdGates.hpp","include/mqt-core/qasm3/NestedEnvironment.hpp"],
 [("scanner and parser","qasm3::Scanner, qasm3::Parser"),("translation","qasm3::Importer"),("constant evaluation","qasm3::const_eval::ConstEvalPass"),("scopes","qasm3::NestedEnvironment")],
 ["the imported circuit, its registers and layouts","qasm3::CompilerError"])
p("P19","Algorithm generators produce the algorithm they name",
 "Each algorithm generator returns a circuit that implements the algorithm for every size, parameter and seed, started on |0>: the QFT circuit is the discrete Fourier transform (qubit 0 most significant) and, with measurements, samples it into the right bits, for every input; the iterative QFT has the same outcome distribution on the successive states of its qubit; QPE and iterative QPE of a phase lambda*pi (given, or drawn as exact or inexact from the seed) yield the phase-estimation distribution of lambda/2 in the given precision; Bernstein-Vazirani circuits yield the hidden string (given or drawn, and named in the circuit's name) with certainty, with and without a given length; Grover's oracle flips exactly the target, its diffusion inverts about the mean, and the whole circuit finds the target with the probability of the optimal number of iterations; GHZ and W circuits prepare those states; state preparation prepares the given amplitudes including phases, and refuses amplitudes that are not normalised or no power of two; random Clifford circuits map Pauli operators to Pauli operators. Qubit and bit counts are those of the algorithm. A generator that runs out of memory throws and has no effect on later calls.",
 ["inputs","seeds","fault_sequences"],"All sizes, phases, precisions, secrets, targets, amplitudes and seeds; allocation failures at every point.",
 "Tests cover some sizes and seeds, and only some columns of the transforms.",
 ["src/algorithms/QFT.cpp","src/algorithms/QPE.cpp","src/algorithms/Grover.cpp","src/algorithms/BernsteinVazirani.cpp","src/algorithms/StatePreparation.cpp","src/algorithms/WState.cpp","src/algorithms/GHZState.cpp","src/algorithms/RandomCliffordCircuit.cpp"],
 [("generators","qc::createQFT, createQPE, createGrover, createBernsteinVazirani, createStatePreparationCircuit, ...")],["the generated circuit, its name, size and layouts"])
# ------------- not claimed -------------
p("P20","Symbolic expressions and rational phases follow exact arithmetic",
 "Arithmetic, substitution, comparison and evaluation of symbolic expressions and rational phases agree with exact arithmetic.",
 ["inputs"],"All expressions and assignments.","Tests cover single identities.",
 ["include/mqt-core/ir/operations/Expression.hpp","src/zx/Rational.cpp"],[("expression arithmetic","sym::Expression, zx::PiRational")],["expression values"])
p("P21","Neutral-atom programs are validated and printed faithfully",
 "A neutral-atom computation is accepted by validation exactly if its shuttling and gate sequence respects the order and collision rules, and its textual form lists it faithfully.",
 ["inputs"],"All neutral-atom programs.","Tests cover one example per rule.",
 ["src/na/NAComputation.cpp"],[("validation","NAComputation::validate")],["validate, toString"])
p("P22","Graph and matrix containers behave like their mathematical models",
 "Directed, undirected and acyclic graphs, disjoint sets and symmetric matrices answer queries as their mathematical models do, and a rejected insertion leaves them unchanged.",
 ["inputs","histories"],"All operation sequences.","Tests cover short sequences.",
 ["include/mqt-core/datastructures/DirectedGraph.hpp","include/mqt-core/datastructures/DirectedAcyclicGraph.hpp","include/mqt-core/datastructures/UndirectedGraph.hpp","include/mqt-core/datastructures/DisjointSet.hpp"],[("containers","qc::DirectedGraph etc.")],["query results"])
p("P23","Dialect translation keeps the circuit",
 "Translating circuits to and from the MLIR dialects and the Python bindings keeps operations, parameters and controls.",
 ["inputs"],"All circuits.","Needs MLIR/Python toolchains; tests cover fixed files.",
 ["mlir","src/python"],[("translation","mlir passes, pybind11 modules")],["translated program"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
