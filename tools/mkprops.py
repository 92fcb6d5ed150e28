"""Regenerates properties.jsonl (the single source of the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":None}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("P01","Compiled patterns implement their circuit on every measurement branch",
 "Compiling a circuit yields a measurement pattern that, for every combination of measurement outcomes, applies the same linear map as the circuit up to a global phase, with all branches equally likely and outputs in qubit order. Circuit-level measurements appear, in the order they were written, as classical outputs whose outcomes have the circuit's statistics and post-measurement states. This holds with and without the elimination of SWAP gates.",
 ["programs","inputs"],"every circuit over the gate set, every angle, every input state, every combination of outcomes",
 "Tests sample a few random circuits and follow one random branch of one input state each; a wrong correction in a rare gate context, branch or angle class is not visited.",
 ["graphix/transpiler.py"],[("decomposition into J and CZ, causal flow of the result","graphix/transpiler.py: instructions_to_jcz, Circuit.transpile_to_causalflow"),("swap elimination","graphix/transpiler.py: transpile_swaps")],["Circuit.transpile"])
p("P02","Standardization preserves what a pattern computes",
 "Rewriting a pattern into standard form (preparations, entanglements, measurements, corrections) yields a pattern in standard form with the same inputs and outputs that applies the same linear map on every measurement branch, up to a global phase. The result is independent of how the corrections, entanglements and local Cliffords were interleaved in the original pattern.",
 ["programs","histories"],"every runnable pattern, every interleaving of its commands, every branch",
 "Tests compare the final state of one random branch of transpiled circuits, which contain few kinds of command interleavings.",
 ["graphix/optimization.py","graphix/pattern.py"],[("command commutation","graphix/optimization.py: StandardizedPattern.from_pattern"),("re-emission","graphix/optimization.py: StandardizedPattern.to_pattern")],["Pattern.standardize","StandardizedPattern.from_pattern"])
p("P03","Signal shifting preserves the map and re-labels outcomes as announced",
 "Shifting signals removes every Z-type dependency of the measurements it can (all of them for XY-plane measurements) while the pattern keeps applying the same map on every branch, where branches of the shifted and original pattern correspond through the returned signal dictionary. Expanding an outcome assignment through that dictionary reproduces the original pattern's outcomes.",
 ["programs","inputs"],"every pattern over all planes and Pauli axes, every branch, both methods of shifting",
 "Tests run single random branches of transpiled circuits and check output states, never the outcome relation branch by branch nor non-XY planes with mixed dependencies.",
 ["graphix/optimization.py","graphix/pattern.py"],[("signal extraction","graphix/pattern.py: extract_signal, shift_outcomes"),("direct method","graphix/pattern.py: Pattern.shift_signals")],["Pattern.shift_signals"])
p("P04","Removing Pauli measurements or local Cliffords preserves the pattern's map",
 "Pre-processing Pauli measurements away, removing isolated nodes, and absorbing local Clifford commands each yield a pattern on the same inputs and outputs whose every branch applies the map of some branch of the original with consistent outcomes, up to global phase, and no removable Pauli-measured node remains. The removal never deletes inputs or outputs and works for every graph shape and measurement sign.",
 ["programs","inputs"],"every pattern with Pauli measurements, local Cliffords, isolated nodes; all branches",
 "Tests compare one random branch on transpiled circuits; pivots between particular neighbourhoods, outputs and signs are seldom hit.",
 ["graphix/remove_pauli_measurements.py","graphix/optimization.py","graphix/pattern.py"],[("local complementation and pivoting","graphix/remove_pauli_measurements.py"),("clifford absorption","graphix/optimization.py: remove_local_clifford_commands"),("isolated nodes","graphix/optimization.py: remove_isolated_internal_nodes")],["Pattern.remove_pauli_measurements","Pattern.remove_local_clifford_commands"])
p("P05","Pushing Pauli measurements forward keeps patterns deterministic and equivalent",
 "Performing Pauli measurements first gives a runnable pattern in which no Pauli measurement depends on other outcomes and all of them precede the other measurements, and which applies the same map on every branch up to global phase, branches corresponding through the outcomes the moved measurements absorb. The measured observable of every node, up to sign, is unchanged.",
 ["programs"],"every pattern, every mix of Pauli and non-Pauli measurements, every branch",
 "Tests sample single branches of transpiled circuits in which Pauli dependencies have a restricted form.",
 ["graphix/optimization.py","graphix/pattern.py"],[("Pauli pushing","graphix/optimization.py: StandardizedPattern.perform_pauli_pushing")],["StandardizedPattern.perform_pauli_pushing","Pattern.infer_pauli_measurements"])
p("P06","Rescheduling a pattern changes only the order of commuting commands",
 "Minimising space, making a pattern space-optimal and parallelising it each produce a runnable pattern with the same preparations, entanglements, measurements, dependencies and corrections, in which no outcome is used before it is known and no node is used before preparation or after measurement. The resulting number of simultaneously live nodes never exceeds that of the original standardized pattern.",
 ["programs","schedules"],"every pattern, every heuristic, all measurement orders compatible with the dependencies",
 "Tests check a handful of patterns against recorded numbers; an order violating a rarely occurring dependency passes them.",
 ["graphix/space_minimization.py","graphix/pattern.py","graphix/optimization.py"],[("measurement order heuristics","graphix/space_minimization.py"),("space-optimal emission","graphix/optimization.py: StandardizedPattern.to_space_optimal_pattern"),("parallelisation","graphix/pattern.py: Pattern.parallelize_pattern")],["Pattern.minimize_space","Pattern.parallelize_pattern"])
p("P07","The runnability check accepts exactly the runnable patterns",
 "The runnability check accepts a pattern if and only if each command acts only on nodes that are live at that moment, uses only outcomes that are already known, prepares no node twice and measures no output twice, the live nodes at the end being exactly the outputs. When it rejects, it names a reason and command that are genuine.",
 ["programs","histories"],"every sequence of commands, well formed or not",
 "Tests contain one hand-written pattern per error kind.",
 ["graphix/pattern.py"],[("sequential validation","graphix/pattern.py: Pattern.check_runnability")],["Pattern.check_runnability"])
p("P08","Flow search is sound and complete",
 "For an open graph with given measurements, the search for a causal flow, a generalised flow or a Pauli flow returns one exactly when one exists, and every flow it returns satisfies all defining conditions of that kind of flow. The XZ-corrections or patterns derived through the search exist whenever such a flow exists.",
 ["inputs"],"every open graph: any graph, any choice of inputs and outputs, any planes and Pauli axes",
 "Tests use a list of hand-made graphs; existence for all small graphs and all label choices is never enumerated.",
 ["graphix/flow/_find_cflow.py","graphix/flow/_find_gpflow.py","graphix/opengraph.py"],[("causal flow search","graphix/flow/_find_cflow.py"),("algebraic Pauli flow search","graphix/flow/_find_gpflow.py")],["OpenGraph.to_causalflow","OpenGraph.to_gflow","OpenGraph.to_pauliflow"])
p("P09","Returned flows are focused and of minimal depth",
 "The layers attached to a returned flow form a partition of the nodes, with exactly the outputs in the first layer, in which every correction acts on nodes measured strictly later (up to the exemptions for Pauli nodes); the number of layers is the minimum over all flows of that kind. Generalised and Pauli flows returned by the search are focused.",
 ["inputs"],"every open graph having a flow",
 "Minimality quantifies over all flows of the graph, which tests never enumerate.",
 ["graphix/flow/_find_cflow.py","graphix/flow/_find_gpflow.py","graphix/flow/core.py"],[("layer construction","graphix/flow/_find_cflow.py"),("order matrix layering","graphix/flow/_find_gpflow.py: compute_partial_order_layers")],["PauliFlow.partial_order_layers"])
p("P10","Well-formedness checks accept exactly the well-formed flows and corrections",
 "Checking a causal, generalised or Pauli flow, or a set of XZ-corrections, succeeds if and only if the object satisfies the definition: correction sets over existing nodes, a layering that partitions the nodes and is compatible with the corrections, and all flow conditions for every measured node. A rejected object really violates the condition that is reported.",
 ["inputs"],"every candidate flow: arbitrary correction functions and layerings on arbitrary open graphs",
 "Tests cover one malformed example per error kind.",
 ["graphix/flow/core.py","graphix/flow/_partial_order.py"],[("condition checks","graphix/flow/core.py: PauliFlow.check_well_formed, GFlow.check_well_formed, CausalFlow.check_well_formed, XZCorrections.check_well_formed")],["check_well_formed"])
p("P11","Patterns generated from a flow are deterministic",
 "The corrections and patterns generated from any well-formed flow implement, on every measurement branch and with equal weight, the map of the open graph in which every node is projected on its intended outcome. This holds for causal, generalised and Pauli flows, in all measurement planes and axes, and for any admissible total measurement order.",
 ["inputs","schedules"],"every open graph with flow, every flow on it, every total order, every branch",
 "Tests check determinism for a dozen named graphs on sampled branches.",
 ["graphix/flow/core.py","graphix/opengraph.py"],[("corrections from flow","graphix/flow/core.py: PauliFlow.to_xzcorrections, GFlow.to_xzcorrections, CausalFlow.to_xzcorrections"),("pattern emission","graphix/flow/core.py: XZCorrections.to_pattern")],["XZCorrections.to_pattern","OpenGraph.to_pattern"])
p("P12","Open graph, corrections and flows extracted from a pattern describe that pattern",
 "The open graph extracted from a pattern has exactly its nodes, entanglement edges (modulo pairs that cancel), inputs, outputs and measurements; extracted XZ-corrections are those of the standardized pattern; and an extracted flow is well formed and regenerates a pattern that implements the same map on every branch. Extraction fails only when no such object describes the pattern.",
 ["programs"],"every pattern, including ones with local Cliffords and repeated edges",
 "Tests perform a few round trips from known graphs and compare only the final states.",
 ["graphix/pattern.py","graphix/optimization.py","graphix/flow/core.py"],[("extraction","graphix/optimization.py: StandardizedPattern.to_opengraph, to_xzcorrections; graphix/flow/core.py: XZCorrections.to_causalflow, to_gflow, to_pauliflow")],["Pattern.to_opengraph","Pattern.to_xzcorrections","Pattern.to_gflow"])
p("P13","Circuits extracted from flows implement the flow's map",
 "Extracting a circuit from a causal, generalised or Pauli flow yields a circuit on the right number of qubits which implements, up to global phase, the linear map of the open graph, equivalently of the pattern generated from it. The intermediate sequence of Pauli exponentials and the Clifford map compose to the same map.",
 ["inputs"],"every open graph with equally many inputs and outputs and a flow, every angle",
 "Tests sample transpiled circuits and a few graphs; sign rules of Pauli strings across planes are not enumerated.",
 ["graphix/circ_ext/extraction.py","graphix/circ_ext/compilation.py"],[("Pauli strings and Clifford map","graphix/circ_ext/extraction.py"),("ladder and tableau synthesis","graphix/circ_ext/compilation.py")],["OpenGraph.to_circuit","PauliFlow.to_circuit"])
p("P14","Clifford, Pauli, plane and axis algebra agrees with matrices",
 "Products, inverses, conjugation actions on Paulis, decompositions into elementary gates, Pauli products and commutation, and the elementary trigonometric and sign algebra of planes, axes and units coincide exactly with the algebra of the corresponding matrices. Pauli strings and their tableaus denote the same signed operator. In particular the 24 single-qubit Cliffords form a group closed under the exposed operations.",
 ["inputs"],"all 24 Cliffords, all signed Paulis with units, all planes, axes, signs: exhaustive",
 "Tests cover pairs numerically but share the table with the implementation for several operations.",
 ["graphix/clifford.py","graphix/_db.py","graphix/pauli.py","graphix/fundamentals.py"],[("tables","graphix/_db.py"),("operations","graphix/clifford.py, graphix/pauli.py, graphix/fundamentals.py")],["Clifford","Pauli","ComplexUnit"])
p("P15","Measurement transformations describe the same physical measurement",
 "Applying a Clifford to a measurement, converting between Pauli and Bloch form, inferring Pauli measurements, mapping between planes, and downcasting or comparing measurements each denote the same pair of projectors (including the order of the outcomes) that the matrices prescribe. Approximate comparison holds exactly for the same representation and plane with angles within the tolerances, and recognition of Pauli measurements exactly for angles within the tolerances of a multiple of a quarter turn.",
 ["inputs"],"every measurement: planes, angles, axes and signs; every Clifford",
 "Tests sample angles; outcome order under composition of Clifford and plane change is sampled only.",
 ["graphix/measurements.py","graphix/command.py"],[("clifford action","graphix/measurements.py: BlochMeasurement.clifford, PauliMeasurement.clifford"),("inference","graphix/measurements.py: BlochMeasurement.to_pauli_or_none")],["Measurement.clifford","Measurement.to_bloch"])
p("P16","Composing and renaming patterns and open graphs composes their maps",
 "Composing two patterns or two open graphs along a mapping of nodes implements the composition of their maps (tensored where unmatched) with the documented order of inputs and outputs; renaming nodes and reordering ports changes only names and order. Composition never merges nodes that were not mapped to each other.",
 ["programs","inputs"],"every pair of patterns or open graphs, every partial injective mapping, parallel and sequential",
 "Tests use a few fixed compositions with names that seldom collide.",
 ["graphix/pattern.py","graphix/opengraph.py"],[("composition","graphix/pattern.py: Pattern.compose; graphix/opengraph.py: OpenGraph.compose")],["Pattern.compose","OpenGraph.compose"])
p("P17","State-vector simulation of patterns is exact",
 "Simulating a pattern on the state-vector backend from any supported input yields, for the selected outcomes, exactly the normalised state prescribed by the quantum semantics with qubits in output order; and each measurement presents to the outcome selection the exact Born probability of outcome zero given earlier outcomes. Memory growth, node bookkeeping and measurement order never affect the result.",
 ["programs","histories","inputs"],"every runnable pattern incl. non-deterministic ones, every branch, basic and arbitrary input states",
 "Tests simulate deterministic patterns, for which wrong probabilities or wrong conditional states on a branch go unnoticed.",
 ["graphix/sim/statevec.py","graphix/sim/base_backend.py","graphix/simulator.py"],[("projection and renormalisation","graphix/sim/base_backend.py: DenseStateBackend.measure"),("state vector kernels","graphix/sim/statevec.py")],["Pattern.simulate"])
p("P18","Density-matrix simulation agrees with the exact semantics",
 "Simulating a pattern on the density-matrix backend yields the projector of the exact branch state when there is no noise, and the exact average over Kraus operators when channels are applied; traces, partial traces, tensor products and operator applications on the matrix are those of linear algebra. Born probabilities presented for branch selection are exact. Simulating with symbolic angles and substituting values in the resulting state gives the state simulated with those values.",
 ["programs","inputs"],"every runnable pattern, every branch, channels on any qubits in any order",
 "Tests sample single-qubit channels and deterministic patterns.",
 ["graphix/sim/density_matrix.py","graphix/sim/base_backend.py"],[("Kraus application","graphix/sim/density_matrix.py: DensityMatrix.apply_channel")],["Pattern.simulate(backend='densitymatrix')"])
p("P19","Tensor-network simulation agrees with the exact semantics",
 "Simulating a pattern that has an open graph and at least one node on the tensor-network backend, with sequential or parallel graph preparation, yields a state whose amplitudes in the default output order equal, up to a global phase and normalisation, the exact branch state. Amplitude, basis-coefficient, expectation-value and state-vector queries agree with that state. Isolated nodes are measured with their exact probabilities (the others are declared to have probability one half), so an impossible outcome of an isolated node is never recorded. A copy of a tensor-network state is independent of the original.",
 ["programs","inputs"],"every runnable pattern, every branch, both preparation modes",
 "Tests compare a few transpiled circuits on random branches.",
 ["graphix/sim/tensornet.py"],[("network contraction","graphix/sim/tensornet.py")],["Pattern.simulate(backend='tensornetwork')"])
p("P20","Noise models insert exactly the declared noise at the declared places",
 "Simulating under a noise model executes the pattern's commands in order, with each declared noise acting on the qubits of its command at the declared place relative to it, conditional noise acting exactly when the command takes effect, and readout confusion applied to recorded outcomes with the declared probability. Composing models applies all of them, each once, each model rewriting the program produced by the models before it (so that the noise of later models lies closer to the command).",
 ["programs","configurations"],"every pattern, every noise model parameter, every composition of models",
 "Tests check analytical densities for tiny patterns and fixed parameter values.",
 ["graphix/noise_models/noise_model.py","graphix/noise_models/depolarising.py","graphix/noise_models/amplitude_damping.py","graphix/simulator.py"],[("transpilation of commands with noise","graphix/noise_models/*.py"),("noisy execution","graphix/simulator.py: PatternSimulator.run")],["PatternSimulator.run"])
p("P21","Simulation runs follow the selected branch and are reproducible",
 "A simulation run measures each measured node exactly once with the command's own domains evaluated on recorded outcomes, records exactly the outcomes the branch selection dictates, and returns them; a fixed or constant selection reproduces exactly that branch whatever the state. Results given to a measure method beforehand count as recorded and are left as given. Given equal seeds, two runs of the same pattern are identical, and the sampled outcomes depend on no other randomness.",
 ["programs","histories"],"every pattern, selector, seed; repeated runs of one simulator",
 "Tests check a few selectors on small deterministic patterns.",
 ["graphix/simulator.py","graphix/branch_selector.py"],[("selectors","graphix/branch_selector.py"),("run loop","graphix/simulator.py")],["PatternSimulator.run","BranchSelector.measure"])
p("P22","Parameter substitution commutes with everything",
 "Substituting values for symbolic parameters before or after compiling, rewriting, composing or extracting gives the same result, simultaneous substitution replaces all parameters at once, and an object reports being parameterised exactly when some parameter remains. Affine expressions evaluate, add, scale and compare like the functions they denote.",
 ["programs","histories"],"every parameterised circuit and pattern, every order of substitution and rewriting",
 "Tests use a couple of circuits and orders.",
 ["graphix/parameter.py","graphix/pattern.py","graphix/transpiler.py","graphix/measurements.py"],[("affine arithmetic","graphix/parameter.py: AffineExpression"),("substitution","graphix/parameter.py: with_parameter, with_parameters, subs, xreplace; Pattern/Circuit/DensityMatrix.replace_parameter(s)")],["Pattern.with_parameters","Pattern.replace_parameters","Circuit.with_parameters","OpenGraph.with_parameters"])
p("P23","Operations on copies never alter the original",
 "Every operation documented to return a new object (copying, mapping, composing, substituting, extracting, converting) leaves its arguments observably unchanged, and later in-place modification of the result is not observable through the original, nor conversely. In-place operations change only the object they are applied to.",
 ["histories"],"every sequence of copying and in-place operations on patterns, circuits, open graphs and states",
 "Aliasing appears only for particular sequences of operations; tests never inspect the source object afterwards.",
 ["graphix/pattern.py","graphix/transpiler.py","graphix/optimization.py","graphix/opengraph.py","graphix/sim/statevec.py"],[("copy semantics","graphix/pattern.py: Pattern.copy, Pattern.compose, Pattern.map")],["Pattern.copy","Pattern.compose"])
p("P24","The graph-state simulator tracks the state exactly",
 "Any sequence of Clifford gates (H, S, Z and vertex operators), measurements, equivalent-graph rewrites, copies and node insertions on the graph-state simulator represents, up to a global phase, the exactly transformed state. A measurement with a chosen outcome leaves the exactly projected state, a deterministic outcome is never reported wrongly, and a chosen outcome is reported whenever it is possible. The vertex operators and the state vector it reports denote that state.",
 ["histories"],"every sequence of operations on every graph",
 "Tests apply one operation at a time to a small fixed graph.",
 ["graphix/graphsim.py"],[("vertex-operator update rules","graphix/graphsim.py")],["GraphState"])
p("P25","Fusion-network decomposition reproduces the graph",
 "Decomposing any graph into fusion-ready resource states of bounded size terminates and yields states that respect the size bounds, each of which is a star or a linear chain, and whose fusions along shared nodes reproduce exactly the edges of the graph, each edge contained once. The fusion links reported are exactly the shared nodes.",
 ["inputs","configurations"],"every graph, every pair of size limits",
 "Tests cover six small graphs with one limit choice each.",
 ["graphix/extraction.py"],[("greedy decomposition","graphix/extraction.py: graph_to_fusion_network, create_resource_graph, fusion_nodes")],["graph_to_fusion_network","fusion_nodes"])
p("P26","Exported OpenQASM denotes the same circuit or pattern",
 "The OpenQASM 3 text exported for a circuit or a pattern is well formed and, read with the standard gate library, denotes the same operation as the object: same gates, operands, angles (up to a relative precision of 1e-9), measurement bases, outcome dependencies and corrections. Nothing is dropped, reordered across dependencies, or rounded to a nearby fraction. Objects that the format cannot express (initial states other than zero and plus, unsupported gates) are refused.",
 ["programs"],"every circuit and pattern",
 "Tests compare a few texts through an importer that is not available for patterns.",
 ["graphix/qasm3_exporter.py"],[("translation","graphix/qasm3_exporter.py")],["circuit_to_qasm3","pattern_to_qasm3"])
p("P27","Circuit rewriting passes preserve the circuit",
 "Eliminating SWAP gates, rewriting into J and CZ gates, rewriting J gates into standard gates, and moving measurements to the computational basis each denote the same operation as the original circuit, up to global phase, including the order of unmeasured qubits and of measurement outcomes. Each pass produces only the gates it promises.",
 ["programs"],"every circuit over the gate set, with measurements",
 "Tests compare final states for random circuits without measurement in most passes.",
 ["graphix/transpiler.py"],[("gate decompositions","graphix/transpiler.py: decompose_*"),("passes","graphix/transpiler.py: transpile_swaps, transpile_j_to_rzh, Circuit.transpile_measurements_to_z_axis")],["transpile_swaps","instructions_to_jcz"])
p("P28","Linear algebra over GF(2) is exact",
 "Rank, null space, right inverse, Gaussian elimination, back substitution and products of binary matrices are those of linear algebra over the two-element field, for matrices of every shape including empty and rank-deficient ones. Inputs that should be kept are not modified.",
 ["inputs"],"every binary matrix",
 "Tests sample sizes and compare against properties of a handful of matrices.",
 ["graphix/_linalg.py"],[("elimination kernels","graphix/_linalg.py: MatGF2")],["MatGF2"])
p("P29","Textual representations read back to the same object",
 "The programmatic representation of instructions, commands, measurements, patterns, circuits, Cliffords and Paulis is an expression that evaluates to an equal object (pi denotes ANGLE_PI; angles up to a relative precision of 1e-9), and the ASCII, unicode and LaTeX renderings of a pattern, a flow or corrections show every command of the requested kinds in the requested order (or announce how many are left out) with its nodes, measurement plane or axis and sign, angle and domains, every correction set and every layer. Angles that differ by more than that precision are not rendered alike. The renderings of a state vector, a density matrix or a complex number denote it: every basis state of the state with its amplitude, in the requested qubit order, exactly wherever fractions, square roots or exponentials of fractions of pi are written and within the requested number of digits otherwise; a sum in front of a ket is in parentheses, and simple values are not rounded.",
 ["programs"],"every pattern, circuit and state, every angle and amplitude, every rendering option",
 "Tests evaluate a few representations.",
 ["graphix/repr_mixins.py","graphix/pretty_print.py"],[("representation mixins","graphix/repr_mixins.py"),("pretty printer","graphix/pretty_print.py"),("states","graphix/sim/statevec.py: Statevector.draw; graphix/sim/density_matrix.py: DensityMatrix.draw")],["repr","pattern_to_str","statevec_to_str"])
p("P30","Reported pattern metrics describe the pattern's execution",
 "The number of nodes, the space used over time and its maximum, the dependency layers and depth, the graph, degrees, connected nodes, and the predicates about standard form reported for a pattern are exactly those of its command sequence, after any sequence of rewriting. Layers partition the nodes so that every measurement depends only on strictly earlier layers.",
 ["programs","histories"],"every pattern, every sequence of rewriting operations before the query",
 "Tests compare metrics of a few fixed patterns, never after in-place rewriting.",
 ["graphix/pattern.py"],[("metrics","graphix/pattern.py: Pattern.n_node, space_list, max_space, partial_order_layers, max_degree, nodes, isolated_nodes, connected_nodes, is_standard, to_opengraph")],["Pattern.max_space","Pattern.n_node","Pattern.partial_order_layers"])
p("P31","The circuit simulator implements the gate semantics",
 "Simulating a circuit applies exactly the unitary of every gate in order to the given input, projects measured qubits on the selected outcome with the exact probability, removes them, and reports the outcomes in order. The result does not depend on backend internals and leaves the input object unchanged. Simulating with symbolic angles on a back end that supports them, then substituting values, gives the state simulated with those values.",
 ["programs","inputs"],"every circuit, input and branch",
 "Tests use the simulator as the reference for everything else and rarely check it independently.",
 ["graphix/transpiler.py","graphix/ops.py","graphix/sim/statevec.py"],[("gate application","graphix/transpiler.py: Circuit.simulate")],["Circuit.simulate"])
p("P32","Provided noise channels are the documented physical channels",
 "Every provided channel constructor returns, for all admissible parameters, a completely positive trace-preserving channel equal to its documented action on every state; inadmissible parameters are rejected. Validation of channels accepts exactly trace-preserving sets of operators of consistent size.",
 ["inputs","configurations"],"all parameters in range, all states",
 "Tests check operators for one probability each, and some constructors not at all.",
 ["graphix/channels.py","graphix/linalg_validations.py"],[("constructors","graphix/channels.py")],["dephasing_channel","depolarising_channel","pauli_channel","two_qubit_depolarising_channel","amplitude_damping_channel"])
p("P33","Drawings show exactly the object that was drawn",
 "A drawing of an open graph, flow, set of corrections, pattern or graph state shows every node once and at a place of its own, named by its label, input, output and Pauli-measured nodes recognisable as announced, every edge of the graph and no other, one arrow for each correction from the measured node to the corrected one in the colour of its kind (X, Z or both), every node in the column of its layer with the layer numbers underneath, and the annotations (measurement labels, local Cliffords, legend entries) that were asked for and no others. Node labels switched off are not drawn. Distances and the routing of strokes are a matter of looks.",
 ["inputs","configurations"],"every object and every combination of options",
 "Image comparison tests fix a dozen pictures; most tests only check that drawing does not raise.",
 ["graphix/visualization.py","graphix/graphsim.py","graphix/pattern.py"],[("placing and annotating nodes","graphix/visualization.py: GraphVisualizer"),("arrows","graphix/visualization.py: _format_corrections_xz, _compute_arrow_paths"),("graph states","graphix/graphsim.py: GraphState.draw")],["OpenGraph.draw","PauliFlow.draw","XZCorrections.draw","Pattern.draw","GraphState.draw"])
p("P34","Random generators produce what they announce",
 "For every dimension, rank and choice of options: random Hermitian matrices are Hermitian, random unitaries unitary, random density matrices Hermitian, of unit trace and positive of the announced rank, random state vectors normalised, random channels trace preserving with the announced number of Kraus operators (distinct multiples of Pauli strings for the Pauli variant); random gates have exactly the announced layers of rotations and entanglers on the given pairs, random circuits alternate the announced entangling gates with one single-qubit gate per qubit, using every given parameter in every announced rotation; and equal seeds give equal objects.",
 ["inputs","configurations"],"every dimension, rank, seed and option",
 "Tests draw a handful of objects, mostly with default options, and use the generators to produce the inputs of other tests.",
 ["graphix/random_objects.py","graphix/rng.py"],[("matrices and channels","graphix/random_objects.py: rand_dm, rand_channel_kraus, rand_pauli_channel_kraus"),("circuits","graphix/random_objects.py: rand_gate, rand_circuit")],["graphix.random_objects"])
p("P35","Any sequence of rewriting passes keeps what a pattern computes",
 "Applying documented passes (standardisation, both signal shiftings, inference and erasure of Pauli measurements, Pauli pushing, removal of Pauli measurements and of local Cliffords, parallelisation, every space minimisation, reindexing, copying, regeneration from corrections, splitting domains, dropping useless domains, fixing the inputs) to a deterministic pattern in any order and number yields, after every pass, a runnable pattern with the promised inputs and outputs, the form that the pass promises, and every form promised by earlier passes that no pass since has given up; passes that return a new pattern leave their argument unchanged; and the final pattern computes on every branch the same map, up to a scalar, as the first. Splitting domains, dropping useless domains and fixing the inputs keep the map of every branch of any pattern.",
 ["programs","histories"],"every deterministic pattern, every sequence of passes, every branch",
 "Tests apply passes one at a time, or in two or three fixed orders, and compare one random branch.",
 ["graphix/pattern.py","graphix/optimization.py","graphix/remove_pauli_measurements.py","graphix/space_minimization.py"],[("passes on patterns","graphix/pattern.py: Pattern"),("domains","graphix/optimization.py: single_qubit_domains, remove_useless_domains"),("standardised form","graphix/optimization.py: StandardizedPattern")],["Pattern","StandardizedPattern","optimization.single_qubit_domains","optimization.remove_useless_domains"])
p("P36","Objects built call by call hold exactly what was accepted",
 "After any history of calls, a circuit holds exactly the instructions whose qubits were distinct, existing and not yet measured, in order, and every other call is refused and changes nothing; a pattern holds exactly the commands added, its outputs are the nodes given as inputs or prepared and not measured (in order of appearance or as reordered), node counts and equality follow, orders that are not permutations are refused, and clearing, replacing, extending and renaming in place leave nothing of the previous contents behind; an open graph is accepted exactly when its inputs, outputs, measurements and output Cliffords fit its nodes. Building the same contents in one go gives an equal object, and lists passed in, handed out or copied are not affected by later calls, nor affect them.",
 ["histories","inputs"],"every history of construction calls and every choice of arguments",
 "Tests build objects correctly; a few single refusals are tried.",
 ["graphix/transpiler.py","graphix/pattern.py","graphix/opengraph.py"],[("circuits","graphix/transpiler.py: Circuit.add, Circuit.m, gate methods"),("patterns","graphix/pattern.py: Pattern.add, replace, clear, reorder_*_nodes, reindex"),("open graphs","graphix/opengraph.py: OpenGraph.__post_init__")],["Circuit","Pattern","OpenGraph"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
for q in P: assert len(q["title"])<=80,(q["id"],len(q["title"]))
open(out,"w").write("".join(json.dumps(q)+"\n" for q in P))
