prop("C01", "Every gate's matrix is unitary and equals its mathematical definition",
 "For every gate of the library, every qudit dimension, every placement and every parameter value its constructor accepts, the gate's matrix is the matrix its mathematical definition prescribes and is unitary (the Gell-Mann generators, which are not gates, are Hermitian instead). The matrix does not change when it is asked for again, and rotation angles that differ by a full period give the same operation.",
 ["inputs"], "all gates x dimensions 2.. x target order x levels/angles/permutations/custom unitaries",
 "Existing tests check each gate on two or three dimensions and one or two parameter choices; the parameter space (levels in both orders, any angle, mixed dimensions, descending targets) is infinite.",
 ["quantum_circuit/gates/r.py","quantum_circuit/gates/rz.py","quantum_circuit/gates/cx.py","quantum_circuit/gates/csum.py","quantum_circuit/gates/ms.py","quantum_circuit/gates/ls.py","quantum_circuit/gates/h.py","quantum_circuit/gates/perm.py","quantum_circuit/gates/gellmann.py"],
 [("per-gate matrix builders","src/mqt/qudits/quantum_circuit/gates/*.py"),("angle normalisation","src/mqt/qudits/compiler/compilation_minitools/local_compilation_minitools.py")],
 ["Gate.to_matrix(identities=0)"])
prop("C02", "Taking the adjoint of a gate yields its inverse everywhere it is used",
 "For every gate, the adjoint form of the gate has the conjugate-transposed matrix in every embedding, with or without controls, so that a gate followed by its adjoint acts as the identity. This is honoured by both simulators, by the compiler and by noise insertion exactly as by the matrix itself.",
 ["inputs","programs"], "all gates x parameters x controls x embeddings, inside random circuits",
 "Tests only apply the adjoint to a handful of local gates; no test combines adjoint with controls, long-range placement, the decision-diagram engine or noise.",
 ["quantum_circuit/gate.py","quantum_circuit/components/extensions/matrix_factory.py","src/python/bindings.cpp"],
 [("dagger flag applied when a matrix is generated","src/mqt/qudits/quantum_circuit/components/extensions/matrix_factory.py"),("dagger flag read by the DD engine","src/python/bindings.cpp")],
 ["Gate.dag().to_matrix()","tnsim/misim state vectors"])
prop("C03", "Gates embed onto exactly the lines they name, identity elsewhere",
 "Asking a gate for its matrix on the span of its lines, or on the whole register, gives the operator that acts as the gate's own matrix on its target qudits when every control qudit is in its control level, and as the identity otherwise and on all other qudits. This holds for any mix of dimensions, any order and distance of targets and controls and any number of controls.",
 ["inputs"], "registers of 1..5 qudits of mixed dimension x gates x target/control placements x identity modes",
 "Tests use a few hand-written placements; order, gaps, spectators, mixed dimensions and several controls interact combinatorially.",
 ["quantum_circuit/components/extensions/matrix_factory.py","quantum_circuit/gate.py"],
 [("index-wise embedding with controls and identity wrapping","src/mqt/qudits/quantum_circuit/components/extensions/matrix_factory.py"),("reference lines of a gate","src/mqt/qudits/quantum_circuit/gate.py")],
 ["Gate.to_matrix(identities=0|1|2)"])
prop("C04", "A circuit's registers, lines and gate list stay consistent under any history",
 "After any sequence of register additions, gate insertions, gate replacements, instruction resets and copies, the circuit reports exactly the qudits, dimensions, register-to-line assignment, classical lines, gate count and gate order that the sequence implies. Copies are independent of their original.",
 ["histories"], "random call histories of the circuit-building interface compared with a small reference model after every call",
 "Tests build fixed circuits once; nothing exercises interleavings of register growth, replacement, copying and resetting.",
 ["quantum_circuit/circuit.py","quantum_circuit/components/quantum_register.py","quantum_circuit/components/classic_register.py"],
 [("register append and site maps","src/mqt/qudits/quantum_circuit/circuit.py"),("gate-count bookkeeping","src/mqt/qudits/quantum_circuit/circuit.py")],
 ["QuantumCircuit public attributes","register indexing"])
prop("C05", "Invalid gate requests are rejected and leave the circuit unchanged",
 "A request for a gate with out-of-range or duplicate levels, an out-of-range angle where a range is declared, a control that is not a qudit of the circuit, overlaps the target or names a level the control qudit does not have, a target that is negative, missing or repeated, the wrong number of parameters, or a dimension the gate does not support, raises an error. The circuit is then exactly as it was before the request.",
 ["inputs","histories"], "valid requests mutated in one field so that they become invalid, on random circuits",
 "Tests check a few invalid values for two gates; the check must hold for each field of each gate on every register layout.",
 ["quantum_circuit/gate.py","quantum_circuit/gates/r.py","quantum_circuit/gates/s.py","quantum_circuit/gates/cx.py","quantum_circuit/gates/perm.py"],
 [("per-gate parameter validation","src/mqt/qudits/quantum_circuit/gates/*.py"),("control validation","src/mqt/qudits/quantum_circuit/gate.py")],
 ["exceptions raised","QuantumCircuit.instructions / number_gates"])
prop("C06", "Exporting a circuit to program text and reading it back preserves it",
 "For every circuit that can be expressed in the program text format, exporting it and importing the text yields a circuit with the same registers, dimensions and gate sequence, where every gate has the same kind, targets, controls, control levels and the same matrix. The same holds through files, including custom matrices stored beside the program. Exporting changes nothing: the circuit exports to the same text again, and the text measures every qudit once into a classical bit of its own.",
 ["programs"], "random multi-register mixed-dimensional circuits over the exportable gate set, in memory and through files",
 "The tests export circuits once and only look at counts or at a handful of instructions; the semantic round trip over controls, parameters and custom matrices is never compared.",
 ["quantum_circuit/circuit.py","quantum_circuit/gate.py","quantum_circuit/qasm.py"],
 [("gate text emission","src/mqt/qudits/quantum_circuit/gate.py"),("program text parser","src/mqt/qudits/quantum_circuit/qasm.py"),("gate reconstruction","src/mqt/qudits/quantum_circuit/circuit.py")],
 ["to_qasm/from_qasm","save_to_file/load_from_file"])
prop("C07", "Program text denotes one circuit, and malformed text is refused",
 "Any well-formed program, however it is laid out (comments, blank lines, spacing, several registers, arithmetic in parameters, controls), is read as exactly the registers and gate sequence it denotes. Text outside the grammar, unknown registers or out-of-range indices raise an error instead of yielding a different circuit.",
 ["programs"], "programs generated from the grammar with layout noise, plus token-level corruptions of them",
 "Tests parse a few fixed programs; the language is infinite.",
 ["quantum_circuit/qasm.py","quantum_circuit/circuit.py"],
 [("line-wise regular-expression parser","src/mqt/qudits/quantum_circuit/qasm.py")],
 ["QuantumCircuit.from_qasm"])
prop("C08", "Tensor-network simulation returns the exact state the circuit prepares",
 "For every circuit, the state vector returned by the tensor-network simulator equals the product of the gates' operators applied to the all-zero state, in register order, and is normalised. Simulating does not modify the circuit.",
 ["programs"], "random circuits over the whole gate set on mixed-dimensional registers",
 "Tests compare a dozen small circuits; contraction order, long-range gates, controls and gate order interact.",
 ["simulation/backends/tnsim.py","quantum_circuit/components/extensions/matrix_factory.py","quantum_circuit/circuit.py"],
 [("network construction and contraction","src/mqt/qudits/simulation/backends/tnsim.py")],
 ["backend.run(...).result().get_state_vector()","QuantumCircuit.simulate"])
prop("C09", "Decision-diagram simulation returns the exact state the circuit prepares",
 "For every circuit over the gate set the decision-diagram simulator supports (dimensions two to seven), the state vector it returns equals the product of the gates' operators applied to the all-zero state, and hence equals the tensor-network result. A gate it does not support is refused rather than ignored or silently simulated as something else.",
 ["programs"], "random circuits over the supported gate set on mixed-dimensional registers, with adjoints and controls",
 "Tests compare a handful of circuits; node sharing, normalisation and caching make the result depend on the whole history of a run.",
 ["src/python/bindings.cpp","include/dd/MDDPackage.hpp","include/dd/GateMatrixDefinitions.hpp","simulation/backends/misim.py"],
 [("gate translation","src/python/bindings.cpp"),("decision diagram algebra","include/dd/MDDPackage.hpp")],
 ["backend.run(...).result().get_state_vector()"])
prop("C10", "Decision-diagram operations agree with dense linear algebra and stay canonical",
 "For every register of mixed dimension, building gates, basis states and identities and adding, multiplying, transposing, conjugate-transposing, reading out and taking inner products of decision diagrams (and tensor products on registers of equal dimension) gives the same vectors, matrices and numbers as dense linear algebra, however many operations went before. Building the same object in two ways (also through the laws of products, sums and adjoints) yields the same shared node, a number within the tolerance of a stored one is represented by the stored one, numbers in use survive the collection of unused ones, and no operation touches memory outside its structures. The spreading helper turns one excitation into an equal superposition of the excitation on each of its registers.",
 ["histories","inputs"], "random operation histories on one package instance, compared with dense shadows, under address and undefined-behaviour sanitizers",
 "The unit tests print results or check single operations on tiny states; sharing, normalisation and cached results only go wrong after particular histories.",
 ["include/dd/MDDPackage.hpp","include/dd/UniqueTable.hpp","include/dd/ComputeTable.hpp","include/dd/ComplexTable.hpp","include/dd/ComplexNumbers.hpp"],
 [("normalisation","include/dd/MDDPackage.hpp"),("unique and compute tables","include/dd/UniqueTable.hpp"),("complex number table","include/dd/ComplexTable.hpp")],
 ["MDDPackage public interface"])
prop("C11", "State preparation builds the requested state",
 "For every normalised target state of any mixed-dimensional register, the generated preparation circuit maps the all-zero state to the target up to a global phase, whatever the structure of the state (sparse, repeated sub-states, relative phases, equal weights). With approximation enabled the fidelity stays above the bound the approximation allows.",
 ["inputs"], "random dense, sparse, structured and phase-decorated states on mixed-dimensional registers, with and without approximation",
 "Tests prepare uniform named states and a few random ones; sub-state sharing in the decision tree depends on exact coincidences between amplitudes.",
 ["compiler/state_compilation/state_preparation.py","core/micro_dd.py","compiler/state_compilation/retrieve_state.py","quantum_circuit/circuit.py"],
 [("decision tree with merged sub-trees","src/mqt/qudits/core/micro_dd.py"),("gate emission from the tree","src/mqt/qudits/compiler/state_compilation/state_preparation.py")],
 ["QuantumCircuit.set_initial_state then simulate"])
prop("C12", "Physical compilation of local gates is exact and uses only allowed transitions",
 "For every single-qudit unitary and every connected energy-level structure, compiling the gate for that structure yields a pulse sequence whose product, together with the level placement and phases it reports, equals the gate up to a global phase. Every rotation in the sequence drives a transition that exists in the structure.",
 ["inputs","configurations"], "random unitaries (dense, diagonal, permutation-like, sparse) x random connected level structures and placements",
 "Tests compile a few Hadamard-like gates on two fixed structures; routing and pruning branches depend on the matrix and on the structure.",
 ["compiler/onedit/mapping_aware_transpilation/phy_local_qr_decomp.py","compiler/onedit/mapping_aware_transpilation/phy_local_adaptive_decomp.py","compiler/onedit/local_operation_swap/swap_routine.py","core/level_graph.py","core/dfs_tree.py"],
 [("QR and adaptive decomposition with routing","src/mqt/qudits/compiler/onedit/mapping_aware_transpilation"),("phase tracking","src/mqt/qudits/core/level_graph.py")],
 ["pass.transpile_gate","level graph after compilation"])
prop("C13", "Logical decomposition of local gates reproduces the gate",
 "For every single-qudit unitary, the logical QR and adaptive decompositions return sequences of two-level rotations and phase gates whose product is the decomposed gate up to a global phase, acting on no other qudit.",
 ["inputs"], "random unitaries of dimension 2..7, dense, sparse, diagonal, permutation-like",
 "Tests decompose Hadamards and a few random matrices.",
 ["compiler/onedit/mapping_un_aware_transpilation/log_local_qr_decomp.py","compiler/onedit/mapping_un_aware_transpilation/log_local_adaptive_decomp.py","core/dfs_tree.py"],
 [("Givens elimination","src/mqt/qudits/compiler/onedit/mapping_un_aware_transpilation")],
 ["pass.transpile_gate"])
prop("C14", "Two-qudit gates decompose exactly into local gates and native entanglers",
 "For every unitary on two qudits of any dimensions, the entangling decomposition returns a sequence made only of single-qudit gates and the native two-qudit entangling gate whose product equals the unitary up to a global phase. The building blocks it uses (controlled rotation, partial swap, controlled phase) equal the operators they are defined to be.",
 ["inputs"], "random and structured two-qudit unitaries, both target orders, building blocks with random levels and angles",
 "Tests decompose two or three unitaries on fixed dimensions.",
 ["compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py","compiler/twodit/blocks/crot.py","compiler/twodit/blocks/pswap.py","compiler/twodit/blocks/czrot.py","compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py"],
 [("QR over the product basis","src/mqt/qudits/compiler/twodit/entanglement_qr"),("blocks","src/mqt/qudits/compiler/twodit/blocks")],
 ["pass.transpile_gate","block generators"])
prop("C15", "Compiling a circuit for a device preserves what it computes",
 "For every circuit and every device, provided or described by its own level structures, each compilation level yields a circuit that computes the same state as the original once the reported level placement is applied, using only operations the device offers. The input circuit is left as it was, and compiling again gives an equivalent result. A list of passes applies every pass it names.",
 ["programs","configurations"], "random circuits on registers that fit the devices x all optimisation levels and pass lists",
 "Tests compile two or three circuits; passes interact through shared level graphs and phases carried from gate to gate.",
 ["compiler/dit_compiler.py","quantum_circuit/circuit.py","compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py","simulation/backends/fake_backends/fake_traps2six.py"],
 [("pass driver and level mappings","src/mqt/qudits/compiler/dit_compiler.py")],
 ["compileO0/compileO1","QuditCompiler.compile"])
prop("C16", "Local resynthesis fuses gates without changing the circuit",
 "Fusing runs of single-qudit gates yields a circuit with the same overall operator, in which entangling gates keep their order and no two neighbouring single-qudit gates on one qudit remain. Splitting a circuit into per-qudit lanes and reassembling it yields an equivalent gate order.",
 ["programs"], "random circuits mixing local, controlled and entangling gates",
 "Tests resynthesise one circuit; ordering only goes wrong for particular interleavings of local and entangling gates.",
 ["compiler/naive_local_resynth/local_resynth.py","core/lanes.py"],
 [("lane bookkeeping","src/mqt/qudits/core/lanes.py")],
 ["NaiveLocResynthOptPass.transpile","Lanes"])
prop("C17", "Moving or dropping phase gates never changes observable behaviour",
 "Propagating virtual phase gates forwards or backwards through a circuit of rotations and entangling gates leaves its operator unchanged up to a global phase. Removing leading or trailing phase gates leaves the measurement statistics of the circuit started in the all-zero state unchanged.",
 ["programs"], "random circuits of level rotations, phase gates and entangling gates, both directions",
 "Tests check fixed sequences of a few gates on one qudit.",
 ["compiler/onedit/local_phases_transpilation/propagate_virtrz.py","compiler/onedit/local_phases_transpilation/remove_phase_rotations.py","core/lanes.py"],
 [("phase propagation rules","src/mqt/qudits/compiler/onedit/local_phases_transpilation")],
 ["pass.transpile"])
prop("C18", "Noise is inserted exactly where the noise model says",
 "For every circuit and noise model, a noisy realisation of the circuit contains the original gates in order, and extra error operations only after gates the model names, only on the qudits its scope selects, and only of the kinds and on the levels the model allows. Probability zero inserts nothing, and errors occur with the frequency the model states.",
 ["inputs","programs"], "random circuits x random noise models (mathematical and physical noise, all scopes), many realisations each",
 "Tests run one circuit and one model and check counts of shots only.",
 ["simulation/noise_tools/noise.py","simulation/noise_tools/noisy_circuit_factory.py"],
 [("noise model registry","src/mqt/qudits/simulation/noise_tools/noise.py"),("noisy circuit generation","src/mqt/qudits/simulation/noise_tools/noisy_circuit_factory.py")],
 ["NoisyCircuitFactory.generate_circuit","NoiseModel accessors"])
prop("C19", "Shot-based simulation returns the requested shots from the right distribution",
 "A run with a noise model returns exactly the requested number of outcomes, each a basis-state label of the register, distributed as the noisy circuit prescribes (with vanishing noise: as the ideal state prescribes). When saving is requested the stored outcomes and states are those returned.",
 ["inputs","configurations"], "random circuits x shot counts x noise strength x memory options on both simulators",
 "Tests only check that the number of shots is right for one circuit.",
 ["simulation/backends/stochastic_sim.py","simulation/save_info.py","simulation/backends/tnsim.py","simulation/backends/misim.py"],
 [("parallel shot execution and sampling","src/mqt/qudits/simulation/backends/stochastic_sim.py"),("result files","src/mqt/qudits/simulation/save_info.py")],
 ["JobResult.get_counts","saved .h5 files"])
prop("C20", "Level routing only permutes levels along allowed transitions",
 "For every connected level structure, routing two levels next to each other leaves the structure's placement a permutation of the levels, uses only pulses on existing transitions, and the pulses it emits perform exactly the relabelling that the placement records: every level moves to its recorded place with the change of its stored phase, up to the sign a pi pulse leaves on a level it moves. Distances and costs it reports are those of shortest paths in the structure.",
 ["inputs","histories"], "random connected structures x random sequences of routing requests and phase updates",
 "Tests route one pair on one structure.",
 ["core/level_graph.py","compiler/onedit/local_operation_swap/swap_routine.py"],
 [("node swapping","src/mqt/qudits/core/level_graph.py"),("routing cost and gates","src/mqt/qudits/compiler/onedit/local_operation_swap/swap_routine.py")],
 ["LevelGraph","route helpers"])
prop("C21", "The decomposition search tree returns its cheapest successful branch",
 "For every tree built by adding search nodes, lookups, sizes, depths and successful-branch queries agree with the tree's structure, and the reported decomposition is a root-to-leaf path that ends in success with the least cost among all such paths.",
 ["histories"], "random insertion histories with random costs and success marks compared with a reference tree",
 "Tests build two or three small trees.",
 ["core/dfs_tree.py"], [("n-ary tree queries","src/mqt/qudits/core/dfs_tree.py")], ["NAryTree public methods"])
prop("C22", "Parametrised and variational two-qudit circuits equal what they parametrise",
 "For every parameter vector, the parametrised local unitaries are special unitary with d^2-1 independent parameters, and a layered ansatz or a sparsified gate turned into a circuit acts, on the qudits it is meant for, exactly as the matrix the optimiser evaluated. A variational compilation that delivers a circuit is within the requested tolerance of its target and uses at most the requested number of layers; one that cannot succeed ends with an error and leaves nothing behind that affects the next one.",
 ["inputs"], "random parameter vectors, dimensions, ansatz kinds and layer counts; small random targets",
 "Tests compile one target; the optimiser is stochastic.",
 ["compiler/twodit/variational_twodit_compilation/parametrize.py","compiler/twodit/variational_twodit_compilation/ansatz/ansatz_gen.py","compiler/twodit/variational_twodit_compilation/ansatz/instantiate.py","compiler/twodit/variational_twodit_compilation/sparsifier.py"],
 [("ansatz generation and instantiation","src/mqt/qudits/compiler/twodit/variational_twodit_compilation")],
 ["ansatz matrices and circuits"])
prop("C23", "Result post-processing agrees with quantum mechanics",
 "For every register and every state or set of counts, reduced states, basis labels and relabelled results computed for presentation are those of the underlying state: partial traces are trace-preserving and correct for every kept subset, labels enumerate the basis in register order, and undoing a level placement returns the state in the original labelling.",
 ["inputs"], "random mixed-dimensional states, counts, subsets and placements",
 "Tests use one or two fixed states.",
 ["visualisation/mini_quantum_information.py","visualisation/plot_information.py"],
 [("partial trace","src/mqt/qudits/visualisation/mini_quantum_information.py"),("labels and remapping","src/mqt/qudits/visualisation/plot_information.py")],
 ["partial_trace","get_density_matrix_from_counts","state_labels","remap_result"])
prop("C24", "Runs on a backend are independent of each other and of the circuit object",
 "A backend obtained by name is the one of that name and an unknown name is refused. The result of a run (state, number and kind of samples, saved file) depends only on the circuit, the options set on that backend and the options given for that run, not on earlier runs or other backends; running leaves the circuit and earlier results unchanged. Every job has its own id, and exactly finished, failed and cancelled jobs count as final.",
 ["histories"], "random histories of backend requests and runs with varying circuits and options",
 "Tests use each backend once.",
 ["simulation/qudit_provider.py","simulation/backends/backendv2.py","simulation/backends/tnsim.py","simulation/backends/misim.py","simulation/jobs/job.py"],
 [("backend lookup","src/mqt/qudits/simulation/qudit_provider.py"),("option handling","src/mqt/qudits/simulation/backends/tnsim.py")],
 ["MQTQuditProvider.get_backend","Backend.run","Job/JobResult"])
prop("C25", "The equivalence verifier accepts exactly the equivalent sequences",
 "For every gate sequence, target operator and level placement, the verifier accepts if the sequence, applied after the target, gives the identity up to a global phase (read with the first placement before the sequence and the last placement after it), and rejects if it differs from that by more than its tolerance. The small simulations used next to it give the operator and state of the circuit.",
 ["inputs"], "random sequences with matching targets and with perturbed targets, random placements",
 "Tests verify a few correct sequences and never a wrong one.",
 ["compiler/compilation_minitools/naive_unitary_verifier.py"],
 [("unitary comparison","src/mqt/qudits/compiler/compilation_minitools/naive_unitary_verifier.py")],
 ["UnitaryVerifier.verify","mini_unitary_sim","mini_sim","phy_sdit_sim"])
prop("C26", "The printed drawing of a circuit shows its gates in order on their lines",
 "For every circuit, the printed drawing has one row per qudit, in the order of the lines, and in every row one cell per gate, in the order of the gates. A gate on one qudit without controls is shown on the row of its qudit: a phase gate with its level and angle, a rotation with its two levels and two angles, an arbitrary one-qudit gate as such, any other as a plain gate. All other rows of its column, and all rows of a gate on several qudits, show the same placeholder. Drawing leaves the circuit unchanged.",
 ["inputs"], "random circuits over all gates with controls and mixed dimensions",
 "No test looks at what is printed.",
 ["visualisation/drawing_routines.py"],
 [("row and cell layout","src/mqt/qudits/visualisation/drawing_routines.py")],
 ["draw_qudit_local"])
