# property -> (technique, level note); a property without entry is not claimed yet
B = "Random search: bounded by the generated sizes and case counts written to the evidence file; says nothing about inputs outside them."
CLAIMS = {
"C01": ("generated gates against reference formulas written from the definitions (differential oracle), unitarity and periodicity invariants", B + " Dimensions 2..10, registers up to 5 qudits."),
"C02": ("metamorphic: gate followed by its adjoint is the identity; adjoint matrix is the conjugate transpose in every embedding and in both simulators", B),
"C03": ("differential: library embedding against an independent tensor-contraction embedding on random mixed registers", B + " Registers up to about 300 basis states."),
"C04": ("stateful model-based testing: random call histories against a reference model compared after every call", B),
"C05": ("mutation of valid requests in one field: must raise and leave a snapshot of the circuit unchanged; valid requests as control group", B + " One recorded finding (CEx levels) is excluded."),
"C06": ("round trip export/import in memory and through files, compared structurally and by matrices", B + " Adjoint gates are a recorded finding; gates without textual form are outside the property."),
"C07": ("grammar-based generation of programs with layout noise against the denotation known by construction; token-level corruption must raise", B),
"C08": ("differential: tensor-network state against a dense state-vector reference, plus invariance of the circuit", B),
"C09": ("differential: decision-diagram state against a dense reference and against the other simulator; bindings compiled from the current tree", B + " Dimensions 2..7; controlled gates are a recorded finding."),
"C10": ("model-based operation histories on one package instance, executed by a C++ driver under address and undefined-behaviour sanitizers, against dense shadows; canonicity by comparing node identities of equal objects", B + " Registers up to 40 basis states, 4..200 operations per history, up to 1500 sums or products of one pair of diagrams, library assertions enabled."),
"C11": ("generated target states of several structures, prepared and evaluated both by the gate definitions and by the simulator; fidelity bound with approximation; wide registers evaluated by the definitions; the decision tree checked on its own (holds the vector, contributions, cutting loses less than the tolerance, sharing changes nothing)", B + " Registers up to 40..60 basis states (400 for the wide ones); deviations up to 3e-5 sqrt(n) tolerated because rotations below 1e-5 are dropped by design."),
"C12": ("random unitaries on random connected level structures with stored phases; the product of the emitted pulses against the gate conjugated by the reported placements and phases; every pulse checked against the transitions", B + " Up to 8 levels (QR) and 5 levels (adaptive search, searches above 6 s undecided); chains of up to 5 gates."),
"C13": ("random unitaries; the product of the emitted rotations against the gate; whole circuits against their operator", B + " Up to 8 levels (QR) and 5 levels (adaptive)."),
"C14": ("random two-qudit unitaries and library gates; the product of the emitted local gates and entanglers against the gate; whole circuits against their operator", B + " Products of dimensions up to 16; deviations up to 2e-4 n tolerated because rotations below 1e-4 are dropped by design."),
"C16": ("random circuits with repeated gate objects and controlled gates; operator before and after fusing, order of entangling gates, list model of the lanes", B),
"C17": ("metamorphic: random circuits before and after the passes, operators up to a global phase or measurement probabilities compared with a dense reference; there-and-back propagation", B),
"C15": ("random circuits compiled for the provided devices and for devices with random level structures at every level and with pass lists; final state after undoing the reported placement against a dense reference, every emitted operation against what the device offers, compiled twice", B + " Up to 6 gates; dense two-qudit unitaries on three-level devices only; adaptive searches above 12 s are undecided; devices have at most three qudits."),
"C18": ("random circuits and noise models: every realisation parsed back into gates and errors and compared with the distribution the model states (exact binomial tests at 1e-10); histories of model additions against a dictionary model; noisy states of the decision-diagram simulator against all states the model allows", B + " Frequencies are tested statistically: deviations below about 6 standard deviations of 900 samples go unnoticed."),
"C19": ("random circuits and noise models: exact binomial tests (1e-10) of outcome frequencies against the ideal state and the density matrix of the noisy circuit, and of equal outcomes at several distances between shots; result files read back and compared", B + " Statistical: 50..1000 shots per case; registers up to 60 basis states (30 with noise), a share of the cases on four to seven qudits up to 250 (80)."),
"C20": ("histories of level exchanges on random connected structures against a dictionary model with breadth-first distances; routing replayed pulse by pulse on the model, the product of the pulses against the placements and stored phases, costs recomputed", B + " Up to 9 levels."),
"C21": ("model-based histories of additions, successes and queries against a dictionary tree with exhaustive path search; trees of real searches walked independently", B + " Up to 25 (120) nodes per tree; searches on up to 4 levels."),
"C22": ("random parameters, registers and entanglers: the matrix of an ansatz or of a sparsified gate against a dense reference of the circuit built from it; numerical independence of the parameters; compilations of feasible and infeasible targets, including searches that run out of time, judged by the operator delivered", B + " Local dimensions 2..6 (compilations 2..3, tolerance 0.1..0.3, searches above 4 s of CPU time undecided)."),
"C23": ("random states, counts, subsets and placements against element-wise definitions; the bars of the plots recorded instead of drawn", B + " Registers up to 300 basis states."),
"C24": ("histories of backend requests, option settings and runs against a model of the options in force; permutation circuits with known outcomes make samples and saved files predictable; scripted job states", B + " 2..6 operations on up to three backends; runs of near-identical programs on one backend."),
"C26": ("random circuits drawn; the printed rows parsed back and compared with the requests, angles up to their period and two decimals", B + " Up to six qudits of dimension 12 and fourteen gates."),
"C25": ("random sequences with random placements against the target they undo, exact or spoilt in one of ten ways; the verdict compared with the distance of a dense reference; sequences within a factor 4 of the tolerance are left open", B + " Dimensions up to 9."),
}
