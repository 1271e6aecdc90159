ADJ = {"regs": [["q", [2]]], "gates": [{"g": "s", "t": [0], "p": None, "c": None, "dag": True}], "stale": False}
F = FIXED
F["build LS and MS matrices over the lines in increasing order"] = ("C01", "LS and MS on lines in decreasing order of different dimension had transposed placement or a wrong shape")
F["use the dimension of the target itself when embedding a single-qudit gate"] = ("C03", "a controlled or embedded single-qudit gate used the dimension of the wrong qudit")
F["check control levels against the dimension of the control qudit"] = ("C05", "control levels were compared with the target's dimension: valid ones refused, invalid ones accepted")
F["keep the long-range flag up to date when controls are added to a gate"] = ("C08", "a gate whose controls make it long-range was contracted on the wrong lines")
F["keep the unitary of a RandU gate once it has been drawn"] = ("C01", "RandU drew another unitary at every to_matrix call")
F["taking the adjoint of an adjoint gate gives the gate back"] = ("C02", "dag() twice left the gate in its adjoint form")
F["emit the sequence of PhyLocQRPass in the order in which it realises the gate"] = ("C12", "the sequence realised another operator (order reversed)")
F["emit the sequence of LogEntQRCEXPass in the order in which it realises the gate"] = ("C14", "the sequence realised another operator (order reversed)")
F["reject negative, repeated or unpaired controls and control levels"] = ("C05", "negative, repeated or unpaired controls were accepted")
F["accept the two levels of a rotation in any order in the decision-diagram simulator"] = ("C09", "rotations whose first level is the higher one gave a wrong state")
F["refuse gates the decision-diagram simulator cannot represent"] = ("C09", "unsupported gates were skipped silently")
F["write the controls of a gate into the program text"] = ("C06", "controls were lost in the exported text")
F["hand parameters read from program text to the gates instead of dropping them"] = ("C06", "parameters of several gates were dropped or left as text when importing")
F["refuse unknown gates in program text instead of skipping them"] = ("C07", "gates of unknown name were skipped")
F["read multi-qudit gates on a single qudit from program text"] = ("C07", "rdu/cumulti on one qudit could not be read")
F["read comments where they end and refuse trailing text in program lines"] = ("C07", "comments swallowed code, trailing text was ignored")
F["refuse registers that are redefined or whose dimensions do not match their size"] = ("C07", "redefined registers and mismatched dimension lists were accepted")
F["support open-ended and stepped slices of registers"] = ("C04", "open-ended and stepped slices raised or returned the wrong lines")
F["replace the gate that is named when the index is negative and refuse indices out of range"] = ("C04", "replace_gate with a negative or too large index corrupted the gate list")
F["forget the level mappings when a circuit is reset"] = ("C04", "reset left level mappings of the erased circuit")
F["refuse a second register of the same name instead of overwriting the lines of the first"] = ("C04", "a second register of the same name took over the site map of the first")
F["let registers keep an own list of their dimensions"] = ("C04", "changing the list handed to a register changed the register")
F["refuse invalid parameters of VirtRz instead of building the identity"] = ("C05", "VirtRz with a level out of range became the identity")
F["refuse lists that are not permutations of the levels in Perm"] = ("C05", "Perm accepted lists that are no permutation")
F["refuse levels beyond the dimension in GellMann"] = ("C05", "GellMann accepted a level equal to the dimension")
F["refuse negative and repeated target qudits"] = ("C05", "negative and repeated targets were accepted")
F["refuse negative control levels in CEx"] = ("C05", "CEx accepted negative control levels")
F["refuse parameters such as 2pi instead of reading them as 23.14"] = ("C07", "2pi was read as 23.14...")
F["refuse surplus gate parameters instead of ignoring them"] = ("C05", "surplus parameters were ignored")
F["refuse two-qudit gates that do not have two targets"] = ("C05", "two-qudit gates with one or three targets were accepted")
F["read register sizes that are set off by spaces"] = ("C07", "qreg q [ 2 ] was refused or misread")
F["read bracketed parameter lists that are set off by spaces"] = ("C07", "parameter lists with spaces around the brackets were misread")
F["never normalise a vector node of the decision diagram by a vanishing edge"] = ("C09", "rotations by angles around 1e-7 turned the whole state into NaN")
F["keep the phases when a vector node of the decision diagram is built from uncached edges"] = ("C10", "building a vector node from weighted edges dropped the phase of its largest edge")
F["conjugate the weight at the root in inner products of decision diagrams"] = ("C10", "inner products with a complex weight at the root of the second vector had a wrong phase")
F["allocate the edges of the node that is built when transposing a decision diagram"] = ("C10", "transposing any non-symmetric diagram (also on building or multiplying matrices) raised an exception")
F["do not return the identity on all lower registers when one on a part of them is asked for"] = ("C10", "makeIdent(l, m) with l > 0 returned the identity on 0..m once a smaller identity existed")
F["read matrix entries of decision diagrams in row-major order"] = ("C10", "getValueByPath on matrices read out of range or the wrong entry")
F["keep the factor of a scaled identity in tensor products of decision diagrams"] = ("C10", "the factor of a scaled identity was lost in tensor products")

OPEN += [
 dict(property="C05", id="cx-levels", sub="refuse", case={"dims":[2,3],"split":1,"base":[],"fault":"cx","how":"direct","spec":{"g":"cx","t":[0,1],"p":[0,3,1,0.0],"c":None,"dag":False}},
      what="CEx accepts a swap level >= the target's dimension or a control level >= the control's dimension; existing tests build such gates, so a refusal would break them"),
 dict(property="C06", id="adjoint-dropped", sub="adjoint", case=ADJ,
      what="the program text has no notation for adjoints: exporting a circuit with an adjoint gate yields text that denotes the gate itself"),
 dict(property="C09", id="controls-ignored", sub="controlled", case={"dims":[2,2],"gates":[{"g":"x","t":[0],"p":None,"c":[[1],[1]],"dag":False}]},
      what="the decision-diagram simulator ignores the controls of a gate; applying them makes an existing test exceed its time limit"),
]
F["prepare the shared sub-state of a reduced node from a branch that is not zero"] = ("C11", "a target state whose non-zero sub-states are all equal but whose first sub-state is zero, e.g. (0, v, 4v) on [3, 2, 2, 3], was prepared without the sub-state")
F["keep track of the phases that routing pulses leave when levels already carry phases"] = ("C12", "adaptive compilation of a gate that needs routing on a structure with stored phases reported wrong phases")
F["let PhyLocAdaPass realise gates from the placement before to the placement after it"] = ("C12", "the sequence of PhyLocAdaPass started in the new placement and ended in the old one, so consecutive gates did not compose")
F["apply the phases stored in the level graph before the gate that is compiled next"] = ("C12", "PhyLocQRPass emitted stored phases after the gate, conjugated, instead of before it")
F["return the gate and not its inverse from the logical local decompositions"] = ("C13", "LogLocQRPass and LogLocAdaPass returned the inverse of the gate")
F["address stored phases by their logic level in the logical QR decomposition"] = ("C13", "QrDecomp raised when the level graph carried phases")
F["keep the level graph of the backend in LogLocAdaPass"] = ("C13", "LogLocAdaPass replaced the level graph of the backend by None")

F["decompose two-qudit gates over their lines in increasing order"] = ("C14", "a two-qudit gate whose lines are given in decreasing order was decomposed as if they were increasing")
F["decompose controlled gates whose lines are not neighbours"] = ("C14", "a controlled single-qudit gate on lines with others in between could not be decomposed")
F["place controlled gates and repeated gate objects correctly in the lanes"] = ("C16", "Lanes raised TypeError for controlled single-qudit gates and lost gates whose object occurs twice")

F["count the controls of phase gates as used when removing phase gates"] = ("C17", "ZRemovalOptPass dropped controlled phase gates whose control is in superposition, e.g. h(0), virtrz(1) controlled by 0, h(0)")
F["keep gate order, adjoints and other gates when propagating phases"] = ("C17", "ZPropagationOptPass reordered gates, dropped gates other than R and VirtRz, ignored adjoints and raised TypeError on two entangling gates in a row")

F["undo the reported level placement in the right direction"] = ("C15", "remap_result applied the placement instead of undoing it, wrong for placements that are no involution")
F["decompose two-qudit gates into operations on the physical levels of the device"] = ("C15", "PhyEntQRCEXPass ignored the placement of the levels (wrong results on faketraps2trits), emitted rotations on transitions the device does not have, lost adjoints of cx and did not adapt the phase of cx when its levels swap order")
F["start every compilation from the placement of the device and apply whole-circuit passes of a pass list"] = ("C15", "adaptive compilation moved the levels of the shared backend graphs, so compiling again gave a wrong circuit; logical pass lists reported a physical placement; NaiveLocResynthOptPass in a pass list raised, the Z passes were ignored")

F["select the control and target qudits of controlled gates for noise"] = ("C18", "noise on the controls of a controlled gate raised, noise on the targets of a gate with several controls hit controls as well")
F["apply the dephasing of mathematical noise"] = ("C18", "the dephasing probability of Noise was ignored by the tensor network simulator")
F["keep the noise of different gates in a noise model apart"] = ("C18", "extending the noise of one gate also extended that of the other gates it was added for, and the caller's noise object")
F["seed every noisy circuit factory independently"] = ("C18", "two factories made within a millisecond produced identical errors")

F["seed the measurement of every shot independently"] = ("C19", "shots measured within one millisecond by one process drew the same random number, so outcomes were strongly correlated")
F["draw the noise of every shot independently"] = ("C19", "the processes of a shot simulation shared one random generator state, so only a handful of different noisy circuits were simulated (2 for 50 shots on 8 cores)")

F["keep circuit and qudit of a level graph when swapping its nodes"] = ("C20", "LevelGraph.swap_nodes returned a graph without circuit and qudit, so get_vrz_gates lost the phases still owed")
F["exchange the stored phases of the named levels"] = ("C20", "swap_node_attr_simple exchanged other levels when the levels are not declared in increasing order")

F["count the root when refreshing the size of a search tree"] = ("C21", "asking for total_size made the tree forget its root: a tree with one node then claimed to be empty")

F["give the local unitaries of the ansatz independent parameters"] = ("C22", "generic_sud multiplied the phases from the side where the first rotation about Z absorbs one of them, so only d^2-2 parameters were independent and no layered ansatz could reach every unitary")
F["build the custom ansatz from the matrix of the primitive"] = ("C22", "the ansatz with a custom primitive ignored the adjoint of the primitive")
F["order and place the gates of an instantiated ansatz like its matrix, and report an unreached tolerance"] = ("C22", "variational_compile delivered the gates of the ansatz in reverse order and always on the first two qudits, and an empty circuit when no layer count reached the tolerance")
F["order and place the rotations of a sparsified gate like its matrix"] = ("C22", "sparsify delivered the rotations in reverse order and always on the first two qudits")
F["end the variational search with its result, and its timer with the search"] = ("C22", "errors in the search thread left the caller waiting forever; timers of up to hours kept the program alive and ended later searches; running out of time raised a TypeError")

F["number basis states of large qudits unambiguously, count outcomes in arrays"] = ("C23", "get_density_matrix_from_counts raised for one qudit and used wrong basis states with more than 10 levels, where labels were ambiguous too; plot_counts raised for arrays of outcomes")

F["keep the options of a run out of the options of the backend"] = ("C24", "options of a run (noise model, shots, files) silently applied to all later runs of the backend")
F["accept the valid option names when setting options"] = ("C24", "Backend.set_options raised for every option")
F["give every job its own id and count cancelled jobs as final"] = ("C24", "jobs created within a millisecond shared their id; waiting for a cancelled job never ended")
