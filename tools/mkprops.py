#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source for ids, titles and statements)."""
import json, pathlib
Q="src/qudiet/core/quantum_circuit.py"; OF="src/qudiet/core/operator_flow.py"; MO="src/qudiet/core/moment.py"
OUT="src/qudiet/core/output.py"; IS="src/qudiet/core/init_states.py"; G="src/qudiet/circuit_library/standard_gates/"
AG="src/qudiet/circuit_library/__init__.py"; BK="src/qudiet/core/backend/"; QP="src/qudiet/qasm/qasm_parser.py"
UN="src/qudiet/utils/numpy.py"; UL="src/qudiet/utils/linalg.py"; DR="src/qudiet/utility/circuit_draw.py"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))
p("C01","A run returns the ordered product of all placed gates",
 "For any circuit of qudits with any dimensions, initial states and sequence of X, H, Z, CX, Toffoli and custom gates, running it returns exactly the state vector obtained by applying the gates one after the other, in the order they were placed, to the initial basis state (up to floating-point rounding). How gates are grouped into parallel layers never changes the result: no gate is lost, duplicated, reordered against another gate on the same register, or applied to other registers.",
 ["programs","inputs","configurations"],"every register list, initial state, gate sequence of any length and mix, every built-in CPU backend",
 "The tests run about ten fixed circuits with at most a few gates; most have one gate, and the longest one asserts nothing. They cannot reach the product of gate kinds, distances, dimensions and groupings.",
 [Q,OF,MO,G+"cx.py",G+"h.py",G+"x.py",G+"z.py",G+"i.py",G+"toffoli_utility.py",AG],
 [("layer building and merging of single-qudit gates","OperatorFlow.populate_opflow_test"),("right-to-left product of layers","OperatorFlow.exec"),("tensor product within a layer","Moment.exec"),("identity filling","QuantumCircuit.__add_moment_to_opflow")],
 ["QuantumCircuit.run()"],[("_opflow_list","the layers, initial states first","OperatorFlow"),("_moment_list","blocks of a layer in register order","Moment")])
p("C02","X, H and Z act on their own qudit by their qudit definitions",
 "On a register of any dimension d, X with increment k maps |j> to |j+k mod d> for every integer k (default 1), H is the normalised Fourier transform |j> -> 1/sqrt(d) sum_k w^(jk)|k>, and Z maps |j> to w^j|j>, with w = exp(2 pi i/d). The gate changes its own register only, wherever that register is in the circuit and whatever the dimensions of its neighbours.",
 ["inputs","configurations"],"every dimension, register position, increment (negative and larger than d included) and basis state",
 "Tests use H on dimensions 2 and (without looking at the value) 4, and X and Z only on qubits in a test that asserts nothing.",
 [G+"x.py",G+"h.py",G+"z.py",G+"i.py",Q],[("gate matrices","XGate/HGate/ZGate.unitary"),("placement among identities","QuantumCircuit.__add_moment_to_opflow")],["QuantumCircuit.run()"])
p("C03","CX adds its increment exactly when the control is at its top level",
 "A CX with control c, target t and increment k adds k modulo the target's dimension to the target when the control is in its highest level, and does nothing otherwise. This holds for every pair of distinct registers, whether the control comes before or after the target and however many registers of whatever dimensions lie between them, for every integer k, and no other register is disturbed.",
 ["inputs","configurations"],"all register lists, ordered pairs of distinct registers, integer increments and basis states",
 "Tests cover three control/target pairs with one increment and one basis state each.",
 [G+"cx.py",UL,UN,Q],[("truth table and row update","CXGate.unitary / CXGate.update"),("span of the block","QuantumCircuit.cx, __add_moment_to_opflow")],["QuantumCircuit.run()"])
p("C04","Toffoli adds its increment exactly when all controls are at their top level",
 "A Toffoli with any list of one or more distinct controls (in any order, on either side of the target, adjacent or not) and increment k adds k modulo the target's dimension to the target exactly when every control is in its highest level, and leaves every other basis state and register alone.",
 ["inputs","configurations"],"all register lists, control lists, targets, increments and basis states",
 "Tests cover one control list and one basis state for which the gate fires.",
 [G+"toffoli_utility.py",AG,Q],[("permutation over the spanned registers","toffoli_dm"),("span of the block","QuantumCircuit.toffoli")],["QuantumCircuit.run()"])
p("C05","A custom gate applies exactly its matrix, and only if that is unitary",
 "A user-defined gate placed on one register or on a list of neighbouring registers in ascending order applies exactly its matrix to them (first register most significant), with complex entries kept, and nothing elsewhere. A matrix that is not unitary, or whose size is not the product of the registers' dimensions, never produces a result: it is refused at the latest by run().",
 ["inputs","configurations"],"all register lists, contiguous register groups, unitary matrices, and non-unitary or wrong-sized ones",
 "The only test places the identity on one qutrit.",
 [AG,Q,MO,BK+"NumpyBackend.py",BK+"SparseBackend.py"],[("unitarity and size check","ArbitaryGate.unitary, Backend.is_unitary"),("placement","QuantumCircuit.gate")],["QuantumCircuit.gate()","QuantumCircuit.run()"])
p("C06","The result does not depend on the backend",
 "The same circuit run on the dense, sparse, default and (given a CUDA array library) CUDA backends lists the same basis states with the same values. Every operation available on one backend is available on the others.",
 ["programs","configurations"],"every circuit, output setting and backend",
 "Tests run one circuit on two backends and assert nothing about the results; CUDA backends are never run.",
 [BK+"NumpyBackend.py",BK+"SparseBackend.py",BK+"CUDABackend.py",BK+"CUDASparseBackend.py",BK+"__init__.py",OUT],[("kron/dot/eye/matrix/is_unitary per backend","Backend subclasses"),("conversion before output","Output.__call__")],["QuantumCircuit.run()"])
p("C07","Every circuit is reversible and preserves total probability",
 "The squared magnitudes of the amplitudes returned by any run sum to one. Following any sequence of gates by its inverse (opposite increments for X, CX and Toffoli, repeated H and Z up to their order, in reverse order) returns exactly the initial basis state with amplitude one.",
 ["programs","inputs"],"every circuit and initial state",
 "No test sums probabilities or undoes a circuit.",
 [Q,OF,MO,G+"cx.py",G+"h.py",G+"x.py",G+"z.py",G+"toffoli_utility.py"],[("unitarity of every gate and of the layer products","gate unitary properties, OperatorFlow.exec")],["QuantumCircuit.run()"])
p("C08","The result names each basis state once, with the right digits and value",
 "A result lists, in ascending order, each basis state with a non-zero amplitude exactly once, named by its digits in register order with register 0 first: as a string |...> of the digits in decimal one after the other or as a tuple, as requested. The value is the complex amplitude or, in probability mode, the real number |amplitude|^2, whatever the mix of dimensions; a result shows what the circuit's output object asks for when it runs.",
 ["inputs","configurations"],"all register lists, states, output types and methods ",
 "Tests look at string names and amplitudes of basis states with a single entry, plus one with two; never at probabilities, tuples or complex values.",
 [OUT,UN,Q],[("index to digits","Nbase_to_bin"),("type and method selection","Output.__call__")],["QuantumCircuit.run()","Output"])
p("C09","Running and inspecting a circuit never changes it",
 "A circuit can be run, drawn (text or Matplotlib), described and inspected any number of times, in any order, before and after measurement and between placements, without any effect on its later results, layers or statistics: repeated runs return equal results, and an inspected circuit behaves like one that was never inspected. What a run or a report returns belongs to the caller: nothing done to the circuit later changes it, and changing it changes neither the circuit nor its later answers.",
 ["histories"],"every history of placements, runs and inspections",
 "Tests run each circuit once and never inspect one before running it.",
 [Q,OF,MO,OUT,DR],[("work on copies of the layer list","OperatorFlow.exec"),("read-only inspection","get_circuit_config, get_circuit_info, __str__, draw")],["QuantumCircuit.run()","get_circuit_config()","get_circuit_info()","str()","draw()"])
p("C10","Circuits are independent of each other and of the caller's lists",
 "Whatever is done with one circuit has no effect on any other circuit, however their constructions, placements and runs interleave and whichever backend, output object or argument lists they share. The library never modifies the lists passed to it, and changing those lists afterwards does not change the circuit; a deep or pickled copy of a circuit is a circuit of its own that behaves like the original did; changing an output object's settings changes how the circuits using that object present their results, and no other's; nor does a result or report once returned change because of another circuit.",
 ["histories"],"every interleaving of calls on several circuits sharing argument objects",
 "Tests build circuits one at a time with fresh literals.",
 [Q,OF,MO,OUT,G+"cx.py",G+"toffoli_utility.py"],[("per-object state and copied arguments","QuantumCircuit.__init__, OperatorFlow.__init__")],["QuantumCircuit.run()","the caller's lists"])
p("C11","Measurement closes a circuit, and only a measured circuit runs",
 "Running a circuit that has not been measured raises an error; after measuring all registers it runs. Once measured, further gates and measurements are refused by returning False and change neither results nor statistics; before that every valid placement returns True.",
 ["histories"],"every history of placements, measurements and runs, including those that start with a failed run",
 "Tests always measure exactly once, at the end, and ignore return values.",
 [Q,OF],[("measurement flags","OperatorFlow._measurement_count"),("refusal","OperatorFlow.populate_opflow_test"),("guard","OperatorFlow.exec")],["return values","QuantumCircuit.run()"],
 [("_measurement_count","one flag per register","OperatorFlow")])
p("C12","Ill-formed requests are refused and leave the circuit unchanged",
 "Gate placements on registers outside the circuit (negative numbers included), CX or Toffoli whose target is one of its controls, gate dimensions different from the register's, and custom gates on registers that are not neighbours raise an error when they are requested. Circuits with registers that are not a list or tuple, dimensions below 2, initial states outside 0..d-1 or more initial states than registers cannot be constructed. A refused request has no effect on the circuit, and every accepted placement can be run.",
 ["inputs","histories"],"every request with out-of-range arguments, at any point of any history",
 "No test makes an ill-formed request.",
 [Q,IS],[("bounds checks","QuantumCircuit.__validate_gate_inputs, cx, toffoli, gate"),("state checks","InitState.__init__")],["exceptions of placement calls and constructors","QuantumCircuit.run()"])
p("C13","Register and initial-state declarations mean what they say",
 "The tuple (n, d) declares n registers of dimension d and is equivalent in every respect to the list of n times d. Registers without a given initial state start in |0>, given ones start in their state, and an unchanged circuit returns exactly that basis state with value one.",
 ["inputs","configurations"],"all tuple and list declarations and (partial) initial-state lists",
 "Tests use only lists, with complete or absent initial states.",
 [Q,IS,OUT],[("normalisation of qregs, padding of init_states","QuantumCircuit.__init__"),("initial kets","InitState")],["QuantumCircuit.run()","get_circuit_config()","get_circuit_info()"])
p("C14","Layers pack gates greedily and depth and width count them",
 "An X, H or Z joins the newest gate layer if its register lies outside the span of every gate there, and otherwise opens a new layer; every other gate opens a new layer. Each layer accounts for every register exactly once, the reported depth is the number of gate layers (initial states and measurement not counted) in both reports, and the width is the number of registers.",
 ["programs"],"every gate sequence on every register list, measured or not",
 "One test looks at depth and width of one circuit with three gates.",
 [Q,OF,MO],[("merging rule","OperatorFlow.populate_opflow_test, Moment.replace_igate"),("depth","get_circuit_config, get_circuit_info")],["get_circuit_config()","get_circuit_info()","op_flow.peek()"])
p("C15","Gate statistics count every accepted gate exactly once by kind",
 "The circuit information reports, for each kind (x, h, z, cx, toffoli, custom), exactly the number of accepted placements of that kind, omits kinds that do not occur, and gives their sum as the gate count and the number of registers as the qudit count. Refused placements and merging into layers do not change the counts.",
 ["programs","histories"],"every history of accepted and refused placements",
 "No test calls the statistics.",
 [Q],[("counting over layers","QuantumCircuit.get_circuit_info")],["get_circuit_info()"])
p("C16","A QASM program builds the circuit its gate lines describe",
 "Parsing a QASM text or file yields a measured circuit that behaves exactly like the one built by placing, in order, one gate per gate line: X (optional increment), RX with angle 180 (an X), H, Z, CX or CNOT (optional signed increment) and three-operand Toffoli, with operands separated by blanks or commas. Comments, blank lines, indentation and letter case of one- and two-qudit gate names do not matter, register numbers may have several digits, and the requested backend is used.",
 ["programs","inputs"],"every program in the documented QASM dialect",
 "Tests parse four programs, one of which asserts its result and one compares a Toffoli that does not fire; none has comments, increments on CX, RX or two-digit registers.",
 [QP,Q],[("line recognition and operand extraction","circuit_from_qasm")],["circuit_from_qasm(...).run()","parse_qasm(...).run()","get_circuit_info()"])
p("C17","QASM declarations fix the registers, with one extra level per Toffoli middle",
 "The registers of a parsed circuit are the declared ones in order of declaration, with dimension 2 for qubit, 3 for qutrit and the given number for qudit declarations, all starting in |0>. A register that is the second operand of at least one Toffoli line gets exactly one additional level, however often it occurs, and no other register is changed.",
 ["programs","inputs"],"every declaration section and set of Toffoli lines",
 "One test has one Toffoli and compares one result.",
 [QP],[("declaration rewriting and Toffoli scan","circuit_from_qasm")],["circuit_from_qasm(...).run()","str()","get_circuit_config()"])
p("C18","Mixed-radix conversion is an order-preserving bijection",
 "For every list of bases, converting an index below the product of the bases to digits and back returns the index, digits are most significant first and below their base, and increasing the index steps through the digit strings in lexicographic order. A single integer base means that base in every position. The tables of all digit strings (the truth table of a CX and the combinations of a Toffoli) list each string once, in the order of their indices.",
 ["inputs"],"every list of bases and every index below their product",
 "Tests convert nine fixed values.",
 [UN,UL,G+"toffoli_utility.py"],[("digit extraction","Nbase_to_bin"),("positional sum","bin_to_Nbase"),("tables","ttg, generate_combinations, get_index")],["Nbase_to_bin","bin_to_Nbase","ttg","generate_combinations"])
p("C19","The text diagram shows every gate at its place",
 "The printed circuit has one row per register and one column per layer: rows start with the register's dimension and initial state, X shows its increment, controls are '*', targets of CX and Toffoli show their increment, registers crossed by such a gate show '|', H, Z and custom gates show their letter, measured registers end in M, idle places are dashes, and depth and width follow. Columns are aligned for dimensions and symbols of up to the documented width.",
 ["programs"],"every circuit; columns line up for dimensions up to 9",
 "No test prints a circuit.",
 [Q],[("cell matrix and padding","QuantumCircuit.__str__")],["str(circuit)"])
p("C20","The Matplotlib diagram shows every gate once, in order, on its register",
 "Drawing any circuit with at least one layer in the Matplotlib style succeeds and shows, from left to right over one or more figures, every gate once: X, CX and Toffoli targets labelled with increment and target dimension on the target's row (a CX between two qubits by its control-target line instead), H, Z and measurement by their letter, custom gates by G, controls joined to the target, and each register labelled with its dimension and initial state.",
 ["programs"],"every circuit with at least one layer after the initial states",
 "No test draws a circuit with Matplotlib.",
 [DR,Q],[("glyphs per gate kind","circuit_draw._draw_*"),("pagination","draw_circuit_mpl")],["draw('mpl')"])
p("C21","Layers pushed into an operator flow are executed completely and in order",
 "Pushing initial states, any number of complete layers (one or several per call, each with any number of gates) and measurements into an operator flow and executing it returns the layers applied in the order pushed to the initial state. It does not matter whether they are pushed or given to the constructor, nor which flows share them: the caller's Moments are never changed. No gate of any layer is dropped, and a push after measurement is refused with False.",
 ["programs","histories"],"every sequence of layers, split over calls in any way, and every sharing of Moments between flows",
 "Tests never use an operator flow directly; circuits push one layer with one gate per call.",
 [OF,MO],[("pushing and merging","OperatorFlow.populate_opflow"),("execution","OperatorFlow.exec")],["OperatorFlow.populate_opflow","OperatorFlow.exec"])
p("C22","The tree decomposition implements the n-qubit Toffoli",
 "For every n >= 3, the generated circuit of two-qudit gates, run on any binary input, flips the last qubit exactly when all other inputs are 1 and returns every other line to its input. The numbers of ternary and quaternary gates and of qubits, qutrits and ququarts match the closed formulas of the construction.",
 ["inputs","configurations"],"every number of lines and binary input",
 "The repository's decomposition tests draw a few random inputs and are not part of the suite that runs.",
 ["test_circuit/circuit.py","test_circuit/useQudiet.py","test_circuit/main.py",Q,G+"cx.py"],[("tree traversal and gate generation","Circuit.simulate, make_gates, get_reflection"),("translation to gates","RUN_CIRC, make_CNOT_gate")],["RUN_CIRC","Circuit.simulate()"])
p("C23","The batch runner records what each circuit file computes",
 "Running the batch script on a directory writes, next to each circuit file of the chosen kind in it or its subdirectories, one record holding the same result and configuration as parsing and running that file directly with the chosen backend. A file that cannot be parsed or run is reported and leaves no record, without preventing the others from being processed, and circuit files are never changed. Asked for the record files, the script prints each record and changes nothing.",
 ["configurations","fault_sequences"],"every directory of valid and broken circuit files, both CPU backends",
 "The batch script has no tests.",
 ["experimental.py",QP],[("per-file routine with exception handling","experimental.routine"),("recursive search","experimental.main")],["record files","script output"])
p("C24","A gate object tells truthfully what it is and does",
 "A gate object for any registers answers by what it stands for, on every backend and however often and in whatever order it and other gates are asked: its unitary is the matrix of its operation over the registers from the first to the last it touches (an initial state's is its column, a measurement has none, a custom gate whose matrix is not a unitary of that size raises an error), acting_on names the registers it acts on (controls before target), is_controlled is true of CX and Toffoli only, and is_single_qudit exactly of gates on one register. Making gates changes no list of the caller's, and changing a returned gate matrix changes no answer.",
 ["configurations","histories"],"every gate kind, register list, increment, control set and custom matrix, in every order of questions",
 "Tests never ask a gate object for anything; circuits use it through one path and one layer at a time.",
 [G+"quantum_gate.py",G+"x.py",G+"h.py",G+"z.py",G+"i.py",G+"cx.py",G+"toffoli_utility.py",G+"measurement.py",AG,IS],[("matrix of a gate","unitary"),("self-description","acting_on, is_controlled, is_single_qudit")],["unitary","acting_on","is_controlled","is_single_qudit"])
p("C25","Threads using the library at the same time do not disturb each other",
 "Calls made by several threads may overlap in time in any way. If the threads work on different circuits, even ones built from the same lists, output object or QASM document, or only run and inspect (other than with Matplotlib) a measured circuit they share, each call returns what it would have returned had its thread been alone, and every circuit ends in the state its own calls give it.",
 ["schedules","programs"],"every set of threads with their calls, and every way their calls overlap",
 "Tests use one thread; a call stopped between two particular lines while another one runs is never seen by chance.",
 [Q,OF,MO,OUT,QP,AG,G+"cx.py",G+"toffoli_utility.py",G+"h.py",BK+"NumpyBackend.py"],[("all state is kept per circuit","QuantumCircuit, OperatorFlow, Moment"),("run on copies of the layer list","OperatorFlow.exec"),("state of the parser is local to a call","circuit_from_qasm")],["QuantumCircuit methods","circuit_from_qasm"])
p("C26","A Moment answers for its registers, and filling it changes one idle place",
 "A Moment holding one complete layer of gates tells which gate acts on a register and where in its list, and whether a register is idle, whatever multi-qudit blocks stand before it. Filling it with a one-qudit gate puts that gate on the register if it is idle there and returns True; otherwise nothing changes and it returns False. Its matrix is that of the whole layer, a copy of it is independent of it, and asking, copying or pushing it into a flow does not change it.",
 ["histories","inputs"],"every layer of blocks on every register list, every history of questions, fillings, copies and pushes",
 "No test asks a Moment anything; circuits use it through one path that avoids layers with multi-qudit blocks.",
 [MO,OF],[("lookup by register","Moment.get_qreg_moment, check_igate_at_qreg"),("filling","Moment.replace_igate"),("tensor product","Moment.exec")],["Moment.peek_list","Moment.get_qreg_moment","Moment.check_igate_at_qreg","Moment.replace_igate","Moment.exec","OperatorFlow.exec"])
out=pathlib.Path(__file__).resolve().parent.parent/"properties.jsonl"
out.write_text("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
