import json
QCF="src/qudiet/core/quantum_circuit.py"; OF="src/qudiet/core/operator_flow.py"; MO="src/qudiet/core/moment.py"
SGD="src/qudiet/circuit_library/standard_gates/"; BE="src/qudiet/core/backend/"; OUT="src/qudiet/core/output.py"
QP="src/qudiet/qasm/qasm_parser.py"; NP="src/qudiet/utils/numpy.py"; DR="src/qudiet/utility/circuit_draw.py"
INI="src/qudiet/core/init_states.py"
def P(id,title,st,over,text,why,files,mech,obs,state=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    L.append(d)
L=[]
H=["histories","inputs"]
P("C01","The caller's data is never modified and never kept",
 "No operation of the package modifies an object the calling code passed in: the list of register dimensions, the list of initial states, operand lists and tuples of gates, and dimension lists keep their contents. Nothing the circuit later does depends on such an object: changing it after the call changes nothing in the circuit.",
 H,"every circuit construction and every gate call, for every argument value, after every earlier sequence of calls",
 "The tests build each circuit once with literals and never look at the arguments again; a stored alias shows only when the caller reuses or edits its list, which no sampled scenario does.",
 [QCF,MO,INI,SGD+"cx.py",SGD+"toffoli_utility.py",SGD+"quantum_gate.py"],
 [("constructor copies dimensions and initial states","QuantumCircuit.__init__"),("gates copy their operand lists","ArbitraryGate.__init__, CXGate.__init__, Toffoli.__init__")],
 ["caller's list before and after the call","circuit behaviour after the caller edits its list"])
P("C02","Running and inspecting a circuit never changes it",
 "Running, printing, drawing, summarising or otherwise inspecting a circuit leaves its registers, initial states and sequence of operations exactly as they were. Therefore running a measured circuit any number of times, with any inspections in between, gives the same result each time.",
 H,"every circuit, however it was built, and every interleaving of run and inspection calls",
 "Tests run each circuit once; a result that drifts or an inspection that drops a layer needs a second call on the same object.",
 [QCF,OF,MO,DR],[("operator flow is traversed on a copy","OperatorFlow.exec"),("drawing and census read only","QuantumCircuit.__str__, get_circuit_info, draw_circuit_mpl")],
 ["QuantumCircuit.run result","layer lists before and after"],[("layers","ordered list of layers of gates","OperatorFlow")])
P("C03","Circuits never influence one another",
 "Building, extending, running, drawing or parsing one circuit changes nothing that another circuit reads: no shared defaults, no class-level or module-level state is written. The result of a circuit depends only on that circuit's own description.",
 ["histories","programs"],"every program that uses several circuits, gates and backends in any order in one process",
 "Each test looks at one circuit in a fresh state; leakage through a mutable default, a cache or a class attribute needs two objects and a particular order.",
 [QCF,OF,MO,SGD,BE,QP],[("all state is created per instance","constructors"),("no writes to module globals or class attributes","whole package")],
 ["state reachable from classes, modules and defaults after any call"])
P("C04","The same circuit always gives the same result",
 "The result of a run is a function of the register dimensions, initial states, gates and backend alone. It does not depend on the clock, on random numbers, on the environment, on memory addresses or hash order, or on uninitialised storage.",
 ["inputs","configurations","schedules"],"every circuit, on every process run, platform hash seed and time of day",
 "A repeated test run shares the process, the seed and mostly the clock; dependence on hidden inputs shows up rarely and elsewhere.",
 [QCF,OF,BE,SGD,OUT],[("pure computation from description to result","OperatorFlow.exec, gate constructors, Output.__call__")],
 ["return value of run"])
P("C05","Gates take effect in the order they were added",
 "The state a circuit computes is the product of its gates in the order of the calls that added them: preparation first, then every gate after all gates added earlier that act on a common register, measurement last. Each gate call contributes exactly the gate that was asked for (kind, registers, shift), exactly once, and changes no earlier part of the circuit.",
 H,"every sequence of gate calls of every length on every register structure",
 "Order and merging of layers depend on the whole history; the tests contain a few short fixed circuits, most of which commute.",
 [QCF,OF,MO],[("placement of a gate into the last layer or a new one","QuantumCircuit.__add_moment_to_opflow"),("layers multiplied in order","OperatorFlow.exec")],
 ["layer lists after each gate call","state handed to the output stage"],[("layers","ordered list of layers of gates","OperatorFlow")])
P("C06","Every layer covers every register exactly once",
 "At every moment, each layer of a circuit holds for each register exactly one operator, in ascending register order; a multi-register gate stands for the contiguous block of registers from its lowest to its highest operand. Registers that no gate of the layer touches hold an identity of exactly that register's dimension.",
 H,"every register structure and every sequence of gate calls",
 "A wrong padding dimension or position is only visible for mixed dimensions and particular operand orders; tests sample a handful.",
 [QCF,MO,SGD],[("padding with identities","QuantumCircuit.__add_moment_to_opflow"),("first layer and measurement layer","QuantumCircuit constructor, measure_all")],
 ["layer lists after each call"])
P("C07","Measurement seals a circuit; only a measured circuit runs",
 "A circuit that has not been measured refuses to run, whatever gates it has. Once it is measured no further gate or measurement can be added: the attempt is reported as refused and changes nothing, and the circuit still runs.",
 ["histories"],"every sequence of gate, measure and run calls in any order",
 "This is a protocol over call sequences; tests only follow the intended order.",
 [QCF,OF],[("refusal after measurement","OperatorFlow.populate_opflow"),("refusal before measurement","OperatorFlow.exec")],
 ["return value or exception of gate calls and run"])
P("C08","A refused operation leaves the circuit untouched and is reported",
 "A gate call that raises or reports failure leaves the circuit exactly as it was, so that continuing with it gives the result as if the call had never been made. A call that did not add its gate never reports success, and a call that added it reports success.",
 ["histories","inputs","fault_sequences"],"every gate call with every argument, accepted or refused, at every point of every history",
 "Partial effects of a failing call are invisible unless the same circuit is used afterwards; tests stop at the exception.",
 [QCF,OF,MO],[("validation before modification","QuantumCircuit gate methods"),("boolean result of placement","OperatorFlow.populate_opflow")],
 ["layer lists after a failing call","return value"])
P("C09","Registers that do not exist or repeat are rejected",
 "A gate call is accepted only if every register it names is an index from 0 to the number of registers minus one and no register is named twice; every other call raises. A call with legal, distinct registers is never rejected because of them, whatever their order.",
 ["inputs"],"every integer or list of integers as operands, on every register structure",
 "Negative, equal and out-of-range operands in every position and order form an unbounded space; Python's negative indexing makes many of them silently work.",
 [QCF],[("operand validation","QuantumCircuit.__validate_gate_inputs, __add_moment_to_opflow")],["exception or acceptance of the call"])
P("C10","Impossible dimensions and initial levels are rejected",
 "A circuit is only built if every register has at least two levels, no more initial levels are given than there are registers, and every initial level lies between 0 and its register's dimension minus one; otherwise construction raises. In a circuit that is built, every register starts in exactly the level asked for, and in level 0 where none was given.",
 ["inputs","configurations"],"every list of dimensions and every list of initial levels",
 "Tests use valid levels only; an off-by-one at the upper level or a negative level silently selects another basis state.",
 [QCF,INI],[("validation of level and dimension","InitState.__init__"),("padding with level 0","QuantumCircuit.__init__")],["exception or first layer of the circuit"])
P("C11","(n, d) means n registers of dimension d",
 "A circuit built from a pair (n, d) is indistinguishable from one built from the list containing d exactly n times; a list is always taken as the dimensions themselves, also when it has two elements.",
 ["inputs","configurations"],"every n, every d and every list of dimensions",
 "Both spellings coincide for particular values such as (2, 2); tests never compare the two forms.",
 [QCF],[("expansion of the shorthand","QuantumCircuit.__init__")],["registers, layers and results of both circuits"])
P("C12","A circuit computes only with the backend that was selected",
 "Every state preparation, gate matrix, tensor product and matrix product of a circuit is done by the backend the caller selected, also when the circuit comes from a QASM file; the default backend is used only when none was selected. Gates added later use the same backend as the circuit.",
 ["configurations","inputs"],"every backend, including user-defined ones, every gate and every way of building a circuit",
 "All built-in backends give equal numbers, so using the wrong one passes every numerical test.",
 [QCF,OF,MO,SGD,BE,QP],[("backend passed to every gate and to the traversal","QuantumCircuit gate methods, OperatorFlow.exec, Moment.exec, circuit_from_qasm")],
 ["backend methods reached from run"])
P("C13","All backends implement the same operations",
 "Each backend offers the same set of operations, and the same operation with the same arguments describes the same mathematical array on every backend (dense or sparse, CPU or GPU). A circuit's result therefore does not depend on which backend is selected.",
 ["configurations","inputs"],"every operation of every backend, including the GPU ones that cannot run on the test machine, for all dimensions",
 "GPU backends are never executed by the tests; each backend is a separate copy of the code that can drift in one branch.",
 [BE+"NumpyBackend.py",BE+"SparseBackend.py",BE+"CUDABackend.py",BE+"CUDASparseBackend.py",BE+"core.py"],[("parallel implementations","backend modules")],["arrays returned by the operations"])
P("C14","Without a GPU the package still works and says so clearly",
 "Without the GPU library installed, importing the package and using the CPU backends works, because the GPU library is only touched by the GPU backends. Selecting a GPU backend without the library fails with an error rather than computing something else.",
 ["configurations"],"every module import and every public entry point on a machine with no GPU library",
 "A test machine has one configuration; whether an import path reaches the GPU library is a whole-program fact.",
 [BE,"src/qudiet/__init__.py"],[("guarded import","CUDABackend.py, CUDASparseBackend.py, backend/__init__.py")],["imports performed on each entry path"])
P("C15","Custom gates must be unitary and of the right size",
 "A user-defined gate takes part in a computation only if its matrix was checked to be unitary and to have exactly the size of the registers it acts on; otherwise an error is raised before any result is produced.",
 ["inputs","programs"],"every user-defined gate class, every matrix and every combination of register dimensions",
 "Tests use one good gate; a missing or weakened check only matters for bad ones.",
 [SGD+"quantum_gate.py",MO,"src/qudiet/utils/linalg.py"],[("unitarity and size check","ArbitraryGate.unitary"),("unitarity test","is_unitary")],["matrix used by the traversal, exceptions"])
P("C16","Controlled gates fire exactly when every control is at its top level",
 "A controlled shift adds its amount, modulo the target's dimension, to the target level exactly when every control register is at its highest level, and changes nothing otherwise. This holds for any number of controls, wherever controls and target lie relative to each other and whatever dimensions the registers between them have.",
 ["inputs","configurations"],"every choice of control and target positions, all dimensions, all shifts",
 "The tests cover a few placements on qubits and qutrits; the rule must hold for all mixed dimensions and orders.",
 [SGD+"cx.py",SGD+"toffoli_utility.py"],[("matrix construction of CX","CXGate"),("row selection of the multi-controlled gate","toffoli_dm")],["matrix of the gate"])
P("C17","The shift gate adds its amount modulo the dimension",
 "The shift gate maps level i to level (i + amount) modulo the dimension of its register, for every integer amount including zero, negative ones and ones larger than the dimension.",
 ["inputs"],"every dimension and every integer amount","Tests use amounts 1 and 2 on small dimensions; wrap-around and direction differ only beyond them.",
 [SGD+"x.py",BE],[("permutation matrix","XGate"),],["matrix of the gate"])
P("C18","Fourier and phase gates use the register's own root of unity",
 "The Fourier gate of a d-level register has entries exp(2*pi*i*j*k/d)/sqrt(d) and the phase gate is diagonal with entries exp(2*pi*i*k/d), for every dimension d. For qubits they reduce to the usual Hadamard and Z gates.",
 ["inputs"],"every dimension","For d = 2 most wrong formulas coincide with the right one; tests use small d and real results.",
 [SGD+"h.py",SGD+"z.py"],[("matrix entries","HGate, ZGate")],["matrix of the gate"])
P("C19","Reported values are the amplitudes or their squared moduli",
 "With amplitudes selected, every reported value is the amplitude of that basis state unchanged, including its complex phase; with probabilities selected it is the squared modulus. The value belongs to the basis state it is reported with.",
 ["inputs"],"every final state, every output type and method, every backend","Tests look at real non-negative amplitudes where the wrong formulas coincide.",
 [OUT],[("value selection","Output.__call__")],["value in the reported distribution"])
P("C20","Every state with non-zero amplitude is reported once, digits in register order",
 "The report lists every basis state with non-zero amplitude exactly once and no other. Each is written with one digit per register, in register order with the first register most significant, each digit below its register's dimension.",
 ["inputs","configurations"],"every final state and every list of (mixed) dimensions","Digit order and padding are only visible for mixed dimensions and asymmetric states.",
 [OUT,NP],[("enumeration of non-zero entries","Output.__call__"),("mixed-radix digits","Nbase_to_bin")],["keys of the reported distribution"])
P("C21","No QASM instruction is silently dropped",
 "Parsing a QASM text either adds, for every instruction line between begin and end, in the order of the lines, the gate that line names, and nothing else, followed by one measurement; or it raises an error. Comments, blank lines and indentation do not matter.",
 ["inputs","programs"],"every QASM text","Every test file uses a fixed subset of instructions; an ignored one yields a plausible but wrong circuit.",
 [QP],[("instruction dispatch","circuit_from_qasm")],["sequence of gate calls made for a text"])
P("C22","QASM operands reach the right gate parameters",
 "In a parsed instruction the register numbers become the gate's registers in their written roles (controls first, target last) and an optional trailing number becomes the shift amount, 1 when absent. An amount is used only for gates that take one and an angle is never taken for an amount.",
 ["inputs","programs"],"every instruction with every operand","Swapped operands coincide with the right ones on symmetric inputs.",
 [QP],[("operand extraction","circuit_from_qasm")],["arguments of the gate calls made for a text"])
P("C23","QASM registers get their declared dimensions",
 "Each register of a parsed circuit has exactly the dimension declared for its index, independent of the order of the declarations; a register declared as qubit has 2 levels and as qutrit 3. A register used as the intermediate control of a three-operand Toffoli instruction is enlarged by one level.",
 ["inputs","programs"],"every declaration section","Files used in tests declare registers in ascending order and mostly with equal dimensions.",
 [QP],[("declaration parsing","circuit_from_qasm")],["dimensions of the parsed circuit"])
P("C24","The gate census counts every gate exactly once by kind",
 "The summary of a circuit counts every gate that was added exactly once under its own kind, and nothing else: identities, preparation and measurement are not counted. The total is the number of gates added, and kinds that do not occur are not listed.",
 H,"every circuit with any mix of gate kinds, including user-defined gates","Tests do not check the summary for mixed circuits; subclass relations between gate kinds make double counting easy.",
 [QCF],[("counting by gate kind","QuantumCircuit.get_circuit_info")],["summary dictionary"])
P("C25","Drawings show every gate on the right wires",
 "The printed drawing has one row per register, labelled with that register's dimension and initial level, and every gate appears in its layer's column on exactly the registers it acts on: controls marked as controls, the target with its shift amount. Drawing works for every circuit that can be built.",
 H,"every circuit with any mix of gates and operand orders","Drawings are never compared by the tests; swapped control and target look plausible.",
 [QCF,DR],[("text drawing","QuantumCircuit.__str__"),("figure","draw_circuit_mpl")],["printed text"])
P("C26","Checking licence headers never modifies a file",
 "The licence header script in checking mode opens files for reading only and reports a missing header through its exit status; only the mode that was asked to insert headers writes files.",
 ["inputs","configurations"],"every set of files and every combination of options","The script is not tested at all.",
 ["scripts/license-headers.py"],[("mode dispatch","scripts/license-headers.py")],["file opens reachable in checking mode"])
P("C27","A failing QASM file does not stop or distort a batch run",
 "The batch runner processes every file it was given: an error in one file is reported for that file and the remaining files are still run, and each recorded result belongs to the file it names.",
 ["fault_sequences","inputs"],"every set of input files with any failing subset","The runner is not tested; failures in the middle of a batch are never exercised.",
 ["experimental.py"],[("per-file isolation","routine")],["records written per file"])
P("C28","A kilo-entry basis index round-trips through its digits",
 "Converting a basis index to mixed-radix digits and back gives the same index, and converting valid digits to an index and back gives the same digits, for every list of dimensions.",
 ["inputs"],"every list of dimensions and every index below their product","Tests sample a few conversions.",
 [NP],[("digit conversion","Nbase_to_bin, bin_to_Nbase")],["return values"])
P("C29","Results are accurate to floating-point precision",
 "The computed amplitudes differ from the exact ones by no more than accumulated rounding error, so that normalised states stay normalised for circuits of any depth.",
 ["inputs","histories"],"every circuit of any depth","Rounding accumulates with depth; tests use shallow circuits.",
 [OF,BE],[("matrix products","OperatorFlow.exec")],["amplitudes"])
L[-2]["title"]="Basis indices round-trip through their digits"
with open('/verif/properties.jsonl','w') as f:
    for d in L: f.write(json.dumps(d)+"\n")
