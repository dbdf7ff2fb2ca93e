"""Writes properties.jsonl and MANIFEST.json from the table below.

    python3 tools/make_docs.py

Not used by the checks; it keeps the two files in step."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
Q = "src/qudiet/core/quantum_circuit.py"
FLOW = "src/qudiet/core/operator_flow.py"
MOM = "src/qudiet/core/moment.py"
INIT = "src/qudiet/core/init_states.py"
OUT = "src/qudiet/core/output.py"
GATES = "src/qudiet/circuit_library/standard_gates/"
ARB = "src/qudiet/circuit_library/__init__.py"
QASM = "src/qudiet/qasm/qasm_parser.py"
MPL = "src/qudiet/utility/circuit_draw.py"
BACK = "src/qudiet/core/backend/"
UN = "src/qudiet/utils/numpy.py"
UL = "src/qudiet/utils/linalg.py"

P = []


def prop(id, title, statement, over, text, tests, files, mechanism, observe, technique, note,
         state=()):
    P.append(dict(
        row={
            "id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": tests,
            "anchors": {
                "files": files,
                "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
                "observe_at": observe,
                "hook_needed": None,
            },
        },
        technique=technique, note=note))


prop("C01", "A measured circuit yields the ideal final state vector",
     "For every circuit of H, X, Z, CX, Toffoli and custom unitary gates on registers of any dimensions >= 2 "
     "and any initial basis state, run() returns exactly the amplitudes that quantum mechanics prescribes for "
     "the gates applied in program order, each under the label of its basis state (register 0 most "
     "significant), in ascending basis order.  Every amplitude that is not listed is zero.",
     ["programs", "inputs", "configurations"],
     "all register lists, initial states, gate sequences and both CPU backends",
     "The tests run about ten fixed circuits, mostly on two or three registers; most gate/dimension/placement "
     "combinations, deep circuits and gates spanning other registers are never run.",
     [Q, FLOW, MOM, INIT, OUT, GATES],
     [("layers multiplied last to first", FLOW + ":exec"), ("kronecker product of a layer", MOM + ":exec"),
      ("gate placement", Q + ":__add_moment_to_opflow"), ("gate operators", GATES)],
     ["QuantumCircuit.run()"],
     "property-based testing: random circuits against an independent tensor simulator",
     "Search over random circuits (up to about 9 registers, dimensions up to 16, 40 gates); trusts the "
     "200-line reference simulator and numpy; amplitudes compared to 1e-10.",
     [("operator flow", "ordered layers of gates", FLOW)])

prop("C02", "Standard gates are the generalized Pauli/Hadamard/controlled operators",
     "For every dimension d >= 2: H has entries w^(jk)/sqrt(d), Z is diag(w^j), X(p) maps |j> to |j+p mod d> "
     "for every integer p (w = exp(2 pi i/d)).  CX(p) and Toffoli(p) add p modulo the target's dimension to the "
     "target exactly when every control is in its highest level, for any number of controls and any relative "
     "position of controls and target, also when other registers lie between them.  All of them are unitary and satisfy "
     "the algebra H^4 = X^d = Z^d = CX(p)^d = 1, X(p)X(q) = X(p+q), H^-1 Z H = X or its inverse.",
     ["inputs", "configurations"],
     "all dimensions, increments (negative, zero and larger than d included), control/target placements, control counts",
     "The tests use dimensions 2-5 for a few gates with plus=1 or 2 and never look at phases.",
     [GATES + "h.py", GATES + "x.py", GATES + "z.py", GATES + "cx.py", GATES + "toffoli_utility.py", UL, UN],
     [("H from powers of the root of unity", GATES + "h.py:unitary"), ("circulant X", GATES + "x.py:unitary"),
      ("truth table driven CX", GATES + "cx.py:unitary"), ("truth table driven Toffoli", GATES + "toffoli_utility.py:toffoli_dm")],
     ["amplitudes of one-gate circuits started in every basis state"],
     "property-based testing: operators reconstructed column by column against closed forms and algebraic laws",
     "Every dimension 2..32 of H and Z is enumerated in each run, the rest is sampled; operators are "
     "rebuilt through the public circuit API.")

prop("C03", "All backends compute the same thing",
     "The same circuit gives the same states and amplitudes on every backend, a circuit computes with the backend it is given, and every backend operation "
     "(kron, dot, eye, matrix, nonzero, is_unitary) agrees with dense linear algebra.",
     ["programs", "configurations", "inputs"],
     "all circuits and matrices x {Numpy, Sparse, CUDA, CUDASparse}",
     "Two tests run one classical circuit each on one CPU backend; the CUDA backends cannot be imported without a GPU.",
     [BACK + "NumpyBackend.py", BACK + "SparseBackend.py", BACK + "CUDABackend.py", BACK + "CUDASparseBackend.py", BACK + "__init__.py"],
     [("backend interface", BACK + "core.py"), ("backend passed to every gate", Q)],
     ["QuantumCircuit(backend=...).run()", "Backend.kron/dot/eye/matrix/nonzero/is_unitary"],
     "property-based differential testing of the four backends against each other and numpy",
     "The CUDA backends run on stand-ins for cupy/cupyx made of numpy/scipy, so their Python code is exercised "
     "and cupy itself is trusted.")

prop("C04", "Every circuit is reversible, norm preserving and linear",
     "Appending the inverse of every gate of a circuit in reverse order brings back the initial basis state "
     "with amplitude 1, probabilities sum to 1 after every prefix of a circuit, and different initial basis states are taken to "
     "orthogonal final states.",
     ["programs", "inputs"],
     "all circuits, all initial states",
     "No test runs an inverse or looks at the norm; several assert True.",
     [Q, FLOW, MOM, GATES],
     [("unitary gate operators", GATES), ("layer order", FLOW + ":exec")],
     ["QuantumCircuit.run()"],
     "property-based metamorphic testing: circuit followed by its inverse; norm and inner products",
     "No reference simulator involved; the inverses come from the algebra (X(-p), H three times, Z d-1 times, adjoint).")

prop("C05", "Output formats describe the same state",
     "For one circuit, label/tuple output and amplitude/probability output list the same basis states in ascending order: the "
     "tuple holds the level of each register in register order, the label is '|' + those levels + '>', and the "
     "probability is |amplitude|^2 of the complex amplitude, real, in [0, 1] and summing to 1.  The default output is labels with amplitudes.",
     ["programs", "configurations", "inputs"],
     "all circuits x output types x output methods, and all state vectors handed to an Output",
     "The tests only use label output with real amplitudes.",
     [OUT, UN, Q],
     [("digit expansion of an index", UN + ":Nbase_to_bin"), ("Output.__call__", OUT)],
     ["QuantumCircuit(output=Output(...)).run()", "Output(...)(vector)"],
     "property-based metamorphic testing: the four output formats against each other and the state vector",
     "Labels of registers with more than 10 levels are compared as text; they are ambiguous by design.")

prop("C06", "Mixed-radix conversions are exact inverses and order preserving",
     "Converting an index to digits of a mixed base (first digit most significant, one digit per base entry) and "
     "back gives the index, digits to index and back gives the digits, and counting up visits the digit tuples in lexicographic "
     "order.  The generated truth table lists every digit tuple exactly once in that order, and looking a tuple up in it returns its index.",
     ["inputs"],
     "all bases (lists of integers >= 2, or one integer) and all indices in range",
     "Two tests convert three or four numbers each.",
     [UN, UL],
     [("bin_to_Nbase", UN), ("Nbase_to_bin", UN), ("get_index", UN), ("ttg", UL)],
     ["qudiet.utils.numpy", "qudiet.utils.linalg.ttg"],
     "property-based round-trip testing against Python integers and itertools.product",
     "Indices stay below 2^62, where the code uses 64-bit integers.")

prop("C07", "Layering changes depth only; depth and gate counts are exact",
     "How gates are packed into layers never changes the result: swapping neighbouring gates on disjoint registers, or "
     "forcing every gate into a layer of its own, leaves run() unchanged.  The depth is the "
     "number of layers in which a single-register H, X or Z joins the latest layer when its register is idle there, "
     "every other gate opens a layer and occupies all registers from its lowest to its highest, and measurement does not count; "
     "the gate counts by kind are the numbers of gates that were added, and both reports give the same depth once the circuit is measured.",
     ["programs", "schedules"],
     "all gate sequences and all orders of independent gates",
     "One test checks the depth of one three-gate circuit.",
     [FLOW, MOM, Q],
     [("replace an idle position", FLOW + ":populate_opflow_test"), ("replace_igate", MOM), ("get_circuit_config/get_circuit_info", Q)],
     ["get_circuit_config()", "get_circuit_info()", "run()"],
     "property-based testing: commuting swaps and layer barriers (metamorphic), depth and counts against a scheduling model",
     "The depth model is 8 lines; random circuits up to about 40 gates.",
     [("operator flow", "list of layers", FLOW)])

prop("C08", "Registers are interchangeable and idle registers are inert",
     "Renaming registers (permuting dimensions, initial states and every gate's registers) permutes the digits of every "
     "reported basis state and changes nothing else.  Inserting a register no gate uses, at any position and in any "
     "initial level, only inserts that level into every reported basis state.",
     ["programs", "inputs"],
     "all circuits of H, X, Z, CX, Toffoli and single-register custom gates, all permutations and insertion points",
     "Tests place gates on fixed registers; one reversed CX is tried.",
     [Q, GATES + "cx.py", GATES + "toffoli_utility.py", MOM],
     [("placement of gates among idle registers", Q + ":__add_moment_to_opflow"), ("position-relative truth tables", GATES)],
     ["run()"],
     "property-based metamorphic testing: register permutation and spectator insertion",
     "No reference simulator involved.")

prop("C09", "Running and inspecting a circuit has no side effects",
     "Running a measured circuit any number of times, and printing, drawing or querying it at any moment, gives the "
     "same answers every time and never changes later answers; changing a returned result "
     "or report does not change what the circuit returns next.",
     ["histories", "programs"],
     "all interleavings of gate additions, run, str, draw, get_circuit_config, get_circuit_info, print_opflow_list",
     "A comment in run() reports that answers once changed on each run; no test runs a circuit twice.",
     [Q, FLOW, MPL],
     [("run works on a copy of the layer list", FLOW + ":exec")],
     ["run()", "str()", "draw()", "get_circuit_config()", "get_circuit_info()"],
     "stateful property-based testing: random histories against a fresh, uninspected circuit",
     "Results compared exactly up to 1e-12.")

prop("C10", "Circuits do not influence each other or their arguments",
     "Any number of circuits built in any interleaving, sharing register lists, initial-state lists, register "
     "arguments, gate classes and backends, behave as if each were alone, and circuits never modify the objects passed to them.  Changing "
     "such a list after it was passed does not change the circuit.  The same holds for circuits built and run in several threads at once.",
     ["histories", "schedules", "configurations"],
     "all interleavings of construction, gate addition, argument mutation and runs of several circuits",
     "Every test builds one circuit from literal arguments.",
     [Q, OUT, FLOW, GATES],
     [("defensive copies", Q + ":__init__"), ("per-circuit operator flow", Q)],
     ["run()", "str()", "the argument objects"],
     "stateful property-based testing: interleaved circuits against stand-alone reference runs",
     "Two to four circuits per history.")

prop("C11", "A circuit runs exactly when it is measured, and is frozen then",
     "run() raises until measure_all() has been called and succeeds ever after; from then on adding a gate "
     "returns False and changes nothing (result, drawing, depth, counts), while before that every valid addition returns True.  "
     "measure_all() always returns True and repeating it changes nothing, measuring a single register is refused without effect, and circuit_output is the latest result (None before).",
     ["histories"],
     "all sequences of gate additions, measure_all, measure, run and queries",
     "Tests always add gates, measure once and run once.",
     [Q, FLOW],
     [("measurement counters", FLOW + ":populate_opflow_test"), ("assertion in exec", FLOW + ":exec")],
     ["return values", "exceptions", "run()", "circuit_output"],
     "stateful property-based testing against a two-state model",
     "Random histories of up to about 25 steps.",
     [("measurement count", "which registers are measured", FLOW)])

prop("C12", "Impossible requests are refused without side effects",
     "A gate on a register the circuit does not have (negative or too large), a controlled gate that names a register twice, a gate dimension larger than the register, an "
     "initial level outside 0..d-1, more initial levels than registers, a dimension below 2 and registers that are neither a list nor a tuple of two integers raise an exception.  A refused gate "
     "leaves the circuit as it was: the rest of the program behaves as if the request had not been made.  A gate dimension smaller than the register's and a CX on other than two registers "
     "raise an exception no later than run().",
     ["inputs", "histories"],
     "all invalid register numbers, duplicates, dimensions and initial levels at every point of every program",
     "No test makes an invalid request.",
     [Q, INIT],
     [("bounds checks", Q + ":__validate_gate_inputs"), ("duplicate check", Q + ":__validate_controls"), ("state check", INIT)],
     ["exceptions", "run()", "str()", "get_circuit_info()"],
     "property-based fault injection: invalid requests planted in valid programs",
     "Only integer arguments; types other than integers are outside the domain.")

prop("C13", "Custom gates are applied if and only if they are unitary and fit",
     "A custom gate whose matrix is unitary and has the size of the registers it is placed on acts on those "
     "registers as exactly that matrix, whatever its entries, and the matrix is not modified; its class is given these registers, their dimensions and the circuit's backend.  A matrix that is not unitary or has another size never contributes to "
     "a result: an exception is raised no later than run().",
     ["inputs", "programs"],
     "all matrices, all runs of consecutive registers, all positions in a circuit",
     "One test applies one hand-written qutrit matrix.",
     [ARB, Q, BACK],
     [("unitarity and size check", ARB + ":unitary"), ("is_unitary", BACK)],
     ["gate()", "run()"],
     "property-based testing: random unitaries against the reference simulator, near-miss matrices must be refused",
     "Non-unitary examples differ from unitary by at least 1e-3; registers of one gate are consecutive and ascending.")

prop("C14", "A QASM program is the circuit it spells out",
     "Loading a QASM program gives the circuit whose registers, gates, order, increments and initial levels (all 0) are "
     "those written in it, measured at the end: same drawing, depth, gate counts and result as building it through the API.  Header text, "
     "comments, blank lines, indentation, line endings, declaration order, gate-name case, the declared register "
     "count and file versus string loading make no difference.",
     ["programs", "inputs"],
     "all programs over X, RX 180, H, Z, CX, CNOT, Toffoli with qubit, qutrit and qudit declarations, all layouts, both backends",
     "Three tests parse four fixed programs; two of them end in 'assert True'.",
     [QASM, Q],
     [("section splitting", QASM), ("register table", QASM), ("statement dispatch", QASM)],
     ["parse_qasm", "circuit_from_qasm", "run()", "str()", "get_circuit_info()"],
     "grammar-based property testing: random programs in random layouts against the API and a reference simulator; slices of the shipped testbench programs",
     "The grammar covers every statement form found in README, tests and testbench.")

prop("C15", "No QASM statement is skipped or misread",
     "A QASM program in which some statement or declaration is malformed (unknown or misspelled gate, missing, surplus or "
     "garbled operand, unknown or repeated register, missing section, unnumbered or duplicate declaration) is refused with an exception; it is never loaded as a circuit that "
     "does something else.",
     ["inputs", "programs"],
     "all single-fault mutations of valid programs",
     "No test feeds the parser anything malformed.",
     [QASM, Q],
     [("statement grammar", QASM), ("register checks", Q)],
     ["parse_qasm", "circuit_from_qasm"],
     "grammar-based mutation fuzzing with a refusal oracle",
     "Mutations are constructed so that the result is malformed under any reading of the documented grammar.")

prop("C16", "QASM Toffolis raise their second control by one level, once",
     "In a QASM program the second control of every Toffoli statement gets exactly one extra level, however many Toffolis name it, and no other "
     "register changes dimension; everything in the program then refers to the adjusted registers (controls fire on the new "
     "highest level, X and increments wrap at the new dimension).",
     ["programs", "inputs"],
     "all programs with one or more Toffoli statements, with every overlap of controls and targets",
     "test_parser_2 prints one such circuit and asserts nothing about the levels.",
     [QASM, GATES + "toffoli_utility.py"],
     [("promotion", QASM)],
     ["run()", "str()"],
     "grammar-based property testing against an independent reading of the program",
     "Includes Toffolis with commas and spaces, ten and more registers.")

prop("C17", "The text drawing shows exactly the circuit",
     "The printed circuit can be read back: one line per register with its dimension and initial level, and one column per "
     "layer showing H, Z, X(p) for X gates, * on controls, X(p) on targets, | on registers a controlled gate crosses, M on every register once measured, and nothing "
     "elsewhere; depth and width are stated below.  draw() prints the same text.",
     ["programs"],
     "all circuits of H, X, Z, CX and Toffoli gates, measured or not",
     "One test prints circuits; nothing is compared.",
     [Q],
     [("__str__", Q)],
     ["str(circuit)", "draw()"],
     "property-based round-trip testing: the drawing is parsed back and compared with the scheduled program",
     "Custom gates are not part of the text drawing and are left out.")

prop("C18", "The Matplotlib drawing shows exactly the circuit",
     "draw('mpl') succeeds for every circuit and draws every gate exactly once, on its registers (controls, crossed registers and "
     "target), with its kind, increment and target dimension (the circled plus of a CNOT only between qubits and for odd increments), in layer order from left to right and figure to figure, after the initial level and dimension of every register, "
     "and a measurement on every register once measured, none over another; the compress factor changes only the number of figures (a higher one gives fewer).",
     ["programs", "configurations"],
     "all circuits (custom gates included) and compress factors",
     "No test draws with Matplotlib.",
     [MPL, Q],
     [("draw_circuit_mpl", MPL), ("per-gate drawing", MPL)],
     ["artists of the figures handed to plt.show()"],
     "property-based testing: figure artists decoded and compared with the scheduled program",
     "Agg backend; plt.show() is intercepted to collect the figures.")

prop("C19", "(length, dimension) registers equal the spelled-out list",
     "A circuit on (n, d) registers behaves in every respect as one on the list of n registers of dimension d: same acceptance of "
     "gates and initial states, same drawings, reports and results.",
     ["programs", "configurations"],
     "all n, d, initial states and gate sequences",
     "One test builds a tuple circuit with H gates only.",
     [Q, OUT],
     [("expansion of the tuple", Q + ":__init__")],
     ["run()", "str()", "get_circuit_config()", "get_circuit_info()"],
     "property-based differential testing of the two spellings",
     "Every valid and some invalid gate requests are made on both.")

prop("C20", "The multi-controlled-X tree computes the AND of its inputs",
     "For every number of inputs n >= 3 and every assignment of the inputs, the generated qudit tree circuit flips the target exactly when all "
     "inputs are 1 and restores every input; every input stays within the levels of its register throughout, each line is exactly one of qubit, "
     "qutrit and ququad, and the reported numbers of ternary and quaternary gates match the gates that were generated.",
     ["programs", "inputs"],
     "all n, all 2^n inputs",
     "Nothing tests this tool.",
     ["test_circuit/circuit.py", "test_circuit/useQudiet.py", Q, GATES + "cx.py"],
     [("tree construction", "test_circuit/circuit.py"), ("execution", "test_circuit/useQudiet.py")],
     ["RUN_CIRC", "Circuit.simulate"],
     "property-based testing: truth table of the generated circuit against AND",
     "The real simulator is used for small n; for large n QuantumCircuit is replaced by a classical stand-in.")

prop("C21", "The batch runner saves the true result of every runnable program",
     "Run on a directory, the batch runner writes next to every runnable QASM file a result holding what running that program on the "
     "chosen backend gives, its configuration and the times loading and running took; reading results back shows them; a program that cannot be run is reported and neither stops the others nor leaves a result behind.  An unknown backend is refused before anything is written.",
     ["configurations", "fault_sequences", "inputs"],
     "all directory trees mixing valid and broken programs, all modes and backends",
     "Nothing tests this tool.",
     ["experimental.py", QASM],
     [("routine", "experimental.py"), ("main", "experimental.py")],
     ["files written", "warnings", "exit"],
     "property-based testing with injected broken programs in a scratch directory",
     "Runs in a temporary directory; timings in the result file are only checked to be non-negative.")

prop("C22", "The license tool adds its header and harms nothing else",
     "scripts/license-headers.py in fix mode puts the current license header into every .py and .pyi file below the given files and directories "
     "that lacks the complete header, after leading interpreter and encoding lines, and leaves every other line of those files and every other file "
     "unchanged; files in directories whose name starts with a dot or two underscores are left alone.  Check mode changes nothing, lists exactly the files fix mode "
     "would change and fails exactly when there are some; after fix, check succeeds and another fix changes nothing.",
     ["inputs", "configurations", "histories"],
     "all trees of files, header states, sources on the command line and sequences of runs",
     "Nothing tests this tool, which rewrites source files in place.",
     ["scripts/license-headers.py"],
     [("which files", "scripts/license-headers.py:does_file_need_fix"), ("insertion", "scripts/license-headers.py:add_header_to_file")],
     ["the files", "exit status", "printed list"],
     "stateful property-based testing: random trees and sequences of runs against a byte-by-byte model",
     "Runs in a temporary directory; UTF-8 files with Unix line endings.")

prop("C23", "Large reversible circuits are tracked exactly",
     "For circuits of X, CX and Toffoli gates on many registers, run() on the sparse backend returns exactly one basis "
     "state, with amplitude 1, which is the one modular arithmetic on the levels gives.",
     ["programs", "inputs"],
     "all classical circuits, up to hundreds of gates and a state space of tens of thousands",
     "Only two such circuits (arithmetic benchmarks) are run by the tests, with fixed inputs.",
     [Q, FLOW, MOM, GATES, BACK + "SparseBackend.py"],
     [("sparse layer products", FLOW + ":exec"), ("truth table driven CX and Toffoli", GATES)],
     ["run()"],
     "property-based testing at scale against integer arithmetic on levels",
     "State spaces up to 140,000, 17 registers and 60 gates in the quick tier, 400,000 in the thorough one.")

prop("C24", "Shipped benchmark programs compute what they spell out",
     "Each shipped program that fits in memory (below testbench/, and test.qasm), or any stretch of its statements, "
     "behind statements that prepare any basis state or superposition as its input, loads and runs on every CPU backend to the state that doing "
     "its statements one by one on the levels gives; followed by its inverse it restores the input.",
     ["inputs", "programs", "configurations"],
     "all inputs of the shipped programs, all stretches of them",
     "The tests run one program file, on the all-zero input.",
     [QASM, Q, FLOW, MOM, GATES, BACK],
     [("statement dispatch", QASM + ":circuit_from_qasm"), ("layer products", FLOW + ":exec"), ("controlled gates", GATES)],
     ["circuit_from_qasm()", "parse_qasm()", "run()"],
     "property-based testing of a corpus under generated inputs; level-by-level execution and inverse programs as oracles",
     "28 programs of up to 1,100 states, stretches of 6 more of up to 40,000; statements are read by an independent reader.")

prop("C25", "Gate objects and layers say truthfully what they are",
     "Every object of the gate library (H, X, Z, identity, CX, Toffoli, custom classes, measurement, initial state) made directly gives, as "
     "often as it is asked and on every backend, the operator defined for its dimensions, registers and increment, the registers it acts on, "
     "and whether it is controlled or acts on a single register; a custom operator of the wrong size on one or two registers is refused.  The layers of a circuit (op_flow.peek(), peek_list()) are the initial states, "
     "then each gate exactly once in the layer the layering rule gives it with identities on idle registers, then the measurement; every "
     "layer covers every register once and in order, and the layers multiplied up give the final state.",
     ["inputs", "programs", "configurations"],
     "all gates, dimensions, increments and placements; all circuits, measured or not",
     "The tests build one or two objects of each gate class on qubits and qutrits and never read a layer.",
     [GATES, "src/qudiet/circuit_library/__init__.py", FLOW, MOM, "src/qudiet/core/init_states.py"],
     [("operators and kinds of gates", GATES), ("custom gates", "src/qudiet/circuit_library/__init__.py:ArbitaryGate"),
      ("layers", MOM + ":peek_list"), ("order of layers", FLOW + ":populate_opflow")],
     ["gate.unitary", "gate.acting_on", "gate.is_controlled", "gate.is_single_qudit", "QuantumCircuit.op_flow.peek()", "Moment.peek_list()"],
     "property-based testing against closed-form operators and the layering rule; reference simulator as oracle for the product of the layers",
     "Up to 120 states (thorough 400).")


def main():
    have = {f[:-3].upper() for f in os.listdir(os.path.join(HERE, "qv", "props")) if f.startswith("c")}
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p["row"]) + "\n")
    manifest = {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python -B tools/setup.py",
        "checks": [{
            "property": p["row"]["id"],
            "quick_cmd": "/opt/venv/bin/python -B check.py %s" % p["row"]["id"],
            "thorough_cmd": "/opt/venv/bin/python -B check.py %s --tier thorough" % p["row"]["id"],
            "evidence_file": "evidence/%s.json" % p["row"]["id"],
            "technique": p["technique"],
            "level": "exploration",
            "level_note": p["note"],
        } for p in P if p["row"]["id"] in have],
        "not_applicable": [{"property": p["row"]["id"], "reason": "check not built yet"}
                           for p in P if p["row"]["id"] not in have],
        "notes": "No hooks: every check drives the public API of /repo's working tree (PYTHONPATH /repo/src). "
                 "Hypothesis comes from the pre-installed tool venv.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
