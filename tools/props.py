"""The properties and, for the claimed ones, how they are decided."""

def P(id, title, statement, over, text, why, files, mech, technique, note, **kw):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                technique=technique, note=note, **kw)

UNIT = "The repository's tests are a few unit tests of internal helpers; none of them "
DIFF = "exhaustive enumeration of bounded programs/inputs, each execution of the real code compared with an independent reference semantics"

PROPS = [
P("C01", "WASM witness generator computes every operator exactly",
  "In the WASM witness generator emitted for any of the supported primes, every operator of the language applied to run-time values yields the value the documentation defines (arithmetic modulo the prime, integer division and remainder, bitwise operators and shifts on the canonical representative, comparisons on the signed representative, booleans), whatever the internal representation of its operands.",
  ["inputs", "configurations"], "all supported primes; all operators; all pairs of operands (bounded: boundary alphabet of each prime), short, long and Montgomery representations of the operands",
  UNIT + "runs an emitted witness generator; the values at the boundaries between the short and long representations and around the prime, its half and its bit length are what goes wrong.",
  ["code_producers/src/wasm_elements/bn128/fr-code.wat", "code_producers/src/wasm_elements/wasm_code_generator.rs", "compiler/src/intermediate_representation/compute_bucket.rs"],
  [("field arithmetic of the emitted WASM per prime", "code_producers/src/wasm_elements/*/fr-*.wat"), ("operator to field function table", "compiler/src/intermediate_representation/compute_bucket.rs")],
  DIFF, "Complete over the boundary alphabet (29-77 values per prime, squared) of each of the 8 primes; values outside the alphabet are not visited. Oracle: mc/field.py, written from the documentation.",
  observe=["witness file"]),
P("C02", "C++ witness generator computes every operator exactly",
  "In the C++ witness generator emitted for any of the supported primes, with or without the assembly arithmetic, every operator of the language applied to run-time values yields the documented value, whatever the internal representation of its operands.",
  ["inputs", "configurations"], "all supported primes; assembly and portable arithmetic; all operators; all pairs of operands (bounded: boundary alphabet of each prime)",
  UNIT + "compiles or runs an emitted C++ witness generator.",
  ["code_producers/src/c_elements/bn128/fr.cpp", "code_producers/src/c_elements/c_code_generator.rs", "compiler/src/intermediate_representation/compute_bucket.rs"],
  [("field arithmetic of the emitted C++ per prime", "code_producers/src/c_elements/*/fr*"), ("operator to field function table", "compiler/src/intermediate_representation/compute_bucket.rs")],
  DIFF, "Complete over the boundary alphabet of each of the 8 primes in both arithmetic variants; values outside the alphabet are not visited. Trusts the system's C++ compiler and assembler.",
  observe=["witness file"]),
P("C03", "Compile-time evaluation of operators is exact",
  "When the operands of an operator are known at compile time, the compiler computes the documented value modulo the selected prime, however the expression is written (literals, variables, inside a function), and rejects a division by zero.",
  ["inputs", "configurations"], "all operators; all pairs of operands of whole small fields (bounded: p in {7,11,13,17}, thorough 31 and 61) and of the boundary alphabet of each supported prime",
  UNIT + "covers the operators at the boundaries: unit tests of modular arithmetic sample a handful of values.",
  ["circom_algebra/src/modular_arithmetic.rs", "circom_algebra/src/algebra.rs", "constraint_generation/src/execute.rs"],
  [("modular arithmetic", "circom_algebra/src/modular_arithmetic.rs"), ("constant folding of expressions", "circom_algebra/src/algebra.rs")],
  DIFF, "Complete over whole small fields (enabled by the cfg(vp_mc) primes) and over the boundary alphabets of the real primes.",
  observe=["constraint o === constant in the R1CS"], hook="cfg(vp_mc): small primes vp<n>"),
P("C04", "WASM witness generator executes programs as the language defines",
  "The value that a function or template body computes at run time in the emitted WASM witness generator is the one the language's semantics define: statement order, branches, loops, scoping and shadowing, array copies and accesses with run-time indexes, calls, early returns, ternaries evaluated lazily and loop conditions evaluated before each iteration.",
  ["programs", "inputs"], "all programs generated by the grammar families up to a depth (sequences of statements, nestings of blocks, expressions, calls, conditions, arrays of one to three dimensions assigned to arrays of other lengths) on all pairs of a six-value input alphabet; 25 expressions as positions in nine ways of reading and writing arrays, on all pairs of 16 operands and pairs around 2^15, 2^16, 2^31",
  UNIT + "runs a generated witness program; the defects appear in combinations of statements (for instance a call in a loop condition).",
  ["compiler/src/hir/sugar_cleaner.rs", "compiler/src/intermediate_representation/translate.rs", "compiler/src/intermediate_representation/loop_bucket.rs", "compiler/src/intermediate_representation/store_bucket.rs"],
  [("desugaring", "compiler/src/hir/sugar_cleaner.rs"), ("translation to buckets", "compiler/src/intermediate_representation/translate.rs"), ("WASM emission", "compiler/src/intermediate_representation/*_bucket.rs")],
  DIFF, "Every program of each family up to the stated depth; prime bn128. Oracle: mc/ref.py, an interpreter written independently of the compiler. Recursive functions on run-time arguments are excluded (the compiler does not terminate on them; see DESIGN.md).",
  observe=["witness file"]),
P("C05", "C++ witness generator executes programs as the language defines",
  "The value that a function or template body computes at run time in the emitted C++ witness generator is the one the language's semantics define: statement order, branches, loops, scoping and shadowing, array copies and accesses with run-time indexes, calls, early returns, ternaries evaluated lazily and loop conditions evaluated before each iteration.",
  ["programs", "inputs"], "all programs generated by the grammar families of C04 up to a depth on all pairs of a six-value input alphabet; the positions of arrays of C04",
  UNIT + "compiles or runs a generated C++ program.",
  ["compiler/src/hir/sugar_cleaner.rs", "compiler/src/intermediate_representation/translate.rs", "code_producers/src/c_elements/common/calcwit.cpp"],
  [("desugaring", "compiler/src/hir/sugar_cleaner.rs"), ("C++ emission", "compiler/src/intermediate_representation/*_bucket.rs"), ("C++ runtime", "code_producers/src/c_elements/common")],
  DIFF, "As C04 with one level less depth in the quick tier; the emitted program is compiled with -O0.",
  observe=["witness file"]),
P("C06", "Compile-time execution of programs follows the language",
  "When everything a function computes with is known at compile time, the constant that the compiler puts in the constraints is the value that the language's semantics define, including recursion, early returns, loops, shadowing and array copies.",
  ["programs", "inputs"], "all programs generated by the grammar families up to a depth on all pairs of a six-value argument alphabet",
  UNIT + "executes a circom function.",
  ["constraint_generation/src/execute.rs", "constraint_generation/src/environment_utils", "program_structure/src/utils/memory_slice.rs"],
  [("interpreter used for constraint generation", "constraint_generation/src/execute.rs"), ("arrays as slices", "program_structure/src/utils/memory_slice.rs")],
  DIFF, "Every program of each family up to the stated depth; prime bn128. Oracle: mc/ref.py.",
  observe=["constraint o === constant in the R1CS"]),
P("C07", "The R1CS without simplification means exactly the constraints as written",
  "With --O0, the assignments of the signals that satisfy the R1CS are exactly those that satisfy every === and <== of the source: no constraint is lost, added or altered when it is put in the form A*B + C = 0, whatever side, operator or intermediate variable it was written with, and a constraint between constants that do not match leaves an unsatisfiable system.",
  ["programs", "inputs"], "all constraint statements over two or three signals with expressions up to a depth, in eight ways of writing them; all assignments over a whole small field; 55 ways of defining signals (components, arrays, buses) with every deviation of one signal from the honest assignment",
  UNIT + "compiles a constraint: the algebra unit tests check two sums.",
  ["circom_algebra/src/algebra.rs", "constraint_generation/src/execute.rs", "dag/src/constraint_correctness_analysis.rs", "constraint_writers/src/r1cs_writer.rs"],
  [("symbolic expressions", "circom_algebra/src/algebra.rs"), ("constraint collection", "constraint_generation/src/execute.rs"), ("R1CS writer", "constraint_writers/src/r1cs_writer.rs")],
  DIFF, "Complete over the expressions up to the depth and over the whole field vp5 (thorough: vp7, vp11): each solution set is enumerated in full.",
  observe=["R1CS file"], hook="cfg(vp_mc): small primes vp<n>"),
P("C08", "Simplification preserves the solutions of the system",
  "Whatever the simplification level and heuristics (--O1, --O2, --O2round n, --use_old_simplification_heuristics), an assignment of the surviving signals satisfies the simplified R1CS if and only if it extends to an assignment of all the signals that satisfies the constraints as written; unsatisfiable systems stay unsatisfiable.",
  ["programs", "inputs", "configurations"], "all systems of up to three constraints taken from 24 shapes, in one template or spread over subcomponents, with each of six option sets; all assignments over a whole small field; circuits with components, arrays and buses with every deviation of one signal; and an exact comparison, as polynomials over the real primes, of every constraint of 22 shapes of systems in three orders at sizes up to 513, of circuits of every kind and size, and of every pair of ways of defining their signals",
  UNIT + "runs the simplifier.",
  ["constraint_list/src/constraint_simplification.rs", "circom_algebra/src/simplification_utils.rs", "constraint_list/src/non_linear_simplification.rs", "dag/src/map_to_constraint_list.rs", "circom_algebra/src/constraint_storage.rs"],
  [("linear simplification", "circom_algebra/src/simplification_utils.rs"), ("non-linear to linear", "constraint_list/src/non_linear_simplification.rs"), ("rebuilding of the constraints", "constraint_list/src/constraint_simplification.rs")],
  DIFF, "Complete over the sets (quick) and sequences (thorough) of constraints up to the size; solution sets are enumerated in full over vp3, vp5 (thorough vp7).",
  observe=["R1CS file", "sym file"], hook="cfg(vp_mc): small primes vp<n>"),
P("C09", "The computed witness is the right one and satisfies the R1CS (WASM)",
  "For a circuit whose constraints hold by construction, the witness generated by the emitted WASM for any input satisfies every constraint of the emitted R1CS, has exactly its wires, and gives each signal that the sym file maps to a wire the value that the source computes, at every simplification level: arrays, subcomponents (single, in arrays, anonymous, nested, chosen at compile time), buses, tuples, arrays of components whose instances differ in size, and every order and place in which the inputs of components are assigned included.",
  ["programs", "inputs", "configurations"], "all orders and places of the input assignments of three components (7776 circuits); nine shapes of arrays of components of different sizes x seven ways of filling them x every sequence of up to two of 14 ways of reading them in loops (quick: pairs for some shapes); all combinations (quick: all triples) of 55 x 8 x 6 x 5 ways of defining the signals of a circuit, at --O0, --O1, --O2 (thorough: rounds and old heuristics), four inputs, two primes; empty arrays; circuits whose size in one of 36 dimensions (signals, inputs, components, instances, functions, terms, constants, nesting, names, ...) takes every value around the powers of two",
  UNIT + "generates a witness.",
  ["compiler/src/circuit_design", "compiler/src/intermediate_representation", "dag/src/witness_producer.rs", "constraint_writers/src/sym_writer.rs", "constraint_list/src/sym_porting.rs"],
  [("witness generation", "compiler/src/intermediate_representation"), ("witness to signal map", "dag/src/witness_producer.rs")],
  DIFF, "Every triple (quick) or every combination (thorough) of the four choices. Signals of anonymous components are compared as multisets, since their names are the compiler's choice.",
  observe=["witness", "R1CS file", "sym file"]),
P("C10", "The files describe the interface of main and agree with each other",
  "The R1CS header (prime, numbers of public outputs, public inputs, private inputs, labels, wires, constraints), the numbering of the wires (1, outputs of main in order of declaration, its public inputs, its private inputs, then the rest), the wire-to-label section, the sym file (each signal once, with the wire it has or -1), the JSON constraints and the printed summary agree with the declarations of the main component, with its list of public signals and with each other, for every prime and simplification level; a simplified circuit keeps a wire exactly for the signals that are public or constrained.",
  ["programs", "configurations"], "all main templates that are a sequence of up to 3 (thorough 4) of 11 kinds of declarations (signals, arrays, empty arrays, buses, outputs, intermediate, subcomponents) with every list of public inputs, at --O0, --O1, --O2, 8 primes",
  UNIT + "reads an emitted file.",
  ["constraint_writers/src/r1cs_writer.rs", "constraint_writers/src/sym_writer.rs", "constraint_writers/src/json_writer.rs", "dag/src/r1cs_porting.rs", "constraint_list/src/r1cs_porting.rs", "constraint_list/src/sym_porting.rs", "dag/src/map_to_constraint_list.rs", "constraint_generation/src/execution_data/executed_template.rs"],
  [("R1CS, sym and JSON writers", "constraint_writers/src"), ("numbering of the signals of main", "constraint_generation/src/execution_data/executed_template.rs"), ("wires after simplification", "constraint_list/src/constraint_simplification.rs rebuild_witness")],
  DIFF, "Every sequence of declarations up to the length with every list of public inputs; independent readers of the formats.",
  observe=["R1CS file", "sym file", "JSON constraints", "standard output"]),
P("C11", "The exported substitutions explain every simplified signal",
  "The substitutions written with --simplification_substitution hold in every solution of the system as written, are expressed with signals that no other substitution removes, name each signal once, and together with the simplified constraints give back the original system.",
  ["programs", "inputs", "configurations"], "all systems of up to three constraints taken from 24 shapes, and clusters of 350 constraints, with each of six option sets; all assignments over a whole small field; 22 shapes of large systems in three orders, in one template and in components, compared exactly",
  UNIT + "runs the simplifier.",
  ["constraint_list/src/constraint_simplification.rs", "constraint_list/src/json_porting.rs", "constraint_writers/src/json_writer.rs"],
  [("log of the substitutions", "constraint_list/src/constraint_simplification.rs write_substitutions")],
  DIFF, "Complete over the sets of constraints up to the size; every substitution is evaluated on every solution over vp3 and vp5.",
  observe=["substitutions JSON", "sym file"], hook="cfg(vp_mc): small primes vp<n>"),
P("C12", "The outputs are a function of the program and the options",
  "Compiling the same program twice with the same options writes the same bytes in every file, whatever the order in which the threads of the simplification finish and whatever the random seeds of the hash tables.",
  ["schedules", "programs", "configurations"], "every order in which the jobs of each thread pool can end, for circuits with up to 3 (thorough 4) independent clusters of each kind; a fixed set of hash seeds (8, thorough 32) for the circuit and system families",
  "A test runs one schedule with one seed; the order shows only in some interleavings.",
  ["constraint_list/src/constraint_simplification.rs", "circom_algebra/src/simplification_utils.rs", "compiler/src/circuit_design"],
  [("thread pools of the simplification", "constraint_list/src/constraint_simplification.rs eq_simplification, linear_simplification"), ("iteration over hash tables", "circom_algebra/src/simplification_utils.rs")],
  "stateless exploration of every completion order of the jobs of the real compiler under a controlled scheduler (stand-in threadpool crate), plus enumeration of hash seeds through an interposed getrandom",
  "Complete over the orders in which jobs end (jobs share only immutable data and their channel); the hash seeds are a bounded set.",
  observe=["all the files written", "exit code"]),
P("C13", "A constraint that is not quadratic is always rejected",
  "A === or <== whose two sides do not reduce to the form A*B + C = 0 with linear A, B and C is always rejected with an error, without writing outputs, and one that does reduce to it is never rejected.",
  ["programs"], "all constraint statements over two or three signals with expressions up to a depth, in eight ways of writing them",
  UNIT + "compiles a constraint.",
  ["circom_algebra/src/algebra.rs", "constraint_generation/src/execute.rs", "type_analysis/src/analyzers/unknown_known_analysis.rs"],
  [("degree of symbolic expressions", "circom_algebra/src/algebra.rs")],
  DIFF, "Every expression of the family is classified by the degree rules of the documentation (mc/cexprs.py) and compiled.",
  observe=["exit code", "error code"]),
P("C14", "Witness generation fails exactly when a check fails (WASM)",
  "The emitted WASM witness generator finishes for an input if and only if every assert it executes holds, every === and <== it executes holds (unless --sanity_check 0) and, at --sanity_check 2, every subcomponent created received all its inputs, wherever the statement is written: asserts on values known at compile time are decided by the compiler, the others at witness generation, and neither is dropped nor evaluated where the program does not reach it.",
  ["programs", "inputs", "configurations"], "all pairs of 12 conditions and 6 constraints with 45 places that reach them (branches, loops, functions, subcomponents, arrays, buses), and equalities of whole arrays whose size depends on the component, at --sanity_check 0, 1 and 2, all pairs of an input alphabet",
  UNIT + "runs a witness generator on an input that must be refused.",
  ["compiler/src/intermediate_representation/assert_bucket.rs", "compiler/src/intermediate_representation/translate.rs", "constraint_generation/src/execute.rs", "code_producers/src/wasm_elements/wasm_code_generator.rs"],
  [("assertions of the witness generation", "compiler/src/intermediate_representation/assert_bucket.rs"), ("compile-time asserts", "constraint_generation/src/execute.rs"), ("sanity check levels", "circom/src/compilation_user.rs")],
  DIFF, "Every (condition, place, level) and every pair of inputs of the alphabet. Oracle: mc/ref.py.",
  observe=["exit of the witness generator", "witness", "exit code of the compiler"]),
P("C15", "Witness generation fails exactly when a check fails (C++)",
  "The emitted C++ witness generator finishes for an input if and only if every assert it executes holds, every === and <== it executes holds (unless --sanity_check 0) and, at --sanity_check 2, every subcomponent created received all its inputs, wherever the statement is written.",
  ["programs", "inputs", "configurations"], "all pairs of 12 conditions and 6 constraints with 45 places that reach them, at --sanity_check 0, 1 and 2, all pairs of an input alphabet",
  UNIT + "runs a C++ witness generator on an input that must be refused.",
  ["compiler/src/intermediate_representation/assert_bucket.rs", "compiler/src/intermediate_representation/translate.rs", "constraint_generation/src/execute.rs", "code_producers/src/c_elements/c_code_generator.rs"],
  [("assertions of the witness generation", "compiler/src/intermediate_representation/assert_bucket.rs"), ("sanity check levels", "circom/src/compilation_user.rs")],
  DIFF, "As C14, with the subset of places of the quick tier compiled with -O0.",
  observe=["exit of the witness generator", "witness"]),
P("C16", "JSON inputs reach the signals they name, and wrong ones are refused (WASM)",
  "In the WASM witness calculator (witness_calculator.js, generate_witness.js) each value of the JSON input (numbers, decimal, hexadecimal, octal and binary strings, negative numbers, arrays nested or flat, buses as objects or flat) reaches, modulo the prime, the input signal it names; missing, extra, unknown or ill-sized values are refused; and a calculator that is used again gives for each call the result that a fresh one gives, whatever the calls before it, failed ones included.",
  ["inputs", "histories"], "all sequences of up to 3 of 7 kinds of input declarations, all written forms of each value, all single mutations (missing, extra, too many, too few, misnamed); input names that collide in the hash table of the generator; all call sequences of length 3 over valid and invalid inputs",
  UNIT + "loads the witness calculator.",
  ["code_producers/src/wasm_elements/common/witness_calculator.js", "code_producers/src/wasm_elements/common/generate_witness.js", "code_producers/src/wasm_elements/wasm_code_generator.rs"],
  [("flattening of inputs", "code_producers/src/wasm_elements/common/witness_calculator.js"), ("hash map of input signals", "code_producers/src/wasm_elements/wasm_code_generator.rs generate_hash_map")],
  "exhaustive enumeration of bounded inputs and call histories on the real calculator, each result compared with the reference",
  "Every declaration sequence, written form and mutation of the families, and every call history up to length 3.",
  observe=["witness", "errors"]),
P("C17", "JSON inputs reach the signals they name, and wrong ones are refused (C++)",
  "In the emitted C++ witness generator each value of the JSON input (integers, decimal and prefixed strings, arrays nested or flat, buses as objects or flat) reaches, modulo the prime, the input signal it names; missing, unknown or ill-sized values are refused.",
  ["inputs"], "all sequences of up to 2 of 7 kinds of input declarations, all written forms of each value, all single mutations (missing, extra, too many, too few, misnamed), 256-bit and goldilocks runtimes",
  UNIT + "runs the C++ generator.",
  ["code_producers/src/c_elements/common/main.cpp", "code_producers/src/c_elements/common/calcwit.cpp", "code_producers/src/c_elements/common64/main.cpp", "code_producers/src/c_elements/c_code_generator.rs"],
  [("JSON flattening", "code_producers/src/c_elements/common/main.cpp"), ("hash map of input signals", "code_producers/src/c_elements/c_code_generator.rs generate_hash_map")],
  DIFF, "Every declaration sequence, written form and mutation of the families. Negative strings are not claimed for C++.",
  observe=["witness", "exit code"]),
P("C18", "The computed witness is the right one and satisfies the R1CS (C++)",
  "For a circuit whose constraints hold by construction, the witness generated by the emitted C++ for any input satisfies every constraint of the emitted R1CS, has exactly its wires, and gives each signal that the sym file maps to a wire the value that the source computes: arrays, subcomponents (single, in arrays of different instances, anonymous, nested, chosen at compile time), buses, tuples, arrays of components whose instances differ in size, and every order and place in which the inputs of components are assigned included.",
  ["programs", "inputs", "configurations"], "orders and places of the input assignments of three components; shapes of arrays of components of different sizes x ways of filling them x ways of reading them in loops; all combinations (quick: all pairs) of 55 x 8 x 6 x 5 ways of defining the signals of a circuit, at --O0 and --O2 (thorough: every level), four inputs, two primes; empty arrays; circuits whose size in one of 36 dimensions (signals, inputs, components, instances, functions, terms, constants, nesting, names, ...) takes every value around the powers of two",
  UNIT + "generates a witness.",
  ["compiler/src/circuit_design", "compiler/src/intermediate_representation", "code_producers/src/c_elements", "dag/src/witness_producer.rs"],
  [("witness generation", "compiler/src/intermediate_representation"), ("io map and bus info", "code_producers/src/c_elements/c_code_generator.rs")],
  DIFF, "Every pair (quick) or every combination (thorough) of the four choices.",
  observe=["witness", "R1CS file", "sym file"]),
P("C19", "Parallel components give the sequential result under every interleaving",
  "The emitted C++ witness generator of a circuit that uses parallel (on templates or on instances: single components, arrays, nested, without inputs, several outputs) gives, under every interleaving of its threads and every limit on their number, the witness that the same circuit gives without parallel; it never deadlocks, loses a wakeup or reads an output before it is computed, and it fails exactly when the sequential one fails.",
  ["schedules", "programs", "inputs"], "44 programs covering the forms of parallel, and arrays of three and four positions of parallel and not parallel instances of two sizes with holes (fifteen quick, all of 131 thorough); every interleaving of the thread operations (creation, locks, waits, notifications, ends) up to a preemption bound; thread limits 1, 2, 3 and 32",
  "A test runs one interleaving; the waits and notifications between components and the limit of threads only go wrong in some.",
  ["code_producers/src/c_elements/common/calcwit.cpp", "compiler/src/intermediate_representation/create_component_bucket.rs", "compiler/src/intermediate_representation/store_bucket.rs", "compiler/src/intermediate_representation/load_bucket.rs", "compiler/src/circuit_design/template.rs"],
  [("thread limit", "code_producers/src/c_elements/common/calcwit.cpp"), ("emission of thread creation, waits and notifications", "compiler/src/intermediate_representation/*_bucket.rs")],
  "stateless model checking of the real emitted C++ program: fibers under a controlled scheduler replace std::thread, mutex and condition_variable; depth-first exploration of every interleaving up to a preemption bound",
  "Complete over the interleavings up to the preemption bound (2 quick, 3 thorough) of each program; the explorer reports when a bound cut an exploration. Memory is assumed sequentially consistent.",
  observe=["witness", "deadlocks", "exit of the generator"]),
P("C20", "The text of a program is read as the language defines",
  "Operator precedence and associativity, unary operators, ternaries, compound assignments, increments, numeric literals (decimal, hexadecimal, any length), identifiers, comments of both kinds between any two tokens and the contents of strings are read as the language reference defines: the text means the same program as its fully parenthesised, comment-free form.",
  ["programs"], "all pairs and triples of binary operators without parentheses, all unary and binary combinations, ternaries in each position, all compound assignments, literals and identifiers of the alphabet, a comment of each form in each gap between tokens of a program, strings with every printable character",
  UNIT + "parses a program.",
  ["parser/src/lang.lalrpop", "parser/src/parser_logic.rs", "parser/src/lib.rs"],
  [("grammar", "parser/src/lang.lalrpop"), ("comments", "parser/src/parser_logic.rs preprocess")],
  DIFF, "Every text of the families is compiled and the value or the files it gives compared with those of the parenthesised form. Strings that are empty, longer than 230 characters, or not ASCII are not claimed.",
  observe=["constraints", "witness", "printed lines", "exit code"]),
P("C21", "log prints the lines of the statements executed, in their order",
  "The lines printed by the emitted generators (WASM and C++) for an input are those of the log statements that the program executes, with their strings unchanged and their values as canonical representatives, in the order of execution, also inside branches, loops, functions (folded by the compiler or not) and subcomponents.",
  ["programs", "inputs"], "all pairs of 4 groups of log statements with 42 places that reach them, arrays of components that log in nine shapes with every way of filling and reading them, 15 programs on the order of execution, all pairs of a five-value input alphabet; every string of up to three characters of twelve and strings of lengths around the size of the pieces they are stored in",
  UNIT + "runs a witness generator.",
  ["compiler/src/intermediate_representation/log_bucket.rs", "constraint_generation/src/execute.rs", "code_producers/src/wasm_elements/common/witness_calculator.js"],
  [("emission of log", "compiler/src/intermediate_representation/log_bucket.rs"), ("folding of calls", "constraint_generation/src/execute.rs")],
  DIFF, "Every (log statements, place, input). Logs executed while computing array sizes belong to the compilation and are not printed. Components without inputs of an array run in the order of the array.",
  observe=["standard output of the generators"]),
P("C22", "Which constraints there are never depends on unknown values",
  "A program is compiled only if every array size, every signal, bus or component declared, every template instantiated, every constraint and every tag value is determined without the values of the signals; when it compiles, each assignment of the signals is accepted by the R1CS exactly if it satisfies the constraints executed for it. Otherwise it is rejected.",
  ["programs", "inputs"], "all ways of the families of making a condition, an index, a size, a bound or an argument depend on a signal (through variables, arrays, functions, branches, loops, ternaries) with every use of it; the honest assignment and all deviations of one signal, propagated or not",
  UNIT + "compiles a program with an unknown condition.",
  ["type_analysis/src/analyzers/unknown_known_analysis.rs", "constraint_generation/src/execute.rs", "constraint_generation/src/compute_constants.rs"],
  [("unknown/known analysis", "type_analysis/src/analyzers/unknown_known_analysis.rs"), ("unknown blocks in the execution", "constraint_generation/src/execute.rs")],
  DIFF, "Every (source of the unknown, use) of the families; for each accepted program every deviation of one signal by the values of a small alphabet. Oracle: mc/ref.py runs the program on each assignment.",
  observe=["exit code", "R1CS file", "sym file"]),
P("C23", "Each signal is assigned once, before it is read",
  "A program is accepted only if no signal (or field of a bus, or input of a component) is assigned twice, no signal or output is read before it has its value, inputs of the template and outputs of components are not assigned, components are created once and before their inputs are assigned, accesses are within bounds, every created component receives all its inputs, and signals and components have different names; and a program that does all this is accepted.",
  ["programs"], "all sequences of 1 to 3 statements (thorough: 4) of alphabets of 18 to 35 statements in five contexts: signals and arrays, buses, a component, a created component, arrays of components",
  UNIT + "compiles a program that assigns a signal.",
  ["constraint_generation/src/execute.rs", "constraint_generation/src/environment_utils/slice_types", "program_structure/src/utils/memory_slice.rs"],
  [("slices of signals and components", "constraint_generation/src/environment_utils/slice_types"), ("assignments", "constraint_generation/src/execute.rs")],
  DIFF, "Every sequence up to length 2, and length 3 with a fixed sub-grid where the set exceeds 9000. Oracle: execution by mc/ref.py.",
  observe=["exit code", "panics"]),
P("C24", "Tags are inherited with their values and required at inputs",
  "An expression assigned with <== gives its tags and their values to the signal, array, bus, bus field or component input assigned, and nothing else does (<-- and arithmetic carry none); an array has the tags and values common to all that was assigned to it, a value set by the program prevails; the value of a tag can be read once it is set or its signal is completely assigned, and set once, before any assignment; an input declared with tags is only accepted with all of them, always with the same values, which are those that the template sees. Programs that break these rules are rejected and those that follow them accepted.",
  ["programs"], "all sequences of 1 and 2 statements (and of 3 in a grid; thorough: all) of alphabets of 46 and 37 statements on signals, arrays, variables, buses and components, each followed by each of 26 to 36 observations of tags; all ways of giving tags to the inputs of four components",
  UNIT + "compiles a program with tags.",
  ["constraint_generation/src/assignment_utils.rs", "constraint_generation/src/environment_utils/component_representation.rs", "constraint_generation/src/execute.rs", "type_analysis/src/analyzers/type_check.rs"],
  [("propagation of tags", "constraint_generation/src/assignment_utils.rs"), ("tags required at inputs", "constraint_generation/src/environment_utils/component_representation.rs")],
  "explicit-state model of the tags, every bounded history of statements executed in the model and replayed on the compiler", "Complete for histories of up to two statements; of the programs that the model rejects in the last observation one in seven is compiled in the quick tier. Own tags of a bus set after some of its fields are assigned are not claimed.",
  observe=["exit code", "panics"]),
P("C25", "Each simplification level removes what it says",
  "At --O1 (the default) the constraints signal = constant and signal = signal with a private signal disappear: of the private signals joined by them none survives if they equal a constant or a public signal, one survives otherwise, and every other signal that a constraint uses survives, with no constraint getting more signals than the program writes in one; at --O2, and --O2round with enough rounds, no linear constraint with a private signal is left. Public inputs and outputs always survive.",
  ["programs", "configurations"], "all systems of up to three constraints from 24 shapes (thorough: sequences), flat or in subcomponents, with five assignments of public and private kinds, all graphs of equalities over five signals, systems of larger linear constraints, and circuits; every level and heuristic",
  UNIT + "runs the simplifier.",
  ["constraint_list/src/constraint_simplification.rs", "circom_algebra/src/simplification_utils.rs", "circom_algebra/src/algebra.rs", "dag/src/map_to_constraint_list.rs"],
  [("classification of constraints", "circom_algebra/src/algebra.rs signal_equals_signal"), ("elimination", "circom_algebra/src/simplification_utils.rs")],
  DIFF, "Complete over the systems up to the size, over vp13. The expected survivors are computed from the R1CS without simplification.",
  observe=["R1CS file"], hook="cfg(vp_mc): small primes vp<n>"),
P("C26", "Custom templates: gates in sections 4 and 5, no constraints of their own",
  "With the pragma custom_templates, section 4 of the R1CS lists each distinct instance of a custom template with its name and parameters (in order of their names), and section 5 each application with the wires of all its signals in order of declaration; those signals survive every simplification, the rest of the system has the solutions it would have with ordinary templates of the same body, and the witness is right. A custom template with constraints, subcomponents or intermediate uses of <== is rejected, and so is a file that defines or includes one without the pragma; without the pragma there are no such sections.",
  ["programs", "configurations", "inputs"], "all pairs (thorough: triples) of 18 uses of custom templates (parameters of several sizes, arrays, buses, tags, anonymous, nested, equal instances, instances in branches), all levels and primes; all 720 combinations of connections of two applications over a small field; every statement in custom bodies; all include graphs of three files with and without the pragma and custom templates",
  UNIT + "compiles a custom template.",
  ["dag/src/lib.rs", "dag/src/r1cs_porting.rs", "constraint_list/src/r1cs_porting.rs", "constraint_writers/src/r1cs_writer.rs", "type_analysis/src/analyzers/custom_gate_analysis.rs", "parser/src/lib.rs"],
  [("sections 4 and 5", "constraint_list/src/r1cs_porting.rs"), ("signals kept", "dag/src/map_to_constraint_list.rs"), ("restrictions on custom bodies", "type_analysis/src/analyzers/custom_gate_analysis.rs")],
  DIFF, "Complete over the families. Oracle: mc/ref.py for the instances and the witness, exhaustive solution sets over vp5 (thorough: vp3, vp7) for the small systems.",
  observe=["R1CS file", "sym file", "witness", "exit code"], hook="cfg(vp_mc): small primes vp<n>"),
P("C27", "A program is its main file and what it includes, each file read once",
  "The program is the main file and the files it includes, directly or not, each read once whatever the number of inclusions, cycles, symbolic links or spellings of its path; an include is searched in the directory of the file that contains it and then in the libraries given with -l, in their order, and it is an error if it is in none. Exactly one main component is required among the files read; two definitions of one name are an error, as is a version of the language that the compiler does not have.",
  ["programs", "configurations"], "all placements of a file in four directories (also as a directory or symbolic link) with every include of it by two files and every list of libraries; all include graphs of three files with every set of main components, and four ways to give the main file; all pairs of definitions in five arrangements; versions around the current one in each of three files",
  UNIT + "reads a file.",
  ["parser/src/include_logic.rs", "parser/src/lib.rs", "program_structure/src/program_library/program_merger.rs", "program_structure/src/program_library/program_archive.rs"],
  [("search and deduplication of files", "parser/src/include_logic.rs"), ("version and main checks", "parser/src/lib.rs")],
  "explicit-state model of the search of includes, every bounded file tree explored and replayed on the compiler", "Complete over the trees of the families.",
  observe=["exit code", "R1CS file"]),
P("C28", "Options select the outputs and nothing else; failures to write are reported",
  "circom writes exactly the outputs requested, named after the input file, in the output directory, replacing those of previous compilations; their contents do not depend on the other outputs requested, on --verbose or --inspect, and options that mean the same (the defaults written or not) give the same files; --no_init does not change programs that initialise their variables. Invalid options and wrong programs write nothing and exit with an error. If any operation on the files written fails the exit is not successful, and a write done in parts is completed.",
  ["configurations", "fault_sequences"], "every subset of the seven outputs for four programs at several levels and primes; pairs of equivalent options; twelve file names with four ways to give the output directory; every output obstructed by older contents, files or directories; every single failing operation (open, write, seek, mkdir) on the outputs: no space, half written, transient or permanent",
  UNIT + "runs the command line or fails a write.",
  ["circom/src/main.rs", "circom/src/input_user.rs", "circom/src/execution_user.rs", "circom/src/compilation_user.rs", "compiler/src/compiler_interface.rs", "constraint_writers/src/r1cs_writer.rs", "constraint_writers/src/sym_writer.rs", "constraint_writers/src/json_writer.rs", "code_producers/src/wasm_elements/wasm_code_generator.rs", "code_producers/src/c_elements/c_code_generator.rs"],
  [("options", "circom/src/input_user.rs"), ("writers", "constraint_writers/src"), ("files of the generators", "compiler/src/circuit_design/circuit.rs")],
  "exhaustive fault injection: every operation on the output files of each run is failed in turn (interposed libc calls), and every subset of the options explored, against a model of the outputs",
  "Complete over single faults (and all faults from a point on) of the runs explored. Failures that end in a panic count as reported. Combinations of two levels are not claimed.",
  observe=["exit code", "files written"]),
P("C29", "Programs that break a static rule anywhere are rejected",
  "A program with an undeclared or repeated name, a wrong number of arguments, an operation, condition, index, size, argument or assignment of the wrong type, a function with a path without return, template statements in functions or buses, declarations of signals in loops, wrong or missing main component, public list or definitions is rejected with an error that is reported, and nothing is written, wherever in the program the mistake is; and the same program with the mistake corrected is accepted.",
  ["programs"], "every wrong expression of 82 in each of 79 positions of expressions in templates and functions, every wrong statement of 300 in each of 12 positions of statements, with the correct ones in the same positions; all bodies of functions up to two levels of nesting for the paths without return; fields of buses; definitions and main components",
  UNIT + "type checks a program.",
  ["type_analysis/src/analyzers", "type_analysis/src/decorators", "type_analysis/src/check_types.rs", "parser/src/lang.lalrpop", "parser/src/syntax_sugar_remover.rs"],
  [("names", "type_analysis/src/analyzers/symbol_analysis.rs"), ("types", "type_analysis/src/analyzers/type_check.rs"), ("functions and buses", "type_analysis/src/analyzers")],
  "exhaustive enumeration of (rule broken, position in the program) pairs run on the compiler, against the verdict of the rules", "Complete over the pairs. Rules of types are only claimed in what the main component uses.",
  observe=["exit code", "errors", "files written"]),
P("C30", "Every name means its innermost declaration",
  "In templates and functions a name stands for the variable, signal, bus, component, tag or loop variable of the innermost enclosing block that declares it before the use: the witness and the constraints are those of the program with all names made different, whatever else in other blocks has the same name. Repeating a name in the same block, repeating the name of a wire in a template, or using a name out of its block, is rejected with an error and never with a panic or endless compilation.",
  ["programs"], "every balanced sequence of up to five tokens (declarations of q as variables, arrays, signals, tagged signals, buses, components or arrays of them, two kinds at a time; blocks, ifs, elses, loops and loops over q; uses of q) in templates, and up to six in functions called with known and unknown arguments; with and without a parameter q (thorough: one token more)",
  UNIT + "declares a name that exists in another block.",
  ["type_analysis/src/decorators", "type_analysis/src/analyzers/symbol_analysis.rs", "program_structure/src/utils/environment.rs", "constraint_generation/src/environment_utils", "compiler/src/intermediate_representation/translate.rs"],
  [("scopes of the type analysis", "type_analysis/src/analyzers/symbol_analysis.rs"), ("scopes of the execution", "program_structure/src/utils/environment.rs"), ("names of the generated code", "compiler/src/intermediate_representation/translate.rs"), ("constants of functions", "type_analysis/src/decorators/constants_handler.rs")],
  "exhaustive enumeration of sequences of declarations, blocks and uses up to a length; each program compiled, run, and its witness and constraints compared with those of an executable model of lexical scopes", "Complete over the sequences. Names of declarations in loops of wires are rejected by the language and are not claimed further.",
  observe=["exit code", "witness", "R1CS constraints"]),
P("C31", "Anonymous components, tuples and shorthands mean their expansion",
  "A template that uses anonymous components (inputs by position or by name, with parameters, parallel, nested, inside arrays, tuples and loops) and tuples (in declarations, assignments of signals, variables, buses and components, with _ and nested) has the same signals, the same constraints and the same witness as the template in which each anonymous component is a named component (or, in loops, a position of an array) whose inputs are assigned one by one, each tuple assignment is the sequence of the assignments of its elements from left to right, and declarations with values, lists of them, compound assignments, ++, --, for, --> and ==> are written out.",
  ["programs"], "a grammar of expressions (scalars, arrays, buses, no outputs, tuples of two and three elements, of different kinds) with three levels of nesting of anonymous components, in every kind of statement that can hold them, in blocks, ifs, loops of every shape (nested, with no iterations, with ifs, two loops)",
  UNIT + "abbreviates components and assignments.",
  ["parser/src/syntax_sugar_remover.rs", "parser/src/lang.lalrpop", "program_structure/src/abstract_syntax_tree/statement_builders.rs", "constraint_generation/src/execute.rs"],
  [("removal of the sugar", "parser/src/syntax_sugar_remover.rs"), ("grammar", "parser/src/lang.lalrpop")],
  "exhaustive enumeration of templates with sugar from a grammar of bounded depth, each with its expansion produced by an independent expander; both compiled in one circuit; their signals with values, and constraints over them, compared as multisets", "Complete over the grammar in the main contexts, a fixed stride of it in the others. Names of the anonymous components and the order of signals are not compared.",
  observe=["witness", "R1CS constraints", "symbols"]),
P("C32", "--inspect reports exactly the unconstrained signals and needless <--",
  "With --inspect, for each template with its parameters, circom warns once about every signal of the template and every input or output of its subcomponents that is in no constraint of the template and in no assignment to _, grouped by array with their number and examples of them, and about no other; and it warns about an assignment with <-- if and only if the same assignment with <== would be accepted, naming the positions when it is so for part of an array. Expressions that are not quadratic are rejected in <== to _ as in any other <==.",
  ["programs"], "templates with one object of every kind (signals, arrays, buses, nested, inputs, outputs, components, arrays of them, with inputs and outputs of every kind), used by every statement of forty on each of its signals, alone and in pairs, instantiated with two values of a parameter; every assignment of one of fifty expressions to each of fourteen kinds of target, of two expressions to arrays, and in unknown conditions",
  "The repository's tests are a few unit tests of internal helpers; none of them runs --inspect.",
  ["dag/src/constraint_correctness_analysis.rs", "constraint_generation/src/execute.rs", "mkdocs/docs/circom-language/code-quality/inspect.md"],
  [("unconstrained signals", "dag/src/constraint_correctness_analysis.rs"), ("needless <--", "constraint_generation/src/execute.rs execute_statement")],
  "exhaustive enumeration of (object, statements using it) and of (target, expression assigned): the warnings of each compilation compared with the signals left in no constraint, and with the verdict on the same program with <==", "Complete over the enumeration. Signals multiplied by a zero in a constraint, or cancelled in an assignment to _, are not claimed.",
  observe=["warnings", "exit code"]),
P("C33", "extern_c templates run the user's C++ functions with the announced signature",
  "For every custom template marked extern_c, compiling with --c announces the signature of a function, and the generated folder, with a cpp file that defines functions of the announced signatures added, is built by make into an executable. It calls the function of a template once per component, with the values of the parameters (arrays in row-major order) of that instance, the positions of its outputs and inputs and the sizes of their dimensions, when all its inputs are known; the witness is the one of the body that the functions compute. The WASM generator uses the body.",
  ["programs", "inputs", "configurations"], "eighteen templates (parameters in any order, equal, negative, large, arrays, matrices; inputs and outputs of up to three dimensions, interleaved, empty, with sizes given by the parameters, with tags, buses, arrays of buses; no inputs, no outputs) used in two instances of different arguments, two of the same, arrays, parallel components, components of other templates and blocks, for bn128 and goldilocks; the thorough run uses every prime, each use alone and in ordered pairs, every simplification level and the generic field library",
  "No test of the repository builds a generated program.",
  ["compiler/src/circuit_design/template.rs", "compiler/src/circuit_design/build.rs", "code_producers/src/c_elements/c_code_generator.rs", "mkdocs/docs/circom-language/templates-and-components.md"],
  [("the call", "compiler/src/circuit_design/template.rs produce_c_parallel_case"), ("signatures", "code_producers/src/c_elements/c_code_generator.rs collect_template_headers"), ("makefiles", "code_producers/src/c_elements/common/makefile")],
  "exhaustive enumeration of (template, use, prime): functions written from the announced signatures, which compute a weighted sum of everything they receive, linked with the emitted program; every signal of its witness compared with the reference interpretation of a body with the same sum", "Complete over the enumeration. The order of the parameters is taken from the announcement; writing results over operands of the field library is not claimed.",
  observe=["files", "stdout", "exit code"]),
P("C34", "Errors name the file and the line of the mistake",
  "When circom rejects a program it exits with status 1, and every error it reports for a mistake in one place of the program is located in the file and line of that place, whatever comes before it: comments of both kinds, text in other letters, strings with the marks of comments, carriage returns, other files; in the main file or in a file that is included, once or through several paths. Where a mistake has its own line within a longer statement, the location is that line or the part of the statement that contains it. This holds for mistakes found by the parser, by the analyses and while the program is executed.",
  ["programs"], "three hundred wrong statements in templates and functions, fifty that fail only when the program is executed, fifteen mistakes in the letters (unterminated comments and strings, letters outside the alphabet), in fifteen contexts of text and files; the statements in eleven nested positions; eighty wrong expressions in eighty positions, also alone in their line. The thorough run takes the nested statements and the expressions in every context too",
  "The tests of the repository compile no wrong program.",
  ["program_structure/src/utils/file_definition.rs", "program_structure/src/error_definition.rs", "parser/src/parser_logic.rs", "parser/src/lib.rs", "constraint_generation/src/execute.rs", "type_analysis/src"],
  [("files and lines", "program_structure/src/utils/file_definition.rs"), ("reports", "program_structure/src/error_definition.rs"), ("comments", "parser/src/parser_logic.rs preprocess"), ("executed statements", "constraint_generation/src/execute.rs treat_result_with_execution_error")],
  "exhaustive enumeration of (mistake, position, context): the file and line of every error of every compilation compared with those of the mistake", "Complete over the enumeration in the thorough run. Mistakes that are about another place (a function called with arguments of wrong dimensions is located in its body) or about unbalanced brackets are not claimed, nor is the place of a syntax error within a block.",
  observe=["errors", "exit code"]),
P("C35", "A failing run names the statements and the component of the failing check",
  "When a witness generator fails because of an assert or a constraint, the message of the WASM generator lists the failing statement and then every statement on the way to it, each with the kind and name of its template or function and its line in the source: calls of functions, and the assignment of the last input of each component, up to the main component. The C++ program names the template or function, the line and the path of the component of the check.",
  ["programs", "inputs"], "chains of frames: thirty-two ways to run a subcomponent (alone, in arrays of one to three dimensions, with holes, of several instances, parallel, anonymous), five of assigning a signal, nineteen of calling a function and four of returning a call, ended by twelve checks in templates and six in functions; all chains of one to three frames (in the thorough run also one of five of those of four). Every chain of a program is made to fail by one input, and one input makes none fail; lines of up to seven digits, names of up to two hundred characters",
  "No test of the repository runs a generated program.",
  ["compiler/src/intermediate_representation", "compiler/src/intermediate_representation/translate.rs", "code_producers/src/wasm_elements", "code_producers/src/c_elements/common/calcwit.cpp"],
  [("traces", "compiler/src/intermediate_representation/call_bucket.rs, store_bucket.rs"), ("lines", "compiler/src/intermediate_representation/translate.rs"), ("messages", "code_producers/src/wasm_elements/wasm_code_generator.rs build_buffer_message_generator"), ("component paths", "code_producers/src/c_elements/common/calcwit.cpp getTrace")],
  "exhaustive enumeration of chains of frames: every chain is run to its failure in both emitted generators and the lines, names and paths of the message compared with those of the chain", "Complete over the enumeration. The numbers that the compiler adds to the names of templates and of anonymous components are not claimed.",
  observe=["messages of the generators"]),
P("C36", "Every program gets an answer: files that can be used, or an error",
  "For every program, circom ends by itself with status 0 and every file that was asked for, or with status 1 and at least one error that says why the program is rejected. It never ends with a panic, with another status or without an answer, however wrong the program is. Of an accepted program, the R1CS, symbol and JSON files can be read, and the WASM file is a valid module.",
  ["programs"], "programs of one declaration (forty-seven: variables, signals, tags, buses and components, alone and in arrays, empty, uninitialised, assigned in full or in part), one statement that uses it (eighty-one: assignments of every operator to every kind of access, declarations, conditions, calls, anonymous components, tuples) with one value (ninety-three: literals, accesses with known, unknown and wrong indexes, calls, ternaries, operators), alone and within an unknown condition or a loop; functions of one declaration, one statement and one call; main components of eight headers, thirty-two bodies, twenty-eight arguments, nine lists of public inputs, seventeen buses and five pragmas; a program of four hundred and sixty-nine tokens, cut, or with one token removed, repeated, swapped with the next, replaced by another or preceded by it (sixty-four others); a name declared again in an inner block, as any kind after any kind. The quick run takes every declaration with every statement and four values, and with every value in two statements; the thorough run takes every triple, and more of each of the others",
  "The tests of the repository compile no program.",
  ["type_analysis/src/analyzers/type_check.rs", "constraint_generation/src/execute.rs", "compiler/src/hir/merger.rs", "compiler/src/intermediate_representation", "circom/src/main.rs"],
  [("accesses", "type_analysis/src/analyzers/type_check.rs apply_access_to_symbol, check_if_it_is_a_tag"), ("unknown values", "constraint_generation/src/execute.rs perform_assign, execute_expression"), ("generation of code", "compiler/src/hir/merger.rs, compiler/src/intermediate_representation/translate.rs")],
  "exhaustive enumeration of (declaration, statement, value, context): every program compiled by the real compiler with every output, and the files of the accepted ones read", "Complete over the enumeration. Programs that exhaust the stack or the memory are not claimed; names declared again, as another kind, in a block that is not executed panic in five programs, listed as known findings.",
  observe=["exit code", "errors", "files"]),
]
NOT_APPLICABLE = []
