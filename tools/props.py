HOOKS = ["99f40358"]
LANGT = "TLA+ language semantics (ZokLang), trace validation by TLC"
LANGN = ("Generated programs are compiled and executed by the real toolchain over bn128 and over small and medium prime fields; TLC validates every recorded "
         "behaviour (compiler verdict, output, failure, logs) against ZokLang's big-step semantics. Sampled programs, exhaustive over nothing; trusts the "
         "generator to stay in the documented language and the harness's small-field implementation of the field interface.")
SEM = "zokrates_core/src/semantics.rs"
FLAT = "zokrates_codegen/src/lib.rs"
INT = "zokrates_interpreter/src/lib.rs"

prop("C01", "Scalar expressions compute their documented values",
     "For every program over field elements, booleans and unsigned integers which the compiler accepts, execution on any inputs outputs exactly the values the language defines: field arithmetic modulo the prime, wrapping unsigned arithmetic, bitwise operations, shifts, comparisons, conditionals and constants. "
     "An execution fails only where the language says it does: division or remainder by zero and field comparisons of unknowns out of their documented range.",
     ["programs", "inputs", "configurations"], "every expression of any nesting over all scalar operators, any operand values, any mixture of compile-time and run-time operands, any field",
     "The tests run a few dozen hand-written programs on a handful of inputs over bn128; what an operator gives depends on how its operands were computed (constant or not, reduced or not, bits cached or not), so each needs every combination.",
     [FLAT, "zokrates_codegen/src/utils.rs", "zokrates_analysis/src/propagation.rs", "zokrates_analysis/src/flat_propagation.rs", "zokrates_analysis/src/uint_optimizer.rs", INT],
     [("flattening of operators to constraints", FLAT), ("widths and reductions of unsigned integers", "zokrates_analysis/src/uint_optimizer.rs"),
      ("constant folding", "zokrates_analysis/src/propagation.rs"), ("solvers", INT)],
     ["outputs of compute-witness"], technique=LANGT, note=LANGN)

prop("C02", "Functions, generics, loops and constants mean what the language says",
     "For every accepted program, calls, generic parameters (given or inferred), loops over constant ranges, shadowing, mutable variables and constants have the value of the corresponding substitution: arguments are passed by value, loops are unrolled from the lower bound to below the upper one, an inner variable never changes an outer one, and generic arguments take the one value the types determine. "
     "A valid program of these is accepted and never crashes the compiler.",
     ["programs", "inputs"], "every combination of functions, generic arguments, loop bounds, redefinitions and shadowed names",
     "Inlining, unrolling, redefinition tracking and constant propagation interact over the whole program; the tests fix a few programs.",
     [SEM, "zokrates_analysis/src/reducer/mod.rs", "zokrates_analysis/src/reducer/shallow_ssa.rs", "zokrates_analysis/src/reducer/inline.rs", "zokrates_analysis/src/reducer/constants_reader.rs", "zokrates_analysis/src/propagation.rs"],
     [("inlining and monomorphisation", "zokrates_analysis/src/reducer/inline.rs"), ("SSA and unrolling", "zokrates_analysis/src/reducer/shallow_ssa.rs"), ("scopes and types", SEM)],
     ["outputs of compute-witness"], technique=LANGT, note=LANGN)

prop("C03", "Arrays, structs and tuples behave as values",
     "For every accepted program, reading, writing, slicing, spreading, repeating, comparing, copying and conditionally selecting composite values, at constant or run-time positions, gives the components the language defines: a write changes that component and no other, and copies are independent. "
     "Accesses out of bounds are rejected at compile time when the position is constant, and never produce a value when a written or used element's position is not.",
     ["programs", "inputs"], "every nesting of composite types, every sequence of reads and writes, every index value including those out of bounds",
     "Which of several rewriting passes handles an access depends on whether its index is constant, on nesting and on what was assigned before.",
     [SEM, "zokrates_analysis/src/variable_write_remover.rs", "zokrates_analysis/src/flatten_complex_types.rs", "zokrates_analysis/src/out_of_bounds.rs", "zokrates_analysis/src/propagation.rs", FLAT],
     [("writes at run-time positions", "zokrates_analysis/src/variable_write_remover.rs"), ("flattening of composite types", "zokrates_analysis/src/flatten_complex_types.rs"), ("bounds", "zokrates_analysis/src/out_of_bounds.rs")],
     ["outputs of compute-witness"], technique=LANGT, note=LANGN)

prop("C04", "Assertions hold in every successful execution, and only they reject",
     "An execution succeeds only if every assertion which is reached holds, wherever it is written: in the entry function, in called functions, in loops, and in branches. "
     "An execution in which all of them hold and no operation fails succeeds, and one in which an assertion on a taken path fails is rejected.",
     ["programs", "inputs"], "every assertion of any condition over every type, every control structure around it, every input",
     "Whether an assertion is enforced depends on the constant folding, isolation of branches and constraint generation of everything around it.",
     [FLAT, "zokrates_analysis/src/branch_isolator.rs", "zokrates_analysis/src/condition_redefiner.rs", "zokrates_analysis/src/boolean_array_comparator.rs", "zokrates_analysis/src/panic_extractor.rs"],
     [("assertion constraints", FLAT), ("extraction of panics into conditions", "zokrates_analysis/src/panic_extractor.rs")],
     ["exit status and output of compute-witness"], technique=LANGT, note=LANGN)

prop("C12", "Imports and modules resolve to the definitions they name",
     "For every set of modules, a symbol imported under its own or another name, re-exported, or reached through several paths or directories denotes the definition in the module the import names, and types imported along different paths are one type. "
     "Valid module graphs are accepted whatever the order and nesting of their imports.",
     ["programs", "configurations"], "every acyclic import graph over several modules and directories, every renaming and re-export, symbols of every kind (functions, structs, constants, type aliases)",
     "The tests have a few fixed module sets, none of them nested, and most of one symbol each.",
     ["zokrates_core/src/imports.rs", "zokrates_fs_resolver/src/lib.rs", SEM, "zokrates_analysis/src/reducer/constants_reader.rs"],
     [("resolution of imports", "zokrates_core/src/imports.rs"), ("paths", "zokrates_fs_resolver/src/lib.rs"), ("symbol tables of modules", SEM)],
     ["outputs of compute-witness"], technique=LANGT, note=LANGN)

prop("C17", "Log statements print the values at their point, in order, and nothing else",
     "In every successful execution of a program compiled with debugging, each log statement which is reached prints its message once with the values its expressions have at that point, in program order. "
     "Debugging and logging change neither outputs nor which executions succeed.",
     ["programs", "inputs", "configurations"], "every log of values of every type in functions and loops, with debugging on",
     "The tests check one log of each type; order and multiplicity depend on inlining, caching of calls and the ordering of emitted statements.",
     ["zokrates_analysis/src/log_ignorer.rs", FLAT, INT, "zokrates_ast/src/ir/mod.rs", "zokrates_ast/src/typed/folder.rs"],
     [("log statements through all passes", FLAT), ("printing", INT)],
     ["log stream of compute-witness"], technique=LANGT, note=LANGN)

IRT = "TLA+ semantics of the constraint system (Ir, ZokProver), state machine of honest and malicious provers explored by TLC"
prop("C05", "No prover can make a compiled program output anything else",
     "For every compiled program and inputs, every assignment of the intermediate variables which satisfies all emitted constraints gives the outputs the language defines; where the language rejects the inputs, no assignment satisfies them. "
     "Nothing depends on the prover computing its advice honestly.",
     ["programs", "inputs"], "every assignment of every intermediate variable of every compiled program, not only the one the solvers compute",
     "A missing constraint is invisible to any test which runs the honest solver: all executions pass, and only a dishonest assignment shows the defect.",
     [FLAT, "zokrates_codegen/src/utils.rs", "zokrates_analysis/src/uint_optimizer.rs", "zokrates_core/src/optimizer/redefinition.rs", "zokrates_core/src/optimizer/mod.rs"],
     [("constraints of operators, selections and comparisons", FLAT), ("reductions of unsigned integers", "zokrates_analysis/src/uint_optimizer.rs"), ("removal of constraints", "zokrates_core/src/optimizer/redefinition.rs")],
     ["compiled constraint system"], technique=IRT,
     note="The compiled constraints of generated programs are loaded into the specification; TLC searches every prover's assignment completely over fields small enough to enumerate, and over larger ones through every bit decomposition plus bounded guesses of unconstrained variables. Programs are sampled; choices beyond the bounds are counted as bounded, not as proofs.")

prop("C06", "The interpreter computes a satisfying assignment whenever there is an honest one",
     "Executing a compiled program computes exactly the assignment its solvers define, reports success only when every constraint holds under it, and reports failure otherwise. "
     "The public inputs are the public arguments followed by the outputs, and they satisfy the constraint system together with the reported witness.",
     ["programs", "inputs"], "every compiled program, every input, every solver",
     "The interpreter chooses solvers per directive and evaluates linear and quadratic forms; the tests check outputs of selected programs rather than the witness.",
     [INT, "zokrates_ast/src/ir/mod.rs", "zokrates_ast/src/ir/witness.rs", "zokrates_ast/src/common/solvers.rs"],
     [("execution and solvers", INT), ("evaluation", "zokrates_ast/src/ir/mod.rs"), ("public inputs", "zokrates_ast/src/ir/mod.rs")],
     ["witness"], technique=IRT,
     note="Every witness recorded from the real interpreter is validated against the specification's own execution of the same compiled program.")

OPT = "TLA+ relation between the program before and after optimisation (IrOpt), behaviours of both explored by TLC"
prop("C07", "Optimisation preserves what a program accepts and computes",
     "For every program, including those with asm blocks, the compiled program has the same inputs, outputs, accepted executions and logs as the flattened program before the optimisers ran: every assignment which satisfies the constraints of one extends to an assignment of the other with the same inputs and outputs, "
     "except that a hint (`<--`) used twice may be computed once. The optimisers never leave a variable undefined and never crash.",
     ["programs", "inputs"], "every program, every combination of asm hints, constraints, definitions and logs, every assignment of the variables",
     "Each optimiser is tested on a few hand-written statement lists; unsoundness needs particular orders of hints, definitions and uses.",
     ["zokrates_core/src/optimizer/mod.rs", "zokrates_core/src/optimizer/redefinition.rs", "zokrates_core/src/optimizer/directive.rs", "zokrates_core/src/optimizer/duplicate.rs", "zokrates_core/src/optimizer/tautology.rs", "zokrates_core/src/optimizer/canonicalizer.rs", FLAT],
     [("redefinition", "zokrates_core/src/optimizer/redefinition.rs"), ("directive deduplication", "zokrates_core/src/optimizer/directive.rs"), ("duplicate constraints", "zokrates_core/src/optimizer/duplicate.rs")],
     ["compiled constraint systems, witnesses"], technique=OPT,
     note="The real code before and after optimisation is loaded into one specification; solutions of each side are searched by a bounded depth-first search over small fields and must extend to the other side; honest executions of both are compared over the inputs. Sampled programs, half of them generated asm blocks.")

prop("C08", "Inputs and outputs in JSON mean the values their types say",
     "For every signature, a JSON document is accepted as inputs exactly when it has the shape of the signature and every number is in the range of its type; it is then laid out as field elements in the order of the declaration, whatever the order of struct members in the document, decimal and 0x-prefixed hexadecimal numbers alike; "
     "the field elements of the outputs are rendered back as the same values; the interface file names every input with its visibility, its full type and sizes. No document makes the toolchain crash.",
     ["inputs", "programs"], "every type (nested arrays, tuples, generic structs, empty ones), every JSON document",
     "Types and documents nest without bound, and encoder and decoder are separate code which must agree on the layout; the tests have about a dozen documents.",
     ["zokrates_abi/src/lib.rs", "zokrates_ast/src/typed/types.rs", "zokrates_ast/src/typed/abi.rs"],
     [("parsing and encoding", "zokrates_abi/src/lib.rs"), ("decoding", "zokrates_abi/src/lib.rs"), ("interface file", "zokrates_ast/src/typed/abi.rs"), ("concrete types", "zokrates_ast/src/typed/types.rs")],
     ["inputs given by --abi", "outputs of compute-witness", "abi.json"], technique="TLA+ state machine of the JSON boundary (Abi), trace validation by TLC",
     note="Programs which return their arguments in some order are compiled for generated types; for each document, TLC validates verdict, encoded inputs, raw outputs, rendered outputs and the interface file. A field element beyond the prime and unprefixed hexadecimal may be accepted (with the value they denote) or rejected.")

prop("C14", "Field arithmetic of every supported curve is arithmetic modulo its prime",
     "For each of bn128, bls12_381, bls12_377, bw6_761, Pallas and Vesta, every operation of the field (addition, subtraction, multiplication, division, inverse, powers, checked variants, comparison, bits, conversion from and to integers, decimal and other text, bytes and serialised form, the largest unique value) gives the mathematical result modulo the prime of that curve and fails exactly where there is none.",
     ["inputs", "configurations"], "every pair of elements, every exponent, every text and byte string, six curves",
     "Tests check fixed examples mostly on bn128; representation boundaries (limbs, the prime, bit lengths) are where operations go wrong.",
     ["zokrates_field/src/lib.rs", "zokrates_field/src/bn128.rs", "zokrates_field/src/bw6_761.rs"],
     [("generic implementation for all curves", "zokrates_field/src/lib.rs"), ("curves", "zokrates_field/src/bn128.rs")],
     ["zokrates_field::Field"], technique="TLA+ register machine over a prime field (Field, on BigNat), trace validation by TLC",
     note="Random operation sequences, boundary-heavy operands, run on the real field of every curve; each recorded step must be a step of the specification's machine, whose numbers are exact naturals.")

prop("C09", "A saved program is the compiled program, and only that is ever read back",
     "For every compiled program of every curve, the file written holds exactly that program (parameters, every statement in order, hints, logs, modules, counts) and reading it gives back a program which executes identically, with each hint taken from the table of solvers. "
     "If writing stops at any byte, a reader gets nothing or the whole program; a truncated file, a file with a damaged statement, another version or an unknown curve is rejected; a file of one curve is never taken for another's. "
     "Saving reports an error exactly when a private input or a hint appears in no constraint.",
     ["programs", "crash_points", "configurations"], "every program, every point at which writing may stop, every truncation, six curves",
     "The tests save an empty program; sharing of hints, curves, section offsets and interruption need the full product.",
     ["zokrates_ast/src/ir/serialize.rs", "zokrates_ast/src/ir/solver_indexer.rs", "zokrates_ast/src/ir/check.rs", "zokrates_field/src/lib.rs"],
     [("writer and reader", "zokrates_ast/src/ir/serialize.rs"), ("table of solvers", "zokrates_ast/src/ir/solver_indexer.rs"), ("unconstrained variables", "zokrates_ast/src/ir/check.rs")],
     ["the compiled program file"], technique="TLA+ state machine of writer, crash and reader with the byte format specified down to CBOR (ZokFile), trace validation by TLC",
     note="All writes of the real writer are recorded; TLC rebuilds the bytes on disk after each of the enumerated crash points, decodes them with the specification's own decoder, and compares with what the real reader made of the same bytes. Sampled programs; crash points within the header exhaustive, within the body sampled.")

R1 = "zokrates_circom/src/r1cs.rs"
WT = "zokrates_circom/src/witness.rs"
prop("C10", "Exported circuits and witnesses state exactly the compiled program",
     "For every compiled program of every curve, the r1cs file holds exactly its constraints over exactly its variables, with the constant first, then outputs, public inputs, private inputs and the rest, and with counts, sizes and prime as its header says; "
     "the wtns file and the native and JSON witness files hold the value of every variable in that order, so a witness which satisfies the program satisfies the exported circuit; reading back a native witness file gives the same witness.",
     ["programs", "inputs", "configurations"], "every program, every witness, six curves",
     "The exporters renumber variables and lay out sections by hand; the tests compare one or two files byte by byte, on one curve.",
     [R1, WT, "zokrates_ast/src/ir/witness.rs", "zokrates_circom/src/lib.rs"],
     [("circuit", R1), ("witness", WT), ("native witness", "zokrates_ast/src/ir/witness.rs")],
     ["out.r1cs, out.wtns, witness, witness.json"], technique="TLA+ specification of the file formats (Circom, Bytes), bytes of the real exporters validated by TLC",
     note="TLC parses the bytes which the real exporters wrote for generated programs of all curves, checks every section, rebuilds the constraint system and compares it with the compiled program and its witness. Sampled programs.")

SM = "zokrates_ast/src/ir/smtlib2.rs"
prop("C11", "The SMT-LIB export states exactly the compiled constraints",
     "For every compiled program, the exported SMT-LIB file declares every variable once, bounds each to the field, and asserts exactly the constraints of the program, so its models are exactly the satisfying assignments; it is well-formed.",
     ["programs", "configurations"], "every program, every curve",
     "The tests compare the text for three programs; signs, constants, empty sums and repeated variables need the product of shapes.",
     [SM], [("export", SM)], ["output of generate-smtlib2"], technique="TLA+ specification of the exported formula (Smt), parsed output of the real exporter validated by TLC",
     note="The text is split into S-expressions, and TLC evaluates the declared and asserted formulas and compares them with the compiled program's constraints. Sampled programs.")

prop("C18", "Asm blocks mean their hints and constraints",
     "For every program with asm blocks, the honest prover gives each hinted variable the value of its expression (field arithmetic, division, bit operations, shifts, powers, conditionals) and succeeds exactly if all constraints hold; every satisfying assignment of the compiled program is one of the outcomes which some choice for the hints gives; "
     "a program is rejected only if a constraint is not quadratic or can never hold, and no such program crashes compiler or interpreter.",
     ["programs", "inputs"], "every placement of hints, constraints, loops, calls and reassignments, every choice a dishonest prover may make",
     "In asm the developer states the constraints, so a constraint lost or altered by a rewriting is a silent soundness hole; tests only run the honest prover on a few programs.",
     ["zokrates_analysis/src/assembly_transformer.rs", "zokrates_ast/src/zir/lqc.rs", "zokrates_analysis/src/flatten_complex_types.rs", "zokrates_interpreter/src/lib.rs", "zokrates_core/src/semantics.rs", "zokrates_core/src/optimizer/redefinition.rs"],
     [("constraints made quadratic", "zokrates_analysis/src/assembly_transformer.rs"), ("products", "zokrates_ast/src/zir/lqc.rs"), ("hints", "zokrates_analysis/src/flatten_complex_types.rs"), ("execution of hints", "zokrates_interpreter/src/lib.rs")],
     ["verdict and outputs", "compiled constraint system"], technique="TLA+ relational semantics of asm blocks (ZokAsm) against the compiled constraint system (Ir), all hint choices explored by TLC",
     note="Programs over fields of 5, 7 and 11 elements are decided for all hint choices and all assignments; programs over bn128 (shifts, powers) for the honest prover only. Sampled programs. Where an evaluated hint divides by zero or compares elements beyond the comparable range the run is not judged.")
