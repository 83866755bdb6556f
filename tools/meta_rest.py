CI = "rust/jstprove_circuits/src/"
EC = "compiler/expander_compiler/src/"
PR = "prover/"
NOTE_C = "Runs the repository's own compiler, circuits and prover; external crates missing offline are replaced by stand-ins (DESIGN.md), the only idealised one being the BN254 curve group."
prop("C01", "Every honest inference can be proved, and its proof is accepted",
 "For every supported model and every input in its documented range, a model that compiles yields a witness that satisfies the circuit, the prover produces a proof from it, the verifier accepts that proof, and the inputs and outputs extracted from it are the ones the inference used, under every proof configuration.",
 ["inputs"], "every supported operator and model, every input in range, every proof configuration, compressed or not",
 "The circuit tests run one small circuit each; nothing in the tests takes a generated model from file to verified proof.",
 [CI+"onnx.rs", CI+"circuit_functions/", CI+"runner/", PR+"gkr/src/", PR+"poly_commit/src/", EC],
 [("layer circuits and hints", CI+"circuit_functions/layers/, hints/"), ("pipeline", CI+"runner/main_runner.rs"), ("proof system", PR+"gkr, "+PR+"sumcheck, "+PR+"poly_commit")],
 "end-to-end runtime monitor: compile, solve, check constraints, prove, verify, extract over generated models", "exploration",
 NOTE_C, ["witness_from_f64_generic, Circuit::run, prove_from_bytes, verify_from_bytes, verify_and_extract_from_bytes"])
prop("C02", "The proved output is the model's output, up to fixed-point rounding",
 "The output a proof attests to is the value the model computes on the given input, within a few units of the chosen fixed-point precision per operator; no supported operator, parameter, axis, padding or operand order gives a different function.",
 ["inputs"], "every supported operator with every parameter combination, models of several operators, several precisions",
 "Layer tests compare a few hand-picked values with hand-picked expectations.",
 [CI+"circuit_functions/layers/", CI+"circuit_functions/hints/", CI+"expander_metadata.rs", ON+"quantizer.rs"],
 [("layer circuits", CI+"circuit_functions/layers/"), ("hints", CI+"circuit_functions/hints/")],
 "runtime oracle: reference executor over generated models, per-operator error bound in units of the scale", "exploration",
 NOTE_C + " Tolerances: exact for structural operators, at most 4 units for lookup operators; propagated through models.", ["witness output values"])
prop("C03", "Only proofs of true statements are accepted",
 "A proof that has been altered in any way that changes what it says, a proof offered with other inputs, outputs or scale, a proof of another inference or of a model with other weights, and a proof made from a witness that violates the circuit are all rejected, by every verifier entry point, under every proof configuration. This includes outputs chosen after the challenges so that their errors cancel.",
 ["inputs"], "every model, configuration, alteration of the proof and of the public values",
 "Tests flip no bytes and try no false statement: both soundness defects found here passed every test.",
 [CI+"onnx.rs", CI+"runner/main_runner.rs", CI+"runner/verify_extract.rs", PR+"gkr/src/", PR+"poly_commit/src/", PR+"sumcheck/src/", PR+"transcript/src/"],
 [("verifier entry points", CI+"runner/main_runner.rs verify_from_bytes, "+CI+"runner/verify_extract.rs"), ("claim check", CI+"onnx.rs set_outputs"), ("Fiat-Shamir", PR+"gkr/src/prover/snark.rs, verifier/snark.rs"), ("sum-check verifier", PR+"sumcheck/src/verifier_helper.rs")],
 "runtime monitor with adversarial workload: altered proofs, statements, circuits and witnesses offered to every verifier entry point; the oracle is constraint satisfaction of the statement", "exploration",
 NOTE_C + " Cryptographic hardness itself is outside runtime monitoring; attacks tried are the ones listed.", ["verify_from_bytes, verify_and_extract_* verdicts", "layered Circuit::run"])
prop("C04", "The constraints of a circuit determine the result",
 "Given the model and its inputs, the constraints of the compiled circuit admit no result other than the one the honest computation gives, up to the rounding tolerance of the operator, whatever values the prover chooses where it is free to choose. A range check admits exactly the non-negative values below its bound.",
 ["inputs"], "every supported operator, every assignment of the values the prover chooses freely, every width of a range check",
 "Tests only ever run the honest solver, which never offers a wrong value to a constraint that fails to forbid it.",
 [CI+"circuit_functions/layers/", CI+"circuit_functions/gadgets/", "compiler/circuit-std-rs/src/logup.rs", EC+"hints/"],
 [("layer constraints", CI+"circuit_functions/layers/"), ("range checks and divisions", CI+"circuit_functions/gadgets/range_check.rs, euclidean_division.rs, function_lookup.rs"), ("lookup argument", "compiler/circuit-std-rs/src/logup.rs")],
 "runtime monitor with an adversarial prover: hint results replaced during witness solving, constraints evaluated, result compared with the honest one", "exploration",
 NOTE_C + " Forgeries are the listed kinds (offsets, exchanged values, quotient with matching remainder, field fractions, matching pairs), not every assignment.", ["hint calls of the witness solver", "layered Circuit::run"])
prop("C05", "Field arithmetic is exact for every field and every packed form",
 "Every operation on field elements gives the value of the mathematical field, lane by lane for packed elements, whatever representation the operands have internally. Two representations of one value are equal, hash alike and serialize alike; serialization round-trips, and truncated or malformed encodings are refused with an error.",
 ["inputs"], "every field, extension and packed type, every operation, every operand and every internal representation of it",
 "Field tests compare a few random elements; boundary and unreduced representations occur with probability 2^-31 or less there.",
 [PR+"arith/", PR+"arith/goldilocks/src/", PR+"arith/mersenne31/src/", PR+"arith/babybear/src/", PR+"arith/gf2/src/", PR+"arith/gf2_128/src/"],
 [("field implementations", PR+"arith/*/src/"), ("Montgomery form", PR+"arith/src/monty.rs")],
 "runtime oracle: random straight-line programs and single operations next to schoolbook integer and polynomial arithmetic, boundary-heavy and unreduced operands", "exploration",
 NOTE_C + " The packed variant checked is the one the target selects (AVX2); AVX-512 was run by hand, NEON cannot be.", ["values, equality, hashes and bytes of field elements"])
prop("C07", "A compiled circuit accepts exactly the runs the program it came from accepts",
 "For any circuit program and compile options, the compiled circuit accepts an assignment exactly when every assertion of the program holds on it and the declared outputs are the ones the program computes; the witness solver finds a witness for each assignment that holds. Compiling the same program twice gives the same circuit, an evaluation of many assignments at once agrees with evaluating each, and every satisfied run can be proved and verified under every proof configuration.",
 ["inputs"], "every circuit program, optimization level, compile option, field, batch and assignment",
 "Compiler tests use fixed small circuits at the default level; interactions of optimizations, shared sub-circuits and random coefficients appear only in combinations.",
 [EC+"compile/", EC+"builder/", EC+"frontend/", EC+"circuit/", EC+"layering/", EC+"hints/", PR+"circuit/src/ecc_circuit.rs"],
 [("compile pipeline", EC+"compile/mod.rs"), ("builders", EC+"builder/"), ("layering", EC+"layering/"), ("flattening for the prover", PR+"circuit/src/ecc_circuit.rs")],
 "differential runtime monitor: random circuit programs and assignments; verdicts and outputs compared with a direct interpreter of the program, proofs of the runs verified", "exploration",
 NOTE_C + " A division, inversion or bit decomposition whose result is unused imposes nothing, because unused code is removed.", ["compile, solve_witness_with_hints, layered Circuit::run, prove_from_bytes, verify_from_bytes"])
