#!/usr/bin/env python3
"""Writes properties.jsonl (the source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=list(observe), hook_needed=None)))
GL="fields/src/field_gl.rs"
p("C01","Goldilocks arithmetic is exact and canonical",
  "For all base-field elements, addition, subtraction, multiplication, negation, doubling and squaring (operators and in-place forms alike) return exactly the integer result modulo 2^64-2^32+1. Every result is again in canonical form, so equality of elements, hashing and zero tests agree with equality of the integers they stand for.",
  ["inputs"],"all pairs of the 2^64-2^32+1 field elements",
  "Tests try a few hundred random pairs; a wrong carry, borrow or final reduction shows on about 2^-32 of inputs.",
  [GL],[("add_assign / add_nocarry / reduce",GL),("sub_assign / sub_noborrow / negate / double / mul2",GL),("mul_assign / mont_reduce",GL)],
  ["fields::field_gl::Fr operators and ff::Field methods"])
p("C02","Goldilocks inverse, division, powers and square roots are correct",
  "For every non-zero base-field element x the inverse y satisfies x*y = 1, and division multiplies by that inverse. Exponentiation by any 64-bit exponent returns x multiplied by itself that many times (x^0 = 1). The Legendre symbol tells zero, squares and non-squares apart, and the square root exists exactly for zero and squares and squares back to its argument.",
  ["inputs"],"all field elements, all 64-bit exponents",
  "Tests sample random elements; the addition chain, constant-time select and Tonelli-Shanks loops have rare paths.",
  [GL],[("inverse / exp_acc",GL),("exp",GL),("legendre / sqrt",GL),("Div",GL)],["ff::Field::inverse, Fr::exp, ff::SqrtField"])
p("C03","Goldilocks conversions and order are faithful",
  "Turning any canonical integer into a base-field element and back returns the same integer, in the plain and in the raw representation, and an integer not below the modulus is refused rather than silently altered. Elements compare as the integers they stand for, and the 64-bit representation's shifts, halving, bit count, parity and zero tests are those of the integer.",
  ["inputs"],"all 64-bit integers, all pairs of elements, all shift amounts",
  "Tests convert a few dozen values; edge values near the modulus and shift amounts of 64 and more are not tried.",
  [GL],[("from_repr / into_repr / from_raw_repr / as_int",GL),("Ord",GL),("FrRepr shr/shl/div2/num_bits/is_odd",GL)],["PrimeField and PrimeFieldRepr methods, Ord, From<u64>, as_int"])
f3="starky/src/f3g.rs"; f5="starky/src/f5g.rs"
p("C04","Cubic extension arithmetic is that of F_p[x]/(x^3-x-1)",
  "For all elements of the cubic extension, whether stored as base-field scalars or in full form, addition, subtraction, negation, multiplication, squaring, doubling and scalar multiplication equal polynomial arithmetic modulo x^3-x-1, and a scalar embeds as the constant polynomial. Every non-zero element times its inverse is one, and division is multiplication by the inverse.",
  ["inputs"],"all pairs of elements in every combination of stored dimension",
  "Tests check a handful of fixed vectors; a wrong cross term or sign cancels on sparse inputs, and the scalar/full combinations are hardly tried.",
  [f3],[("add/sub/mul/neg/square/double",f3),("inv / inverse / Div",f3),("mul_scalar",f3)],["F3G operators, ff::Field and FieldExtension methods"])
p("C05","Quintic extension arithmetic is that of F_p[x]/(x^5-3)",
  "For all elements of the quintic extension, whether stored as base-field scalars or in full form, addition, subtraction, negation, multiplication, squaring, doubling and scalar multiplication equal polynomial arithmetic modulo x^5-3, and a scalar embeds as the constant polynomial. Every non-zero element times its inverse is one, and division is multiplication by the inverse.",
  ["inputs"],"all pairs of elements in every combination of stored dimension",
  "Tests check a handful of fixed vectors; negation of full-form elements is not tested at all.",
  [f5],[("add/sub/mul/neg/square",f5),("inv / inverse / Div",f5)],["F5G operators, ff::Field and FieldExtension methods"])
p("C06","Extension elements: equality, order and powers are consistent",
  "For all cubic and quintic extension elements, equality (`_eq`) is equality of the polynomial; for two elements held in the same form (both with all coefficients, or both as embedded base elements) the four comparison predicates (greater, at least, less, at most) are one total lexicographic order starting from the constant coefficient and agree with equality; and exponentiation by any machine-size exponent is repeated multiplication with x^0 = 1.",
  ["inputs"],"all pairs of elements and all exponents",
  "Tests compare a handful of elements that differ in the first coefficient and raise to a few small powers.",
  [f3,f5],[("_eq / gt / lt / geq / leq",f3),("_eq / gt / lt / geq / leq",f5),("exp",f3+" and "+f5)],["FieldExtension::{_eq,gt,geq,lt,leq,exp}, PartialEq"])
pu="starky/src/polutils.rs"
p("C07","Polynomial helpers compute what they name, for every length",
  "Evaluating a coefficient vector at a point returns the sum of c_i*x^i (zero for the empty vector); scaling by a geometric progression multiplies coefficient i by init*acc^i; batch inversion returns, position by position, the inverse of each element when none is zero, and nothing for the empty list.",
  ["inputs"],"coefficient and element vectors of every length and content, every point",
  "Tests run batch inversion on one fixed-size vector; evaluation and scaling have no direct test.",
  [pu],[("eval_pol",pu),("pol_mul_axi",pu),("batch_inverse",pu)],["polutils functions"])
ff_="starky/src/fft.rs"; fp="starky/src/fft_p.rs"; fw="starky/src/fft_worker.rs"
p("C08","FFT evaluates the polynomial on the whole subgroup, and inverts",
  "The forward transform of 2^k coefficients returns the value of that polynomial at every power of the primitive 2^k-th root of unity, in natural order, for each of the interleaved polynomials separately; the inverse transform returns the unique coefficients that the forward transform maps back. The single-polynomial and the parallel block version give the same values.",
  ["inputs","configurations"],"all coefficient vectors, all sizes 2^k, all numbers of interleaved polynomials",
  "Tests do a round trip on one or two random vectors, which a transform that is wrong but self-inverse also passes.",
  [ff_,fp,fw],[("FFT::fft / ifft",ff_),("_fft / bit_reverse / transpose / inv_bit_reverse",fp),("_fft_block",fw)],["FFT::{fft,ifft}, fft_p::{fft,ifft}"])
p("C09","Low-degree extension is the shifted-coset evaluation of the same polynomial",
  "Extending the evaluations of polynomials on a subgroup of size 2^k to 2^m >= 2^k points returns, for every polynomial independently, the values at shift*w^i of the unique polynomial of degree below 2^k with the given evaluations. The result does not depend on how rows are split among worker threads or blocks.",
  ["inputs","configurations"],"all evaluation tables, sizes k <= m, numbers of polynomials, worker counts",
  "One test size is checked against one other implementation; block splitting depends on size and CPU count.",
  [fp,fw,pu],[("interpolate / interpolate_bit_reverse / interpolate_prepare",fp),("interpolate_prepare_block",fw),("extend_pol",pu)],["fft_p::interpolate, polutils::extend_pol"])
po="starky/src/poseidon_opt.rs"
p("C10","Goldilocks Poseidon is the specified permutation",
  "For every input of eight field elements and capacity of four, the hash returns the requested number of leading state words of the width-12 Poseidon permutation (x^7, 4+22+4 rounds, with the published round constants and matrix), computed from input followed by capacity. The optimised sparse-matrix evaluation equals the textbook rounds on every state.",
  ["inputs"],"all 12-word states",
  "Tests compare three or four fixed vectors; a slip that needs a particular state value or output length is not seen.",
  [po,"starky/src/poseidon_constants_opt.rs"],[("hash_inner / pow7",po),("round-constant and matrix tables","starky/src/poseidon_constants_opt.rs")],["poseidon_opt::Poseidon::hash"])
pb="starky/src/poseidon_bn128.rs"; pbo="starky/src/poseidon_bn128_opt.rs"; pl="starky/src/poseidon_bls12381.rs"; plo="starky/src/poseidon_bls12381_opt.rs"
p("C11","BN128 and BLS12-381 Poseidon: the published permutation at every width",
  "For every number of inputs from 1 to 16, every input and every initial state, each of the four Poseidon modules (BN128 and BLS12-381, textbook and optimised) returns the leading words of the Poseidon permutation of its published parameter set (width = inputs + 1, x^5, 8 full rounds, initial state first). BN128 optimised and textbook share one parameter set and so agree everywhere; the optimised BLS12-381 module uses the Neptune set. The single-word hash is word 0 of the state (word 1 for the Neptune set). Zero inputs or more than 16 are refused with an error.",
  ["inputs"],"all input vectors of 1..16 scalars, all initial states, both curves, all four modules",
  "Tests compare fixed vectors of a few lengths only.",
  [pb,pbo,pl,plo],[("hash / hash_ex (textbook)",pb),("hash / hash_ex (optimised)",pbo),("same, BLS12-381",plo)],["Poseidon::{hash,hash_ex}"])
lb="starky/src/linearhash_bn128.rs"; ll="starky/src/linearhash_bls12381.rs"
p("C12","Leaf hashing absorbs every field element of a row",
  "The digest of a row of base-field elements is the sponge over the row packed three elements per scalar and sixteen scalars per permutation call, in order, with the running digest as initial state; rows of at most four elements are packed without hashing. Every element of the row at every position enters the digest, for both curves.",
  ["inputs"],"rows of every length and content",
  "Tests hash a few row lengths with patterned contents; chunk-boundary lengths and late positions are not covered.",
  [lb,ll],[("hash_element_array",lb),("hash_element_array",ll),("hash_element_matrix",lb)],["LinearHashBN128 / LinearHashBLS12381"])
mb="starky/src/merklehash_bn128.rs"; ml="starky/src/merklehash_bls12381.rs"
p("C13","Merkle commitments: every row opens against the root",
  "For every matrix of base-field elements with at least one row, the tree's root is the 16-ary hash tree over the row digests padded with zero digests, and for every row index the opening returns that row together with a path that verification accepts against the root. Asking for a row outside the matrix is refused.",
  ["inputs"],"all heights, widths and contents, all row indices",
  "Tests open one or two fixed indices on four tree shapes, and compare no root to an independent computation of the tree.",
  [mb,ml],[("merkelize / merklize_level / get_n_nodes",mb),("get_group_proof / merkle_gen_merkle_proof",mb),("same, BLS12-381",ml)],["MerkleTree trait of MerkleTreeBN128 and MerkleTreeBLS12381"])
p("C14","Merkle verification binds row and index to the root",
  "Verification accepts a row, an index and a path for a root only if hashing the row and folding it up the path at the positions given by the index yields that root. So for a tree of at least two rows, a row whose digest differs from the committed one, or a path altered where the row's own digest belongs, is rejected for every index.",
  ["inputs"],"all trees, indices, rows and (possibly adversarial) paths",
  "Every test only verifies honest openings; none tries a wrong row, index or path.",
  [mb,ml],[("verify_group_proof / calculate_root_from_group_proof / merkle_calculate_root_from_proof",mb),("same, BLS12-381",ml)],["MerkleTree::verify_group_proof"])
t1="starky/src/transcript.rs"; t2="starky/src/transcript_bn128.rs"; t3="starky/src/transcript_bls12381.rs"
p("C15","Transcript challenges depend on everything absorbed, in order",
  "The sequence of challenges drawn from a transcript is a function of exactly the sequence of absorbed values and earlier draws: it equals the sponge with fixed rate, zero padding of a partial block and chaining of the state. Anything absorbed discards the challenges still buffered, so every challenge drawn afterwards depends on it.",
  ["histories"],"all interleavings of absorb and draw operations of any length, for all three transcripts",
  "No test drives a transcript at all; only whole-prover runs, not part of the passing suite, touch it.",
  [t1,t2,t3],[("put / add_1 / update_state",t2),("get_fields1 / get_field / get_fields253",t2),("same, BLS12-381 and Goldilocks",t1+" "+t3)],["Transcript trait"],[("pending, out, out3, state","absorbed but unhashed values; undrawn outputs; chaining value",t2)])
p("C16","Query positions are unbiased bits of the challenge and always in range",
  "Drawing n query positions of b bits returns exactly n numbers below 2^b, formed from consecutive low-to-high bits of freshly drawn transcript words (63 usable bits per Goldilocks word, 253 per scalar), no bit being used twice.",
  ["inputs","histories"],"all n >= 1 and b >= 1, all transcript states",
  "No test calls it.",
  [t1,t2,t3],[("get_permutations",t1),("get_permutations",t2),("get_permutations",t3)],["Transcript::get_permutations"])
d="starky/src/digest.rs"; h="starky/src/helper.rs"
p("C17","Digests and scalars convert without loss",
  "Storing a scalar of either curve as four base-field words and reading it back returns the same scalar; packing four base-field words into a scalar returns their base-2^64 value; the big-integer helpers return the integer a scalar stands for, and reducing a big integer into the base field is reduction modulo its prime.",
  ["inputs"],"all scalars, all digests",
  "Tests convert random scalars; limbs at or above the Goldilocks modulus occur with probability 2^-32.",
  [d,h],[("from_scalar / as_scalar / new",d),("to_bn128 / to_bls12381",d),("fr_to_biguint / biguint_to_be / biguint_to_fr",h)],["ElementDigest, helper functions"])
p("C18","Proof and field JSON survives a round trip",
  "Serialising any base-field, cubic or quintic extension element, any Merkle digest, any Merkle tree or any vector of 64-bit words to JSON and reading it back yields an equal value. The JSON of extension elements, digests and scalars holds canonical decimal integers; that of word vectors, the words.",
  ["inputs"],"all values of the serialised types",
  "Tests round-trip a few fixed values.",
  ["starky/src/serializer.rs",d,"recursion/src/io_utils.rs",GL],[("Serialize / Deserialize for F3G and F5G","starky/src/serializer.rs"),("Serialize / Deserialize for ElementDigest",d),("write_vec_to_file / read_vec_from_file","recursion/src/io_utils.rs")],["serde round trip"])
rf="algebraic-gpu/src/r1cs_file.rs"; rd="algebraic-gpu/src/reader.rs"
p("C19","R1CS files are read exactly as the format defines, or refused",
  "Reading a well-formed binary R1CS file returns the header counts, every constraint with its terms in order, and the wire map exactly as encoded, wherever the sections stand in the file. Bad magic, version, prime, field size, section sizes, or data that ends early gives an error, never a silently shorter or different circuit.",
  ["inputs"],"all byte strings presented as an R1CS file",
  "No passing test reads an R1CS file with constraints checked, and none a malformed one.",
  [rf,rd],[("from_reader / read_header / read_constraints / read_map",rf),("load_r1cs_from_bin",rd)],["r1cs_file::from_reader, reader::load_r1cs"])
p("C20","Witness files are read exactly, or refused",
  "Reading a well-formed binary witness file returns all its field elements in order. Bad magic, version, section layout, wrong prime, a count that does not match the data, a value that is not a field element or data that ends early gives an error, never a shorter or shifted witness.",
  ["inputs"],"all byte strings presented as a witness file",
  "No passing test reads a witness file, well-formed or not.",
  [rd],[("load_witness_from_bin_reader / load_witness_from_array",rd)],["reader::load_witness_from_bin_reader"])
cc="algebraic-gpu/src/circom_circuit.rs"
p("C21","The circuit handed to the prover is the R1CS, constraint for constraint",
  "Synthesising a circuit allocates wire 0 as the constant one, the public wires as inputs in order and the others as auxiliary variables, and enforces for every R1CS constraint the product of exactly its left and right linear combinations equal to its output combination. The public inputs reported for a witness are its public wires in order.",
  ["inputs","programs"],"all circuits and witnesses",
  "No passing test synthesises a circuit.",
  [cc],[("synthesize",cc),("get_public_inputs",cc)],["bellman ConstraintSystem calls of CircomCircuit::synthesize"])
wc="algebraic-gpu/src/witness/witness_calculator.rs"; wm="algebraic-gpu/src/witness/mod.rs"
p("C22","Signals and witness values cross the wasm boundary unchanged",
  "Splitting a non-negative integer below 2^(32n) into n 32-bit words (most significant first) and joining them again returns the integer, and the signal-name hash is the 64-bit FNV-1a of the name. Flattening nested JSON inputs keeps every number, in order.",
  ["inputs"],"all integers and sizes, all names, all nested JSON arrays",
  "Tests use three tiny circuits with small inputs.",
  [wc,wm],[("to_array32 / from_array32",wc),("fnv",wm),("flat_array",wc)],["witness functions"])
p("C23","Joining two recursion inputs keeps both, apart",
  "Joining two recursive-proof input files writes every entry of the first under the prefix a_ and every entry of the second under b_, unchanged, plus the shared constant root of the first and its public inputs without the last four (all of them when there are fewer than four); nothing of either is lost or mixed with the other.",
  ["inputs"],"all pairs of JSON input objects",
  "No test calls it.",
  ["starky/src/zkin_join.rs"],[("join_zkin","starky/src/zkin_join.rs")],["output file of join_zkin"])
ty="starky/src/types.rs"
p("C24","Bit-reversal, logarithm and transposition helpers are exact",
  "For every size 2^k up to 2^32 the index reversal is the reversal of the k low bits (an involution on the domain), whatever was asked before; the integer logarithm is the position of the highest set bit for every 32-bit value; the matrix transposition moves every element to the transposed place for each interleaved polynomial.",
  ["inputs","histories"],"all indices, all k up to 32, all call orders, all 32-bit values",
  "Tests compare a few sizes; the reversal keeps a cache shared by all calls, so results could depend on earlier calls.",
  [fp,h],[("BR / BRs (cached)",fp),("log2_any",h),("transpose / bit_reverse",fp)],["fft_p::BR, helper::log2_any, fft_p::transpose"])
p("C25","Compressor gates encode the field operations they stand for",
  "The generated compressor PIL pins every public input to one trace cell, twelve per row, for any number of publics, and its gate polynomials are satisfied exactly by rows whose cells obey the corresponding operation: plonk gates, one Poseidon round with the width-12 matrix, cubic-extension multiply-add, degree-four evaluation and FFT4.",
  ["inputs","configurations"],"all sizes and numbers of publics; all row values",
  "One test compares the text for a single configuration to nothing but itself compiling.",
  ["recursion/src/compressor12/compressor12_pil.rs"],[("render","recursion/src/compressor12/compressor12_pil.rs")],["text returned by render"])
p("C26","PIL numbers parse to the field element they denote",
  "A decimal or hexadecimal numeral of any size and sign in a PIL program parses to its value modulo the Goldilocks prime.",
  ["inputs"],"all numerals",
  "Tests never parse a negative or over-long numeral.",
  [ty],[("parse_pil_number",ty)],["types::parse_pil_number"])
gj="recursion-gnark/ffi/src/json_util.rs"; gt="recursion-gnark/ffi/src/traits.rs"
p("C27","Curve points read from JSON are on the curve, and round-trip",
  "Reading a Groth16 proof or verification key from JSON accepts a point only if it is on the curve and in the prime-order subgroup, never crashes on malformed points, and writing a value and reading it back yields an equal value.",
  ["inputs"],"all JSON texts, all points of both groups",
  "One test reads one honest proof and key.",
  [gj,gt],[("g1/g2_from_strings_projective, serialize_*, visitors",gt),("G1SeqVisitor",gj)],["serde of Groth16Proof / JsonVerificationKey"])
p("C28","STARK proofs of true statements verify, of false ones do not",
  "For every PIL program and satisfying trace the prover's output is accepted by the verifier, and no output for an unsatisfied trace is accepted except with negligible probability.",
  ["programs","inputs"],"all programs, traces and adversarial provers",
  "Tests run a few programs end to end, honest proofs only.",
  ["starky/src/stark_gen.rs","starky/src/stark_verify.rs","starky/src/fri.rs"],[("stark_gen / stark_verify / FRI","starky/src")],["stark_verify"])
p("C29","Generated Circom and Solidity verifiers accept what the native one accepts",
  "For every setup, the generated recursive verifier circuit accepts a proof if and only if the native verifier does.",
  ["programs","inputs"],"all setups and proofs","Tests compare generated text for a few setups.",
  ["starky/src/stark_verifier_circom.rs","starky/src/pil2circom.rs"],[("pil2circom","starky/src/pil2circom.rs")],["generated circom"])
p("C30","zkVM execution proofs match EVM execution",
  "Proving a block with the zkVM succeeds exactly when re-executing it gives the claimed state.",
  ["programs","histories"],"all blocks","Tests need network data.",["zkvm/src/lib.rs"],[("zkvm executor","zkvm/src")],["zkvm"])
p("C31","Vectorised Poseidon equals the scalar one",
  "On CPUs with AVX2 or AVX-512 the vectorised field and Poseidon code returns the same values as the portable code for every input.",
  ["inputs","configurations"],"all inputs, CPU feature sets","The build used by the tests has these features off.",
  ["starky/src/arch/x86_64","fields/src/arch"],[("avx2/avx512 poseidon","starky/src/arch/x86_64")],["Poseidon::hash"])
if __name__=="__main__":
    out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
    with open(out,"w") as f:
        for q in P: f.write(json.dumps(q,ensure_ascii=False)+"\n")
    print(len(P))
