VC = "deductive verification of the real functions: contracts discharged by symbolic execution of the current source's syntax tree (own VC generator vc/, z3 + polynomial normalisation)"
CLAIMS = {}


def claim(i, note, technique=VC, level="proof"): CLAIMS[i] = dict(technique=technique, level=level, note=note)


claim("C01", "Every operator's contract (exact result mod p, canonical, no panic) is discharged for all inputs from the current source text. Trusted: the VC generator's Rust semantics, syn parser, z3.")
claim("C02", "inverse, Div, exp, pow, legendre and sqrt proved for all inputs (loop invariants for exp/sqrt, primality of p by Pocklington); callee contracts of the C01 operations are assumed here and proved in C01. Trusted: VC generator, syn, z3.")
claim("C03", "Conversions, order and FrRepr shifts/bit tests proved for all inputs. Trusted: VC generator, syn, z3.")
claim("C04", "F3G operations in both stored forms proved equal to polynomial arithmetic mod x^3-x-1 over an abstract prime field; base-field contracts proved in C01/C02. Trusted: VC generator, syn, z3; unsafe slice views modelled.")
claim("C05", "As C04 for F5G mod x^5-3.")
claim("C06", "_eq, the four order predicates (same stored form, as the code asserts) and exp proved for all elements / all 64-bit exponents. Trusted: VC generator, syn, z3.")
claim("C10", "hash proved equal to the textbook permutation (published constants) for all 12-word states and every output length, every other input/capacity length up to 16 refused; by canonical normal forms over S-box outputs. Trusted: VC generator, syn, the independent constants in vc/data.")
claim("C11", "all four curve modules, widths 2..17, proved equal to the published permutation of their parameter set for all states; lengths 0 and 17..34 refused. ff_ce field operations assumed. Trusted: VC generator, syn, Grain-LFSR constants in vc/data.")
B = "contracts on the real functions discharged by symbolic execution for all contents at the listed sizes (bounded, not counted as proved): own VC generator vc/ over the current source"
claim("C12", "For rows of every length and matrices of every shape (loops cut by invariants), hash_node and the Montgomery packing: exactly the specified sponge over the packed groups, Poseidon uninterpreted. The same is also run unrolled at listed lengths, which give the counterexamples.")
claim("C13", "For every height up to 2^32 rows, every width up to 2^24, every number of workers and all contents: the number of nodes, every node of the tree, the root, the opening of every row (refused from the height on) and its acceptance by verification, each function against its contract, loops and recursions cut by invariants; row digest by the contract of C12, Poseidon uninterpreted. Also executed at listed shapes, which give the counterexamples.")
claim("C14", "For every number of levels, index, row, path and root: verification is equality of the root with the fold of the row digest along the index (recursion cut by its contract; row digest by the contract of C12). Binding then rests on collision resistance of Poseidon, which is assumed. Also unrolled at listed depths.")
claim("C15", "For every reachable control state (pending and buffered lengths) and all contents, put/get_fields1/get_field make exactly the specified transition, so by induction over the history all challenges are specified; put lists up to 20 groups.")
claim("C16", "For every number of positions and every transcript: position i is bits b*i.. of the fresh words, and as many words as the bits need are drawn; each b from 1 to 64 (Goldilocks) or 1 to 32 (the two curves) is its own obligation, the loop over the positions cut by an invariant, the draw of the next word by its contract (proved from every state). Wider positions on the curves at listed sizes (bounded). Also executed at listed sizes, which give the counterexamples.")
claim("C17", "For all scalars and words: digest round trip, packing, big-integer helpers and reduction. Known finding: a scalar one of whose raw words is not below the Goldilocks modulus cannot be stored (panics).")
claim("C07", "For every number of coefficients or elements and all their values: the three helpers (loops cut by invariants, extension field by contract). Also unrolled at listed lengths, which give the counterexamples.")
claim("C08", "For all inputs: both transforms, both implementations, at the listed sizes, polynomial counts, worker counts, block sizes and earlier uses of the object. Bounded in the size.", B, "model_checking")
claim("C09", "For all inputs: interpolate, extend_pol and interpolate_prepare at the listed sizes, polynomial counts, worker counts and block sizes. Bounded in the size.", B, "model_checking")
claim("C24", "log2_any for every 32-bit value; BR for 0 to 32 bits, every index and any contents of its cache that earlier calls can leave (loop cut by an invariant); BRs, bit_reverse and transpose for every size up to 2^32 rows and any number of polynomials. Also unrolled at listed sizes and histories, which give the counterexamples.")
claim("C19", "For every byte string of every length, over each of the three fields: read exactly when it is a well-formed file over the field, wherever its sections stand (the last of each type counts), and then exactly what it says; otherwise refused without a panic. Each reader against its contract, loops over sections, constraints, terms, wires, gates and uses cut by invariants. Also executed at listed shapes, orders and defects, which give the counterexamples.")
claim("C20", "Every byte string of every length: accepted exactly when it is a well-formed witness file over the field, with exactly its values, else refused without a panic. Loop invariants over the elements; no bound.")
claim("C21", "For every circuit (any number of wires, public inputs, constraints and terms), with and without a witness and a wire map, and any allocation refused: the allocations, their values, every constraint's three combinations, the public inputs (loops over wires, constraints and terms cut by invariants; the constraint system by contract). Also executed at listed shapes, which give the counterexamples.")
claim("C22", "For every number of words and every value: splitting into 32-bit words and joining (P(n) by its recurrence; loops cut by invariants). Flattening by structural induction: any list, any nesting, each kind of leaf, after anything already there. FNV for every name. Input values and witnesses through the instance by contract, at the listed shapes (bounded, not counted as proved). Also executed at listed sizes, which give the counterexamples.")
claim("C18", "For all extension elements in both stored forms, all digests and scalars of each field and all vectors of words: the text is the canonical decimals and reads back as the value. The derive of serde (base-field elements, Merkle trees) is trusted and only cross-checked by running.")
claim("C23", "For every two documents, of any number of entries and of publics (each kind of publics, rootC and publics present or absent): every entry under its prefix, unchanged, the first's rootC and its publics without the last four, nothing else. The loops over the documents are cut by invariants that say which entries the output map holds. serde_json by contract.", VC, "proof")
claim("C26", "For every decimal or hexadecimal numeral of either sign, however long: its value modulo the prime. The readers of num-bigint and std by contract.")
claim("C27", "For all points (infinity included), target-group elements and scalars: writing and reading back; for documents of the listed shapes with arbitrary texts: no panic, and only points on the curve and in the subgroup are accepted. arkworks by contract; sequences up to 17 points.", B, "model_checking")
claim("C25", "For every number of rows and of publics (up to 2^32; the loops over the publics are cut by an invariant on the text): the text render returns is read back as PIL; each public is declared and pinned once at its cell, and each gate's identities span, over F_p, exactly the equations of its operation (so they hold on the same rows, for all values). Also executed at listed numbers of publics, which give the counterexamples.")
NA = {
    "C28": "whole-protocol soundness/completeness of STARK is a probabilistic cryptographic statement over the entire prover; no function contract expresses it, and stark_gen/stark_verify/fri are not buildable here (profiler_macro, git dependencies).",
    "C29": "the object is generated Circom text whose meaning lives in another language's compiler; the module cannot be built here and no verifier for Circom constraints is present.",
    "C30": "powdr (git dependency) is absent; the crate cannot be parsed into anything checkable offline.",
    "C31": "std::arch intrinsics behind feature flags that are off in every buildable configuration; no installed verifier gives semantics to AVX2/AVX-512 intrinsics.",
}
