"""What each property's check consists of."""
from props_common import *

TRUST = [
    "vc engine: symbolic semantics of the Rust subset it accepts (anything outside is reported undecided, never proved)",
    "syn 2 parser (tools/rastdump) for the syntax of the current sources",
    "z3 (linear integer arithmetic, bit-vectors); polynomial identities are decided by normalisation in vc/poly.py",
]
ASSUME = [
    "the compiler translates the verified functions as the Rust reference says (release profile: wrapping integer arithmetic)",
]

GL = ["fields/src/field_gl.rs"]
STK = ["starky/src/" + f for f in ("linearhash_bn128.rs", "linearhash_bls12381.rs", "merklehash_bn128.rs", "merklehash_bls12381.rs", "transcript_bn128.rs", "transcript_bls12381.rs", "transcript.rs")]
DEP = ["base-field operations by their contracts, proved in C01-C03", "Poseidon as a function of state and inputs (C10, C11 give its meaning)", "scalar-field operations are those of the prime field (ff_ce); num-bigint computes integers"]
FFT = ["starky/src/" + f for f in ("polutils.rs", "fft.rs", "fft_p.rs", "fft_worker.rs", "helper.rs", "constant.rs")]
DEPX = ["extension-field operations by their contracts (C04, C05): a commutative algebra over the base field, results in normal form", "rayon runs every closure of a parallel iterator exactly once, on disjoint parts"]
ALG = ["algebraic-gpu/src/" + f for f in ("r1cs_file.rs", "reader.rs", "circom_circuit.rs", "witness/witness_calculator.rs", "witness/mod.rs")]
DEPF = ["std::io Read/Seek and byteorder by contract (exact reads, end of data is an error)", "ff::PrimeField by contract: from_repr succeeds exactly for little-endian values below the modulus"]
PROPS = {
    "C01": dict(obls=[("gl", "c01")], driver=[("fields", "gl")], files=GL, hint=gl_hint, exact=True),
    "C02": dict(obls=[("gl", "c02")], driver=[("fields", "gl")], files=GL, hint=gl_hint, exact=True),
    "C03": dict(obls=[("gl", "c03")], driver=[("fields", "gl")], files=GL, hint=gl_hint, exact=True),
    "C04": dict(obls=[("ext", "c04")], driver=[("ext", "st")], files=["starky/src/f3g.rs"], hint=ext_hint, exact=True),
    "C05": dict(obls=[("ext", "c05")], driver=[("ext", "st")], files=["starky/src/f5g.rs"], hint=ext_hint, exact=True),
    "C06": dict(obls=[("ext", "c06")], driver=[("ext", "st")], files=["starky/src/f3g.rs", "starky/src/f5g.rs"], hint=ext_hint, exact=True),
    "C10": dict(obls=[("pos", "c10")], driver=[("poseidon", "st")], files=["starky/src/poseidon_opt.rs"], hint=pos_hint,
                assumptions=["base-field operations by their contracts, proved in C01-C03"]),
    "C11": dict(obls=[("pos", "c11")], driver=[("poseidon", "st")], files=["starky/src/poseidon_bn128_opt.rs"], hint=posc_hint,
                assumptions=["scalar-field operations are those of the prime field (derived by the ff_ce crate, outside /repo)", "ff::from_hex parses hexadecimal (ff_ce)"]),
    "C12": dict(obls=[("stk", "c12")], driver=[("stk", "st")], files=STK, hint=stk_hint, assumptions=DEP + ["a digest's four words are those of C17's contract (raw words below the Goldilocks modulus)"]),
    "C13": dict(obls=[("stk", "c13"), ("tree", "c13")], driver=[("stk", "st")], files=STK, hint=stk_hint, assumptions=DEP + ["leaf and node hashing by their contracts (C12)", "rayon runs every closure of a parallel iterator exactly once"]),
    "C14": dict(obls=[("stk", "c14")], driver=[("stk", "st")], files=STK, hint=stk_hint, assumptions=DEP + ["leaf and node hashing by their contracts (C12)"]),
    "C15": dict(obls=[("stk", "c15")], driver=[("stk", "st")], files=STK, hint=stk_hint, assumptions=DEP),
    "C16": dict(obls=[("stk", "c16")], driver=[("stk", "st")], files=STK, hint=stk_hint, assumptions=DEP),
    "C17": dict(obls=[("stk", "c17")], driver=[("stk", "st")], files=["starky/src/digest.rs", "starky/src/helper.rs"], hint=stk_hint, assumptions=DEP),
    "C07": dict(obls=[("fft", "c07")], driver=[("fft", "st")], files=FFT, hint=fft_hint, assumptions=DEPX),
    "C08": dict(obls=[("fft", "c08")], driver=[("fft", "st")], files=FFT, hint=fft_hint, assumptions=DEPX),
    "C09": dict(obls=[("fft", "c09")], driver=[("fft", "st")], files=FFT, hint=fft_hint, assumptions=DEPX),
    "C24": dict(obls=[("fft", "c24")], driver=[("fft", "st")], files=FFT, hint=fft_hint, assumptions=DEPX),
    "C19": dict(obls=[("r1cs", "c19"), ("alg", "c19")], driver=[("alg", "alg")], files=ALG[:3], hint=alg_hint, assumptions=DEPF),
    "C20": dict(obls=[("alg", "c20")], driver=[("alg", "alg")], files=ALG[:2], hint=alg_hint, assumptions=DEPF),
    "C21": dict(obls=[("alg", "c21")], driver=[("alg", "alg")], files=ALG[2:3], hint=alg_hint, assumptions=[DEPF[1], "bellperson's LinearCombination and ConstraintSystem by contract (linear combinations add terms; alloc and enforce record what they are given)", "serde_json prints a list of strings"]),
    "C18": dict(obls=[("ser", "c18")], driver=[("ser", "st")], files=["starky/src/serializer.rs", "starky/src/digest.rs", "starky/src/field_bn128.rs", "starky/src/field_bls12381.rs", "recursion/src/io_utils.rs"], hint=ser_hint,
                assumptions=["serde data model by contract (a serializer prints what it is given, a deserializer presents it to the visitor method of its kind)", "code generated by derive(Serialize, Deserialize) round-trips each field", "ff_ce from_str reads decimal numerals"] + DEP[:1]),
    "C23": dict(obls=[("ser", "c23")], driver=[("ser", "st")], files=["starky/src/zkin_join.rs"], hint=ser_hint, assumptions=["serde_json reads and prints documents by contract; its Map by contract", "File::open/create by contract (create truncates)"]),
    "C25": dict(obls=[("pil", "c25")], driver=[("pil", "rec")], files=["recursion/src/compressor12/compressor12_pil.rs"], hint=pil_hint, exact=True,
                assumptions=["the PIL compiler (powdr, outside /repo's buildable part) reads the language as documented: names, constants, committed columns, next-row marks, identities, publics and connections", "data/poseidon_gl.json holds the published width-12 matrix"]),
    "C26": dict(obls=[("ser", "c26")], driver=[("ser", "st")], files=["starky/src/types.rs"], hint=ser_hint, assumptions=["num-bigint and the standard library read numerals by contract"]),
    "C27": dict(obls=[("ser", "c27")], driver=[("gn", "gn")], files=["recursion-gnark/ffi/src/traits.rs", "recursion-gnark/ffi/src/json_util.rs"], hint=gn_hint,
                assumptions=["ark-ec/ark-ff/ark-bls12-381 by contract (decimal text of field elements, curve membership and subgroup tests as predicates, Jacobian to affine conversion)", "serde data model and derive by contract"]),
    "C22": dict(obls=[("alg", "c22")], driver=[("alg", "alg")], files=ALG[3:], hint=alg_hint, assumptions=["num-bigint computes integers", "the fnv crate is FNV-1a", "the wasm instance by the contract of circom's generated calculator (shared memory words, signal writes and reads)"]),
}


def level(pid):
    import os
    from importlib.machinery import SourceFileLoader
    c = SourceFileLoader("claims", os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools", "claims.py")).load_module()
    return c.CLAIMS.get(pid, {}).get("level", "proof")
