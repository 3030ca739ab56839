//! C10, C11: Poseidon against the textbook permutation with independently generated parameters
use fields::field_gl::{Fr as FGL, FrRepr};
use fields::PrimeField as _;
use num_bigint::BigUint;
use num_traits::{One, Zero};
use starky::poseidon_opt::Poseidon;
use vdriver::curve::*;
use vdriver::*;

fn el(w: u64) -> FGL { FGL::from_repr(FrRepr([w % P])).unwrap() }
use vdriver::glh::perm;
fn hash_gl(w: &[u64]) -> Result<(), String> {
    let s: Vec<u64> = w[..12].iter().map(|x| x % P).collect();
    let want = perm(&s);
    let v: Vec<FGL> = s.iter().map(|x| el(*x)).collect();
    let out = (w[12] % 13) as usize;
    for o in [out, 12] {
        let r = Poseidon::new().hash(&v[..8], &v[8..], o).map_err(|e| format!("refused: {e}"))?;
        ensure_eq!(r.iter().map(|x| x.as_int()).collect::<Vec<_>>(), want[..o].to_vec(), "hash, {o} words");
    }
    Ok(())
}
fn len_gl(w: &[u64]) -> Result<(), String> {
    let (a, b) = ((w[0] % 20) as usize, (w[1] % 8) as usize);
    if a == 8 && b == 4 { return Ok(()); }
    let (x, y) = (vec![el(w[2]); a], vec![el(w[2]); b]);
    if Poseidon::new().hash(&x, &y, 4).is_ok() { return Err(format!("accepts {a} inputs, capacity {b}")); }
    Ok(())
}

macro_rules! curve_test { ($name:ident, $md:ident, $fr:ident, $set:expr, $word:expr, $opt:expr) => {
    fn $name(w: &[u64]) -> Result<(), String> {
        let n = (w[0] % 16 + 1) as usize;
        let p = modulus($set);
        let st: Vec<BigUint> = (0..=n).map(|k| BigUint::new(w[1 + 4 * k..5 + 4 * k].iter().flat_map(|x| [*x as u32, (*x >> 32) as u32]).collect()) % &p).collect();
        let want = textbook($set, &st);
        let fs: Vec<starky::$fr::Fr> = st.iter().map(|x| ff_ce::PrimeField::from_str(&x.to_string()).unwrap()).collect();
        let h = starky::$md::Poseidon::new();
        let b = |f: &starky::$fr::Fr| starky_big(f);
        ensure_eq!(b(&h.hash(&fs[1..], &fs[0]).map_err(|e| format!("refused: {e}"))?), want[$word], "hash of {n}");
        let out = (w[69] % (n as u64 + 2)) as usize;
        for o in [n + 1, out] {
            ensure_eq!(h.hash_ex(&fs[1..], &fs[0], o).map_err(|e| format!("refused: {e}"))?.iter().map(b).collect::<Vec<_>>(), want[..o].to_vec(), "hash_ex of {n}");
        }
        let bad = if w[69] % 5 == 0 { 0 } else { 17 + (w[69] % 20) as usize };
        if h.hash(&vec![fs[0]; bad], &fs[0]).is_ok() || h.hash_ex(&vec![fs[0]; bad], &fs[0], 1).is_ok() { return Err(format!("accepts {bad} inputs")); }
        Ok(())
    }
} }
fn starky_big<F: ff_ce::PrimeField>(f: &F) -> BigUint {
    let r = f.into_repr();
    let mut v = vec![];
    ff_ce::PrimeFieldRepr::write_le(&r, &mut v).unwrap();
    BigUint::from_bytes_le(&v)
}
curve_test!(bn_opt, poseidon_bn128_opt, field_bn128, "bn128", 0, true);
curve_test!(bls_opt, poseidon_bls12381_opt, field_bls12381, "bls12381_opt", 1, true);
curve_test!(bn_ref, poseidon_bn128, field_bn128, "bn128", 0, false);
curve_test!(bls_ref, poseidon_bls12381, field_bls12381, "bls12381", 0, false);

fn gw(g: &mut G) -> Vec<u64> {
    let mut v = vec![if g.i < 16 { g.i } else { g.below(16) }];
    for _ in 0..17 {
        match g.below(4) {
            0 => v.extend([g.word(), 0, 0, 0]),
            1 => v.extend([g.word(), g.word(), g.word(), 0]),
            _ => v.extend((0..4).map(|_| g.next()).collect::<Vec<_>>()),
        }
    }
    v.push(g.next());
    v
}
fn main() {
    let _ = (BigUint::one(), BigUint::zero());
    main_with(vec![
        T { prop: "C10", name: "hash_gl", min: 600, max: 0, gen: |g| { let mut v = g.fes(12); v.push(g.next()); v }, check: hash_gl },
        T { prop: "C10", name: "len_gl", min: 200, max: 2000, gen: |g| if g.i < 160 { vec![g.i % 20, g.i / 20, 1] } else { g.words(3) }, check: len_gl },
        T { prop: "C11", name: "bn_opt", min: 32, max: 0, gen: gw, check: bn_opt },
        T { prop: "C11", name: "bls_opt", min: 32, max: 0, gen: gw, check: bls_opt },
        T { prop: "C11", name: "bn_ref", min: 32, max: 0, gen: gw, check: bn_ref },
        T { prop: "C11", name: "bls_ref", min: 32, max: 0, gen: gw, check: bls_ref },
    ]);
}
