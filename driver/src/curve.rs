//! Independent Poseidon over the two curves' scalar fields: Grain-LFSR constants, textbook rounds
use num_bigint::BigUint;
use num_traits::{One, Zero};
use std::collections::HashMap;
use std::sync::{Arc, Mutex, OnceLock};

pub fn modulus(set: &str) -> BigUint {
    (if set.starts_with("bn128") { "21888242871839275222246405745257275088548364400416034343698204186575808495617" }
     else { "52435875175126190479447740508185965837690552500527637822603658699938581184513" }).parse().unwrap()
}
struct Grain { s: Vec<u8>, k: usize }
impl Grain {
    fn new(sbox: u64, n: u64, t: u64, rf: u64, rp: u64) -> Self {
        let mut s = vec![];
        let mut put = |v: u64, k: u32| for i in (0..k).rev() { s.push((v >> i & 1) as u8) };
        put(1, 2); put(sbox, 4); put(n, 12); put(t, 12); put(rf, 10); put(rp, 10); put((1 << 30) - 1, 30);
        let mut g = Grain { s, k: 0 };
        for _ in 0..160 { g.nb(); }
        g
    }
    fn nb(&mut self) -> u8 {
        let k = self.k;
        let a = |i: usize| self.s[(k + i) % 80];
        let x = a(62) ^ a(51) ^ a(38) ^ a(23) ^ a(13) ^ a(0);
        self.s[k] = x;
        self.k = (k + 1) % 80;
        x
    }
    fn bit(&mut self) -> u8 { while self.nb() == 0 { self.nb(); } self.nb() }
    fn num(&mut self, n: u64) -> BigUint {
        let mut v = BigUint::zero();
        for _ in 0..n { v = (v << 1u32) + BigUint::from(self.bit()); }
        v
    }
}
pub struct Params { pub c: Vec<BigUint>, pub m: Vec<Vec<BigUint>>, pub rp: usize }
const RP: [usize; 16] = [56, 57, 56, 60, 60, 63, 64, 63, 60, 66, 60, 65, 70, 60, 64, 68];
const RPN: [usize; 16] = [55, 55, 56, 56, 56, 56, 57, 57, 57, 57, 57, 57, 57, 57, 59, 59];
pub fn params(set: &str, t: usize) -> Arc<Params> {
    static C: OnceLock<Mutex<HashMap<(String, usize), Arc<Params>>>> = OnceLock::new();
    let mut m = C.get_or_init(|| Mutex::new(HashMap::new())).lock().unwrap();
    m.entry((set.to_string(), t)).or_insert_with(|| {
        let p = modulus(set);
        let inv = |x: BigUint| x.modpow(&(&p - 2u32), &p);
        let neptune = set == "bls12381_opt";
        let rp = if neptune { RPN[t - 2] } else { RP[t - 2] };
        let n = if set == "bn128" { 254 } else { 255 };
        let mut g = Grain::new(neptune as u64, n, t as u64, 8, rp as u64);
        let c = (0..(8 + rp) * t).map(|_| loop { let v = g.num(n); if v < p { break v } }).collect();
        let m = if neptune { (0..t).map(|i| (0..t).map(|j| inv(BigUint::from(i + t + j))).collect()).collect() } else {
            loop {
                let l: Vec<BigUint> = (0..2 * t).map(|_| g.num(n) % &p).collect();
                if (0..2 * t).any(|i| (0..i).any(|j| l[i] == l[j])) { continue; }
                if (0..t).any(|i| (0..t).any(|j| ((&l[i] + &l[t + j]) % &p).is_zero())) { continue; }
                break (0..t).map(|i| (0..t).map(|j| inv((&l[i] + &l[t + j]) % &p)).collect()).collect();
            }
        };
        Arc::new(Params { c, m, rp })
    }).clone()
}
/// state: initial state word first, then the inputs
pub fn textbook(set: &str, st: &[BigUint]) -> Vec<BigUint> {
    let t = st.len();
    let q = params(set, t);
    let p = modulus(set);
    let mut s = st.to_vec();
    for r in 0..8 + q.rp {
        for i in 0..t { s[i] += &q.c[r * t + i]; }
        for i in 0..(if r < 4 || r >= 4 + q.rp { t } else { 1 }) { let x2 = &s[i] * &s[i] % &p; s[i] = (&x2 * &x2 % &p) * (&s[i] % &p) % &p; }
        s = (0..t).map(|i| (0..t).fold(BigUint::zero(), |a, j| a + &q.m[i][j] * &s[j]) % &p).collect();
    }
    let _ = BigUint::one();
    s
}
/// value returned by the hash the library uses for a curve
pub fn hash(cv: &str, init: &BigUint, inp: &[BigUint]) -> BigUint {
    let mut s = vec![init.clone()];
    s.extend_from_slice(inp);
    if cv == "bn128" { textbook("bn128", &s)[0].clone() } else { textbook("bls12381_opt", &s)[1].clone() }
}
