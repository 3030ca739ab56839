//! C27: curve points, proofs and keys in JSON
use ark_bls12_381::{Bls12_381, Fq, Fq12, Fq2, Fq6, Fr, G1Affine, G2Affine};
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{One, PrimeField, Zero};
use num_bigint::BigUint;
use recursion_gnark_ffi::json_util::{Groth16Proof, JsonPublicInput, JsonVerificationKey};
use serde_json::{json, Value};
use vdriver::*;

type B = Bls12_381;
#[derive(Clone)]
struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: u64) -> u64 { self.next() % n }
    /// a field element: boundary values and random ones
    fn fe<F: PrimeField>(&mut self) -> F {
        match self.below(8) {
            0 => F::zero(),
            1 => F::one(),
            2 => -F::one(),
            3 => F::from(self.next()),
            _ => { let b: Vec<u8> = (0..7).flat_map(|_| self.next().to_le_bytes()).collect(); F::from_le_bytes_mod_order(&b) }
        }
    }
    fn fq2(&mut self) -> Fq2 { Fq2::new(self.fe(), self.fe()) }
    fn fq12(&mut self) -> Fq12 {
        let mut six = || { Fq6::new(self.fq2(), self.fq2(), self.fq2()) };
        let (a, b) = (six(), six());
        Fq12::new(a, b)
    }
    fn g1(&mut self) -> G1Affine {
        match self.below(6) { 0 => G1Affine::zero(), 1 => G1Affine::generator(), _ => { let s: Fr = self.fe(); (G1Affine::generator() * s).into_affine() } }
    }
    fn g2(&mut self) -> G2Affine {
        match self.below(6) { 0 => G2Affine::zero(), 1 => G2Affine::generator(), _ => { let s: Fr = self.fe(); (G2Affine::generator() * s).into_affine() } }
    }
    /// on the curve, outside the subgroup
    fn g1_out(&mut self) -> G1Affine {
        loop { if let Some(p) = G1Affine::get_point_from_x_unchecked(Fq::from(self.next()), self.below(2) == 0) { if !p.is_in_correct_subgroup_assuming_on_curve() { return p; } } }
    }
    fn g2_out(&mut self) -> G2Affine {
        loop { if let Some(p) = G2Affine::get_point_from_x_unchecked(Fq2::new(Fq::from(self.next()), Fq::from(self.next())), self.below(2) == 0) { if !p.is_in_correct_subgroup_assuming_on_curve() { return p; } } }
    }
}
fn dec<F: PrimeField>(x: &F) -> String { x.into_bigint().to_string() }
fn d2(x: &Fq2) -> Value { json!([dec(&x.c0), dec(&x.c1)]) }
fn j1(p: &G1Affine) -> Value { match p.xy() { Some((x, y)) => json!([dec(&x), dec(&y), "1"]), None => json!(["0", "1", "0"]) } }
fn j2(p: &G2Affine) -> Value { match p.xy() { Some((x, y)) => json!([d2(&x), d2(&y), ["1", "0"]]), None => json!([["0", "0"], ["1", "0"], ["0", "0"]]) } }
fn j6(x: &Fq6) -> Value { json!([d2(&x.c0), d2(&x.c1), d2(&x.c2)]) }
fn ok1(p: &G1Affine) -> bool { p.is_zero() || p.is_on_curve() && p.is_in_correct_subgroup_assuming_on_curve() }
fn ok2(p: &G2Affine) -> bool { p.is_zero() || p.is_on_curve() && p.is_in_correct_subgroup_assuming_on_curve() }

fn proof(r: &mut Rng) -> Groth16Proof<B> { Groth16Proof { pi_a: r.g1(), pi_b: r.g2(), pi_c: r.g1(), protocol: "groth16".into(), curve: ["bls12381", "x\"y\\", ""][r.below(3) as usize].into() } }
fn key(r: &mut Rng, n: usize) -> JsonVerificationKey<B> {
    JsonVerificationKey { protocol: "groth16".into(), n_public: r.next() as usize >> r.below(64), alpha_1: r.g1(), beta_2: r.g2(), gamma_2: r.g2(), delta_2: r.g2(), alpha_beta_gt: r.fq12(), ic: (0..n).map(|_| r.g1()).collect() }
}
fn proof_t(w: &[u64]) -> Result<(), String> {
    let mut r = Rng(w[0]);
    let p = proof(&mut r);
    let s = serde_json::to_string(&p).map_err(|e| format!("not written: {e}"))?;
    let j: Value = serde_json::from_str(&s).map_err(|e| format!("not JSON: {e}"))?;
    ensure_eq!(j, json!({"pi_a": j1(&p.pi_a), "pi_b": j2(&p.pi_b), "pi_c": j1(&p.pi_c), "protocol": p.protocol, "curve": p.curve}), "JSON of a proof");
    let b: Groth16Proof<B> = serde_json::from_str(&s).map_err(|e| format!("{s} is not read back: {e}"))?;
    if b != p { return Err(format!("{s} is read back as {b:?}")); }
    Ok(())
}
fn key_t(w: &[u64]) -> Result<(), String> {
    let mut r = Rng(w[0]);
    let k = key(&mut r, w[1] as usize % 12);
    let s = serde_json::to_string(&k).map_err(|e| format!("not written: {e}"))?;
    let j: Value = serde_json::from_str(&s).map_err(|e| format!("not JSON: {e}"))?;
    let want = json!({"protocol": k.protocol, "nPublic": k.n_public, "vk_alpha_1": j1(&k.alpha_1), "vk_beta_2": j2(&k.beta_2), "vk_gamma_2": j2(&k.gamma_2), "vk_delta_2": j2(&k.delta_2),
        "vk_alphabeta_12": [j6(&k.alpha_beta_gt.c0), j6(&k.alpha_beta_gt.c1)], "IC": k.ic.iter().map(j1).collect::<Vec<_>>()});
    ensure_eq!(j, want, "JSON of a key");
    let b: JsonVerificationKey<B> = serde_json::from_str(&s).map_err(|e| format!("{s} is not read back: {e}"))?;
    if b != k { return Err(format!("{s} is read back as {b:?}")); }
    let b = JsonVerificationKey::<B>::from_reader(s.as_bytes()).map_err(|e| format!("{s} is not read back by from_reader: {e}"))?;
    if b != k { return Err(format!("{s} is read back by from_reader as {b:?}")); }
    Ok(())
}
fn pub_t(w: &[u64]) -> Result<(), String> {
    let mut r = Rng(w[0]);
    let p = JsonPublicInput::<Fr> { values: (0..w[1] % 20).map(|_| r.fe()).collect() };
    let s = serde_json::to_string(&p).map_err(|e| format!("not written: {e}"))?;
    let j: Value = serde_json::from_str(&s).map_err(|e| format!("not JSON: {e}"))?;
    ensure_eq!(j, json!(p.values.iter().map(dec).collect::<Vec<_>>()), "JSON of public inputs");
    let b: JsonPublicInput<Fr> = serde_json::from_str(&s).map_err(|e| format!("{s} is not read back: {e}"))?;
    if b != p { return Err(format!("{s} is read back as {b:?}")); }
    Ok(())
}
/// a text: sometimes a numeral, sometimes not
fn text(r: &mut Rng) -> Value {
    match r.below(14) {
        0 => json!(""), 1 => json!("-1"), 2 => json!("0x10"), 3 => json!(" 1"), 4 => json!("1e3"), 5 => json!("\u{661}"), 6 => json!(null), 7 => json!(3), 8 => json!([]), 9 => json!(["1"]),
        10 => { let x: Fq = r.fe(); json!((BigUint::from(x.into_bigint()) + BigUint::from(Fq::MODULUS)).to_string()) }
        11 => json!("0"), 12 => json!("1"),
        _ => { let x: Fq = r.fe(); json!(dec(&x)) }
    }
}
/// change one place of a document
fn hurt(v: &mut Value, r: &mut Rng) {
    match v {
        Value::Array(a) => match r.below(8) {
            0 => { a.pop(); }
            1 => { let x = a.last().cloned().unwrap_or(json!("1")); a.push(x); }
            2 => { a.clear(); }
            3 => { let x = text(r); a.push(x); }
            4 if a.len() > 1 => { let (i, k) = (r.below(a.len() as u64) as usize, r.below(a.len() as u64) as usize); a.swap(i, k); }
            _ if !a.is_empty() => { let i = r.below(a.len() as u64) as usize; hurt(&mut a[i], r) }
            _ => { *v = text(r); }
        },
        _ => *v = text(r),
    }
}
const POINTS1: [&str; 3] = ["pi_a", "pi_c", "vk_alpha_1"];
/// the points of an accepted document are valid: either group
fn judge(s: &str, must: Option<bool>) -> Result<(), String> {
    let (mut accepted, mut seen) = (false, vec![]);
    if let Ok(p) = serde_json::from_str::<Groth16Proof<B>>(s) { accepted = true; seen = vec![ok1(&p.pi_a), ok2(&p.pi_b), ok1(&p.pi_c)]; }
    if let Ok(k) = serde_json::from_str::<JsonVerificationKey<B>>(s) {
        accepted = true;
        seen = vec![ok1(&k.alpha_1), ok2(&k.beta_2), ok2(&k.gamma_2), ok2(&k.delta_2)];
        seen.extend(k.ic.iter().map(ok1));
    }
    if seen.contains(&false) { return Err(format!("a point off the curve or outside the subgroup is accepted from {s}")); }
    match must { Some(b) if b != accepted => Err(format!("{} {s}", if b { "refused:" } else { "accepted:" })), _ => Ok(()) }
}
/// [seed, key?, what]
fn bad_t(w: &[u64]) -> Result<(), String> {
    let mut r = Rng(w[0]);
    let mut j = if w[1] % 2 == 0 { serde_json::to_value(proof(&mut r)) } else { serde_json::to_value(key(&mut r, 3)) }.map_err(|e| format!("not written: {e}"))?;
    let o = j.as_object_mut().unwrap();
    let names: Vec<String> = o.keys().filter(|k| o[*k].is_array()).cloned().collect();
    let name = names[r.below(names.len() as u64) as usize].clone();
    let v = o.get_mut(&name).unwrap();
    let one = POINTS1.contains(&name.as_str());
    let mut must = None;
    match w[2] % 6 {
        // any point with coordinates at random: almost never on the curve
        0 if one => *v = json!([dec(&r.fe::<Fq>()), dec(&r.fe::<Fq>()), "1"]),
        0 if name == "IC" => v.as_array_mut().unwrap()[r.0 as usize % 3] = json!([dec(&r.fe::<Fq>()), dec(&r.fe::<Fq>()), "1"]),
        0 if name.starts_with("vk_alphabeta") => hurt(v, &mut r),
        0 => *v = json!([d2(&r.fq2()), d2(&r.fq2()), ["1", "0"]]),
        // outside the subgroup
        1 if one => { must = Some(false); *v = j1(&r.g1_out()) }
        1 if name == "IC" => { must = Some(false); v.as_array_mut().unwrap()[r.0 as usize % 3] = j1(&r.g1_out()) }
        1 if name.starts_with("vk_alphabeta") => hurt(v, &mut r),
        1 => { must = Some(false); *v = j2(&r.g2_out()) }
        // the coordinates of a valid point with another z
        2 if one => *v = json!([dec(&r.fe::<Fq>()), dec(&r.fe::<Fq>()), dec(&r.fe::<Fq>())]),
        2 if name == "IC" || name.starts_with("vk_alphabeta") => hurt(v, &mut r),
        2 => { if let Some(a) = v.as_array_mut() { a[2] = d2(&r.fq2()) } }
        // one coordinate off by one: never on the curve with the same other (y and -y differ by more)
        3 if one => { let p = (G1Affine::generator() * Fr::from(2 + r.next())).into_affine(); must = Some(false); *v = json!([dec(&p.x), dec(&(p.y + Fq::one())), "1"]) }
        3 if !name.starts_with("vk_alphabeta") && name != "IC" => { let p = (G2Affine::generator() * Fr::from(2 + r.next())).into_affine(); must = Some(false); *v = if r.below(2) == 0 { json!([d2(&p.x), d2(&(p.y + Fq2::one())), ["1", "0"]]) } else { json!([[dec(&p.x.c1), dec(&p.x.c0)], d2(&p.y), ["1", "0"]]) } }
        3 | 4 => hurt(v, &mut r),
        _ => { hurt(v, &mut r); hurt(v, &mut r) }
    }
    judge(&j.to_string(), must)
}
/// the same on the parts of the document, and on texts that are not numerals
fn pubbad_t(w: &[u64]) -> Result<(), String> {
    let mut r = Rng(w[0]);
    let mut j = json!((0..w[1] % 6).map(|_| dec(&r.fe::<Fr>())).collect::<Vec<_>>());
    hurt(&mut j, &mut r);
    let _ = serde_json::from_str::<JsonPublicInput<Fr>>(&j.to_string());
    Ok(())
}
fn main() {
    main_with(vec![
        T { prop: "C27", name: "proof", min: 60, max: 0, gen: |g| vec![g.next()], check: proof_t },
        T { prop: "C27", name: "key", min: 40, max: 0, gen: |g| vec![g.next(), g.i], check: key_t },
        T { prop: "C27", name: "pub", min: 200, max: 0, gen: |g| vec![g.next(), g.i], check: pub_t },
        T { prop: "C27", name: "bad", min: 400, max: 0, gen: |g| vec![g.next(), g.i / 6, g.i], check: bad_t },
        T { prop: "C27", name: "pubbad", min: 300, max: 0, gen: |g| vec![g.next(), g.i], check: pubbad_t },
    ]);
}
