//! C18, C23, C26: JSON round trips, joined inputs, numerals
use fields::field_gl::{Fr as FGL, FrRepr};
use fields::PrimeField as _;
use num_bigint::BigUint;
use serde_json::{json, Map, Value};
use starky::f3g::F3G;
use starky::f5g::F5G;
use starky::traits::{FieldExtension, MTNodeType, MerkleTree};
use starky::{types, zkin_join, ElementDigest};
use vdriver::curve::modulus;
use vdriver::*;

#[path = "../../../build/ws/recursion/src/io_utils.rs"]
mod io_utils;

fn el(w: u64) -> FGL { FGL::from_repr(FrRepr([w % P])).unwrap() }
fn big(l: &[u64]) -> BigUint { BigUint::new(l.iter().flat_map(|x| [*x as u32, (*x >> 32) as u32]).collect()) }
fn fr<F: ff_ce::PrimeField>(x: &BigUint) -> F { F::from_str(&x.to_string()).unwrap() }
fn storable(cv: &str, x: &BigUint) -> bool { ((x << 256u32) % modulus(cv)).to_u64_digits().iter().all(|w| *w < P) }
struct Dir(std::path::PathBuf);
impl Dir {
    fn new() -> Self {
        use std::sync::atomic::{AtomicU64, Ordering};
        static N: AtomicU64 = AtomicU64::new(0);
        let d = std::env::temp_dir().join(format!("vser.{}.{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
        std::fs::create_dir_all(&d).unwrap();
        Dir(d)
    }
    fn p(&self, n: &str) -> String { self.0.join(n).to_str().unwrap().to_string() }
}
impl Drop for Dir { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }

fn rt<T: serde::Serialize + serde::de::DeserializeOwned>(v: &T) -> Result<(Value, T), String> {
    let s = serde_json::to_string(v).map_err(|e| format!("not written: {e}"))?;
    let back = serde_json::from_str::<T>(&s).map_err(|e| format!("{s} is not read back: {e}"))?;
    Ok((serde_json::from_str(&s).map_err(|e| format!("not JSON: {e}"))?, back))
}
fn texts(v: &[u64]) -> Value { if v.len() == 1 { json!(v[0].to_string()) } else { json!(v.iter().map(|x| x.to_string()).collect::<Vec<_>>()) } }

fn f3_t(w: &[u64]) -> Result<(), String> {
    let c: Vec<u64> = w[1..4].iter().map(|x| x % P).collect();
    let (a, v) = if w[0] % 2 == 0 { (F3G::new(el(c[0]), el(c[1]), el(c[2])), &c[..]) } else { (F3G::from(el(c[0])), &c[..1]) };
    let (j, b) = rt(&a)?;
    ensure_eq!(j, texts(v), "JSON of {v:?}");
    ensure_eq!(b, a, "read back");
    ensure_eq!(b.dim(), a.dim(), "dimension read back");
    Ok(())
}
fn f5_t(w: &[u64]) -> Result<(), String> {
    let c: Vec<u64> = w[1..6].iter().map(|x| x % P).collect();
    let (a, v) = if w[0] % 2 == 0 { (F5G::new(el(c[0]), el(c[1]), el(c[2]), el(c[3]), el(c[4])), &c[..]) } else { (F5G::from(el(c[0])), &c[..1]) };
    let (j, b) = rt(&a)?;
    ensure_eq!(j, texts(v), "JSON of {v:?}");
    ensure_eq!(b, a, "read back");
    ensure_eq!(b.dim(), a.dim(), "dimension read back");
    Ok(())
}
fn gl_t(w: &[u64]) -> Result<(), String> {
    let v: Vec<FGL> = w.iter().map(|x| el(*x)).collect();
    ensure_eq!(rt(&v)?.1.iter().map(|x| x.as_int()).collect::<Vec<_>>(), w.iter().map(|x| x % P).collect::<Vec<_>>(), "base-field elements read back");
    let d = ElementDigest::<4, FGL>::new(&v[..4]);
    let (j, b) = rt(&d)?;
    // a digest that is one element may be written as that element
    let c = w[..4].iter().map(|x| x % P).collect::<Vec<_>>();
    ensure_eq!(j, texts(if j.is_string() && c[1..] == [0, 0, 0] { &c[..1] } else { &c[..] }), "JSON of a digest");
    ensure_eq!(b, d, "digest read back");
    Ok(())
}
fn vec_t(w: &[u64]) -> Result<(), String> {
    let mut v = w[1..].to_vec();
    let n = v.len();
    if n > 0 { for k in 0..(w[0] % 5000) as usize { v.push(v[k % n].wrapping_mul(2 * k as u64 + 1)); } }
    let d = Dir::new();
    let mut f = std::fs::File::create(d.p("v")).unwrap();
    io_utils::write_vec_to_file(&mut f, &v).map_err(|e| format!("not written: {e}"))?;
    drop(f);
    let s = std::fs::read_to_string(d.p("v")).unwrap();
    let j: Value = serde_json::from_str(&s).map_err(|e| format!("not JSON: {e}"))?;
    let t: Vec<String> = j.as_array().ok_or("not an array")?.iter().map(|x| x.to_string()).collect();
    ensure_eq!(t, v.iter().map(|x| x.to_string()).collect::<Vec<_>>(), "words written");
    let b = io_utils::read_vec_from_file(std::fs::File::open(d.p("v")).unwrap()).map_err(|e| format!("not read back: {e}"))?;
    ensure_eq!(b, v, "words read back");
    // and through memory
    let mut m = vec![];
    io_utils::write_vec_to_file(&mut m, &v).map_err(|e| format!("not written: {e}"))?;
    ensure_eq!(io_utils::read_vec_from_file(&m[..]).map_err(|e| format!("not read back: {e}"))?, v, "words read back from memory");
    Ok(())
}
macro_rules! curve { ($m:ident, $cv:expr, $field:ident, $mt:ident :: $MT:ident) => {
mod $m {
    use super::*;
    type F = starky::$field::Fr;
    pub fn dig(w: &[u64]) -> Result<(), String> {
        let x = big(&w[..4]) % modulus($cv);
        let s: F = fr(&x);
        let (j, b) = rt(&s)?;
        ensure_eq!(j, json!(x.to_string()), "JSON of a scalar");
        ensure_eq!(b, s, "scalar read back");
        if !storable($cv, &x) { return Ok(()); }
        let d: ElementDigest<4, F> = ElementDigest::from_scalar(&s);
        let (j, b) = rt(&d)?;
        ensure_eq!(j, json!(x.to_string()), "JSON of a digest");
        ensure_eq!(b, d, "digest read back");
        Ok(())
    }
    pub fn tree(w: &[u64]) -> Result<(), String> {
        let (h, wd) = (1 + w[0] as usize % 40, w[1] as usize % 9);
        let v: Vec<FGL> = (0..h * wd).map(|k| el(w[2 + k % (w.len() - 2)].wrapping_mul(2 * (k / (w.len() - 2)) as u64 + 1))).collect();
        let mut t = starky::$mt::$MT::new();
        // storing one scalar in 2^30 as a digest is refused: not this property
        let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| t.merkelize(v, wd, h).is_ok())).unwrap_or(false);
        if !ok { return Ok(()); }
        let b = rt(&t)?.1;
        if b != t { return Err(format!("tree of {h} rows of {wd} is another when read back")); }
        ensure_eq!(b.root().as_elements().iter().map(|x| x.as_int()).collect::<Vec<_>>(), t.root().as_elements().iter().map(|x| x.as_int()).collect::<Vec<_>>(), "root read back");
        Ok(())
    }
}
}}
curve!(bn, "bn128", field_bn128, merklehash_bn128::MerkleTreeBN128);
curve!(bls, "bls12381", field_bls12381, merklehash_bls12381::MerkleTreeBLS12381);

/// a JSON value made from words
fn val(s: &mut u64, d: u64) -> Value {
    *s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
    let x = *s >> 13;
    match x % if d > 3 { 5 } else { 8 } {
        0 => json!((*s).to_string()),
        1 => json!(*s >> (x / 8 % 60)),
        2 => json!(-((*s >> 20) as i64)),
        3 => json!(x % 16 < 8),
        4 => Value::Null,
        5 | 6 => Value::Array((0..x / 8 % 6).map(|_| val(s, d + 1)).collect()),
        _ => Value::Object((0..x / 8 % 4).map(|k| (format!("k{k}"), val(s, d + 1))).collect()),
    }
}
const NAMES: [&str; 20] = ["root1", "root2", "evals", "finalPol", "s0_vals1", "s0_siblings1", "s1_root", "a_publics", "b_publics", "a_rootC", "b_rootC", "", "a_", "b_", "publics_", "rootC_", "Publics", "rootc", "a_a_root1", "x y\"\\\u{e9}"];
fn doc(mask: u64, n: u64, s: &mut u64) -> Map<String, Value> {
    let mut m = Map::new();
    for (k, name) in NAMES.iter().enumerate() { if mask >> k & 1 == 1 { m.insert(name.to_string(), val(s, 0)); } }
    if mask >> 26 & 1 == 1 { for k in 0..mask >> 32 & 0xffff { m.insert(format!("{}{k}", ["s", "p", "q", "t"][(mask >> 27 & 3) as usize]), json!(k)); } }
    if mask >> 20 & 1 == 1 { m.insert("rootC".into(), val(s, 0)); }
    if mask >> 21 & 1 == 1 { m.insert("publics".into(), if mask >> 22 & 7 == 5 { val(s, 0) } else { Value::Array((0..if mask >> 25 & 1 == 1 { n % 70000 } else { n % 70 }).map(|_| val(s, 2)).collect()) }); }
    m
}
/// mask: 20 names, rootC, publics, 22..24 kind of publics, 25 many publics, 26 bits 32..47 further entries
/// [mask, publics, mask, publics, seed]
fn join_t(w: &[u64]) -> Result<(), String> {
    let mut s = w[4];
    let (a, b) = (doc(w[0], w[1], &mut s), doc(w[2], w[3], &mut s));
    let d = Dir::new();
    std::fs::write(d.p("a"), serde_json::to_string(&a).unwrap()).unwrap();
    std::fs::write(d.p("b"), serde_json::to_string(&b).unwrap()).unwrap();
    // the output may already exist
    if w[4] % 2 == 0 { std::fs::write(d.p("o"), "x".repeat((w[4] % 5000) as usize)).unwrap(); }
    zkin_join::join_zkin(&d.p("a"), &d.p("b"), &d.p("o")).map_err(|e| format!("refused: {e}"))?;
    let got: Value = serde_json::from_str(&std::fs::read_to_string(d.p("o")).unwrap()).map_err(|e| format!("not JSON: {e}"))?;
    let mut want = Map::new();
    for (k, v) in &a { want.insert(format!("a_{k}"), v.clone()); }
    for (k, v) in &b { want.insert(format!("b_{k}"), v.clone()); }
    if let Some(v) = a.get("rootC") { want.insert("rootC".into(), v.clone()); }
    if let Some(Value::Array(v)) = a.get("publics") { want.insert("publics".into(), json!(if v.len() < 4 { &v[..] } else { &v[..v.len() - 4] })); }
    ensure_eq!(got, Value::Object(want), "joined document");
    Ok(())
}
/// [flags, zeros, limbs...]: flags 1 negative, 2 hexadecimal, 4 capitals
fn pil_t(w: &[u64]) -> Result<(), String> {
    let x = big(&w[2..]);
    let mut d = if w[0] & 2 != 0 { format!("{x:x}") } else { x.to_string() };
    if w[0] & 4 != 0 { d = d.to_uppercase(); }
    let s = format!("{}{}{}{d}", if w[0] & 1 != 0 { "-" } else { "" }, if w[0] & 2 != 0 { "0x" } else { "" }, "0".repeat(w[1] as usize % 4));
    let p = BigUint::from(P);
    let r = &x % &p;
    let want = if w[0] & 1 != 0 { (&p - r) % &p } else { r };
    ensure_eq!(BigUint::from(types::parse_pil_number(&s)), want, "parse_pil_number({s})");
    Ok(())
}
fn pil_g(g: &mut G) -> Vec<u64> {
    let mut v = vec![g.i % 8, g.below(9)];
    let n = match g.below(8) { 0..=2 => 1, 3..=4 => 2, 5 => 3, 6 => g.below(5), _ => g.below(40) };
    for _ in 0..n { v.push(g.word()); }
    if n == 2 && g.below(2) == 0 { v[3] = [1, 0x7fff_ffff_ffff_ffff, 0x8000_0000_0000_0000, u64::MAX, 0][g.below(5) as usize]; }
    v
}
fn main() {
    main_with(vec![
        T { prop: "C18", name: "f3", min: 3000, max: 0, gen: |g| { let mut v = vec![g.i]; v.extend(g.words(3)); v }, check: f3_t },
        T { prop: "C18", name: "f5", min: 3000, max: 0, gen: |g| { let mut v = vec![g.i]; v.extend(g.words(5)); v }, check: f5_t },
        T { prop: "C18", name: "gl", min: 2000, max: 0, gen: |g| { let n = 4 + g.below(5) as usize; g.words(n) }, check: gl_t },
        T { prop: "C18", name: "vec", min: 120, max: 0, gen: |g| { let n = g.below(30) as usize; let mut v = vec![if g.i % 16 == 3 { g.next() } else { g.below(9) }]; v.extend(g.words(n)); v }, check: vec_t },
        T { prop: "C18", name: "dig_bn", min: 1500, max: 0, gen: |g| g.words(4), check: bn::dig },
        T { prop: "C18", name: "dig_bls", min: 1500, max: 0, gen: |g| g.words(4), check: bls::dig },
        T { prop: "C18", name: "tree_bn", min: 12, max: 0, gen: |g| { let mut v = vec![g.i + g.below(3), g.below(9)]; v.extend(g.words(8)); v }, check: bn::tree },
        T { prop: "C18", name: "tree_bls", min: 12, max: 0, gen: |g| { let mut v = vec![g.i + g.below(3), g.below(9)]; v.extend(g.words(8)); v }, check: bls::tree },
        T { prop: "C23", name: "join", min: 1500, max: 0, gen: |g| {
            let m = |g: &mut G| match g.below(4) { 0 => g.next() | 3 << 20, 1 => g.next() & g.next() | 1 << 21, 2 => 3 << 20 | 1 << g.below(20), _ => g.next() } & !(3 << 25) | if g.below(40) == 0 { 3 << 25 } else { 0 };
            let n = |g: &mut G| if g.below(3) == 0 { g.below(70) } else { g.below(10) };
            vec![m(g), n(g), m(g), n(g), g.next()] }, check: join_t },
        T { prop: "C26", name: "pil", min: 20000, max: 0, gen: pil_g, check: pil_t },
    ]);
}
