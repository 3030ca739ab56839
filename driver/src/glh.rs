//! Textbook Goldilocks Poseidon (published constants of vc/data)
use crate::P;
fn consts() -> &'static (Vec<u64>, Vec<Vec<u64>>) {
    static C: std::sync::OnceLock<(Vec<u64>, Vec<Vec<u64>>)> = std::sync::OnceLock::new();
    C.get_or_init(|| {
        let v: serde_json::Value = serde_json::from_str(include_str!("../../vc/data/poseidon_gl.json")).unwrap();
        let n = |x: &serde_json::Value| x.as_u64().or_else(|| x.as_str().and_then(|s| s.parse().ok())).unwrap();
        (v["C"].as_array().unwrap().iter().map(n).collect(), v["M"].as_array().unwrap().iter().map(|r| r.as_array().unwrap().iter().map(n).collect()).collect())
    })
}
pub fn mulm(a: u64, b: u64) -> u64 { ((a as u128 * b as u128) % P as u128) as u64 }
pub fn addm(a: u64, b: u64) -> u64 { ((a as u128 + b as u128) % P as u128) as u64 }
pub fn subm(a: u64, b: u64) -> u64 { addm(a, P - b % P) }
pub fn powm(mut b: u64, mut e: u64) -> u64 {
    let mut r = 1;
    while e > 0 { if e & 1 == 1 { r = mulm(r, b); } b = mulm(b, b); e >>= 1; }
    r
}
pub fn invm(a: u64) -> u64 { powm(a, P - 2) }
pub fn perm(s: &[u64]) -> Vec<u64> {
    let (c, m) = consts();
    let mut s: Vec<u64> = s.to_vec();
    for r in 0..30 {
        for i in 0..12 { s[i] = addm(s[i], c[r * 12 + i]); }
        for i in 0..(if r < 4 || r >= 26 { 12 } else { 1 }) {
            let x = s[i];
            let x2 = mulm(x, x);
            s[i] = mulm(mulm(x2, x2), mulm(x2, x));
        }
        s = (0..12).map(|i| (0..12).fold(0u64, |a, j| addm(a, mulm(m[i][j], s[j])))).collect();
    }
    s
}
/// polynomial rings F_p[x]/(x^3-x-1), F_p[x]/(x^5-3)
pub fn exmul(a: &[u64], b: &[u64]) -> Vec<u64> {
    let n = a.len();
    let mut r = vec![0u64; 2 * n - 1];
    for i in 0..n { for j in 0..n { r[i + j] = addm(r[i + j], mulm(a[i], b[j])); } }
    for k in (n..2 * n - 1).rev() {
        let t = r[k];
        if n == 3 { r[k - 2] = addm(r[k - 2], t); r[k - 3] = addm(r[k - 3], t); } else { r[k - 5] = addm(r[k - 5], mulm(3, t)); }
    }
    r.truncate(n);
    r
}
pub fn exadd(a: &[u64], b: &[u64]) -> Vec<u64> { a.iter().zip(b).map(|(x, y)| addm(*x, *y)).collect() }
