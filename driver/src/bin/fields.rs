//! C01-C03: Goldilocks against 128-bit integer arithmetic
use fields::field_gl::{Fr, FrRepr};
use fields::{Field, LegendreSymbol, PrimeField, PrimeFieldRepr, SqrtField};
use vdriver::*;

fn el(w: u64) -> Fr { Fr::from_repr(FrRepr([w % P])).unwrap() }
fn raw(w: u64) -> Fr { Fr::from_raw_repr(FrRepr([w % P])).unwrap() }
fn mulm(a: u64, b: u64) -> u64 { ((a as u128 * b as u128) % P as u128) as u64 }
fn addm(a: u64, b: u64) -> u64 { ((a as u128 + b as u128) % P as u128) as u64 }
fn subm(a: u64, b: u64) -> u64 { ((a as u128 + P as u128 - b as u128) % P as u128) as u64 }
fn powm(mut a: u64, mut e: u64) -> u64 {
    let mut r = 1u64;
    while e > 0 { if e & 1 == 1 { r = mulm(r, a) } a = mulm(a, a); e >>= 1; }
    r
}
const RINV: u64 = 4294967295; // the internal form is x * 2^128 mod p; this is 2^-128 mod p
/// an operand: (word, flag); flag odd: the word is the internal form
fn opd(w: u64, f: u64) -> (Fr, u64) {
    if f & 1 == 1 { (raw(w), mulm(w % P, RINV)) } else { (el(w), w % P) }
}
fn same(r: Fr, want: u64, m: &str) -> Result<(), String> {
    ensure_eq!(r.into_repr().0[0], want, "{m} (integer)");
    ensure_eq!(r.as_int(), want, "{m} (as_int)");
    let rr = r.into_raw_repr().0[0];
    if rr >= P { return Err(format!("{m}: not canonical: {rr}")); }
    if r != el(want) { return Err(format!("{m}: not equal to the element of {want}")); }
    ensure_eq!(r.is_zero(), want == 0, "{m} is_zero");
    Ok(())
}
fn g2(g: &mut G) -> Vec<u64> { vec![g.fe(), g.fe(), g.below(4)] }
fn g1(g: &mut G) -> Vec<u64> { vec![g.fe(), g.below(2)] }
fn arith(w: &[u64]) -> Result<(), String> {
    let ((a, x), (b, y)) = (opd(w[0], w[2]), opd(w[1], w[2] >> 1));
    same(a + b, addm(x, y), "add")?;
    same(a - b, subm(x, y), "sub")?;
    same(a * b, mulm(x, y), "mul")?;
    same(-a, subm(0, x), "neg")?;
    let mut t = a; t.add_assign(&b); same(t, addm(x, y), "add_assign")?;
    let mut t = a; t.sub_assign(&b); same(t, subm(x, y), "sub_assign")?;
    let mut t = a; t.mul_assign(&b); same(t, mulm(x, y), "mul_assign")?;
    let mut t = a; t.negate(); same(t, subm(0, x), "negate")?;
    let mut t = a; t.double(); same(t, addm(x, x), "double")?;
    let mut t = a; t.square(); same(t, mulm(x, x), "square")?;
    let mut t = a; t.sub_assign(&a); same(t, 0, "x-x")?;
    let s = a + b; same(s - b, x, "a+b-b")?;
    ensure_eq!(a == b, x == y, "eq");
    ensure_eq!(a.is_zero(), x == 0, "is_zero");
    same(Fr::zero(), 0, "zero")?; same(Fr::one(), 1, "one")?; same(Fr::ZERO, 0, "ZERO")?; same(Fr::ONE, 1, "ONE")?;
    Ok(())
}
fn inv(w: &[u64]) -> Result<(), String> {
    let (a, x) = opd(w[0], w[1]);
    if x == 0 { return Ok(()); }
    let y = a.inverse().ok_or("no inverse")?;
    let yi = y.as_int();
    if yi >= P { return Err("inverse not canonical".into()); }
    ensure_eq!(mulm(x, yi), 1, "x*inverse(x)");
    same(y, yi, "inverse")
}
fn div(w: &[u64]) -> Result<(), String> {
    let ((a, x), (b, y)) = (opd(w[0], w[2]), opd(w[1], w[2] >> 1));
    if y == 0 { return Ok(()); }
    let q = (a / b).as_int();
    ensure_eq!(mulm(q, y), x, "quotient*divisor");
    Ok(())
}
fn exp(w: &[u64]) -> Result<(), String> {
    let (a, x) = opd(w[0], w[2]);
    same(a.exp(w[1]), powm(x, w[1]), "exp")?;
    same(a.pow([w[1]]), powm(x, w[1]), "pow")
}
fn sqrt(w: &[u64]) -> Result<(), String> {
    let (a, x) = opd(w[0], w[1]);
    let (a, x) = if w[1] & 2 == 2 { (a * a, mulm(x, x)) } else { (a, x) };
    let e = powm(x, (P - 1) / 2);
    let l = a.legendre();
    let want = if x == 0 { LegendreSymbol::Zero } else if e == 1 { LegendreSymbol::QuadraticResidue } else { LegendreSymbol::QuadraticNonResidue };
    ensure_eq!(l, want, "legendre");
    match a.sqrt() {
        None => { if x == 0 || e == 1 { return Err("no square root of a square".into()); } }
        Some(r) => { let r = r.as_int(); ensure_eq!(mulm(r, r), x, "sqrt squared"); }
    }
    Ok(())
}
fn conv(w: &[u64]) -> Result<(), String> {
    let v = w[0];
    match Fr::from_repr(FrRepr([v])) {
        Ok(e) => { if v >= P { return Err("non-canonical integer accepted".into()); }
            ensure_eq!(e.into_repr().0[0], v, "from_repr/into_repr"); ensure_eq!(e.as_int(), v, "as_int");
            ensure_eq!(FrRepr::from(e).0[0], v, "FrRepr::from");
            let r = e.into_raw_repr(); ensure_eq!(r.0[0], mulm(v, powm(2, 128)), "raw form"); let e2 = Fr::from_raw_repr(r).map_err(|e| format!("{e:?}"))?;
            ensure_eq!(e2.as_int(), v, "raw round trip"); ensure_eq!(u64::from(e), r.0[0], "u64::from is the raw form");
            ensure_eq!(Fr::from(v).as_int(), v, "From<u64>"); }
        Err(_) => { if v < P { return Err("canonical integer refused".into()); } }
    }
    match Fr::from_raw_repr(FrRepr([v])) {
        Ok(e) => { if v >= P { return Err("non-canonical raw form accepted".into()); } ensure_eq!(e.into_raw_repr().0[0], v, "raw"); ensure_eq!(e.as_int(), mulm(v, RINV), "raw value"); }
        Err(_) => { if v < P { return Err("canonical raw form refused".into()); } }
    }
    if v >= P {
        if let Ok(e) = std::panic::catch_unwind(|| Fr::from(v)) { return Err(format!("From<u64> altered {v} to {}", e.as_int())); }
    }
    ensure_eq!(Fr::char().0[0], P, "char");
    Ok(())
}
fn order(w: &[u64]) -> Result<(), String> {
    let ((a, x), (b, y)) = (opd(w[0], w[2]), opd(w[1], w[2] >> 1));
    ensure_eq!(a.cmp(&b), x.cmp(&y), "cmp"); ensure_eq!(a.partial_cmp(&b), Some(x.cmp(&y)), "partial_cmp");
    ensure_eq!(a < b, x < y, "<"); ensure_eq!(a <= b, x <= y, "<="); ensure_eq!(a > b, x > y, ">"); ensure_eq!(a >= b, x >= y, ">=");
    ensure_eq!(FrRepr([w[0]]).cmp(&FrRepr([w[1]])), w[0].cmp(&w[1]), "repr cmp");
    ensure_eq!(FrRepr([w[0]]).partial_cmp(&FrRepr([w[1]])), Some(w[0].cmp(&w[1])), "repr partial_cmp");
    Ok(())
}
fn repr(w: &[u64]) -> Result<(), String> {
    let v = w[0]; let n = w[1] as u32;
    let sh = |n: u32| if n >= 64 { 0 } else { v >> n };
    let sl = |n: u32| if n >= 64 { 0 } else { v << n };
    let mut t = FrRepr([v]); t.shr(n); ensure_eq!(t.0[0], sh(n), "shr");
    let mut t = FrRepr([v]); t.shl(n); ensure_eq!(t.0[0], sl(n), "shl");
    let mut t = FrRepr([v]); t.div2(); ensure_eq!(t.0[0], v >> 1, "div2");
    ensure_eq!(FrRepr([v]).num_bits(), 64 - v.leading_zeros(), "num_bits");
    ensure_eq!(FrRepr([v]).is_odd(), v & 1 == 1, "is_odd"); ensure_eq!(FrRepr([v]).is_even(), v & 1 == 0, "is_even"); ensure_eq!(FrRepr([v]).is_zero(), v == 0, "is_zero");
    Ok(())
}
fn main() {
    main_with(vec![
        T { prop: "C01", name: "arith", min: 20000, max: 0, gen: g2, check: arith },
        T { prop: "C02", name: "inv", min: 4000, max: 0, gen: g1, check: inv },
        T { prop: "C02", name: "div", min: 2000, max: 0, gen: g2, check: div },
        T { prop: "C02", name: "exp", min: 2000, max: 0, gen: |g| vec![g.fe(), g.word(), g.below(2)], check: exp },
        T { prop: "C02", name: "sqrt", min: 500, max: 0, gen: |g| vec![g.fe(), g.below(4)], check: sqrt },
        T { prop: "C03", name: "conv", min: 4000, max: 0, gen: |g| vec![g.word()], check: conv },
        T { prop: "C03", name: "order", min: 4000, max: 0, gen: |g| { let a = g.fe(); let b = if g.below(4) == 0 { a } else { g.fe() }; vec![a, b, g.below(4)] }, check: order },
        T { prop: "C03", name: "repr", min: 4000, max: 0, gen: |g| vec![g.word(), if g.below(4) == 0 { g.word() } else { g.below(130) }], check: repr },
    ]);
}
