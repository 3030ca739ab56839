//! C04-C06: extension fields against schoolbook polynomial arithmetic on 128-bit integers
use fields::field_gl::{Fr, FrRepr};
use fields::{Field, PrimeField};
use starky::f3g::F3G;
use starky::f5g::F5G;
use starky::traits::FieldExtension;
use vdriver::*;

fn el(w: u64) -> Fr { Fr::from_repr(FrRepr([w % P])).unwrap() }
fn mulm(a: u64, b: u64) -> u64 { ((a as u128 * b as u128) % P as u128) as u64 }
fn addm(a: u64, b: u64) -> u64 { ((a as u128 + b as u128) % P as u128) as u64 }
fn subm(a: u64, b: u64) -> u64 { ((a as u128 + P as u128 - b as u128) % P as u128) as u64 }
type V = Vec<u64>;
fn padd(a: &V, b: &V) -> V { a.iter().zip(b).map(|(x, y)| addm(*x, *y)).collect() }
fn psub(a: &V, b: &V) -> V { a.iter().zip(b).map(|(x, y)| subm(*x, *y)).collect() }
/// modulo x^3-x-1 (n=3) or x^5-3 (n=5)
fn pmul(a: &V, b: &V) -> V {
    let n = a.len();
    let mut r = vec![0u64; 2 * n - 1];
    for i in 0..n { for j in 0..n { r[i + j] = addm(r[i + j], mulm(a[i], b[j])); } }
    for d in (n..2 * n - 1).rev() {
        let c = r[d]; r[d] = 0;
        if n == 3 { r[d - 2] = addm(r[d - 2], c); r[d - 3] = addm(r[d - 3], c); }
        else { r[d - 5] = addm(r[d - 5], mulm(3, c)); }
    }
    r.truncate(n); r
}
trait Ex: FieldExtension + Field { const N: usize; fn mk(v: &[u64]) -> Self; }
impl Ex for F3G { const N: usize = 3; fn mk(v: &[u64]) -> Self { F3G::new(el(v[0]), el(v[1]), el(v[2])) } }
impl Ex for F5G { const N: usize = 5; fn mk(v: &[u64]) -> Self { F5G::new(el(v[0]), el(v[1]), el(v[2]), el(v[3]), el(v[4])) } }
/// operand: n words; scalar form when flag odd
fn opd<F: Ex>(w: &[u64], flag: u64) -> (F, V) {
    if flag & 1 == 1 { let mut v = vec![0; F::N]; v[0] = w[0] % P; (F::from(el(w[0])), v) }
    else { (F::mk(w), w[..F::N].iter().map(|x| x % P).collect()) }
}
/// the polynomial an element stands for
fn val<F: Ex>(e: &F) -> V {
    let mut v: V = e.as_elements().iter().map(|x| x.as_int()).collect();
    v.resize(F::N, 0); v
}
fn same<F: Ex>(r: F, want: &V, m: &str) -> Result<(), String> {
    let d = r.dim();
    if d != 1 && d != F::N { return Err(format!("{m}: dimension {d}")); }
    ensure_eq!(&val(&r), want, "{m}");
    if !r._eq(&F::mk(want)) { return Err(format!("{m}: result is not _eq to its value")); }
    Ok(())
}
fn ring<F: Ex + std::ops::Neg<Output = F>>(w: &[u64]) -> Result<(), String> {
    let n = F::N;
    let f = w[2 * n];
    let ((a, x), (b, y)) = (opd::<F>(&w[..n], f), opd::<F>(&w[n..2 * n], f >> 1));
    let z = vec![0u64; n];
    same(a + b, &padd(&x, &y), "add")?; same(a - b, &psub(&x, &y), "sub")?; same(a * b, &pmul(&x, &y), "mul")?;
    same(-a, &psub(&z, &x), "neg")?;
    let mut t = a; t += b; same(t, &padd(&x, &y), "+=")?;
    let mut t = a; t -= b; same(t, &psub(&x, &y), "-=")?;
    let mut t = a; t *= b; same(t, &pmul(&x, &y), "*=")?;
    let mut t = a; Field::add_assign(&mut t, &b); same(t, &padd(&x, &y), "add_assign")?;
    let mut t = a; Field::sub_assign(&mut t, &b); same(t, &psub(&x, &y), "sub_assign")?;
    let mut t = a; Field::mul_assign(&mut t, &b); same(t, &pmul(&x, &y), "mul_assign")?;
    let mut t = a; t.negate(); same(t, &psub(&z, &x), "negate")?;
    let mut t = a; t.square(); same(t, &pmul(&x, &x), "square")?;
    let mut t = a; t.double(); same(t, &padd(&x, &x), "double")?;
    let s = w[2 * n + 1] % P;
    let mut sv = z.clone(); sv[0] = s;
    same(a.mul_scalar(s as usize), &pmul(&x, &sv), "mul_scalar")?;
    same(F::from(el(s)), &sv, "From<Fr>")?; same(F::from(s), &sv, "From<u64>")?; same(F::from(s as usize), &sv, "From<usize>")?;
    same(F::from_vec(w[..n].iter().map(|v| el(*v)).collect()), &w[..n].iter().map(|v| v % P).collect(), "from_vec")?;
    let mut one = z.clone(); one[0] = 1;
    same(F::ZERO, &z, "ZERO")?; same(F::ONE, &one, "ONE")?;
    same(<F as Field>::zero(), &z, "zero")?; same(<F as Field>::one(), &one, "one")?;
    Ok(())
}
fn inv<F: Ex>(w: &[u64]) -> Result<(), String> {
    let n = F::N;
    let f = w[2 * n];
    let ((a, x), (b, y)) = (opd::<F>(&w[..n], f), opd::<F>(&w[n..2 * n], f >> 1));
    if y.iter().all(|v| *v == 0) { return Ok(()); }
    let mut one = vec![0u64; n]; one[0] = 1;
    ensure_eq!(pmul(&y, &val(&b.inv())), one, "x*inv(x)");
    ensure_eq!(pmul(&y, &val(&b.inverse().ok_or("no inverse")?)), one, "x*inverse(x)");
    ensure_eq!(pmul(&y, &val(&(a / b))), x, "divisor*quotient");
    let mut t = a; t /= b; ensure_eq!(pmul(&y, &val(&t)), x, "divisor*(/=)");
    Ok(())
}
fn cmp<F: Ex>(w: &[u64]) -> Result<(), String> {
    let n = F::N;
    let f = w[2 * n];
    let ((a, x), (b, y)) = (opd::<F>(&w[..n], f), opd::<F>(&w[n..2 * n], f >> 1));
    ensure_eq!(a._eq(&b), x == y, "_eq");
    let zx = x.iter().all(|v| *v == 0);
    ensure_eq!(a.is_zero(), zx, "is_zero");
    if (f & 1) == ((f >> 1) & 1) {
        ensure_eq!(a.gt(&b), x > y, "gt"); ensure_eq!(a.geq(&b), x >= y, "geq"); ensure_eq!(a.lt(&b), x < y, "lt"); ensure_eq!(a.leq(&b), x <= y, "leq");
        ensure_eq!(a == b, x == y, "==");
    }
    Ok(())
}
fn exp<F: Ex>(w: &[u64]) -> Result<(), String> {
    let n = F::N;
    let (a, x) = opd::<F>(&w[..n], w[n]);
    let e = w[n + 1];
    let mut r = vec![0u64; n]; r[0] = 1;
    for i in (0..64).rev() { r = pmul(&r, &r); if e >> i & 1 == 1 { r = pmul(&r, &x); } }
    same(a.exp(e as usize), &r, "exp")
}
fn gen(g: &mut G, n: usize) -> Vec<u64> {
    let mut v = g.fes(n);
    let k = g.below(4);
    let b: V = if k == 0 { v.clone() } else { g.fes(n) };
    v.extend(b);
    if k == 1 { let i = g.below(n as u64) as usize; for j in 0..i { v[n + j] = v[j]; } }
    if g.below(4) == 0 { for j in 1..n { if g.below(2) == 0 { v[j] = 0 } if g.below(2) == 0 { v[n + j] = 0 } } }
    v.push(g.below(4)); v.push(g.fe()); v
}
fn gexp(g: &mut G, n: usize) -> Vec<u64> { let mut v = g.fes(n); v.push(g.below(2)); v.push(if g.below(2) == 0 { g.below(300) } else { g.word() }); v }
fn main() {
    main_with(vec![
        T { prop: "C04", name: "ring3", min: 4000, max: 0, gen: |g| gen(g, 3), check: ring::<F3G> },
        T { prop: "C04", name: "inv3", min: 2000, max: 0, gen: |g| gen(g, 3), check: inv::<F3G> },
        T { prop: "C05", name: "ring5", min: 4000, max: 0, gen: |g| gen(g, 5), check: ring::<F5G> },
        T { prop: "C05", name: "inv5", min: 2000, max: 0, gen: |g| gen(g, 5), check: inv::<F5G> },
        T { prop: "C06", name: "cmp3", min: 4000, max: 0, gen: |g| gen(g, 3), check: cmp::<F3G> },
        T { prop: "C06", name: "cmp5", min: 4000, max: 0, gen: |g| gen(g, 5), check: cmp::<F5G> },
        T { prop: "C06", name: "exp3", min: 1000, max: 0, gen: |g| gexp(g, 3), check: exp::<F3G> },
        T { prop: "C06", name: "exp5", min: 1000, max: 0, gen: |g| gexp(g, 5), check: exp::<F5G> },
    ]);
}
