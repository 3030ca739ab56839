//! C07-C09, C24: polynomial helpers, transforms, extension, index helpers
use fields::field_gl::{Fr, FrRepr};
use fields::{Field, PrimeField};
use starky::f3g::F3G;
use starky::f5g::F5G;
use starky::traits::FieldExtension;
use starky::{fft::FFT, fft_p, helper, polutils};
use vdriver::glh::*;
use vdriver::*;

fn el(w: u64) -> Fr { Fr::from_repr(FrRepr([w % P])).unwrap() }
type V = Vec<u64>;
trait Ex: FieldExtension + Field { const N: usize; fn mk(v: &[u64]) -> Self; }
impl Ex for F3G { const N: usize = 3; fn mk(v: &[u64]) -> Self { F3G::new(el(v[0]), el(v[1]), el(v[2])) } }
impl Ex for F5G { const N: usize = 5; fn mk(v: &[u64]) -> Self { F5G::new(el(v[0]), el(v[1]), el(v[2]), el(v[3]), el(v[4])) } }
fn val<F: Ex>(e: &F) -> V {
    let mut v: V = e.as_elements().iter().map(|x| x.as_int()).collect();
    v.resize(F::N, 0); v
}
struct Src<'a> { w: &'a [u64], k: usize, s: u64 }
impl Src<'_> {
    fn word(&mut self) -> u64 {
        let r = if self.k < self.w.len() { self.w[self.k] } else {
            self.s = self.s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            let x = self.s; (x ^ (x >> 29)).wrapping_mul(0xBF58476D1CE4E5B9)
        };
        self.k += 1;
        r % P
    }
    /// scalar form when form is 1, full form when 0, varying otherwise
    fn elem<F: Ex>(&mut self, form: u64) -> (F, V) {
        let sc = match form { 0 => false, 1 => true, _ => self.k % 3 == 0 };
        if sc { let mut v = vec![0; F::N]; v[0] = self.word(); (F::from(el(v[0])), v) }
        else { let v: V = (0..F::N).map(|_| self.word()).collect(); (F::mk(&v), v) }
    }
}
fn smul(c: u64, v: &V) -> V { v.iter().map(|x| mulm(c, *x)).collect() }
fn w_of(k: usize) -> u64 { (k..32).fold(powm(7, 0xFFFF_FFFF), |w, _| mulm(w, w)) }
/// values at 1, w, w^2, ... (of base-field columns, which an extension element is a tuple of)
fn dft1(p: &[u64], w: u64) -> Vec<u64> {
    if p.len() == 1 { return p.to_vec(); }
    let pick = |o: usize| p.iter().skip(o).step_by(2).cloned().collect::<Vec<_>>();
    let w2 = mulm(w, w);
    let (e, o) = (dft1(&pick(0), w2), dft1(&pick(1), w2));
    let h = e.len();
    let mut r = vec![0; 2 * h];
    let mut x = 1;
    for i in 0..h {
        let t = mulm(x, o[i]);
        r[i] = addm(e[i], t); r[i + h] = subm(e[i], t);
        x = mulm(x, w);
    }
    r
}
fn dft(p: &[V], w: u64) -> Vec<V> {
    let c: Vec<Vec<u64>> = (0..p[0].len()).map(|k| dft1(&p.iter().map(|v| v[k]).collect::<Vec<_>>(), w)).collect();
    (0..p.len()).map(|i| c.iter().map(|x| x[i]).collect()).collect()
}
fn idft(v: &[V], w: u64) -> Vec<V> {
    let ni = invm(v.len() as u64);
    dft(v, invm(w)).iter().map(|x| smul(ni, x)).collect()
}

/// [len, form, seed, words..]
fn poly<F: Ex>(w: &[u64]) -> Result<(), String> {
    let (n, form) = (w[0] as usize % 20001, w[1] % 27);
    let mut s = Src { w: &w[3..], k: 0, s: w[2] };
    let (x, vx) = s.elem::<F>(form % 3);
    let (b, vb) = s.elem::<F>(form / 3 % 3);
    let (p, vp): (Vec<F>, Vec<V>) = (0..n).map(|_| s.elem::<F>(form / 9)).unzip();
    let want = vp.iter().rev().fold(vec![0; F::N], |a, c| exadd(&exmul(&a, &vx), c));
    ensure_eq!(val(&polutils::eval_pol(&p, &x)), want, "eval_pol");
    let mut q = p.clone();
    polutils::pol_mul_axi(&mut q, b, &x);
    let mut r = vb;
    for i in 0..n { ensure_eq!(val(&q[i]), exmul(&vp[i], &r), "pol_mul_axi at {i}"); r = exmul(&r, &vx); }
    if vp.iter().all(|v| v.iter().any(|c| *c != 0)) {
        let inv = polutils::batch_inverse(&p);
        ensure_eq!(inv.len(), n, "batch_inverse length");
        let mut one = vec![0; F::N]; one[0] = 1;
        for i in 0..n { ensure_eq!(exmul(&val(&inv[i]), &vp[i]), one, "batch_inverse at {i}"); }
    }
    Ok(())
}
/// columns of an interleaved buffer
fn cols(v: &[V], np: usize) -> Vec<Vec<V>> { (0..np).map(|k| v.iter().skip(k).step_by(np).cloned().collect()).collect() }
fn cmp<F: Ex>(got: &[F], want: &[Vec<V>], np: usize, m: &str) -> Result<(), String> {
    ensure_eq!(got.len(), want[0].len() * np, "{m}: length");
    for k in 0..np { for (i, x) in want[k].iter().enumerate() { ensure_eq!(&val(&got[i * np + k]), x, "{m}: polynomial {k} at {i}"); } }
    Ok(())
}
/// [nbits, n_pols, form, seed, words..]
fn fft_n<F: Ex>(nb: usize, np: usize, w: &[u64]) -> Result<(), String> {
    let n = 1usize << nb;
    let mut s = Src { w: &w[4..], k: 0, s: w[3] };
    let (p, vp): (Vec<F>, Vec<V>) = (0..n * np).map(|_| s.elem::<F>(w[2] % 3)).unzip();
    let c = cols(&vp, np);
    let wk = w_of(nb);
    let fw: Vec<_> = c.iter().map(|x| dft(x, wk)).collect();
    let bw: Vec<_> = c.iter().map(|x| idft(x, wk)).collect();
    let mut out = vec![F::mk(&[9; 5]); n * np];
    fft_p::fft(&p, np, nb, &mut out);
    cmp(&out, &fw, np, "fft_p::fft")?;
    let mut back = vec![F::ZERO; n * np];
    fft_p::ifft(&out, np, nb, &mut back);
    cmp(&back, &c, np, "fft_p::ifft of fft_p::fft")?;
    fft_p::ifft(&p, np, nb, &mut back);
    cmp(&back, &bw, np, "fft_p::ifft")?;
    let col: Vec<F> = p.iter().step_by(np).cloned().collect();
    let mut f = FFT::new();
    cmp(&f.fft(&col), &fw[..1], 1, "FFT::fft")?;
    cmp(&f.ifft(&col), &bw[..1], 1, "FFT::ifft")?;
    Ok(())
}
/// one object used several times: [form, seed, steps..], a step is 2 * bits + (1 for the inverse)
fn fft_h<F: Ex>(w: &[u64]) -> Result<(), String> {
    let mut f = FFT::new();
    for (k, x) in w[2..].iter().enumerate() {
        let (inv, nb) = (x % 2 == 1, (x / 2 % 12) as usize);
        let mut s = Src { w: &[], k: 0, s: w[1].wrapping_add(k as u64) };
        let (p, vp): (Vec<F>, Vec<V>) = (0..1usize << nb).map(|_| s.elem::<F>(w[0] % 3)).unzip();
        let (got, want) = if inv { (f.ifft(&p), idft(&vp, w_of(nb))) } else { (f.fft(&p), dft(&vp, w_of(nb))) };
        cmp(&got, &[want], 1, &format!("step {k}: FFT::{}fft of {}", if inv { "i" } else { "" }, 1 << nb))?;
    }
    Ok(())
}
fn g_ffth(g: &mut G) -> Vec<u64> {
    let mut v = vec![g.next(), g.next()];
    for _ in 0..2 + g.below(4) { v.push(g.below(if g.i % 8 == 0 { 22 } else { 12 })); }
    v
}
fn fft_s<F: Ex>(w: &[u64]) -> Result<(), String> { fft_n::<F>(w[0] as usize % 9, 1 + w[1] as usize % 5, w) }
fn fft_b<F: Ex>(w: &[u64]) -> Result<(), String> { fft_n::<F>(w[0] as usize % 20, 1 + w[1] as usize % 2, w) }
/// [nbits, n_pols, form, seed, extra bits, words..]
fn lde_n<F: Ex>(nb: usize, np: usize, xb: usize, w: &[u64]) -> Result<(), String> {
    let n = 1usize << nb;
    let mut s = Src { w: &w[5..], k: 0, s: w[3] };
    let (p, vp): (Vec<F>, Vec<V>) = (0..n * np).map(|_| s.elem::<F>(w[2] % 3)).unzip();
    let ext = |c: &Vec<V>| -> Vec<V> {
        let mut k: Vec<V> = idft(c, w_of(nb));
        let mut sh = 1;
        for x in k.iter_mut() { *x = smul(sh, x); sh = mulm(sh, 49); }
        k.resize(n << xb, vec![0; F::N]);
        dft(&k, w_of(nb + xb))
    };
    let want: Vec<_> = cols(&vp, np).iter().map(ext).collect();
    let mut out = vec![F::ZERO; (n << xb) * np];
    fft_p::interpolate(&p, np, nb, &mut out, nb + xb);
    cmp(&out, &want, np, "interpolate")?;
    let col: Vec<F> = p.iter().step_by(np).cloned().collect();
    cmp(&polutils::extend_pol(&col, xb), &want[..1], 1, "extend_pol")?;
    // the coefficient scaling is cut into one run of rows per thread: the same for any run
    let mut all = p.clone();
    fft_p::interpolate_prepare(&mut all, np, nb);
    let ni = invm(n as u64);
    for i in 0..n * np { ensure_eq!(val(&all[i]), smul(mulm(ni, powm(49, (i / np) as u64)), &vp[i]), "interpolate_prepare at {i}"); }
    Ok(())
}
fn lde_s<F: Ex>(w: &[u64]) -> Result<(), String> { lde_n::<F>(w[0] as usize % 7, 1 + w[1] as usize % 5, w[4] as usize % 4, w) }
fn lde_b<F: Ex>(w: &[u64]) -> Result<(), String> { lde_n::<F>(w[0] as usize % 18, 1 + w[1] as usize % 2, w[4] as usize % 3, w) }
/// wide rows: [rows bits, width]
fn lde_w(w: &[u64]) -> Result<(), String> {
    let np = [1 << 12, (1 << 12) + 1, 1 << 17, (1 << 18) - 1, 1 << 18, (1 << 18) + 1, 1 << 19][w[1] as usize % 7];
    lde_n::<F3G>(w[0] as usize % 2, np, 1, &[0, 0, 1, w[1], 0])
}
/// [bits, polynomials]: the powers of the shift for every row of a large domain
fn prep<F: Ex>(w: &[u64]) -> Result<(), String> {
    let (nb, np) = (w[0] as usize % 20, 1 + w[1] as usize % 3);
    let n = 1usize << nb;
    let mut b = vec![F::from(el(1)); n * np];
    fft_p::interpolate_prepare(&mut b, np, nb);
    let mut want = powm(n as u64 % P, P - 2);
    for i in 0..n {
        for j in 0..np { let v = val(&b[i * np + j]); ensure_eq!((v[0], v[1..].iter().all(|c| *c == 0)), (want, true), "factor of row {i} of 2^{nb}, polynomial {j}"); }
        want = mulm(want, 49);
    }
    Ok(())
}
fn rev(x: u64, k: u64) -> u64 { (0..k).filter(|b| x >> b & 1 == 1).map(|b| 1 << (k - 1 - b)).sum() }
/// pairs (k, x)
fn br(w: &[u64]) -> Result<(), String> {
    for p in w.chunks(2).filter(|p| p.len() == 2) {
        let k = p[0] % 21;
        let x = p[1] % (1 << k);
        let r = fft_p::BR(x as usize, k as usize) as u64;
        ensure_eq!(r, rev(x, k), "BR({x}, {k}), asked in this order: {w:?}");
        ensure_eq!(fft_p::BR(r as usize, k as usize) as u64, x, "BR(BR({x}))");
    }
    Ok(())
}
fn brs(w: &[u64]) -> Result<(), String> {
    let k = w[0] % 15;
    let (mut a, mut b) = (w[1] % (1 << k), w[2] % (1 << k));
    if a > b { std::mem::swap(&mut a, &mut b); }
    let got = fft_p::BRs(a as usize, b as usize + 1, k as usize);
    ensure_eq!(got, (a..=b).map(|x| rev(x, k) as usize).collect::<Vec<_>>(), "BRs({a}, {}, {k})", b + 1);
    Ok(())
}
fn log2(w: &[u64]) -> Result<(), String> {
    let v = w[0] & 0xFFFF_FFFF;
    ensure_eq!(helper::log2_any(v as usize) as u64, if v == 0 { 0 } else { 63 - v.leading_zeros() as u64 }, "log2_any({v})");
    Ok(())
}
/// [nbits, transpose bits, n_pols]
fn trans(w: &[u64]) -> Result<(), String> {
    let nb = w[0] as usize % 21;
    let (tb, np) = (w[1] as usize % (nb + 1), 1 + w[2] as usize % (1 << 20 >> nb).max(4));
    let (n, wd) = (1usize << nb, 1usize << tb);
    let h = n / wd;
    let src: Vec<F3G> = (0..n * np).map(|i| F3G::from(el(i as u64 + 1))).collect();
    let g = |v: &Vec<F3G>| v.iter().map(|x| val(x)[0] as usize).collect::<Vec<_>>();
    let mut dst = vec![F3G::ZERO; n * np];
    fft_p::transpose(&mut dst, &src, np, nb, tb);
    let d = g(&dst);
    for j in 0..h { for i in 0..wd { for k in 0..np {
        ensure_eq!(d[(i * h + j) * np + k], (j * wd + i) * np + k + 1, "transpose({np}, {nb}, {tb})");
    } } }
    let ni = invm(n as u64);
    fft_p::bit_reverse(&mut dst, &src, np, nb);
    let b = g(&dst);
    let mut dst2 = vec![F3G::ZERO; n * np];
    fft_p::interpolate_bit_reverse(&mut dst2, &src, np, nb);
    let c = g(&dst2);
    let mut dst3 = vec![F3G::ZERO; n * np];
    fft_p::inv_bit_reverse(&mut dst3, &src, np, nb);
    for i in 0..n { for k in 0..np {
        let r = rev(i as u64, nb as u64) as usize;
        ensure_eq!(b[i * np + k], r * np + k + 1, "bit_reverse({np}, {nb})");
        ensure_eq!(c[i * np + k], (n - r) % n * np + k + 1, "interpolate_bit_reverse({np}, {nb})");
        ensure_eq!(val(&dst3[i * np + k])[0], mulm(ni, ((n - r) % n * np + k + 1) as u64), "inv_bit_reverse({np}, {nb})");
    } }
    Ok(())
}
/// mostly below `small`, at times near a power of two or a number of the sources, up to `big`
fn size(g: &mut G, small: u64, big: u64) -> u64 {
    match g.below(24) {
        0 => ((1u64 << g.below(15)) + g.below(3)).saturating_sub(1).min(big),
        1 if !g.dict.is_empty() => { let k = g.below(g.dict.len() as u64) as usize; let d = g.dict[k]; if d < big { (d + g.below(3)).saturating_sub(1) } else { g.below(small) } }
        _ => g.below(small),
    }
}
fn g_poly(g: &mut G) -> Vec<u64> {
    let n = if g.i < 36 { g.i % 12 } else { size(g, 70, 20000) };
    let mut v = vec![n, if g.i < 27 { g.i } else { g.below(27) }, g.next()];
    let m = g.below(60) as usize;
    v.extend(g.fes(m)); v
}
fn g_fft(g: &mut G) -> Vec<u64> {
    let mut v = if g.i < 45 { vec![g.i % 9, g.i / 9] } else { vec![g.below(9), g.below(5)] };
    v.push(g.below(3)); v.push(g.next());
    let m = g.below(40) as usize;
    v.extend(g.fes(m)); v
}
fn g_fftb(g: &mut G) -> Vec<u64> { vec![13 + g.i % 2, g.i / 2, g.below(3), g.next()] }
fn g_lde(g: &mut G) -> Vec<u64> {
    let mut v = if g.i < 28 { vec![g.i % 7, g.below(5), g.below(3), g.next(), g.i / 7] } else { vec![g.below(7), g.below(5), g.below(3), g.next(), g.below(4)] };
    let m = g.below(40) as usize;
    v.extend(g.fes(m)); v
}
fn g_ldeb(g: &mut G) -> Vec<u64> { if g.i % 2 == 0 { vec![12, g.i / 2, g.below(3), g.next(), 1] } else { vec![13, g.i / 2, g.below(3), g.next(), g.below(2)] } }
fn g_br(g: &mut G) -> Vec<u64> {
    let n = 1 + g.below(6);
    let k0 = g.below(13);
    (0..n).flat_map(|_| { let k = match g.below(12) { 0 => g.below(21), 1..=3 => g.below(13), _ => k0 }; let x = match g.below(4) { 0 => (1 << k) - 1, 1 => g.below(1 << k) >> g.below(k + 1), _ => g.below(1 << k) }; [k, x] }).collect()
}
fn main() {
    main_with(vec![
        T { prop: "C07", name: "poly3", min: 1000, max: 0, gen: g_poly, check: poly::<F3G> },
        T { prop: "C07", name: "poly5", min: 1000, max: 0, gen: g_poly, check: poly::<F5G> },
        T { prop: "C08", name: "fft3", min: 60, max: 0, gen: g_fft, check: fft_s::<F3G> },
        T { prop: "C08", name: "fft5", min: 60, max: 0, gen: g_fft, check: fft_s::<F5G> },
        T { prop: "C08", name: "ffth3", min: 60, max: 0, gen: g_ffth, check: fft_h::<F3G> },
        T { prop: "C08", name: "ffth5", min: 60, max: 0, gen: g_ffth, check: fft_h::<F5G> },
        T { prop: "C08", name: "fftb3", min: 2, max: 12, gen: g_fftb, check: fft_b::<F3G> },
        T { prop: "C08", name: "fftb5", min: 1, max: 4, gen: g_fftb, check: fft_b::<F5G> },
        T { prop: "C08", name: "fftb3", min: 6, max: 12, gen: |g| vec![15 + g.i % 4, g.i / 4, 0, g.next()], check: fft_b::<F3G> },
        T { prop: "C09", name: "lde3", min: 60, max: 0, gen: g_lde, check: lde_s::<F3G> },
        T { prop: "C09", name: "lde5", min: 60, max: 0, gen: g_lde, check: lde_s::<F5G> },
        T { prop: "C09", name: "ldeb3", min: 2, max: 12, gen: g_ldeb, check: lde_b::<F3G> },
        T { prop: "C09", name: "ldeb3", min: 2, max: 10, gen: |g| vec![17 - g.i % 4, 0, 0, g.next(), 1 + g.i / 4], check: lde_b::<F3G> },
        T { prop: "C09", name: "ldew", min: 14, max: 14, gen: |g| vec![g.i / 7, g.i % 7], check: lde_w },
        T { prop: "C09", name: "prep3", min: 24, max: 60, gen: |g| vec![19 - g.i % 20, g.below(3)], check: prep::<F3G> },
        T { prop: "C09", name: "prep5", min: 6, max: 40, gen: |g| vec![19 - g.i % 20, g.below(3)], check: prep::<F5G> },
        T { prop: "C24", name: "br", min: 400, max: 0, gen: g_br, check: br },
        T { prop: "C24", name: "brs", min: 400, max: 0, gen: |g| { if g.i < 15 { vec![g.i, 0, u64::MAX >> (64 - 15)] } else { vec![g.below(15), g.next(), g.next()] } }, check: brs },
        T { prop: "C24", name: "log2", min: 20000, max: 0, gen: |g| vec![match g.i { 0..=32 => (1u64 << g.i) - 1, 33..=65 => 1 << (g.i - 33), _ => { let w = g.word(); w >> (g.below(2) * 32) } }], check: log2 },
        T { prop: "C24", name: "trans", min: 240, max: 0, gen: |g| if g.i < 225 { vec![g.i % 9, g.i / 9 % 9, g.i / 81] } else { let nb = g.below(18); vec![nb, g.below(nb + 1), if g.below(4) == 0 { g.below(1 << 18 >> nb) } else { g.below(3) }] }, check: trans },
    ]);
}
