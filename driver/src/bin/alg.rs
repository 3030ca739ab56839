//! C19-C22: R1CS files, witness files, the synthesised circuit, and the values that cross the wasm boundary
use algebraic_gpu::circom_circuit::{CircomCircuit, Constraint, R1CS};
use algebraic_gpu::witness::{self, witness_calculator as wc};
use algebraic_gpu::{r1cs_file, reader};
use bellperson::{Circuit, ConstraintSystem, Index, LinearCombination, SynthesisError, Variable};
use ff::{Field, PrimeField};
use num_bigint03::{BigInt, BigUint};
use num_traits::Num;
use std::collections::{BTreeMap, HashMap};
use std::io::{Cursor, Read, Seek, SeekFrom};
use std::panic::{catch_unwind, AssertUnwindSafe};
use vdriver::*;

mod bn {
use ff::PrimeField;
#[derive(PrimeField)]
#[PrimeFieldModulus = "21888242871839275222246405745257275088548364400416034343698204186575808495617"]
#[PrimeFieldGenerator = "5"]
#[PrimeFieldReprEndianness = "little"]
pub struct Bn([u64; 4]);
}
use bn::Bn;
type Bls = blstrs::Scalar;

/// the Goldilocks field, eight bytes an element; only what reading a file needs
mod gl {
    use ff::{Field, PrimeField};
    use std::iter::{Product, Sum};
    use std::ops::*;
    use ff::derive::subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};
    use vdriver::P;
    #[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
    pub struct Gl(pub u64);
    impl ConditionallySelectable for Gl { fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self { Gl(u64::conditional_select(&a.0, &b.0, c)) } }
    impl ConstantTimeEq for Gl { fn ct_eq(&self, o: &Self) -> Choice { self.0.ct_eq(&o.0) } }
    impl From<u64> for Gl { fn from(x: u64) -> Self { Gl(x % P) } }
    impl Neg for Gl { type Output = Gl; fn neg(self) -> Gl { Gl((P - self.0) % P) } }
    macro_rules! op { ($t:ident, $f:ident, $ta:ident, $fa:ident, $e:expr) => {
        impl $t for Gl { type Output = Gl; fn $f(self, o: Gl) -> Gl { let g: fn(u128, u128) -> u128 = $e; Gl(g(self.0 as u128, o.0 as u128) as u64) } }
        impl<'a> $t<&'a Gl> for Gl { type Output = Gl; fn $f(self, o: &'a Gl) -> Gl { $t::$f(self, *o) } }
        impl $ta for Gl { fn $fa(&mut self, o: Gl) { *self = $t::$f(*self, o) } }
        impl<'a> $ta<&'a Gl> for Gl { fn $fa(&mut self, o: &'a Gl) { *self = $t::$f(*self, *o) } }
    } }
    op!(Add, add, AddAssign, add_assign, |a, b| (a + b) % P as u128);
    op!(Sub, sub, SubAssign, sub_assign, |a, b| (a + P as u128 - b) % P as u128);
    op!(Mul, mul, MulAssign, mul_assign, |a, b| a * b % P as u128);
    impl Sum for Gl { fn sum<I: Iterator<Item = Gl>>(i: I) -> Gl { i.fold(Gl(0), |a, b| a + b) } }
    impl Product for Gl { fn product<I: Iterator<Item = Gl>>(i: I) -> Gl { i.fold(Gl(1), |a, b| a * b) } }
    impl<'a> Sum<&'a Gl> for Gl { fn sum<I: Iterator<Item = &'a Gl>>(i: I) -> Gl { i.fold(Gl(0), |a, b| a + b) } }
    impl<'a> Product<&'a Gl> for Gl { fn product<I: Iterator<Item = &'a Gl>>(i: I) -> Gl { i.fold(Gl(1), |a, b| a * b) } }
    impl Field for Gl {
        const ZERO: Self = Gl(0);
        const ONE: Self = Gl(1);
        fn random(_: impl ff::derive::rand_core::RngCore) -> Self { unimplemented!() }
        fn square(&self) -> Self { *self * *self }
        fn double(&self) -> Self { *self + *self }
        fn invert(&self) -> CtOption<Self> { unimplemented!() }
        fn sqrt_ratio(_: &Self, _: &Self) -> (Choice, Self) { unimplemented!() }
    }
    impl PrimeField for Gl {
        type Repr = [u8; 8];
        fn from_repr(r: [u8; 8]) -> CtOption<Self> { let x = u64::from_le_bytes(r); CtOption::new(Gl(x), Choice::from((x < P) as u8)) }
        fn to_repr(&self) -> [u8; 8] { self.0.to_le_bytes() }
        fn is_odd(&self) -> Choice { Choice::from((self.0 & 1) as u8) }
        const MODULUS: &'static str = "0xffffffff00000001";
        const NUM_BITS: u32 = 64;
        const CAPACITY: u32 = 63;
        const TWO_INV: Self = Gl(0x7fff_ffff_8000_0001);
        const MULTIPLICATIVE_GENERATOR: Self = Gl(7);
        const S: u32 = 32;
        const ROOT_OF_UNITY: Self = Gl(1753635133440165772);
        const ROOT_OF_UNITY_INV: Self = Gl(0);
        const DELTA: Self = Gl(0);
    }
}
use gl::Gl;

trait Fx: PrimeField { fn modulus() -> BigUint { BigUint::from_str_radix(Self::MODULUS.trim_start_matches("0x"), 16).unwrap() } }
impl Fx for Bn {}
impl Fx for Bls {}
impl Fx for Gl {}
fn nbytes<E: Fx>() -> usize { (E::NUM_BITS as usize + 7) / 8 }
fn enc(x: &BigUint, n: usize) -> Vec<u8> { let mut v = x.to_bytes_le(); v.resize(n, 0); v }
fn valof<E: PrimeField>(e: &E) -> BigUint { BigUint::from_bytes_le(e.to_repr().as_ref()) }

struct R(u64);
impl R {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: u64) -> u64 { self.next() % n.max(1) }
    fn big(&mut self, m: &BigUint) -> BigUint {
        match self.below(8) {
            0 => BigUint::from(self.below(3)),
            1 => m - BigUint::from(1 + self.below(3)),
            2 => BigUint::from(self.next()),
            3 => (BigUint::from(1u8) << (self.below(m.bits()) as usize)) % m,
            _ => { let v: Vec<u32> = (0..9).map(|_| self.next() as u32).collect(); BigUint::new(v) % m }
        }
    }
}

/// gives at most k bytes at a time
struct Slow { c: Cursor<Vec<u8>>, k: usize }
impl Read for Slow { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { let n = b.len().min(self.k); self.c.read(&mut b[..n]) } }
impl Seek for Slow { fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> { self.c.seek(p) } }

type Terms = Vec<(u32, BigUint)>;
struct Model { nw: u32, npo: u32, npi: u32, nprv: u32, labels: u64, cons: Vec<[Terms; 3]>, map: Vec<u64>, gates: Vec<(String, Vec<BigUint>)>, uses: Vec<(u32, Vec<u64>)> }
fn u32b(x: u32) -> Vec<u8> { x.to_le_bytes().to_vec() }
fn u64b(x: u64) -> Vec<u8> { x.to_le_bytes().to_vec() }

const ORDERS: [[u32; 3]; 6] = [[1, 2, 3], [2, 1, 3], [2, 3, 1], [3, 2, 1], [3, 1, 2], [1, 3, 2]];

fn model<E: Fx>(r: &mut R, ncons: u64, nw: u64, npo: u64, npi: u64, big: bool) -> Model {
    let m = E::modulus();
    let nw = nw.max(1 + npo + npi);
    let cons = (0..ncons).map(|_| {
        let mut t = || -> Terms {
            let n = if big { r.below(40) } else { r.below(4) };
            (0..n).map(|_| (r.below(nw) as u32, r.big(&m))).collect()
        };
        [t(), t(), t()]
    }).collect();
    let map = (0..nw).map(|i| if i == 0 { 0 } else if r.below(3) == 0 { r.next() } else { i }).collect();
    let gates = (0..r.below(3)).map(|_| ((0..r.below(5)).map(|_| (97 + r.below(26)) as u8 as char).collect(), (0..r.below(3)).map(|_| r.big(&m)).collect())).collect();
    let uses = (0..r.below(3)).map(|_| (r.next() as u32, (0..r.below(4)).map(|_| r.next()).collect())).collect();
    Model { nw: nw as u32, npo: npo as u32, npi: npi as u32, nprv: r.below(100) as u32, labels: r.next(), cons, map, gates, uses }
}
fn terms(t: &Terms, n: usize, o: &mut Vec<u8>) {
    o.extend(u32b(t.len() as u32));
    for (w, c) in t { o.extend(u32b(*w)); o.extend(enc(c, n)); }
}
/// the sections as (type, content)
fn sections<E: Fx>(m: &Model, order: u64, extra: u64, r: &mut R) -> Vec<(u32, Vec<u8>)> {
    let n = nbytes::<E>();
    let mut h = u32b(n as u32);
    h.extend(enc(&E::modulus(), n));
    for x in [m.nw, m.npo, m.npi, m.nprv] { h.extend(u32b(x)); }
    h.extend(u64b(m.labels));
    h.extend(u32b(m.cons.len() as u32));
    let mut c = vec![];
    for k in &m.cons { for t in k { terms(t, n, &mut c); } }
    let w: Vec<u8> = m.map.iter().flat_map(|x| u64b(*x)).collect();
    let mut s: Vec<(u32, Vec<u8>)> = ORDERS[order as usize % 6].iter().map(|t| (*t, match t { 1 => h.clone(), 2 => c.clone(), _ => w.clone() })).collect();
    let mut at = |s: &mut Vec<(u32, Vec<u8>)>, x| { let k = r.below(s.len() as u64 + 1) as usize; s.insert(k, x); };
    if extra & 1 != 0 {
        let mut b = u32b(m.gates.len() as u32);
        for (nm, ps) in &m.gates {
            b.extend(nm.as_bytes()); b.push(0); b.extend(u32b(ps.len() as u32));
            for p in ps { b.extend(enc(p, n)); }
        }
        at(&mut s, (4, b));
    }
    if extra & 2 != 0 {
        let mut b = u32b(m.uses.len() as u32);
        for (id, ss) in &m.uses { b.extend(u32b(*id)); b.extend(u32b(ss.len() as u32)); for x in ss { b.extend(u64b(*x)); } }
        at(&mut s, (5, b));
    }
    if extra & 4 != 0 { at(&mut s, (6 + (extra >> 4) as u32 % 1000, vec![0xA5; (extra >> 4) as usize % 61])); }
    if extra & 8 != 0 { at(&mut s, (0, vec![])); }
    s
}
fn layout(s: &[(u32, Vec<u8>)]) -> Vec<u8> {
    let mut b = b"r1cs".to_vec();
    b.extend(u32b(1)); b.extend(u32b(s.len() as u32));
    for (t, c) in s { b.extend(u32b(*t)); b.extend(u64b(c.len() as u64)); b.extend(c); }
    b
}
fn parse<E: Fx>(b: Vec<u8>, chunk: u64) -> Result<r1cs_file::R1CSFile<E>, String> {
    let k = match chunk % 4 { 0 => 1, 1 => 3, 2 => 7, _ => usize::MAX };
    match catch_unwind(AssertUnwindSafe(|| r1cs_file::from_reader::<_, E>(Slow { c: Cursor::new(b), k }))) {
        Ok(r) => r.map_err(|e| e.to_string()),
        Err(_) => Err("panic".into()),
    }
}
fn same<E: Fx>(f: &Constraint<E>, m: &[Terms; 3]) -> Result<(), String> {
    for (k, (g, w)) in [&f.0, &f.1, &f.2].iter().zip(m).enumerate() {
        let mut w = w.clone();
        w.sort_by_key(|t| t.0);
        let mut g: Vec<(usize, BigUint)> = g.iter().map(|(i, c)| (*i, valof(c))).collect();
        if w.len() == g.len() { g.sort_by_key(|t| t.0); }
        let w: Vec<(usize, BigUint)> = w.into_iter().map(|(i, c)| (i as usize, c)).collect();
        ensure_eq!(g, w, "terms of part {k}");
    }
    Ok(())
}
/// the file says what the model says
fn fine<E: Fx>(m: &Model, b: Vec<u8>, extra: u64, chunk: u64) -> Result<(), String> {
    let f = parse::<E>(b.clone(), chunk).map_err(|e| format!("a well-formed file is refused: {e}"))?;
    ensure_eq!(f.version, 1, "version");
    ensure_eq!((f.header.field_size, f.header.prime_size.clone()), (nbytes::<E>() as u32, enc(&E::modulus(), nbytes::<E>())), "field");
    ensure_eq!((f.header.n_wires, f.header.n_pub_out, f.header.n_pub_in, f.header.n_prv_in, f.header.n_labels, f.header.n_constraints), (m.nw, m.npo, m.npi, m.nprv, m.labels, m.cons.len() as u32), "header counts");
    ensure_eq!(f.constraints.len(), m.cons.len(), "constraints");
    for (k, (a, b)) in f.constraints.iter().zip(&m.cons).enumerate() { same(a, b).map_err(|e| format!("constraint {k}: {e}"))?; }
    ensure_eq!(f.wire_mapping, m.map, "wire map");
    if extra & 1 != 0 {
        let got: Vec<(String, Vec<BigUint>)> = f.custom_gates.iter().map(|c| (c.template_name.clone(), c.parameters.iter().map(valof).collect())).collect();
        ensure_eq!(got, m.gates, "custom gates");
    } else { ensure_eq!(f.custom_gates.len(), 0, "custom gates"); }
    if extra & 2 != 0 {
        let got: Vec<(u32, Vec<u64>)> = f.custom_gates_uses.iter().map(|c| (c.id as u32, c.signals.clone())).collect();
        ensure_eq!(got, m.uses, "custom gate uses");
    } else { ensure_eq!(f.custom_gates_uses.len(), 0, "custom gate uses"); }
    let (c, wm) = reader::load_r1cs_from_bin::<_, E>(Cursor::new(b.clone()));
    let ni = (1 + m.npo + m.npi) as usize;
    ensure_eq!((c.num_inputs, c.num_aux, c.num_variables, c.num_outputs), (ni, m.nw as usize - ni, m.nw as usize, m.npo as usize), "circuit counts");
    ensure_eq!(wm.iter().map(|x| *x as u64).collect::<Vec<_>>(), m.map, "loaded wire map");
    ensure_eq!(c.constraints.len(), m.cons.len(), "loaded constraints");
    for (k, (a, b)) in c.constraints.iter().zip(&m.cons).enumerate() { same(a, b).map_err(|e| format!("loaded constraint {k}: {e}"))?; }
    Ok(())
}
/// [order, ncons, nwires, npubout, npubin, extra, seed, chunk, mutation, where]
fn r1cs<E: Fx>(v: &[u64]) -> Result<(), String> {
    let g = |k: usize| v.get(k).copied().unwrap_or(0);
    let mut r = R(g(6));
    let ncons = if g(1) >= 1000 { 1000 } else { g(1) % 50 };
    let m = model::<E>(&mut r, ncons, g(2) % 300, g(3) % 40, g(4) % 40, g(1) % 2 == 1 && g(1) > 20);
    let mut s = sections::<E>(&m, g(0), g(5), &mut r);
    let mu = g(8);
    let w = g(9);
    if mu == 0 {
        return fine::<E>(&m, layout(&s), g(5), g(7));
    }
    let at = |s: &[(u32, Vec<u8>)], t: u32| s.iter().position(|x| x.0 == t).unwrap();
    let n = nbytes::<E>();
    let mut b;
    let what: String;
    match mu {
        1 => { b = layout(&s); let k = w as usize % b.len(); b.truncate(k); what = format!("the first {k} bytes of a file"); }
        2 => { b = layout(&s); b[w as usize % 4] ^= 1 + (w >> 8) as u8 % 255; what = "bad magic".into(); }
        3 => { b = layout(&s); let x = if w as u32 == 1 { 2 } else { w as u32 }; b[4..8].copy_from_slice(&x.to_le_bytes()); what = format!("version {x}"); }
        4 => { let k = at(&s, 1); s[k].1[4 + w as usize % n] ^= 1 << (w >> 8) % 8; b = layout(&s); what = "bad prime".into(); }
        5 => { let k = at(&s, 1); let fs = [0, 1, 4, 7, 8, 16, 31, 32, 33, 64][w as usize % 10]; if fs == n as u32 { return Ok(()); } s[k].1[..4].copy_from_slice(&fs.to_le_bytes()); b = layout(&s); what = format!("field size {fs}"); }
        6 => { let k = at(&s, 1 + w as u32 % 3); let j = 1 + (w >> 8) as usize % 40; let z = s[k].1.len(); s[k].1.resize(z + j, (w >> 16) as u8); b = layout(&s); what = format!("section {} has {j} bytes too many", s[k].0); }
        7 => { let k = at(&s, 1 + w as u32 % 3); let z = s[k].1.len(); if z == 0 { return Ok(()); } let j = 1 + (w >> 8) as usize % z; s[k].1.truncate(z - j); b = layout(&s); what = format!("section {} lacks its last {j} bytes", s[k].0); }
        8 => { let k = at(&s, 3); s[k].1[w as usize % 8] = 1 + (w >> 8) as u8 % 255; b = layout(&s); what = "wire 0 is not mapped to 0".into(); }
        9 => { let k = at(&s, 1); let x = m.nw as i64 + [1, -1, 2, 7, -3, 256][w as usize % 6]; if x < 0 { return Ok(()); } s[k].1[4 + n..8 + n].copy_from_slice(&(x as u32).to_le_bytes()); b = layout(&s); what = format!("{x} wires, {} in the map", m.nw); }
        10 => { let k = at(&s, 1); let x = m.cons.len() as i64 + [1, -1, 2, -2, 256, 65536][w as usize % 6]; if x < 0 { return Ok(()); } let z = s[k].1.len(); s[k].1[z - 4..].copy_from_slice(&(x as u32).to_le_bytes()); b = layout(&s); what = format!("{x} constraints, {} in the section", m.cons.len()); }
        11 => { let k = at(&s, 1 + w as u32 % 3); let t = s.remove(k).0; b = layout(&s); what = format!("no section {t}"); }
        12 => { b = layout(&s); let x = s.len() as u32 + 1 + (w as u32 % 300); b[8..12].copy_from_slice(&x.to_le_bytes()); what = format!("{x} sections announced, {} there", s.len()); }
        13 => {
            // a coefficient that is not a field element
            let mut m = m;
            let z = m.cons.len();
            if z == 0 { return Ok(()); }
            let p = &mut m.cons[w as usize % z][(w >> 16) as usize % 3];
            if p.is_empty() { p.push((0, BigUint::from(0u8))); }
            let j = (w >> 24) as usize % p.len();
            p[j].1 = match (w >> 32) % 3 { 0 => E::modulus(), 1 => (BigUint::from(1u8) << (8 * n)) - BigUint::from(1u8), _ => E::modulus() + BigUint::from(1u8) };
            s = sections::<E>(&m, g(0), 0, &mut r);
            b = layout(&s); what = "a coefficient that is not a field element".into();
        }
        14 => { let k = at(&s, 1); let o = if n == 8 { BigUint::from(P - 2) } else if E::modulus() == Bn::modulus() { Bls::modulus() } else { Bn::modulus() }; s[k].1[4..4 + n].copy_from_slice(&enc(&o, n)); b = layout(&s); what = "the prime of another field".into(); }
        15 => { let k = at(&s, 1); let x = m.nw + (w as u32 % 3) * 1000; s[k].1[8 + n + 4 * (w >> 8) as usize % 8..][..4].copy_from_slice(&x.to_le_bytes()); b = layout(&s); what = "more public wires than wires".into(); }
        _ => return Ok(()),
    }
    match parse::<E>(b, g(7)) { Ok(_) => Err(format!("read without an error: {what}")), Err(e) if e == "panic" => Err(format!("panic instead of an error: {what}")), Err(_) => Ok(()) }
}
/// one thing of the file is large: [what, how many, seed, order]
fn r1cs_big<E: Fx>(v: &[u64]) -> Result<(), String> {
    let g = |k: usize| v.get(k).copied().unwrap_or(0);
    let mut r = R(g(2));
    let n = g(1).min(200_000);
    let what = g(0) % 10;
    let mut m = model::<E>(&mut r, if what == 1 { n } else { 2 }, if what == 2 { n } else { 9 }, 1, 1, false);
    let p = E::modulus();
    match what {
        0 => { let k = r.below(3) as usize; m.cons[1][k] = (0..n).map(|i| (i as u32 / 3, r.big(&p))).collect(); }
        4 => m.gates = (0..n).map(|i| (format!("g{i}"), vec![])).collect(),
        5 => m.gates = vec![("g".into(), (0..n).map(|_| r.big(&p)).collect()), ("h".into(), vec![])],
        6 => m.gates = vec![("g".repeat(n as usize), vec![]), ("h".into(), vec![])],
        7 => m.uses = (0..n).map(|i| (i as u32, vec![])).collect(),
        8 => m.uses = vec![(1, (0..n).map(|_| r.next()).collect()), (2, vec![7])],
        _ => {}
    }
    let extra = match what { 4..=6 => 1, 7 | 8 => 2, _ => 0 };
    let mut s = sections::<E>(&m, g(3), extra, &mut r);
    if what == 3 {
        let at = r.below(4) as usize;
        s.splice(at..at, (0..n).map(|i| (9 + i as u32 % 7, vec![0; i as usize % 2])));
    }
    if what == 9 {
        // earlier sections of the same types
        let o = model::<E>(&mut r, 1 + n % 7, 3 + n % 5, 0, 0, false);
        let mut q = sections::<E>(&o, g(3) + 1, 0, &mut r);
        q.extend(s);
        s = q;
    }
    fine::<E>(&m, layout(&s), extra, 3)
}
fn g_r1cs_big(g: &mut G) -> Vec<u64> {
    let z = [1, 15, 16, 17, 255, 256, 257, 300, 1000, 2049];
    vec![g.i, z[g.below(z.len() as u64) as usize], g.next(), g.next()]
}
fn g_r1cs(g: &mut G) -> Vec<u64> {
    let mu = if g.i % 2 == 0 { 0 } else { g.i / 2 % 16 };
    let c = match g.below(12) { 0 => 0, 1 => 1000, 2 => g.below(50), _ => g.below(6) };
    let nw = if g.below(8) == 0 { g.next() } else { g.below(12) };
    vec![g.below(6), c, nw, g.below(5), g.below(5), if g.below(2) == 0 { 0 } else { g.below(16000) }, g.next(), g.next(), mu, g.next()]
}

/// [version, count, seed, chunk, mutation, where]
fn wtns<E: Fx>(v: &[u64]) -> Result<(), String> {
    let g = |k: usize| v.get(k).copied().unwrap_or(0);
    let mut r = R(g(2));
    let len = g(1) as usize % 3000;
    let m = E::modulus();
    let n = nbytes::<E>();
    let w: Vec<BigUint> = (0..len).map(|_| r.big(&m)).collect();
    let mk = |ver: u32, secs: u32, t1: u32, s1: u64, fs: u32, prime: &[u8], cnt: u32, t2: u32, s2: u64, w: &[BigUint]| -> Vec<u8> {
        let mut b = b"wtns".to_vec();
        b.extend(u32b(ver)); b.extend(u32b(secs)); b.extend(u32b(t1)); b.extend(u64b(s1)); b.extend(u32b(fs)); b.extend(prime); b.extend(u32b(cnt)); b.extend(u32b(t2)); b.extend(u64b(s2));
        for x in w { b.extend(enc(x, n)); }
        b
    };
    let ver = g(0) as u32 % 3;
    let pr = enc(&m, n);
    let (c, sz) = (len as u32, len as u64 * 32);
    let good = mk(ver, 2, 1, 40, 32, &pr, c, 2, sz, &w);
    let k = g(5);
    let read = |b: Vec<u8>| -> Result<Vec<E>, String> {
        let ch = match g(3) % 4 { 0 => 1, 1 => 5, 2 => 31, _ => usize::MAX };
        if g(3) % 8 == 3 { return match catch_unwind(AssertUnwindSafe(|| reader::load_witness_from_array::<E>(b))) { Ok(r) => r.map_err(|e| e.to_string()), Err(_) => Err("panic".into()) }; }
        match catch_unwind(AssertUnwindSafe(|| reader::load_witness_from_bin_reader::<E, _>(Slow { c: Cursor::new(b), k: ch }))) { Ok(r) => r.map_err(|e| e.to_string()), Err(_) => Err("panic".into()) }
    };
    let (b, what) = match g(4) {
        0 => {
            let f = read(good).map_err(|e| format!("a well-formed file is refused: {e}"))?;
            ensure_eq!(f.iter().map(valof).collect::<Vec<_>>(), w, "witness");
            return Ok(());
        }
        1 => { let z = k as usize % good.len(); (good[..z].to_vec(), format!("the first {z} of {} bytes", good.len())) }
        2 => { let mut b = good; b[k as usize % 4] ^= 1 + (k >> 8) as u8 % 255; (b, "bad magic".into()) }
        3 => { let x = if (k as u32) < 3 { 3 + k as u32 } else { k as u32 }; (mk(x, 2, 1, 40, 32, &pr, c, 2, sz, &w), format!("version {x}")) }
        4 => { let x = [0, 1, 3, 4, 258, 1 << 31][k as usize % 6]; (mk(ver, x, 1, 40, 32, &pr, c, 2, sz, &w), format!("{x} sections")) }
        5 => { let x = [0, 2, 3, 257, 1 << 16][k as usize % 5]; (mk(ver, 2, x, 40, 32, &pr, c, 2, sz, &w), format!("first section of type {x}")) }
        6 => { let x = [0, 39, 41, 8, 40 + 256, 40 + (1 << 32)][k as usize % 6]; (mk(ver, 2, 1, x, 32, &pr, c, 2, sz, &w), format!("first section of {x} bytes")) }
        7 => { let x = [0, 8, 31, 33, 64, 288][k as usize % 6]; (mk(ver, 2, 1, 40, x, &pr, c, 2, sz, &w), format!("elements of {x} bytes")) }
        8 => { let mut p = pr.clone(); p[k as usize % n] ^= 1 << (k >> 8) % 8; (mk(ver, 2, 1, 40, 32, &p, c, 2, sz, &w), "bad prime".into()) }
        9 => { let o = if m == Bn::modulus() { Bls::modulus() } else { Bn::modulus() }; (mk(ver, 2, 1, 40, 32, &enc(&o, n), c, 2, sz, &w), "prime of another field".into()) }
        10 => { let x = [1, 0, 3, 258][k as usize % 4]; (mk(ver, 2, 1, 40, 32, &pr, c, x, sz, &w), format!("second section of type {x}")) }
        11 => { let d = [1i64, -1, 7, -3, 1 << 27][k as usize % 5]; let x = len as i64 + d; if x < 0 { return Ok(()); } (mk(ver, 2, 1, 40, 32, &pr, x as u32, 2, sz, &w), format!("{x} elements announced, section of {sz} bytes")) }
        12 => { let x = sz.wrapping_add([1u64, 32, 31, u64::MAX, 1 << 32, 64][k as usize % 6]); (mk(ver, 2, 1, 40, 32, &pr, c, 2, x, &w), format!("second section of {x} bytes for {len} elements")) }
        13 => { let d = [1i64, -1, 2, -2][k as usize % 4]; let x = len as i64 + d; if x < 0 { return Ok(()); } (mk(ver, 2, 1, 40, 32, &pr, x as u32, 2, x as u64 * 32, &w), format!("{x} elements announced, {len} there")) }
        14 => {
            if len == 0 { return Ok(()); }
            let mut w = w.clone();
            w[(k >> 8) as usize % len] = match k % 3 { 0 => m.clone(), 1 => (BigUint::from(1u8) << 256) - BigUint::from(1u8), _ => &m + BigUint::from(1 + (k >> 16) % 1000) };
            (mk(ver, 2, 1, 40, 32, &pr, c, 2, sz, &w), "a value that is not a field element".into())
        }
        15 => { let mut b = good; for _ in 0..1 + k % 33 { b.push((k >> 8) as u8); } (b, "data after the last element".into()) }
        _ => return Ok(()),
    };
    match read(b) { Ok(f) => Err(format!("read as {} elements without an error: {what}", f.len())), Err(e) if e == "panic" => Err(format!("panic instead of an error: {what}")), Err(_) => Ok(()) }
}
fn g_wtns(g: &mut G) -> Vec<u64> {
    let mu = if g.i % 3 == 0 { 0 } else { g.i / 3 % 16 };
    let n = match g.below(8) { 0 => 0, 1 => g.below(3000), _ => g.below(9) };
    vec![g.below(3), n, g.next(), g.next(), mu, g.next()]
}

/// reading back through files by name
fn r1csf(v: &[u64]) -> Result<(), String> {
    let mut r = R(v[0]);
    let (a, b, c, d) = (r.below(5), r.below(9), r.below(3), r.below(3));
    let m = model::<Bls>(&mut r, a, b, c, d, false);
    let s = sections::<Bls>(&m, v[0], 0, &mut r);
    let f = std::env::temp_dir().join(format!("vdriver-{}-{}.r1cs", std::process::id(), v[0]));
    std::fs::write(&f, layout(&s)).unwrap();
    let x = catch_unwind(AssertUnwindSafe(|| reader::load_r1cs::<Bls>(f.to_str().unwrap())));
    let _ = std::fs::remove_file(&f);
    let x = x.map_err(|_| "load_r1cs panics on a well-formed file".to_string())?;
    ensure_eq!((x.num_inputs, x.num_variables, x.num_outputs), ((1 + m.npo + m.npi) as usize, m.nw as usize, m.npo as usize), "counts");
    ensure_eq!(x.constraints.len(), m.cons.len(), "constraints");
    for (k, (a, b)) in x.constraints.iter().zip(&m.cons).enumerate() { same(a, b).map_err(|e| format!("constraint {k}: {e}"))?; }
    Ok(())
}

// ---- C21
type Lc = BTreeMap<(u8, usize), BigUint>;
struct Rec<E: PrimeField> { call: bool, inputs: Vec<Option<E>>, aux: Vec<Option<E>>, ord: Vec<u8>, cons: Vec<[Lc; 3]> }
fn lc<E: PrimeField>(l: &LinearCombination<E>) -> Lc {
    let mut s: BTreeMap<(u8, usize), E> = BTreeMap::new();
    for (v, c) in l.iter() {
        let k = match v.get_unchecked() { Index::Input(i) => (0, i), Index::Aux(i) => (1, i) };
        *s.entry(k).or_insert(E::ZERO) += c;
    }
    s.into_iter().filter(|(_, c)| *c != E::ZERO).map(|(k, c)| (k, valof(&c))).collect()
}
impl<E: PrimeField> ConstraintSystem<E> for Rec<E> {
    type Root = Self;
    fn alloc<F, A, AR>(&mut self, _: A, f: F) -> Result<Variable, SynthesisError> where F: FnOnce() -> Result<E, SynthesisError>, A: FnOnce() -> AR, AR: Into<String> {
        let v = if self.call { Some(f()?) } else { None };
        self.aux.push(v); self.ord.push(1);
        Ok(Variable::new_unchecked(Index::Aux(self.aux.len() - 1)))
    }
    fn alloc_input<F, A, AR>(&mut self, _: A, f: F) -> Result<Variable, SynthesisError> where F: FnOnce() -> Result<E, SynthesisError>, A: FnOnce() -> AR, AR: Into<String> {
        let v = if self.call { Some(f()?) } else { None };
        self.inputs.push(v); self.ord.push(0);
        Ok(Variable::new_unchecked(Index::Input(self.inputs.len() - 1)))
    }
    fn enforce<A, AR, LA, LB, LC>(&mut self, _: A, a: LA, b: LB, c: LC) where A: FnOnce() -> AR, AR: Into<String>,
        LA: FnOnce(LinearCombination<E>) -> LinearCombination<E>, LB: FnOnce(LinearCombination<E>) -> LinearCombination<E>, LC: FnOnce(LinearCombination<E>) -> LinearCombination<E> {
        let z = LinearCombination::zero;
        self.cons.push([lc(&a(z())), lc(&b(z())), lc(&c(z()))]);
    }
    fn push_namespace<NR, N>(&mut self, _: N) where NR: Into<String>, N: FnOnce() -> NR {}
    fn pop_namespace(&mut self) {}
    fn get_root(&mut self) -> &mut Self { self }
}
fn fe<E: Fx>(x: &BigUint) -> E {
    let mut r = E::default().to_repr();
    let n = r.as_ref().len();
    r.as_mut().copy_from_slice(&enc(x, n));
    E::from_repr(r).unwrap()
}
/// [inputs, wires, constraints, seed, flags]
fn circ<E: Fx>(v: &[u64], json: bool) -> Result<(), String> {
    let g = |k: usize| v.get(k).copied().unwrap_or(0);
    let fl = g(4);
    // 32: large circuits; 64: long combinations
    let (mi, mw, mn) = if fl & 32 != 0 { (200_000, 400_000, 150_000) } else { (60, 200, 60) };
    let (ni, nw) = (1 + g(0) as usize % mi, g(1) as usize % mw);
    let nw = nw.max(ni);
    let mut r = R(g(3));
    let m = E::modulus();
    let nt = |r: &mut R| if fl & 64 != 0 { r.below(3000) } else if fl & 8 != 0 { r.below(30) } else { r.below(4) };
    let mc: Vec<[Terms; 3]> = (0..g(2) % mn).map(|_| {
        let mut t = || -> Terms { let n = nt(&mut r); let mut t: Terms = (0..n).map(|_| (r.below(nw as u64) as u32, r.big(&m))).collect(); if fl & 4 == 0 { t.sort_by_key(|x| x.0); } if fl & 16 == 0 { t.dedup_by_key(|x| x.0); } t };
        [t(), t(), t()]
    }).collect();
    let cv = |t: &Terms| t.iter().map(|(i, c)| (*i as usize, fe::<E>(c))).collect::<Vec<_>>();
    let cons: Vec<Constraint<E>> = mc.iter().map(|k| (cv(&k[0]), cv(&k[1]), cv(&k[2]))).collect();
    let (wit, wmap) = (fl & 1 != 0, fl & 2 != 0);
    let w: Vec<E> = (0..nw + 5).map(|i| if i == 0 { E::ONE } else { fe(&r.big(&m)) }).collect();
    let map: Vec<usize> = (0..nw).map(|i| if i == 0 { 0 } else { r.below(nw as u64 + 5) as usize }).collect();
    let at = |i: usize| if wmap { w[map[i]] } else { w[i] };
    let r1 = R1CS { num_inputs: ni, num_aux: nw - ni, num_variables: nw, num_outputs: 0, constraints: cons, custom_gates: vec![], custom_gates_uses: vec![] };
    let c = CircomCircuit { r1cs: r1, witness: wit.then(|| w.clone()), wire_mapping: wmap.then(|| map.clone()), aux_offset: 0 };
    let pi = c.get_public_inputs();
    let want = wit.then(|| (1..ni).map(at).collect::<Vec<E>>());
    ensure_eq!(pi, want, "public inputs");
    if json {
        let j: Vec<String> = serde_json::from_str(&c.get_public_inputs_json()).map_err(|e| format!("public inputs as JSON: {e}"))?;
        ensure_eq!(j, want.clone().unwrap_or_default().iter().map(|x| valof(x).to_string()).collect::<Vec<_>>(), "public inputs as JSON");
    }
    let mut cs = Rec::<E> { call: wit, inputs: vec![wit.then_some(E::ONE)], aux: vec![], ord: vec![], cons: vec![] };
    c.synthesize(&mut cs).map_err(|e| format!("synthesis: {e}"))?;
    ensure_eq!((cs.inputs.len(), cs.aux.len()), (ni, nw - ni), "allocated inputs and auxiliary variables");
    if wit {
        for i in 0..nw { let got = if i < ni { cs.inputs[i] } else { cs.aux[i - ni] }; if i > 0 { ensure_eq!(got, Some(at(i)), "value of wire {i}"); } }
    }
    let mut k = 0;
    for (i, t) in mc.iter().enumerate() {
        let l = |t: &Terms| -> Lc {
            let mut s: BTreeMap<(u8, usize), E> = BTreeMap::new();
            for (w, c) in t { let w = *w as usize; *s.entry(if w < ni { (0, w) } else { (1, w - ni) }).or_insert(E::ZERO) += fe::<E>(c); }
            s.into_iter().filter(|(_, c)| *c != E::ZERO).map(|(k, c)| (k, valof(&c))).collect()
        };
        let t = [l(&t[0]), l(&t[1]), l(&t[2])];
        let triv = |t: &[Lc; 3]| (t[0].is_empty() || t[1].is_empty()) && t[2].is_empty();
        if triv(&t) { continue; }
        while k < cs.cons.len() && triv(&cs.cons[k]) { k += 1; }
        if k >= cs.cons.len() { return Err(format!("constraint {i} is not enforced")); }
        ensure_eq!(cs.cons[k], t, "constraint {i}");
        k += 1;
    }
    while k < cs.cons.len() && (cs.cons[k][0].is_empty() || cs.cons[k][1].is_empty()) && cs.cons[k][2].is_empty() { k += 1; }
    ensure_eq!(k, cs.cons.len(), "enforced constraints");
    Ok(())
}
fn g_circ(g: &mut G) -> Vec<u64> {
    let ni = if g.below(6) == 0 { g.below(60) } else { g.below(5) };
    let nw = if g.below(6) == 0 { g.below(200) } else { ni + 1 + g.below(6) };
    if g.i % 200 == 7 { return vec![g.below(70_000), 70_000 + g.below(70_000), 3, g.next(), 32 | g.below(32)]; }
    if g.i % 200 == 17 { return vec![3, 20, 60_000 + g.below(20_000), g.next(), 32 | g.below(8)]; }
    if g.i % 100 == 27 { return vec![3, 90, 2, g.next(), 64 | g.below(32)]; }
    vec![ni, nw, if g.below(6) == 0 { g.below(60) } else { g.below(5) }, g.next(), g.below(32)]
}

// ---- C22
/// [n, words...]: n words, most significant first
fn a32(v: &[u64]) -> Result<(), String> {
    let n = if v[0] < 5000 { v[0] as usize } else { v[0] as usize % 40 };
    let w: Vec<u32> = (0..n).map(|k| { let k = k + 1; if k < v.len() { v[k] as u32 } else { (v[k % v.len()].wrapping_mul(0x9E3779B97F4A7C15 ^ k as u64) >> 32) as u32 } }).collect();
    let x = BigInt::from(BigUint::new(w.iter().rev().cloned().collect()));
    ensure_eq!(wc::from_array32(w.clone()), x, "from_array32 of {w:?}");
    ensure_eq!(wc::to_array32(&x, n), w, "to_array32 of {x} into {n}");
    Ok(())
}
fn g_a32(g: &mut G) -> Vec<u64> {
    let n = if g.i < 200 { g.i % 40 } else { g.below(12) };
    let mut v = vec![n];
    let z = g.below(n + 1);
    for k in 0..n { v.push(if k < z && g.below(2) == 0 { 0 } else { match g.below(4) { 0 => 0, 1 => u32::MAX as u64, _ => g.word() } }); }
    v
}
fn bytes(v: &[u64]) -> Vec<u8> { let n = v[0] as usize; let b: Vec<u8> = v[1..].iter().flat_map(|x| x.to_le_bytes()).collect(); b[..n.min(b.len())].to_vec() }
/// [length, bytes as words]
fn fnv(v: &[u64]) -> Result<(), String> {
    let s = String::from_utf8_lossy(&bytes(v)).to_string();
    let mut h = 0xcbf29ce484222325u64;
    for b in s.as_bytes() { h = (h ^ *b as u64).wrapping_mul(0x100000001b3); }
    ensure_eq!(witness::fnv(&s), ((h >> 32) as u32, h as u32), "hash of {s:?}");
    Ok(())
}
fn g_fnv(g: &mut G) -> Vec<u64> {
    let n = if g.i < 80 { g.i } else { g.below(60) };
    let mut v = vec![n];
    for _ in 0..(n + 7) / 8 { let x = g.next(); v.push(if g.below(4) == 0 { x } else { x & 0x7f7f7f7f7f7f7f7f }); }
    v
}
fn tree(r: &mut R, depth: u64, out: &mut Vec<BigInt>) -> String {
    let n = r.below(5);
    let mut s = vec![];
    for _ in 0..n {
        s.push(match r.below(if depth > 0 { 8 } else { 5 }) {
            0 => { let b = r.below(2); out.push(BigInt::from(b)); ["false", "true"][b as usize].to_string() }
            1 => { let x = r.next() >> r.below(64); out.push(BigInt::from(x)); x.to_string() }
            2 => { let x = r.big(&(BigUint::from(1u8) << 300)); out.push(BigInt::from(x.clone())); format!("\"{x}\"") }
            3 => { let x = r.big(&(BigUint::from(1u8) << 300)); out.push(BigInt::from(x.clone())); x.to_string() }
            4 => { let x = -BigInt::from(1 + (r.next() >> 1)); out.push(x.clone()); if r.below(2) == 0 { x.to_string() } else { format!("\"{x}\"") } }
            _ => tree(r, depth - 1, out),
        });
    }
    format!("[{}]", s.join(","))
}
fn flat(v: &[u64]) -> Result<(), String> {
    let mut r = R(v[0]);
    let mut want = vec![];
    let t = tree(&mut r, v[1] % 6, &mut want);
    let j: serde_json::Value = serde_json::from_str(&t).unwrap();
    ensure_eq!(witness::flat_array(j.as_array().unwrap()), want, "flattening {t}");
    Ok(())
}
/// v[0] numbers in one array, v[1] arrays around it, a number before and after each
fn flatn(v: &[u64]) -> Result<(), String> {
    let (n, d) = (v[0] % 300_000, v[1] % 400);
    let mut j: Vec<serde_json::Value> = (0..n).map(|i| serde_json::Value::from(i * 0x9E37_79B9_7F4A)).collect();
    let mut want: Vec<BigInt> = (0..n).map(|i| BigInt::from(i * 0x9E37_79B9_7F4A)).collect();
    for k in 0..d {
        j = vec![serde_json::Value::from(k), serde_json::Value::Array(j), serde_json::Value::from(!k)];
        want.insert(0, BigInt::from(k));
        want.push(BigInt::from(!k));
    }
    let got = witness::flat_array(&j);
    ensure_eq!(got.len(), want.len(), "numbers");
    for (i, (a, b)) in got.iter().zip(&want).enumerate() { ensure_eq!(a, b, "number {i}"); }
    Ok(())
}
fn inputs(v: &[u64]) -> Result<(), String> {
    let mut r = R(v[0]);
    let mut want: HashMap<String, Vec<BigInt>> = HashMap::new();
    let mut s = vec![];
    for k in 0..r.below(5) {
        let nm = format!("sig{k}");
        let mut o = vec![];
        let t = match r.below(4) {
            0 => { let x = r.big(&(BigUint::from(1u8) << 256)); o.push(BigInt::from(x.clone())); format!("\"{x}\"") }
            1 => { let x = r.big(&(BigUint::from(1u8) << 256)); o.push(BigInt::from(x.clone())); x.to_string() }
            2 => { let b = r.below(2); o.push(BigInt::from(b)); ["false", "true"][b as usize].to_string() }
            _ => tree(&mut r, 3, &mut o),
        };
        s.push(format!("\"{nm}\":{t}"));
        want.insert(nm, o);
    }
    let f = std::env::temp_dir().join(format!("vdriver-{}-{}.json", std::process::id(), v[0]));
    std::fs::write(&f, format!("{{{}}}", s.join(","))).unwrap();
    let got = catch_unwind(AssertUnwindSafe(|| witness::load_input_for_witness(f.to_str().unwrap())));
    let _ = std::fs::remove_file(&f);
    ensure_eq!(got.map_err(|_| "panic".to_string())?, want, "inputs {}", s.join(","));
    Ok(())
}
/// the two-input product circuit: [a, b] as four words each
fn wasm(v: &[u64]) -> Result<(), String> {
    let p = BigInt::from(Bn::modulus());
    let n = |k: usize| BigInt::from(BigUint::new(v[k..k + 4].iter().flat_map(|x| [*x as u32, (*x >> 32) as u32]).collect())) % &p;
    let (a, b) = (n(0), n(4));
    let mk = || wc::WitnessCalculator::from_file("/repo/algebraic-gpu/test-vectors/mycircuit.wasm").map_err(|e| e.to_string());
    let want = vec![BigInt::from(1), &a * &b % &p, a.clone(), b.clone()];
    let mut w = mk()?;
    let i = || vec![("a".to_string(), vec![a.clone()]), ("b".to_string(), vec![b.clone()])];
    ensure_eq!(w.calculate_witness(i(), true).map_err(|e| e.to_string())?, want, "witness for {a}, {b}");
    let bin = w.calculate_witness_bin(i(), true).map_err(|e| e.to_string())?;
    let mut f = vec![];
    w.save_witness_from_bin_writer::<Bn, _>(&mut f, &bin).map_err(|e| e.to_string())?;
    let got = reader::load_witness_from_array::<Bn>(f).map_err(|e| format!("written witness is refused: {e}"))?;
    ensure_eq!(got.iter().map(|x| BigInt::from(valof(x))).collect::<Vec<_>>(), want, "witness written and read for {a}, {b}");
    Ok(())
}

fn main() {
    main_with(vec![
        T { prop: "C19", name: "r1cs_bls", min: 2000, max: 0, gen: g_r1cs, check: r1cs::<Bls> },
        T { prop: "C19", name: "r1cs_bn", min: 2000, max: 0, gen: g_r1cs, check: r1cs::<Bn> },
        T { prop: "C19", name: "r1cs_gl", min: 2000, max: 0, gen: g_r1cs, check: r1cs::<Gl> },
        T { prop: "C19", name: "r1cs_big_bls", min: 40, max: 4000, gen: g_r1cs_big, check: r1cs_big::<Bls> },
        T { prop: "C19", name: "r1cs_big_bn", min: 40, max: 4000, gen: g_r1cs_big, check: r1cs_big::<Bn> },
        T { prop: "C19", name: "r1cs_big_gl", min: 40, max: 4000, gen: g_r1cs_big, check: r1cs_big::<Gl> },
        T { prop: "C19", name: "r1cs_file", min: 20, max: 200, gen: |g| vec![g.next()], check: r1csf },
        T { prop: "C20", name: "wtns_bls", min: 2000, max: 0, gen: g_wtns, check: wtns::<Bls> },
        T { prop: "C20", name: "wtns_bn", min: 2000, max: 0, gen: g_wtns, check: wtns::<Bn> },
        T { prop: "C21", name: "circ_bls", min: 1000, max: 0, gen: g_circ, check: |v| circ::<Bls>(v, true) },
        T { prop: "C21", name: "circ_bn", min: 1000, max: 0, gen: g_circ, check: |v| circ::<Bn>(v, false) },
        T { prop: "C22", name: "a32", min: 4000, max: 0, gen: g_a32, check: a32 },
        T { prop: "C22", name: "fnv", min: 4000, max: 0, gen: g_fnv, check: fnv },
        T { prop: "C22", name: "flat", min: 2000, max: 0, gen: |g| vec![g.next(), g.next()], check: flat },
        T { prop: "C22", name: "flatn", min: 8, max: 60, gen: |g| { let k = g.below(4); vec![if k == 0 { g.below(200_000) } else { g.below(3000) }, if k > 1 { g.below(300) } else { g.below(3) }] }, check: flatn },
        T { prop: "C22", name: "inputs", min: 100, max: 2000, gen: |g| vec![g.next()], check: inputs },
        T { prop: "C22", name: "wasm", min: 12, max: 400, gen: |g| { let k = g.below(3); (0..8).map(|i| if k == 0 && i % 4 > 0 { 0 } else { g.word() }).collect() }, check: wasm },
    ]);
}
