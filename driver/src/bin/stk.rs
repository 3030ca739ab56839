//! C12-C17: leaf hashing, Merkle trees, transcripts, digests
use fields::field_gl::{Fr as FGL, FrRepr};
use fields::PrimeField as _;
use num_bigint::BigUint;
use num_traits::{One, Zero};
use starky::f3g::F3G;
use starky::traits::{FieldExtension, MTNodeType, MerkleTree, Transcript};
use starky::ElementDigest;
use vdriver::curve::*;
use vdriver::glh::perm;
use vdriver::*;

fn el(w: u64) -> FGL { FGL::from_repr(FrRepr([w % P])).unwrap() }
fn limbs(x: &BigUint) -> Vec<u64> { let mut v = x.to_u64_digits(); v.resize(4, 0); v }
fn big(l: &[u64]) -> BigUint { BigUint::new(l.iter().flat_map(|x| [*x as u32, (*x >> 32) as u32]).collect()) }
fn fbig<F: ff_ce::PrimeField>(f: &F) -> BigUint {
    let mut v = vec![];
    ff_ce::PrimeFieldRepr::write_le(&f.into_repr(), &mut v).unwrap();
    BigUint::from_bytes_le(&v)
}
fn fr<F: ff_ce::PrimeField>(x: &BigUint) -> F { F::from_str(&x.to_string()).unwrap() }
/// the four words a scalar is stored as
fn words4(cv: &str, x: &BigUint) -> Vec<u64> { limbs(&((x << 256u32) % modulus(cv))) }
fn storable(cv: &str, x: &BigUint) -> bool { words4(cv, x).iter().all(|w| *w < P) }

/// scalar a row is hashed to, and the packed scalars
fn packed(row: &[u64]) -> Vec<BigUint> { row.chunks(3).map(big).collect() }
fn sponge(cv: &str, v: &[BigUint]) -> BigUint {
    v.chunks(16).fold(BigUint::zero(), |d, c| hash(cv, &d, c))
}
fn leaf(cv: &str, row: &[u64]) -> BigUint {
    if row.len() <= 4 { big(row) % modulus(cv) } else { sponge(cv, &packed(row)) }
}
fn leaf_matrix(cv: &str, row: &[u64]) -> BigUint {
    let v = packed(row);
    match v.len() { 0 => BigUint::zero(), 1 => v[0].clone(), _ => sponge(cv, &v) }
}
/// levels of the tree over row scalars, each padded to a multiple of 16
fn levels(cv: &str, rows: &[BigUint]) -> Vec<Vec<BigUint>> {
    let mut out = vec![rows.to_vec()];
    while out.last().unwrap().len() > 1 {
        let l = out.last_mut().unwrap();
        while l.len() % 16 != 0 { l.push(BigUint::zero()); }
        let n = l.chunks(16).map(|c| hash(cv, &BigUint::zero(), c)).collect();
        out.push(n);
    }
    out
}
fn fold(cv: &str, row: &BigUint, idx: usize, path: &[Vec<BigUint>]) -> BigUint {
    let (mut v, mut i) = (row.clone(), idx);
    for p in path {
        let mut c = p[..16].to_vec();
        c[i % 16] = v;
        v = hash(cv, &BigUint::zero(), &c);
        i /= 16;
    }
    v
}
fn rows_of(w: &[u64]) -> (usize, usize, Vec<u64>) {
    let (h, wd) = (w[0] as usize, w[1] as usize);
    // w[2]: seed; the remaining words overwrite the first elements
    let mut s = w[2];
    let mut v: Vec<u64> = (0..h * wd).map(|_| {
        s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let x = s ^ (s >> 29);
        if w[2] % 4 == 0 { x % 3 } else if w[2] % 4 == 1 { P - 1 - x % 3 } else { x % P }
    }).collect();
    for (k, x) in w[3..].iter().enumerate() { if k < v.len() { v[k] = x % P; } }
    (h, wd, v)
}

macro_rules! curve { ($m:ident, $cv:expr, $field:ident, $lh:ident :: $LH:ident, $mt:ident :: $MT:ident, $tr:ident :: $TR:ident, $conv:ident, $mont:ident) => {
mod $m {
    use super::*;
    pub type F = starky::$field::Fr;
    type D = ElementDigest<4, F>;
    fn dig(x: &BigUint) -> D { D::new(&words4($cv, x).iter().map(|w| el(*w)).collect::<Vec<_>>()) }
    fn sc(d: &D) -> BigUint { fbig(&starky::$field::Fr(d.as_scalar::<F>())) }
    pub fn leaf_t(w: &[u64]) -> Result<(), String> {
        let row: Vec<u64> = w[1..].iter().map(|x| x % P).collect();
        let want = leaf($cv, &row);
        let v: Vec<FGL> = row.iter().map(|x| el(*x)).collect();
        let h = starky::$lh::$LH::new();
        if storable($cv, &want) {
            let d = h.hash_element_array(&v).map_err(|e| format!("refused: {e}"))?;
            ensure_eq!(d.as_elements().iter().map(|x| x.as_int()).collect::<Vec<_>>(), words4($cv, &want), "hash of a row of {}", row.len());
        }
        // the same elements as columns of any lengths
        let mut cols: Vec<Vec<FGL>> = vec![];
        let (mut k, mut s) = (0, w[0]);
        while k < v.len() {
            let n = 1 + (s % 5) as usize;
            s = s / 5 + 3 * (s % 5);
            cols.push(v[k..(k + n).min(v.len())].to_vec());
            k += n;
        }
        let m = h.hash_element_matrix(&cols).map_err(|e| format!("refused: {e}"))?;
        ensure_eq!(fbig(&m), leaf_matrix($cv, &row), "matrix hash of {}", row.len());
        Ok(())
    }
    pub fn node_t(w: &[u64]) -> Result<(), String> {
        let x: Vec<BigUint> = (0..17).map(|k| big(&w[4 * k..4 * k + 4]) % modulus($cv)).collect();
        if !x.iter().all(|v| storable($cv, v)) { return Ok(()); }
        let want = hash($cv, &x[16], &x[..16]);
        let h = starky::$lh::$LH::new();
        let d = h.hash_node(&x[..16].iter().map(dig).collect::<Vec<_>>(), &fr(&x[16])).map_err(|e| format!("refused: {e}"))?;
        ensure_eq!(sc(&d), want, "node hash");
        // four words as a scalar
        let st: Vec<u64> = w[..4].iter().map(|x| x % P).collect();
        let want = big(&st) % modulus($cv);
        if storable($cv, &want) {
            let g = starky::$lh::$LH::$mont([el(st[0]), el(st[1]), el(st[2]), el(st[3])]);
            ensure_eq!(g.iter().map(|x| x.as_int()).collect::<Vec<_>>(), words4($cv, &want), "four words in Montgomery form");
        }
        Ok(())
    }
    fn tree(w: &[u64]) -> Result<(starky::$mt::$MT, usize, usize, Vec<u64>, Vec<BigUint>), String> {
        let (h, wd, v) = rows_of(w);
        let rows: Vec<BigUint> = (0..h).map(|i| leaf($cv, &v[i * wd..(i + 1) * wd])).collect();
        let mut t = starky::$mt::$MT::new();
        // the object may have held other trees
        let mut z = w[2];
        while z % 3 == 0 && z > 0 {
            let (h0, w0) = (1 + (z >> 7) as usize % 20, 1 + (z >> 17) as usize % 4);
            t.merkelize((0..h0 * w0).map(|x| el(x as u64 + z % 1000)).collect(), w0, h0).map_err(|e| format!("refused: {e}"))?;
            z /= 3;
        }
        t.merkelize(v.iter().map(|x| el(*x)).collect(), wd, h).map_err(|e| format!("refused: {e}"))?;
        Ok((t, h, wd, v, rows))
    }
    pub fn tree_t(w: &[u64]) -> Result<(), String> {
        let (t, h, wd, v, rows) = tree(w)?;
        let lv = levels($cv, &rows);
        ensure_eq!(sc(&t.root()), lv.last().unwrap()[0].clone(), "root of {h} rows of {wd}");
        ensure_eq!(t.element_size(), h * wd, "element_size");
        let idxs: Vec<usize> = if h <= 40 { (0..h).collect() } else { (0..24).map(|k| match k { 0..=7 => k * h / 8, 8 => h - 1, 9 => h / 16 * 16 - (h / 16 > 0) as usize, _ => (w[2].wrapping_mul(k as u64 * 2 + 1) >> 7) as usize % h }).collect() };
        for i in idxs {
            let (row, mp) = t.get_group_proof(i).map_err(|e| format!("opening {i} refused: {e}"))?;
            ensure_eq!(row.iter().map(|x| x.as_int()).collect::<Vec<_>>(), v[i * wd..(i + 1) * wd].to_vec(), "opened row {i} of {h}");
            for (k, x) in row.iter().enumerate() { ensure_eq!(t.get_element(i, k), *x, "element"); }
            let want: Vec<Vec<BigUint>> = (0..lv.len() - 1).map(|l| { let s = (i >> (4 * l)) / 16 * 16; lv[l][s..s + 16].to_vec() }).collect();
            ensure_eq!(mp.iter().map(|l| l.iter().map(|x| fbig(x)).collect::<Vec<_>>()).collect::<Vec<_>>(), want, "path of row {i} of {h}");
            if !t.verify_group_proof(&t.root(), &mp, i, &row).map_err(|e| format!("verification refused: {e}"))? { return Err(format!("honest opening of row {i} of {h} rejected")); }
        }
        for i in [h, h + 1, h + 15, 2 * h, h * 16, h + 16, usize::MAX, 1 << 32, (1 << 36) + h - 1] {
            if i >= h && t.get_group_proof(i).is_ok() { return Err(format!("opens row {i} of {h}")); }
        }
        Ok(())
    }
    /// trees large enough to be split among workers: sampled openings
    pub fn big_t(w: &[u64]) -> Result<(), String> {
        let (h, wd, v) = rows_of(w);
        let mut t = starky::$mt::$MT::new();
        t.merkelize(v.iter().map(|x| el(*x)).collect(), wd, h).map_err(|e| format!("refused: {e}"))?;
        let root = sc(&t.root());
        let mut depth = 0;
        let mut n = h;
        while n > 1 { n = (n + 15) / 16; depth += 1; }
        for k in 0..10u64 {
            let i = match k { 0 => 0, 1 => h - 1, 2 => 4096.min(h - 1), 3 => 65536.min(h - 1), _ => (w[2].wrapping_mul(k * 2 + 1) >> 7) as usize % h };
            let (row, mp) = t.get_group_proof(i).map_err(|e| format!("opening {i} refused: {e}"))?;
            ensure_eq!(row.iter().map(|x| x.as_int()).collect::<Vec<_>>(), v[i * wd..(i + 1) * wd].to_vec(), "opened row {i} of {h}");
            ensure_eq!(mp.len(), depth, "path length of row {i} of {h}");
            let mut x = leaf($cv, &v[i * wd..(i + 1) * wd]);
            let mut j = i;
            for (l, p) in mp.iter().enumerate() {
                let p: Vec<BigUint> = p.iter().map(|x| fbig(x)).collect();
                ensure_eq!(p[j % 16], x, "level {l} of the path of row {i} of {h}");
                x = hash($cv, &BigUint::zero(), &p);
                j /= 16;
            }
            ensure_eq!(x, root, "root from row {i} of {h}");
        }
        Ok(())
    }
    /// levels index seed row length | alteration, its operands: paths of any length, not only those of trees
    pub fn fold_t(w: &[u64]) -> Result<(), String> {
        let (n, idx) = (w[0] as usize % 300, w[1] as usize);
        let mut s = w[2];
        let mut next = || { s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); let x = s; (x ^ (x >> 29)).wrapping_mul(0xBF58476D1CE4E5B9) };
        let row: Vec<u64> = (0..1 + w[3] % 9).map(|_| next() % P).collect();
        let mut path: Vec<Vec<BigUint>> = (0..n).map(|_| (0..16).map(|_| big(&[next(), next(), next(), next()]) % modulus($cv)).collect()).collect();
        let lf = leaf($cv, &row);
        let root = fold($cv, &lf, idx, &path);
        let t = starky::$mt::$MT::new();
        let mut at = idx;
        let q: Vec<FGL> = row.iter().map(|x| el(*x)).collect();
        for k in 0..2 {
            if k == 1 {
                match w[4] % 3 {
                    0 if n > 0 => { let (l, j) = (w[5] as usize % n, w[6] as usize % 16); path[l][j] = (&path[l][j] + 1u32) % modulus($cv); }
                    1 => at ^= 1 << (w[5] % 64),
                    2 if n > 0 => { path.remove(w[5] as usize % n); }
                    _ => {}
                }
            }
            let want = fold($cv, &lf, at, &path) == root;
            let fp: Vec<Vec<F>> = path.iter().map(|l| l.iter().map(fr).collect()).collect();
            let got = t.verify_group_proof(&dig(&root), &fp, at, &q).map_err(|e| format!("refused: {e}"))?;
            ensure_eq!(got, want, "verification at index {at}, {} levels, alteration {k}", path.len());
        }
        Ok(())
    }
    pub fn bind_t(w: &[u64]) -> Result<(), String> {
        // w: height width seed | levels, index, row words, path alterations
        let (t, h, wd, v, _) = tree(&w[..3])?;
        let root = sc(&t.root());
        let i = (w[3] % h as u64) as usize;
        let (mut row, mp) = t.get_group_proof(i).map_err(|e| e.to_string())?;
        let mut path: Vec<Vec<BigUint>> = mp.iter().map(|l| l.iter().map(|x| fbig(x)).collect()).collect();
        let mut idx = i;
        match w[4] % 8 {
            0 => { let k = (w[5] % wd as u64) as usize; row[k] = el(row[k].as_int() ^ (w[6] | 1)); }
            1 => idx = (i as u64 ^ (1 << (w[5] % 20))) as usize,
            2 if !path.is_empty() => { let l = (w[5] as usize) % path.len(); let k = (w[6] % 16) as usize; path[l][k] = (&path[l][k] + 1u32) % modulus($cv); }
            3 if !path.is_empty() => { path.pop(); }
            4 if !path.is_empty() => { let l = path.last().unwrap().clone(); path.push(l); }
            5 if path.len() > 1 => { let l = (w[5] as usize) % (path.len() - 1); path.swap(l, l + 1); }
            6 => { let o = (w[5] % h as u64) as usize; row = v[o * wd..(o + 1) * wd].iter().map(|x| el(*x)).collect(); }
            7 if !path.is_empty() => { let l = (w[5] as usize) % path.len(); let (a, b) = ((w[6] % 16) as usize, (w[6] / 16 % 16) as usize); path[l].swap(a, b); }
            _ => { idx = (w[5] % (h as u64 * 17)) as usize; }
        }
        let r: Vec<u64> = row.iter().map(|x| x.as_int()).collect();
        let want = fold($cv, &leaf($cv, &r), idx, &path) == root;
        let fp: Vec<Vec<F>> = path.iter().map(|l| l.iter().map(fr).collect()).collect();
        let got = t.verify_group_proof(&t.root(), &fp, idx, &row).map_err(|e| format!("refused: {e}"))?;
        ensure_eq!(got, want, "verification of row {i} of {h}, alteration {}", w[4] % 8);
        // another root is never accepted
        let other = dig(&((&root + 1u32 + (w[6] % 5)) % modulus($cv)));
        if t.verify_group_proof(&other, &fp, idx, &row).map_err(|e| format!("refused: {e}"))? { return Err("another root accepted".into()); }
        ensure_eq!(t.eq_root(&other, &t.root()), false, "eq_root");
        for k in 0..4 {
            let mut e = t.root().as_elements().to_vec();
            e[k] = el(e[k].as_int() ^ 1);
            ensure_eq!(t.eq_root(&D::new(&e), &t.root()), false, "eq_root, word {k}");
        }
        Ok(())
    }
    /// script: 0 put scalar, 1 put digest, 2 field, 3 fields1, 4 permutations
    pub fn trans_t(w: &[u64]) -> Result<(), String> {
        let mut t = starky::$tr::$TR::new();
        let (mut st, mut pend, mut out, mut out3): (BigUint, Vec<BigUint>, Vec<BigUint>, Vec<u64>) = (BigUint::zero(), vec![], vec![], vec![]);
        let p = modulus($cv);
        let wname = if $cv == "bn128" { "bn128" } else { "bls12381_opt" };
        fn squeeze(set: &str, st: &mut BigUint, pend: &mut Vec<BigUint>) -> Vec<BigUint> {
            while pend.len() < 16 { pend.push(BigUint::zero()); }
            let mut s = vec![st.clone()];
            s.append(pend);
            let o = textbook(set, &s);
            *st = o[0].clone();
            o
        }
        let mut k = 0;
        let mut step = 0;
        while k < w.len() {
            let op = w[k] % 6;
            let arg = w[k] / 6;
            k += 1;
            step += 1;
            match op {
                0 | 1 | 5 => {
                    let cnt = if op == 5 { arg % 20 } else { 1 };
                    let mut items = vec![];
                    for c in 0..cnt {
                        let dg = op == 1 || (op == 5 && (arg >> (c % 32)) & 1 == 1);
                        if dg {
                            let x = big(&(0..4).map(|j| if (arg >> 40) & 3 == 0 { super::absorbed(arg, 4 * c + j, None) } else { arg.wrapping_mul(0x9E3779B97F4A7C15 + 2 * j + 4 * c) }).collect::<Vec<_>>()) % &p;
                            if !storable($cv, &x) { continue; }
                            items.push((words4($cv, &x).iter().map(|y| el(*y)).collect::<Vec<_>>(), x));
                        } else {
                            let x = if arg & 8 == 0 { super::absorbed(arg, c, None) } else { arg.wrapping_mul(2 * c + 1) % P };
                            items.push((vec![el(x)], BigUint::from(x)));
                        }
                    }
                    t.put(&items.iter().map(|x| x.0.clone()).collect::<Vec<_>>()).map_err(|e| format!("refused: {e}"))?;
                    for (_, x) in items {
                        out.clear(); out3.clear();
                        pend.push(x);
                        if pend.len() == 16 { out = squeeze(wname, &mut st, &mut pend); }
                    }
                }
                2 | 3 => {
                    let n = if op == 2 { 3 } else { 1 };
                    let mut want = vec![];
                    for _ in 0..n {
                        if out3.is_empty() {
                            if out.is_empty() { out = squeeze(wname, &mut st, &mut pend); }
                            out3 = limbs(&out.remove(0))[..3].to_vec();
                        }
                        want.push(out3.remove(0) % P);
                    }
                    if op == 3 { ensure_eq!(t.get_fields1().map_err(|e| format!("refused: {e}"))?.as_int(), want[0], "draw at step {step}"); }
                    else {
                        let f: F3G = t.get_field();
                        ensure_eq!(f.as_elements().iter().map(|x| x.as_int()).collect::<Vec<_>>(), want, "extension draw at step {step}");
                    }
                }
                _ => {
                    let (n, nb) = super::positions(arg);
                    let mut bits = vec![];
                    for _ in 0..(n * nb + 252) / 253 {
                        if out.is_empty() { out = squeeze(wname, &mut st, &mut pend); out3.clear(); }
                        let x = out.remove(0);
                        bits.extend((0..253u64).map(|b| x.bit(b)));
                    }
                    let want: Vec<usize> = (0..n).map(|i| (0..nb).fold(0usize, |a, j| a | (bits[i * nb + j] as usize) << j)).collect();
                    ensure_eq!(t.get_permutations(n, nb).map_err(|e| format!("refused: {e}"))?, want, "{n} positions of {nb} bits at step {step}");
                }
            }
        }
        Ok(())
    }
    pub fn dig_t(w: &[u64]) -> Result<(), String> {
        let p = modulus($cv);
        let x = big(&w[..4]) % &p;
        let f: F = fr(&x);
        ensure_eq!(starky::helper::fr_to_biguint(&f), x, "fr_to_biguint");
        ensure_eq!(starky::helper::biguint_to_fr::<F>(&x), f, "biguint_to_fr");
        if storable($cv, &x) {
            let d = D::from_scalar(&f);
            ensure_eq!(d.as_elements().iter().map(|e| e.as_int()).collect::<Vec<_>>(), words4($cv, &x), "words of a scalar");
            ensure_eq!(starky::$field::Fr(d.as_scalar::<F>()), f, "scalar read back");
            ensure_eq!(starky::$mt::$MT::from_basefield(&f), d, "from_basefield");
            ensure_eq!(starky::$mt::$MT::to_basefield(&d), vec![f], "to_basefield");
        }
        let e: Vec<u64> = w[4..8].iter().map(|x| x % P).collect();
        let ee = [el(e[0]), el(e[1]), el(e[2]), el(e[3])];
        let d = D::new(&ee);
        ensure_eq!(d.as_elements().iter().map(|e| e.as_int()).collect::<Vec<_>>(), e, "as_elements");
        ensure_eq!(ff_ce::PrimeField::into_raw_repr(&starky::$field::Fr(d.as_scalar::<F>())).0.to_vec(), e, "as_scalar");
        if big(&e) < p { ensure_eq!(fbig(&starky::digest::$conv(&ee)), big(&e), "packing four words"); }
        ensure_eq!(d.is_dim_1(), e[1] == 0 && e[2] == 0 && e[3] == 0, "is_dim_1");
        let y = BigUint::new(w.iter().flat_map(|x| [*x as u32, (*x >> 32) as u32]).take((w[8] % 18) as usize).collect());
        ensure_eq!(BigUint::from(starky::helper::biguint_to_be(&y).as_int()), &y % P, "biguint_to_be");
        Ok(())
    }
}
} }
curve!(bn, "bn128", field_bn128, linearhash_bn128::LinearHashBN128, merklehash_bn128::MerkleTreeBN128, transcript_bn128::TranscriptBN128, to_bn128, to_bn128_mont);
curve!(bls, "bls12381", field_bls12381, linearhash_bls12381::LinearHashBLS12381, merklehash_bls12381::MerkleTreeBLS12381, transcript_bls12381::TranscriptBLS128, to_bls12381, to_bls12381_mont);

/// the j-th absorbed element: arbitrary, or a structurally special one (0, 1, p-1, a repeat)
fn absorbed(arg: u64, j: u64, first: Option<u64>) -> u64 {
    let h = (arg ^ j.wrapping_mul(0xD1B54A32D192ED03)).wrapping_mul(0x9E3779B97F4A7C15);
    match h >> 60 {
        0..=4 => 0,
        5 => 1,
        6 => P - 1,
        7 => first.unwrap_or(0),
        _ => h.wrapping_mul(2 * j + 1) % P,
    }
}
fn trans_gl(w: &[u64]) -> Result<(), String> {
    let mut t = starky::transcript::TranscriptGL::new();
    let (mut st, mut pend, mut out): (Vec<u64>, Vec<u64>, Vec<u64>) = (vec![0; 4], vec![], vec![]);
    fn squeeze(st: &mut Vec<u64>, pend: &mut Vec<u64>) -> Vec<u64> {
        while pend.len() < 8 { pend.push(0); }
        let mut s = std::mem::take(pend);
        s.extend(st.iter());
        let o = perm(&s);
        *st = o[..4].to_vec();
        o
    }
    for (step, x) in w.iter().enumerate() {
        let (op, arg) = (x % 5, x / 5);
        match op {
            0 | 1 => {
                // groups of elements
                let cnt = if op == 0 { 1 } else { arg % 20 };
                let groups: Vec<Vec<u64>> = if op == 0 { vec![vec![arg % P]] } else { (0..cnt).map(|c| { let mut v: Vec<u64> = vec![]; for j in 0..(arg >> c) % 4 { v.push(absorbed(arg, 64 * c + j, v.first().copied())); } v }).collect() };
                t.put(&groups.iter().map(|g| g.iter().map(|x| el(*x)).collect()).collect::<Vec<Vec<FGL>>>()).map_err(|e| format!("refused: {e}"))?;
                for x in groups.into_iter().flatten() {
                    out.clear();
                    pend.push(x);
                    if pend.len() == 8 { out = squeeze(&mut st, &mut pend); }
                }
            }
            2 | 3 => {
                let n = if op == 2 { 3 } else { 1 };
                let mut want = vec![];
                for _ in 0..n {
                    if out.is_empty() { out = squeeze(&mut st, &mut pend); }
                    want.push(out.remove(0));
                }
                if op == 3 { ensure_eq!(t.get_fields1().map_err(|e| format!("refused: {e}"))?.as_int(), want[0], "draw at step {step}"); }
                else {
                    let f: F3G = t.get_field();
                    ensure_eq!(f.as_elements().iter().map(|x| x.as_int()).collect::<Vec<_>>(), want, "extension draw at step {step}");
                }
            }
            _ => {
                let (n, nb) = positions(arg);
                let mut bits = vec![];
                for _ in 0..(n * nb + 62) / 63 {
                    if out.is_empty() { out = squeeze(&mut st, &mut pend); }
                    let x = out.remove(0);
                    bits.extend((0..63).map(|b| x >> b & 1));
                }
                let want: Vec<usize> = (0..n).map(|i| (0..nb).fold(0usize, |a, j| a | (bits[i * nb + j] as usize) << j)).collect();
                ensure_eq!(t.get_permutations(n, nb).map_err(|e| format!("refused: {e}"))?, want, "{n} positions of {nb} bits at step {step}");
            }
        }
    }
    Ok(())
}

/// (n, bits); arguments up to 40*63*4096 give many positions
fn positions(arg: u64) -> (usize, usize) {
    let more = arg / (40 * 63);
    ((1 + arg % 40 + if more < 4096 { 40 * more } else { 0 }) as usize, 1 + (arg / 40 % 63) as usize)
}
fn g_leaf(g: &mut G) -> Vec<u64> {
    let n = if g.i < 130 { g.i } else { match g.below(4) { 0 => g.below(12), 1 => g.below(60), _ => g.below(220) } };
    let mut v = vec![g.next()];
    v.extend(if g.below(3) == 0 { (0..n).map(|_| 0).collect() } else { g.fes(n as usize) });
    if n > 0 && g.below(4) == 0 { let k = 1 + g.below(n) as usize; v[k] = g.fe(); }
    v
}
fn g_tree(g: &mut G) -> Vec<u64> {
    const H: [u64; 14] = [15, 16, 17, 31, 32, 33, 47, 63, 64, 255, 256, 257, 272, 289];
    let h = if g.i < 20 { g.i + 1 } else if g.i < 34 { H[(g.i - 20) as usize] } else { match g.below(6) { 0 => 1 + g.below(400), 1 => 257 + g.below(40), _ => 1 + g.below(80) } };
    let w = if h > 200 { 1 + g.below(6) } else { match g.below(5) { 0 => 1, 1 => 4, 2 => 5, 3 => 1 + g.below(12), _ => 1 + g.below(60) } };
    vec![h, w, g.next()]
}
fn g_big(g: &mut G) -> Vec<u64> {
    let (h, w) = match g.i % 4 { 0 => (65537 + g.below(9000), 1 + g.below(4)), 1 => (4097 + g.below(200), 5 + g.below(3)), 2 => (4000 + g.below(5000), 1), _ => (200 + g.below(300), 100 + g.below(200)) };
    vec![h, w, g.next()]
}
/// ops: number of operation codes; draws dominate towards the end so that buffers get crossed
fn g_script(g: &mut G, ops: u64, put: u64, many: u64) -> Vec<u64> {
    let n = 2 + g.below(24) as usize;
    let mode = g.below(4);
    let mut v = vec![];
    for _ in 0..n {
        let op = match (mode, g.below(6)) { (0, 0..=3) => put, (1, 0..=3) => 3, (2, 0..=2) => many, (3, 0..=2) => ops - 1 - (ops == 6) as u64, _ => g.below(ops) };
        let mut a = g.word() / ops;
        if op == many && g.below(3) == 0 { a = a / 20 * 20 + [15, 16, 17, 8, 7, 9][g.below(6) as usize]; }
        v.push((a.min(u64::MAX / ops - 1)) * ops + op);
    }
    v
}
/// only draws of positions (C16), after a few absorbed values
fn g_perm(g: &mut G, ops: u64) -> Vec<u64> {
    let code = if ops == 6 { 4 } else { 4 };
    let mut v = vec![];
    for _ in 0..g.below(3) { let a = g.word() / ops / 2; v.push(a * ops); }
    for _ in 0..1 + g.below(3) {
        let (n, nb) = match g.below(4) { 0 => (g.below(40), g.below(63)), 1 => (39, 62), 2 => (g.below(4), g.below(63)), _ => (g.below(40), g.below(25)) };
        let more = match g.below(8) { 0 => g.below(40), 1 => g.below(6), _ => 0 };
        v.push((n + 40 * nb + 40 * 63 * more) * ops + code);
        if g.below(3) == 0 { v.push(3); }
    }
    v
}
fn g_dig(g: &mut G) -> Vec<u64> {
    let mut v = g.words(12);
    match g.below(4) { 0 => { v[1] = 0; v[2] = 0; v[3] = 0; } 1 => { for k in 4..8 { v[k] = g.below(3); } } _ => {} }
    if g.below(3) == 0 { v[7] >>= 8; }
    v
}
fn g_node(g: &mut G) -> Vec<u64> { (0..68).map(|_| if g.below(3) == 0 { g.word() } else { g.next() }).collect() }
fn g_bind(g: &mut G) -> Vec<u64> {
    let mut v = g_tree(g);
    if v[0] > 100 && g.below(4) > 0 { v[0] = 1 + g.below(70); }
    v.extend([g.next(), g.next(), g.next(), g.next()]);
    v[4] = g.i % 8;
    v
}
fn g_fold(g: &mut G) -> Vec<u64> {
    let n = match g.below(8) { 0 => g.below(60), 1..=3 => 14 + g.below(6), _ => g.below(14) };
    vec![n, g.word(), g.next(), g.below(9), g.next(), g.next(), g.next()]
}
fn main() {
    let _ = BigUint::one();
    main_with(vec![
        T { prop: "C12", name: "leaf_bn", min: 140, max: 0, gen: g_leaf, check: bn::leaf_t },
        T { prop: "C12", name: "leaf_bls", min: 140, max: 0, gen: g_leaf, check: bls::leaf_t },
        T { prop: "C12", name: "node_bn", min: 40, max: 0, gen: g_node, check: bn::node_t },
        T { prop: "C12", name: "node_bls", min: 40, max: 0, gen: g_node, check: bls::node_t },
        T { prop: "C13", name: "tree_bn", min: 36, max: 0, gen: g_tree, check: bn::tree_t },
        T { prop: "C13", name: "tree_bls", min: 36, max: 0, gen: g_tree, check: bls::tree_t },
        T { prop: "C13", name: "big_bn", min: 4, max: 40, gen: g_big, check: bn::big_t },
        T { prop: "C14", name: "fold_bn", min: 40, max: 0, gen: g_fold, check: bn::fold_t },
        T { prop: "C14", name: "bind_bn", min: 64, max: 0, gen: g_bind, check: bn::bind_t },
        T { prop: "C13", name: "big_bls", min: 4, max: 40, gen: g_big, check: bls::big_t },
        T { prop: "C14", name: "fold_bls", min: 40, max: 0, gen: g_fold, check: bls::fold_t },
        T { prop: "C14", name: "bind_bls", min: 64, max: 0, gen: g_bind, check: bls::bind_t },
        T { prop: "C15", name: "trans_bn", min: 80, max: 0, gen: |g| g_script(g, 6, 0, 5), check: bn::trans_t },
        T { prop: "C15", name: "trans_bls", min: 80, max: 0, gen: |g| g_script(g, 6, 0, 5), check: bls::trans_t },
        T { prop: "C15", name: "trans_gl", min: 200, max: 0, gen: |g| g_script(g, 5, 0, 1), check: trans_gl },
        T { prop: "C16", name: "perm_bn", min: 100, max: 0, gen: |g| g_perm(g, 6), check: bn::trans_t },
        T { prop: "C16", name: "perm_bls", min: 100, max: 0, gen: |g| g_perm(g, 6), check: bls::trans_t },
        T { prop: "C16", name: "perm_gl", min: 300, max: 0, gen: |g| g_perm(g, 5), check: trans_gl },
        T { prop: "C17", name: "dig_bn", min: 4000, max: 0, gen: g_dig, check: bn::dig_t },
        T { prop: "C17", name: "dig_bls", min: 4000, max: 0, gen: g_dig, check: bls::dig_t },
    ]);
}
