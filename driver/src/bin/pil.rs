//! C25: the compressor PIL, read and evaluated row by row
use recursion::compressor12_pil::render;
use std::collections::HashMap;
use vdriver::*;

fn add(a: u64, b: u64) -> u64 { ((a as u128 + b as u128) % P as u128) as u64 }
fn sub(a: u64, b: u64) -> u64 { add(a, P - b) }
fn mul(a: u64, b: u64) -> u64 { ((a as u128 * b as u128) % P as u128) as u64 }

#[derive(Clone, Debug)]
enum E {
    N(u64),
    Pub(String),
    /// namespace, name, index, next row
    V(String, String, Option<usize>, bool),
    B(char, Box<E>, Box<E>),
}
#[derive(Default)]
struct Doc {
    bits: Option<u64>,
    /// (namespace, name) -> number of columns (0: a single one)
    cols: HashMap<(String, String), usize>,
    pols: HashMap<(String, String), E>,
    publics: HashMap<String, (String, usize, usize)>,
    ids: Vec<E>,
    conn: Vec<(E, E)>,
    dup: Option<String>,
}
struct Rd { t: Vec<String>, i: usize, ns: String }
type R<T> = Result<T, String>;
impl Rd {
    fn new(s: &str) -> R<Self> {
        let c: Vec<char> = s.chars().collect();
        let (mut t, mut i) = (vec![], 0);
        while i < c.len() {
            if c[i].is_whitespace() { i += 1; continue; }
            if c[i] == '/' && c.get(i + 1) == Some(&'/') {
                while i < c.len() && c[i] != '\n' { i += 1; }
                continue;
            }
            if c[i] == '/' && c.get(i + 1) == Some(&'*') {
                i += 2;
                while i + 1 < c.len() && !(c[i] == '*' && c[i + 1] == '/') { i += 1; }
                i += 2;
                continue;
            }
            let w = |x: char| x.is_ascii_alphanumeric() || x == '_';
            let j = i;
            if w(c[i]) { while i < c.len() && w(c[i]) { i += 1; } }
            else if c[i] == '*' && c.get(i + 1) == Some(&'*') { i += 2; }
            else if "+-*()[]{}=;:,.'".contains(c[i]) { i += 1; }
            else { return Err(format!("unexpected {:?}", c[i])); }
            t.push(c[j..i].iter().collect());
        }
        Ok(Rd { t, i: 0, ns: String::new() })
    }
    fn p(&self) -> &str { self.t.get(self.i).map_or("", |s| s) }
    fn take(&mut self, x: &str) -> bool { let r = self.p() == x; if r { self.i += 1; } r }
    fn need(&mut self, x: &str) -> R<()> { if self.take(x) { Ok(()) } else { Err(format!("expected {x}, found {:?} (token {})", self.p(), self.i)) } }
    fn name(&mut self) -> R<String> {
        let s = self.p().to_string();
        if s.chars().next().map_or(true, |c| !(c.is_ascii_alphabetic() || c == '_')) { return Err(format!("expected a name, found {s:?}")); }
        self.i += 1;
        Ok(s)
    }
    fn num(&mut self) -> R<u64> { let r = self.p().parse().map_err(|_| format!("expected a number, found {:?}", self.p())); self.i += 1; r }
    fn idx(&mut self, a: &str, b: &str) -> R<usize> { self.need(a)?; let r = self.num()?; self.need(b)?; Ok(r as usize) }
    fn doc(&mut self) -> R<Doc> {
        let mut d = Doc::default();
        while self.i < self.t.len() {
            if self.take("let") {
                let n = self.name()?;
                self.need(":")?; self.name()?; self.need("=")?;
                let b = self.num()?;
                self.need("**")?;
                let e = self.num()?;
                if n != "N" || b != 2 || d.bits.is_some() { return Err(format!("let {n} = {b}**{e}")); }
                d.bits = Some(e);
            } else if self.take("namespace") {
                self.ns = self.name()?;
                self.need("(")?;
                if self.name()? != "N" { return Err("namespace size".into()); }
                self.need(")")?;
            } else if self.take("pol") {
                if self.p() == "constant" || self.p() == "commit" {
                    self.i += 1;
                    let n = self.name()?;
                    let k = if self.p() == "[" { self.idx("[", "]")? } else { 0 };
                    if d.cols.insert((self.ns.clone(), n.clone()), k).is_some() { d.dup = Some(n); }
                } else {
                    let n = self.name()?;
                    self.need("=")?;
                    let e = self.expr()?;
                    if d.pols.insert((self.ns.clone(), n.clone()), e).is_some() { d.dup = Some(n); }
                }
            } else if self.take("public") {
                let n = self.name()?;
                self.need("=")?;
                let a = self.name()?;
                let c = self.idx("[", "]")?;
                let r = self.idx("(", ")")?;
                if d.publics.insert(n.clone(), (a, c, r)).is_some() { d.dup = Some(n); }
            } else if self.p() == "[" {
                let l = self.list()?;
                self.need("connect")?;
                let r = self.list()?;
                if l.len() != r.len() { return Err("connection".into()); }
                d.conn.extend(l.into_iter().zip(r));
            } else {
                let l = self.expr()?;
                self.need("=")?;
                let r = self.expr()?;
                d.ids.push(E::B('-', Box::new(l), Box::new(r)));
            }
            self.need(";")?;
        }
        Ok(d)
    }
    fn list(&mut self) -> R<Vec<E>> {
        self.need("[")?;
        let mut v = vec![self.expr()?];
        while self.take(",") { v.push(self.expr()?); }
        self.need("]")?;
        Ok(v)
    }
    fn expr(&mut self) -> R<E> {
        let mut a = self.term()?;
        loop {
            if self.take("+") { a = E::B('+', Box::new(a), Box::new(self.term()?)); }
            else if self.take("-") { a = E::B('-', Box::new(a), Box::new(self.term()?)); }
            else { return Ok(a); }
        }
    }
    fn term(&mut self) -> R<E> {
        let mut a = self.unary()?;
        while self.take("*") { a = E::B('*', Box::new(a), Box::new(self.unary()?)); }
        Ok(a)
    }
    fn unary(&mut self) -> R<E> {
        if self.take("-") { return Ok(E::B('-', Box::new(E::N(0)), Box::new(self.unary()?))); }
        let a = self.prim()?;
        if self.take("**") {
            let k = self.num()?;
            return Ok((0..k).fold(E::N(1), |r, _| E::B('*', Box::new(r), Box::new(a.clone()))));
        }
        Ok(a)
    }
    fn prim(&mut self) -> R<E> {
        if self.take("(") { let e = self.expr()?; self.need(")")?; return Ok(e); }
        if self.take(":") { return Ok(E::Pub(self.name()?)); }
        if self.p().chars().next().map_or(false, |c| c.is_ascii_digit()) { return Ok(E::N(self.num()? % P)); }
        let (mut ns, mut n) = (self.ns.clone(), self.name()?);
        if self.take(".") { ns = n; n = self.name()?; }
        let x = if self.p() == "[" { Some(self.idx("[", "]")?) } else { None };
        Ok(E::V(ns, n, x, self.take("'")))
    }
}
/// cells: (namespace, name, index) -> column; publics by name
struct Ev<'a> { d: &'a Doc, cells: &'a dyn Fn(&str, &str, Option<usize>, usize) -> u64, publics: &'a dyn Fn(&str) -> R<u64>, memo: HashMap<(String, String, usize), u64> }
impl Ev<'_> {
    fn at(&mut self, e: &E, row: usize) -> R<u64> {
        Ok(match e {
            E::N(k) => *k,
            E::Pub(n) => (self.publics)(n)?,
            E::B(o, a, b) => {
                let (x, y) = (self.at(a, row)?, self.at(b, row)?);
                match o { '+' => add(x, y), '-' => sub(x, y), _ => mul(x, y) }
            }
            E::V(ns, n, x, next) => {
                let row = row + *next as usize;
                let k = (ns.clone(), n.clone());
                if let Some(p) = self.d.pols.get(&k) {
                    if x.is_some() { return Err(format!("{n} has no index")); }
                    let m = (k.0, k.1, row);
                    if let Some(v) = self.memo.get(&m) { return Ok(*v); }
                    let v = self.at(&p.clone(), row)?;
                    self.memo.insert(m, v);
                    return Ok(v);
                }
                match self.d.cols.get(&k) {
                    None => return Err(format!("{ns}.{n} is not declared")),
                    Some(0) if x.is_none() => {}
                    Some(w) if x.map_or(false, |i| i < *w) => {}
                    _ => return Err(format!("{n}: index {x:?}")),
                }
                (self.cells)(ns, n, *x, row)
            }
        })
    }
}
fn read(bits: u64, n: usize) -> R<Doc> {
    let d = Rd::new(&render(bits as usize, n))?.doc()?;
    if let Some(n) = d.dup { return Err(format!("{n} is declared twice")); }
    ensure_eq!(d.bits, Some(bits), "the number of rows");
    let w = |k: &str| d.cols.get(&("Compressor".to_string(), k.to_string())).copied();
    ensure_eq!((w("a"), w("C"), w("S")), (Some(12), Some(12), Some(12)), "columns");
    Ok(d)
}
const SEL: [&str; 5] = ["GATE", "POSEIDON12", "CMULADD", "EVPOL4", "FFT4"];
/// all identities on row `row` of the trace
fn holds(d: &Doc, row: usize, cells: &dyn Fn(&str, &str, Option<usize>, usize) -> u64, publics: &dyn Fn(&str) -> R<u64>) -> R<bool> {
    let mut ev = Ev { d, cells, publics, memo: HashMap::new() };
    for e in &d.ids {
        if ev.at(e, row)? != 0 { return Ok(false); }
    }
    Ok(true)
}
fn lnum(n: &str) -> Option<usize> { n.strip_prefix('L').and_then(|k| k.parse().ok()) }

/// words: bits, publics, seed
fn publics(w: &[u64]) -> R<()> {
    let (bits, n) = (w[0] % 29, w[1] as usize % 700);
    let d = read(bits, n)?;
    ensure_eq!(d.publics.len(), n, "publics");
    for k in 0..n {
        ensure_eq!(d.publics.get(&format!("pub{k}")).cloned(), Some(("a".to_string(), k % 12, k / 12)), "public {k}");
    }
    let rows = n.div_ceil(12).max(1);
    for r in 0..rows {
        if !d.cols.contains_key(&("Global".to_string(), format!("L{}", r + 1))) { return Err(format!("no L{}", r + 1)); }
    }
    let mut s = w[2];
    let mut tr = vec![[0u64; 12]; rows + 2];
    for c in tr.iter_mut().flatten() { s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); *c = (s >> 1) % P; }
    let run = |tr: &Vec<[u64; 12]>, p: &dyn Fn(&str) -> R<u64>, rows: &[usize]| -> R<bool> {
        let cells = |ns: &str, nm: &str, x: Option<usize>, row: usize| -> u64 {
            if ns == "Global" { return (lnum(nm) == Some(row + 1)) as u64; }
            match (nm, x) { ("a", Some(i)) => tr[row][i], _ if SEL.contains(&nm) => 0, (_, i) => (row as u64 * 77 + i.unwrap_or(5) as u64 * 13 + 9) % P }
        };
        for &r in rows { if !holds(&d, r, &cells, p)? { return Ok(false); } }
        Ok(true)
    };
    let val = |nm: &str| -> R<(usize, u64)> {
        let k: usize = nm.strip_prefix("pub").and_then(|k| k.parse().ok()).filter(|k| *k < n).ok_or(format!("no public {nm}"))?;
        Ok((k, tr[k / 12][k % 12]))
    };
    let all: Vec<usize> = (0..rows + 1).collect();
    if !run(&tr, &|nm| Ok(val(nm)?.1), &all)? { return Err("a trace that holds the publics is refused".into()); }
    for k in 0..n {
        if n > 60 && (k as u64 * 7 + w[2]) % 9 != 0 && k + 13 < n { continue; }
        if run(&tr, &|nm| { let (i, v) = val(nm)?; Ok(if i == k { add(v, 1 + w[2] % 1000) } else { v }) }, &[k / 12])? { return Err(format!("any value is accepted for public {k}")); }
    }
    let conn: Vec<(String, String)> = d.conn.iter().map(|(a, b)| { let f = |e: &E| match e { E::V(ns, n, x, false) => format!("{ns}.{n}[{x:?}]"), _ => "?".into() }; (f(a), f(b)) }).collect();
    let mut want: Vec<(String, String)> = (0..12).map(|i| (format!("Compressor.a[{:?}]", Some(i)), format!("Compressor.S[{:?}]", Some(i)))).collect();
    let mut got = conn;
    got.sort(); want.sort();
    ensure_eq!(got, want, "connections");
    Ok(())
}
const CIRC: [u64; 12] = [17, 15, 41, 16, 2, 28, 13, 13, 39, 18, 34, 20];
fn mds(i: usize, j: usize) -> u64 { CIRC[(j + 12 - i) % 12] + if i == 0 && j == 0 { 8 } else { 0 } }
fn mul3(a: [u64; 3], b: [u64; 3]) -> [u64; 3] {
    let mut d = [0u64; 5];
    for i in 0..3 { for j in 0..3 { d[i + j] = add(d[i + j], mul(a[i], b[j])); } }
    [add(d[0], d[3]), add(add(d[1], d[3]), d[4]), add(d[2], d[4])]
}
fn add3(a: [u64; 3], b: [u64; 3]) -> [u64; 3] { [add(a[0], b[0]), add(a[1], b[1]), add(a[2], b[2])] }
fn t3(v: &[u64]) -> [u64; 3] { [v[0], v[1], v[2]] }
/// words: gate, publics, partial, then a[12], a'[12], C[12], and a change
fn gate(w: &[u64]) -> R<()> {
    let g = (w[0] % 5) as usize;
    let n = w[1] as usize % 40;
    let part = w[2] % 2;
    let f = |k: usize| w.get(3 + k).copied().unwrap_or(0) % P;
    let mut a: Vec<u64> = (0..12).map(f).collect();
    let mut nx: Vec<u64> = (12..24).map(f).collect();
    let c: Vec<u64> = (24..36).map(f).collect();
    // the cells the operation determines
    let mut outs: Vec<(bool, usize)> = vec![];
    let mut free_c = c.clone();
    match g {
        0 => {
            // the output coefficient is made invertible and the output cell solved for
            for (b, k) in [(0usize, 0usize), (0, 3), (6, 6), (6, 9)] {
                if free_c[b + 2] == 0 { free_c[b + 2] = 1; }
                let s = add(add(mul(free_c[b + 3], mul(a[k], a[k + 1])), mul(free_c[b], a[k])), add(mul(free_c[b + 1], a[k + 1]), free_c[b + 4]));
                let (mut i, mut e, mut q) = (1u64, P - 2, free_c[b + 2]);
                while e > 0 { if e & 1 == 1 { i = mul(i, q); } q = mul(q, q); e >>= 1; }
                a[k + 2] = mul(sub(0, s), i);
                outs.push((false, k + 2));
            }
        }
        1 => {
            let s: Vec<u64> = (0..12).map(|i| {
                let x = add(a[i], c[i]);
                let x2 = mul(x, x);
                if i == 0 || part == 0 { mul(mul(mul(x2, x2), x2), x) } else { x }
            }).collect();
            for i in 0..12 {
                nx[i] = (0..12).fold(0, |r, j| add(r, mul(mds(i, j), s[j])));
                outs.push((true, i));
            }
        }
        2 => {
            let x: Vec<u64> = (0..3).map(|i| mul(add(a[i], c[i]), c[9])).collect();
            let y: Vec<u64> = (3..6).map(|i| add(a[i], c[i])).collect();
            let z: Vec<u64> = (6..9).map(|i| mul(add(a[i], c[i]), c[10])).collect();
            let r = add3(mul3(t3(&x), t3(&y)), t3(&z));
            for i in 0..3 { a[9 + i] = r[i]; outs.push((false, 9 + i)); }
        }
        3 => {
            let z = t3(&nx[3..]);
            let mut r = t3(&nx);
            for k in [9, 6, 3, 0] { r = add3(mul3(r, z), t3(&a[k..])); }
            for i in 0..3 { nx[6 + i] = r[i]; outs.push((true, 6 + i)); }
        }
        _ => {
            for k in 0..3 {
                let x = |i: usize| a[3 * i + k];
                let (m, q) = (|i: usize, j: usize| mul(c[i], x(j)), |a: u64, b: u64| add(a, b));
                let e = [q(m(0, 0), m(1, 1)), sub(m(0, 0), m(1, 1))];
                let o = [q(m(2, 2), m(3, 3)), sub(m(4, 2), m(5, 3))];
                let two = [q(m(6, 0), m(7, 1)), sub(m(6, 0), m(7, 1)), q(m(6, 2), m(8, 3)), sub(m(6, 2), m(8, 3))];
                for i in 0..4 {
                    let four = if i < 2 { add(e[i], o[i]) } else { sub(e[i - 2], o[i - 2]) };
                    nx[3 * i + k] = add(four, two[i]);
                    outs.push((true, 3 * i + k));
                }
            }
        }
    }
    let d = read(20, n)?;
    let mut s = w[1] ^ w[0];
    let try_ = |a: &[u64], nx: &[u64], on: bool| -> R<bool> {
        let cells = |ns: &str, nm: &str, x: Option<usize>, row: usize| -> u64 {
            if ns == "Global" { return 0; }
            match (nm, x) {
                ("a", Some(i)) => if row == 0 { a[i] } else { nx[i] },
                ("C", Some(i)) => if row == 0 { free_c[i] } else { 0x1234567 + i as u64 },
                ("PARTIAL", _) => part,
                (s, _) if SEL.contains(&s) => (on && row == 0 && s == SEL[g]) as u64,
                _ => 3,
            }
        };
        holds(&d, 0, &cells, &|_| Ok(7))
    };
    if !try_(&a, &nx, false)? { return Err("a row no gate is selected on is refused".into()); }
    if !try_(&a, &nx, true)? { return Err(format!("{}: a row that obeys the operation is refused", SEL[g])); }
    for (next, i) in outs {
        s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let (mut a, mut nx) = (a.clone(), nx.clone());
        let c = if next { &mut nx[i] } else { &mut a[i] };
        *c = add(*c, 1 + s % (P - 1));
        if try_(&a, &nx, true)? { return Err(format!("{}: any value is accepted in cell {i} of the {} row", SEL[g], if next { "next" } else { "same" })); }
    }
    Ok(())
}
fn main() {
    main_with(vec![
        T { prop: "C25", name: "publics", min: 60, max: 0, gen: |g| { let n = if g.i < 50 { g.i } else { g.below(700) }; vec![g.below(29), n, g.next()] }, check: publics },
        T { prop: "C25", name: "gate", min: 60, max: 0, gen: |g| { let mut v = vec![g.i % 5, g.below(40), g.below(2)]; v.extend(g.fes(36)); v }, check: gate },
    ]);
}
